package main

import (
	"bytes"
	"context"
	"image"
	"runtime"

	"github.com/oov/psd/composite"

	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C21", Quick: 100000, Thorough: 600000, Run: c21,
		Rule: "Generated documents (groups, pass-through, masks, clipping groups, all blend modes, layers reaching outside the canvas) are built into trees of several tile sizes, rendered, and compared exactly with a reference compositor that works on whole pictures. Non-trivial: something is visible.",
		Assumptions: []string{"the blend package is trusted here (C15 to C20)", "a pass-through group multiplies the opacity of its children; the base of a clipping group is isolated",
			"github.com/oov/downscale is replaced by a stand-in"},
	})
}

func setProcs(t *pbt.T) int {
	n := pbt.Pick(t, 4, 1, 2, 3, 8, 8, 4, 1, 2, 3, 5, 16, 61)
	runtime.GOMAXPROCS(n)
	return n
}

var tileSizes = []int{8, 1, 2, 3, 5, 7, 16, 64, 0}

func build(t *pbt.T, sc *scene, tile int) *composite.Tree {
	tr, err := composite.New(context.Background(), bytes.NewReader(sc.data), &composite.Options{TileSize: tile})
	if err != nil {
		t.Fatalf("New fails on a well-formed document: %v", err)
	}
	return tr
}

func genTile(t *pbt.T, sc *scene) int {
	k := tileSizes[t.N(len(tileSizes))]
	if sc.w*sc.h > 2000 {
		k = pbt.Pick(t, 64, 0, 16, 31, 32, 100, 128, 300)
	}
	if k > 0 && k < 3 && sc.w*sc.h > 200 {
		k += 5
	}
	return k
}

func renderNew(t *pbt.T, tr *composite.Tree, r image.Rectangle) *image.NRGBA {
	img := image.NewNRGBA(r)
	if err := tr.Renderer.Render(context.Background(), img); err != nil {
		t.Fatalf("Render fails: %v", err)
	}
	return img
}

func visible(m *image.NRGBA) bool {
	for i := 3; i < len(m.Pix); i += 4 {
		if m.Pix[i] != 0 {
			return true
		}
	}
	return false
}

func c21(t *pbt.T) {
	procs := setProcs(t)
	sc := genScene(t, rare(t, 150, genOpts{maxDim: pbt.Pick(t, 6, 12, 24), maxLayers: pbt.Pick(t, 2, 5, 10), simple: true, sparse: t.Bool(15), dense: t.Bool(50)}))
	tile := genTile(t, sc)
	t.Descf("%stile %d, CPUs %d", sc, tile, procs)
	canvas := image.Rect(0, 0, sc.w, sc.h)
	want := sc.render(canvas)
	if visible(want) {
		t.NonTrivial()
	}
	for _, n := range sc.all {
		if n.maskOn {
			t.Label("mask, default %d", n.maskDef)
		}
		if len(n.clips) > 0 {
			t.Label("clipping group, blended as group %v", n.blendClip)
		}
		if n.folder {
			t.Label("group")
			if n.mode == "pass" {
				t.Label("pass-through group")
			}
		}
	}
	tr := build(t, sc, tile)
	got := renderNew(t, tr, canvas)
	if d := differ(got, want, canvas); d != "" {
		t.Fatalf("rendering differs from the definition %s", d)
	}
}
