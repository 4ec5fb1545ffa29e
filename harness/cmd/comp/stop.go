package main

import (
	"bytes"
	"context"
	"image"
	"runtime"

	"golang.org/x/image/math/f64"

	"github.com/oov/psd/composite"

	"verif/pbt"
)

// c26Stop checks that a cancelled call leaves the work that remains undone.
//
// There is only one CPU, so the worker of the code under test cannot start before the caller waits
// for it, and the document is large enough for the scheduler to come back to the caller many times.
func c26Stop(t *pbt.T) {
	runtime.GOMAXPROCS(1)
	const tile = 16
	sc := &scene{w: 96 + 16*t.N(4), h: 480 + t.N(200)}
	sc.root = &node{seq: -1, folder: true, visible: true, opacity: 255, mode: "norm", blendClip: true}
	canvas := image.Rect(0, 0, sc.w, sc.h)
	for i, n := 0, 4+t.N(5); i < n; i++ {
		l := &node{visible: true, opacity: 255, blendClip: true, mode: pbt.Pick(t, "sLit", "norm", "mul ", "colr"), hasAlpha: true, name: "L"}
		l.rect = canvas
		if i > 0 {
			l.rect = canvas.Add(image.Pt(t.N(3)-1, t.N(3)-1))
		}
		l.pix = make([]byte, sc.w*sc.h*4)
		x := uint32(t.N(1<<30)) | 1
		for k := range l.pix {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			l.pix[k] = byte(x>>8) | 1
		}
		sc.root.children = append(sc.root.children, l)
	}
	sc.encode(t, genOpts{})
	sc.link()
	op := pbt.Pick(t, "Render", "RenderDiff", "Transform", "New", "Thumbnails")
	t.Descf("%d layers of %dx%d, %s with a context that is done", len(sc.all), sc.w, sc.h, op)
	t.Label("stops: %s", op)
	done, cancel := context.WithCancel(context.Background())
	cancel()
	m := f64.Aff3{1, 0, 0.5, 0, 1, 0.25}

	// work reports what a call does: whether it fails, how many bytes it allocates and whether all
	// of its output is there.
	work := func(ctx context.Context) (failed bool, bytesUsed uint64, all bool) {
		var a, b runtime.MemStats
		var err error
		dest := image.NewNRGBA(canvas)
		var tr *composite.Tree
		if op != "New" {
			tr = build(t, sc, tile)
		}
		runtime.ReadMemStats(&a)
		switch op {
		case "Render":
			err = tr.Renderer.Render(ctx, dest)
		case "RenderDiff":
			err = tr.Renderer.RenderDiff(ctx, dest)
		case "Transform":
			_, err = tr.Transform(ctx, m, 0)
		case "Thumbnails":
			_, err = tr.Thumbnails(ctx, sc.h)
		case "New":
			_, err = composite.New(ctx, bytes.NewReader(sc.data), &composite.Options{TileSize: tile, TransformMatrix: m})
		}
		runtime.ReadMemStats(&b)
		all = true
		for y := 0; y < sc.h && all; y++ {
			all = dest.Pix[y*dest.Stride+3] != 0
		}
		return err != nil, b.TotalAlloc - a.TotalAlloc, all
	}
	failed, full, all := work(context.Background())
	if failed {
		t.Fatalf("%s fails", op)
	}
	render := op == "Render" || op == "RenderDiff"
	if render && !all {
		t.Fatalf("%s leaves rows of the picture out", op)
	}
	t.NonTrivial()
	var used uint64
	for i := 0; i < 4; i++ {
		failed, used, all = work(done)
		if !failed {
			return // it was complete before it could be stopped
		}
		if render && !all {
			return
		}
		if !render && used < full*3/4 {
			return
		}
	}
	if render {
		t.Fatalf("%s reports that it was cancelled, but draws the whole picture first", op)
	}
	t.Fatalf("%s reports that it was cancelled, but does all the work first (allocates %d bytes; %d when it is not cancelled)", op, used, full)
}
