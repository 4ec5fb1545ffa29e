package main

import (
	"bytes"
	"context"
	"image"
	"runtime"
	"strconv"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"verif/pbt"
	"verif/psdgen"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C32", Quick: 30000, Thorough: 250000, Run: c32,
		Rule:        "Documents that are deformed (channels, rectangles, masks, sections, compressed data, modes) or whose bytes are damaged are built into trees. The tree must be refused exactly when the document cannot be decoded or is not 8-bit RGB; an accepted tree must be linked up properly, render the same with another tile size and number of CPUs, and survive edits, cloning, transforming and thumbnails. Non-trivial: the document was deformed or damaged and a tree was built.",
		Assumptions: []string{"what can be decoded is decided by psd.Decode (C10, C11)", "pictures of more than 2^20 pixels are not transformed"},
	})
}

func c32(t *pbt.T) {
	procs := setProcs(t)
	var d *psdgen.Doc
	if t.Bool(50) {
		sc := genScene(t, genOpts{maxDim: pbt.Pick(t, 5, 12), maxLayers: pbt.Pick(t, 3, 6)})
		d = sc.doc
	} else {
		d = psdgen.GenDoc(t, psdgen.Opts{MaxDim: 10, MaxLayers: 4, Tree: true, Rich: true, Pixels: t.Bool(80), Place: true, ForceRGB8: true, NoMerged: true, WantLayers: true})
	}
	harmed := false
	for k := t.Weighted(3, 4, 2, 1); k > 0; k-- {
		psdgen.Deform(t, d)
		harmed = true
	}
	e := d.Encode()
	b := e.B
	if t.Bool(35) {
		b = psdgen.Mutate(t, d, e)
		harmed = true
	}
	t.Descf("%s", d.Summary())
	p, _, derr := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true})
	ok := derr == nil && p.Config.ColorMode == psd.ColorModeRGB && p.Config.Depth == 8
	tile := pbt.Pick(t, 0, 8, 64, 3, 16, 1)
	area := 0
	var all image.Rectangle
	count := 0
	if ok {
		walkLayers(p.Layer, func(l *psd.Layer) {
			count++
			if l.HasImage() && !l.Rect.Empty() {
				area += len(l.Channel) * l.Rect.Dx() * l.Rect.Dy()
				all = all.Union(l.Rect)
			}
			if !l.Mask.Rect.Empty() {
				if ch, ok := l.Channel[-2]; ok {
					area += len(ch.Data)
				}
			}
		})
		all = all.Intersect(p.Config.Rect)
		area += all.Dx() * all.Dy()
		if area > 10000 && tile < 16 && tile != 0 {
			tile = 16
		}
	}
	t.Descf("tile %d, CPUs %d", tile, procs)
	tr, err := composite.New(context.Background(), bytes.NewReader(b), &composite.Options{TileSize: tile})
	if (err == nil) != (tr != nil) {
		t.Fatalf("New returns the tree %p and the error %v", tr, err)
	}
	if ok != (err == nil) {
		t.Fatalf("New returns the error %v, but decoding the document returns %v (color mode and depth %v)", err, derr, p != nil && ok)
	}
	if !ok {
		t.Label("refused")
		return
	}
	t.Label("accepted")
	if harmed {
		t.NonTrivial()
	}
	if tr.CanvasRect != p.Config.Rect {
		t.Fatalf("CanvasRect is %v, want %v", tr.CanvasRect, p.Config.Rect)
	}
	if !tr.Rect.In(tr.CanvasRect) {
		t.Fatalf("Rect %v reaches outside the canvas %v", tr.Rect, tr.CanvasRect)
	}
	ls := layersOf(tr)
	if len(ls) != count {
		t.Fatalf("the tree has %d layers, the document %d", len(ls), count)
	}
	if s := linked(tr); s != "" {
		t.Fatalf("%s", s)
	}
	if area > 1<<22 {
		t.Label("large")
		return
	}
	view := tr.Rect.Inset(-3)
	if tr.Rect.Empty() {
		view = image.Rect(-3, -3, 20, 20)
	}
	got := renderNew(t, tr, view)
	runtime.GOMAXPROCS(pbt.Pick(t, 1, 2, 8))
	tile2 := pbt.Pick(t, 64, 16, 8)
	tr2, err := composite.New(context.Background(), bytes.NewReader(b), &composite.Options{TileSize: tile2})
	if err != nil {
		t.Fatalf("New succeeds, and fails with another tile size: %v", err)
	}
	if s := differ(renderNew(t, tr2, view), got, tr.Rect); s != "" {
		t.Fatalf("rendering with tile sizes %d and %d differs %s", tile, tile2, s)
	}
	// edits
	tc := tr.Clone()
	if s := linked(tc); s != "" {
		t.Fatalf("clone: %s", s)
	}
	for _, l := range layersOf(tc) {
		switch t.N(5) {
		case 0:
			l.Visible = !l.Visible
		case 1:
			l.Opacity = pbt.Pick(t, 0, 255, 128)
		case 2:
			l.BlendMode = pbt.Pick(t, psd.BlendModeNormal, psd.BlendModePassThrough, psd.BlendModeMultiply, psd.BlendMode("????"))
		case 3:
			l.MaskEnabled = !l.MaskEnabled
		default:
			continue
		}
		tc.Renderer.SetDirtyByLayer(l)
	}
	a := renderNew(t, tc, view)
	if s := differ(renderNew(t, tc, view), a, tr.Rect); s != "" {
		t.Fatalf("rendering the edited tree again differs %s", s)
	}
	if s := differ(renderNew(t, tr, view), got, tr.Rect); s != "" {
		t.Fatalf("rendering the tree again differs %s", s)
	}
	tr.Thumbnails(context.Background(), pbt.Pick(t, 1, 4, 32))
	tr.ThumbnailSheet(context.Background(), pbt.Pick(t, 1, 4, 32))
	if area > 1<<16 {
		t.Label("not transformed")
		return
	}
	m := pbt.Pick(t, [6]float64{1, 0, 5, 0, 1, -7}, [6]float64{-1, 0, 0, 0, 1, 0}, [6]float64{0, 1, 0, -1, 0, 0}, [6]float64{1.5, 0, 0, 0, 2, 0}, [6]float64{0.25, 0.1, 3, 0.2, 0.7, 0})
	far := false
	walkLayers(p.Layer, func(l *psd.Layer) {
		for _, r := range []image.Rectangle{l.Rect, l.Mask.Rect} {
			far = far || strconv.IntSize == 32 && !r.Empty() && !r.In(image.Rect(-1<<24, -1<<24, 1<<24, 1<<24))
		}
	})
	if far {
		t.Label("too far away to be transformed")
		return
	}
	tt, err := tr.Transform(context.Background(), m, pbt.Pick(t, 0, 2.2))
	if err != nil {
		t.Fatalf("Transform fails: %v", err)
	}
	if s := linked(tt); s != "" {
		t.Fatalf("transformed: %s", s)
	}
	view = tt.Rect.Inset(-3)
	if tt.Rect.Empty() {
		view = image.Rect(-3, -3, 20, 20)
	}
	if view.Dx()*view.Dy() > 1<<22 {
		return
	}
	renderNew(t, tt, view)
	t.Label("transformed")
}

func walkLayers(ls []psd.Layer, f func(l *psd.Layer)) {
	for i := range ls {
		f(&ls[i])
		walkLayers(ls[i].Layer, f)
	}
}

// linked tells what is wrong with the pointers of the tree.
func linked(tr *composite.Tree) string {
	seen := map[int]*composite.Layer{}
	bad := ""
	var walk func(l *composite.Layer)
	walk = func(l *composite.Layer) {
		for i := range l.Children {
			c := &l.Children[i]
			if seen[c.SeqID] != nil {
				bad = "a SeqID appears twice"
			}
			seen[c.SeqID] = c
			if c.Parent != l {
				bad = "a layer's Parent is not its parent"
			}
			walk(c)
		}
	}
	walk(&tr.Root)
	if tr.Root.Parent != nil {
		bad = "the root has a parent"
	}
	for _, c := range seen {
		for _, k := range c.Clip {
			if seen[k.SeqID] != k || k.ClippedBy != c || k.Parent != c.Parent {
				bad = "a layer of Clip is not linked to it"
			}
		}
		if c.ClippedBy != nil && seen[c.ClippedBy.SeqID] != c.ClippedBy {
			bad = "ClippedBy leads out of the tree"
		}
	}
	return bad
}
