package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"image"
	"io"
	"math"
	"runtime"
	"sort"
	"sync"
	"time"

	"golang.org/x/image/math/f64"

	"github.com/oov/downscale"
	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"verif/pbt"
)

func init() {
	const stand = "github.com/oov/downscale is replaced by a stand-in"
	pbt.Register(&pbt.Prop{ID: "C24", Quick: 35000, Thorough: 300000, Run: c24,
		Rule:        "The same document is built and rendered with several tile sizes, CPU counts, destinations (parts of the canvas, parts of larger pictures, pictures that are not blank) and entry points; all pictures must agree exactly, and nothing outside the destination may change. Non-trivial: something is visible.",
		Assumptions: []string{stand},
	})
	pbt.Register(&pbt.Prop{ID: "C26", Quick: 40000, Thorough: 250000, Run: c26,
		Rule:        "Building, rendering, transforming and making thumbnails run with contexts that are done from the start, after a drawn number of bytes read or context checks, or at a random time; each call must return an error or a complete result that matches the reference, leave no goroutine behind, and the tree must render correctly afterwards. A call on a large document whose context is done from the start must leave a part of the work undone (rows of the picture, or a quarter of the bytes the whole work allocates). Non-trivial: a call was aborted.",
		Assumptions: []string{"the blend package is trusted here (C15 to C20)", stand},
	})
	pbt.Register(&pbt.Prop{ID: "C27", Quick: 40000, Thorough: 250000, Run: c27,
		Rule:        "Trees are transformed, when built or later, by the identity, moves by whole pixels, flips, quarter turns, (uniformly colored layers) magnifications and any other matrix; the rendering must be the transformed reference rendering, or the reference rendering of the resampled layers. Non-trivial: something is visible and the transformation is not the identity.",
		Assumptions: []string{"the blend package is trusted here (C15 to C20)", "golang.org/x/image/draw is trusted", stand},
	})
	pbt.Register(&pbt.Prop{ID: "C28", Quick: 60000, Thorough: 300000, Run: c28,
		Rule:        "Thumbnails of every layer, alone, all together and as a sheet, are compared with the layer's visible pixels cut from the model and scaled by the same library. Non-trivial: at least one layer has a thumbnail.",
		Assumptions: []string{stand + "; how it scales is not under test"},
	})
}

func c24(t *pbt.T) {
	setProcs(t)
	sc := genScene(t, rare(t, 150, genOpts{maxDim: pbt.Pick(t, 8, 20, 40), maxLayers: pbt.Pick(t, 3, 8), simple: true, sparse: t.Bool(25), dense: t.Bool(50)}))
	canvas := image.Rect(0, 0, sc.w, sc.h)
	t.Descf("%s", sc)
	opt := composite.Options{}
	if t.Bool(15) {
		opt.TransformMatrix = anyMatrix(t)
		opt.Gamma = pbt.Pick(t, 0, 0, 2.2)
		t.Descf("matrix %v gamma %g", opt.TransformMatrix, opt.Gamma)
		t.Label("with a matrix")
	}
	var want *image.NRGBA
	runs := 2 + t.N(4)
	var region image.Rectangle
	for _, n := range sc.all {
		region = region.Union(trimmed(n))
	}
	region = region.Intersect(canvas)
	for i := 0; i < runs; i++ {
		procs := setProcs(t)
		tile := genTile(t, sc)
		if i == 0 {
			tile = pbt.Pick(t, 64, tile)
		}
		o := opt
		o.TileSize = tile
		tr, err := composite.New(context.Background(), bytes.NewReader(sc.data), &o)
		if err != nil {
			t.Fatalf("New fails on a well-formed document: %v", err)
		}
		what := fmt.Sprintf("with tile size %d and %d CPUs", tile, procs)
		if want == nil {
			if canvas = tr.CanvasRect; canvas.Empty() {
				return
			}
			want = renderNew(t, tr, canvas)
			if visible(want) {
				t.NonTrivial()
			}
			t.Descf("first %s", what)
			continue
		}
		procs = setProcs(t)
		r := canvas
		if t.Bool(60) {
			x, y := t.N(canvas.Dx()), t.N(canvas.Dy())
			r = image.Rect(x, y, x+1+t.N(canvas.Dx()-x), y+1+t.N(canvas.Dy()-y)).Add(canvas.Min)
			t.Label("part of the canvas")
		}
		outer := r
		if t.Bool(50) {
			outer = image.Rect(r.Min.X-t.N(4), r.Min.Y-t.N(4), r.Max.X+t.N(4), r.Max.Y+t.N(4))
		}
		full := image.NewNRGBA(outer)
		dirty := t.Bool(50) && opt.TransformMatrix == (f64.Aff3{})
		if dirty {
			for k := range full.Pix {
				full.Pix[k] = byte(k*7 + 13)
			}
			t.Label("destination is not blank")
		}
		before := append([]byte(nil), full.Pix...)
		dest := full.SubImage(r).(*image.NRGBA)
		f, name := tr.Renderer.Render, "Render"
		if t.Bool(30) {
			f, name = tr.Renderer.RenderDiff, "RenderDiff"
		}
		t.Descf("then %s %s into %v, part of %v, rendered on %d CPUs, blank %v", name, what, r, outer, procs, !dirty)
		if err := f(context.Background(), dest); err != nil {
			t.Fatalf("%s fails: %v", name, err)
		}
		cmp := r
		if dirty {
			cmp = r.Intersect(region)
		}
		if d := differ(dest, want, cmp); d != "" {
			t.Fatalf("the rendering depends on tile size, CPUs or destination: %s", d)
		}
		for y := outer.Min.Y; y < outer.Max.Y; y++ {
			for x := outer.Min.X; x < outer.Max.X; x++ {
				if (image.Point{X: x, Y: y}).In(r) {
					continue
				}
				o := full.PixOffset(x, y)
				if !bytes.Equal(before[o:o+4], full.Pix[o:o+4]) {
					t.Fatalf("rendering changes (%d,%d) outside the destination", x, y)
				}
			}
		}
		if t.Bool(50) { // once more, now from the cache
			procs = setProcs(t)
			if t.Bool(50) && opt.TransformMatrix == (f64.Aff3{}) {
				for y := r.Min.Y; y < r.Max.Y; y++ {
					row := dest.Pix[dest.PixOffset(r.Min.X, y):][:r.Dx()*4]
					for k := range row {
						row[k] = byte(k*5 + 29)
					}
				}
				cmp = r.Intersect(region)
				t.Label("rendered again over something else")
			}
			if err := tr.Renderer.Render(context.Background(), dest); err != nil {
				t.Fatalf("Render fails: %v", err)
			}
			if d := differ(dest, want, cmp); d != "" {
				t.Fatalf("rendering again gives another picture: %s", d)
			}
			t.Label("rendered again")
		}
		if i == runs-1 && t.Bool(35) {
			c24together(t, tr, canvas, want)
		}
	}
}

// c24together renders one tree several times at once: some renderings are
// aborted, and unchanged layers are announced meanwhile.
func c24together(t *pbt.T, tr *composite.Tree, canvas image.Rectangle, want *image.NRGBA) {
	n := 2 + t.N(4)
	layers := layersOf(tr)
	var ids []int
	for id := range layers {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	type job struct {
		abort, diff bool
		announce    *composite.Layer
		ctx         context.Context
		dest        *image.NRGBA
		err         error
	}
	jobs := make([]*job, n)
	for k := range jobs {
		j := &job{ctx: context.Background(), dest: image.NewNRGBA(canvas)}
		jobs[k] = j
		switch {
		case k == 0:
		case t.Bool(25):
			j.abort = true
			j.ctx = newCountCtx(t.N(3))
		case t.Bool(25):
			j.diff = true
		}
		if len(ids) > 0 && t.Bool(50) {
			j.announce = layers[ids[t.N(len(ids))]]
		}
		t.Descf("at once: abort %v, diff %v, announce %v", j.abort, j.diff, j.announce != nil)
	}
	setProcs(t)
	t.Label("rendered several times at once")
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			<-start
			if j.announce != nil {
				tr.Renderer.SetDirtyByLayer(j.announce)
			}
			if j.diff {
				j.err = tr.Renderer.RenderDiff(j.ctx, j.dest)
			} else {
				j.err = tr.Renderer.Render(j.ctx, j.dest)
			}
		}(j)
	}
	close(start)
	wg.Wait()
	for k, j := range jobs {
		if j.err != nil {
			if !j.abort {
				t.Fatalf("rendering %d of %d at once fails: %v", k, n, j.err)
			}
			continue
		}
		if j.diff {
			continue
		}
		if d := differ(j.dest, want, canvas); d != "" {
			t.Fatalf("rendering %d of %d at once gives another picture: %s", k, n, d)
		}
	}
	after := image.NewNRGBA(canvas)
	if err := tr.Renderer.Render(context.Background(), after); err != nil {
		t.Fatalf("Render fails after renderings at once: %v", err)
	}
	if d := differ(after, want, canvas); d != "" {
		t.Fatalf("the rendering after %d at once gives another picture: %s", n, d)
	}
}

// countCtx is done from the n-th use on.
type countCtx struct {
	m    sync.Mutex
	left int
	ch   chan struct{}
	done bool
}

func newCountCtx(n int) *countCtx { return &countCtx{left: n, ch: make(chan struct{})} }

func (c *countCtx) use() {
	c.m.Lock()
	defer c.m.Unlock()
	if c.left--; c.left < 0 && !c.done {
		c.done = true
		close(c.ch)
	}
}
func (c *countCtx) stop() {
	c.m.Lock()
	defer c.m.Unlock()
	if !c.done {
		c.done = true
		close(c.ch)
	}
}
func (c *countCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *countCtx) Done() <-chan struct{}       { c.use(); return c.ch }
func (c *countCtx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	if c.done {
		return context.Canceled
	}
	return nil
}
func (c *countCtx) Value(interface{}) interface{} { return nil }

// hookReader calls f after n bytes.
type hookReader struct {
	r io.Reader
	n int
	f func()
}

func (h *hookReader) Read(p []byte) (int, error) {
	if len(p) > 16 {
		p = p[:16]
	}
	n, err := h.r.Read(p)
	if h.n >= 0 {
		if h.n -= n; h.n < 0 {
			h.f()
		}
	}
	return n, err
}

// settle waits until the goroutines of the call are gone.
func settle(base int) bool {
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return false
}

func c26(t *pbt.T) {
	if t.N(100) == 99 {
		c26Stop(t)
		return
	}
	setProcs(t)
	sc := genScene(t, genOpts{maxDim: pbt.Pick(t, 8, 20, 40), maxLayers: pbt.Pick(t, 3, 8), simple: true, sparse: t.Bool(25), dense: t.Bool(50)})
	canvas := image.Rect(0, 0, sc.w, sc.h)
	tile := genTile(t, sc)
	t.Descf("%stile %d", sc, tile)
	base := runtime.NumGoroutine()
	var undo []func()
	// stopCtx draws a context and how it stops.
	stopCtx := func() (context.Context, string, func()) {
		switch t.N(4) {
		case 0:
			c := newCountCtx(0)
			c.stop()
			return c, "done from the start", c.stop
		case 1:
			n := t.N(12)
			c := newCountCtx(n)
			return c, fmt.Sprintf("done after %d checks", n), c.stop
		case 2:
			c := newCountCtx(1 << 30)
			n := t.N(60)
			go func() {
				time.Sleep(time.Duration(n) * time.Microsecond)
				c.stop()
			}()
			return c, fmt.Sprintf("done after %d us", n), c.stop
		}
		ctx, cancel := context.WithCancel(context.Background())
		if t.Bool(50) {
			cancel()
		}
		return ctx, "WithCancel", cancel
	}
	aborted := 0
	check := func(what string, err error) bool {
		if err == nil {
			return true
		}
		if !errors.Is(err, composite.ErrAborted) {
			t.Fatalf("%s was cancelled, but the error is not ErrAborted: %v", what, err)
		}
		aborted++
		t.Label("aborted %s", what)
		return false
	}
	want := sc.render(canvas)
	var tr *composite.Tree
	{
		ctx, how, stop := stopCtx()
		undo = append(undo, stop)
		var rd io.Reader = bytes.NewReader(sc.data)
		if t.Bool(40) {
			c := newCountCtx(1 << 30)
			n := t.N(len(sc.data))
			how = fmt.Sprintf("done after %d bytes", n)
			rd = &hookReader{r: rd, n: n, f: c.stop}
			ctx, stop = c, c.stop
			undo = append(undo, stop)
		}
		opt := &composite.Options{TileSize: tile}
		if t.Bool(30) {
			opt.TransformMatrix = f64.Aff3{1, 0, 0, 0, 1, 0}
		}
		t.Descf("New, %s", how)
		a, err := composite.New(ctx, rd, opt)
		if check("New", err) {
			tr = a
			if s := treeDiff(tr, sc, false); s != "" {
				t.Fatalf("New returns a tree that is not complete: %s", s)
			}
		} else {
			if a != nil {
				t.Fatalf("New returns a tree and an error")
			}
			tr = build(t, sc, tile)
		}
	}
	dest := image.NewNRGBA(canvas)
	var moved *image.NRGBA
	for i, ops := 0, 1+t.N(4); i < ops; i++ {
		ctx, how, stop := stopCtx()
		undo = append(undo, stop)
		setProcs(t)
		switch t.N(4) {
		case 0, 1:
			name, f := "Render", tr.Renderer.Render
			if t.Bool(60) {
				name, f = "RenderDiff", tr.Renderer.RenderDiff
			}
			t.Descf("%s, %s", name, how)
			prev := append([]byte(nil), dest.Pix...)
			if check(name, f(ctx, dest)) {
				if d := differ(dest, want, canvas); d != "" {
					t.Fatalf("%s reports no error but gives a wrong picture %s", name, d)
				}
			} else if t.Bool(50) {
				// the difference is to the last complete picture
				copy(dest.Pix, prev)
				t.Descf("back to the picture before")
			}
		case 2:
			t.Descf("Transform, %s", how)
			nt, err := tr.Transform(ctx, f64.Aff3{1, 0, 3, 0, 1, 2}, 0)
			if check("Transform", err) {
				if s := treeDiff(nt, sc, false); s != "" {
					t.Fatalf("Transform gives a tree that is not complete: %s", s)
				}
				if moved == nil {
					ref, err := tr.Transform(context.Background(), f64.Aff3{1, 0, 3, 0, 1, 2}, 0)
					if err != nil {
						t.Fatalf("Transform fails: %v", err)
					}
					moved = renderNew(t, ref, canvas)
				}
				if d := differ(renderNew(t, nt, canvas), moved, canvas); d != "" {
					t.Fatalf("Transform reports no error but gives another tree than without a cancellation %s", d)
				}
				if !t.Bool(50) {
					break
				}
				id, err := nt.Transform(context.Background(), f64.Aff3{1, 0, 0, 0, 1, 0}, 0)
				if err != nil {
					t.Fatalf("Transform fails: %v", err)
				}
				a, b := renderNew(t, nt, canvas), renderNew(t, id, canvas)
				if d := differ(a, b, canvas); d != "" {
					t.Fatalf("the transformed tree is damaged %s", d)
				}
			} else if nt != nil {
				t.Fatalf("Transform returns a tree and an error")
			}
		case 3:
			t.Descf("ThumbnailSheet, %s", how)
			img, m, err := tr.ThumbnailSheet(ctx, 5)
			if check("ThumbnailSheet", err) {
				cnt := 0
				for _, n := range sc.all {
					if !n.folder && !trimmed(n).Empty() {
						cnt++
					}
				}
				if len(m) != cnt {
					t.Fatalf("ThumbnailSheet has %d of %d layers", len(m), cnt)
				}
			} else if img != nil || m != nil {
				t.Fatalf("ThumbnailSheet returns a picture and an error")
			}
		}
	}
	for _, f := range undo {
		f()
	}
	if !settle(base) {
		t.Fatalf("%d goroutines are left", runtime.NumGoroutine()-base)
	}
	if err := tr.Renderer.RenderDiff(context.Background(), dest); err != nil {
		t.Fatalf("RenderDiff fails: %v", err)
	}
	if d := differ(dest, want, canvas); d != "" {
		t.Fatalf("RenderDiff after aborted calls gives a wrong picture %s", d)
	}
	if d := differ(renderNew(t, tr, canvas), want, canvas); d != "" {
		t.Fatalf("Render after aborted calls gives a wrong picture %s", d)
	}
	if aborted > 0 {
		t.NonTrivial()
	}
}

// trimmed gives the bounds of the visible pixels of a layer.
func trimmed(n *node) image.Rectangle {
	var r image.Rectangle
	w := n.rect.Dx()
	for i := 3; i < len(n.pix); i += 4 {
		if n.pix[i] > 0 {
			p := image.Pt(n.rect.Min.X+i/4%w, n.rect.Min.Y+i/4/w)
			r = r.Union(image.Rectangle{Min: p, Max: p.Add(image.Pt(1, 1))})
		}
	}
	return r
}

// otherTree makes a copy of the tree, or one with transformed layers, and nodes
// with the pixels that its layers have when they are drawn alone.
func otherTree(t *pbt.T, sc *scene, tr *composite.Tree) (*composite.Tree, []*node, bool) {
	var err error
	canvas := image.Rect(0, 0, sc.w, sc.h)
	m := f64.Aff3{1, 0, float64(t.Signed(20)), 0, 1, float64(t.Signed(20))}
	if t.Bool(70) {
		if a := anyMatrix(t); math.Abs(a[0]*a[4]-a[1]*a[3]) >= 1 {
			m = a
		}
	}
	clone := t.Bool(25)
	if clone {
		tr = tr.Clone()
		t.Descf("of a clone")
	} else {
		gamma := pbt.Pick(t, 0, 0, 2.2)
		t.Descf("of the tree transformed by %v, gamma %v", m, gamma)
		if tr, err = tr.Transform(context.Background(), m, gamma); err != nil {
			t.Fatalf("Transform fails: %v", err)
		}
	}
	t.Label("thumbnails of another tree")
	var nodes []*node
	for _, n := range sc.all {
		c := *n
		if !clone && !n.folder && !n.rect.Empty() {
			if !n.rect.In(canvas) {
				t.Label("layer beyond the canvas")
				return nil, nil, true
			}
			tr2 := tr.Clone()
			ls := layersOf(tr2)
			for _, l := range ls {
				l.Visible, l.Opacity, l.BlendMode = false, 255, psd.BlendModeNormal
				l.MaskEnabled, l.Clipping, l.ClippedBy, l.Clip = false, false, nil, nil
			}
			for l := ls[n.seq]; l != nil && l.SeqID != composite.SeqIDRoot; l = l.Parent {
				l.Visible = true
			}
			// the blurred edge of the layer may be outside of what is rendered
			tr2.Rect = tr2.Rect.Inset(-20)
			p := renderNew(t, tr2, tr2.Rect)
			c.rect, c.pix = p.Rect, p.Pix
		}
		nodes = append(nodes, &c)
	}
	return tr, nodes, false
}

func c28(t *pbt.T) {
	procs := setProcs(t)
	sc := genScene(t, rare(t, 150, genOpts{maxDim: pbt.Pick(t, 4, 12, 30), maxLayers: pbt.Pick(t, 2, 6, 14), simple: true, dense: t.Bool(30)}))
	tile := genTile(t, sc)
	size := pbt.Pick(t, 8, 1, 2, 3, 5, 16, 33)
	if t.Bool(2) {
		size = pbt.Pick(t, 64, 128, 300)
	}
	if len(sc.all) <= 4 && t.N(400) == 399 { // sheets of the greatest size, or beyond
		size = pbt.Pick(t, 1025, 2048, 2049, 4096, 4097)
		t.Label("sheet of the greatest size, or beyond")
	}
	t.Descf("%stile %d, CPUs %d, thumbnail size %d", sc, tile, procs, size)
	tr := build(t, sc, tile)
	nodes := sc.all
	if t.Bool(25) {
		var out bool
		if tr, nodes, out = otherTree(t, sc, tr); out {
			return
		}
	}
	alone := map[int]*image.NRGBA{}
	for _, n := range nodes {
		var buf []byte
		if t.Bool(50) {
			buf = t.Bytes(t.N(3000))
		}
		th, err := tr.Thumbnail(n.seq, size, buf)
		tight := trimmed(n)
		if n.folder || tight.Empty() {
			if err == nil {
				t.Fatalf("layer #%d has no visible pixels but a thumbnail", n.seq)
			}
			continue
		}
		if err != nil {
			t.Fatalf("no thumbnail of layer #%d: %v", n.seq, err)
		}
		t.NonTrivial()
		checkThumb(t, n, tight, th, size)
		alone[n.seq] = th
	}
	if _, err := tr.Thumbnail(len(sc.doc.Layers)+5, size, nil); err == nil {
		t.Fatalf("a layer that does not exist has a thumbnail")
	}
	all, err := tr.Thumbnails(context.Background(), size)
	if err != nil {
		t.Fatalf("Thumbnails fails: %v", err)
	}
	if len(all) != len(alone) {
		t.Fatalf("Thumbnails gives %d of %d layers", len(all), len(alone))
	}
	for id, th := range alone {
		if all[id] == nil || all[id].Rect != th.Rect {
			t.Fatalf("Thumbnails gives layer #%d another size than Thumbnail", id)
		}
		if d := differ(all[id], th, th.Rect); d != "" {
			t.Fatalf("Thumbnails gives layer #%d another picture than Thumbnail %s", id, d)
		}
	}
	sheet, pos, err := tr.ThumbnailSheet(context.Background(), size)
	if n := 4096 / size; len(alone) > n*n {
		if err == nil {
			t.Fatalf("ThumbnailSheet puts %d layers of size %d on a sheet", len(alone), size)
		}
		return
	}
	if err != nil {
		t.Fatalf("ThumbnailSheet fails: %v", err)
	}
	if len(pos) != len(alone) {
		t.Fatalf("the sheet has %d of %d layers", len(pos), len(alone))
	}
	used := map[int]image.Rectangle{}
	for id, r := range pos {
		th := alone[id]
		if th == nil {
			t.Fatalf("the sheet has a rectangle for layer #%d", id)
		}
		if !r.In(sheet.Rect) {
			t.Fatalf("the rectangle %v of layer #%d is not in the sheet %v", r, id, sheet.Rect)
		}
		if r.Dx() != size || r.Dy() != size {
			t.Fatalf("the rectangle %v of layer #%d is not of size %d", r, id, size)
		}
		for id2, r2 := range used {
			if r.Overlaps(r2) {
				t.Fatalf("layers #%d and #%d overlap in the sheet", id, id2)
			}
		}
		used[id] = r
		o := image.Pt(r.Min.X+(size-th.Rect.Dx())/2, r.Min.Y+(size-th.Rect.Dy())/2)
		inner := th.Rect.Add(o)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				g := sheet.NRGBAAt(x, y)
				if !(image.Point{X: x, Y: y}).In(inner) {
					if g.A != 0 {
						t.Fatalf("the sheet has %v beside the thumbnail of layer #%d", g, id)
					}
					continue
				}
				w := th.NRGBAAt(x-o.X, y-o.Y)
				if g != w && (g.A != 0 || w.A != 0) {
					t.Fatalf("the sheet shows layer #%d as %v at (%d,%d), the thumbnail has %v", id, g, x-o.X, y-o.Y, w)
				}
			}
		}
	}
	for y := sheet.Rect.Min.Y; y < sheet.Rect.Max.Y; y++ {
		for x := sheet.Rect.Min.X; x < sheet.Rect.Max.X; x++ {
			if sheet.NRGBAAt(x, y).A == 0 {
				continue
			}
			in := false
			for _, r := range pos {
				in = in || (image.Point{X: x, Y: y}).In(r)
			}
			if !in {
				t.Fatalf("the sheet has a pixel at (%d,%d), where no layer is", x, y)
			}
		}
	}
}

func checkThumb(t *pbt.T, n *node, tight image.Rectangle, th *image.NRGBA, size int) {
	w, h := tight.Dx(), tight.Dy()
	tw, thh := th.Rect.Dx(), th.Rect.Dy()
	if tw > size || thh > size || tw < 1 || thh < 1 || tw < size && thh < size {
		t.Fatalf("the thumbnail of layer #%d (%dx%d pixels) is %dx%d, wanted size %d", n.seq, w, h, tw, thh, size)
	}
	l, s, gl, gs := w, h, tw, thh
	if w < h {
		l, s, gl, gs = h, w, thh, tw
	}
	if gl != size || gs*l > s*size+l || gs*l < s*size-l {
		t.Fatalf("the thumbnail of layer #%d (%dx%d pixels) is %dx%d, which changes the aspect ratio", n.seq, w, h, tw, thh)
	}
	src := refr{tight}.content(n)
	want := image.NewNRGBA(image.Rect(0, 0, tw, thh))
	if err := downscale.NRGBAFast(context.Background(), want, src); err != nil {
		t.Fatalf("%v", err)
	}
	got := *th
	got.Rect = got.Rect.Sub(got.Rect.Min)
	if d := differ(&got, want, want.Rect); d != "" {
		t.Fatalf("the thumbnail of layer #%d does not show its pixels %s", n.seq, d)
	}
}

// anyMatrix draws a matrix that is not singular.
func anyMatrix(t *pbt.T) f64.Aff3 {
	for {
		var m f64.Aff3
		for i := range m {
			m[i] = float64(t.Signed(24)) / 8
			if i%3 == 2 {
				m[i] *= 4
			}
		}
		if d := m[0]*m[4] - m[1]*m[3]; d > 0.05 || d < -0.05 {
			return m
		}
		m = f64.Aff3{1, 0, 0.5, 0, 1, 0.25}
		return m
	}
}

// c27any compares documents that mean the same under arbitrary matrices: masks
// that hide nothing against no masks, masks that hide all against hidden layers.
func c27any(t *pbt.T) {
	procs := setProcs(t)
	sc := genScene(t, genOpts{maxDim: pbt.Pick(t, 6, 12), maxLayers: pbt.Pick(t, 2, 5), simple: true, noMasks: true, dense: t.Bool(60)})
	plain := sc.clone()
	m := anyMatrix(t)
	tile := genTile(t, sc)
	masked := 0
	for i, n := range sc.all {
		if t.Bool(30) {
			continue
		}
		masked++
		n.hasMask, n.maskOn, n.maskDef = true, true, pbt.Pick(t, 255, 255, 0)
		n.maskRect = genRect(t, sc, genOpts{})
		n.mask = make([]byte, n.maskRect.Dx()*n.maskRect.Dy())
		for k := range n.mask {
			n.mask[k] = byte(n.maskDef)
		}
		if n.maskDef == 0 && (n.mode != "pass" || len(n.clips) > 0) {
			plain.all[i].visible = false
			if len(n.clips) > 0 && !n.blendClip {
				for _, c := range plain.all[i].clips {
					c.visible = false
				}
			}
		} else if n.maskDef == 0 {
			plain.all[i].visible = false
		}
	}
	sc.encode(t, genOpts{})
	plain.encode(t, genOpts{})
	t.Descf("%stile %d, CPUs %d, matrix %v", sc, tile, procs, m)
	t.Label("any matrix")
	canvas := image.Rect(0, 0, sc.w, sc.h)
	r := canvas.Inset(-6)
	mk := func(s *scene) *composite.Tree {
		tr, err := composite.New(context.Background(), bytes.NewReader(s.data), &composite.Options{TileSize: tile, TransformMatrix: m})
		if err != nil {
			t.Fatalf("New fails: %v", err)
		}
		return tr
	}
	a, b := mk(sc), mk(plain)
	if a.CanvasRect != b.CanvasRect || a.Rect != b.Rect {
		t.Fatalf("masks that do nothing change the size from %v, %v to %v, %v", b.CanvasRect, b.Rect, a.CanvasRect, a.Rect)
	}
	r = a.CanvasRect
	want := renderNew(t, b, r)
	if visible(want) && masked > 0 {
		t.NonTrivial()
	}
	if d := differ(renderNew(t, a, r), want, r); d != "" {
		t.Fatalf("built with the matrix, masks that are the same everywhere change the picture %s", d)
	}
	var err error
	if a, err = build(t, sc, tile).Transform(context.Background(), m, 0); err != nil {
		t.Fatalf("Transform fails: %v", err)
	}
	if b, err = build(t, plain, tile).Transform(context.Background(), m, 0); err != nil {
		t.Fatalf("Transform fails: %v", err)
	}
	if d := differ(renderNew(t, a, r), renderNew(t, b, r), r); d != "" {
		t.Fatalf("transformed, masks that are the same everywhere change the picture %s", d)
	}
}

// transformed gives the picture b moved by the exact pixel map m.
func transformed(a *image.NRGBA, m f64.Aff3) *image.NRGBA {
	b := image.NewNRGBA(mapRect(a.Rect, m))
	for y := a.Rect.Min.Y; y < a.Rect.Max.Y; y++ {
		for x := a.Rect.Min.X; x < a.Rect.Max.X; x++ {
			p := mapRect(image.Rect(x, y, x+1, y+1), m)
			for yy := p.Min.Y; yy < p.Max.Y; yy++ {
				for xx := p.Min.X; xx < p.Max.X; xx++ {
					b.SetNRGBA(xx, yy, a.NRGBAAt(x, y))
				}
			}
		}
	}
	return b
}

// mapRect applies a matrix of integers that keeps the axes.
func mapRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
	f := func(p image.Point) image.Point {
		return image.Pt(int(m[0])*p.X+int(m[1])*p.Y+int(m[2]), int(m[3])*p.X+int(m[4])*p.Y+int(m[5]))
	}
	a, b := f(r.Min), f(r.Max)
	return image.Rect(a.X, a.Y, b.X, b.Y)
}

func c27(t *pbt.T) {
	procs := setProcs(t)
	kind := pbt.Pick(t, "move", "identity", "turn", "magnify", "gamma", "any", "resample")
	if kind == "any" {
		c27any(t)
		return
	}
	if kind == "resample" {
		c27resample(t)
		return
	}
	o := genOpts{maxDim: pbt.Pick(t, 6, 12, 24), maxLayers: pbt.Pick(t, 2, 5), simple: true, binary: true, dense: t.Bool(60)}
	if kind == "magnify" {
		o.opaque = true
		o.maxDim = 8
	}
	if kind == "gamma" {
		o.noMasks, o.onlyNormal, o.fullOpacity = true, true, true
	}
	if kind == "identity" {
		o.binary = false
	}
	sc := genScene(t, o)
	tile := genTile(t, sc)
	m := f64.Aff3{1, 0, 0, 0, 1, 0}
	gamma := 0.0
	switch kind {
	case "move", "gamma":
		m[2], m[5] = float64(t.Signed(20)), float64(t.Signed(20))
		if kind == "gamma" {
			gamma = pbt.Pick(t, 2.2, 1.8, 0.5, 1)
		}
	case "identity":
		gamma = pbt.Pick(t, 0, 2.2)
	case "turn":
		a, b := float64(1-2*t.N(2)), float64(1-2*t.N(2))
		m[2], m[5] = float64(t.Signed(20)), float64(t.Signed(20))
		if t.Bool(50) {
			m[0], m[4] = a, b
		} else {
			m[0], m[1], m[3], m[4] = 0, a, b, 0
		}
	case "magnify":
		m[0], m[4] = float64(pbt.Pick(t, 2, 4, 1)), float64(pbt.Pick(t, 2, 4, 1))
		m[2], m[5] = float64(t.Signed(6)), float64(t.Signed(6))
	}
	t.Descf("%stile %d, CPUs %d, %s %v gamma %g", sc, tile, procs, kind, m, gamma)
	t.Label("%s", kind)
	canvas := image.Rect(0, 0, sc.w, sc.h)
	ref := sc.render(canvas)
	if visible(ref) && kind != "identity" {
		t.NonTrivial()
	}
	want := transformed(ref, m)
	tol := 0
	if gamma != 0 && kind != "identity" {
		tol = 2
	}
	verify := func(tr *composite.Tree, how string) {
		if s := treeDiff(tr, sc, false); s != "" {
			t.Fatalf("%s: %s", how, s)
		}
		if tr.CanvasRect != want.Rect {
			t.Fatalf("%s: CanvasRect is %v, want %v", how, tr.CanvasRect, want.Rect)
		}
		if !tr.Rect.Empty() && !tr.Rect.In(tr.CanvasRect) {
			t.Fatalf("%s: Rect %v reaches outside the canvas %v", how, tr.Rect, tr.CanvasRect)
		}
		got := renderNew(t, tr, want.Rect)
		if tol > 0 {
			for i := range got.Pix {
				if d := int(got.Pix[i]) - int(want.Pix[i]); (d > tol || d < -tol) && want.Pix[i|3] > 0 {
					t.Fatalf("%s: byte %d of the picture is %d, want %d", how, i, got.Pix[i], want.Pix[i])
				}
			}
			return
		}
		if d := differ(got, want, want.Rect); d != "" {
			t.Fatalf("%s: the picture is not the transformed picture %s", how, d)
		}
	}
	opt := &composite.Options{TileSize: tile, TransformMatrix: m, Gamma: gamma}
	tr, err := composite.New(context.Background(), bytes.NewReader(sc.data), opt)
	if err != nil {
		t.Fatalf("New fails: %v", err)
	}
	verify(tr, "New with a matrix")
	if kind == "magnify" {
		// Transform interpolates at the edge of a layer.
		return
	}
	orig := build(t, sc, tile)
	if t.Bool(30) {
		renderNew(t, orig, canvas)
	}
	tr, err = orig.Transform(context.Background(), m, gamma)
	if err != nil {
		t.Fatalf("Transform fails: %v", err)
	}
	verify(tr, "Transform")
	if d := differ(renderNew(t, orig, canvas), ref, canvas); d != "" {
		t.Fatalf("Transform changes the original tree %s", d)
	}
	if kind == "gamma" {
		return
	}
	// and back
	det := m[0]*m[4] - m[1]*m[3]
	inv := f64.Aff3{m[4] / det, -m[1] / det, 0, -m[3] / det, m[0] / det, 0}
	inv[2] = -(inv[0]*m[2] + inv[1]*m[5])
	inv[5] = -(inv[3]*m[2] + inv[4]*m[5])
	back, err := tr.Transform(context.Background(), inv, gamma)
	if err != nil {
		t.Fatalf("Transform fails: %v", err)
	}
	m, want = inv, ref
	verify(back, "Transform back")
}
