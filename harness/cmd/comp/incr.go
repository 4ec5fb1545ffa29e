package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C22", Quick: 90000, Thorough: 600000, Run: c22,
		Rule: "Histories of announced layer changes (visibility, opacity, blend mode, mask) mixed with full renders, difference renders into the retained picture, aborted renders and announcements made while rendering; after every render the picture is compared exactly with a reference rendering of the changed model, and RenderDiff must not draw in tiles that no layer announced since the last rendering reaches. Non-trivial: the picture changed at least once during the history.",
		Assumptions: []string{"the blend package is trusted here (C15 to C20)", "changes are made between renders; announcing may happen at any time",
			"github.com/oov/downscale is replaced by a stand-in"},
	})
	pbt.Register(&pbt.Prop{ID: "C23", Quick: 60000, Thorough: 400000, Run: c23,
		Rule:        "A tree is cloned several times (clones of clones and of changed trees included); random changes and renders hit random members of the family, partly several of them at the same time; each picture is compared exactly with the reference rendering of that member's own model. Non-trivial: two members differ in their picture at the end.",
		Assumptions: []string{"the blend package is trusted here (C15 to C20)", "github.com/oov/downscale is replaced by a stand-in"},
	})
}

// family member: a tree with its model and the retained picture.
type member struct {
	id    int
	tree  *composite.Tree
	sc    *scene
	keep  *image.NRGBA
	layer map[int]*composite.Layer
}

// clone copies the model.
func (sc *scene) clone() *scene {
	d := *sc
	var cp func(n *node) *node
	cp = func(n *node) *node {
		m := *n
		m.children = nil
		for _, c := range n.children {
			m.children = append(m.children, cp(c))
		}
		return &m
	}
	d.root = cp(sc.root)
	d.link()
	return &d
}

func layersOf(tr *composite.Tree) map[int]*composite.Layer {
	m := map[int]*composite.Layer{}
	var walk func(l *composite.Layer)
	walk = func(l *composite.Layer) {
		for i := range l.Children {
			c := &l.Children[i]
			m[c.SeqID] = c
			walk(c)
		}
	}
	walk(&tr.Root)
	return m
}

func newMember(id int, tr *composite.Tree, sc *scene) *member {
	return &member{id: id, tree: tr, sc: sc, layer: layersOf(tr)}
}

// change makes a random change to a layer of the member and its model.
func (m *member) change(t *pbt.T) (*composite.Layer, string) {
	n := m.sc.all[t.N(len(m.sc.all))]
	toggle := false
	if t.Bool(30) { // a group with layers
		var gs []*node
		for _, c := range m.sc.all {
			if len(c.children) > 0 {
				gs = append(gs, c)
			}
		}
		if len(gs) > 0 {
			n, toggle = gs[t.N(len(gs))], t.Bool(60)
		}
	}
	if !toggle && t.Bool(25) { // a layer that is clipped
		var cs []*node
		for _, c := range m.sc.all {
			if c.clippedBy != nil {
				cs = append(cs, c)
			}
		}
		if len(cs) > 0 {
			n = cs[t.N(len(cs))]
		}
	}
	l := m.layer[n.seq]
	if l == nil {
		t.Fatalf("the tree has no layer %d", n.seq)
	}
	s := fmt.Sprintf("#%d ", n.seq)
	k := t.Weighted(4, 3, 3, 1)
	if k == 3 && !n.hasMask {
		k = 0
	}
	if len(n.clips) > 0 && t.Bool(15) {
		k = 4
	}
	if toggle {
		k = 2
	}
	if !n.visible && k != 4 && t.Bool(60) {
		k = 0
	}
	switch k {
	case 0:
		n.visible = !n.visible
		l.Visible = n.visible
		s += fmt.Sprintf("visible=%v", n.visible)
	case 1:
		n.opacity = pbt.Pick(t, 0, 255, int(t.Byte()), 255, 1+int(t.Byte())/2)
		l.Opacity = n.opacity
		s += fmt.Sprintf("opacity=%d", n.opacity)
	case 2:
		old := l.BlendMode
		n.mode = genMode(t, n.folder)
		l.BlendMode = psd.BlendMode(n.mode)
		if n.folder && (toggle || t.Bool(50)) {
			if n.mode = "pass"; string(old) == "pass" {
				n.mode = "norm"
			}
			l.BlendMode = psd.BlendMode(n.mode)
		}
		s += fmt.Sprintf("mode=%q", n.mode)
	case 3:
		n.maskOn = !n.maskOn
		l.MaskEnabled = n.maskOn
		s += fmt.Sprintf("mask=%v", n.maskOn)
	case 4:
		n.blendClip = !n.blendClip
		l.BlendClippedElements = n.blendClip
		s += fmt.Sprintf("blendclip=%v", n.blendClip)
	}
	return l, s
}

func (m *member) canvas() image.Rectangle { return image.Rect(0, 0, m.sc.w, m.sc.h) }

func (m *member) check(t *pbt.T, got *image.NRGBA, what, hist string) *image.NRGBA {
	want := m.sc.render(m.canvas())
	if d := differ(got, want, m.canvas()); d != "" {
		t.Descf("%s", hist)
		t.Fatalf("%s differs from rendering the changed tree from scratch %s", what, d)
	}
	return want
}

func samePic(a, b *image.NRGBA) bool { return a != nil && b != nil && bytes.Equal(a.Pix, b.Pix) }

func historyScene(t *pbt.T) *scene {
	return genScene(t, rare(t, 400, genOpts{maxDim: pbt.Pick(t, 6, 10, 18), maxLayers: pbt.Pick(t, 4, 8, 12), simple: true, nested: t.Bool(50), sparse: t.Bool(20), dense: t.Bool(75)}))
}

// cancelled gives a context that is done already or gets done soon.
func cancelled(t *pbt.T) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	switch t.N(3) {
	case 0:
		cancel()
	case 1: // while it is at work
		return &lateCtx{Context: ctx, wait: time.Duration(t.N(80)) * time.Microsecond, cancel: cancel}, cancel
	default:
		spin := t.N(200)
		go func() {
			x := 0
			for i := 0; i < spin*50; i++ {
				x += i
			}
			sink.Store(int64(x))
			cancel()
		}()
	}
	return ctx, cancel
}

// lateCtx is done a while after a call has begun to wait for it.
type lateCtx struct {
	context.Context
	wait   time.Duration
	cancel func()
}

func (c *lateCtx) Done() <-chan struct{} {
	for start := time.Now(); time.Since(start) < c.wait; {
	}
	c.cancel()
	return c.Context.Done()
}

func c22(t *pbt.T) {
	procs := setProcs(t)
	sc := historyScene(t)
	tile := genTile(t, sc)
	t.Descf("%stile %d, CPUs %d", sc, tile, procs)
	m := newMember(0, build(t, sc, tile), sc.clone())
	if len(m.sc.all) == 0 {
		return
	}
	var hist strings.Builder
	var last *image.NRGBA
	changed := false
	ops := 3 + t.N(14)
	var pending []*composite.Layer
	// dirty has the tiles that layers announced since the last complete rendering reach.
	dirty, all := map[image.Point]bool{}, true
	reach := func(l *composite.Layer) {
		if tile == 0 {
			return
		}
		var walk func(n *node)
		walk = func(n *node) {
			for y := floorTo(n.rect.Min.Y, tile); y < n.rect.Max.Y; y += tile {
				for x := floorTo(n.rect.Min.X, tile); x < n.rect.Max.X; x += tile {
					dirty[image.Pt(x, y)] = true
				}
			}
			for _, c := range n.children {
				walk(c)
			}
		}
		for _, n := range m.sc.all {
			if n.seq == l.SeqID {
				walk(n)
			}
		}
	}
	rendered := func() { dirty, all = map[image.Point]bool{}, false }
	announce := func() {
		for len(pending) > 0 {
			i := t.N(len(pending))
			m.tree.Renderer.SetDirtyByLayer(pending[i])
			reach(pending[i])
			pending = append(pending[:i], pending[i+1:]...)
		}
	}
	for i := 0; i <= ops; i++ {
		op := t.Weighted(8, 2, 4, 2, 1)
		if i == 0 && t.Bool(75) {
			op = 2
		}
		if i == ops {
			op = 2
		}
		switch op {
		case 0: // change, announce now or together with later changes
			l, s := m.change(t)
			pending = append(pending, l)
			if t.Bool(70) {
				announce()
			} else {
				s += " (announced later)"
				t.Label("several changes announced together")
			}
			fmt.Fprintf(&hist, "change %s\n", s)
		case 1:
			announce()
			m.keep = image.NewNRGBA(m.canvas())
			hist.WriteString("Render\n")
			if err := m.tree.Renderer.Render(context.Background(), m.keep); err != nil {
				t.Fatalf("Render fails: %v", err)
			}
			rendered()
			w := m.check(t, m.keep, "Render", hist.String())
			changed = changed || last != nil && !samePic(last, w)
			last = w
		case 2:
			announce()
			if m.keep == nil {
				m.keep = image.NewNRGBA(m.canvas())
			}
			hist.WriteString("RenderDiff\n")
			var marked []image.Point
			prev := append([]byte(nil), m.keep.Pix...)
			if !all && tile > 0 && t.Bool(50) {
				// nothing may be drawn where no announced layer reaches
				for y := 0; y < m.sc.h; y++ {
					for x := 0; x < m.sc.w; x++ {
						if p := image.Pt(x, y); !dirty[image.Pt(floorTo(x, tile), floorTo(y, tile))] {
							marked = append(marked, p)
							copy(m.keep.Pix[m.keep.PixOffset(x, y):][:4], "mark")
						}
					}
				}
			}
			if err := m.tree.Renderer.RenderDiff(context.Background(), m.keep); err != nil {
				t.Fatalf("RenderDiff fails: %v", err)
			}
			rendered()
			for _, p := range marked {
				o := m.keep.PixOffset(p.X, p.Y)
				if string(m.keep.Pix[o:o+4]) != "mark" {
					t.Descf("%s", hist.String())
					t.Fatalf("RenderDiff draws at %v, where nothing has changed", p)
				}
				copy(m.keep.Pix[o:], prev[o:o+4])
			}
			if len(marked) > 0 {
				t.Label("the unchanged part is left alone")
			}
			w := m.check(t, m.keep, "RenderDiff", hist.String())
			changed = changed || last != nil && !samePic(last, w)
			last = w
		case 3: // a render that may be aborted
			announce()
			if m.keep == nil {
				m.keep = image.NewNRGBA(m.canvas())
			}
			prev := append([]byte(nil), m.keep.Pix...)
			ctx, cancel := cancelled(t)
			hist.WriteString("cancelled RenderDiff\n")
			err := m.tree.Renderer.RenderDiff(ctx, m.keep)
			cancel()
			if err != nil {
				t.Label("aborted render")
				if t.Bool(50) {
					// the difference is to the last complete picture
					copy(m.keep.Pix, prev)
					hist.WriteString("picture before the aborted render is used again\n")
				}
			}
			if err == nil {
				rendered()
				m.check(t, m.keep, "RenderDiff", hist.String())
			}
		case 4: // announcements while rendering
			late := t.Bool(70) // of changes made before
			if !late {
				announce()
			} else {
				for k := t.N(5); k > 0; k-- {
					l, s := m.change(t)
					pending = append(pending, l)
					fmt.Fprintf(&hist, "change %s (announced while rendering)\n", s)
				}
				t.Label("%d changes announced while rendering", len(pending))
			}
			if m.keep == nil {
				m.keep = image.NewNRGBA(m.canvas())
			}
			hist.WriteString("RenderDiff while layers are announced\n")
			t.Label("announced while rendering")
			ls := pending
			if !late {
				l := m.layer[m.sc.all[t.N(len(m.sc.all))].seq]
				ls = []*composite.Layer{l, l, l}
			}
			pending = nil
			for _, l := range ls {
				reach(l)
			}
			var second *image.NRGBA // rendered after the announcements, while the first rendering may go on
			var secondErr error
			if t.Bool(30) {
				second = image.NewNRGBA(m.canvas())
				hist.WriteString("Render meanwhile, after the announcements\n")
				t.Label("rendered again while rendering")
			}
			ctx := &duringCtx{Context: context.Background(), f: func() {
				for _, l := range ls {
					m.tree.Renderer.SetDirtyByLayer(l)
				}
				if second != nil {
					secondErr = m.tree.Renderer.Render(context.Background(), second)
				}
			}}
			err := m.tree.Renderer.RenderDiff(ctx, m.keep)
			ctx.finish()
			if err != nil {
				t.Fatalf("RenderDiff fails: %v", err)
			}
			if !late {
				m.check(t, m.keep, "RenderDiff", hist.String())
			}
			if second != nil {
				if secondErr != nil {
					t.Fatalf("Render fails: %v", secondErr)
				}
				m.check(t, second, "Render during another rendering", hist.String())
				// what it rendered is no difference for the retained picture any more
				m.keep = second
				rendered()
			}
		}
	}
	if changed {
		t.NonTrivial()
	}
}

func floorTo(v, n int) int {
	return v - (v%n+n)%n
}

var sink atomic.Int64

// duringCtx runs f in another goroutine once the context is in use, which is
// when the call that got it is under way.
type duringCtx struct {
	context.Context
	once sync.Once
	f    func()
	end  chan struct{}
}

func (c *duringCtx) start() {
	c.once.Do(func() {
		c.end = make(chan struct{})
		go func() {
			defer close(c.end)
			c.f()
		}()
	})
}

func (c *duringCtx) use() {
	c.start()
	select {
	case <-c.end:
	case <-time.After(300 * time.Microsecond):
	}
}

func (c *duringCtx) Done() <-chan struct{} { c.use(); return c.Context.Done() }
func (c *duringCtx) Err() error            { c.use(); return c.Context.Err() }

// finish waits for f.
func (c *duringCtx) finish() { c.start(); <-c.end }

func c23(t *pbt.T) {
	procs := setProcs(t)
	sc := historyScene(t)
	tile := genTile(t, sc)
	t.Descf("%stile %d, CPUs %d", sc, tile, procs)
	fam := []*member{newMember(0, build(t, sc, tile), sc.clone())}
	if len(sc.all) == 0 {
		return
	}
	var hist strings.Builder
	ops := 4 + t.N(14)
	for i := 0; i < ops; i++ {
		m := fam[t.N(len(fam))]
		switch t.Weighted(3, 6, 3, 2) {
		case 0:
			if len(fam) == 5 {
				continue
			}
			c := newMember(len(fam), m.tree.Clone(), m.sc.clone())
			c.checkPointers(t)
			fam = append(fam, c)
			fmt.Fprintf(&hist, "tree %d = clone of %d\n", c.id, m.id)
			if m.id > 0 {
				t.Label("clone of a clone")
			}
		case 1:
			l, s := m.change(t)
			m.tree.Renderer.SetDirtyByLayer(l)
			fmt.Fprintf(&hist, "change in %d: %s\n", m.id, s)
		case 2:
			if m.keep == nil {
				m.keep = image.NewNRGBA(m.canvas())
			}
			fmt.Fprintf(&hist, "RenderDiff %d\n", m.id)
			if err := m.tree.Renderer.RenderDiff(context.Background(), m.keep); err != nil {
				t.Fatalf("RenderDiff fails: %v", err)
			}
			m.check(t, m.keep, fmt.Sprintf("RenderDiff of tree %d", m.id), hist.String())
		case 3: // all at the same time
			fmt.Fprintf(&hist, "RenderDiff of all\n")
			t.Label("several trees rendered at the same time")
			var wg sync.WaitGroup
			errs := make([]error, len(fam))
			for k, m := range fam {
				if m.keep == nil {
					m.keep = image.NewNRGBA(m.canvas())
				}
				wg.Add(1)
				go func(k int, m *member) {
					defer wg.Done()
					errs[k] = m.tree.Renderer.RenderDiff(context.Background(), m.keep)
				}(k, m)
			}
			wg.Wait()
			for k, m := range fam {
				if errs[k] != nil {
					t.Fatalf("RenderDiff fails: %v", errs[k])
				}
				m.check(t, m.keep, fmt.Sprintf("RenderDiff of tree %d", m.id), hist.String())
			}
		}
	}
	distinct := false
	var first *image.NRGBA
	for _, m := range fam {
		img := renderNew(t, m.tree, m.canvas())
		w := m.check(t, img, fmt.Sprintf("Render of tree %d", m.id), hist.String())
		m.checkPointers(t)
		if first == nil {
			first = w
		} else if !samePic(first, w) {
			distinct = true
		}
	}
	if distinct {
		t.NonTrivial()
	}
}

// checkPointers checks that the tree refers to its own layers only and has
// the attributes of the model.
func (m *member) checkPointers(t *pbt.T) {
	if s := treeDiff(m.tree, m.sc, false); s != "" {
		t.Fatalf("tree %d: %s", m.id, s)
	}
}
