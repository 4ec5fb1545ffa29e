package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"image"
	"runtime"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/unicode"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"verif/pbt"
	"verif/psdgen"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C25", Quick: 60000, Thorough: 400000, Run: c25,
		Rule:        "Generated documents, the names in several encodings, are built into a tree that is compared with the model: nesting, order, names, attributes, parent and clipping pointers (they must point at the tree's own layers), canvas and the pixels of each layer rendered alone; broken, truncated and unsupported documents must give an error and no tree; neither may leave a goroutine running. Non-trivial: more than one layer.",
		Assumptions: []string{"github.com/oov/downscale is replaced by a stand-in"},
	})
}

// treeDiff compares the tree with the model and describes the first difference.
func treeDiff(tr *composite.Tree, sc *scene, names bool) string {
	ptr := map[int]*composite.Layer{}
	var collect func(l *composite.Layer)
	collect = func(l *composite.Layer) {
		ptr[l.SeqID] = l
		for i := range l.Children {
			collect(&l.Children[i])
		}
	}
	collect(&tr.Root)
	if tr.Root.Parent != nil {
		return "the root has a parent"
	}
	if tr.Root.SeqID != composite.SeqIDRoot {
		return fmt.Sprintf("the root has the ID %d", tr.Root.SeqID)
	}
	var walk func(l *composite.Layer, n *node) string
	walk = func(l *composite.Layer, n *node) string {
		w := fmt.Sprintf("layer #%d: ", n.seq)
		if n.parent != nil {
			if l.SeqID != n.seq {
				return w + fmt.Sprintf("SeqID %d", l.SeqID)
			}
			if l.Visible != n.visible || l.Opacity != n.opacity || l.Clipping != n.clipping || l.BlendClippedElements != n.blendClip {
				return w + fmt.Sprintf("Visible %v, Opacity %d, Clipping %v, BlendClippedElements %v", l.Visible, l.Opacity, l.Clipping, l.BlendClippedElements)
			}
			if string(l.BlendMode) != n.mode {
				return w + fmt.Sprintf("BlendMode %q, want %q", l.BlendMode, n.mode)
			}
			if l.Folder != n.folder || n.folder && l.FolderOpen != n.open {
				return w + fmt.Sprintf("Folder %v, FolderOpen %v", l.Folder, l.FolderOpen)
			}
			if l.MaskEnabled != n.maskOn {
				return w + fmt.Sprintf("MaskEnabled %v", l.MaskEnabled)
			}
			if n.hasMask && l.MaskDefaultColor != n.maskDef {
				return w + fmt.Sprintf("MaskDefaultColor %d", l.MaskDefaultColor)
			}
			if l.Parent != ptr[n.parent.seq] {
				return w + "Parent is not the layer that holds it"
			}
			if (l.ClippedBy == nil) != (n.clippedBy == nil) || n.clippedBy != nil && l.ClippedBy != ptr[n.clippedBy.seq] {
				return w + "ClippedBy is not the base layer"
			}
			if len(l.Clip) != len(n.clips) {
				return w + fmt.Sprintf("%d clipped layers, want %d", len(l.Clip), len(n.clips))
			}
			for i := range l.Clip {
				if l.Clip[i] != ptr[n.clips[i].seq] {
					return w + fmt.Sprintf("clipped layer %d is not layer #%d of the same tree", i, n.clips[i].seq)
				}
			}
			if names && l.Name != n.wantName {
				return w + fmt.Sprintf("Name %q, want %q", l.Name, n.wantName)
			}
		}
		if len(l.Children) != len(n.children) {
			return w + fmt.Sprintf("%d children, want %d", len(l.Children), len(n.children))
		}
		for i := range l.Children {
			if s := walk(&l.Children[i], n.children[i]); s != "" {
				return s
			}
		}
		return ""
	}
	return walk(&tr.Root, sc.root)
}

func c25(t *pbt.T) {
	procs := setProcs(t)
	sc := genScene(t, rare(t, 200, genOpts{maxDim: pbt.Pick(t, 5, 12), maxLayers: pbt.Pick(t, 3, 8, 16)}))
	tile := genTile(t, sc)
	opt := &composite.Options{TileSize: tile}
	var enc encoding.Encoding
	encName := pbt.Pick(t, "none", "shift-jis", "latin-1", "utf-16", "nil")
	switch encName {
	case "shift-jis":
		enc = japanese.ShiftJIS
	case "latin-1":
		enc = charmap.ISO8859_1
	case "utf-16":
		// decoding fails without a byte order mark; the name stays as it is
		enc = unicode.UTF16(unicode.BigEndian, unicode.ExpectBOM)
	case "nil":
		enc = nil
	}
	var asked [][]byte
	if enc != nil {
		opt.LayerNameEncodingDetector = func(b []byte) encoding.Encoding {
			asked = append(asked, append([]byte(nil), b...))
			return enc
		}
	}
	if len(sc.all) > 1 {
		t.NonTrivial()
	}
	t.Descf("%stile %d, CPUs %d, names %s", sc, tile, procs, encName)
	// a document the package does not support, or a broken one
	if t.Bool(20) {
		base := runtime.NumGoroutine()
		c25bad(t, sc, opt)
		if !settle(base) {
			t.Fatalf("New has failed and left %d goroutines running", runtime.NumGoroutine()-base)
		}
		return
	}
	base := runtime.NumGoroutine()
	before := *opt
	arg := opt
	if enc == nil && tile == 0 && t.Bool(50) {
		arg = nil
		t.Label("without options")
	}
	tr, err := composite.New(context.Background(), bytes.NewReader(sc.data), arg)
	if err != nil {
		t.Fatalf("New fails on a well-formed document: %v", err)
	}
	if r := &tr.Root; r.SeqID != composite.SeqIDRoot || r.Name != "" || !r.Folder || !r.FolderOpen || !r.Visible || r.Opacity != 255 || r.BlendMode != psd.BlendModeNormal || r.Clipping || r.MaskEnabled || r.Parent != nil || r.Clip != nil || r.ClippedBy != nil {
		t.Fatalf("the root is not a plain open group: %+v", *r)
	}
	if !settle(base) {
		t.Fatalf("New has left %d goroutines running", runtime.NumGoroutine()-base)
	}
	if opt.TileSize != before.TileSize || opt.TransformMatrix != before.TransformMatrix || (opt.LayerNameEncodingDetector == nil) != (before.LayerNameEncodingDetector == nil) {
		t.Fatalf("New modifies the options")
	}
	legacy := false
	for _, n := range sc.all {
		n.wantName = n.uni
		if n.uni == "" && n.name != "" {
			legacy = true
			n.wantName = n.name
			if enc != nil {
				if s, err := enc.NewDecoder().String(n.name); err == nil {
					n.wantName = s
				} else {
					t.Label("legacy name that cannot be decoded")
				}
				t.Label("decoded legacy name")
			}
		}
	}
	if s := treeDiff(tr, sc, true); s != "" {
		t.Fatalf("the tree differs from the document: %s", s)
	}
	if len(asked) > 1 {
		t.Fatalf("the encoding was detected %d times", len(asked))
	}
	if legacy && enc != nil {
		if len(asked) != 1 {
			t.Fatalf("the encoding of the names was not asked for")
		}
		for _, n := range sc.all {
			if !bytes.Contains(asked[0], []byte(n.name)) {
				t.Fatalf("the detector did not see the name %q", n.name)
			}
		}
	}
	canvas := image.Rect(0, 0, sc.w, sc.h)
	if tr.CanvasRect != canvas {
		t.Fatalf("CanvasRect is %v, want %v", tr.CanvasRect, canvas)
	}
	if !tr.Rect.Empty() && !tr.Rect.In(canvas) {
		t.Fatalf("Rect %v reaches outside the canvas %v", tr.Rect, canvas)
	}
	// Rect has everything that can be seen.
	for _, n := range sc.all {
		for i := 3; i < len(n.pix); i += 4 {
			if n.pix[i] == 0 {
				continue
			}
			p := n.rect.Min.Add(image.Pt(i/4%n.rect.Dx(), i/4/n.rect.Dx()))
			if p.In(canvas) && !p.In(tr.Rect) {
				t.Fatalf("Rect %v lacks the point %v of layer #%d", tr.Rect, p, n.seq)
			}
		}
	}
	// each layer rendered alone has the pixels of the document
	ls := layersOf(tr)
	var pics int
	for _, n := range sc.all {
		if n.folder || pics == 3 {
			continue
		}
		pics++
		only := map[*composite.Layer]bool{}
		for l := ls[n.seq]; l != nil; l = l.Parent {
			only[l] = true
		}
		tc := tr.Clone()
		for id, l := range layersOf(tc) {
			l.Visible = only[ls[id]]
			l.Opacity = 255
			l.MaskEnabled = false
			l.BlendMode = psd.BlendModeNormal
			l.Clipping = false
			l.Clip = nil
		}
		got := renderNew(t, tc, canvas)
		want := refr{canvas}.content(n)
		if d := differ(got, want, canvas); d != "" {
			t.Fatalf("layer #%d rendered alone differs from its pixels %s", n.seq, d)
		}
	}
}

type slowReader struct {
	b    []byte
	fail error
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.fail
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

func c25bad(t *pbt.T, sc *scene, opt *composite.Options) {
	kind := pbt.Pick(t, "truncated", "color mode", "depth", "read error")
	t.Descf("%s", kind)
	t.Label("rejected: %s", kind)
	fail := errors.New("read error of the check")
	rd := &slowReader{fail: fail}
	switch kind {
	case "truncated", "read error":
		// the merged image is not read, so cut before it
		end := len(sc.data) - 3*sc.w*sc.h - 2
		rd.b = sc.data[:t.N(end)]
		if kind == "truncated" {
			tr, err := composite.New(context.Background(), bytes.NewReader(rd.b), opt)
			if err == nil || tr != nil {
				t.Fatalf("New accepts %d of %d bytes (error %v)", len(rd.b), len(sc.data), err)
			}
			return
		}
		tr, err := composite.New(context.Background(), rd, opt)
		if err == nil || tr != nil {
			t.Fatalf("New hides a read error after %d of %d bytes", len(rd.b), len(sc.data))
		}
	default:
		b := append([]byte(nil), sc.data...)
		if kind == "color mode" {
			b[25] = byte(pbt.Pick(t, psdgen.Gray, psdgen.CMYK, psdgen.Lab, psdgen.Multichannel, psdgen.Duotone))
		} else {
			b[23] = pbt.Pick[byte](t, 16, 32, 1)
		}
		tr, err := composite.New(context.Background(), bytes.NewReader(b), opt)
		if err == nil || tr != nil {
			t.Fatalf("New accepts a document with an unsupported %s", kind)
		}
	}
}
