// Command comp holds the checks of the composite package: C21 to C28.
package main

import (
	"fmt"
	"image"
	"strings"

	"verif/pbt"
	"verif/psdgen"
)

func main() { pbt.Main() }

// node is the model of one layer or group.
type node struct {
	seq          int
	name         string // legacy name
	uni          string // Unicode name, if any
	wantName     string
	folder, open bool
	visible      bool
	opacity      int
	mode         string // blend mode the layer is drawn with
	clipping     bool
	blendClip    bool
	rect         image.Rectangle
	pix          []byte // straight RGBA, 4 bytes per pixel
	hasAlpha     bool
	lacks        int // color channels that are not in the file, one bit each
	hasMask      bool
	maskOn       bool
	maskRect     image.Rectangle
	mask         []byte
	maskDef      int
	maskDisabled bool
	children     []*node // bottom to top

	clips     []*node
	clippedBy *node
	parent    *node
}

// scene is a model document.
type scene struct {
	w, h int
	root *node
	all  []*node
	psb  bool
	doc  *psdgen.Doc
	data []byte
}

var blendKeys = []string{"norm", "dark", "mul ", "idiv", "lbrn", "dkCl", "lite", "scrn", "div ", "lddg", "lgCl",
	"over", "sLit", "hLit", "vLit", "lLit", "pLit", "hMix", "diff", "smud", "fsub", "fdiv", "hue ", "sat ", "colr", "lum "}

type genOpts struct {
	maxDim, maxLayers int
	simple            bool // no unusual names and encodings
	noMasks           bool
	opaque            bool // uniformly colored opaque layers
	inside            bool // layers lie inside the canvas
	onlyNormal        bool
	binary            bool // pixels are opaque or transparent
	fullOpacity       bool
	sparse            bool // small layers, far from each other
	nested            bool // many groups, most of them pass-through
	deep              bool // groups in groups in groups
	dense             bool // most layers can be seen, many are clipped
}

func genMode(t *pbt.T, folder bool) string {
	switch {
	case folder && t.Bool(45):
		return "pass"
	case t.Bool(35):
		return "norm"
	case t.Bool(3):
		return pbt.Pick(t, "diss", "xxxx")
	}
	return blendKeys[t.N(len(blendKeys))]
}

func genPix(t *pbt.T, w, h int, alpha bool) []byte {
	b := make([]byte, w*h*4)
	switch t.N(4) {
	case 0: // one color
		c := []byte{t.Byte(), t.Byte(), t.Byte(), 255}
		if alpha {
			c[3] = t.Byte()
		}
		for i := range b {
			b[i] = c[i&3]
		}
	case 1: // noise
		copy(b, t.Bytes(len(b)))
	default: // patches
		rnd := psdgen.Stream(t)
		var pal [4][4]byte
		for i := range pal {
			pal[i] = [4]byte{byte(rnd()), byte(rnd()), byte(rnd()), [4]byte{255, 0, 255, byte(rnd())}[i]}
		}
		step := 1 + int(rnd()%5)
		seed := rnd()
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				k := (uint64(x/step)*0x9E3779B97F4A7C15 + uint64(y/step)*0xC2B2AE3D27D4EB4F + seed) >> 33
				copy(b[(y*w+x)*4:], pal[k%4][:])
			}
		}
	}
	if !alpha {
		for i := 3; i < len(b); i += 4 {
			b[i] = 255
		}
	}
	return b
}

func genRect(t *pbt.T, sc *scene, o genOpts) image.Rectangle {
	if o.inside {
		x, y := t.N(sc.w), t.N(sc.h)
		return image.Rect(x, y, x+1+t.N(sc.w-x), y+1+t.N(sc.h-y))
	}
	if o.dense && t.Bool(80) {
		x, y := t.N((sc.w+1)/2), t.N((sc.h+1)/2)
		return image.Rect(x, y, x+1+sc.w/2, y+1+sc.h/2)
	}
	if o.sparse && t.Bool(80) {
		x, y := t.N(sc.w), t.N(sc.h)
		return image.Rect(x, y, x+1+t.N(3), y+1+t.N(3))
	}
	switch t.Weighted(3, 6, 1) {
	case 0:
		return image.Rect(0, 0, sc.w, sc.h)
	case 2:
		return image.Rectangle{}
	}
	x, y := t.Signed(sc.w), t.Signed(sc.h)
	return image.Rect(x, y, x+1+t.N(sc.w+4), y+1+t.N(sc.h+4))
}

func genNode(t *pbt.T, sc *scene, o genOpts, folder bool) *node {
	n := &node{visible: true, opacity: 255, blendClip: true, folder: folder, open: t.Bool(50)}
	n.name = "L" + fmt.Sprint(t.N(100))
	if !o.simple && t.Bool(40) {
		n.name = pbt.Pick(t, "", "\x83\x8c\x83\x43\x83\x84\x81\x5b", "caf\xe9", "a", "\x95\x5c", strings.Repeat("n", 255))
	}
	if !o.simple && t.Bool(40) {
		n.uni = pbt.Pick(t, "Layer", "レイヤー", "é", "𝄞 clef", "x")
	}
	n.visible = !t.Bool(15 - 10*b2i(o.dense))
	switch t.Weighted(5, 3, 1) {
	case 1:
		n.opacity = int(t.Byte())
	case 2:
		n.opacity = pbt.Pick(t, 0, 1, 254, 128)
	}
	if o.dense && n.opacity < 60 && t.Bool(80) {
		n.opacity += 100
	}
	if o.fullOpacity {
		n.opacity = 255
	}
	n.mode = genMode(t, folder)
	if o.onlyNormal {
		n.mode = "norm"
	}
	if o.nested && folder && t.Bool(50) {
		n.mode = "pass"
	}
	n.clipping = t.Bool(25 + 15*b2i(o.dense))
	n.blendClip = !t.Bool(20)
	if !folder {
		n.rect = genRect(t, sc, o)
		if o.opaque {
			c := []byte{t.Byte(), t.Byte(), t.Byte(), 255}
			n.pix = make([]byte, n.rect.Dx()*n.rect.Dy()*4)
			for i := range n.pix {
				n.pix[i] = c[i&3]
			}
		} else {
			n.hasAlpha = t.Bool(75)
			n.pix = genPix(t, n.rect.Dx(), n.rect.Dy(), n.hasAlpha)
			if o.binary {
				for i := 3; i < len(n.pix); i += 4 {
					n.pix[i] = -(n.pix[i] >> 7)
				}
			}
		}
	}
	if !folder && t.Bool(4) {
		n.lacks = 1 + t.N(7)
		for i := range n.pix {
			if n.lacks>>(i&3)&1 != 0 {
				n.pix[i] = 0
			}
		}
	}
	if !o.noMasks && t.Bool(30-15*b2i(o.dense)) {
		n.hasMask = true
		n.maskDef = pbt.Pick(t, 0, 255)
		n.maskDisabled = t.Bool(15)
		n.maskOn = !n.maskDisabled
		n.maskRect = genRect(t, sc, genOpts{})
		switch k := n.maskRect.Dx() * n.maskRect.Dy(); t.N(5) * b2i(!o.opaque) {
		case 0: // constant
			v := pbt.Pick(t, byte(n.maskDef), 0, 255, t.Byte())
			n.mask = make([]byte, k)
			for i := range n.mask {
				n.mask[i] = v
			}
		case 1:
			n.mask = t.Bytes(k)
		default:
			p := genPix(t, n.maskRect.Dx(), n.maskRect.Dy(), true)
			n.mask = make([]byte, k)
			for i := range n.mask {
				n.mask[i] = p[4*i+i&3]
			}
		}
	}
	return n
}

// rare makes one scene in n larger than usual: a large canvas, or many layers.
func rare(t *pbt.T, n int, o genOpts) genOpts {
	if t.N(n) != n-1 {
		return o
	}
	switch t.N(3) {
	case 0:
		o.maxDim, o.maxLayers = pbt.Pick(t, 70, 150, 300), 4
		t.Label("large canvas")
	case 1:
		o.maxDim, o.maxLayers, o.deep = 5, pbt.Pick(t, 20, 60), true
		t.Label("deep groups")
	default:
		o.maxDim, o.maxLayers = 5, pbt.Pick(t, 40, 100, 300)
		t.Label("many layers")
	}
	return o
}

// genScene draws a model document and encodes it.
func genScene(t *pbt.T, o genOpts) *scene {
	sc := &scene{}
	dim := func() int {
		switch t.N(4) {
		case 0:
			return 1 + t.N(4)
		}
		return 1 + t.N(o.maxDim)
	}
	sc.w, sc.h = dim(), dim()
	if o.dense {
		sc.w, sc.h = sc.w+2, sc.h+2
	}
	sc.psb = t.Bool(15)
	left := 1 + t.N(o.maxLayers)
	var emit func(p *node, depth int)
	emit = func(p *node, depth int) {
		for left > 0 {
			if depth > 0 && t.Bool(25-18*b2i(o.deep)) {
				return
			}
			left--
			pf := 30
			if o.nested {
				pf = 55
			}
			n := genNode(t, sc, o, (depth < 5 || o.deep) && t.Bool(pf+30*b2i(o.deep)))
			if o.dense && len(p.children) == 0 {
				n.clipping = n.clipping && t.Bool(10)
			}
			p.children = append(p.children, n)
			if n.folder {
				emit(n, depth+1)
				if o.dense && len(n.children) == 0 && t.Bool(90) {
					n.children = append(n.children, genNode(t, sc, o, false))
				}
			}
		}
	}
	sc.root = &node{seq: -1, folder: true, visible: true, opacity: 255, mode: "norm", blendClip: true}
	if o.dense && t.Bool(60) { // a background
		n := &node{visible: true, opacity: 255, mode: "norm", blendClip: true, name: "Background", rect: image.Rect(0, 0, sc.w, sc.h)}
		n.pix = genPix(t, sc.w, sc.h, false)
		if o.opaque {
			for i := range n.pix {
				n.pix[i] = n.pix[i&3]
			}
		}
		sc.root.children = append(sc.root.children, n)
	}
	emit(sc.root, 0)
	sc.encode(t, o)
	sc.link()
	return sc
}

// link fills in the derived relations.
func (sc *scene) link() {
	sc.all = nil
	var walk func(p *node)
	walk = func(p *node) {
		var base *node
		for _, c := range p.children {
			c.parent, c.clips, c.clippedBy = p, nil, nil
			sc.all = append(sc.all, c)
			if c.clipping {
				if base != nil {
					base.clips = append(base.clips, c)
					c.clippedBy = base
				}
			} else {
				base = c
			}
			walk(c)
		}
	}
	walk(sc.root)
}

func toRect(r image.Rectangle) psdgen.Rect {
	return psdgen.Rect{Top: r.Min.Y, Left: r.Min.X, Bottom: r.Max.Y, Right: r.Max.X}
}

// encode writes the document.
func (sc *scene) encode(t *pbt.T, o genOpts) {
	d := &psdgen.Doc{Version: 1, Channels: 3, H: sc.h, W: sc.w, Depth: 8, Mode: psdgen.RGB}
	if sc.psb {
		d.Version = 2
	}
	channel := func(l *psdgen.Layer, id int, r image.Rectangle, plane []byte) {
		c := psdgen.Channel{ID: id, Rect: toRect(r), Plane: plane}
		if len(plane) > 0 {
			c.Comp = t.Weighted(4, 2, 1, 1)
		}
		c.Enc = psdgen.EncodePlane(t, c.Comp, plane, r.Dx(), r.Dy(), 8, sc.psb)
		l.Channels = append(l.Channels, c)
	}
	record := func(n *node, div int) {
		l := psdgen.Layer{Opacity: byte(n.opacity), Blend: n.mode, Name: []byte(n.name), Rect: toRect(n.rect)}
		if !n.visible {
			l.Flags |= 2
		}
		if n.clipping {
			l.Clipping = 1
		}
		if n.uni != "" {
			l.Infos = append(l.Infos, psdgen.Info{Sig: "8BIM", Key: "luni", Data: psdgen.UnicodeData(n.uni, 0)})
		}
		if !n.blendClip {
			l.Infos = append(l.Infos, psdgen.Info{Sig: "8BIM", Key: "clbl", Data: []byte{0, 0, 0, 0}})
		} else if t.Bool(30) {
			l.Infos = append(l.Infos, psdgen.Info{Sig: "8BIM", Key: "clbl", Data: []byte{1, 0, 0, 0}})
		}
		if div != 0 {
			b := []byte{0, 0, 0, byte(div)}
			if div != 3 {
				if n.mode == "pass" || t.Bool(70) {
					b = append(b, "8BIM"+n.mode...)
					l.Blend = pbt.Pick(t, "norm", n.mode)
				}
			}
			l.Infos = append(l.Infos, psdgen.Info{Sig: "8BIM", Key: "lsct", Data: b})
		}
		np := n.rect.Dx() * n.rect.Dy()
		plane := func(k int) []byte {
			b := make([]byte, np)
			for i := range b {
				b[i] = n.pix[4*i+k]
			}
			return b
		}
		if n.hasAlpha {
			channel(&l, -1, n.rect, plane(3))
		}
		for k := 0; k < 3; k++ {
			if n.lacks>>k&1 != 0 {
				continue
			}
			channel(&l, k, n.rect, plane(k))
		}
		if n.hasMask {
			l.Mask = &psdgen.Mask{Rect: toRect(n.maskRect), Default: byte(n.maskDef)}
			if n.maskDisabled {
				l.Mask.Flags = 2
			}
			channel(&l, -2, n.maskRect, n.mask)
		}
		d.Layers = append(d.Layers, l)
	}
	var walk func(p *node)
	walk = func(p *node) {
		for _, n := range p.children {
			if n.folder {
				record(&node{name: "</Layer group>", mode: "norm", opacity: 255, visible: true, blendClip: true}, 3)
				walk(n)
				n.seq = len(d.Layers)
				record(n, 2-b2i(n.open))
			} else {
				n.seq = len(d.Layers)
				record(n, 0)
			}
		}
	}
	walk(sc.root)
	d.MergedComp = psdgen.Raw
	d.Planes = [][]byte{make([]byte, sc.w*sc.h), make([]byte, sc.w*sc.h), make([]byte, sc.w*sc.h)}
	d.MergedEnc = make([]byte, 3*sc.w*sc.h)
	sc.doc = d
	sc.data = d.Encode().B
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (sc *scene) String() string {
	var s strings.Builder
	fmt.Fprintf(&s, "canvas %dx%d psb=%v\n", sc.w, sc.h, sc.psb)
	var walk func(p *node, ind string)
	walk = func(p *node, ind string) {
		for _, n := range p.children {
			fmt.Fprintf(&s, "%s#%d", ind, n.seq)
			if n.folder {
				s.WriteString(" group")
			}
			fmt.Fprintf(&s, " %q op=%d", n.mode, n.opacity)
			if !n.visible {
				s.WriteString(" hidden")
			}
			if n.clipping {
				s.WriteString(" clipping")
			}
			if !n.blendClip {
				s.WriteString(" noblendclip")
			}
			if !n.folder {
				fmt.Fprintf(&s, " %v alpha=%v", n.rect, n.hasAlpha)
				if len(n.pix) >= 4 {
					fmt.Fprintf(&s, " first %v", n.pix[:4])
				}
			}
			if n.hasMask {
				fmt.Fprintf(&s, " mask %v def=%d on=%v", n.maskRect, n.maskDef, n.maskOn)
				if len(n.mask) > 0 {
					fmt.Fprintf(&s, " first %d", n.mask[0])
				}
			}
			s.WriteByte('\n')
			walk(n, ind+"  ")
		}
	}
	walk(sc.root, " ")
	return s.String()
}
