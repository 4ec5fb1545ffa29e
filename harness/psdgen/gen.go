package psdgen

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf16"

	"verif/pbt"
)

// Opts steers the generator.
type Opts struct {
	Modes       []int // colour modes to use (nil: all that have pixels)
	Depth       int   // 0: any
	MaxDim      int   // largest canvas side
	MaxLayers   int
	Tree        bool // groups
	Rich        bool // rich layer metadata
	Pixels      bool // layer pixel data with non-empty rectangles
	NoMerged    bool // raw merged image of the smallest cost
	Place       bool // allow Lr16 and friends
	OddDividers bool // section dividers of unknown types
	ForceRGB8   bool
	// Big allows rare documents with parts that are large: rows over 64 KiB,
	// data over 1 MiB, hundreds of layers.
	Big bool
	// Wide allows some documents with long rows.
	Wide bool
	// WantLayers makes a layer section with at least one layer.
	WantLayers bool
}

var BlendKeys = []string{"norm", "pass", "diss", "dark", "mul ", "idiv", "lbrn", "dkCl", "lite", "scrn", "div ", "lddg", "lgCl",
	"over", "sLit", "hLit", "vLit", "lLit", "pLit", "hMix", "diff", "smud", "fsub", "fdiv", "hue ", "sat ", "colr", "lum "}

var combos = []struct{ mode, depth int }{
	{RGB, 8}, {Gray, 8}, {CMYK, 8}, {RGB, 16}, {Gray, 16}, {CMYK, 16}, {RGB, 32}, {Gray, 32}, {Indexed, 8}, {Bitmap, 1},
}

// HasLayers tells whether documents of the mode can have layers with pixels.
func HasLayers(mode int) bool { return mode == RGB || mode == Gray || mode == CMYK }

// GenDoc draws a well-formed document.
func GenDoc(t *pbt.T, o Opts) *Doc {
	d := &Doc{Version: 1}
	if t.Bool(35) {
		d.Version = 2
	}
	for {
		c := combos[t.N(len(combos))]
		if o.ForceRGB8 {
			c = combos[0]
		}
		if o.WantLayers && !HasLayers(c.mode) {
			c = combos[t.N(8)]
		}
		d.Mode, d.Depth = c.mode, c.depth
		break
	}
	md := o.MaxDim
	if md == 0 {
		md = 24
	}
	dim := func() int {
		switch t.N(6) {
		case 0:
			return 1 + t.N(3)
		case 1:
			return pbtMin(md, pbt.Pick(t, 7, 8, 9, 15, 16, 17))
		}
		return 1 + t.N(md)
	}
	d.W, d.H = dim(), dim()
	if o.Wide && t.Bool(12) {
		d.W, d.H = 100+t.N(pbt.Pick(t, 500, 2500)), 1+t.N(4)
		t.Label("long rows")
	}
	big := 0
	if o.Big && t.N(1000) >= 994 {
		big = 1 + t.N(14)
		t.Label("big document, kind %d", big)
		if big == 1 {
			d.Version = 2
			d.W, d.H = 65000+t.N(6000), 1+t.N(5)
		}
		if big == 11 {
			// the largest width or height
			d.Version, d.Mode, d.Depth = 2, combos[t.N(2)].mode, 8
			if o.ForceRGB8 {
				d.Mode = RGB
			}
			d.W, d.H = 300000-t.N(3)/2, 1
			if t.Bool(40) {
				d.W, d.H = d.H, d.W
			}
			if o.MaxLayers > 2 {
				o.MaxLayers = 2
			}
		}
		if big > 11 {
			// more rows or columns than 16 bits can count, in any mode
			d.Version = 2
			d.W, d.H = 1, 65530+t.N(1500)
			if t.Bool(30) {
				d.W, d.H = d.H, d.W
			}
			if o.MaxLayers > 2 {
				o.MaxLayers = 2
			}
			if !o.ForceRGB8 && o.WantLayers && o.Pixels {
				c := combos[t.N(8)]
				d.Mode, d.Depth = c.mode, c.depth
			}
		}
		if big == 5 && !o.ForceRGB8 {
			// rows of 32 to 64 KiB, whose lengths need all of 16 bits
			c := combos[[...]int{0, 3, 4, 5, 6, 7, 1}[t.N(7)]]
			d.Version, d.Mode, d.Depth = 1, c.mode, c.depth
			d.W, d.H = pbtMin(30000, 8*(32600+t.N(32000))/d.Depth), 1+t.N(2)
		}
	}
	if big == 6 {
		// tall: many rows
		d.W, d.H = 1+t.N(4), 100+t.N(pbt.Pick(t, 400, 3000, 29000))
		if t.Bool(20) {
			d.Version = 2
			d.W, d.H = 1, 65000+t.N(6000)
		}
	} else if o.Wide && t.Bool(5) {
		d.W, d.H = 1+t.N(4), 30+t.N(pbt.Pick(t, 100, 500))
		t.Label("tall")
	}
	base := ModeChannels(d.Mode)
	d.Channels = base
	if big == 7 && d.Mode != Bitmap && d.Mode != Indexed {
		d.Channels = base + 1 + t.N(56-base)
	} else if d.Mode != Bitmap && d.Mode != Indexed && t.Bool(45) {
		d.Channels = base + 1 + t.Weighted(6, 2, 1)
	}
	if d.Mode == Indexed {
		d.ModeData = t.Bytes(768)
	} else if t.Bool(10) {
		d.ModeData = t.Bytes(1 + t.N(40))
	}
	if t.Bool(60) {
		d.Res = GenRes(t, d)
	}
	if big == 2 {
		d.Res = append(d.Res, Res{Sig: "8BIM", ID: 0x0fa0, Data: t.Bytes(pbt.Pick(t, 65535, 65536, 70001, 1<<20, 1<<20+1, 1300000))})
	}
	// layers
	switch {
	case o.MaxLayers == 0 || !HasLayers(d.Mode):
		d.NoLayerSection = !t.Bool(30)
		d.EmptyInfo = true
	case !o.WantLayers && t.Bool(8):
		d.NoLayerSection = true
	case !o.WantLayers && t.Bool(5):
		d.EmptyInfo = true
	default:
		GenLayers(t, d, o)
		d.NegCount = t.Bool(40)
		if o.Place && t.Bool(35) {
			d.Place = pbt.Pick(t, "Lr16", "Lr32", "Layr")
		}
		if t.Bool(40) {
			d.InfoSlack = t.N(8)
		}
	}
	if !d.NoLayerSection {
		if t.Bool(50) {
			d.HasGlobal = true
			if t.Bool(50) {
				d.Global = t.Bytes(t.N(20))
			}
		}
		if t.Bool(35) {
			d.Infos = GenInfos(t, 1+t.N(3))
		}
		if d.HasGlobal || len(d.Infos) > 0 || d.Place != "" || t.Bool(20) {
			d.SectionSlack = t.N(4)
			if d.HasGlobal || len(d.Infos) > 0 || d.Place != "" {
				switch {
				case d.Large() && t.Bool(30):
					d.SectionSlack = t.N(8)
				case t.Bool(15):
					d.SectionSlack = 8 + t.N(13)
				}
			}
		}
	}
	if big == 3 {
		in := Info{Sig: "8BIM", Key: pbt.Pick(t, "Patt", "FMsk"), Data: t.Bytes(pbt.Pick(t, 65536, 70001, 1<<20, 1<<20+1, 1300000))}
		if len(d.Layers) > 0 && !d.Layers[0].NoExtra {
			d.Layers[0].Infos = append(d.Layers[0].Infos, in)
		} else if !d.NoLayerSection {
			d.Infos = append(d.Infos, in)
		}
	}
	if big == 4 && len(d.Layers) > 0 {
		n := pbt.Pick(t, 255, 256, 257, 300, 700, 1024, 5000)
		if t.Bool(5) {
			n = 32767 - len(d.Layers)
		}
		for i := 0; i < n; i++ {
			l := Layer{Blend: BlendKeys[i%len(BlendKeys)], Opacity: byte(i), Name: []byte(fmt.Sprint("n", i))}
			for c := 0; c < ModeChannels(d.Mode); c++ {
				l.Channels = append(l.Channels, Channel{ID: c})
			}
			d.Layers = append(d.Layers, l)
		}
	}
	if big == 8 {
		for n := pbt.Pick(t, 30, 255, 256, 300, 1000); n > 0; n-- {
			d.Res = append(d.Res, Res{Sig: "8BIM", ID: 0x0500 + n, Data: t.Bytes(t.N(4))})
		}
	}
	if big == 9 && !d.NoLayerSection {
		n := pbt.Pick(t, 30, 256, 1000)
		ins := GenInfos(t, n)
		if len(d.Layers) > 0 && !d.Layers[0].NoExtra {
			d.Layers[0].Infos = append(d.Layers[0].Infos, ins...)
		} else {
			d.Infos = append(d.Infos, ins...)
		}
	}
	if big == 10 && !d.NoLayerSection {
		n := pbt.Pick(t, 255, 256, 1000, 65535, 65536, 70000, 300000)
		switch k := t.N(3); {
		case k == 0 || len(d.Layers) == 0 || d.Layers[0].NoExtra:
			d.HasGlobal, d.Global = true, t.Bytes(n)
		case k == 1:
			d.Layers[0].Ranges = t.Bytes(n)
		case !d.Layers[0].HasUni:
			d.Layers[0].HasUni, d.Layers[0].Uni = true, strings.Repeat("x€", n/2)
			d.Layers[0].Infos = append(d.Layers[0].Infos, Info{Sig: "8BIM", Key: "luni", Data: UnicodeData(d.Layers[0].Uni, 0)})
		}
	}
	// merged image
	n := RowBytes(d.W, d.Depth) * d.H
	all := t.Bytes(n * d.Channels)
	if d.Depth == 32 {
		all = floats(t, d.W*d.H*d.Channels)
	}
	if d.Mode == Indexed && t.Bool(40) {
		for i := range all {
			all[i] &= 7
		}
	}
	for i := 0; i < d.Channels; i++ {
		d.Planes = append(d.Planes, all[i*n:(i+1)*n:(i+1)*n])
	}
	d.MergedComp = t.Weighted(3, 4, 1, 1)
	if o.NoMerged {
		d.MergedComp = Raw
	}
	if d.Depth == 1 && d.MergedComp == ZIPPred {
		d.MergedComp = ZIP
	}
	d.MergedEnc = EncodePlane(t, d.MergedComp, all, d.W, d.H*d.Channels, d.Depth, d.Large())
	return d
}

func pbtMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// floats returns n big-endian 32-bit floats, mostly in [0,1].
func floats(t *pbt.T, n int) []byte {
	rnd := Stream(t)
	kind := t.N(3)
	b := make([]byte, 4*n)
	for i := 0; i < n; i++ {
		var f float32
		switch {
		case kind == 0:
			f = float32(rnd()%1025) / 1024
		case kind == 1 && rnd()%6 == 0:
			f = [...]float32{0, 1, 2, -1, 0.5, 1e-20, 1e20, float32(math.Inf(1))}[rnd()%8]
		default:
			f = float32(rnd()%(1<<24)) / (1 << 24)
		}
		u := math.Float32bits(f)
		b[4*i], b[4*i+1], b[4*i+2], b[4*i+3] = byte(u>>24), byte(u>>16), byte(u>>8), byte(u)
	}
	return b
}

// GenRes draws the image resources of a document.
func GenRes(t *pbt.T, d *Doc) []Res {
	var rs []Res
	for k := t.N(5); k > 0; k-- {
		r := Res{Sig: "8BIM", ID: 0x0400 + t.N(64)}
		if t.Bool(15) {
			r.Sig = pbt.Pick(t, "MeSa", "PHUT", "AgHg", "DCSR")
		}
		if t.Bool(30) {
			r.ID = t.N(65536)
		}
		if r.ID == 0x041D || r.ID == 0x0417 {
			r.ID++
		}
		if t.Bool(40) {
			r.Name = t.Bytes(pbt.Pick(t, 1, 2, 3, 4, 5, 31, 254, 255))
		}
		if t.Bool(85) {
			r.Data = t.Bytes(t.N(30))
		}
		rs = append(rs, r)
	}
	if t.Bool(25) && len(rs) > 0 {
		r := rs[0] // the same ID again
		r.Data = t.Bytes(t.N(9))
		rs = append(rs, r)
	}
	if d.Channels > ModeChannels(d.Mode) && t.Bool(55) {
		// alpha identifiers
		var b []byte
		n := d.Channels - ModeChannels(d.Mode)
		for i := 0; i < n; i++ {
			v := byte(t.N(4))
			hi := byte(0)
			if t.Bool(25) {
				hi = byte(t.N(3))
			}
			b = append(b, hi, 0, 0, v)
		}
		if t.Bool(5) {
			b = nil
		}
		rs = append(rs, Res{Sig: "8BIM", ID: 0x041D, Data: b})
	}
	if d.Mode == Indexed && t.Bool(60) {
		rs = append(rs, Res{Sig: "8BIM", ID: 0x0417, Data: []byte{pbt.Pick(t, byte(0), byte(0), byte(0), byte(1)), t.Byte()}})
	}
	if d.Mode != Indexed && t.Bool(10) {
		rs = append(rs, Res{Sig: "8BIM", ID: 0x0417, Data: []byte{0, t.Byte()}})
	}
	return rs
}

var special = map[string]bool{"luni": true, "lsct": true, "lsdk": true, "clbl": true, "Layr": true, "Lr16": true, "Lr32": true}

// GenInfos draws blocks that carry opaque data.
func GenInfos(t *pbt.T, n int) []Info {
	var is []Info
	for ; n > 0; n-- {
		in := Info{Sig: "8BIM"}
		if t.Bool(20) {
			in.Sig = "8B64"
		}
		switch t.N(3) {
		case 0:
			in.Key = pbt.Pick(t, "lyid", "lfx2", "TySh", "shmd", "fxrp", "PlLd", "Patt", "lclr", "infx", "knko", "lspf", "vmsk")
		case 1:
			in.Key = pbt.Pick(t, "LMsk", "Mt16", "Mt32", "Mtrn", "Alph", "FMsk", "lnk2", "FEid", "FXid", "PxSD")
		default:
			b := make([]byte, 4)
			for i := range b {
				b[i] = "abcdefghijklmnopqrstuvwxyz0123489BIM"[t.N(36)]
			}
			in.Key = string(b)
			if special[in.Key] {
				in.Key = "lyid"
			}
		}
		if t.Bool(85) {
			in.Data = t.Bytes(t.N(24))
			if t.Bool(10) && len(in.Data) >= 8 {
				copy(in.Data, "8BIMluni")
			}
		}
		if t.Bool(40) {
			in.Pad = t.N(4)
		}
		is = append(is, in)
	}
	return is
}

func genRect(t *pbt.T, d *Doc, pixels bool) Rect {
	var r Rect
	if !pixels {
		r.Top, r.Left = t.Signed(200), t.Signed(200)
		if t.Bool(15) {
			r.Top = pbt.Pick(t, -2147483648, 2147483000, -300000, 299999)
		}
		r.Bottom, r.Right = r.Top, r.Left
		if t.Bool(30) {
			r.Bottom += t.N(50)
		}
		return r
	}
	if t.Bool(12) { // empty
		r.Top, r.Left = t.Signed(20), t.Signed(20)
		r.Bottom, r.Right = r.Top, r.Left
		if t.Bool(30) {
			r.Right += t.N(9)
		} else if t.Bool(30) {
			r.Bottom += t.N(9)
		}
		return r
	}
	r.Top, r.Left = t.Signed(d.H), t.Signed(d.W)
	if t.Bool(40) {
		r.Top, r.Left = 0, 0
	}
	if t.Bool(4) && d.W < 600 && d.H < 600 {
		r.Top = pbt.Pick(t, -2147483648, 2147483000, -40000)
		r.Left = pbt.Pick(t, -2147483648, 2147483000, -40000)
	}
	w, h := 1+t.N(d.W), 1+t.N(d.H)
	if t.Bool(25) {
		w, h = d.W, d.H
	}
	r.Right, r.Bottom = r.Left+w, r.Top+h
	return r
}

func genPlane(t *pbt.T, r Rect, depth int) []byte {
	if depth == 32 {
		return floats(t, r.Dx()*r.Dy())
	}
	return t.Bytes(RowBytes(r.Dx(), depth) * r.Dy())
}

func encodeChannel(t *pbt.T, c *Channel, depth int, large bool) {
	c.Comp = t.Weighted(2, 4, 1, 2)
	empty := c.Rect.Dx() == 0 || c.Rect.Dy() == 0
	if empty {
		c.Comp = t.Weighted(4, 4, 1, 1)
	}
	if depth == 1 && c.Comp == ZIPPred {
		c.Comp = ZIP
	}
	if empty && t.Bool(25) {
		// nothing but the compression word, or not even that
		c.None = t.Bool(15)
		return
	}
	c.Enc = EncodePlane(t, c.Comp, c.Plane, c.Rect.Dx(), c.Rect.Dy(), depth, large)
	if t.Bool(10) && len(c.Enc) > 0 {
		c.Slack = t.Bytes(1 + t.N(5))
		if t.Bool(6) {
			c.Slack = t.Bytes(4090 + t.N(5000))
		}
	}
}

// GenLayers draws the layer records of the document.
func GenLayers(t *pbt.T, d *Doc, o Opts) {
	left := 1 + t.N(o.MaxLayers)
	if t.Bool(5) && !o.WantLayers {
		left = 0
	}
	if o.Tree && t.Bool(3) {
		deep := 5 + t.N(120)
		t.Label("nesting of more than 4 levels")
		slim := o
		slim.Rich, slim.Pixels = false, false
		for i := 0; i < deep; i++ {
			d.Layers = append(d.Layers, genLayer(t, d, slim, 3))
		}
		for i := 0; i < deep; i++ {
			if t.Bool(10) {
				d.Layers = append(d.Layers, genLayer(t, d, slim, 0))
			}
			d.Layers = append(d.Layers, genLayer(t, d, slim, 1+t.N(2)))
		}
	}
	var emit func(depth int)
	emit = func(depth int) {
		for left > 0 {
			if depth > 0 && t.Bool(20) {
				return
			}
			left--
			if o.Tree && depth < 6 && t.Bool(30) {
				// the bottom of a group
				b := genLayer(t, d, o, 3)
				d.Layers = append(d.Layers, b)
				emit(depth + 1)
				typ := 1 + t.N(2)
				d.Layers = append(d.Layers, genLayer(t, d, o, typ))
				continue
			}
			d.Layers = append(d.Layers, genLayer(t, d, o, 0))
		}
	}
	emit(0)
}

func genLayer(t *pbt.T, d *Doc, o Opts, div int) Layer {
	l := Layer{Blend: "norm", Opacity: 255}
	l.Blend = BlendKeys[t.N(len(BlendKeys))]
	if t.Bool(4) {
		l.Blend = pbt.Pick(t, "xxxx", "norM", "    ")
	}
	l.Opacity = t.Byte()
	if t.Bool(30) {
		l.Clipping = pbt.Pick(t, byte(1), byte(1), byte(1), byte(255))
	}
	l.Flags = byte(t.N(32))
	if t.Bool(10) {
		l.Flags = t.Byte()
	}
	pix := o.Pixels && div == 0
	l.Rect = genRect(t, d, pix)
	if o.Rich && t.Bool(35) || o.Pixels && t.Bool(25) {
		l.Mask = genMask(t, d, o)
	}
	l.Name = genName(t)
	if o.Rich && t.Bool(30) {
		l.Ranges = t.Bytes(t.N(40))
	}
	var infos []Info
	if o.Rich && t.Bool(60) {
		infos = GenInfos(t, t.N(4))
	}
	insert := func(in Info) {
		k := t.N(len(infos) + 1)
		if t.Bool(30) {
			in.Pad = t.N(4)
		}
		infos = append(infos[:k], append([]Info{in}, infos[k:]...)...)
	}
	if t.Bool(55) {
		l.HasUni = true
		l.Uni = genUnicode(t)
		insert(Info{Sig: "8BIM", Key: "luni", Data: UnicodeData(l.Uni, pbt.Pick(t, 0, 0, 2, 4))})
	}
	if t.Bool(40) {
		l.HasClbl = true
		v := byte(t.N(2))
		if t.Bool(10) {
			v = t.Byte()
		}
		l.Clbl = v != 0
		insert(Info{Sig: "8BIM", Key: "clbl", Data: []byte{v, 0, 0, 0}})
	}
	if div != 0 || t.Bool(10) {
		if div == 0 && o.OddDividers && t.Bool(60) { // a kind of divider that nobody knows
			div = pbt.Pick(t, 4, 5, 7, 0xff, 0x100, 0x101, 0x103, 0x10003, 0x1000002, 0x7fffffff)
		}
		l.DivType = div
		b := []byte{byte(div >> 24), byte(div >> 16), byte(div >> 8), byte(div)}
		switch t.N(3) {
		case 0:
			if t.Bool(20) {
				b = append(b, "8BIMpas"[:t.N(8)]...) // an incomplete field
			}
		case 1, 2:
			l.HasDivBlend = true
			l.DivBlend = pbt.Pick(t, "pass", "norm", BlendKeys[t.N(len(BlendKeys))])
			b = append(b, "8BIM"...)
			b = append(b, l.DivBlend...)
			if t.Bool(40) {
				l.DivSub = t.N(2)
				if o.OddDividers && t.Bool(20) {
					l.DivSub = pbt.Pick(t, 2, 3, 0x100, 0x10001, 0x7fffffff)
				}
				b = append(b, byte(l.DivSub>>24), byte(l.DivSub>>16), byte(l.DivSub>>8), byte(l.DivSub))
				if t.Bool(15) {
					b = append(b, t.Bytes(t.N(5))...)
				}
			} else if t.Bool(15) {
				b = append(b, make([]byte, t.N(4))...)
			}
		}
		key := "lsct"
		if t.Bool(25) {
			key = "lsdk"
		}
		insert(Info{Sig: "8BIM", Key: key, Data: b})
	}
	l.Infos = infos
	if len(infos) == 0 && l.Mask == nil && len(l.Ranges) == 0 && t.Bool(25) {
		l.NoExtra = true
		l.Name = nil
	}
	// channels
	ids := []int{}
	for i := 0; i < ModeChannels(d.Mode); i++ {
		ids = append(ids, i)
	}
	alpha := t.Bool(65)
	if alpha {
		if t.Bool(70) {
			ids = append([]int{-1}, ids...)
		} else {
			ids = append(ids, -1)
		}
	}
	if t.Bool(12) && len(ids) > 1 { // another order
		i, j := t.N(len(ids)), t.N(len(ids))
		ids[i], ids[j] = ids[j], ids[i]
	}
	switch t.N(20) {
	case 0: // no pixel data at all
		if t.Bool(60) {
			ids = nil
		}
	case 1: // one is missing
		if k := t.N(len(ids)); t.Bool(40) {
			ids = append(ids[:k:k], ids[k+1:]...)
		}
	case 2: // a spot channel
		if t.Bool(40) {
			ids = append(ids, ModeChannels(d.Mode)+t.N(3))
			for i := ids[len(ids)-1] + 1; t.Bool(1) && i < 56; i++ {
				ids = append(ids, i)
			}
		}
	}
	if l.Mask != nil && l.Mask.Short == 0 {
		if o.Pixels || t.Bool(50) {
			ids = append(ids, -2)
		}
		if l.Mask.Real && (o.Pixels || t.Bool(50)) {
			ids = append(ids, -3)
		}
	}
	for _, id := range ids {
		c := Channel{ID: id, Rect: l.Rect}
		switch id {
		case -2:
			c.Rect = l.Mask.Rect
		case -3:
			c.Rect = l.Mask.RealRect
		}
		c.Plane = genPlane(t, c.Rect, d.Depth)
		encodeChannel(t, &c, d.Depth, d.Large())
		l.Channels = append(l.Channels, c)
	}
	return l
}

func genMask(t *pbt.T, d *Doc, o Opts) *Mask {
	m := &Mask{}
	if o.Rich && t.Bool(8) {
		m.Short = pbt.Pick(t, 4, 1, 8, 15)
		return m
	}
	m.Rect = genRect(t, d, o.Pixels)
	m.Default = pbt.Pick(t, byte(0), byte(255))
	if t.Bool(10) {
		m.Default = t.Byte()
	}
	m.Flags = byte(t.N(16))
	if t.Bool(35) {
		m.Params = true
		m.Flags |= 16
		m.ParamBits = byte(t.N(16))
		m.UserDens, m.VecDens = t.Byte(), t.Byte()
		m.UserFeath = float64(t.N(2000)) / 8
		m.VecFeath = float64(t.N(2000)) / 16
	}
	n := 18
	if m.Params {
		n++
		if m.ParamBits&1 != 0 {
			n++
		}
		if m.ParamBits&2 != 0 {
			n += 8
		}
		if m.ParamBits&4 != 0 {
			n++
		}
		if m.ParamBits&8 != 0 {
			n += 8
		}
	}
	m.Real = n > 20 || t.Bool(50)
	if m.Real {
		m.RealFlags, m.RealBg = byte(t.N(16)), t.Byte()
		m.RealRect = genRect(t, d, o.Pixels)
		if t.Bool(25) {
			m.Tail = t.Bytes(1 + t.N(6))
		}
	}
	if o.Rich && t.Bool(20) {
		// any length
		full := 18
		if m.Real {
			full = n + 18
		}
		if t.Bool(50) {
			full = 20
		}
		m.Cut(16 + t.N(full-15))
	}
	return m
}

func genName(t *pbt.T) []byte {
	switch t.N(6) {
	case 0:
		return nil
	case 1:
		return t.Bytes(pbt.Pick(t, 1, 2, 3, 4, 5, 6, 7, 8, 31, 63, 127, 128, 252, 253, 254, 255))
	case 2:
		return []byte{0x83, 0x8c, 0x83, 0x43, 0x83, 0x84, 0x81, 0x5b} // Shift_JIS
	}
	return []byte("Layer " + fmt.Sprint(t.N(100)))
}

func genUnicode(t *pbt.T) string {
	switch t.N(6) {
	case 0:
		return ""
	case 1:
		var s strings.Builder
		for k := t.N(6); k > 0; k-- {
			s.WriteRune(pbt.Pick(t, 'a', 0xe9, 0x30ec, 0x1F600, 0x10FFFF, 0xFFFD, 0x7f, 0xffff, 0xd7ff, 0xe000))
		}
		return s.String()
	case 2:
		return strings.Repeat("é", 1+t.N(300))
	}
	return "Layer " + fmt.Sprint(t.N(100))
}

var _ = utf16.Encode

// Summary describes a document in a few lines.
func (d *Doc) Summary() string {
	var s strings.Builder
	fmt.Fprintf(&s, "v%d mode=%d depth=%d %dx%d ch=%d res=%d place=%q comp=%d nosection=%v", d.Version, d.Mode, d.Depth, d.W, d.H, d.Channels, len(d.Res), d.Place, d.MergedComp, d.NoLayerSection)
	for i := range d.Layers {
		l := &d.Layers[i]
		fmt.Fprintf(&s, "\n  layer %d div=%d rect=%v blend=%q op=%d clip=%d flags=%x mask=%+v noextra=%v uni=%q infos=", i, l.DivType, l.Rect, l.Blend, l.Opacity, l.Clipping, l.Flags, l.Mask, l.NoExtra, trunc(l.Uni))
		for _, in := range l.Infos {
			fmt.Fprintf(&s, "%q/%d ", in.Key, len(in.Data))
		}
		for _, c := range l.Channels {
			fmt.Fprintf(&s, "\n    ch %d rect=%v comp=%d len=%d slack=%d", c.ID, c.Rect, c.Comp, len(c.Enc), len(c.Slack))
		}
		if s.Len() > 4000 {
			s.WriteString("\n  ...")
			break
		}
	}
	return s.String()
}

func trunc(s string) string {
	if len(s) > 20 {
		return s[:20] + "…"
	}
	return s
}
