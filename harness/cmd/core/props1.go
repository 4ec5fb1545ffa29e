package main

import (
	"bytes"
	"image"
	"io"
	"runtime"

	"github.com/oov/psd"

	"verif/pbt"
	"verif/psdgen"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C01", Quick: 1500000, Thorough: 4000000, Run: c01,
		Rule:        "A model document (version, size, depth, colour mode, colour-mode data, image resources with every signature, odd/even names and data, repeated IDs) is encoded and decoded; one case in four instead breaks one header field. Non-trivial: at least one resource or colour-mode data, or a broken header.",
		Assumptions: []string{"the encoder in /verif/harness/psdgen states the file format"}})
	pbt.Register(&pbt.Prop{ID: "C02", Quick: 240000, Thorough: 900000, Run: c02,
		Rule:        "A model document with layers carrying every metadata field (rectangles over the 32-bit range, masks of all documented lengths, padded and unpadded additional information, Unicode names, PSB lengths, layers in the layer section or in an additional block) is encoded and decoded, with and without pixel data. Non-trivial: at least one layer.",
		Assumptions: []string{"the encoder in /verif/harness/psdgen states the file format"}})
	pbt.Register(&pbt.Prop{ID: "C03", Quick: 200000, Thorough: 900000, Run: c03,
		Rule: "Sequences of layer records with section dividers: balanced nested groups, or arbitrary sequences of divider types. Non-trivial: at least one divider.",
	})
	pbt.Register(&pbt.Prop{ID: "C04", Quick: 60000, Thorough: 500000, Run: c04,
		Rule:        "A model document whose layers have pixel data (every depth, compression method, channel set incl. transparency and masks, empty rectangles, arbitrary PackBits encodings) is decoded; all channel bytes and all pixels are compared. Non-trivial: a layer with a non-empty rectangle.",
		Assumptions: []string{"the encoder in /verif/harness/psdgen states the file format"}})
	pbt.Register(&pbt.Prop{ID: "C05", Quick: 220000, Thorough: 800000, Run: c05,
		Rule:        "A model document's merged image (every mode, depth, compression, extra channels, alpha identifiers, palette and transparency index) is decoded; all channel bytes and pixels are compared, also through image.Decode. Non-trivial: more than one pixel.",
		Assumptions: []string{"the encoder in /verif/harness/psdgen states the file format"}})
	pbt.Register(&pbt.Prop{ID: "C06", Quick: 300000, Thorough: 2500000, Run: c06,
		Rule: "Random planes are compressed by an independent encoder (any valid PackBits, any deflate level, predictor) and decompressed through the public method, or the compressed form is damaged in a way that makes it invalid. Non-trivial: at least two rows or a damaged stream.",
	})
}

func c01(t *pbt.T) {
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 6, NoMerged: true, Big: true})
	// the header alone can say more than the merged image is made for
	if t.Bool(50) {
		d.Channels = 1 + t.N(56)
		max := 30000
		if d.Version == 2 {
			max = 300000
		}
		d.W, d.H = 1+t.N(max), 1+t.N(max)
		if t.Bool(20) {
			d.W = max
		}
		if t.Bool(20) {
			d.H = max
		}
		d.Depth = pbt.Pick(t, 1, 8, 16, 32)
		d.Mode = pbt.Pick(t, 0, 1, 2, 3, 4, 7, 8, 9)
		if d.Mode == psdgen.Duotone {
			d.ModeData = t.Bytes(t.N(600))
		}
	}
	o := d.Encode()
	b := o.B
	t.Descf("%s\n%d bytes of header and resources", d.Summary(), o.ResEnd)
	if t.Bool(25) {
		c01bad(t, d, o)
		return
	}
	if len(d.Res) > 0 || len(d.ModeData) > 0 {
		t.NonTrivial()
		t.Label("with resources or mode data")
	}
	cfg, n, err := psd.DecodeConfig(bytes.NewReader(b))
	if err != nil {
		t.Fatalf("well-formed header rejected: %v", err)
	}
	_ = n
	checkConfig(t, d, &cfg)
	if d.Mode == psdgen.Indexed && len(d.ModeData) == 768 {
		want := palette(d)
		got := cfg.Palette()
		if len(got) != 256 {
			t.Fatalf("palette of %d colours", len(got))
		}
		for i := range want {
			if !sameColor(got[i], want[i], 0) {
				t.Fatalf("palette entry %d is %v, want %v", i, got[i], want[i])
			}
		}
	} else if d.Mode != psdgen.Indexed && cfg.Palette() != nil {
		t.Fatalf("a palette in colour mode %d", d.Mode)
	}
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatalf("well-formed file rejected: %v", err)
	}
	checkConfig(t, d, &p.Config)
	if t.Bool(30) {
		// the standard library finds the format by its signature
		c, f, err := image.DecodeConfig(bytes.NewReader(b))
		supported := d.Mode == psdgen.Bitmap && d.Depth == 1 || d.Mode == psdgen.Indexed && d.Depth == 8 || d.Mode == psdgen.RGB && d.Depth >= 8 ||
			d.Mode == psdgen.Gray && d.Depth >= 8 || d.Mode == psdgen.CMYK && (d.Depth == 8 || d.Depth == 16)
		supported = supported && d.Channels >= psdgen.ModeChannels(d.Mode)
		if d.Mode == psdgen.Indexed && len(d.ModeData) != 768 {
			return
		}
		if supported && err != nil {
			t.Fatalf("image.DecodeConfig: %v", err)
		}
		if err == nil {
			wf := "psd"
			if d.Version == 2 {
				wf = "psb"
			}
			if c.Width != d.W || c.Height != d.H || f != wf {
				t.Fatalf("image.DecodeConfig gives %dx%d %q, want %dx%d %q", c.Width, c.Height, f, d.W, d.H, wf)
			}
		}
	}
}

func c01bad(t *pbt.T, d *psdgen.Doc, o *psdgen.Out) {
	t.NonTrivial()
	b := o.B
	set := func(off, n int, v uint64) {
		for i := n - 1; i >= 0; i-- {
			b[off+i] = byte(v)
			v >>= 8
		}
	}
	max := uint64(30000)
	if d.Version == 2 {
		max = 300000
	}
	what := ""
	switch t.N(7) {
	case 0:
		i := t.N(4)
		b[i] ^= byte(1 << uint(t.N(8)))
		what = "signature"
	case 1:
		v := pbt.Pick(t, uint64(0), 3, 0xffff, 0x100, 0x101, 0x200, uint64(3+t.N(65533)))
		set(4, 2, v)
		what = "version"
	case 2:
		set(12, 2, pbt.Pick(t, uint64(0), 57, 58, 64, 0xffff, 0x0100, uint64(57+t.N(65536-57))))
		what = "channel count"
	case 3:
		set(14, 4, pbt.Pick(t, uint64(0), max+1, max+uint64(t.N(1000000))+1, 0xffffffff, 0x80000000))
		what = "height"
	case 4:
		set(18, 4, pbt.Pick(t, uint64(0), max+1, max+uint64(t.N(1000000))+1, 0xffffffff, 0x80000000))
		what = "width"
	case 5:
		v := uint64(t.N(65536))
		if v == 1 || v == 8 || v == 16 || v == 32 {
			v++
		}
		set(22, 2, v)
		what = "depth"
	case 6:
		for _, m := range o.Marks {
			if m.Name == "res.sig" {
				b[m.Off+t.N(4)] ^= byte(1 << uint(t.N(3)))
				what = "resource signature"
				break
			}
		}
		if what == "" {
			t.Skip()
		}
	}
	t.Label("bad " + what)
	t.Descf("broken: %s", what)
	if _, _, err := psd.DecodeConfig(bytes.NewReader(b)); err == nil {
		t.Fatalf("DecodeConfig accepts a file with a bad %s", what)
	}
	if _, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true}); err == nil {
		t.Fatalf("Decode accepts a file with a bad %s", what)
	}
}

func c02(t *pbt.T) {
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 4, MaxLayers: 5, Rich: true, Tree: true, Place: true, NoMerged: true, WantLayers: true, Big: true, Pixels: t.Bool(25), OddDividers: true})
	o := d.Encode()
	t.Descf("%s", d.Summary())
	labels(t, d)
	if len(d.Layers) > 0 {
		t.NonTrivial()
	}
	p, _ := decodeDoc(t, o.B, &psd.DecodeOptions{SkipLayerImage: t.Bool(40)})
	got := map[int]*psd.Layer{}
	flatten(p.Layer, got)
	for i := range d.Layers {
		if d.Layers[i].DivType == 3 {
			continue // the closing record of a group is not a layer of its own
		}
		l, ok := got[i]
		if !ok {
			t.Fatalf("layer record %d is missing from the tree", i)
		}
		checkMeta(t, i, l, &d.Layers[i])
	}
	want := map[string][]byte{}
	for _, in := range d.Infos {
		want[in.Key] = in.Data
	}
	for k, w := range want {
		g, ok := p.AdditinalLayerInfo[psd.AdditionalInfoKey(k)]
		if !ok || !bytes.Equal(g, w) {
			t.Fatalf("document additional information %q is %x (present %v), written %x", k, g, ok, w)
		}
	}
	for k := range p.AdditinalLayerInfo {
		if _, ok := want[string(k)]; !ok {
			t.Fatalf("document additional information %q was not written", string(k))
		}
	}
	// what follows the section is still in step
	checkMerged(t, d, p)
}

func c03(t *pbt.T) {
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 2, MaxLayers: 10, Tree: true, NoMerged: true, WantLayers: true, Place: true, Big: true})
	if t.Bool(35) {
		// arbitrary dividers
		t.Label("arbitrary dividers")
		for i := range d.Layers {
			l := &d.Layers[i]
			if l.NoExtra {
				continue
			}
			div := t.Weighted(5, 1, 1, 2)
			if t.Bool(10) {
				div = pbt.Pick(t, 4, 5, 7, 0xff, 0x100, 0x101, 0x103, 0x10003, 0x1000002, 0x7fffffff)
			}
			var is []psdgen.Info
			for _, in := range l.Infos {
				if in.Key != "lsct" && in.Key != "lsdk" {
					is = append(is, in)
				}
			}
			l.Infos, l.DivType, l.HasDivBlend, l.DivSub = is, div, false, 0
			if div != 0 {
				l.Infos = append(is, psdgen.Info{Sig: "8BIM", Key: "lsct", Data: []byte{byte(div >> 24), byte(div >> 16), byte(div >> 8), byte(div)}})
			}
		}
	}
	div := 0
	for i := range d.Layers {
		if d.Layers[i].DivType != 0 {
			div++
		}
	}
	if div > 0 {
		t.NonTrivial()
	}
	var types []int
	for i := range d.Layers {
		types = append(types, d.Layers[i].DivType)
	}
	if len(d.Layers) > 0 && t.Bool(5) {
		d.Again = pbt.Pick(t, "Lr16", "Lr32", "Layr")
	}
	t.Descf("divider types %v place=%q again=%q", types, d.Place, d.Again)
	o := d.Encode()
	if d.Again != "" {
		t.Label("two lists of layers")
		if _, _, err := psd.Decode(bytes.NewReader(o.B), &psd.DecodeOptions{SkipLayerImage: t.Bool(50)}); err == nil {
			t.Fatalf("a document with two lists of layers is accepted")
		}
		return
	}
	want, ok := expectTree(d.Layers)
	p, _, err := psd.Decode(bytes.NewReader(o.B), &psd.DecodeOptions{SkipLayerImage: t.Bool(50)})
	if !ok {
		t.Label("unbalanced")
		if err == nil {
			t.Fatalf("unbalanced groups %v are accepted", types)
		}
		return
	}
	if err != nil {
		t.Fatalf("well-formed groups %v rejected: %v", types, err)
	}
	t.Label("groups %d", (div+1)/2)
	checkTree(t, "root", p.Layer, want)
	got := map[int]*psd.Layer{}
	flatten(p.Layer, got)
	for i, l := range got {
		if l.Name != string(d.Layers[i].Name) && !d.Layers[i].HasUni {
			t.Fatalf("layer %d has the name %q, written %q", i, l.Name, d.Layers[i].Name)
		}
		if l.Opacity != d.Layers[i].Opacity {
			t.Fatalf("layer %d has opacity %d, written %d", i, l.Opacity, d.Layers[i].Opacity)
		}
	}
}

func c04(t *pbt.T) {
	procs(t)
	big := t.Bool(4)
	o := psdgen.Opts{MaxDim: 20, MaxLayers: 3, Pixels: true, Tree: t.Bool(30), Rich: t.Bool(30), Place: true, NoMerged: true, WantLayers: true, Big: true}
	if big {
		o.MaxDim, o.MaxLayers = 150, 1
	}
	d := psdgen.GenDoc(t, o)
	t.Descf("%s\nGOMAXPROCS %d", d.Summary(), runtime.GOMAXPROCS(0))
	labels(t, d)
	p, _ := decodeDoc(t, d.Encode().B, nil)
	got := map[int]*psd.Layer{}
	flatten(p.Layer, got)
	for i := range d.Layers {
		w := &d.Layers[i]
		if w.Rect.Dx() > 0 && w.Rect.Dy() > 0 {
			t.NonTrivial()
		}
		if w.DivType == 3 {
			continue
		}
		l, ok := got[i]
		if !ok {
			t.Fatalf("layer record %d is missing", i)
		}
		checkLayerPixels(t, d, i, l, w)
	}
	checkMerged(t, d, p)
}

func procs(t *pbt.T) int {
	n := pbt.Pick(t, 4, 1, 2, 3, 5, 6, 7, 8, 16, 61)
	runtime.GOMAXPROCS(n)
	return n
}

// unsupported lists the depths that the modes do not have in this package.
var unsupported = []struct{ mode, depth int }{
	{psdgen.Indexed, 1}, {psdgen.Indexed, 16}, {psdgen.Indexed, 32}, {psdgen.Bitmap, 8}, {psdgen.Bitmap, 16}, {psdgen.Bitmap, 32},
	{psdgen.Gray, 1}, {psdgen.RGB, 1}, {psdgen.CMYK, 1}, {psdgen.CMYK, 32},
	{psdgen.Lab, 8}, {psdgen.Lab, 16}, {psdgen.Multichannel, 8}, {psdgen.Multichannel, 16}, {psdgen.Duotone, 8}, {psdgen.Duotone, 16}, {5, 8}, {6, 8},
}

// c05unsupported: a mode or depth without an image is refused and not shown as
// something else.
func c05unsupported(t *pbt.T) {
	k := unsupported[t.N(len(unsupported))]
	d := &psdgen.Doc{Version: 1 + t.N(2), Mode: k.mode, Depth: k.depth, W: 1 + t.N(20), H: 1 + t.N(20), NoLayerSection: true, EmptyInfo: true}
	d.Channels = 1 + t.N(6)
	if t.Bool(40) {
		d.Channels = psdgen.ModeChannels(d.Mode)
	}
	if t.Bool(60) || d.Mode == psdgen.Indexed {
		d.ModeData = t.Bytes(768)
	}
	d.MergedComp = t.N(3)
	all := t.Bytes(psdgen.RowBytes(d.W, d.Depth) * d.H * d.Channels)
	d.MergedEnc = psdgen.EncodePlane(t, d.MergedComp, all, d.W, d.H*d.Channels, d.Depth, d.Large())
	t.Descf("%s", d.Summary())
	t.Label("unsupported mode %d depth %d", d.Mode, d.Depth)
	t.NonTrivial()
	p, _, err := psd.Decode(bytes.NewReader(d.Encode().B), nil)
	if err == nil {
		t.Fatalf("mode %d with depth %d is decoded, to an image of type %T", d.Mode, d.Depth, p.Picker)
	}
}

func c05(t *pbt.T) {
	procs(t)
	if t.Bool(6) {
		c05unsupported(t)
		return
	}
	o := psdgen.Opts{MaxDim: 30, Big: true}
	if t.Bool(3) {
		o.MaxDim = 200
	}
	d := psdgen.GenDoc(t, o)
	b := d.Encode().B
	t.Descf("%s\nGOMAXPROCS %d", d.Summary(), runtime.GOMAXPROCS(0))
	labels(t, d)
	if d.W*d.H > 1 {
		t.NonTrivial()
	}
	p, _ := decodeDoc(t, b, nil)
	checkMerged(t, d, p)
	if t.Bool(30) {
		img, f, err := image.Decode(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("image.Decode: %v", err)
		}
		if (f == "psb") != (d.Version == 2) {
			t.Fatalf("image.Decode names the format %q", f)
		}
		checkMergedImage(t, d, img)
	}
}

func c06(t *pbt.T) {
	procs(t)
	depth := pbt.Pick(t, 8, 1, 16, 32)
	comp := t.N(4)
	if depth == 1 && comp == psdgen.ZIPPred {
		comp = psdgen.ZIP
	}
	chs := 1 + t.Weighted(5, 1, 2, 1)
	w, h := t.N(40), t.N(24)
	if t.Bool(10) {
		w = pbt.Pick(t, 127, 128, 129, 255, 256, 257, 300)
	}
	if w == 0 || h == 0 {
		w, h = 1, 1
	}
	large := t.Bool(40)
	if t.N(1000) >= 996 {
		w, large = 65000+t.N(6000), true
		h = 1 + t.N(12)
		t.Label("rows over 64 KiB")
	}
	if n := t.N(1000); n >= 992 && n < 996 {
		w, h, large = pbtMin(30000, 8*(32600+t.N(32000))/depth), 1+t.N(6), false
		t.Label("rows of 32 to 64 KiB")
	}
	if n := t.N(1000); n >= 990 {
		w, h = 1+t.N(5), 50+t.N(pbt.Pick(t, 500, 3000, 30000, 70000))
		if depth == 1 {
			w *= 8
		}
		t.Label("many rows")
	}
	min := image.Pt(t.Signed(50), t.Signed(50))
	rect := image.Rectangle{Min: min, Max: min.Add(image.Pt(w, h))}
	rb := psdgen.RowBytes(w, depth)
	data := t.Bytes(rb * h * chs)
	enc := psdgen.EncodePlane(t, comp, data, w, h*chs, depth, large)
	t.Descf("method %d depth %d rect %v channels %d large %v GOMAXPROCS %d\ndata %.400x\nencoded %.400x", comp, depth, rect, chs, large, runtime.GOMAXPROCS(0), data, enc)
	t.Label("method %d depth %d", comp, depth)
	if h*chs >= 2 {
		t.NonTrivial()
	}
	cm := psd.CompressionMethod(comp)
	if t.Bool(30) {
		c06bad(t, cm, data, enc, rect, depth, chs, large, rb)
		return
	}
	trail := 0
	if t.Bool(50) {
		trail = t.N(40)
	}
	src := append(append([]byte(nil), enc...), t.Bytes(trail)...)
	hint := int64(len(enc))
	if t.Bool(40) {
		hint = 0
	}
	r := &countReader{b: src}
	dest := make([]byte, len(data))
	n, err := cm.Decode(dest, r, hint, rect, depth, chs, large)
	if err != nil {
		t.Fatalf("valid data rejected: %v", err)
	}
	if !bytes.Equal(dest, data) {
		k := 0
		for dest[k] == data[k] {
			k++
		}
		t.Fatalf("decoded data differs at byte %d: %#x, want %#x", k, dest[k], data[k])
	}
	if n != r.n {
		t.Fatalf("reports %d bytes read, took %d", n, r.n)
	}
	if comp == psdgen.Raw || comp == psdgen.RLE {
		if n != len(enc) {
			t.Fatalf("read %d bytes of a stream of %d", n, len(enc))
		}
	} else if hint > 0 && n > len(enc) {
		t.Fatalf("read %d bytes of a stream of %d with a size hint", n, len(enc))
	}
}

// countReader is a reader without any other method.
type countReader struct {
	b []byte
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	if c.n >= len(c.b) {
		return 0, io.EOF
	}
	k := copy(p, c.b[c.n:])
	c.n += k
	return k, nil
}

// c06bad damages the stream in a way that leaves it invalid and expects an error.
func c06bad(t *pbt.T, cm psd.CompressionMethod, data, enc []byte, rect image.Rectangle, depth, chs int, large bool, rb int) {
	t.NonTrivial()
	rows := rect.Dy() * chs
	bad := append([]byte(nil), enc...)
	what := ""
	shortRow := -1
	switch {
	case t.Bool(15):
		v := pbt.Pick(t, 4, 5, 255, 256, -1, 32767, -32768)
		cm = psd.CompressionMethod(v)
		what = "unknown method"
	case cm == psd.CompressionMethodRLE && t.Bool(75):
		sz := 2
		if large {
			sz = 4
		}
		var lens []int
		for y := 0; y < rows; y++ {
			v := 0
			for k := 0; k < sz; k++ {
				v = v<<8 | int(enc[y*sz+k])
			}
			lens = append(lens, v)
		}
		y := t.N(rows)
		off := rows * sz
		for i := 0; i < y; i++ {
			off += lens[i]
		}
		row := enc[off : off+lens[y]]
		var nr []byte
		switch t.N(4) {
		case 0: // the row is one run too long
			nr = append(append([]byte(nil), row...), pbt.Pick(t, byte(0x81), 0xff, 0x90), 7)
			what = "row too long"
		case 1: // the row is one literal too long
			nr = append(append([]byte(nil), row...), 0, 7)
			what = "row too long"
		case 2: // the row ends inside a packet
			nr = append(append([]byte(nil), row[:0]...), pbt.Pick(t, byte(0x81), 0xff, 0x05, 0x00, 0x7f))
			what = "row ends inside a packet"
		case 3: // a row that gives one byte only: it may be refused, but the other rows stay
			nr = []byte{0, 9}
			what = "row too short"
			shortRow = y
		}
		bad = append([]byte(nil), enc[:rows*sz]...)
		v := len(nr)
		for k := sz - 1; k >= 0; k-- {
			bad[y*sz+k] = byte(v)
			v >>= 8
		}
		bad = append(bad, enc[rows*sz:off]...)
		bad = append(bad, nr...)
		bad = append(bad, enc[off+lens[y]:]...)
	case cm == psd.CompressionMethodRaw || cm == psd.CompressionMethodRLE:
		bad = bad[:t.N(len(bad))]
		what = "truncated"
	default:
		switch t.N(3) {
		case 0:
			bad = bad[:t.N(len(bad)-4)] // inside the deflate data
			what = "truncated"
			// a prefix may already hold all the data
			if len(bad) > len(enc)-12 {
				bad = bad[:len(enc)/2]
			}
		case 1:
			bad[0] ^= byte(1 << uint(t.N(8)))
			what = "bad zlib header"
		case 2:
			// a stream of fewer bytes than the picture needs
			short := data[:t.N(len(data))]
			bad = psdgen.EncodeZIP(t, short)
			what = "stream too short"
		}
	}
	t.Label("bad: " + what)
	t.Descf("damaged: %s\n%.400x", what, bad)
	dest := make([]byte, len(data))
	hint := int64(len(bad))
	if t.Bool(50) {
		hint = 0
	}
	_, err := cm.Decode(dest, bytes.NewReader(bad), hint, rect, depth, chs, large)
	if shortRow >= 0 {
		if err != nil {
			return
		}
		for y := 0; y < rows; y++ {
			if y != shortRow && !bytes.Equal(dest[y*rb:(y+1)*rb], data[y*rb:(y+1)*rb]) {
				t.Fatalf("row %d is broken by row %d, which is too short", y, shortRow)
			}
		}
		return
	}
	if err == nil {
		t.Fatalf("accepts a damaged stream (%s)", what)
	}
}

func pbtMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
