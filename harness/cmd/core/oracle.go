package main

import (
	"bytes"
	"encoding/binary"
	"image"
	"image/color"
	"math"

	"github.com/oov/psd"
	psdcolor "github.com/oov/psd/color"

	"verif/pbt"
	"verif/psdgen"
)

func decodeDoc(t *pbt.T, b []byte, o *psd.DecodeOptions) (*psd.PSD, int) {
	p, n, err := psd.Decode(bytes.NewReader(b), o)
	if err != nil {
		t.Fatalf("well-formed file rejected: %v", err)
	}
	return p, n
}

func imgRect(r psdgen.Rect) image.Rectangle {
	return image.Rectangle{Min: image.Point{X: r.Left, Y: r.Top}, Max: image.Point{X: r.Right, Y: r.Bottom}}
}

func checkConfig(t *pbt.T, d *psdgen.Doc, c *psd.Config) {
	if c.Version != d.Version || c.PSB() != (d.Version == 2) {
		t.Fatalf("version %d PSB %v, written %d", c.Version, c.PSB(), d.Version)
	}
	if c.Rect != image.Rect(0, 0, d.W, d.H) {
		t.Fatalf("canvas %v, written %dx%d", c.Rect, d.W, d.H)
	}
	if c.Channels != d.Channels || c.Depth != d.Depth || int(c.ColorMode) != d.Mode {
		t.Fatalf("channels/depth/mode %d/%d/%d, written %d/%d/%d", c.Channels, c.Depth, c.ColorMode, d.Channels, d.Depth, d.Mode)
	}
	if !bytes.Equal(c.ColorModeData, d.ModeData) {
		t.Fatalf("colour mode data of %d bytes %x, written %d bytes %x", len(c.ColorModeData), c.ColorModeData, len(d.ModeData), d.ModeData)
	}
	want := map[int]psdgen.Res{}
	for _, r := range d.Res {
		want[r.ID] = r
	}
	if len(c.Res) != len(want) {
		t.Fatalf("%d resources, written %d", len(c.Res), len(want))
	}
	for id, w := range want {
		g, ok := c.Res[id]
		if !ok {
			t.Fatalf("resource %d is missing", id)
		}
		if g.Name != string(w.Name) || !bytes.Equal(g.Data, w.Data) {
			t.Fatalf("resource %d: name %q data %x, written %q %x", id, g.Name, g.Data, w.Name, w.Data)
		}
	}
}

// flatten lists the layers of a decoded tree by their position in the file.
func flatten(ls []psd.Layer, out map[int]*psd.Layer) {
	for i := range ls {
		out[ls[i].SeqID] = &ls[i]
		flatten(ls[i].Layer, out)
	}
}

// modeNames has the names of the compositing specification for the keys of the file format.
var modeNames = map[string]string{"pass": "pass-through", "norm": "normal", "diss": "dissolve", "dark": "darken", "mul ": "multiply",
	"idiv": "color-burn", "lbrn": "linear-burn", "dkCl": "darker-color", "lite": "lighten", "scrn": "screen", "div ": "color-dodge",
	"lddg": "linear-dodge", "lgCl": "lighter-color", "over": "overlay", "sLit": "soft-light", "hLit": "hard-light", "vLit": "vivid-light",
	"lLit": "linear-light", "pLit": "pin-light", "hMix": "hard-mix", "diff": "difference", "smud": "exclusion", "fsub": "subtract",
	"fdiv": "divide", "hue ": "hue", "sat ": "saturation", "colr": "color", "lum ": "luminosity"}

func modeName(key string) string {
	if s, ok := modeNames[key]; ok {
		return s
	}
	return "unknown-blend-name-" + key
}

// checkMeta compares one decoded layer with the record it was written from.
func checkMeta(t *pbt.T, i int, l *psd.Layer, w *psdgen.Layer) {
	if l.SeqID != i {
		t.Fatalf("layer %d: sequence ID %d", i, l.SeqID)
	}
	if l.Rect != imgRect(w.Rect) {
		t.Fatalf("layer %d: rectangle %v, written %v", i, l.Rect, imgRect(w.Rect))
	}
	if string(l.BlendMode) != w.Blend {
		t.Fatalf("layer %d: blend mode %q, written %q", i, string(l.BlendMode), w.Blend)
	}
	if s := l.BlendMode.String(); s != modeName(w.Blend) {
		t.Fatalf("layer %d: blend mode %q is called %q", i, w.Blend, s)
	}
	if l.String() != l.Name {
		t.Fatalf("layer %d: called %q, its name is %q", i, l.String(), l.Name)
	}
	if l.Opacity != w.Opacity {
		t.Fatalf("layer %d: opacity %d, written %d", i, l.Opacity, w.Opacity)
	}
	if l.Clipping != (w.Clipping != 0) {
		t.Fatalf("layer %d: clipping %v, written %d", i, l.Clipping, w.Clipping)
	}
	if l.Flags != w.Flags {
		t.Fatalf("layer %d: flags %#x, written %#x", i, l.Flags, w.Flags)
	}
	if l.Visible() != (w.Flags&2 == 0) || l.TransparencyProtected() != (w.Flags&1 != 0) {
		t.Fatalf("layer %d: visible %v protected %v with flags %#x", i, l.Visible(), l.TransparencyProtected(), w.Flags)
	}
	if l.MBCSName != string(w.Name) {
		t.Fatalf("layer %d: name %q, written %q", i, l.MBCSName, w.Name)
	}
	if w.HasUni {
		if l.UnicodeName != w.Uni || (w.Uni != "" && l.Name != w.Uni) {
			t.Fatalf("layer %d: Unicode name %q / name %q, written %q", i, l.UnicodeName, l.Name, w.Uni)
		}
	} else if l.UnicodeName != "" || l.Name != string(w.Name) {
		t.Fatalf("layer %d: Unicode name %q / name %q, written only the name %q", i, l.UnicodeName, l.Name, w.Name)
	}
	if want := !w.HasClbl || w.Clbl; l.BlendClippedElements != want {
		t.Fatalf("layer %d: blend clipped elements %v, want %v", i, l.BlendClippedElements, want)
	}
	s := l.SectionDividerSetting
	if s.Type != w.DivType {
		t.Fatalf("layer %d: section divider type %d, written %d", i, s.Type, w.DivType)
	}
	wb := w.Blend
	if w.HasDivBlend {
		wb = w.DivBlend
	}
	if string(s.BlendMode) != wb || s.SubType != w.DivSub {
		t.Fatalf("layer %d: section divider %q sub %d, written %q sub %d", i, string(s.BlendMode), s.SubType, wb, w.DivSub)
	}
	if l.Folder() != (w.DivType == 1 || w.DivType == 2) || l.HasImage() != (w.DivType == 0) || l.FolderIsOpen() != (w.DivType == 1) {
		t.Fatalf("layer %d: folder %v image %v open %v with divider type %d", i, l.Folder(), l.HasImage(), l.FolderIsOpen(), w.DivType)
	}
	// additional information: everything that is not interpreted above
	interp := map[string]bool{"luni": true, "clbl": true, "lsct": true, "lsdk": true}
	want := map[string][]byte{}
	for _, in := range w.Infos {
		if !interp[in.Key] {
			want[in.Key] = in.Data
		}
	}
	n := 0
	for k, g := range l.AdditionalLayerInfo {
		if interp[string(k)] {
			continue
		}
		n++
		wd, ok := want[string(k)]
		if !ok {
			t.Fatalf("layer %d: additional information %q was not written", i, string(k))
		}
		if !bytes.Equal(g, wd) {
			t.Fatalf("layer %d: additional information %q is %x, written %x", i, string(k), g, wd)
		}
	}
	if n != len(want) {
		t.Fatalf("layer %d: %d additional information blocks, written %d", i, n, len(want))
	}
	// mask
	m, wm := &l.Mask, w.Mask
	if wm == nil || wm.Short > 0 {
		if !m.Rect.Empty() || m.Flags != 0 || m.DefaultColor != 0 || !m.RealRect.Empty() {
			t.Fatalf("layer %d: mask %+v, none written", i, *m)
		}
		return
	}
	if m.Rect != imgRect(wm.Rect) {
		t.Fatalf("layer %d: mask rectangle %v, written %v", i, m.Rect, imgRect(wm.Rect))
	}
	if m.DefaultColor != int(wm.Default) || m.Flags != int(wm.Flags) || m.Enabled() != (wm.Flags&2 == 0) {
		t.Fatalf("layer %d: mask default %d flags %#x enabled %v, written %d %#x", i, m.DefaultColor, m.Flags, m.Enabled(), wm.Default, wm.Flags)
	}
	ud, vd, uf, vf := 255, 255, 0.0, 0.0
	if wm.Params {
		if wm.ParamBits&1 != 0 {
			ud = int(wm.UserDens)
		}
		if wm.ParamBits&2 != 0 {
			uf = wm.UserFeath
		}
		if wm.ParamBits&4 != 0 {
			vd = int(wm.VecDens)
		}
		if wm.ParamBits&8 != 0 {
			vf = wm.VecFeath
		}
	}
	if wm.NoDens {
		ud, vd = m.UserMaskDensity, m.VectorMaskDensity
	}
	if m.UserMaskDensity != ud || m.VectorMaskDensity != vd || m.UserMaskFeather != uf || m.VectorMaskFeather != vf {
		t.Fatalf("layer %d: mask parameters %d %v %d %v, written %d %v %d %v", i, m.UserMaskDensity, m.UserMaskFeather, m.VectorMaskDensity, m.VectorMaskFeather, ud, uf, vd, vf)
	}
	if !wm.Real && (m.RealFlags != 0 || m.RealBackgroundColor != 0 || !m.RealRect.Empty()) {
		t.Fatalf("layer %d: real mask flags %#x background %d rectangle %v, none written", i, m.RealFlags, m.RealBackgroundColor, m.RealRect)
	}
	if wm.Real {
		if m.RealFlags != int(wm.RealFlags) || m.RealBackgroundColor != int(wm.RealBg) || m.RealEnabled() != (wm.RealFlags&2 == 0) {
			t.Fatalf("layer %d: real mask flags %#x background %d, written %#x %d", i, m.RealFlags, m.RealBackgroundColor, wm.RealFlags, wm.RealBg)
		}
		if m.RealRect != imgRect(wm.RealRect) {
			t.Fatalf("layer %d: real mask rectangle %v, written %v", i, m.RealRect, imgRect(wm.RealRect))
		}
	}
}

// node is the expected layer tree.
type node struct {
	seq  int
	kids []node
}

// expectTree builds the tree the format prescribes; ok is false when the
// dividers do not pair up.
func expectTree(ls []psdgen.Layer) (n []node, ok bool) {
	var stack [][]node
	for i := range ls {
		switch ls[i].DivType {
		case 3:
			stack = append(stack, n)
			n = nil
		case 1, 2:
			if len(stack) == 0 {
				return nil, false
			}
			f := node{i, n}
			n = append(stack[len(stack)-1], f)
			stack = stack[:len(stack)-1]
		default:
			n = append(n, node{i, nil})
		}
	}
	return n, len(stack) == 0
}

func checkTree(t *pbt.T, path string, got []psd.Layer, want []node) {
	if len(got) != len(want) {
		t.Fatalf("%s: %d layers, want %d", path, len(got), len(want))
	}
	for i := range got {
		if got[i].SeqID != want[i].seq {
			t.Fatalf("%s[%d]: record %d, want record %d", path, i, got[i].SeqID, want[i].seq)
		}
		checkTree(t, path+"/"+string(rune('0'+i%10)), got[i].Layer, want[i].kids)
	}
}

// sample reads sample i of a plane as the raw value.
func sample8(p []byte, i int) uint8    { return p[i] }
func sample16(p []byte, i int) uint16  { return binary.BigEndian.Uint16(p[2*i:]) }
func sample32(p []byte, i int) float32 { return math.Float32frombits(binary.BigEndian.Uint32(p[4*i:])) }

func sameColor(a, b color.Color, tol uint32) bool {
	if f, ok := b.(psdcolor.NRGBA128); ok {
		if g, ok := a.(psdcolor.NRGBA128); ok {
			return sf(f.R, g.R) && sf(f.G, g.G) && sf(f.B, g.B) && sf(f.A, g.A)
		}
	}
	if f, ok := b.(psdcolor.NGrayA64); ok {
		if g, ok := a.(psdcolor.NGrayA64); ok {
			return sf(f.Y, g.Y) && sf(f.A, g.A)
		}
	}
	if f, ok := b.(psdcolor.Gray32); ok {
		if g, ok := a.(psdcolor.Gray32); ok {
			return sf(f.Y, g.Y)
		}
	}
	ar, ag, ab, aa := a.RGBA()
	br, bg, bb, ba := b.RGBA()
	return near(ar, br, tol) && near(ag, bg, tol) && near(ab, bb, tol) && near(aa, ba, tol)
}

func sf(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }

func near(a, b, tol uint32) bool {
	if a > b {
		a, b = b, a
	}
	return b-a <= tol
}

// grayAt is what a single-channel picture shows at sample i (x used for 1 bit).
func grayAt(depth int, plane []byte, dx, x, y int) color.Color {
	i := y*dx + x
	switch depth {
	case 1:
		bit := plane[y*((dx+7)/8)+x/8] >> uint(7-x%8) & 1
		return psdcolor.Gray1{Y: bit == 0}
	case 8:
		return color.Gray{Y: sample8(plane, i)}
	case 16:
		return color.Gray16{Y: sample16(plane, i)}
	}
	return psdcolor.Gray32{Y: sample32(plane, i)}
}

// pixelAt is the colour the channels give at sample i. alpha may be nil.
func pixelAt(mode, depth int, chs [][]byte, alpha []byte, i int) color.Color {
	switch depth {
	case 8:
		a := uint8(255)
		if alpha != nil {
			a = alpha[i]
		}
		switch mode {
		case psdgen.Gray:
			return psdcolor.NGrayA{Y: chs[0][i], A: a}
		case psdgen.RGB:
			return color.NRGBA{R: chs[0][i], G: chs[1][i], B: chs[2][i], A: a}
		case psdgen.CMYK:
			return psdcolor.NCMYKA{C: chs[0][i], M: chs[1][i], Y: chs[2][i], K: chs[3][i], A: a}
		}
	case 16:
		a := uint16(0xffff)
		if alpha != nil {
			a = sample16(alpha, i)
		}
		s := func(c int) uint16 { return sample16(chs[c], i) }
		switch mode {
		case psdgen.Gray:
			return psdcolor.NGrayA32{Y: s(0), A: a}
		case psdgen.RGB:
			return color.NRGBA64{R: s(0), G: s(1), B: s(2), A: a}
		case psdgen.CMYK:
			return psdcolor.NCMYKA80{C: s(0), M: s(1), Y: s(2), K: s(3), A: a}
		}
	case 32:
		a := float32(1)
		if alpha != nil {
			a = sample32(alpha, i)
		}
		s := func(c int) float32 { return sample32(chs[c], i) }
		switch mode {
		case psdgen.Gray:
			return psdcolor.NGrayA64{Y: s(0), A: a}
		case psdgen.RGB:
			return psdcolor.NRGBA128{R: s(0), G: s(1), B: s(2), A: a}
		}
	}
	return nil
}

// checkModel verifies the advertised colour model: it is the model of the
// colours the picture is made of, that is, the exported model of that colour
// type, or at least one that leaves those colours as they are.
func checkModel(t *pbt.T, what string, img image.Image, c color.Color) {
	m := img.ColorModel()
	if m == nil {
		t.Fatalf("%s: no colour model", what)
	}
	var want color.Model
	switch c.(type) {
	case psdcolor.NGrayA:
		want = psdcolor.NGrayAModel
	case psdcolor.NGrayA32:
		want = psdcolor.NGrayA32Model
	case psdcolor.NGrayA64:
		want = psdcolor.NGrayA64Model
	case color.NRGBA:
		want = color.NRGBAModel
	case color.NRGBA64:
		want = color.NRGBA64Model
	case psdcolor.NRGBA128:
		want = psdcolor.NRGBA128Model
	case psdcolor.NCMYKA:
		want = psdcolor.NCMYKAModel
	case psdcolor.NCMYKA80:
		want = psdcolor.NCMYKA80Model
	case psdcolor.Gray1:
		want = psdcolor.Gray1Model
	}
	if _, isPal := m.(color.Palette); !isPal && want != nil && m == want {
		return
	}
	if g := m.Convert(c); !sameColor(g, c, 0) {
		t.Fatalf("%s: the colour model turns %T%v into %T%v", what, c, c, g, g)
	}
}

func checkChannelPicker(t *pbt.T, what string, depth int, c psd.Channel, plane []byte, r image.Rectangle) {
	if !bytes.Equal(c.Data, plane) {
		k := 0
		for k < len(plane) && k < len(c.Data) && c.Data[k] == plane[k] {
			k++
		}
		t.Fatalf("%s: data differs from the written plane at byte %d (lengths %d and %d)", what, k, len(c.Data), len(plane))
	}
	if c.Picker == nil {
		t.Fatalf("%s: no picker", what)
	}
	if c.Picker.Bounds() != r && !(r.Empty() && c.Picker.Bounds().Empty()) {
		t.Fatalf("%s: picker bounds %v, want %v", what, c.Picker.Bounds(), r)
	}
	for y := 0; y < r.Dy(); y++ {
		for x := 0; x < r.Dx(); x++ {
			g := c.Picker.At(r.Min.X+x, r.Min.Y+y)
			w := grayAt(depth, plane, r.Dx(), x, y)
			if !sameColor(g, w, 0) {
				t.Fatalf("%s: pixel (%d,%d) is %T%v, want %T%v", what, x, y, g, g, w, w)
			}
		}
	}
}

// checkLayerPixels compares channel data and colours of one layer.
func checkLayerPixels(t *pbt.T, d *psdgen.Doc, i int, l *psd.Layer, w *psdgen.Layer) {
	if len(l.Channel) != len(w.Channels) {
		t.Fatalf("layer %d: %d channels, written %d", i, len(l.Channel), len(w.Channels))
	}
	for _, wc := range w.Channels {
		c, ok := l.Channel[wc.ID]
		if !ok {
			t.Fatalf("layer %d: channel %d is missing", i, wc.ID)
		}
		checkChannelPicker(t, "layer "+itoa(i)+" channel "+itoa(wc.ID), d.Depth, c, wc.Plane, imgRect(wc.Rect))
	}
	if l.Picker == nil {
		t.Fatalf("layer %d: no picker", i)
	}
	r := imgRect(w.Rect)
	if l.Picker.Bounds() != r {
		t.Fatalf("layer %d: picker bounds %v, want %v", i, l.Picker.Bounds(), r)
	}
	var chs [][]byte
	for c := 0; c < psdgen.ModeChannels(d.Mode); c++ {
		if wc := w.Channel(c); wc != nil {
			chs = append(chs, wc.Plane)
		} else {
			chs = append(chs, make([]byte, psdgen.RowBytes(r.Dx(), d.Depth)*r.Dy()))
		}
	}
	var alpha []byte
	if a := w.Channel(-1); a != nil {
		alpha = a.Plane
	}
	for y := 0; y < r.Dy(); y++ {
		for x := 0; x < r.Dx(); x++ {
			g := l.Picker.At(r.Min.X+x, r.Min.Y+y)
			wc := pixelAt(d.Mode, d.Depth, chs, alpha, y*r.Dx()+x)
			if !sameColor(g, wc, 0) {
				t.Fatalf("layer %d: pixel (%d,%d) is %T%v, want %T%v", i, x, y, g, g, wc, wc)
			}
			if x == 0 && y < 2 {
				checkModel(t, "layer "+itoa(i), l.Picker, g)
			}
		}
	}
}

// mergedAlpha tells which channel is the transparency of the merged image.
func mergedAlpha(d *psdgen.Doc) bool {
	if d.Channels <= psdgen.ModeChannels(d.Mode) {
		return false
	}
	res, found := []byte(nil), false
	for _, r := range d.Res {
		if r.ID == 0x041D {
			res, found = r.Data, true
		}
	}
	if !found {
		return true
	}
	for i := 0; i+4 <= len(res); i += 4 {
		if binary.BigEndian.Uint32(res[i:]) == 0 {
			return true
		}
	}
	return false
}

func palette(d *psdgen.Doc) []color.NRGBA {
	tr := -1
	for _, r := range d.Res {
		if r.ID == 0x0417 && len(r.Data) >= 2 {
			tr = int(binary.BigEndian.Uint16(r.Data))
		}
	}
	var p []color.NRGBA
	for i := 0; i < 256; i++ {
		c := color.NRGBA{R: d.ModeData[i], G: d.ModeData[256+i], B: d.ModeData[512+i], A: 255}
		if i == tr {
			c.A = 0
		}
		p = append(p, c)
	}
	return p
}

func checkMergedImage(t *pbt.T, d *psdgen.Doc, img image.Image) {
	r := image.Rect(0, 0, d.W, d.H)
	if img == nil {
		t.Fatalf("merged image: no picker")
	}
	if img.Bounds() != r {
		t.Fatalf("merged image bounds %v, want %v", img.Bounds(), r)
	}
	var alpha []byte
	if mergedAlpha(d) {
		alpha = d.Planes[psdgen.ModeChannels(d.Mode)]
		t.Label("merged with alpha")
	}
	var pal []color.NRGBA
	if d.Mode == psdgen.Indexed {
		pal = palette(d)
	}
	for y := 0; y < d.H; y++ {
		for x := 0; x < d.W; x++ {
			var w color.Color
			switch d.Mode {
			case psdgen.Indexed:
				w = pal[d.Planes[0][y*d.W+x]]
			case psdgen.Bitmap:
				w = grayAt(1, d.Planes[0], d.W, x, y)
			default:
				w = pixelAt(d.Mode, d.Depth, d.Planes, alpha, y*d.W+x)
			}
			g := img.At(x, y)
			if !sameColor(g, w, 0) {
				t.Fatalf("merged image: pixel (%d,%d) is %T%v, want %T%v", x, y, g, g, w, w)
			}
			if x == 0 && y < 2 {
				checkModel(t, "merged image", img, g)
			}
		}
	}
}

func checkMerged(t *pbt.T, d *psdgen.Doc, p *psd.PSD) {
	var all []byte
	for _, pl := range d.Planes {
		all = append(all, pl...)
	}
	if !bytes.Equal(p.Data, all) {
		k := 0
		for k < len(all) && k < len(p.Data) && p.Data[k] == all[k] {
			k++
		}
		t.Fatalf("merged data differs at byte %d (lengths %d and %d)", k, len(p.Data), len(all))
	}
	if len(p.Channel) != d.Channels {
		t.Fatalf("%d merged channels, written %d", len(p.Channel), d.Channels)
	}
	for i := 0; i < d.Channels; i++ {
		checkChannelPicker(t, "merged channel "+itoa(i), d.Depth, p.Channel[i], d.Planes[i], image.Rect(0, 0, d.W, d.H))
	}
	checkMergedImage(t, d, p.Picker)
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}
