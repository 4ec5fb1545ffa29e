// Command blendp holds the checks of the blend package: C15 to C20.
package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"

	"github.com/oov/psd/blend"

	"verif/pbt"
)

func main() { pbt.Main() }

type namedDrawer struct {
	name string
	d    blend.Drawer
}

var modes = []namedDrawer{
	{"Normal", blend.Normal}, {"Darken", blend.Darken}, {"Multiply", blend.Multiply}, {"ColorBurn", blend.ColorBurn},
	{"LinearBurn", blend.LinearBurn}, {"DarkerColor", blend.DarkerColor}, {"Lighten", blend.Lighten}, {"Screen", blend.Screen},
	{"ColorDodge", blend.ColorDodge}, {"LinearDodge", blend.LinearDodge}, {"LighterColor", blend.LighterColor}, {"Add", blend.Add},
	{"Overlay", blend.Overlay}, {"SoftLight", blend.SoftLight}, {"HardLight", blend.HardLight}, {"LinearLight", blend.LinearLight},
	{"VividLight", blend.VividLight}, {"PinLight", blend.PinLight}, {"HardMix", blend.HardMix}, {"Difference", blend.Difference},
	{"Exclusion", blend.Exclusion}, {"Subtract", blend.Subtract}, {"Divide", blend.Divide}, {"Hue", blend.Hue},
	{"Saturation", blend.Saturation}, {"Color", blend.Color}, {"Luminosity", blend.Luminosity},
}

type pdOp struct {
	name string
	d    draw.Drawer
}

var ops = []pdOp{
	{"Clear", blend.Clear}, {"Copy", blend.Copy}, {"Dest", blend.Dest}, {"SrcOver", blend.SrcOver}, {"DestOver", blend.DestOver},
	{"SrcIn", blend.SrcIn}, {"DestIn", blend.DestIn}, {"SrcOut", blend.SrcOut}, {"DestOut", blend.DestOut},
	{"SrcAtop", blend.SrcAtop}, {"DestAtop", blend.DestAtop}, {"XOR", blend.XOR},
}

// Images of types that no optimised path knows.
type wrapRGBA struct{ *image.RGBA }
type wrapNRGBA struct{ *image.NRGBA }

// kinds of images
const (
	kRGBA = iota
	kNRGBA
	kWRGBA
	kWNRGBA
	kRGBA64
	kNRGBA64
	nDstKinds
	kAlpha = iota - 1
	kUniform
	kGray
	kGray16
	kCMYK
	kPaletted
	kAlpha16
)

var kindNames = map[int]string{kRGBA: "RGBA", kNRGBA: "NRGBA", kWRGBA: "generic RGBA", kWNRGBA: "generic NRGBA", kRGBA64: "RGBA64", kNRGBA64: "NRGBA64",
	kAlpha: "Alpha", kUniform: "Uniform", kGray: "Gray", kGray16: "Gray16", kCMYK: "CMYK", kPaletted: "Paletted", kAlpha16: "Alpha16"}

// sample draws an 8-bit sample.
func sample(t *pbt.T) uint8 {
	if t.Bool(35) {
		return pbt.Pick[uint8](t, 0, 255, 1, 254, 127, 128, 64, 63, 126, 129)
	}
	return uint8(t.N(256))
}

func alpha8(t *pbt.T) uint8 {
	switch t.Weighted(3, 2, 5, 1) {
	case 0:
		return 255
	case 1:
		return 0
	case 2:
		return uint8(t.N(256))
	default:
		return pbt.Pick[uint8](t, 1, 2, 254, 127, 128)
	}
}

// straight draws a straight color; near repeats a color that ties matter with.
func straight(t *pbt.T, near *color.NRGBA) color.NRGBA {
	c := color.NRGBA{sample(t), sample(t), sample(t), alpha8(t)}
	switch t.Weighted(6, 1, 1, 1) {
	case 1: // gray
		c.G, c.B = c.R, c.R
	case 2:
		if near != nil {
			c.R, c.G, c.B = near.R, near.G, near.B
		}
	case 3:
		if near != nil {
			c.R, c.G, c.B = 255-near.R, 255-near.G, 255-near.B
		}
	}
	return c
}

func premul8(c color.NRGBA) color.RGBA {
	f := func(v uint8) uint8 { return uint8((int(v)*int(c.A) + 127) / 255) }
	return color.RGBA{f(c.R), f(c.G), f(c.B), c.A}
}

// newImg makes an image of a kind. The returned set function stores a color
// drawn by the generator as exactly as the kind can.
func newImg(t *pbt.T, kind int, r image.Rectangle) image.Image {
	switch kind {
	case kRGBA:
		return image.NewRGBA(r)
	case kNRGBA:
		return image.NewNRGBA(r)
	case kWRGBA:
		return wrapRGBA{image.NewRGBA(r)}
	case kWNRGBA:
		return wrapNRGBA{image.NewNRGBA(r)}
	case kRGBA64:
		return image.NewRGBA64(r)
	case kNRGBA64:
		return image.NewNRGBA64(r)
	case kAlpha:
		return image.NewAlpha(r)
	case kAlpha16:
		return image.NewAlpha16(r)
	case kGray:
		return image.NewGray(r)
	case kGray16:
		return image.NewGray16(r)
	case kCMYK:
		return image.NewCMYK(r)
	case kPaletted:
		var p color.Palette
		for i := 0; i < 16; i++ {
			p = append(p, straight(t, nil))
		}
		return image.NewPaletted(r, p)
	}
	panic(kind)
}

// put stores a generated color at (x, y).
func put(t *pbt.T, m image.Image, x, y int, c color.NRGBA) {
	lowbits := func() uint16 { return uint16(t.N(256)) }
	switch m := m.(type) {
	case *image.RGBA:
		m.SetRGBA(x, y, premul8(c))
	case wrapRGBA:
		m.SetRGBA(x, y, premul8(c))
	case *image.NRGBA:
		m.SetNRGBA(x, y, c)
	case wrapNRGBA:
		m.SetNRGBA(x, y, c)
	case *image.NRGBA64:
		w := func(v uint8) uint16 {
			if v == 0 || v == 255 {
				return uint16(v) * 0x101
			}
			return uint16(v)<<8 | lowbits()
		}
		m.SetNRGBA64(x, y, color.NRGBA64{w(c.R), w(c.G), w(c.B), w(c.A)})
	case *image.RGBA64:
		w := func(v uint8) uint32 {
			if v == 0 || v == 255 {
				return uint32(v) * 0x101
			}
			return uint32(v)<<8 | uint32(lowbits())
		}
		a := w(c.A)
		m.SetRGBA64(x, y, color.RGBA64{uint16(w(c.R) * a / 65535), uint16(w(c.G) * a / 65535), uint16(w(c.B) * a / 65535), uint16(a)})
	case *image.Alpha:
		m.SetAlpha(x, y, color.Alpha{c.A})
	case *image.Alpha16:
		v := uint16(c.A) * 0x101
		if c.A != 0 && c.A != 255 {
			v = uint16(c.A)<<8 | lowbits()
		}
		m.SetAlpha16(x, y, color.Alpha16{v})
	case *image.Gray:
		m.SetGray(x, y, color.Gray{c.R})
	case *image.Gray16:
		m.SetGray16(x, y, color.Gray16{uint16(c.R)<<8 | lowbits()})
	case *image.CMYK:
		m.SetCMYK(x, y, color.CMYK{c.R, c.G, c.B, c.A})
	case *image.Paletted:
		m.SetColorIndex(x, y, c.R%16)
	default:
		panic(fmt.Sprintf("put %T", m))
	}
}

// fill draws the content of an image.
func fill(t *pbt.T, m image.Image, other image.Image) {
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			var near *color.NRGBA
			if n, ok := other.(*image.NRGBA); ok {
				c := n.NRGBAAt(x, y)
				near = &c
			}
			put(t, m, x, y, straight(t, near))
		}
	}
}

// uniform draws a uniform image.
func uniform(t *pbt.T) *image.Uniform {
	c := straight(t, nil)
	switch t.N(4) {
	case 0:
		return image.NewUniform(c)
	case 1:
		return image.NewUniform(premul8(c))
	case 2:
		return image.NewUniform(color.NRGBA64{uint16(c.R)<<8 | uint16(t.N(256)), uint16(c.G) * 0x101, uint16(c.B)<<8 | uint16(t.N(256)), uint16(c.A) * 0x101})
	default:
		return image.NewUniform(color.Gray{c.R})
	}
}

func maskUniform(t *pbt.T) *image.Uniform {
	a := alpha8(t)
	switch t.N(4) {
	case 0:
		return image.NewUniform(color.Alpha{a})
	case 1:
		v := uint16(a) * 0x101
		if a != 0 && a != 255 {
			v = uint16(a)<<8 | uint16(t.N(256))
		}
		return image.NewUniform(color.Alpha16{v})
	case 2:
		return image.NewUniform(color.NRGBA{sample(t), sample(t), sample(t), a})
	default:
		return image.NewUniform(color.NRGBA64{0, 0, 0, uint16(a) * 0x101})
	}
}

// exact gives the straight color (0..1) and alpha that m holds at a point.
func exact(m image.Image, x, y int) (vec, float64) {
	switch m := m.(type) {
	case *image.NRGBA:
		c := m.NRGBAAt(x, y)
		return vec{float64(c.R) / 255, float64(c.G) / 255, float64(c.B) / 255}, float64(c.A) / 255
	case wrapNRGBA:
		return exact(m.NRGBA, x, y)
	case *image.NRGBA64:
		c := m.NRGBA64At(x, y)
		return vec{float64(c.R) / 65535, float64(c.G) / 65535, float64(c.B) / 65535}, float64(c.A) / 65535
	}
	var c color.Color
	if u, ok := m.(*image.Uniform); ok {
		c = u.C
	} else {
		c = m.At(x, y)
	}
	r, g, b, a := c.RGBA()
	if a == 0 {
		return vec{}, 0
	}
	f := float64(a)
	return vec{float64(r) / f, float64(g) / f, float64(b) / f}, f / 65535
}

func maskAlpha(m image.Image, x, y int) float64 {
	if m == nil {
		return 1
	}
	_, _, _, a := m.At(x, y).RGBA()
	return float64(a) / 65535
}

// clone copies an image, with the same concrete type.
func clone(m image.Image) image.Image {
	switch m := m.(type) {
	case *image.RGBA:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.NRGBA:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case wrapRGBA:
		return wrapRGBA{clone(m.RGBA).(*image.RGBA)}
	case wrapNRGBA:
		return wrapNRGBA{clone(m.NRGBA).(*image.NRGBA)}
	case *image.RGBA64:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.NRGBA64:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.Alpha:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.Alpha16:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.Gray:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.Gray16:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.CMYK:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.Paletted:
		n := *m
		n.Pix = append([]byte(nil), m.Pix...)
		return &n
	case *image.Uniform:
		n := *m
		return &n
	}
	panic(fmt.Sprintf("clone %T", m))
}

// pix gives the memory of an image.
func pix(m image.Image) []byte {
	switch m := m.(type) {
	case *image.RGBA:
		return m.Pix
	case *image.NRGBA:
		return m.Pix
	case wrapRGBA:
		return m.Pix
	case wrapNRGBA:
		return m.Pix
	case *image.RGBA64:
		return m.Pix
	case *image.NRGBA64:
		return m.Pix
	case *image.Alpha:
		return m.Pix
	case *image.Alpha16:
		return m.Pix
	case *image.Gray:
		return m.Pix
	case *image.Gray16:
		return m.Pix
	case *image.CMYK:
		return m.Pix
	case *image.Paletted:
		return m.Pix
	}
	return nil
}

// sub gives the part r of m, sharing memory, with the same concrete type.
func sub(m image.Image, r image.Rectangle) image.Image {
	switch m := m.(type) {
	case wrapRGBA:
		return wrapRGBA{m.SubImage(r).(*image.RGBA)}
	case wrapNRGBA:
		return wrapNRGBA{m.SubImage(r).(*image.NRGBA)}
	}
	return m.(interface {
		SubImage(image.Rectangle) image.Image
	}).SubImage(r)
}

func randSrcKind(t *pbt.T) int {
	return pbt.Pick(t, kNRGBA, kRGBA, kNRGBA, kRGBA, kWRGBA, kWNRGBA, kRGBA64, kNRGBA64, kUniform, kUniform, kAlpha, kGray, kGray16, kCMYK, kPaletted)
}

func randDstKind(t *pbt.T) int {
	return pbt.Pick(t, kNRGBA, kRGBA, kNRGBA, kRGBA, kWRGBA, kWNRGBA, kRGBA64, kNRGBA64)
}

// anyDstKind gives a type an image to draw on can have, now and then one that
// the package has no code for.
func anyDstKind(t *pbt.T) int {
	if t.Bool(8) {
		return pbt.Pick(t, kGray, kGray16, kAlpha, kAlpha16, kCMYK, kPaletted)
	}
	return randDstKind(t)
}

func randSrc(t *pbt.T, kind int, r image.Rectangle, other image.Image) image.Image {
	if kind == kUniform {
		return uniform(t)
	}
	m := newImg(t, kind, r)
	fill(t, m, other)
	return m
}

func randMask(t *pbt.T, r image.Rectangle) (image.Image, string) {
	switch t.Weighted(4, 3, 2, 1, 1, 1) {
	case 0:
		return nil, "nil"
	case 1:
		return maskUniform(t), "Uniform"
	case 2:
		return randSrc(t, kAlpha, r, nil), "Alpha"
	case 3:
		return randSrc(t, kAlpha16, r, nil), "Alpha16"
	case 4:
		return randSrc(t, kNRGBA, r, nil), "NRGBA"
	default:
		return randSrc(t, kRGBA, r, nil), "RGBA"
	}
}

// generic tells whether a draw goes through no optimised path.
func fastPath(dst, src, mask image.Image, pd bool) bool {
	switch dst.(type) {
	case *image.RGBA, *image.NRGBA:
	default:
		return false
	}
	if mask != nil {
		if _, ok := mask.(*image.Uniform); !ok {
			return false
		}
	}
	switch src.(type) {
	case *image.RGBA, *image.NRGBA:
		return true
	case *image.Alpha, *image.Uniform:
		return pd
	}
	return false
}
