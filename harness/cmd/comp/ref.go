package main

import (
	"fmt"
	"image"
	"image/color"

	"github.com/oov/psd/blend"
)

// The reference compositor: whole-canvas buffers, no tiles, no caches, no
// concurrency. It uses the drawers of the blend package, which have checks of
// their own (C15 to C20), so that results can be compared exactly.

var drawers = map[string]blend.Drawer{
	"norm": blend.Normal, "dark": blend.Darken, "mul ": blend.Multiply, "idiv": blend.ColorBurn, "lbrn": blend.LinearBurn,
	"dkCl": blend.DarkerColor, "lite": blend.Lighten, "scrn": blend.Screen, "div ": blend.ColorDodge, "lddg": blend.Add,
	"lgCl": blend.LighterColor, "over": blend.Overlay, "sLit": blend.SoftLight, "hLit": blend.HardLight, "vLit": blend.VividLight,
	"lLit": blend.LinearLight, "pLit": blend.PinLight, "hMix": blend.HardMix, "diff": blend.Difference, "smud": blend.Exclusion,
	"fsub": blend.Subtract, "fdiv": blend.Divide, "hue ": blend.Hue, "sat ": blend.Saturation, "colr": blend.Color, "lum ": blend.Luminosity,
}

func drawer(mode string) blend.Drawer {
	if d, ok := drawers[mode]; ok {
		return d
	}
	return blend.Normal // dissolve and unknown modes
}

type refr struct{ r image.Rectangle }

func (c refr) blank() *image.NRGBA { return image.NewNRGBA(c.r) }

func copyImg(a *image.NRGBA) *image.NRGBA {
	b := image.NewNRGBA(a.Rect)
	copy(b.Pix, a.Pix)
	return b
}

func (c refr) content(n *node) *image.NRGBA {
	b := c.blank()
	r := n.rect.Intersect(c.r)
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			s := n.pix[((y-n.rect.Min.Y)*n.rect.Dx()+x-n.rect.Min.X)*4:]
			if s[3] > 0 {
				copy(b.Pix[b.PixOffset(x, y):], s[:4])
			}
		}
	}
	return b
}

// maskAt is the mask value at a point.
func (n *node) maskAt(x, y int) uint8 {
	if (image.Point{X: x, Y: y}).In(n.maskRect) {
		return n.mask[(y-n.maskRect.Min.Y)*n.maskRect.Dx()+x-n.maskRect.Min.X]
	}
	return uint8(n.maskDef)
}

func (c refr) mask(n *node) *image.Alpha {
	a := image.NewAlpha(c.r)
	for y := c.r.Min.Y; y < c.r.Max.Y; y++ {
		for x := c.r.Min.X; x < c.r.Max.X; x++ {
			a.Pix[a.PixOffset(x, y)] = n.maskAt(x, y)
		}
	}
	return a
}

func (c refr) put(b, src *image.NRGBA, opacity int, mode string) {
	drawer(mode).DrawMask(b, c.r, src, c.r.Min, image.NewUniform(color.Alpha{A: uint8(opacity)}), image.Point{})
}

// draw composites the node onto b.
func (c refr) draw(b *image.NRGBA, n *node, opacity int, mode string, force bool) {
	if !n.visible || opacity == 0 || n.clipping && !force {
		return
	}
	if n.folder && len(n.children) == 0 {
		return
	}
	if mode == "pass" && (len(n.clips) > 0 || !n.folder) {
		mode = "norm" // the base of a clipping group is isolated
	}
	buf := c.blank()
	switch {
	case !n.folder:
		buf = c.content(n)
	case mode == "pass":
		buf = copyImg(b)
		for _, ch := range n.children {
			c.draw(buf, ch, ch.opacity*opacity/255, ch.mode, false)
		}
	default:
		for _, ch := range n.children {
			c.draw(buf, ch, ch.opacity, ch.mode, false)
		}
	}
	if n.maskOn {
		if mode == "pass" {
			mix(b, buf, c.mask(n))
			return
		}
		m := c.mask(n)
		for i := range m.Pix {
			buf.Pix[4*i+3] = uint8((int(buf.Pix[4*i+3])*int(m.Pix[i]) + 127) / 255)
		}
	}
	if mode == "pass" {
		copy(b.Pix, buf.Pix)
		return
	}
	if len(n.clips) > 0 && n.blendClip {
		cb := copyImg(buf)
		for i := 3; i < len(cb.Pix); i += 4 {
			cb.Pix[i] = 255
		}
		for _, cl := range n.clips {
			c.draw(cb, cl, cl.opacity, cl.mode, true)
		}
		blend.DestIn.Draw(cb, c.r, buf, c.r.Min)
		c.put(b, cb, opacity, mode)
		return
	}
	c.put(b, buf, opacity, mode)
	for _, cl := range n.clips {
		if !cl.visible || cl.opacity == 0 {
			continue
		}
		cb := c.blank()
		c.draw(cb, cl, 255, "norm", true)
		blend.DestIn.Draw(cb, c.r, buf, c.r.Min)
		c.put(b, cb, cl.opacity, cl.mode)
	}
}

// mix sets b to the mean of b and g weighted by the mask.
func mix(b, g *image.NRGBA, m *image.Alpha) {
	for i, j := 0, 0; i < len(b.Pix); i, j = i+4, j+1 {
		k := int(m.Pix[j])
		wb, wg := int(b.Pix[i+3])*(255-k), int(g.Pix[i+3])*k
		w := wb + wg
		if w == 0 {
			b.Pix[i], b.Pix[i+1], b.Pix[i+2], b.Pix[i+3] = 0, 0, 0, 0
			continue
		}
		for c := 0; c < 3; c++ {
			b.Pix[i+c] = uint8((int(b.Pix[i+c])*wb + int(g.Pix[i+c])*wg + w/2) / w)
		}
		b.Pix[i+3] = uint8((w + 127) / 255)
	}
}

// render gives the picture of the scene in the rectangle.
func (sc *scene) render(r image.Rectangle) *image.NRGBA {
	c := refr{r}
	b := c.blank()
	for _, n := range sc.root.children {
		c.draw(b, n, n.opacity, n.mode, false)
	}
	return b
}

// differ describes the first difference of two pictures inside r.
func differ(got, want *image.NRGBA, r image.Rectangle) string {
	cnt := 0
	first := ""
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			g, w := got.NRGBAAt(x, y), want.NRGBAAt(x, y)
			if g == w || g.A == 0 && w.A == 0 {
				continue
			}
			if cnt == 0 {
				first = fmt.Sprintf("at (%d,%d): %v, want %v", x, y, g, w)
			}
			cnt++
		}
	}
	if cnt == 0 {
		return ""
	}
	return fmt.Sprintf("%s (%d of %d pixels differ)", first, cnt, r.Dx()*r.Dy())
}
