package main

import (
	"bytes"
	"context"
	"image"
	"math"

	"github.com/oov/psd/composite"
	"golang.org/x/image/draw"
	"golang.org/x/image/math/f64"

	"verif/pbt"
)

// boxOf gives the least rectangle of whole pixels around the transformed one.
func boxOf(r image.Rectangle, m f64.Aff3) image.Rectangle {
	x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for i := 0; i < 4; i++ {
		x, y := float64(r.Min.X), float64(r.Min.Y)
		if i&1 != 0 {
			x = float64(r.Max.X)
		}
		if i&2 != 0 {
			y = float64(r.Max.Y)
		}
		u, v := m[0]*x+m[1]*y+m[2], m[3]*x+m[4]*y+m[5]
		x0, y0, x1, y1 = math.Min(x0, u), math.Min(y0, v), math.Max(x1, u), math.Max(y1, v)
	}
	return image.Rect(int(math.Floor(x0)), int(math.Floor(y0)), int(math.Ceil(x1)), int(math.Ceil(y1)))
}

// grow gives the tiles of the rectangle that are used.
func usedTiles(r image.Rectangle, tile int, used func(x, y int) bool) (out image.Rectangle) {
	fl := func(v int) int { return int(math.Floor(float64(v)/float64(tile))) * tile }
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if used(x, y) {
				tx, ty := fl(x), fl(y)
				out = out.Union(image.Rect(tx, ty, tx+tile, ty+tile))
			}
		}
	}
	return out
}

// resampled gives the model of the scene after the transformation of each
// layer and mask. tile is 0 if the layers are transformed while they are read,
// otherwise the size of the tiles they are kept in, whose transparent pixels
// take part.
func (sc *scene) resampled(m f64.Aff3, gamma float64, tile int) *scene {
	out := sc.clone()
	for _, n := range out.all {
		if !n.folder && !n.rect.Empty() {
			at := func(x, y int) []byte {
				if !(image.Point{X: x, Y: y}).In(n.rect) {
					return []byte{0, 0, 0, 0}
				}
				return n.pix[((y-n.rect.Min.Y)*n.rect.Dx()+x-n.rect.Min.X)*4:]
			}
			r := n.rect
			if tile != 0 {
				r = usedTiles(r, tile, func(x, y int) bool { return at(x, y)[3] != 0 })
			}
			box := boxOf(r, m)
			pix := make([]byte, box.Dx()*box.Dy()*4)
			if gamma == 0 {
				src, dst := image.NewNRGBA(r), &image.NRGBA{Pix: pix, Stride: 4 * box.Dx(), Rect: box}
				for y := r.Min.Y; y < r.Max.Y; y++ {
					for x := r.Min.X; x < r.Max.X; x++ {
						if p := at(x, y); p[3] != 0 {
							copy(src.Pix[src.PixOffset(x, y):], p[:4])
						}
					}
				}
				draw.BiLinear.Transform(dst, m, src, r, draw.Src, nil)
			} else {
				src, dst := image.NewNRGBA64(r), image.NewNRGBA64(box)
				for y := r.Min.Y; y < r.Max.Y; y++ {
					for x := r.Min.X; x < r.Max.X; x++ {
						p := at(x, y)
						if p[3] == 0 {
							continue
						}
						o := src.PixOffset(x, y)
						for c := 0; c < 3; c++ {
							v := uint16(math.Pow(float64(p[c])/255, gamma) * 65535)
							src.Pix[o+2*c], src.Pix[o+2*c+1] = byte(v>>8), byte(v)
						}
						src.Pix[o+6], src.Pix[o+7] = p[3], p[3]
					}
				}
				draw.BiLinear.Transform(dst, m, src, r, draw.Src, nil)
				for i := 0; i < len(pix); i += 4 {
					q := dst.Pix[2*i:]
					for c := 0; c < 3; c++ {
						v := float64(uint16(q[2*c])<<8 | uint16(q[2*c+1]))
						pix[i+c] = byte(math.Pow(v/65535, 1/gamma) * 255)
					}
					pix[i+3] = q[6]
				}
			}
			n.rect, n.pix, n.hasAlpha = box, pix, true
		}
		if n.hasMask && !n.maskRect.Empty() {
			at := func(x, y int) byte {
				if !(image.Point{X: x, Y: y}).In(n.maskRect) {
					return 0
				}
				v := n.mask[(y-n.maskRect.Min.Y)*n.maskRect.Dx()+x-n.maskRect.Min.X]
				return v ^ byte(n.maskDef)
			}
			r := n.maskRect
			if tile != 0 {
				r = usedTiles(r, tile, func(x, y int) bool { return at(x, y) != 0 })
			}
			src := image.NewAlpha(r)
			for y := r.Min.Y; y < r.Max.Y; y++ {
				for x := r.Min.X; x < r.Max.X; x++ {
					src.Pix[src.PixOffset(x, y)] = at(x, y)
				}
			}
			dst := image.NewAlpha(boxOf(r, m))
			draw.BiLinear.Transform(dst, m, src, r, draw.Src, nil)
			for i := range dst.Pix {
				dst.Pix[i] ^= byte(n.maskDef)
			}
			n.maskRect, n.mask = dst.Rect, dst.Pix
		}
	}
	return out
}

// c27resample compares trees under arbitrary matrices with the rendering of
// layers that were resampled one by one.
func c27resample(t *pbt.T) {
	procs := setProcs(t)
	gamma := pbt.Pick(t, 0, 0, 2.2, 0.5)
	o := genOpts{maxDim: pbt.Pick(t, 6, 12), maxLayers: pbt.Pick(t, 2, 5), simple: true, onlyNormal: true, sparse: t.Bool(15), dense: t.Bool(60)}
	sc := genScene(t, o)
	m := anyMatrix(t)
	switch t.N(6) {
	case 0: // shear
		m = f64.Aff3{1, float64(t.Signed(3)), 0, 0, 1, 0}
	case 1:
		m = f64.Aff3{1, 0, 0, float64(t.Signed(3)), 1, 0}
	case 2: // by parts of a pixel
		m = f64.Aff3{1, 0, float64(t.Signed(40)) / 8, 0, 1, float64(t.Signed(40)) / 8}
	case 3: // scaling
		m[1], m[3] = 0, 0
		if m[0] == 0 {
			m[0] = 0.5
		}
		if m[4] == 0 {
			m[4] = 0.5
		}
	}
	if t.Bool(30) {
		m[2] = 0
	}
	if t.Bool(30) {
		m[5] = 0
	}
	if m == (f64.Aff3{1, 0, 0, 0, 1, 0}) {
		t.Skip()
	}
	tile := genTile(t, sc)
	t.Descf("%stile %d, CPUs %d, matrix %v gamma %g", sc, tile, procs, m, gamma)
	t.Label("resampled")
	canvas := image.Rect(0, 0, sc.w, sc.h)
	r := boxOf(canvas, m)
	check := func(tr *composite.Tree, model *scene, how string) {
		if tr.CanvasRect != r {
			t.Fatalf("%s: CanvasRect is %v, want %v", how, tr.CanvasRect, r)
		}
		c := tr.Rect.Intersect(r)
		if c.Empty() {
			return
		}
		want := model.render(c)
		got := renderNew(t, tr, c)
		seen := false
		for i := 0; i < len(want.Pix); i += 4 {
			g, w := got.Pix[i:i+4], want.Pix[i:i+4]
			seen = seen || w[3] != 0
			for k := 0; k < 4; k++ {
				a, b := int(g[k]), int(w[k])
				if k < 3 {
					a, b = a*int(g[3])/255, b*int(w[3])/255
				}
				if d := a - b; d > 3 || d < -3 {
					j := i / 4
					t.Fatalf("%s: the pixel at (%d,%d) is %v, want %v", how, c.Min.X+j%c.Dx(), c.Min.Y+j/c.Dx(), g, w)
				}
			}
		}
		if seen {
			t.NonTrivial()
		}
	}
	tr, err := composite.New(context.Background(), bytes.NewReader(sc.data), &composite.Options{TileSize: tile, TransformMatrix: m, Gamma: gamma})
	if err != nil {
		t.Fatalf("New fails: %v", err)
	}
	check(tr, sc.resampled(m, gamma, 0), "New with a matrix")
	orig := build(t, sc, tile)
	if tr, err = orig.Transform(context.Background(), m, gamma); err != nil {
		t.Fatalf("Transform fails: %v", err)
	}
	ts := tile
	if ts == 0 {
		ts = composite.DefaultTileSize
	}
	check(tr, sc.resampled(m, gamma, ts), "Transform")
}
