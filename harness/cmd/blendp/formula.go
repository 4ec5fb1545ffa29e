package main

import (
	"fmt"
	"image"
	"image/draw"
	"math"

	"verif/pbt"
)

// tolerance of one draw, in units of 1/255 of the premultiplied result.
type tol struct {
	c, a   float64 // color and alpha
	es, eb float64 // how far the colors may have been rounded before blending
}

func is8(m image.Image) bool {
	switch m.(type) {
	case *image.RGBA, *image.NRGBA, wrapRGBA, wrapNRGBA:
		return true
	}
	return false
}

func isN(m image.Image) bool {
	switch m.(type) {
	case *image.NRGBA, wrapNRGBA, *image.NRGBA64:
		return true
	}
	return false
}

// tolerances states how precisely a draw has to compute. The precise values
// come from the number of 8-bit (or 16-bit) roundings of each kind of path.
func tolerances(dst, src, mask image.Image, as, ab float64, pd bool) tol {
	u := 1.0 / 65535
	var k tol
	_, srcN := src.(*image.NRGBA)
	_, dstN := dst.(*image.NRGBA)
	if !pd && srcN && dstN && fastPath(dst, src, mask, pd) {
		// 8-bit arithmetic: four roundings of the weights and one of the result
		return tol{c: 5, a: 4, es: 1.01 / 255, eb: 1.01 / 255}
	}
	if is8(dst) {
		k.c, k.a = 1.3, 1.1
		if isN(dst) {
			k.c = 2.3
		}
	} else {
		k.c, k.a = .04, .02
	}
	if mask != nil {
		if _, ok := mask.(*image.Uniform); ok {
			k.c += 1
			k.a += 1
		}
	}
	// straight colors are recovered from 16-bit premultiplied ones
	k.es, k.eb = 2*u, 2*u
	if as > 0 {
		k.es += 2 * u / as
	}
	if ab > 0 {
		k.eb += 2 * u / ab
	}
	return k
}

// got gives the premultiplied color and alpha a destination holds, in 0..255.
func got(m image.Image, x, y int) (vec, float64) {
	c, a := exact(m, x, y)
	return vec{c[0] * a * 255, c[1] * a * 255, c[2] * a * 255}, a * 255
}

func checkC15(t *pbt.T) {
	m := modes[t.N(len(modes))]
	w, h := t.Int(1, 4), t.Int(1, 3)
	r := image.Rect(0, 0, w, h)
	dk, sk := randDstKind(t), randSrcKind(t)
	dst := newImg(t, dk, r)
	fill(t, dst, nil)
	src := randSrc(t, sk, r, dst)
	mask, mn := randMask(t, r)
	t.Label("%s", m.name)
	t.Label("%s onto %s", kindNames[sk], kindNames[dk])
	before := clone(dst)
	var p image.Point
	if mask == nil && t.Bool(50) {
		m.d.Draw(dst.(draw.Image), r, src, p)
	} else {
		m.d.DrawMask(dst.(draw.Image), r, src, p, mask, p)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			cs, as := exact(src, x, y)
			cb, ab := exact(before, x, y)
			ma := maskAlpha(mask, x, y)
			k := tolerances(dst, src, mask, as, ab, false)
			a, lo, hi := compositeRange(m.name, cs, cb, as*ma, ab, k.es, k.eb)
			gc, ga := got(dst, x, y)
			t.Evals(1)
			if as*ma > 0 && ab > 0 && cs != cb {
				t.NonTrivial()
			}
			bad := math.Abs(ga-a*255) > k.a
			for i := 0; i < 3; i++ {
				if gc[i] < lo[i]*255-k.c || gc[i] > hi[i]*255+k.c {
					bad = true
				}
			}
			if bad {
				t.Descf("%s, %s source %v onto %s destination %v, mask %s %v\n", m.name, kindNames[sk], src.At(x, y), kindNames[dk], before.At(x, y), mn, ma)
				t.Fatalf("%s of %s %v (mask %s %.4f) over %s %v gives %v: premultiplied %.2f alpha %.2f (of 255), want %s alpha %.2f",
					m.name, kindNames[sk], src.At(x, y), mn, ma, kindNames[dk], before.At(x, y), dst.At(x, y), gc, ga, rng(lo, hi), a*255)
			}
		}
	}
	t.Descf("%s, %s %dx%d onto %s, mask %s\n", m.name, kindNames[sk], w, h, kindNames[dk], mn)
}

func rng(lo, hi vec) string {
	s := "["
	for i := range lo {
		if hi[i]-lo[i] < .0005 {
			s += fmt.Sprintf("%.2f ", lo[i]*255)
		} else {
			s += fmt.Sprintf("%.2f..%.2f ", lo[i]*255, hi[i]*255)
		}
	}
	return s[:len(s)-1] + "]"
}

// pdSource gives the color of a Porter-Duff source: an alpha image drawn onto
// an 8-bit image is black ink.
func pdSource(dst, src image.Image, x, y int) (vec, float64) {
	c, a := exact(src, x, y)
	if _, ok := src.(*image.Alpha); ok {
		return vec{}, a
	}
	return c, a
}

func pdSrcKind(t *pbt.T, dk int) int {
	sk := randSrcKind(t)
	if sk == kAlpha && dk != kRGBA && dk != kNRGBA {
		sk = kNRGBA // what color an alpha image has elsewhere is not specified
	}
	return sk
}

func checkC16(t *pbt.T) {
	op := ops[t.N(len(ops))]
	w, h := t.Int(1, 4), t.Int(1, 3)
	r := image.Rect(0, 0, w, h)
	dk := randDstKind(t)
	sk := pdSrcKind(t, dk)
	dst := newImg(t, dk, r)
	fill(t, dst, nil)
	src := randSrc(t, sk, r, dst)
	t.Label("%s", op.name)
	t.Label("%s onto %s", kindNames[sk], kindNames[dk])
	before := clone(dst)
	op.d.Draw(dst.(draw.Image), r, src, image.Point{})
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			cs, as := pdSource(dst, src, x, y)
			cb, ab := exact(before, x, y)
			fa, fb := porterDuff(op.name, as, ab)
			k := tolerances(dst, src, nil, as, ab, true)
			a := as*fa + ab*fb
			gc, ga := got(dst, x, y)
			t.Evals(1)
			if as > 0 && ab > 0 && cs != cb {
				t.NonTrivial()
			}
			bad := math.Abs(ga-a*255) > k.a
			var want vec
			for i := 0; i < 3; i++ {
				want[i] = (as*fa*cs[i] + ab*fb*cb[i]) * 255
				if math.Abs(gc[i]-want[i]) > k.c {
					bad = true
				}
			}
			if bad {
				t.Fatalf("%s of %s %v over %s %v gives %v: premultiplied %.2f alpha %.2f (of 255), want %.2f alpha %.2f",
					op.name, kindNames[sk], src.At(x, y), kindNames[dk], before.At(x, y), dst.At(x, y), gc, ga, want, a*255)
			}
		}
	}
	t.Descf("%s, %s %dx%d onto %s\n", op.name, kindNames[sk], w, h, kindNames[dk])
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C15",
		Rule:  "at least one pixel where source (after the mask) and backdrop both have alpha and differ in color; an evaluation is one pixel compared with the formula",
		Quick: 6000000, Thorough: 40000000, Run: checkC15})
	pbt.Register(&pbt.Prop{ID: "C16",
		Rule:  "at least one pixel where source and destination both have alpha and differ in color; an evaluation is one pixel compared with the formula",
		Quick: 10000000, Thorough: 40000000, Run: checkC16})
}
