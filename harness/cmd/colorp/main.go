// Command colorp holds the checks of the color package: C13 and C14.
package main

import (
	"fmt"
	"image/color"
	"math"

	pc "github.com/oov/psd/color"

	"verif/pbt"
)

func main() { pbt.Main() }

// sample generators

func u8(t *pbt.T) uint8 {
	if t.Bool(30) {
		return pbt.Pick[uint8](t, 0, 255, 1, 254, 127, 128)
	}
	return uint8(t.N(256))
}

func u16(t *pbt.T) uint16 {
	if t.Bool(35) {
		return pbt.Pick[uint16](t, 0, 0xffff, 1, 0xfffe, 0x7fff, 0x8000, 0xff, 0x100, 0x101, 0xff00, 0xfeff)
	}
	if t.Bool(30) {
		return uint16(t.N(256)) * 0x101
	}
	return uint16(t.N(65536))
}

func f32(t *pbt.T, wild bool) float32 {
	if wild && t.Bool(15) {
		return pbt.Pick(t, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), -1, 2, -0.25, 1.0000001, 65535, -1e30, 1e30, math.MaxFloat32, -math.MaxFloat32, -math.SmallestNonzeroFloat32, float32(math.Copysign(0, -1)))
	}
	switch t.Weighted(6, 2, 1, 1) {
	case 0:
		return float32(t.N(1<<20)) / (1 << 20)
	case 1:
		return pbt.Pick[float32](t, 0, 1, 0.5, 0.9999999, 1e-9, 1e-4, math.SmallestNonzeroFloat32, 0.99998474, 1.0/65535, 0.25)
	case 2:
		return float32(t.N(256)) / 255
	default:
		return float32(math.Pow(float64(t.N(65536))/65535, 2.2))
	}
}

// straight color as reals in 0..65535, alpha as 0..65535
func clamp(v float64) float64 {
	if !(v > 0) {
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}

func gam(v float32) float64 { return math.Pow(clamp(float64(v)), 1/2.2) * 65535 }

type ref struct{ r, g, b, a float64 }

const nTypes = 8

var names = [nTypes]string{"Gray1", "Gray32", "NGrayA", "NGrayA32", "NGrayA64", "NRGBA128", "NCMYKA", "NCMYKA80"}

// gen draws a color of type k.
func gen(t *pbt.T, k int, wild bool) color.Color {
	switch k {
	case 0:
		return pc.Gray1{Y: t.Bool(50)}
	case 1:
		return pc.Gray32{Y: f32(t, wild)}
	case 2:
		return pc.NGrayA{Y: u8(t), A: u8(t)}
	case 3:
		return pc.NGrayA32{Y: u16(t), A: u16(t)}
	case 4:
		return pc.NGrayA64{Y: f32(t, wild), A: f32(t, wild)}
	case 5:
		return pc.NRGBA128{R: f32(t, wild), G: f32(t, wild), B: f32(t, wild), A: f32(t, wild)}
	case 6:
		return pc.NCMYKA{C: u8(t), M: u8(t), Y: u8(t), K: u8(t), A: u8(t)}
	default:
		return pc.NCMYKA80{C: u16(t), M: u16(t), Y: u16(t), K: u16(t), A: u16(t)}
	}
}

// reference gives the straight color and alpha that c means.
func reference(c color.Color) ref {
	switch c := c.(type) {
	case pc.Gray1:
		v := 0.0
		if c.Y {
			v = 65535
		}
		return ref{v, v, v, 65535}
	case pc.Gray32:
		y := gam(c.Y)
		return ref{y, y, y, 65535}
	case pc.NGrayA:
		y := float64(c.Y) * 257
		return ref{y, y, y, float64(c.A) * 257}
	case pc.NGrayA32:
		y := float64(c.Y)
		return ref{y, y, y, float64(c.A)}
	case pc.NGrayA64:
		y := gam(c.Y)
		return ref{y, y, y, clamp(float64(c.A)) * 65535}
	case pc.NRGBA128:
		return ref{gam(c.R), gam(c.G), gam(c.B), clamp(float64(c.A)) * 65535}
	case pc.NCMYKA:
		k := float64(c.K) / 255
		return ref{float64(c.C) * 257 * k, float64(c.M) * 257 * k, float64(c.Y) * 257 * k, float64(c.A) * 257}
	case pc.NCMYKA80:
		k := float64(c.K) / 65535
		return ref{float64(c.C) * k, float64(c.M) * k, float64(c.Y) * k, float64(c.A)}
	}
	panic("unknown type")
}

func isFloat(c color.Color) bool {
	switch c.(type) {
	case pc.Gray32, pc.NGrayA64, pc.NRGBA128:
		return true
	}
	return false
}

func checkRGBA(t *pbt.T, c color.Color) {
	r, g, b, a := c.RGBA()
	w := reference(c)
	if a > 0xffff || r > a || g > a || b > a {
		t.Fatalf("%T%+v: RGBA() = %#x %#x %#x %#x: not premultiplied", c, c, r, g, b, a)
	}
	ta := 0.0
	if isFloat(c) {
		ta = 1
	}
	if math.Abs(float64(a)-w.a) > ta {
		t.Fatalf("%T%+v: RGBA() alpha %#x, want %.1f", c, c, a, w.a)
	}
	if a == 0 && r|g|b != 0 {
		t.Fatalf("%T%+v: transparent but %#x %#x %#x", c, c, r, g, b)
	}
	near := func(n string, got uint32, want float64) {
		// truncations: the sample (floats, CMYK), alpha and the product
		tol := 3.0
		if !isFloat(c) {
			tol = 2.01
			if _, ok := c.(pc.NGrayA); ok {
				tol = 1.01
			}
			if _, ok := c.(pc.NGrayA32); ok {
				tol = 1.01
			}
			if a == 0xffff {
				tol = 1.01
			}
		}
		if d := math.Abs(float64(got) - want*w.a/65535); !(d <= tol) {
			t.Fatalf("%T%+v: RGBA() %s = %d, want %.2f", c, c, n, got, want*w.a/65535)
		}
	}
	near("red", r, w.r)
	near("green", g, w.g)
	near("blue", b, w.b)
	if a == 0xffff {
		switch c := c.(type) {
		case pc.NGrayA:
			if r != uint32(c.Y)*0x101 {
				t.Fatalf("%+v opaque: %#x", c, r)
			}
		case pc.NGrayA32:
			if r != uint32(c.Y) {
				t.Fatalf("%+v opaque: %#x", c, r)
			}
		}
	}
	switch c.(type) {
	case pc.Gray1, pc.Gray32, pc.NGrayA, pc.NGrayA32, pc.NGrayA64:
		if r != g || g != b {
			t.Fatalf("%T%+v: gray but RGBA() = %#x %#x %#x", c, c, r, g, b)
		}
	}
}

// bump raises one sample of c (index i) by choice; ok tells whether it is larger.
func bump(t *pbt.T, c color.Color, i int) (color.Color, bool) {
	b8 := func(v *uint8) { *v += uint8(t.N(256 - int(*v))) }
	b16 := func(v *uint16) { *v += uint16(t.N(65536 - int(*v))) }
	bf := func(v *float32) bool {
		x := f32(t, true)
		if math.IsNaN(float64(x)) || math.IsNaN(float64(*v)) {
			return false
		}
		if x < *v {
			return false
		}
		*v = x
		return true
	}
	switch c := c.(type) {
	case pc.Gray1:
		return pc.Gray1{Y: true}, true
	case pc.Gray32:
		ok := bf(&c.Y)
		return c, ok
	case pc.NGrayA:
		if i%2 == 0 {
			b8(&c.Y)
		} else {
			b8(&c.A)
		}
		return c, true
	case pc.NGrayA32:
		if i%2 == 0 {
			b16(&c.Y)
		} else {
			b16(&c.A)
		}
		return c, true
	case pc.NGrayA64:
		var ok bool
		if i%2 == 0 {
			ok = bf(&c.Y)
		} else {
			ok = bf(&c.A)
		}
		return c, ok
	case pc.NRGBA128:
		ok := bf([]*float32{&c.R, &c.G, &c.B, &c.A}[i%4])
		return c, ok
	case pc.NCMYKA:
		b8([]*uint8{&c.C, &c.M, &c.Y, &c.K, &c.A}[i%5])
		return c, true
	case pc.NCMYKA80:
		b16([]*uint16{&c.C, &c.M, &c.Y, &c.K, &c.A}[i%5])
		return c, true
	}
	return c, false
}

func checkC13(t *pbt.T) {
	k := t.N(nTypes)
	t.Label("%s", names[k])
	n := 8
	translucent := false
	for i := 0; i < n; i++ {
		c := gen(t, k, true)
		if i == 0 {
			t.Descf("first color %T%+v\n", c, c)
		}
		checkRGBA(t, c)
		t.Evals(1)
		r, g, b, a := c.RGBA()
		if a != 0 && a != 0xffff && r|g|b != 0 {
			translucent = true
		}
		if k < 2 {
			translucent = translucent || r != 0
		}
		// monotone in each sample
		j := t.N(5)
		if d, ok := bump(t, c, j); ok {
			r2, g2, b2, a2 := d.RGBA()
			if r2 < r || g2 < g || b2 < b || a2 < a {
				t.Fatalf("not monotone: %T%+v gives %#x %#x %#x %#x, the larger %+v gives %#x %#x %#x %#x", c, c, r, g, b, a, d, r2, g2, b2, a2)
			}
			t.Evals(1)
		}
		// the 8-bit and the 16-bit variant agree, and so do the standard types
		switch c := c.(type) {
		case pc.NGrayA:
			same(t, c, pc.NGrayA32{Y: uint16(c.Y) * 0x101, A: uint16(c.A) * 0x101})
			near(t, c, color.NRGBA{c.Y, c.Y, c.Y, c.A}, 1)
			row := t.Bool(20)
			if row {
				for a := 0; a < 256; a++ {
					checkRGBA(t, pc.NGrayA{Y: c.Y, A: uint8(a)})
				}
				t.Evals(256)
			}
		case pc.NGrayA32:
			near(t, c, color.NRGBA64{c.Y, c.Y, c.Y, c.A}, 1)
		case pc.NCMYKA:
			m := func(v uint8) uint16 { return uint16(v) * 0x101 }
			same(t, c, pc.NCMYKA80{C: m(c.C), M: m(c.M), Y: m(c.Y), K: m(c.K), A: m(c.A)})
			o := c
			o.A = 255
			near(t, o, color.CMYK{255 - c.C, 255 - c.M, 255 - c.Y, 255 - c.K}, 1)
		case pc.NRGBA128:
			if !math.IsNaN(float64(c.R)) && !math.IsNaN(float64(c.A)) {
				c.G, c.B = c.R, c.R
				same(t, pc.NGrayA64{Y: c.R, A: c.A}, c)
			}
		}
	}
	if translucent {
		t.NonTrivial()
	}
}

func same(t *pbt.T, x, y color.Color) { near(t, x, y, 0) }

func near(t *pbt.T, x, y color.Color, tol int) {
	r, g, b, a := x.RGBA()
	r2, g2, b2, a2 := y.RGBA()
	t.Evals(1)
	for _, p := range [][2]uint32{{r, r2}, {g, g2}, {b, b2}, {a, a2}} {
		if d := int(p[0]) - int(p[1]); d > tol || d < -tol {
			t.Fatalf("%T%+v gives %#x %#x %#x %#x but %T%+v gives %#x %#x %#x %#x", x, x, r, g, b, a, y, y, r2, g2, b2, a2)
		}
	}
}

// ---- C14

type model struct {
	name string
	m    color.Model
	k    int
	gray bool
	tol  float64 // of a straight sample, out of 65535
	ta   float64 // of alpha
	opq  bool    // has no alpha
}

var models = []model{
	{"Gray1Model", pc.Gray1Model, 0, true, 0, 0, true},
	{"Gray32Model", pc.Gray32Model, 1, true, 3, 0, true},
	{"NGrayAModel", pc.NGrayAModel, 2, true, 257, 256, false},
	{"NGrayA32Model", pc.NGrayA32Model, 3, true, 3, 0, false},
	{"NGrayA64Model", pc.NGrayA64Model, 4, true, 3, 2, false},
	{"NRGBA128Model", pc.NRGBA128Model, 5, false, 3, 2, false},
	{"NCMYKAModel", pc.NCMYKAModel, 6, false, 257 + 258, 256, false},
	{"NCMYKA80Model", pc.NCMYKA80Model, 7, false, 4, 0, false},
}

func sameType(k int, c color.Color) bool {
	switch c.(type) {
	case pc.Gray1:
		return k == 0
	case pc.Gray32:
		return k == 1
	case pc.NGrayA:
		return k == 2
	case pc.NGrayA32:
		return k == 3
	case pc.NGrayA64:
		return k == 4
	case pc.NRGBA128:
		return k == 5
	case pc.NCMYKA:
		return k == 6
	case pc.NCMYKA80:
		return k == 7
	}
	return false
}

func equalColor(a, b color.Color) bool {
	return fmt.Sprintf("%T%+v", a, a) == fmt.Sprintf("%T%+v", b, b)
}

type custom struct{ r, g, b, a uint32 }

func (c custom) RGBA() (uint32, uint32, uint32, uint32) { return c.r, c.g, c.b, c.a }

func anyColor(t *pbt.T) color.Color {
	switch t.N(9) {
	case 0:
		return color.NRGBA{u8(t), u8(t), u8(t), u8(t)}
	case 1:
		return color.NRGBA64{u16(t), u16(t), u16(t), u16(t)}
	case 2:
		a := u16(t)
		s := func() uint32 { return uint32(uint64(u16(t)) * uint64(a) / 65535) }
		return custom{s(), s(), s(), uint32(a)}
	case 3:
		a := u8(t)
		s := func() uint8 { return uint8(int(u8(t)) * int(a) / 255) }
		return color.RGBA{s(), s(), s(), a}
	case 4:
		return pbt.Pick[color.Color](t, color.Gray{u8(t)}, color.Gray16{u16(t)}, color.Alpha{u8(t)}, color.Alpha16{u16(t)}, color.CMYK{u8(t), u8(t), u8(t), u8(t)}, color.YCbCr{u8(t), u8(t), u8(t)}, color.NYCbCrA{color.YCbCr{u8(t), u8(t), u8(t)}, u8(t)})
	default:
		return gen(t, t.N(nTypes), true)
	}
}

// byteOf tells whether v holds the high bits of w, which is known to within e, or w rounded to 8 bits.
func byteOf(v uint8, w, e float64) bool {
	in := func(lo, hi float64) bool { return float64(v) >= lo && float64(v) <= hi }
	return in(math.Floor((w-e)/256), math.Floor((w+e)/256)) || in(math.Floor((w-e)/257+0.5), math.Floor((w+e)/257+0.5))
}

func checkC14(t *pbt.T) {
	m := models[t.N(len(models))]
	t.Label("%s", m.name)
	for i := 0; i < 8; i++ {
		c := anyColor(t)
		if i == 0 {
			t.Descf("%s, first color %T%+v\n", m.name, c, c)
		}
		t.Evals(1)
		var d color.Color
		if p, st := pbt.Panics(func() { d = m.m.Convert(c) }); p != nil {
			t.Fatalf("%s.Convert(%T%+v) panics: %v\n%s", m.name, c, c, p, st)
		}
		if !sameType(m.k, d) {
			t.Fatalf("%s.Convert(%T%+v) gives a %T", m.name, c, c, d)
		}
		if sameType(m.k, c) {
			if !equalColor(c, d) {
				t.Fatalf("%s.Convert changes its own color %T%+v to %+v", m.name, c, c, d)
			}
			continue
		}
		if e := m.m.Convert(d); !equalColor(d, e) {
			t.Fatalf("%s is not idempotent: %+v becomes %+v", m.name, d, e)
		}
		r, g, b, a := c.RGBA()
		r2, g2, b2, a2 := d.RGBA()
		if a != 0 && a != 0xffff {
			t.NonTrivial()
		}
		if m.opq {
			// no alpha: the luminance of the premultiplied color
			y := (299*float64(r) + 587*float64(g) + 114*float64(b)) / 1000
			if m.k == 0 {
				// white from one half of 0xffff on, where rounding leaves no doubt
				if w := y >= 0x8000; (w || y <= 0x7fff) && w != (r2 != 0) {
					t.Fatalf("%s.Convert(%T%+v) = %+v, luminance %.1f", m.name, c, c, d, y)
				}
			} else if math.Abs(float64(r2)-y) > m.tol {
				t.Fatalf("%s.Convert(%T%+v) has gray %d, want %.1f", m.name, c, c, r2, y)
			}
			if a2 != 0xffff {
				t.Fatalf("%s.Convert(%T%+v) is not opaque", m.name, c, c)
			}
			continue
		}
		if a == 0 {
			if a2 != 0 {
				t.Fatalf("%s.Convert(%T%+v): transparent becomes alpha %#x", m.name, c, c, a2)
			}
			continue
		}
		if a == 0xffff && a2 != 0xffff {
			t.Fatalf("%s.Convert(%T%+v): opaque becomes alpha %#x", m.name, c, c, a2)
		}
		if math.Abs(float64(a)-float64(a2)) > m.ta {
			t.Fatalf("%s.Convert(%T%+v): alpha %#x becomes %#x", m.name, c, c, a, a2)
		}
		var a8 uint8
		switch d := d.(type) {
		case pc.NGrayA:
			a8 = d.A
		case pc.NCMYKA:
			a8 = d.A
		}
		if m.ta == 256 && !byteOf(a8, float64(a), 0) {
			t.Fatalf("%s.Convert(%T%+v) = %+v: the alpha is %#x", m.name, c, c, d, a)
		}
		// Compare straight samples: dst as it is meant, src from its premultiplied value.
		w := reference(d)
		st := func(v uint32) float64 { return float64(v) * 65535 / float64(a) }
		// a premultiplied sample is known to within half a unit of rounding
		tol := m.tol
		if m.gray {
			y := (299*st(r) + 587*st(g) + 114*st(b)) / 1000
			// integer luminance is rounded before the division by alpha
			if d := math.Abs(w.r - y); d > tol+1.0*65535/float64(a) {
				t.Fatalf("%s.Convert(%T%+v) = %+v: gray %.1f, want %.1f", m.name, c, c, reference(m.m.Convert(c)), w.r, y)
			}
			if g, ok := d.(pc.NGrayA); ok && !byteOf(g.Y, y, 1+65535/float64(a)) {
				t.Fatalf("%s.Convert(%T%+v) = %+v: the gray is %.1f (of 65535)", m.name, c, c, d, y)
			}
			continue
		}
		for j, p := range [][2]float64{{w.r, st(r)}, {w.g, st(g)}, {w.b, st(b)}} {
			if math.Abs(p[0]-p[1]) > tol {
				t.Fatalf("%s.Convert(%T%+v) = %+v: sample %d is %.1f, want %.1f (premultiplied %#x %#x %#x %#x)", m.name, c, c, d, j, p[0], p[1], r, g, b, a)
			}
		}
		_, _, _ = r2, g2, b2
	}
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C13",
		Rule:  "the case holds a translucent color (or, for types without alpha, a color that is not black); each evaluation is one RGBA value compared with the formula of its type, one monotonicity pair, or one pair of types",
		Quick: 6000000, Thorough: 30000000, Run: checkC13})
	pbt.Register(&pbt.Prop{ID: "C14",
		Rule:  "the case converts at least one translucent color that is not of the model's own type",
		Quick: 8000000, Thorough: 30000000, Run: checkC14})
}
