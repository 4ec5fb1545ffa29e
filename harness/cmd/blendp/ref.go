package main

import "math"

// Reference formulas of the blend modes on real numbers in 0..1: cs is the
// source color, cb the backdrop color. From the W3C compositing specification
// and, for the modes that are not in it, from the usual Photoshop formulas.

type vec = [3]float64

func min1(v float64) float64 { return math.Min(1, v) }
func clamp01(v float64) float64 {
	return math.Max(0, math.Min(1, v))
}

func burn(s, b float64) float64 {
	if b >= 1 {
		return 1
	}
	if s <= 0 {
		return 0
	}
	return 1 - min1((1-b)/s)
}

func dodge(s, b float64) float64 {
	if b <= 0 {
		return 0
	}
	if s >= 1 {
		return 1
	}
	return min1(b / (1 - s))
}

func hard(s, b float64) float64 {
	if s <= .5 {
		return 2 * s * b
	}
	t := 2*s - 1
	return b + t - b*t
}

// separable modes
var sepModes = map[string]func(s, b float64) float64{
	"Normal":      func(s, b float64) float64 { return s },
	"Darken":      math.Min,
	"Multiply":    func(s, b float64) float64 { return s * b },
	"ColorBurn":   burn,
	"LinearBurn":  func(s, b float64) float64 { return math.Max(0, s+b-1) },
	"Lighten":     math.Max,
	"Screen":      func(s, b float64) float64 { return s + b - s*b },
	"ColorDodge":  dodge,
	"LinearDodge": func(s, b float64) float64 { return min1(s + b) },
	"Add":         func(s, b float64) float64 { return s + b }, // limited after compositing
	"Overlay":     func(s, b float64) float64 { return hard(b, s) },
	"HardLight":   hard,
	"SoftLight": func(s, b float64) float64 {
		if s <= .5 {
			return b - (1-2*s)*b*(1-b)
		}
		d := math.Sqrt(b)
		if b <= .25 {
			d = ((16*b-12)*b + 4) * b
		}
		return b + (2*s-1)*(d-b)
	},
	"LinearLight": func(s, b float64) float64 { return clamp01(b + 2*s - 1) },
	"VividLight": func(s, b float64) float64 {
		if s <= .5 {
			if s <= 0 {
				return 0
			}
			return 1 - min1((1-b)/(2*s))
		}
		if s >= 1 {
			return 1
		}
		return min1(b / (2 - 2*s))
	},
	"PinLight": func(s, b float64) float64 {
		if s <= .5 {
			return math.Min(2*s, b)
		}
		return math.Max(2*s-1, b)
	},
	"HardMix": func(s, b float64) float64 {
		if s+b > 1 {
			return 1
		}
		return 0
	},
	"Difference": func(s, b float64) float64 { return math.Abs(s - b) },
	"Exclusion":  func(s, b float64) float64 { return s + b - 2*s*b },
	"Subtract":   func(s, b float64) float64 { return math.Max(0, b-s) },
	"Divide": func(s, b float64) float64 {
		if b <= 0 {
			return 0
		}
		if s <= 0 {
			return 1
		}
		return min1(b / s)
	},
}

func lum(c vec) float64 { return .3*c[0] + .59*c[1] + .11*c[2] }

func sat(c vec) float64 {
	return math.Max(c[0], math.Max(c[1], c[2])) - math.Min(c[0], math.Min(c[1], c[2]))
}

// lumShift moves every luminance that is set, to explore its rounding.
func setLum(c vec, l, lumShift float64) vec {
	l += lumShift
	d := l - lum(c)
	for i := range c {
		c[i] += d
	}
	L := lum(c)
	n := math.Min(c[0], math.Min(c[1], c[2]))
	x := math.Max(c[0], math.Max(c[1], c[2]))
	if n < 0 && L-n > 1e-12 {
		for i := range c {
			c[i] = L + (c[i]-L)*L/(L-n)
		}
	}
	if x > 1 && x-L > 1e-12 {
		for i := range c {
			c[i] = L + (c[i]-L)*(1-L)/(x-L)
		}
	}
	for i := range c {
		c[i] = clamp01(c[i])
	}
	return c
}

func setSat(c vec, s float64) vec {
	n := math.Min(c[0], math.Min(c[1], c[2]))
	x := math.Max(c[0], math.Max(c[1], c[2]))
	if x-n <= 0 {
		return vec{}
	}
	for i := range c {
		c[i] = (c[i] - n) * s / (x - n)
	}
	return c
}

// nonseparable modes
var nonsepModes = map[string]func(s, b vec, dl float64) vec{
	"DarkerColor": func(s, b vec, dl float64) vec {
		if lum(s) < lum(b) {
			return s
		}
		return b
	},
	"LighterColor": func(s, b vec, dl float64) vec {
		if lum(s) > lum(b) {
			return s
		}
		return b
	},
	"Hue":        func(s, b vec, dl float64) vec { return setLum(setSat(s, sat(b)), lum(b), dl) },
	"Saturation": func(s, b vec, dl float64) vec { return setLum(setSat(b, sat(s)), lum(b), dl) },
	"Color":      func(s, b vec, dl float64) vec { return setLum(s, lum(b), dl) },
	"Luminosity": func(s, b vec, dl float64) vec { return setLum(b, lum(s), dl) },
}

// blendRange gives the least and greatest value each channel of the blended
// color takes when the colors are moved by up to es and eb (rounding).
func blendRange(mode string, s, b vec, es, eb float64) (lo, hi vec) {
	lo, hi = vec{9, 9, 9}, vec{-9, -9, -9}
	add := func(i int, v float64) {
		lo[i] = math.Min(lo[i], v)
		hi[i] = math.Max(hi[i], v)
	}
	off := [3]float64{-1, 0, 1}
	if f := sepModes[mode]; f != nil {
		for i := 0; i < 3; i++ {
			for _, o := range off {
				for _, p := range off {
					add(i, f(clamp01(s[i]+o*es), clamp01(b[i]+p*eb)))
				}
			}
		}
		return
	}
	f := nonsepModes[mode]
	if (mode == "Hue" && sat(s) < 6*es) || (mode == "Saturation" && sat(b) < 6*eb) {
		// the hue is not determined
		return vec{0, 0, 0}, vec{1, 1, 1}
	}
	one := func(s, b vec) {
		for _, o := range off {
			v := f(s, b, o*math.Max(es, eb))
			for i := range v {
				add(i, v[i])
			}
		}
	}
	one(s, b)
	for m := 0; m < 64; m++ {
		s2, b2 := s, b
		for i := 0; i < 3; i++ {
			if m>>i&1 == 0 {
				s2[i] = clamp01(s[i] - es)
			} else {
				s2[i] = clamp01(s[i] + es)
			}
			if m>>(3+i)&1 == 0 {
				b2[i] = clamp01(b[i] - eb)
			} else {
				b2[i] = clamp01(b[i] + eb)
			}
		}
		one(s2, b2)
	}
	// the hue of a color that is nearly gray depends on its rounding
	var wide float64
	switch mode {
	case "Hue":
		wide = 2 * es / sat(s) * (sat(b) + 2*eb)
	case "Saturation":
		wide = 2 * eb / sat(b) * (sat(s) + 2*es)
	}
	for i := range lo {
		lo[i], hi[i] = lo[i]-wide, hi[i]+wide
	}
	return
}

// compositeRange gives alpha and the range of the premultiplied result.
func compositeRange(mode string, s, b vec, as, ab, es, eb float64) (a float64, lo, hi vec) {
	a = as + ab - as*ab
	bl, bh := blendRange(mode, s, b, es, eb)
	for i := 0; i < 3; i++ {
		rest := as*(1-ab)*s[i] + (1-as)*ab*b[i]
		lo[i] = rest + as*ab*bl[i]
		hi[i] = rest + as*ab*bh[i]
		if mode == "Add" {
			lo[i], hi[i] = math.Min(lo[i], a), math.Min(hi[i], a)
		}
	}
	return
}

// porterDuff gives the factors of source and destination.
func porterDuff(op string, as, ab float64) (fa, fb float64) {
	switch op {
	case "Clear":
		return 0, 0
	case "Copy":
		return 1, 0
	case "Dest":
		return 0, 1
	case "SrcOver":
		return 1, 1 - as
	case "DestOver":
		return 1 - ab, 1
	case "SrcIn":
		return ab, 0
	case "DestIn":
		return 0, as
	case "SrcOut":
		return 1 - ab, 0
	case "DestOut":
		return 0, 1 - as
	case "SrcAtop":
		return ab, 1 - as
	case "DestAtop":
		return 1 - ab, as
	case "XOR":
		return 1 - ab, 1 - as
	}
	panic(op)
}
