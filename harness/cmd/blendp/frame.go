package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"runtime"

	"verif/pbt"
)

// painter is a blend mode or a Porter-Duff operator.
type painter struct {
	name string
	pd   bool
	draw func(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point)
}

func randPainter(t *pbt.T) painter {
	if t.Bool(30) {
		o := ops[t.N(len(ops))]
		return painter{o.name, true, func(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point) {
			o.d.Draw(dst, r, src, sp)
		}}
	}
	m := modes[t.N(len(modes))]
	return painter{m.name, false, func(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point) {
		m.d.DrawMask(dst, r, src, sp, mask, mp)
	}}
}

// framed makes an image that is a part of a larger one, at any place.
func framed(t *pbt.T, kind, maxW, maxH int) (m, parent image.Image) {
	w, h := t.Int(1, maxW), t.Int(1, maxH)
	at := image.Pt(t.Signed(20), t.Signed(20))
	if t.Bool(2) {
		at = at.Add(image.Pt(t.Signed(100000), t.Signed(100000)))
	}
	var l, tp, r, b int
	if t.Bool(60) {
		l, tp, r, b = t.N(4), t.N(3), t.N(4), t.N(3)
	}
	parent = newImg(t, kind, image.Rect(at.X-l, at.Y-tp, at.X+w+r, at.Y+h+b))
	fill(t, parent, nil)
	m = parent
	if l+tp+r+b > 0 {
		m = sub(parent, image.Rect(at.X, at.Y, at.X+w, at.Y+h))
	}
	return
}

// onePixel draws a single pixel by itself with images of the same types.
func onePixel(t *pbt.T, p painter, dst, src, mask image.Image, d, s, k image.Point) image.Image {
	one := func(m image.Image, at image.Point) image.Image {
		if u, ok := m.(*image.Uniform); ok {
			return u
		}
		return clone(sub(m, image.Rectangle{at, at.Add(image.Pt(1, 1))}))
	}
	dd, ss := one(dst, d), one(src, s)
	var mm image.Image
	if mask != nil {
		mm = one(mask, k)
	}
	p.draw(dd.(draw.Image), image.Rectangle{d, d.Add(image.Pt(1, 1))}, ss, s, mm, k)
	return dd
}

func pbtMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func setProcs(t *pbt.T) { runtime.GOMAXPROCS(pbt.Pick(t, 1, 2, 3, 4, 8, 1, 2, 3, 4, 8, 7, 16, 61)) }

func checkC17(t *pbt.T) {
	setProcs(t)
	p := randPainter(t)
	maxW, maxH := 8, pbt.Pick(t, 3, 6, 20)
	if t.Bool(5) {
		switch t.N(3) {
		case 0:
			maxW, maxH = pbt.Pick(t, 20, 40), 4
		case 1:
			maxW, maxH = pbt.Pick(t, 80, 300), 2
		case 2:
			maxW, maxH = 2, pbt.Pick(t, 80, 300)
		}
		t.Label("long or tall")
	}
	dk := anyDstKind(t)
	sk := randSrcKind(t)
	dst, dpar := framed(t, dk, maxW, maxH)
	var src, spar image.Image
	if sk == kUniform {
		src = uniform(t)
		spar = src
	} else {
		src, spar = framed(t, sk, maxW, maxH)
	}
	var mask, mpar image.Image
	if !p.pd {
		switch t.Weighted(3, 2, 4) {
		case 1:
			mask = maskUniform(t)
			mpar = mask
		case 2:
			mask, mpar = framed(t, pbt.Pick(t, kAlpha, kAlpha, kAlpha16, kNRGBA, kRGBA, kGray), maxW, maxH)
		}
	}
	b := dst.Bounds()
	// the rectangle
	x0, y0 := b.Min.X+t.Signed(4), b.Min.Y+t.Signed(4)
	if t.Bool(30) {
		x0, y0 = b.Min.X, b.Min.Y
	}
	r := image.Rect(x0, y0, x0+t.N(maxW+4), y0+t.N(pbtMax(24, maxH+4)))
	extreme := false
	switch t.Weighted(8, 3, 1, 1) {
	case 1:
		r = b
	case 2:
		r = image.Rectangle{image.Pt(x0, y0), image.Pt(x0+t.Signed(9), y0+t.Signed(9))} // perhaps not well-formed
	case 3:
		extreme = true
		r = image.Rect(-(1 << 30), -(1 << 30), 1<<30, 1<<30)
		if t.Bool(50) {
			r = image.Rect(x0+1<<29, y0, x0+1<<30, y0+5)
		}
	}
	pt := func(m image.Image) image.Point {
		if _, ok := m.(*image.Uniform); ok || m == nil {
			return image.Pt(t.Signed(30), t.Signed(30))
		}
		o := m.Bounds().Min
		q := o
		if t.Bool(60) {
			q = o.Add(image.Pt(t.Signed(4), t.Signed(4)))
		}
		if extreme && t.Bool(50) {
			q = o.Add(r.Min.Sub(b.Min)) // the same alignment as the whole images
		}
		return q
	}
	sp, mp := pt(src), pt(mask)
	t.Descf("%s dst %s %v of %v, src %s %v sp %v, mask %T mp %v, r %v, CPUs %d\n", p.name, kindNames[dk], b, dpar.Bounds(), kindNames[sk], src.Bounds(), sp, mask, mp, r, runtime.GOMAXPROCS(0))
	before, sbefore := clone(dpar), clone(spar)
	var mbefore image.Image
	if mpar != nil {
		mbefore = clone(mpar)
	}
	dold := before
	if dst != dpar {
		dold = sub(before, b)
	}
	if pv, st := pbt.Panics(func() { p.draw(dst.(draw.Image), r, src, sp, mask, mp) }); pv != nil {
		t.Fatalf("%s panics: %v\n%s", p.name, pv, st)
	}
	want := clone(dpar)
	copy(pix(want), pix(before))
	wsub := want
	if dst != dpar {
		wsub = sub(want, b)
	}
	n, clipped := 0, 0
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			d := image.Pt(x, y)
			if !d.In(r) {
				continue
			}
			s, k := d.Sub(r.Min).Add(sp), d.Sub(r.Min).Add(mp)
			if !s.In(src.Bounds()) || (mask != nil && !k.In(mask.Bounds())) {
				clipped++
				continue
			}
			n++
			wsub.(draw.Image).Set(x, y, onePixelColor(t, p, dold, src, mask, d, s, k, wsub))
		}
	}
	t.Evals(n + 1)
	if n > 0 && (clipped > 0 || n < b.Dx()*b.Dy()) {
		t.NonTrivial()
	}
	if n > 0 && clipped > 0 {
		t.Label("clipped by source or mask")
	}
	if n == 0 {
		t.Label("nothing to draw")
	}
	if !bytes.Equal(pix(dpar), pix(want)) {
		// The same color may be in a palette twice.
		diff(t, dpar, want, b, r, dk == kPaletted)
	}
	if !bytes.Equal(pix(spar), pix(sbefore)) {
		t.Fatalf("%s changed its source", p.name)
	}
	if mpar != nil && !bytes.Equal(pix(mpar), pix(mbefore)) {
		t.Fatalf("%s changed its mask", p.name)
	}
}

// onePixelColor draws one pixel alone and stores it in want byte by byte.
func onePixelColor(t *pbt.T, p painter, dst, src, mask image.Image, d, s, k image.Point, want image.Image) color.Color {
	o := onePixel(t, p, dst, src, mask, d, s, k)
	return o.At(d.X, d.Y)
}

func diff(t *pbt.T, got, want image.Image, area, r image.Rectangle, colors ...bool) {
	b := got.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if g, w := got.At(x, y), want.At(x, y); g != w && (len(colors) == 0 || !colors[0] || color.RGBA64Model.Convert(g) != color.RGBA64Model.Convert(w)) {
				t.Fatalf("at (%d, %d): %v, want %v (destination %v, rectangle %v)", x, y, g, w, area, r)
			}
		}
	}
	if len(colors) > 0 && colors[0] {
		return
	}
	t.Fatalf("the memory of the images differs")
}

// ---- C19

func checkC19(t *pbt.T) {
	p := randPainter(t)
	if t.Bool(45) {
		selfOverlap(t, p)
		return
	}
	dk := anyDstKind(t)
	sk := randSrcKind(t)
	maxH := pbt.Pick(t, 4, 12, 40)
	maxW := 10
	if t.Bool(4) {
		maxW, maxH = pbt.Pick(t, 40, 200), 8
		if t.Bool(40) {
			maxW, maxH = 4, pbt.Pick(t, 150, 400)
		}
		t.Label("long or tall")
	}
	dst, dpar := framed(t, dk, maxW, maxH)
	b := dst.Bounds()
	var src image.Image
	sr := image.Rect(0, 0, b.Dx(), b.Dy()).Inset(-t.N(3)).Add(image.Pt(t.Signed(9), t.Signed(9)))
	src = randSrc(t, sk, sr, nil)
	sp := sr.Min.Add(image.Pt(t.N(3), t.N(3)))
	var mask image.Image
	var mp image.Point
	if !p.pd {
		mask, _ = randMask(t, sr)
		mp = sr.Min
	}
	r := b
	if t.Bool(40) {
		r = b.Inset(1)
	}
	n := pbt.Pick(t, 2, 3, 4, 5, 8)
	t.Descf("%s %s onto %s, dst %v r %v src %v sp %v, mask %T; 1 and %d CPUs\n", p.name, kindNames[sk], kindNames[dk], b, r, sr, sp, mask, n)
	if b.Dy() >= 4 {
		t.NonTrivial()
	}
	again := func() (image.Image, image.Image) {
		c := clone(dpar)
		if dst == dpar {
			return c, c
		}
		return c, sub(c, b)
	}
	p1, d1 := again()
	runtime.GOMAXPROCS(1)
	p.draw(d1.(draw.Image), r, src, sp, mask, mp)
	// several CPUs
	p2, d2 := again()
	runtime.GOMAXPROCS(n)
	p.draw(d2.(draw.Image), r, src, sp, mask, mp)
	t.Evals(2)
	if !bytes.Equal(pix(p1), pix(p2)) {
		t.Label("diff")
		t.Descf("with %d CPUs:\n", n)
		diff(t, p2, p1, b, r)
	}
	// piece by piece
	p3, d3 := again()
	var pieces []image.Rectangle
	var split func(r image.Rectangle, depth int)
	split = func(r image.Rectangle, depth int) {
		if depth == 0 || r.Dx()*r.Dy() <= 1 || t.Bool(20) {
			pieces = append(pieces, r)
			return
		}
		if t.Bool(50) && r.Dx() > 1 {
			x := r.Min.X + 1 + t.N(r.Dx()-1)
			split(image.Rect(r.Min.X, r.Min.Y, x, r.Max.Y), depth-1)
			split(image.Rect(x, r.Min.Y, r.Max.X, r.Max.Y), depth-1)
		} else if r.Dy() > 1 {
			y := r.Min.Y + 1 + t.N(r.Dy()-1)
			split(image.Rect(r.Min.X, r.Min.Y, r.Max.X, y), depth-1)
			split(image.Rect(r.Min.X, y, r.Max.X, r.Max.Y), depth-1)
		} else {
			pieces = append(pieces, r)
		}
	}
	split(r, 3)
	for len(pieces) > 0 {
		i := t.N(len(pieces))
		q := pieces[i]
		pieces = append(pieces[:i:i], pieces[i+1:]...)
		o := q.Min.Sub(r.Min)
		p.draw(d3.(draw.Image), q, src, sp.Add(o), mask, mp.Add(o))
		t.Evals(1)
	}
	if !bytes.Equal(pix(p1), pix(p3)) {
		t.Descf("piece by piece:\n")
		diff(t, p3, p1, b, r)
	}
}

// selfOverlap draws a part of an image onto an overlapping part of itself.
func selfOverlap(t *pbt.T, p painter) {
	k := anyDstKind(t)
	w, h := t.Int(1, pbt.Pick(t, 10, 10, 10, 10, 10, 10, 10, 40)), t.Int(1, pbt.Pick(t, 4, 12, 40))
	o := image.Pt(t.Signed(9), t.Signed(9))
	m := newImg(t, k, image.Rect(o.X, o.Y, o.X+w, o.Y+h))
	fill(t, m, nil)
	b := m.Bounds()
	r := image.Rect(o.X+t.N(w), o.Y+t.N(h), o.X+w-t.N(w), o.Y+h-t.N(h))
	d := image.Pt(t.Signed(4), t.Signed(4))
	if t.Bool(25) {
		d.Y = 0
	}
	sp := r.Min.Add(d)
	var mask image.Image
	var mp image.Point
	if !p.pd {
		mask, _ = randMask(t, b)
		mp = b.Min.Add(image.Pt(t.N(2), t.N(2)))
	}
	n := pbt.Pick(t, 1, 2, 3, 4, 8)
	t.Descf("%s of %s %v onto itself, r %v sp %v, mask %T mp %v, %d CPUs\n", p.name, kindNames[k], b, r, sp, mask, mp, n)
	t.Label("onto itself")
	want := clone(m)
	orig := clone(m)
	runtime.GOMAXPROCS(1)
	p.draw(want.(draw.Image), r, orig, sp, mask, mp)
	if r.Overlaps(r.Add(d)) && d != (image.Point{}) && !bytes.Equal(pix(want), pix(orig)) {
		t.NonTrivial()
	}
	runtime.GOMAXPROCS(n)
	dst, src := m, m
	switch m.(type) {
	case wrapRGBA, wrapNRGBA: // the package cannot know where these keep their pixels
	default: // parts of one image that share its memory
		part := func(q image.Rectangle) image.Image {
			q = q.Intersect(b)
			if q.Empty() || t.Bool(40) {
				return sub(m, b)
			}
			t.Label("smaller part of itself")
			return sub(m, q)
		}
		switch t.N(4) {
		case 1:
			src = part(r.Add(d))
		case 2:
			dst = part(r)
		case 3:
			dst, src = part(r), part(r.Add(d))
		}
	}
	p.draw(dst.(draw.Image), r, src, sp, mask, mp)
	t.Evals(1)
	if !bytes.Equal(pix(m), pix(want)) {
		diff(t, m, want, b, r)
	}
}

// ---- C18

// placed gives the pixels of m at another place, perhaps as a part of a larger image.
func placed(t *pbt.T, m image.Image) image.Image {
	if _, ok := m.(*image.Uniform); ok {
		return m
	}
	b := m.Bounds()
	at := image.Pt(t.Signed(5), t.Signed(5))
	var l, tp, r, bt int
	if t.Bool(70) {
		l, tp, r, bt = t.N(3), t.N(3), t.N(3), t.N(3)
	}
	pr := image.Rect(at.X-l, at.Y-tp, at.X+b.Dx()+r, at.Y+b.Dy()+bt)
	var parent image.Image
	switch m.(type) {
	case *image.NRGBA:
		parent = image.NewNRGBA(pr)
	case wrapNRGBA:
		parent = wrapNRGBA{image.NewNRGBA(pr)}
	case *image.RGBA:
		parent = image.NewRGBA(pr)
	case wrapRGBA:
		parent = wrapRGBA{image.NewRGBA(pr)}
	case *image.NRGBA64:
		parent = image.NewNRGBA64(pr)
	case *image.RGBA64:
		parent = image.NewRGBA64(pr)
	case *image.Alpha:
		parent = image.NewAlpha(pr)
	case *image.Alpha16:
		parent = image.NewAlpha16(pr)
	case *image.Gray:
		parent = image.NewGray(pr)
	default:
		panic(fmt.Sprintf("placed %T", m))
	}
	pp, mp := pix(parent), pix(m)
	noise := byte(t.N(256))
	for i := range pp {
		pp[i] = noise
	}
	size := len(mp) / (b.Dx() * b.Dy())
	stride := size * pr.Dx()
	for y := 0; y < b.Dy(); y++ {
		copy(pp[(y+tp)*stride+l*size:][:b.Dx()*size], mp[y*b.Dx()*size:])
	}
	return sub(parent, image.Rectangle{at, at.Add(b.Size())})
}

func checkC18(t *pbt.T) {
	p := randPainter(t)
	w, h := t.Int(1, 4), t.Int(1, 3)
	r := image.Rect(0, 0, w, h)
	var o image.Point
	// Sources that hold the same colors in images of different types.
	straightSrc := t.Bool(50)
	straightDst := t.Bool(50)
	holders := func(st bool, m image.Image) []image.Image {
		if st {
			n := m.(*image.NRGBA)
			big := image.NewNRGBA64(r)
			for i, v := range n.Pix {
				big.Pix[2*i], big.Pix[2*i+1] = v, v
			}
			return []image.Image{n, wrapNRGBA{n}, big}
		}
		n := m.(*image.RGBA)
		big := image.NewRGBA64(r)
		for i, v := range n.Pix {
			big.Pix[2*i], big.Pix[2*i+1] = v, v
		}
		return []image.Image{n, wrapRGBA{n}, big}
	}
	mk := func(st bool, other image.Image) image.Image {
		k := kRGBA
		if st {
			k = kNRGBA
		}
		m := newImg(t, k, r)
		if other == nil || !t.Bool(15) {
			fill(t, m, other)
			return m
		}
		c := straight(t, nil) // one color
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				put(t, m, x, y, c)
			}
		}
		return m
	}
	dst0 := mk(straightDst, nil)
	src0 := mk(straightSrc, dst0)
	srcs := holders(straightSrc, src0)
	same := true
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			same = same && src0.At(x, y) == src0.At(0, 0)
		}
	}
	if same {
		srcs = append(srcs, image.NewUniform(src0.At(0, 0)))
		t.Label("uniform source")
	}
	// Masks that mean the same.
	masks := []image.Image{nil}
	if !p.pd {
		switch t.N(3) {
		case 0:
			op := image.NewAlpha(r)
			for i := range op.Pix {
				op.Pix[i] = 255
			}
			masks = []image.Image{nil, image.Opaque, image.NewUniform(color.White), op, image.NewGray(r)}
			t.Label("opaque masks")
		case 1:
			a := alpha8(t)
			al := image.NewAlpha(r)
			for i := range al.Pix {
				al.Pix[i] = a
			}
			al16 := image.NewAlpha16(r)
			for i := range al16.Pix {
				al16.Pix[i] = a
			}
			nr := image.NewNRGBA(r)
			for i := range nr.Pix {
				nr.Pix[i] = a
			}
			masks = []image.Image{image.NewUniform(color.Alpha{a}), al, al16, nr, image.NewUniform(color.NRGBA{9, 8, 7, a})}
			t.Label("constant masks")
		case 2:
			al := image.NewAlpha(r)
			fill(t, al, nil)
			nr := image.NewNRGBA(r)
			for i := range al.Pix {
				nr.Pix[4*i+3] = al.Pix[i]
			}
			masks = []image.Image{al, nr}
		}
	}
	dsts := holders(straightDst, dst0)
	// An Alpha image is black ink to the Porter-Duff operators drawing onto
	// 8-bit images, and white to the blend modes.
	if straightSrc && t.Bool(25) {
		var v byte
		if !p.pd {
			v = 255
		}
		n := src0.(*image.NRGBA)
		al := image.NewAlpha(r)
		for i := range al.Pix {
			n.Pix[4*i], n.Pix[4*i+1], n.Pix[4*i+2] = v, v, v
			al.Pix[i] = n.Pix[4*i+3]
		}
		srcs = holders(true, src0)
		srcs = append(srcs, al)
		t.Label("alpha source")
	}
	if t.Bool(50) {
		// any of them may be a part of a larger image
		place := func(l []image.Image) {
			for i := range l {
				if l[i] != nil && (i > 0 || t.Bool(50)) {
					l[i] = placed(t, l[i])
				}
			}
		}
		place(srcs)
		place(dsts)
		place(masks)
		t.Label("parts of larger images")
	}
	origin := func(m image.Image) image.Point {
		if _, ok := m.(*image.Uniform); ok || m == nil {
			return o
		}
		return m.Bounds().Min
	}
	t.Descf("%s of straight=%v source %v over straight=%v destination %v, masks like %T\n", p.name, straightSrc, pix(src0), straightDst, pix(dst0), masks[0])
	type result struct {
		m         image.Image
		dst       image.Image
		src, mask image.Image
	}
	var all []result
	for _, d := range dsts {
		for _, s := range srcs {
			for _, m := range masks {
				if _, ok := s.(*image.Alpha); ok && p.pd {
					switch d.(type) {
					case *image.NRGBA, *image.RGBA:
					default:
						continue
					}
				}
				c := clone(d)
				p.draw(c.(draw.Image), c.Bounds(), s, origin(s), m, origin(m))
				all = append(all, result{c, d, s, m})
			}
		}
	}
	t.Evals(len(all))
	base := all[0]
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			cs, as := exact(src0, x, y)
			cb, ab := exact(dst0, x, y)
			mo := origin(masks[0])
			ma := maskAlpha(masks[0], mo.X+x, mo.Y+y)
			if as*ma > 0 && ab > 0 && as*ma*ab < 1 && cs != cb {
				t.NonTrivial()
			}
			bo := base.m.Bounds().Min
			bc, ba := got(base.m, bo.X+x, bo.Y+y)
			kb := tolerances(base.dst, base.src, base.mask, as, ab, p.pd)
			for _, q := range all[1:] {
				qo := q.m.Bounds().Min
				gc, ga := got(q.m, qo.X+x, qo.Y+y)
				k := tolerances(q.dst, q.src, q.mask, as, ab, p.pd)
				bad := math.Abs(ga-ba) > kb.a+k.a
				var lo, hi vec
				if !p.pd {
					_, lo, hi = compositeRange(p.name, cs, cb, as*ma, ab, math.Max(k.es, kb.es), math.Max(k.eb, kb.eb))
				}
				for i := range gc {
					if math.Abs(gc[i]-bc[i]) > kb.c+k.c+(hi[i]-lo[i])*255 {
						bad = true
					}
				}
				if bad {
					t.Fatalf("%s at (%d,%d): %T onto %T with mask %T gives premultiplied %.2f alpha %.2f, but %T onto %T with mask %T gives %.2f alpha %.2f",
						p.name, x, y, base.src, base.dst, base.mask, bc, ba, q.src, q.dst, q.mask, gc, ga)
				}
			}
		}
	}
	// Nothing and an opaque uniform mask are the same thing exactly.
	if !p.pd {
		c1, c2 := clone(dst0), clone(dst0)
		p.draw(c1.(draw.Image), r, src0, o, nil, o)
		p.draw(c2.(draw.Image), r, src0, o, image.Opaque, o)
		if !bytes.Equal(pix(c1), pix(c2)) {
			t.Fatalf("%s: a nil mask and an opaque one give different results: %v, %v", p.name, pix(c1), pix(c2))
		}
	}
}

// ---- C20

func checkC20(t *pbt.T) {
	setProcs(t)
	w, h := t.Int(1, 5), t.Int(1, 5)
	r := image.Rect(0, 0, w, h)
	var o image.Point
	dk := randDstKind(t)
	dst := newImg(t, dk, r)
	fill(t, dst, nil)
	before := clone(dst)
	check := func(what string, x, y int, want color.Color) {
		if g := dst.At(x, y); g != want {
			t.Fatalf("%s: at (%d,%d) %v, want %v (before %v)", what, x, y, g, want, before.At(x, y))
		}
		t.Evals(1)
	}
	switch t.N(5) {
	case 0: // transparent source or mask, under every mode
		m := modes[t.N(len(modes))]
		t.Label("transparent source or mask")
		sk := randSrcKind(t)
		var src image.Image
		if sk == kUniform {
			u := uniform(t)
			if t.Bool(50) {
				u = image.NewUniform(color.NRGBA{sample(t), sample(t), sample(t), 0})
			}
			src = u
		} else {
			src = newImg(t, sk, r)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					c := straight(t, nil)
					if t.Bool(50) {
						c.A = 0
					}
					put(t, src, x, y, c)
				}
			}
		}
		mask, mn := randMask(t, r)
		t.Descf("%s of %s onto %s, mask %s\n", m.name, kindNames[sk], kindNames[dk], mn)
		m.d.DrawMask(dst.(draw.Image), r, src, o, mask, o)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				_, as := exact(src, x, y)
				if as == 0 || maskAlpha(mask, x, y) == 0 {
					t.NonTrivial()
					check(m.name, x, y, before.At(x, y))
				}
			}
		}
	case 1: // an opaque source in normal mode replaces
		t.Label("opaque source, normal")
		sk := pbt.Pick(t, kNRGBA, kRGBA, kWRGBA, kWNRGBA, kRGBA64, kNRGBA64, kGray, kGray16, kCMYK, kUniform)
		var src image.Image
		if sk == kUniform {
			src = image.NewUniform(color.NRGBA{sample(t), sample(t), sample(t), 255})
		} else {
			src = newImg(t, sk, r)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					c := straight(t, nil)
					c.A = 255
					put(t, src, x, y, c)
				}
			}
		}
		t.Descf("Normal of opaque %s onto %s\n", kindNames[sk], kindNames[dk])
		modes[0].d.Draw(dst.(draw.Image), r, src, o)
		t.NonTrivial()
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				check("Normal", x, y, dst.(draw.Image).ColorModel().Convert(src.At(x, y)))
			}
		}
	case 2: // onto a transparent destination every mode gives the source
		t.Label("transparent destination")
		m := modes[t.N(len(modes))]
		dk := pbt.Pick(t, kNRGBA, kRGBA)
		sk := pbt.Pick(t, kNRGBA, kRGBA)
		dst = newImg(t, dk, r)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				c := straight(t, nil)
				if t.Bool(70) {
					c.A = 0
				}
				put(t, dst, x, y, c)
			}
		}
		before = clone(dst)
		src := newImg(t, sk, r)
		fill(t, src, nil)
		t.Descf("%s of %s onto transparent %s\n", m.name, kindNames[sk], kindNames[dk])
		m.d.Draw(dst.(draw.Image), r, src, o)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				_, as := exact(src, x, y)
				_, ab := exact(before, x, y)
				if ab == 0 && as > 0 {
					t.NonTrivial()
					check(m.name, x, y, dst.(draw.Image).ColorModel().Convert(src.At(x, y)))
				}
			}
		}
	case 4: // what is opaque stays opaque, and an opaque source makes it opaque
		t.Label("opaque stays opaque")
		i := t.N(len(modes) + 3)
		var name string
		if i < len(modes) {
			name = modes[i].name
		} else {
			name = [...]string{"SrcOver", "DestOver", "SrcAtop"}[i-len(modes)]
		}
		sk := randSrcKind(t)
		if i >= len(modes) {
			sk = pdSrcKind(t, dk)
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if t.Bool(80) {
					c := straight(t, nil)
					c.A = 255
					put(t, dst, x, y, c)
				}
			}
		}
		before = clone(dst)
		var src image.Image
		if sk == kUniform {
			src = uniform(t)
		} else {
			src = newImg(t, sk, r)
			fill(t, src, nil)
		}
		var mask image.Image
		mn := "nil"
		if i < len(modes) {
			mask, mn = randMask(t, r)
		}
		t.Descf("%s of %s onto %s, mask %s\n", name, kindNames[sk], kindNames[dk], mn)
		if i < len(modes) {
			modes[i].d.DrawMask(dst.(draw.Image), r, src, o, mask, o)
		}
		for _, op := range ops {
			if i >= len(modes) && op.name == name {
				op.d.Draw(dst.(draw.Image), r, src, o)
			}
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				_, as := exact(src, x, y)
				_, ab := exact(before, x, y)
				if ab != 1 && (name == "SrcAtop" || as != 1 || maskAlpha(mask, x, y) != 1) {
					continue
				}
				t.Evals(1)
				t.NonTrivial()
				if _, a := exact(dst, x, y); a != 1 {
					t.Fatalf("%s: at (%d,%d) alpha %v after drawing %v onto %v, one of which is opaque", name, x, y, a, src.At(x, y), before.At(x, y))
				}
			}
		}
	case 3: // operators with opaque or empty operands select one of them
		t.Label("operators")
		op := ops[t.N(len(ops))]
		sk := pdSrcKind(t, dk)
		if op.name == "Copy" && t.Bool(50) {
			sk = dk
		}
		if sk == kPaletted || sk == kCMYK || sk == kGray || sk == kGray16 {
			sk = kNRGBA
		}
		sharp := func(m image.Image) {
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					c := straight(t, nil)
					if t.Bool(80) {
						c.A = uint8(255 * t.N(2))
					}
					put(t, m, x, y, c)
				}
			}
		}
		sharp(dst)
		before = clone(dst)
		var src image.Image
		if sk == kUniform {
			src = uniform(t)
		} else {
			src = newImg(t, sk, r)
			sharp(src)
		}
		t.Descf("%s of %s onto %s\n", op.name, kindNames[sk], kindNames[dk])
		op.d.Draw(dst.(draw.Image), r, src, o)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				_, as := exact(src, x, y)
				_, ab := exact(before, x, y)
				if op.name == "Copy" && sk == dk && (sk == kNRGBA || sk == kRGBA) {
					// pixels of the same type are copied as they are
					t.NonTrivial()
					want := src.At(x, y)
					if as == 0 {
						want = dst.(draw.Image).ColorModel().Convert(color.Transparent)
					}
					check(op.name, x, y, want)
					continue
				}
				if op.name != "Clear" && ((as != 0 && as != 1) || (ab != 0 && ab != 1)) {
					continue
				}
				t.NonTrivial()
				fa, fb := porterDuff(op.name, as, ab)
				model := dst.(draw.Image).ColorModel()
				want := model.Convert(color.Transparent)
				switch {
				case as*fa == 1:
					want = model.Convert(src.At(x, y))
					if _, ok := src.(*image.Alpha); ok {
						want = model.Convert(color.Black)
					}
				case ab*fb == 1:
					want = before.At(x, y)
				}
				check(op.name, x, y, want)
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C17",
		Rule:  "the draw changes some but not all of the destination, or is clipped by the source or mask; an evaluation is one pixel compared with drawing that pixel alone, or one check that nothing else changed",
		Quick: 3000000, Thorough: 20000000, Run: checkC17})
	pbt.Register(&pbt.Prop{ID: "C18",
		Rule:  "at least one pixel is translucent (source, mask or destination) with different colors; an evaluation is one draw with one combination of image types",
		Quick: 250000, Thorough: 3000000, Run: checkC18})
	pbt.Register(&pbt.Prop{ID: "C19",
		Rule:  "the destination has at least four rows, or an image is drawn onto an overlapping part of itself; an evaluation is one draw",
		Quick: 1800000, Thorough: 20000000, Run: checkC19})
	pbt.Register(&pbt.Prop{ID: "C20",
		Rule:  "at least one pixel meets the condition of an identity; an evaluation is one such pixel",
		Quick: 4000000, Thorough: 40000000, Run: checkC20})
}
