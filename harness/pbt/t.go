// Package pbt is a small property-based testing engine.
//
// A case is a sequence of bounded choices. In generation the choices come from
// a PRNG seeded by (VERIF_SEED, property, case index); in replay and shrinking
// they come from a recorded list, so every case is a pure function of its
// choices and the code under test, and shrinking works on any generator.
package pbt

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"runtime/debug"
	"strings"
)

// T is one generated case.
type T struct {
	rng      uint64
	inc      uint64
	replay   []uint64 // when non-nil (or replayMode), choices come from here
	rmode    bool
	pos      int
	rec      []uint64
	desc     strings.Builder
	labels   map[string]int
	nontriv  bool
	key      uint64
	evals    int
	Index    int
	Thorough bool
	onDesc   func(string)
	onRec    string
	recF     *os.File
	src      []byte // when bmode, choices are decoded from here
	bmode    bool
	enc      []byte // the choices in that form, if wanted
	encOn    bool
}

type failure struct{ msg string }
type skipped struct{}

func splitmix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// NewSeeded returns a case drawn at random.
func NewSeeded(prop string, seed int64, index int) *T {
	h := fnv.New64a()
	h.Write([]byte(prop))
	s := splitmix(h.Sum64() ^ splitmix(uint64(seed)) ^ splitmix(uint64(index)*0x9E3779B97F4A7C15+7))
	return &T{rng: s, labels: map[string]int{}, Index: index}
}

// NewReplay returns a case that replays the choices.
func NewReplay(choices []uint64, index int) *T {
	return &T{replay: choices, rmode: true, labels: map[string]int{}, Index: index}
}

// NewBytes returns a case whose choices are decoded from bytes, the form that
// the coverage-guided search mutates.
func NewBytes(b []byte) *T {
	return &T{src: b, bmode: true, labels: map[string]int{}}
}

// width is the number of bytes that hold a choice out of n.
func width(n uint64) int {
	switch {
	case n == 0 || n > 1<<32:
		return 8
	case n > 1<<16:
		return 4
	case n > 1<<8:
		return 2
	}
	return 1
}

// Choices returns the recorded choices.
func (t *T) Choices() []uint64 { return t.rec }

func (t *T) next() uint64 {
	t.rng += 0x9E3779B97F4A7C15
	x := t.rng
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// N draws a value in [0, n). 0 is the simplest.
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.U64(uint64(n)))
}

// U64 draws a value in [0, n); n == 0 means the full range.
func (t *T) U64(n uint64) uint64 {
	var v uint64
	if t.rmode {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			if n != 0 && v >= n {
				v = v % n
			}
		}
		t.pos++
	} else if t.bmode {
		for k := width(n); k > 0 && len(t.src) > 0; k-- {
			v = v<<8 | uint64(t.src[0])
			t.src = t.src[1:]
		}
		if n != 0 && v >= n {
			v %= n
		}
	} else {
		v = t.next()
		if n != 0 {
			hi, _ := bits.Mul64(v, n)
			v = hi
		}
	}
	t.rec = append(t.rec, v)
	if t.encOn {
		for k := width(n) - 1; k >= 0; k-- {
			t.enc = append(t.enc, byte(v>>(8*k)))
		}
	}
	if t.onRec != "" {
		if t.recF == nil {
			t.recF, _ = os.Create(t.onRec)
		}
		if t.recF != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			t.recF.Write(b[:])
		}
	}
	return v
}

// Int draws from [lo, hi].
func (t *T) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + t.N(hi-lo+1)
}

// Signed draws from [-m, m], shrinking towards 0.
func (t *T) Signed(m int) int {
	v := t.N(2*m + 1)
	if v&1 == 1 {
		return -(v + 1) / 2
	}
	return v / 2
}

// Bool is true with probability about p percent; shrinks to false.
func (t *T) Bool(p int) bool { return t.N(100) >= 100-p }

// Byte draws a byte that is often an edge value.
func (t *T) Byte() byte {
	switch t.N(8) {
	case 0:
		return 0
	case 1:
		return 255
	case 2:
		return [...]byte{1, 2, 127, 128, 129, 254, 64, 192}[t.N(8)]
	}
	return byte(t.N(256))
}

// U16 draws a 16-bit value that is often an edge value.
func (t *T) U16() uint16 {
	switch t.N(8) {
	case 0:
		return 0
	case 1:
		return 0xffff
	case 2:
		return [...]uint16{1, 0x7fff, 0x8000, 0x8001, 0xfffe, 0x100, 0xff, 0xff00}[t.N(8)]
	}
	return uint16(t.N(65536))
}

// Bytes fills n bytes. Few choices are spent however large n is: the content
// is expanded from a drawn key in one of several textures.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	if n <= 12 && t.Bool(50) {
		for i := range b {
			b[i] = t.Byte()
		}
		return b
	}
	kind := t.N(6 + min(n/100, 1))
	key := t.U64(1 << 32)
	s := key*0x9E3779B97F4A7C15 + 1
	rnd := func() uint64 {
		s += 0x9E3779B97F4A7C15
		x := s
		x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
		x = (x ^ (x >> 27)) * 0x94D049BB133111EB
		return x ^ (x >> 31)
	}
	switch kind {
	case 0: // constant
		for i := range b {
			b[i] = byte(key)
		}
	case 1: // noise
		for i := range b {
			b[i] = byte(rnd() >> 24)
		}
	case 6: // runs and literals as long as run-length codes can be
		for i := 0; i < n; {
			l := [...]int{1, 2, 3, 127, 128, 129, 130, 255, 256, 257}[rnd()>>20%10]
			same, v := rnd()>>20%2 == 0, byte(rnd()>>32)
			for ; l > 0 && i < n; l-- {
				if b[i] = v; !same {
					b[i] = byte(rnd() >> 24)
				}
				i++
			}
		}
	case 2: // runs
		for i := 0; i < n; {
			l := int(rnd()>>20)%9 + 1
			if rnd()%16 == 0 {
				l = int(rnd()>>20)%200 + 1
			}
			v := byte(rnd() >> 32)
			for ; l > 0 && i < n; l-- {
				b[i] = v
				i++
			}
		}
	case 3: // edges
		e := [...]byte{0, 255, 0, 255, 1, 254, 127, 128}
		for i := range b {
			b[i] = e[rnd()>>33&7]
		}
	case 4: // ramp
		st := byte(rnd()>>8)%7 + 1
		for i := range b {
			b[i] = byte(key) + byte(i)*st
		}
	case 5: // mixed noise and runs
		for i := 0; i < n; {
			l := int(rnd()>>20)%40 + 1
			run := rnd()%2 == 0
			v := byte(rnd() >> 32)
			for ; l > 0 && i < n; l-- {
				if !run {
					v = byte(rnd() >> 32)
				}
				b[i] = v
				i++
			}
		}
	}
	return b
}

// Weighted picks an index with the given weights.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.N(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Pick picks one element; shrinks to the first.
func Pick[V any](t *T, vs ...V) V { return vs[t.N(len(vs))] }

// Label counts a class this case belongs to.
func (t *T) Label(format string, a ...interface{}) {
	if len(a) == 0 {
		t.labels[format]++
		return
	}
	t.labels[fmt.Sprintf(format, a...)]++
}

// Descf appends to the human-readable description of the case.
func (t *T) Descf(format string, a ...interface{}) {
	if t.desc.Len() < 6000 {
		fmt.Fprintf(&t.desc, format, a...)
		t.desc.WriteByte('\n')
		if t.onDesc != nil {
			t.onDesc(t.desc.String())
		}
	}
}

// NonTrivial marks the case as non-trivial. Distinctness is by the choices
// together with the extra key.
func (t *T) NonTrivial() { t.nontriv = true }

// Evals adds extra evaluations performed inside this case.
func (t *T) Evals(n int) { t.evals += n }

// Fatalf reports that the property does not hold.
func (t *T) Fatalf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Skip abandons the case (generator could not construct it).
func (t *T) Skip() { panic(skipped{}) }

// Outcome of one case.
type Outcome struct {
	Failed  bool
	Skipped bool
	Msg     string
}

// Run runs f on t and reports how it ended. A panic of the code under test is
// a failure.
func Run(t *T, f func(*T)) (o Outcome) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case failure:
				o = Outcome{Failed: true, Msg: x.msg}
			case skipped:
				o = Outcome{Skipped: true}
			default:
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				o = Outcome{Failed: true, Msg: fmt.Sprintf("panic: %v\n%s", e, st)}
			}
		}
	}()
	f(t)
	return
}

// Panics calls f and returns the panic it raised, if any. Failures raised by
// the harness itself pass through.
func Panics(f func()) (p interface{}, stack string) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case failure, skipped:
				panic(e)
			}
			p = e
			stack = string(debug.Stack())
			if len(stack) > 2500 {
				stack = stack[:2500]
			}
		}
	}()
	f()
	return nil, ""
}

func (t *T) hash() uint64 {
	h := uint64(14695981039346656037)
	for _, c := range t.rec {
		h = splitmix(h ^ c)
	}
	return h
}
