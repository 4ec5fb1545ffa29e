package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/oov/psd"

	"verif/pbt"
	"verif/psdgen"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C07", Quick: 150000, Thorough: 900000, Run: c07,
		Rule:        "A model document followed by arbitrary trailing bytes (or by a second document) is decoded from a reader that counts what is taken; some documents are made up to 2^50 bytes long by a gap of zeros in a part that the decoder skips, which the reader makes up. Non-trivial: layers, resources or trailing bytes are present.",
		Assumptions: []string{"the encoder in /verif/harness/psdgen states the file format", "a merged image compressed by ZIP has no stored length, so the documented over-read is allowed there"}})
	pbt.Register(&pbt.Prop{ID: "C08", Quick: 50000, Thorough: 250000, Run: c08,
		Rule: "One byte stream (well-formed, truncated or mutated) is decoded through ten kinds of reader (short reads, data with EOF, empty reads, buffered, seekable, seekable in name only, file) and everything exposed is compared. Non-trivial: the stream is longer than its header.",
	})
	pbt.Register(&pbt.Prop{ID: "C09", Quick: 45000, Thorough: 300000, Run: c09,
		Rule: "A model document is decoded with every combination of options, with callbacks, with the debug log and through the image package, and the results are compared with those of a plain decode and with the model. Non-trivial: at least one layer.",
	})
	pbt.Register(&pbt.Prop{ID: "C10", Quick: 100000, Thorough: 2500000, Run: c10,
		Rule:        "A model document is damaged (fields set to extreme values, bytes flipped, parts removed, repeated, spliced or cut, unsupported mode and depth combinations, unexpected channel sets, malformed records) and decoded; every pixel and accessor of an accepted result is read. Non-trivial: at least one mutation was applied.",
		Assumptions: []string{"declared sizes that amount to a legal but memory-exhausting picture are not generated"}})
	pbt.Register(&pbt.Prop{ID: "C11", Quick: 80000, Thorough: 400000, Run: c11,
		Rule: "Strict prefixes of a model document, cut at field boundaries and inside fields, and streams that fail in the middle. Non-trivial: the prefix reaches past the signature.",
	})
	pbt.Register(&pbt.Prop{ID: "C12", Quick: 30000, Thorough: 160000, Run: c12,
		Rule: "One byte stream (well-formed, or with damaged row data) is decoded under several GOMAXPROCS values, by several goroutines at once, and by several that take turns a Read or a callback at a time in an order the case decides, and everything exposed is compared. Non-trivial: a picture of at least four rows compressed by PackBits.",
	})
}

func c07(t *pbt.T) {
	procs(t)
	if t.Bool(8) {
		c07huge(t)
		return
	}
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 10, MaxLayers: 3, Tree: true, Rich: t.Bool(50), Pixels: t.Bool(50), Place: true, Big: true})
	if t.Bool(70) {
		d.Trailing = t.Bytes(t.N(40))
		if t.Bool(30) {
			d.Trailing = append([]byte("8BPS8BIM"), d.Trailing...)
		}
	}
	o := d.Encode()
	t.Descf("%s\n%d bytes, %d trailing", d.Summary(), o.End, len(d.Trailing))
	labels(t, d)
	if len(d.Layers) > 0 || len(d.Res) > 0 || len(d.Trailing) > 0 {
		t.NonTrivial()
	}
	zip := d.MergedComp == psdgen.ZIP || d.MergedComp == psdgen.ZIPPred

	r := &countReader{b: o.B}
	_, n, err := psd.DecodeConfig(r)
	if err != nil {
		t.Fatalf("DecodeConfig: %v", err)
	}
	if n != r.n || n != o.ResEnd {
		t.Fatalf("DecodeConfig reports %d bytes, took %d, the header and resources are %d", n, r.n, o.ResEnd)
	}
	for _, skip := range []bool{false, true} {
		r = &countReader{b: o.B}
		_, n, err = psd.Decode(r, &psd.DecodeOptions{SkipLayerImage: skip})
		if err != nil {
			t.Fatalf("Decode: %v", err)
		}
		if n != r.n {
			t.Fatalf("Decode reports %d bytes, took %d (SkipLayerImage %v)", n, r.n, skip)
		}
		if !zip && n != o.End || n < o.MergedHead {
			t.Fatalf("Decode took %d bytes of a document of %d (SkipLayerImage %v)", n, o.End, skip)
		}
		r = &countReader{b: o.B}
		_, n, err = psd.Decode(r, &psd.DecodeOptions{SkipLayerImage: skip, SkipMergedImage: true})
		if err != nil {
			t.Fatalf("Decode without the merged image: %v", err)
		}
		if n != r.n || n != o.LayerEnd {
			t.Fatalf("Decode without the merged image reports %d bytes, took %d, the layer section ends at %d (SkipLayerImage %v)", n, r.n, o.LayerEnd, skip)
		}
	}
	if !zip && t.Bool(40) {
		t.Label("two documents in one stream")
		d2 := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 4, MaxLayers: 1, Pixels: true})
		b2 := d2.Encode().B
		s := bytes.NewReader(append(append([]byte(nil), o.B[:o.End]...), b2...))
		if _, _, err := psd.Decode(s, nil); err != nil {
			t.Fatalf("first document of the stream: %v", err)
		}
		p, _, err := psd.Decode(s, nil)
		if err != nil {
			t.Fatalf("second document of the stream: %v", err)
		}
		checkConfig(t, d2, &p.Config)
		checkMerged(t, d2, p)
	}
}

// ---- readers

type funcReader struct{ f func(p []byte) (int, error) }

func (r *funcReader) Read(p []byte) (int, error) { return r.f(p) }

type badSeeker struct{ io.Reader }

func (badSeeker) Seek(int64, int) (int64, error) { return 0, errors.New("illegal seek") }

func reader(t *pbt.T, kind int, b []byte, key uint64) (io.Reader, string, func()) {
	s := key
	rnd := func() uint64 {
		s = s*6364136223846793005 + 1442695040888963407
		return s >> 33
	}
	pos := 0
	plain := func(p []byte) (int, error) {
		if pos >= len(b) {
			return 0, io.EOF
		}
		n := copy(p, b[pos:])
		pos += n
		return n, nil
	}
	limit := func(p []byte, n int) (int, error) {
		if len(p) > n {
			p = p[:n]
		}
		return plain(p)
	}
	none := func() {}
	switch kind {
	case 0:
		return &funcReader{plain}, "plain reader", none
	case 1:
		return bytes.NewReader(b), "seekable reader", none
	case 2:
		return &funcReader{func(p []byte) (int, error) { return limit(p, 1) }}, "one byte at a time", none
	case 3:
		return &funcReader{func(p []byte) (int, error) { return limit(p, 1+int(rnd()%7)) }}, "random short reads", none
	case 4:
		return &funcReader{func(p []byte) (int, error) {
			n, err := plain(p)
			if pos >= len(b) {
				err = io.EOF
			}
			return n, err
		}}, "data together with EOF", none
	case 5:
		return &funcReader{func(p []byte) (int, error) {
			if rnd()%3 == 0 {
				return 0, nil
			}
			return limit(p, 1+int(rnd()%50))
		}}, "empty reads in between", none
	case 6:
		return bufio.NewReaderSize(&funcReader{func(p []byte) (int, error) { return limit(p, 1+int(rnd()%30)) }}, 16), "small bufio.Reader", none
	case 7:
		return bytes.NewBuffer(append([]byte(nil), b...)), "bytes.Buffer", none
	case 8:
		return badSeeker{&funcReader{plain}}, "a Seek method that fails", none
	default:
		f := filepath.Join(pbt.ScratchDir(), fmt.Sprintf("in-%d.psd", os.Getpid()))
		if err := os.WriteFile(f, b, 0o600); err != nil {
			t.Skip()
		}
		h, err := os.Open(f)
		if err != nil {
			t.Skip()
		}
		return h, "file", func() { h.Close() }
	}
}

// stream draws the bytes of a document, perhaps truncated or mutated.
func stream(t *pbt.T, o psdgen.Opts) (d *psdgen.Doc, b []byte, intact bool) {
	d = psdgen.GenDoc(t, o)
	e := d.Encode()
	t.Descf("%s", d.Summary())
	switch t.Weighted(5, 2, 3) {
	case 1:
		t.Label("truncated")
		b = e.B[:cut(t, e)]
		t.Descf("truncated to %d of %d bytes", len(b), len(e.B))
		return d, b, false
	case 2:
		t.Label("mutated")
		return d, psdgen.Mutate(t, d, e), false
	}
	return d, e.B, true
}

func outcome(r io.Reader, o *psd.DecodeOptions) (out []byte, n int, err error) {
	p, n, err := psd.Decode(r, o)
	if err != nil {
		return nil, n, err
	}
	return dump(p), n, nil
}

func c08(t *pbt.T) {
	o := psdgen.Opts{MaxDim: 8, MaxLayers: 3, Tree: true, Rich: true, Pixels: t.Bool(60), Place: true}
	d, b, intact := stream(t, o)
	skipL, skipM := t.Bool(25), t.Bool(25)
	opt := func() *psd.DecodeOptions { return &psd.DecodeOptions{SkipLayerImage: skipL, SkipMergedImage: skipM} }
	if len(b) > 30 {
		t.NonTrivial()
	}
	key := t.U64(1 << 32)
	zip := d.MergedComp == psdgen.ZIP || d.MergedComp == psdgen.ZIPPred
	debug := t.Bool(15)
	if debug {
		t.Descf("with a debug log")
		defer func() { psd.Debug = nil }()
	}
	var want []byte
	var wantN int
	var wantErr error
	for kind := 0; kind < 10; kind++ {
		r, name, done := reader(t, kind, b, key+uint64(kind))
		if debug && kind > 0 {
			psd.Debug = &sink{}
		}
		got, n, err := outcome(r, opt())
		done()
		if kind == 0 {
			want, wantN, wantErr = got, n, err
			if intact && err != nil {
				t.Fatalf("well-formed file rejected: %v", err)
			}
			continue
		}
		if (err == nil) != (wantErr == nil) {
			t.Fatalf("%s: error %v, plain reader: error %v", name, err, wantErr)
		}
		if !bytes.Equal(got, want) {
			t.Fatalf("%s: another result than with a plain reader: %s", name, diffAt(got, want))
		}
		if intact && (!zip || skipM) && n != wantN {
			t.Fatalf("%s: %d bytes read, plain reader: %d", name, n, wantN)
		}
	}
	t.Evals(9)
	if wantErr == nil {
		t.Label("accepted")
	} else {
		t.Label("rejected")
	}
}

type sink struct{ n int }

func (s *sink) Printf(f string, v ...interface{}) { s.n += len(fmt.Sprintf(f, v...)) }
func (s *sink) Println(v ...interface{})          { s.n += len(fmt.Sprintln(v...)) }

func c09(t *pbt.T) {
	procs(t)
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 8, MaxLayers: 4, Tree: true, Rich: t.Bool(50), Pixels: true, Place: true})
	b := d.Encode().B
	t.Descf("%s", d.Summary())
	labels(t, d)
	if len(d.Layers) > 0 {
		t.NonTrivial()
	}
	full, _ := decodeDoc(t, b, nil)
	if z, _ := decodeDoc(t, b, &psd.DecodeOptions{}); !bytes.Equal(dump(z), dump(full)) {
		t.Fatalf("empty options differ from no options: %s", diffAt(dump(z), dump(full)))
	}
	type loaded struct {
		idx, total int
		layer      *psd.Layer
		img        image.Image
		chans      int
	}
	for mask := 0; mask < 4; mask++ {
		skipL, skipM := mask&1 != 0, mask&2 != 0
		var cfgs []psd.Config
		var ls []loaded
		events := ""
		o := &psd.DecodeOptions{SkipLayerImage: skipL, SkipMergedImage: skipM,
			ConfigLoaded: func(c psd.Config) error { cfgs = append(cfgs, c); events += "c"; return nil },
			LayerImageLoaded: func(l *psd.Layer, i, n int) {
				ls = append(ls, loaded{i, n, l, l.Picker, len(l.Channel)})
				events += "l"
				touchImg(l.Picker)
			}}
		dbg := t.Bool(30)
		var sk sink
		if dbg {
			psd.Debug = &sk
		}
		p, _, err := psd.Decode(bytes.NewReader(b), o)
		psd.Debug = nil
		if err != nil {
			t.Fatalf("SkipLayerImage %v SkipMergedImage %v debug %v: %v", skipL, skipM, dbg, err)
		}
		if dbg && sk.n == 0 {
			t.Fatalf("nothing was written to the debug log")
		}
		// configuration
		if len(cfgs) != 1 {
			t.Fatalf("ConfigLoaded was called %d times", len(cfgs))
		}
		checkConfig(t, d, &cfgs[0])
		checkConfig(t, d, &p.Config)
		if events != "c"+strings.Repeat("l", len(ls)) {
			t.Fatalf("callbacks in the order %q", events)
		}
		// layers
		var x, y bytes.Buffer
		stripped := strip(p.Layer, skipL)
		dumpLayers(&x, stripped)
		dumpInfos(&x, p.AdditinalLayerInfo)
		dumpLayers(&y, strip(full.Layer, skipL))
		dumpInfos(&y, full.AdditinalLayerInfo)
		if !bytes.Equal(x.Bytes(), y.Bytes()) {
			t.Fatalf("SkipLayerImage %v SkipMergedImage %v: layers differ from a full decode: %s", skipL, skipM, diffAt(x.Bytes(), y.Bytes()))
		}
		if skipL {
			if len(ls) != 0 {
				t.Fatalf("LayerImageLoaded was called although layer images are skipped")
			}
			if s := withImage(p.Layer); s != "" {
				t.Fatalf("layer %s has image data although layer images are skipped", s)
			}
		} else {
			if len(ls) != len(d.Layers) {
				t.Fatalf("LayerImageLoaded was called %d times for %d layer records", len(ls), len(d.Layers))
			}
			got := map[int]*psd.Layer{}
			flatten(p.Layer, got)
			for i, e := range ls {
				if e.idx != i || e.total != len(d.Layers) || e.layer == nil || e.layer.SeqID != i {
					t.Fatalf("LayerImageLoaded call %d: index %d total %d, want %d and %d", i, e.idx, e.total, i, len(d.Layers))
				}
				if e.img == nil || e.chans != len(d.Layers[i].Channels) {
					t.Fatalf("LayerImageLoaded call %d: the layer is not loaded yet", i)
				}
				if d.Layers[i].DivType != 3 {
					checkMeta(t, i, e.layer, &d.Layers[i])
					checkLayerPixels(t, d, i, e.layer, &d.Layers[i])
				}
			}
		}
		// merged image
		if skipM {
			if p.Picker != nil || p.Data != nil || len(p.Channel) != 0 {
				t.Fatalf("merged image data although it is skipped")
			}
		} else {
			if p.Picker == nil || !bytes.Equal(p.Data, full.Data) || len(p.Channel) != len(full.Channel) {
				t.Fatalf("merged image differs from a full decode")
			}
			if !skipL || t.Bool(20) {
				checkMerged(t, d, p)
			}
		}
	}
	t.Evals(4)
	// an error of the callback stops the decoding
	boom := errors.New("boom")
	calls := 0
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{
		ConfigLoaded:     func(psd.Config) error { calls++; return boom },
		LayerImageLoaded: func(*psd.Layer, int, int) { t.Fatalf("a layer is loaded after ConfigLoaded failed") }})
	if !errors.Is(err, boom) || p != nil || calls != 1 {
		t.Fatalf("ConfigLoaded failed, Decode gives %v, %v after %d calls", p != nil, err, calls)
	}
	img, _, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		t.Fatalf("image.Decode: %v", err)
	}
	if img.Bounds() != full.Picker.Bounds() || img.ColorModel() == nil {
		t.Fatalf("image.Decode gives bounds %v, want %v", img.Bounds(), full.Picker.Bounds())
	}
	for y := 0; y < d.H; y++ {
		for x := 0; x < d.W; x++ {
			if !sameColor(img.At(x, y), full.Picker.At(x, y), 0) {
				t.Fatalf("image.Decode: pixel (%d,%d) is %v, want %v", x, y, img.At(x, y), full.Picker.At(x, y))
			}
		}
	}
}

// strip copies the layers, without image data if asked for.
func strip(ls []psd.Layer, noImage bool) []psd.Layer {
	out := append([]psd.Layer(nil), ls...)
	for i := range out {
		out[i].Layer = strip(out[i].Layer, noImage)
		if noImage {
			out[i].Channel, out[i].Picker = nil, nil
		}
	}
	return out
}

func withImage(ls []psd.Layer) string {
	for i := range ls {
		if ls[i].Picker != nil || len(ls[i].Channel) > 0 {
			return fmt.Sprintf("%q", ls[i].Name)
		}
		if s := withImage(ls[i].Layer); s != "" {
			return s
		}
	}
	return ""
}

// ---- damage

// c10hungry decodes a document in which one length is absurd. What it allocates must not follow that length.
func c10hungry(t *pbt.T) {
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 10, MaxLayers: 3, Tree: true, Rich: true, Pixels: true, Place: true, Big: true})
	e := d.Encode()
	b := append([]byte(nil), e.B...)
	var ms []psdgen.Mark
	for i, m := range e.Marks {
		switch m.Name {
		case "modedata.len", "res.len", "res.datalen", "section.len", "layerinfo.len", "layercount", "channel.len", "extra.len", "mask.len", "ranges.len", "info.len", "global.len":
			ms = append(ms, m)
		case "info.data", "res.data": // some begin with a length
			if m.Len >= 4 {
				m.Len = 4
				ms = append(ms, m)
			}
		case "channel.data", "merged.data": // the first entry of the row table
			n := 2
			if d.Large() {
				n = 4
			}
			if c := e.Marks[i-1]; m.Len >= n && psdgen.Get(b, c.Off, 2) == psdgen.RLE {
				m.Len = n
				ms = append(ms, m)
			}
		}
	}
	m := ms[t.N(len(ms))]
	v := pbt.Pick(t, uint64(0x7fffffff), 0x10000000, 0x40000000, 0x7ffffff0, 0x80000000, 0xffffffff, 0xfffffff0)
	if m.Len == 8 {
		v = pbt.Pick(t, v, 1<<32, 1<<33+5, 1<<36)
	}
	if m.Len == 2 {
		v = pbt.Pick(t, uint64(0x7fff), 0x8000, 0xffff, 0x8001)
	}
	psdgen.Put(b, m.Off, m.Len, v)
	t.Descf("%s\n%s at %d set to %#x", d.Summary(), m.Name, m.Off, v)
	t.Label("an absurd length")
	t.NonTrivial()
	r, _, done := reader(t, t.N(10), b, t.U64(1<<32))
	defer done()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	_, _, err := psd.Decode(r, nil)
	runtime.ReadMemStats(&after)
	if n, limit := after.TotalAlloc-before.TotalAlloc, uint64(len(b))*100+100<<20; n > limit {
		t.Fatalf("decoding %d bytes, one length of which is %#x, allocates %d bytes (and returns the error %v)", len(b), v, n, err)
	}
}

// repeat delivers n copies of b after head.
type repeat struct {
	head, b []byte
	n       int
}

func (r *repeat) Read(p []byte) (int, error) {
	if len(r.head) == 0 {
		if r.n == 0 {
			return 0, io.EOF
		}
		r.n--
		r.head = r.b
	}
	n := copy(p, r.head)
	r.head = r.head[n:]
	return n, nil
}

// c10nested decodes a document whose layers hold layers, which hold layers,
// and so on.  The decoder must not use more than 32 MiB of stack for that.
func c10nested(t *pbt.T) {
	defer debug.SetMaxStack(debug.SetMaxStack(32 << 20))
	large := t.Bool(30)
	ln := func(n int) string {
		s := string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
		if large {
			return "\x00\x00\x00\x00" + s
		}
		return s
	}
	key := "8BIM" + pbt.Pick(t, "Layr", "Lr16", "Lr32")
	var front string
	for k := t.Weighted(4, 1, 1); k > 0; k-- {
		front += "8BIMabcd\x00\x00\x00\x02ok"
	}
	layer := ln(0x7fffff00) + "\x00\x01" + strings.Repeat("\x00", 16) + "\x00\x00" + "8BIMnorm\xff\x00\x00\x00" +
		"\x7f\xff\xff\x00" + strings.Repeat("\x00", 12) + front + key
	head := "8BPS\x00\x01\x00\x00\x00\x00\x00\x00\x00\x03\x00\x00\x00\x01\x00\x00\x00\x01\x00\x08\x00\x03\x00\x00\x00\x00\x00\x00\x00\x00"
	if large {
		head = head[:5] + "\x02" + head[6:]
	}
	head += ln(0x7fffffe0)
	if t.Bool(40) { // in the additional information of the document
		head += ln(0) + "\x00\x00\x00\x00" + key
	}
	n := pbt.Pick(t, 1, 3, 200000, 400000)
	t.Descf("layers within layers (%q), %d deep", key, n)
	t.Label("layers within layers")
	t.NonTrivial()
	r := &repeat{head: []byte(head), b: []byte(layer), n: n}
	p, _, err := psd.Decode(r, &psd.DecodeOptions{SkipLayerImage: t.Bool(30)})
	if err == nil || p != nil {
		t.Fatalf("a document that ends within a layer is accepted")
	}
}

func c10(t *pbt.T) {
	procs(t)
	if t.Bool(15) {
		c10hungry(t)
		return
	}
	if t.N(600) == 599 {
		c10nested(t)
		return
	}
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 10, MaxLayers: 3, Tree: true, Rich: true, Pixels: t.Bool(70), Place: true})
	if t.Bool(50) {
		for k := 1 + t.N(2); k > 0; k-- {
			psdgen.Deform(t, d)
		}
	}
	if len(d.Layers) > 0 && t.Bool(15) && d.Depth != 1 {
		d.Mode = pbt.Pick(t, psdgen.Lab, psdgen.Duotone, psdgen.Multichannel, psdgen.Indexed, psdgen.Bitmap)
	}
	e := d.Encode()
	b := e.B
	if t.Bool(60) {
		t.Label("mutated")
		b = psdgen.Mutate(t, d, e)
	}
	t.Descf("%s", d.Summary())
	t.NonTrivial()
	o := &psd.DecodeOptions{SkipLayerImage: t.Bool(10), SkipMergedImage: t.Bool(10)}
	if t.Bool(20) {
		o.LayerImageLoaded = func(l *psd.Layer, i, n int) { touchImg(l.Picker) }
	}
	if t.Bool(15) {
		psd.Debug = &sink{}
	}
	kind := t.N(10)
	r, _, done := reader(t, kind, b, t.U64(1<<32))
	p, _, err := psd.Decode(r, o)
	done()
	psd.Debug = nil
	if err != nil {
		t.Label("rejected")
		if p != nil {
			t.Fatalf("a document together with the error %v", err)
		}
		if err.Error() == "" {
			t.Fatalf("an error without a text")
		}
	} else {
		t.Label("accepted")
		touch(p)
		dump(p)
		checkShape(t, p, o)
	}
	if t.Bool(20) {
		image.Decode(bytes.NewReader(b))
		image.DecodeConfig(bytes.NewReader(b))
	}
}

// checkShape verifies what an accepted document must satisfy whatever the
// bytes were.
func checkShape(t *pbt.T, p *psd.PSD, o *psd.DecodeOptions) {
	c := p.Config
	plane := (c.Rect.Dx()*c.Depth + 7) / 8 * c.Rect.Dy()
	if !o.SkipMergedImage {
		if p.Picker == nil || p.Picker.Bounds() != c.Rect || len(p.Channel) != c.Channels || len(p.Data) != plane*c.Channels {
			t.Fatalf("accepted document without a complete merged image")
		}
	}
	var walk func(ls []psd.Layer)
	walk = func(ls []psd.Layer) {
		for i := range ls {
			l := &ls[i]
			if !o.SkipLayerImage {
				if l.Picker == nil || l.Picker.Bounds() != l.Rect {
					t.Fatalf("layer %d has no picture of its size", l.SeqID)
				}
				for id, ch := range l.Channel {
					r := l.Rect
					if id == -2 {
						r = l.Mask.Rect
					} else if id == -3 {
						r = l.Mask.RealRect
					}
					if len(ch.Data) != (r.Dx()*c.Depth+7)/8*r.Dy() || ch.Picker == nil || ch.Picker.Bounds() != r {
						t.Fatalf("layer %d channel %d has %d bytes and bounds other than %v", l.SeqID, id, len(ch.Data), r)
					}
				}
			}
			if !l.Folder() && len(l.Layer) > 0 {
				t.Fatalf("layer %d is not a folder but has children", l.SeqID)
			}
			walk(l.Layer)
		}
	}
	walk(p.Layer)
}

// ---- truncation

func cut(t *pbt.T, e *psdgen.Out) int {
	end := e.End
	switch t.N(3) {
	case 0:
		return t.N(end)
	case 1:
		m := e.Marks[t.N(len(e.Marks))]
		c := m.Off + t.N(m.Len+1)
		if c >= end {
			c = end - 1
		}
		return c
	default:
		return end - 1 - t.N(pmin(end, 12))
	}
}

func pmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func decodeAgain(b []byte, o *psd.DecodeOptions) ([]byte, error) {
	out, _, err := outcome(bytes.NewReader(b), &psd.DecodeOptions{SkipLayerImage: o.SkipLayerImage, SkipMergedImage: o.SkipMergedImage})
	return out, err
}

func c11(t *pbt.T) {
	procs(t)
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 9, MaxLayers: 3, Tree: true, Rich: true, Pixels: t.Bool(60), Place: true})
	e := d.Encode()
	t.Descf("%s\n%d bytes, resources end at %d, layers at %d", d.Summary(), e.End, e.ResEnd, e.LayerEnd)
	zip := d.MergedComp == psdgen.ZIP || d.MergedComp == psdgen.ZIPPred
	boom := errors.New("boom")
	for k := 0; k < 6; k++ {
		at := cut(t, e)
		if at > 4 {
			t.NonTrivial()
		}
		t.Evals(1)
		where := "merged image"
		switch {
		case at < e.HeaderEnd:
			where = "header"
		case at < e.ResEnd:
			where = "resources"
		case at < e.LayerEnd:
			where = "layers"
		}
		t.Label("cut in the %s", where)
		b := e.B[:at:at]
		kind := t.N(10)
		var r io.Reader
		done := func() {}
		name := "failing reader"
		fails := false
		switch once := t.Bool(25); {
		case once:
			// one read fails, and the reader goes on after it: nothing but the error tells
			name = "reader that fails once"
			fails = true
			pos, failed := 0, false
			with := t.Bool(30) // the error comes with the last bytes
			r = &funcReader{func(p []byte) (int, error) {
				if pos >= at && !failed && len(p) > 0 {
					failed = true
					return 0, boom
				}
				if !failed && len(p) > at-pos {
					p = p[:at-pos]
				}
				n := copy(p, e.B[pos:])
				pos += n
				if n == 0 && len(p) > 0 {
					return 0, io.EOF
				}
				if with && !failed && pos == at {
					failed = true
					return n, boom
				}
				return n, nil
			}}
		case t.Bool(25):
			fails = true
			pr := &countReader{b: b}
			r = &funcReader{func(p []byte) (int, error) {
				n, err := pr.Read(p)
				if err == io.EOF {
					err = boom
				}
				return n, err
			}}
		default:
			r, name, done = reader(t, kind, b, t.U64(1<<32))
		}
		once := name == "reader that fails once"
		o := &psd.DecodeOptions{SkipLayerImage: t.Bool(40), SkipMergedImage: t.Bool(30)}
		loaded := -1
		o.LayerImageLoaded = func(_ *psd.Layer, i, _ int) { loaded = i }
		t.Descf("cut at %d (%s), %s, SkipLayerImage %v SkipMergedImage %v", at, where, name, o.SkipLayerImage, o.SkipMergedImage)
		p, _, err := psd.Decode(r, o)
		done()
		_ = loaded
		need := e.End
		if o.SkipMergedImage {
			need = e.LayerEnd
		}
		switch {
		case at >= need:
			if err != nil {
				t.Fatalf("all that is needed (%d of %d bytes) is there, but: %v", need, at, err)
			}
		case fails && err != nil && !errors.Is(err, boom):
			t.Fatalf("the reader fails with %q, but the decoder with %q", boom, err)
		case once && err == nil:
			// the failure may come with all of the bytes that were asked for, or in bytes that are not needed
			t.Label("fails once, without a consequence")
			want, err := decodeAgain(e.B, o)
			if err != nil || !bytes.Equal(dump(p), want) {
				t.Fatalf("a failing read at %d of %d bytes (%s) is not reported, and the document is not the right one", at, e.End, where)
			}
		case err == nil && zip && !o.SkipMergedImage && at > e.MergedHead:
			// the end of the compressed stream holds no picture data
			if !bytes.Equal(p.Data, bytes.Join(d.Planes, nil)) {
				t.Fatalf("a truncated file is accepted with other data")
			}
			t.Label("cut after the picture data")
			continue
		case err == nil:
			t.Fatalf("a file cut at %d of %d bytes (%s) is accepted", at, e.End, where)
		case p != nil:
			t.Fatalf("a document together with the error %v", err)
		}
		if t.Bool(20) && at < e.End && (!zip || at <= e.MergedHead) {
			if m, _, err := image.Decode(bytes.NewReader(b)); err == nil {
				t.Fatalf("image.Decode accepts a file cut at %d of %d bytes (%s)", at, e.End, where)
			} else if m != nil {
				t.Fatalf("image.Decode returns a picture together with the error %v", err)
			}
		}
		if at < e.ResEnd {
			if _, _, err := psd.DecodeConfig(bytes.NewReader(b)); err == nil {
				t.Fatalf("DecodeConfig accepts a file cut at %d in the %s", at, where)
			}
			if _, _, err := image.DecodeConfig(bytes.NewReader(b)); err == nil {
				t.Fatalf("image.DecodeConfig accepts a file cut at %d in the %s", at, where)
			}
		}
	}
}

// ---- concurrency

func c12(t *pbt.T) {
	o := psdgen.Opts{MaxDim: 40, MaxLayers: 2, Pixels: true, Place: true, Tree: t.Bool(20)}
	d, b, intact := stream(t, o)
	labels(t, d)
	if !intact {
		t.Label("not intact")
	}
	if d.MergedComp == psdgen.RLE && d.H >= 4 {
		t.NonTrivial()
	}
	for i := range d.Layers {
		for _, c := range d.Layers[i].Channels {
			if c.Comp == psdgen.RLE && c.Rect.Dy() >= 4 {
				t.NonTrivial()
			}
		}
	}
	runtime.GOMAXPROCS(1)
	want, _, wantErr := outcome(bytes.NewReader(b), nil)
	if intact && wantErr != nil {
		t.Fatalf("well-formed file rejected: %v", wantErr)
	}
	same := func(what string, got []byte, err error, want []byte, wantErr error) string {
		if (err == nil) != (wantErr == nil) {
			return fmt.Sprintf("%s: error %v, with GOMAXPROCS 1: %v", what, err, wantErr)
		}
		if !bytes.Equal(got, want) {
			return fmt.Sprintf("%s: another result than with GOMAXPROCS 1: %s", what, diffAt(got, want))
		}
		return ""
	}
	chk := func(what string, got []byte, err error) string { return same(what, got, err, want, wantErr) }
	for _, n := range []int{2, 3, 4, 5, 7, 8} {
		runtime.GOMAXPROCS(n)
		got, _, err := outcome(bytes.NewReader(b), nil)
		if s := chk(fmt.Sprintf("GOMAXPROCS %d", n), got, err); s != "" {
			t.Fatalf("%s", s)
		}
	}
	t.Evals(6)
	var twins [][]byte // intact documents that differ from d in few respects
	if intact && t.Bool(35) {
		twins = c12twins(t, d, b)
	}
	other := func() []byte {
		if len(twins) > 0 && t.Bool(60) {
			return twins[t.N(len(twins))]
		}
		_, b2, _ := stream(t, o)
		return b2
	}
	if t.Bool(25) {
		takeTurns(t, other, b, want, wantErr)
	}
	if t.Bool(40) {
		// decodes at the same time, of this document and often of others
		files := [][]byte{b}
		wants := [][]byte{want}
		wantErrs := []error{wantErr}
		for k := t.N(3); k > 0; k-- {
			b2 := other()
			w2, _, err2 := outcome(bytes.NewReader(b2), nil)
			files, wants, wantErrs = append(files, b2), append(wants, w2), append(wantErrs, err2)
			t.Label("different documents at the same time")
		}
		procs(t)
		g := 2 + t.N(5)
		rounds := 1 + t.N(6)
		msgs := make([]string, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for k := 0; k < rounds && msgs[i] == ""; k++ {
					j := (i + k) % len(files)
					got, _, err := outcome(bytes.NewReader(files[j]), nil)
					msgs[i] = same(fmt.Sprintf("one of %d concurrent decodes of %d documents", g, len(files)), got, err, wants[j], wantErrs[j])
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, m := range msgs {
			if m != "" {
				t.Fatalf("%s", m)
			}
		}
		t.Evals(g * rounds)
	}
}

// c12twins decodes d and documents that differ from it in few respects in one
// process, one after the other, and compares each with what it says.
func c12twins(t *pbt.T, d *psdgen.Doc, b []byte) (twins [][]byte) {
	t.Label("similar documents one after the other")
	docs := []*psdgen.Doc{d}
	files := [][]byte{b}
	for n := 1 + t.N(2); n > 0; n-- {
		e := psdgen.Twin(t, d)
		docs, files = append(docs, e), append(files, e.Encode().B)
	}
	for n := len(docs) + t.N(4); n > 0; n-- {
		k := t.N(len(docs))
		if n <= len(docs) {
			k = n - 1
		}
		p, _ := decodeDoc(t, files[k], nil)
		checkAll(t, docs[k], p)
		t.Evals(1)
	}
	return files[1:]
}

// checkAll compares a decoded document with everything the model says.
func checkAll(t *pbt.T, d *psdgen.Doc, p *psd.PSD) {
	checkConfig(t, d, &p.Config)
	got := map[int]*psd.Layer{}
	flatten(p.Layer, got)
	for i := range d.Layers {
		if d.Layers[i].DivType == 3 {
			continue
		}
		l, ok := got[i]
		if !ok {
			t.Fatalf("layer record %d is missing", i)
		}
		checkMeta(t, i, l, &d.Layers[i])
		checkLayerPixels(t, d, i, l, &d.Layers[i])
	}
	checkMerged(t, d, p)
}

// turns lets several decodes run one after the other, a Read or a callback at
// a time.  They report on ev (what they are, and whether they have ended) and
// go on when they may.
type turns struct {
	i   int
	ev  chan turnEvent
	run chan int // the number of bytes the next Read may return
}

type turnEvent struct {
	i   int
	end bool
}

type turnReader struct {
	*turns
	r io.Reader
}

func (tr turnReader) Read(p []byte) (int, error) {
	n := tr.pause()
	if n > 0 && n < len(p) {
		p = p[:n]
	}
	return tr.r.Read(p)
}

func (tu *turns) pause() int {
	tu.ev <- turnEvent{tu.i, false}
	return <-tu.run
}

// takeTurns decodes documents at the same time in an order of steps that the
// case decides.  The results are looked at when all of them are there.
func takeTurns(t *pbt.T, other func() []byte, b, want []byte, wantErr error) {
	type job struct {
		*turns
		b, want []byte
		wantErr error
		p       *psd.PSD
		err     error
		panics  interface{}
	}
	t.Label("decodes that take turns")
	n := 2 + t.N(2)
	jobs := make([]*job, n)
	ev := make(chan turnEvent)
	for i := range jobs {
		j := &job{turns: &turns{i, ev, make(chan int)}, b: b, want: want, wantErr: wantErr}
		if i > 0 && t.Bool(60) {
			j.b = other()
			j.want, _, j.wantErr = outcome(bytes.NewReader(j.b), nil)
		}
		jobs[i] = j
	}
	live := make([]int, 0, n)
	for i, j := range jobs {
		go func(j *job) {
			defer func() {
				j.panics = recover()
				ev <- turnEvent{j.i, true}
			}()
			j.pause()
			j.p, _, j.err = psd.Decode(turnReader{j.turns, bytes.NewReader(j.b)}, &psd.DecodeOptions{
				ConfigLoaded:     func(psd.Config) error { j.pause(); return nil },
				LayerImageLoaded: func(*psd.Layer, int, int) { j.pause() },
			})
		}(j)
		<-ev
		live = append(live, i)
	}
	steps := 0
	for len(live) > 0 {
		k := t.N(len(live))
		burst := pbt.Pick(t, 1, 1, 2, 5, 30, 1000)
		for ; burst > 0; burst-- {
			size := 0
			if steps < 400 && t.Bool(20) {
				size = 1 + t.N(3)
			}
			steps++
			jobs[live[k]].run <- size
			if e := <-ev; e.end {
				live = append(live[:k:k], live[k+1:]...)
				break
			}
		}
	}
	for i, j := range jobs {
		if j.panics != nil {
			t.Fatalf("decode %d of %d that take turns panics: %v", i, n, j.panics)
		}
		if (j.err == nil) != (j.wantErr == nil) {
			t.Fatalf("decode %d of %d that take turns: error %v, alone: %v", i, n, j.err, j.wantErr)
		}
		if j.err != nil {
			continue
		}
		if got := dump(j.p); !bytes.Equal(got, j.want) {
			t.Fatalf("decode %d of %d that take turns: another result than alone: %s", i, n, diffAt(got, j.want))
		}
	}
	t.Evals(n)
}
