package main

import (
	"bytes"
	"fmt"
	"io"
	"strconv"

	"github.com/oov/psd"

	"verif/pbt"
	"verif/psdgen"
)

// gapped is a stream with a gap of zeros, which may be larger than memory.
type gapped struct {
	b       []byte
	at, gap int64 // the gap comes after b[:at]
	pos     int64
}

func (g *gapped) size() int64 { return int64(len(g.b)) + g.gap }

func (g *gapped) Read(p []byte) (int, error) {
	switch {
	case g.pos >= g.size():
		return 0, io.EOF
	case g.pos < g.at:
		n := copy(p, g.b[g.pos:g.at])
		g.pos += int64(n)
		return n, nil
	case g.pos < g.at+g.gap:
		if left := g.at + g.gap - g.pos; int64(len(p)) > left {
			p = p[:left]
		}
		for i := range p {
			p[i] = 0
		}
		g.pos += int64(len(p))
		return len(p), nil
	}
	n := copy(p, g.b[g.pos-g.gap:])
	g.pos += int64(n)
	return n, nil
}

// gapSeeker can skip the gap by Seek.
type gapSeeker struct{ *gapped }

func (g gapSeeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += g.pos
	case 2:
		off += g.size()
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	g.pos = off
	return off, nil
}

// gapDiscarder can skip the gap by Discard.
type gapDiscarder struct{ *gapped }

func (g gapDiscarder) Discard(n int) (int, error) {
	if n < 0 {
		return 0, fmt.Errorf("negative count")
	}
	if left := g.size() - g.pos; int64(n) > left {
		g.pos = g.size()
		return int(left), io.EOF
	}
	g.pos += int64(n)
	return n, nil
}

// c07huge puts a gap of up to 2^50 bytes into a part of the document that the
// decoder skips.
func c07huge(t *pbt.T) {
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: 6, MaxLayers: 3, Tree: true, Rich: t.Bool(50), Pixels: true, Place: true})
	e := d.Encode()
	type place struct {
		what string
		at   int           // where the gap begins
		lens []psdgen.Mark // the lengths that cover it
	}
	val := func(m psdgen.Mark) int { return int(psdgen.Get(e.B, m.Off, m.Len)) }
	end := func(m psdgen.Mark) int { return m.Off + m.Len + val(m) }
	var places []place
	var section, layers, extra psdgen.Mark
	var chs []psdgen.Mark // the lengths of the channels whose data comes next
	for _, m := range e.Marks {
		switch m.Name {
		case "section.len":
			section = m
		case "global.len":
			places = append(places, place{"the global mask information", end(m), []psdgen.Mark{section, m}})
		case "layerinfo.len":
			if layers, chs = m, nil; val(m) > 0 {
				places = append(places, place{"the end of the layer information", end(m), []psdgen.Mark{section, m}})
			}
		case "channel.len":
			if val(m) > 0 {
				chs = append(chs, m)
			}
		case "extra.len":
			extra = m
		case "ranges.len":
			places = append(places, place{"the blending ranges", end(m), []psdgen.Mark{section, layers, extra, m}})
		case "channel.comp":
			c := chs[0]
			chs = chs[1:]
			if val(c) == 2 {
				continue // a channel without data, more bytes would be its data
			}
			places = append(places, place{"the end of a channel", m.Off + val(c), []psdgen.Mark{section, layers, c}})
		}
	}
	if len(places) == 0 {
		t.Skip()
	}
	pl := places[t.N(len(places))]
	// the largest gap that the length fields hold
	max := uint64(1) << 50
	for _, m := range pl.lens {
		if left := 1<<32 - 1 - uint64(val(m)); m.Len == 4 && left < max {
			max = left
		}
	}
	if strconv.IntSize == 32 {
		if left := uint64(1<<31 - 1 - 100 - len(e.B)); left < max {
			max = left
		}
	}
	gap := max
	if t.Bool(85) {
		k := uint(16 + t.N(35))
		gap = uint64(1)<<k + t.U64(1<<k) - uint64(t.N(3))
		if gap > max {
			gap = max - t.U64(1<<24)
		}
	}
	b := append([]byte(nil), e.B...)
	for _, m := range pl.lens {
		psdgen.Put(b, m.Off, m.Len, uint64(val(m))+gap)
	}
	o := &psd.DecodeOptions{SkipLayerImage: t.Bool(30), SkipMergedImage: t.Bool(30)}
	want, _, err := outcome(bytes.NewReader(e.B), &psd.DecodeOptions{SkipLayerImage: o.SkipLayerImage, SkipMergedImage: o.SkipMergedImage})
	if err != nil {
		t.Fatalf("well-formed file rejected: %v", err)
	}
	g := &gapped{b: b, at: int64(pl.at), gap: int64(gap)}
	var r io.Reader
	name := ""
	switch k := t.N(3); {
	case k == 0 && gap < 1<<22:
		r, name = g, "plain reader"
	case k == 1:
		r, name = gapDiscarder{g}, "reader with Discard"
	default:
		r, name = gapSeeker{g}, "reader with Seek"
	}
	t.Descf("%s\n%d more bytes in %s, %s, SkipLayerImage %v SkipMergedImage %v", d.Summary(), gap, pl.what, name, o.SkipLayerImage, o.SkipMergedImage)
	t.Label("a gap in %s", pl.what)
	t.NonTrivial()
	if gap > 1<<32 {
		t.Label("more than 4 GiB")
	}
	got, n, err := outcome(r, o)
	if err != nil {
		t.Fatalf("well-formed document of %d bytes rejected: %v", g.size(), err)
	}
	if !bytes.Equal(got, want) {
		t.Fatalf("a document of %d bytes decodes to something else than without its gap: %s", g.size(), diffAt(got, want))
	}
	if int64(n) != g.pos {
		t.Fatalf("Decode reports %d bytes, took %d", n, g.pos)
	}
	zip := d.MergedComp == psdgen.ZIP || d.MergedComp == psdgen.ZIPPred
	stop := int64(e.End)
	if o.SkipMergedImage {
		stop = int64(e.LayerEnd)
	}
	if stop += int64(gap); g.pos != stop && (!zip || o.SkipMergedImage) {
		t.Fatalf("Decode took %d bytes of a document of %d", g.pos, stop)
	}
}
