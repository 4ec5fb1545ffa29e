// Package psdgen is a reference model of the PSD/PSB file format, written
// from Adobe's description of it: a model document, a generator of model
// documents and an encoder. It knows nothing about the decoder under test.
package psdgen

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"encoding/binary"
	"math"
	"unicode/utf16"

	"verif/pbt"
)

// Colour modes.
const (
	Bitmap       = 0
	Gray         = 1
	Indexed      = 2
	RGB          = 3
	CMYK         = 4
	Multichannel = 7
	Duotone      = 8
	Lab          = 9
)

// Compression methods.
const (
	Raw     = 0
	RLE     = 1
	ZIP     = 2
	ZIPPred = 3
)

// Rect is a rectangle, Top/Left inclusive, Bottom/Right exclusive.
type Rect struct{ Top, Left, Bottom, Right int }

func (r Rect) Dx() int { return r.Right - r.Left }
func (r Rect) Dy() int { return r.Bottom - r.Top }

// Res is one image resource.
type Res struct {
	Sig  string
	ID   int
	Name []byte
	Data []byte
}

// Info is one additional layer information block.
type Info struct {
	Sig, Key string
	Data     []byte
	Pad      int
}

// Mask is the layer mask record.
type Mask struct {
	Short     int // when > 0: a record of this many bytes (<16) without content
	Rect      Rect
	Default   byte
	Flags     byte
	Params    bool // mask parameters present (flag bit 4)
	ParamBits byte
	UserDens  byte
	UserFeath float64
	VecDens   byte
	VecFeath  float64
	Real      bool
	RealFlags byte
	RealBg    byte
	RealRect  Rect
	Tail      []byte // extra bytes after the last known field
	// Raw, when set, is the record as it is written; the other fields then
	// say what its complete fields mean.
	Raw []byte
	// NoDens: the record ends before the parameters' defaults apply.
	NoDens bool
}

// Channel is one channel of a layer.
type Channel struct {
	ID    int
	Plane []byte // uncompressed, rows of (dx*depth+7)/8 bytes
	Comp  int
	Enc   []byte // encoded data, without the compression word
	Slack []byte // bytes after the encoded data inside the channel's length
	Rect  Rect
	None  bool // not even the compression word: a length of 0
}

// Layer is one layer record.
type Layer struct {
	Rect     Rect
	Channels []Channel
	Blend    string
	Opacity  byte
	Clipping byte
	Flags    byte
	NoExtra  bool
	Mask     *Mask
	Ranges   []byte
	Name     []byte
	Infos    []Info
	// what the infos mean
	HasUni      bool
	Uni         string
	HasClbl     bool
	Clbl        bool
	DivType     int
	DivBlend    string
	DivSub      int
	HasDivBlend bool
}

// Channel returns the channel with the given ID.
func (l *Layer) Channel(id int) *Channel {
	for i := range l.Channels {
		if l.Channels[i].ID == id {
			return &l.Channels[i]
		}
	}
	return nil
}

// Doc is a document.
type Doc struct {
	Version  int
	Channels int
	H, W     int
	Depth    int
	Mode     int
	ModeData []byte
	Res      []Res

	NoLayerSection bool
	Layers         []Layer // in file order: bottom to top
	NegCount       bool
	EmptyInfo      bool   // layer info length 0 (no layers)
	Place          string // "", "Lr16", "Lr32", "Layr"
	Again          string // where the layers are once more: "", "Lr16", "Lr32", "Layr"
	InfoSlack      int    // bytes between the last channel and the end of layer info
	HasGlobal      bool
	Global         []byte
	Infos          []Info
	SectionSlack   int // zero bytes at the end of the layer and mask section

	Planes     [][]byte
	MergedComp int
	MergedEnc  []byte
	Trailing   []byte
}

func (d *Doc) Large() bool { return d.Version == 2 }

// RowBytes is the length of one row of dx pixels.
func RowBytes(dx, depth int) int { return (dx*depth + 7) / 8 }

// ModeChannels is the number of colour channels.
func ModeChannels(mode int) int {
	switch mode {
	case Bitmap, Gray, Indexed, Duotone:
		return 1
	case RGB, Lab:
		return 3
	case CMYK:
		return 4
	}
	return 1
}

// Mark names a range of the encoded file.
type Mark struct {
	Name     string
	Off, Len int
}

// Out is an encoded file with its marks.
type Out struct {
	B     []byte
	Marks []Mark
	stack []Mark
	// Sections: offsets at which the parts end.
	HeaderEnd, ResEnd, LayerEnd, MergedHead, End int
}

func (o *Out) mark(name string, n int) { o.Marks = append(o.Marks, Mark{name, len(o.B), n}) }
func (o *Out) bytes(name string, b []byte) {
	if name != "" {
		o.mark(name, len(b))
	}
	o.B = append(o.B, b...)
}
func (o *Out) u8(name string, v byte) { o.mark(name, 1); o.B = append(o.B, v) }
func (o *Out) u16(name string, v int) {
	o.mark(name, 2)
	o.B = binary.BigEndian.AppendUint16(o.B, uint16(v))
}
func (o *Out) u32(name string, v int) {
	o.mark(name, 4)
	o.B = binary.BigEndian.AppendUint32(o.B, uint32(v))
}
func (o *Out) size(name string, large bool, v int) {
	if large {
		o.mark(name, 8)
		o.B = binary.BigEndian.AppendUint64(o.B, uint64(v))
	} else {
		o.u32(name, v)
	}
}

// block writes a length field of n bytes followed by what f writes.
func (o *Out) block(name string, n int, f func()) {
	at := len(o.B)
	o.mark(name, n)
	o.B = append(o.B, make([]byte, n)...)
	f()
	l := len(o.B) - at - n
	if n == 8 {
		binary.BigEndian.PutUint64(o.B[at:], uint64(l))
	} else {
		binary.BigEndian.PutUint32(o.B[at:], uint32(l))
	}
}

func (o *Out) pascal(name string, b []byte, align int) {
	o.mark(name, len(b)+1)
	at := len(o.B)
	o.B = append(o.B, byte(len(b)))
	o.B = append(o.B, b...)
	for (len(o.B)-at)%align != 0 {
		o.B = append(o.B, 0)
	}
}

func (o *Out) rect(name string, r Rect) {
	o.u32(name+".top", r.Top)
	o.u32(name+".left", r.Left)
	o.u32(name+".bottom", r.Bottom)
	o.u32(name+".right", r.Right)
}

var long8 = map[string]bool{"LMsk": true, "Lr16": true, "Lr32": true, "Layr": true, "Mt16": true, "Mt32": true,
	"Mtrn": true, "Alph": true, "FMsk": true, "lnk2": true, "FEid": true, "FXid": true, "PxSD": true}

// LenSize is the width of the length field of an additional info block.
func LenSize(key string, large bool) int {
	if large && long8[key] {
		return 8
	}
	return 4
}

func (o *Out) infos(is []Info, large bool) {
	for _, in := range is {
		o.bytes("info.sig", []byte(in.Sig))
		o.bytes("info.key", []byte(in.Key))
		o.block("info.len", LenSize(in.Key, large), func() { o.bytes("info.data", in.Data) })
		o.B = append(o.B, make([]byte, in.Pad)...)
	}
}

// Encode writes the document.
func (d *Doc) Encode() *Out {
	o := &Out{}
	large := d.Large()
	sz := 4
	if large {
		sz = 8
	}
	o.bytes("sig", []byte("8BPS"))
	o.u16("version", d.Version)
	o.bytes("reserved", make([]byte, 6))
	o.u16("channels", d.Channels)
	o.u32("height", d.H)
	o.u32("width", d.W)
	o.u16("depth", d.Depth)
	o.u16("mode", d.Mode)
	o.block("modedata.len", 4, func() { o.bytes("modedata", d.ModeData) })
	o.HeaderEnd = len(o.B)
	o.block("res.len", 4, func() {
		for _, r := range d.Res {
			o.bytes("res.sig", []byte(r.Sig))
			o.u16("res.id", r.ID)
			o.pascal("res.name", r.Name, 2)
			o.block("res.datalen", 4, func() { o.bytes("res.data", r.Data) })
			if len(r.Data)%2 != 0 {
				o.B = append(o.B, 0)
			}
		}
	})
	o.ResEnd = len(o.B)
	if d.NoLayerSection {
		o.size("section.len", large, 0)
	} else {
		o.block("section.len", sz, func() {
			if d.Place != "" || d.EmptyInfo {
				o.size("layerinfo.len", large, 0)
			} else {
				d.encodeLayers(o, sz)
			}
			if d.HasGlobal || d.Place != "" || d.Again != "" || len(d.Infos) > 0 {
				o.block("global.len", 4, func() { o.bytes("global", d.Global) })
			}
			if d.Place != "" {
				half := len(d.Infos) / 2
				o.infos(d.Infos[:half], large)
				o.bytes("info.sig", []byte("8BIM"))
				o.bytes("info.key", []byte(d.Place))
				d.encodeLayers(o, sz)
				o.infos(d.Infos[half:], large)
			} else {
				o.infos(d.Infos, large)
			}
			if d.Again != "" {
				o.bytes("info.sig", []byte("8BIM"))
				o.bytes("info.key", []byte(d.Again))
				d.encodeLayers(o, sz)
			}
			o.B = append(o.B, make([]byte, d.SectionSlack)...)
		})
	}
	o.LayerEnd = len(o.B)
	o.u16("merged.comp", d.MergedComp)
	o.MergedHead = len(o.B)
	o.bytes("merged.data", d.MergedEnc)
	o.End = len(o.B)
	o.B = append(o.B, d.Trailing...)
	return o
}

func (d *Doc) encodeLayers(o *Out, sz int) {
	large := d.Large()
	o.block("layerinfo.len", sz, func() {
		n := len(d.Layers)
		if d.NegCount {
			n = -n
		}
		o.u16("layercount", n)
		for i := range d.Layers {
			l := &d.Layers[i]
			o.rect("layer.rect", l.Rect)
			o.u16("layer.channels", len(l.Channels))
			for _, c := range l.Channels {
				o.u16("channel.id", c.ID)
				if c.None {
					o.size("channel.len", large, 0)
					continue
				}
				o.size("channel.len", large, 2+len(c.Enc)+len(c.Slack))
			}
			o.bytes("layer.sig", []byte("8BIM"))
			o.bytes("layer.blend", []byte(l.Blend))
			o.u8("layer.opacity", l.Opacity)
			o.u8("layer.clipping", l.Clipping)
			o.u8("layer.flags", l.Flags)
			o.u8("layer.filler", 0)
			if l.NoExtra {
				o.u32("extra.len", 0)
				continue
			}
			o.block("extra.len", 4, func() {
				if l.Mask == nil {
					o.u32("mask.len", 0)
				} else {
					o.block("mask.len", 4, func() { l.Mask.encode(o) })
				}
				o.block("ranges.len", 4, func() { o.bytes("ranges", l.Ranges) })
				o.pascal("layer.name", l.Name, 4)
				o.infos(l.Infos, large)
			})
		}
		for i := range d.Layers {
			for _, c := range d.Layers[i].Channels {
				if c.None {
					continue
				}
				o.u16("channel.comp", c.Comp)
				o.bytes("channel.data", c.Enc)
				o.B = append(o.B, c.Slack...)
			}
		}
		o.B = append(o.B, make([]byte, d.InfoSlack)...)
	})
}

// Cut turns the record into its first n bytes (n >= 16): the fields that do
// not fit are absent, and nothing follows a feather that does not fit.
func (m *Mask) Cut(n int) {
	o := &Out{}
	m.encode(o)
	if n > len(o.B) {
		n = len(o.B)
	}
	m.Raw = o.B[:n:n]
	at := 16
	take := func(k int) bool {
		if at+k > n {
			at = n + 1
			return false
		}
		at += k
		return true
	}
	if !take(1) {
		m.Default = 0
	}
	if !take(1) {
		m.Flags, m.NoDens = 0, true
	}
	if m.Params {
		bits := m.ParamBits
		if !take(1) {
			m.ParamBits = 0
		}
		for i, k := range []int{1, 8, 1, 8} {
			if bits&(1<<uint(i)) != 0 && !take(k) {
				m.ParamBits &^= 1 << uint(i)
			}
		}
	}
	if n == 20 {
		at = n + 1 // two bytes of padding
	}
	m.Real = true // all of its fields are zero when they are absent
	if !take(1) {
		m.RealFlags = 0
	}
	if !take(1) {
		m.RealBg = 0
	}
	if !take(16) {
		m.RealRect = Rect{}
	}
}

func (m *Mask) encode(o *Out) {
	if m.Short > 0 {
		o.bytes("mask.short", make([]byte, m.Short))
		return
	}
	if m.Raw != nil {
		o.bytes("mask.raw", m.Raw)
		return
	}
	at := len(o.B)
	o.rect("mask.rect", m.Rect)
	o.u8("mask.default", m.Default)
	o.u8("mask.flags", m.Flags)
	if m.Params {
		o.u8("mask.parambits", m.ParamBits)
		if m.ParamBits&1 != 0 {
			o.u8("mask.userdens", m.UserDens)
		}
		if m.ParamBits&2 != 0 {
			o.mark("mask.userfeather", 8)
			o.B = binary.BigEndian.AppendUint64(o.B, math.Float64bits(m.UserFeath))
		}
		if m.ParamBits&4 != 0 {
			o.u8("mask.vecdens", m.VecDens)
		}
		if m.ParamBits&8 != 0 {
			o.mark("mask.vecfeather", 8)
			o.B = binary.BigEndian.AppendUint64(o.B, math.Float64bits(m.VecFeath))
		}
	}
	if !m.Real {
		for len(o.B)-at < 20 {
			o.B = append(o.B, 0)
		}
		return
	}
	o.u8("mask.realflags", m.RealFlags)
	o.u8("mask.realbg", m.RealBg)
	o.rect("mask.realrect", m.RealRect)
	o.B = append(o.B, m.Tail...)
}

// UnicodeData is the content of a Unicode name block.
func UnicodeData(s string, nulPad int) []byte {
	u := utf16.Encode([]rune(s))
	var b []byte
	b = binary.BigEndian.AppendUint32(b, uint32(len(u)))
	for _, c := range u {
		b = binary.BigEndian.AppendUint16(b, c)
	}
	return append(b, make([]byte, nulPad)...)
}

// PackRow encodes one row as PackBits. Any valid encoding may come out.
func PackRow(t *pbt.T, style int, rnd func() uint64, row []byte) []byte {
	var out []byte
	for i := 0; i < len(row); {
		if style == 3 && rnd()%8 == 0 {
			for k := rnd() % 3; k > 0; k-- {
				out = append(out, 0x80)
			}
		}
		run := 1
		for i+run < len(row) && row[i+run] == row[i] && run < 128 {
			run++
		}
		switch {
		case style == 0: // literals of the greatest length
			n := len(row) - i
			if n > 128 {
				n = 128
			}
			out = append(out, byte(n-1))
			out = append(out, row[i:i+n]...)
			i += n
		case run >= 2 && (style == 1 || rnd()%4 != 0):
			if style != 1 && run > 2 {
				run = 2 + int(rnd()%uint64(run-1))
			}
			out = append(out, byte(257-run), row[i])
			i += run
		default:
			n := 1
			max := len(row) - i
			if max > 128 {
				max = 128
			}
			if style == 1 {
				for n < max && !(i+n+1 < len(row) && row[i+n] == row[i+n+1]) {
					n++
				}
			} else {
				n = 1 + int(rnd()%uint64(max))
				if rnd()%4 != 0 && n > 9 {
					n = 1 + n%9
				}
			}
			out = append(out, byte(n-1))
			out = append(out, row[i:i+n]...)
			i += n
		}
	}
	if style == 3 && rnd()%4 == 0 {
		out = append(out, 0x80)
	}
	return out
}

// Stream returns a generator of words expanded from one drawn key.
func Stream(t *pbt.T) func() uint64 {
	s := t.U64(1<<32)*0x9E3779B97F4A7C15 + 11
	return func() uint64 {
		s += 0x9E3779B97F4A7C15
		x := s
		x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
		x = (x ^ (x >> 27)) * 0x94D049BB133111EB
		return (x ^ (x >> 31)) >> 3
	}
}

// EncodeRLE encodes rows of rowLen bytes: the table of row lengths followed by
// the rows.
func EncodeRLE(t *pbt.T, data []byte, rowLen, rows int, large bool) []byte {
	style := t.N(4)
	rnd := Stream(t)
	var tab, body []byte
	for y := 0; y < rows; y++ {
		r := PackRow(t, style, rnd, data[y*rowLen:(y+1)*rowLen])
		if !large && len(r) > 65535 { // its length would not fit the table
			r = PackRow(t, 0, rnd, data[y*rowLen:(y+1)*rowLen])
		}
		if large {
			tab = binary.BigEndian.AppendUint32(tab, uint32(len(r)))
		} else {
			tab = binary.BigEndian.AppendUint16(tab, uint16(len(r)))
		}
		body = append(body, r...)
	}
	return append(tab, body...)
}

// zlibWriters are used again: making one takes long.
var zlibWriters = map[int]*zlib.Writer{}

// EncodeZIP deflates.
func EncodeZIP(t *pbt.T, data []byte) []byte {
	lv := pbt.Pick(t, 6, flate.NoCompression, flate.BestSpeed, flate.BestCompression, flate.HuffmanOnly)
	var b bytes.Buffer
	w := zlibWriters[lv]
	if w == nil {
		w, _ = zlib.NewWriterLevel(&b, lv)
		zlibWriters[lv] = w
	}
	w.Reset(&b)
	if t.Bool(20) && len(data) > 1 {
		k := 1 + t.N(len(data)-1)
		w.Write(data[:k])
		w.Flush()
		w.Write(data[k:])
	} else {
		w.Write(data)
	}
	w.Close()
	return b.Bytes()
}

// Predict applies the horizontal predictor of the format to rows of dx samples.
func Predict(data []byte, dx, rows, depth int) []byte {
	out := append([]byte(nil), data...)
	rb := RowBytes(dx, depth)
	for y := 0; y < rows; y++ {
		row := out[y*rb : (y+1)*rb]
		src := data[y*rb : (y+1)*rb]
		switch depth {
		case 8:
			for x := 1; x < dx; x++ {
				row[x] = src[x] - src[x-1]
			}
		case 16:
			for x := 1; x < dx; x++ {
				v := binary.BigEndian.Uint16(src[2*x:]) - binary.BigEndian.Uint16(src[2*x-2:])
				binary.BigEndian.PutUint16(row[2*x:], v)
			}
		case 32:
			// the four bytes of every sample are stored as four planes,
			// then byte-wise differences are taken over the row
			tmp := make([]byte, rb)
			for x := 0; x < dx; x++ {
				for k := 0; k < 4; k++ {
					tmp[k*dx+x] = src[4*x+k]
				}
			}
			copy(row, tmp)
			for i := 1; i < rb; i++ {
				row[i] = tmp[i] - tmp[i-1]
			}
		}
	}
	return out
}

// EncodePlane compresses planes of dx x rows samples.
func EncodePlane(t *pbt.T, comp int, data []byte, dx, rows, depth int, large bool) []byte {
	switch comp {
	case Raw:
		return append([]byte(nil), data...)
	case RLE:
		return EncodeRLE(t, data, RowBytes(dx, depth), rows, large)
	case ZIP:
		return EncodeZIP(t, data)
	default:
		return EncodeZIP(t, Predict(data, dx, rows, depth))
	}
}
