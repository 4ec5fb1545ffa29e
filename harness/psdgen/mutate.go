package psdgen

import (
	"strings"

	"verif/pbt"
)

// Put writes v into n bytes at off, big endian.
func Put(b []byte, off, n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		b[off+i] = byte(v)
		v >>= 8
	}
}

// Get reads n bytes at off, big endian.
func Get(b []byte, off, n int) (v uint64) {
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(b[off+i])
	}
	return
}

// Deform changes the model in ways a correct writer would not.
func Deform(t *pbt.T, d *Doc) {
	switch t.N(9) {
	case 0: // modes and depths without support
		d.Mode = pbt.Pick(t, Lab, Duotone, Multichannel, Indexed, Bitmap, 5, 6, 100, -1, RGB, CMYK, Gray)
		t.Label("deform: mode")
	case 1:
		d.Depth = pbt.Pick(t, 1, 8, 16, 32)
		t.Label("deform: depth")
	case 2:
		d.Channels = pbt.Pick(t, 1, 2, 3, 4, 5, 6, 56)
		t.Label("deform: channels")
	case 3:
		d.ModeData = t.Bytes(pbt.Pick(t, 0, 1, 3, 6, 255, 256, 300, 512, 513, 767, 768, 769, 771, 900, 1024, 1536))
		d.Mode = Indexed
		t.Label("deform: palette")
	case 4:
		d.Res = append(d.Res, Res{Sig: "8BIM", ID: pbt.Pick(t, 0x041D, 0x0417), Data: t.Bytes(t.N(10))})
		if t.Bool(30) && len(d.Layers) > 0 {
			d.Again = pbt.Pick(t, "Lr16", "Lr32", "Layr")
		}
		t.Label("deform: special resource")
	case 5:
		if len(d.Layers) > 0 {
			l := &d.Layers[t.N(len(d.Layers))]
			if len(l.Channels) > 0 {
				k := t.N(len(l.Channels))
				switch t.N(4) {
				case 0:
					l.Channels[k].ID = pbt.Pick(t, -1, -2, -3, -4, 0, 1, 2, 3, 4, 5, 55, 32767, -32768)
				case 1:
					l.Channels = append(l.Channels[:k:k], l.Channels[k+1:]...)
				case 2:
					l.Channels = append(l.Channels[:len(l.Channels):len(l.Channels)], l.Channels[k])
				case 3:
					l.Channels = nil
				}
			}
		}
		t.Label("deform: layer channels")
	case 6:
		if len(d.Layers) > 0 {
			l := &d.Layers[t.N(len(d.Layers))]
			in := Info{Sig: "8BIM", Key: pbt.Pick(t, "lsct", "lsdk", "luni", "clbl", "Layr", "Lr16", "Lr32"), Data: t.Bytes(t.N(18))}
			if t.Bool(50) && len(in.Data) >= 4 {
				Put(in.Data, 0, 4, pbt.Pick(t, uint64(0), 1, 2, 3, 4, 7, 8, 9, 0x7fffffff, 0x80000000, 0xffffffff))
			}
			l.Infos = append(l.Infos[:len(l.Infos):len(l.Infos)], in)
			l.NoExtra = false
		}
		t.Label("deform: layer information")
	case 7:
		if len(d.Layers) > 0 {
			l := &d.Layers[t.N(len(d.Layers))]
			r := pbt.Pick(t, Rect{Top: -2147483648, Left: -2147483648, Bottom: 2147483647, Right: 2147483647},
				Rect{Top: 0, Left: 0, Bottom: 2147483647, Right: 2147483647}, Rect{Top: 5, Left: 5, Bottom: -7, Right: -9},
				Rect{Top: 0, Left: 0, Bottom: 1, Right: 300001}, Rect{Top: 0, Left: 0, Bottom: 2147483647, Right: 1},
				Rect{Top: 0, Left: 0, Bottom: 0, Right: 2147483647}, Rect{Top: 0, Left: 0, Bottom: 17, Right: 900},
				Rect{Top: -3, Left: -2, Bottom: 4, Right: 1})
			if t.Bool(30) {
				// far away, but as large as before
				far := pbt.Pick(t, 2147483647, -2147483648, 2147483640, 2147483584, -2147483600, 1000000, -1000000)
				move := func(lo, hi int) (int, int) {
					if far > 0 {
						return far - (hi - lo), far
					}
					return far, far + (hi - lo)
				}
				q := &l.Rect
				if l.Mask != nil && t.Bool(50) {
					q = &l.Mask.Rect
				}
				if t.Bool(60) {
					q.Left, q.Right = move(q.Left, q.Right)
				}
				if t.Bool(60) {
					q.Top, q.Bottom = move(q.Top, q.Bottom)
				}
				t.Label("deform: far away")
				return
			}
			switch {
			case l.Mask != nil && t.Bool(50):
				if t.Bool(50) {
					l.Mask.Rect = r
				} else {
					l.Mask.RealRect = r
				}
			default:
				l.Rect = r
			}
		}
		t.Label("deform: rectangle")
	case 8:
		if len(d.Layers) > 0 {
			l := &d.Layers[t.N(len(d.Layers))]
			if len(l.Channels) > 0 {
				c := &l.Channels[t.N(len(l.Channels))]
				switch t.N(4) {
				case 0:
					c.Comp = pbt.Pick(t, 0, 1, 2, 3, 4, -1, 0x7fff)
				case 1:
					if len(c.Enc) > 0 {
						c.Enc = c.Enc[:t.N(len(c.Enc))]
					}
				case 2:
					c.Enc = t.Bytes(t.N(60))
				case 3:
					if len(c.Enc) > 0 {
						c.Enc = append([]byte(nil), c.Enc...)
						c.Enc[t.N(len(c.Enc))] ^= byte(1 << uint(t.N(8)))
					}
				}
			}
		}
		t.Label("deform: channel data")
	}
}

// Mutate damages the encoded file.
func Mutate(t *pbt.T, d *Doc, o *Out) []byte {
	b := append([]byte(nil), o.B...)
	// fields whose value decides how much memory a legal picture takes: they
	// are only set to values that are small or out of range
	protected := make([]bool, len(b))
	recLo, recHi := -1, -1
	for _, m := range o.Marks {
		switch {
		case m.Name == "height" || m.Name == "width" || strings.HasPrefix(m.Name, "layer.rect") || strings.HasPrefix(m.Name, "mask.rect") || strings.HasPrefix(m.Name, "mask.realrect"):
			for i := m.Off; i < m.Off+m.Len; i++ {
				protected[i] = true
			}
		}
		if strings.HasPrefix(m.Name, "layer.rect") && recLo < 0 {
			recLo = m.Off
		}
		if m.Name == "extra.len" {
			if e := m.Off + 4 + int(Get(o.B, m.Off, 4)); e > recHi {
				recHi = e
			}
		}
	}
	k := 1 + t.Weighted(6, 2, 1, 1)
	for ; k > 0 && len(b) > 0; k-- {
		switch t.Weighted(8, 3, 2, 1, 1) {
		case 0: // a field
			m := o.Marks[t.N(len(o.Marks))]
			if m.Off+m.Len > len(b) || m.Len == 0 {
				continue
			}
			t.Descf("field %s", m.Name)
			if protected[m.Off] {
				Put(b, m.Off, m.Len, pbt.Pick(t, uint64(0), 1, 2, 3, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe))
				if m.Name == "height" || m.Name == "width" {
					Put(b, m.Off, m.Len, pbt.Pick(t, uint64(0), 1, 2, 3, 16, 31, 0x7fffffff, 0x80000000, 0xffffffff))
				}
				continue
			}
			switch {
			case m.Len == 2 || m.Len == 4 || m.Len == 8:
				v := Get(b, m.Off, m.Len)
				switch t.N(3) {
				case 0:
					v += uint64(t.Signed(9))
				case 1:
					v = pbt.Pick(t, uint64(0), 1, 2, 3, 4, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1<<63, 1<<63-1, 1<<64-1, 1<<40, 1<<47, 1<<62)
				case 2:
					v = uint64(len(b)) - uint64(t.N(len(b)))
				}
				Put(b, m.Off, m.Len, v)
			default:
				b[m.Off+t.N(m.Len)] = t.Byte()
			}
		case 1: // flips
			for f := 1 + t.N(6); f > 0; f-- {
				i := t.N(len(b))
				if i < len(protected) && !protected[i] {
					b[i] ^= byte(1 << uint(t.N(8)))
				}
			}
		case 2: // cut
			b = b[:t.N(len(b))]
			t.Descf("cut to %d", len(b))
		default: // remove or repeat a part, outside of the layer records
			i := t.N(len(b))
			n := 1 + t.N(12)
			if i < o.HeaderEnd || i+n > len(b) || (recLo >= 0 && i+n > recLo && i < recHi) {
				continue
			}
			if t.Bool(50) {
				b = append(b[:i:i], b[i+n:]...)
				t.Descf("removed %d at %d", n, i)
			} else {
				b = append(b[:i+n:i+n], b[i:]...)
				t.Descf("repeated %d at %d", n, i)
			}
			return b // the marks no longer fit
		}
	}
	return b
}
