package psdgen

import "verif/pbt"

// Twin draws a well-formed document that differs from d in few respects: what
// a process that remembers more of d than it should confuses with d.
func Twin(t *pbt.T, d *Doc) *Doc {
	e := *d
	e.Res = append([]Res(nil), d.Res...)
	e.Layers = append([]Layer(nil), d.Layers...)
	for i := range e.Layers {
		e.Layers[i].Channels = append([]Channel(nil), e.Layers[i].Channels...)
		e.Layers[i].Infos = append([]Info(nil), e.Layers[i].Infos...)
	}
	e.Planes = append([][]byte(nil), d.Planes...)
	drop := func(id int) {
		var rs []Res
		for _, r := range e.Res {
			if r.ID != id {
				rs = append(rs, r)
			}
		}
		e.Res = rs
	}
	samples := false
	for k := 1 + t.N(3); k > 0; k-- {
		switch t.N(8) {
		case 0: // another transparent entry
			t.Label("twin: transparent index")
			drop(0x0417)
			if t.Bool(70) {
				v := t.Byte()
				if len(e.Planes[0]) > 0 && t.Bool(60) {
					v = e.Planes[0][t.N(len(e.Planes[0]))]
				}
				e.Res = append(e.Res, Res{Sig: "8BIM", ID: 0x0417, Data: []byte{0, v}})
			}
		case 1: // other alpha identifiers
			t.Label("twin: alpha identifiers")
			drop(0x041D)
			if n := e.Channels - ModeChannels(e.Mode); n > 0 && t.Bool(70) {
				var b []byte
				for ; n > 0; n-- {
					b = append(b, 0, 0, 0, byte(t.N(3)))
				}
				e.Res = append(e.Res, Res{Sig: "8BIM", ID: 0x041D, Data: b})
			}
		case 2: // the other variant of the format
			if e.W <= 30000 && e.H <= 30000 {
				t.Label("twin: version")
				e.Version = 3 - e.Version
				if e.Version == 1 && e.SectionSlack < 8 {
					e.SectionSlack &= 3
				}
				samples = true
			}
		case 3: // another sample of the merged image
			i := t.N(len(e.Planes))
			if len(e.Planes[i]) > 0 && e.Depth != 32 {
				t.Label("twin: merged sample")
				p := append([]byte(nil), e.Planes[i]...)
				p[t.N(len(p))] ^= byte(1 + t.N(255))
				e.Planes[i] = p
				samples = true
			}
		case 4: // another sample of a layer
			if len(e.Layers) > 0 && e.Depth != 32 {
				l := &e.Layers[t.N(len(e.Layers))]
				if len(l.Channels) > 0 {
					c := &l.Channels[t.N(len(l.Channels))]
					if len(c.Plane) > 0 {
						t.Label("twin: layer sample")
						p := append([]byte(nil), c.Plane...)
						p[t.N(len(p))] ^= byte(1 + t.N(255))
						c.Plane = p
						c.Enc = EncodePlane(t, c.Comp, p, c.Rect.Dx(), c.Rect.Dy(), e.Depth, e.Large())
					}
				}
			}
		case 5: // a layer at another place
			if len(e.Layers) > 0 {
				t.Label("twin: moved layer")
				l := &e.Layers[t.N(len(e.Layers))]
				dx, dy := t.Signed(9), t.Signed(9)
				for _, v := range []int{l.Rect.Top, l.Rect.Left, l.Rect.Bottom, l.Rect.Right} {
					if v < -1<<30 || v > 1<<30 {
						dx, dy = 0, 0
					}
				}
				l.Rect = Rect{Top: l.Rect.Top + dy, Left: l.Rect.Left + dx, Bottom: l.Rect.Bottom + dy, Right: l.Rect.Right + dx}
				for i := range l.Channels {
					if l.Channels[i].ID >= -1 {
						l.Channels[i].Rect = l.Rect
					}
				}
			}
		case 6: // other properties of a layer
			if len(e.Layers) > 0 {
				t.Label("twin: properties")
				l := &e.Layers[t.N(len(e.Layers))]
				l.Opacity ^= byte(1 + t.N(255))
				l.Flags ^= byte(t.N(4))
				if len(l.Name) > 0 && !l.NoExtra {
					n := append([]byte(nil), l.Name...)
					n[t.N(len(n))] = 'a' + byte(t.N(26))
					l.Name = n
				}
			}
		case 7: // another colour table
			if e.Mode == Indexed {
				t.Label("twin: colours")
				m := append([]byte(nil), e.ModeData...)
				m[t.N(len(m))] ^= byte(1 + t.N(255))
				e.ModeData = m
			}
		}
	}
	if samples {
		var all []byte
		for _, p := range e.Planes {
			all = append(all, p...)
		}
		e.MergedEnc = EncodePlane(t, e.MergedComp, all, e.W, e.H*e.Channels, e.Depth, e.Large())
		for i := range e.Layers {
			for k := range e.Layers[i].Channels {
				c := &e.Layers[i].Channels[k]
				if c.Enc != nil {
					c.Enc = EncodePlane(t, c.Comp, c.Plane, c.Rect.Dx(), c.Rect.Dy(), e.Depth, e.Large())
				}
			}
		}
	}
	return &e
}
