// Command core holds the checks of the decoder: C01 to C12.
package main

import (
	"fmt"

	"verif/pbt"
	"verif/psddump"
	"verif/psdgen"
)

func main() { pbt.Main() }

var (
	dump         = psddump.Dump
	dumpLayers   = psddump.Layers
	dumpInfos    = psddump.Infos
	dumpChannels = psddump.Channels
	dumpConfig   = psddump.Config
	touch        = psddump.Touch
	touchImg     = psddump.TouchImg
)

func diffAt(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string {
		s, e := i-60, i+60
		if s < 0 {
			s = 0
		}
		if e > len(x) {
			e = len(x)
		}
		if s > e {
			s = e
		}
		return fmt.Sprintf("%q", x[s:e])
	}
	return fmt.Sprintf("at %d: %s / %s", i, cut(a), cut(b))
}

func labels(t *pbt.T, d *psdgen.Doc) {
	t.Label("mode %d depth %d", d.Mode, d.Depth)
	if d.Version == 2 {
		t.Label("PSB")
	}
	if d.Place != "" {
		t.Label("layers in " + d.Place)
	}
	t.Label("merged compression %d", d.MergedComp)
	for i := range d.Layers {
		l := &d.Layers[i]
		t.Label("layer")
		if l.DivType != 0 {
			t.Label("divider %d", l.DivType)
		}
		if l.Mask != nil {
			t.Label("layer with mask")
			if l.Mask.Real {
				t.Label("layer with real mask")
			}
		}
		for _, c := range l.Channels {
			if len(c.Plane) > 0 {
				t.Label("channel compression %d depth %d", c.Comp, d.Depth)
			}
		}
	}
}
