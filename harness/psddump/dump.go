// Package psddump writes everything a decoded file exposes, for comparison.
package psddump

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"sort"

	"github.com/oov/psd"
)

// Dump writes everything a decoded file exposes, for comparison.
func Dump(p *psd.PSD) []byte {
	var b bytes.Buffer
	Config(&b, &p.Config)
	Layers(&b, p.Layer)
	Infos(&b, p.AdditinalLayerInfo)
	fmt.Fprintf(&b, "data %d ", len(p.Data))
	b.Write(p.Data)
	Channels(&b, p.Channel)
	dumpImg(&b, p.Picker)
	return b.Bytes()
}

func Config(b *bytes.Buffer, c *psd.Config) {
	fmt.Fprintf(b, "cfg %d %v %d %d %d %x\n", c.Version, c.Rect, c.Channels, c.Depth, c.ColorMode, c.ColorModeData)
	var ids []int
	for id := range c.Res {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(b, "res %d %q %x\n", id, c.Res[id].Name, c.Res[id].Data)
	}
}

func Infos(b *bytes.Buffer, m map[psd.AdditionalInfoKey][]byte) {
	var ks []string
	for k := range m {
		ks = append(ks, string(k))
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(b, "info %q %x\n", k, m[psd.AdditionalInfoKey(k)])
	}
}

func Layers(b *bytes.Buffer, ls []psd.Layer) {
	fmt.Fprintf(b, "layers %d\n", len(ls))
	for i := range ls {
		l := &ls[i]
		fmt.Fprintf(b, "layer %d %q %q %q %v %q %d %v %v %d %+v {%d %q %d}\n", l.SeqID, l.Name, l.UnicodeName, l.MBCSName, l.Rect, string(l.BlendMode), l.Opacity,
			l.Clipping, l.BlendClippedElements, l.Flags, l.Mask, uint32(l.SectionDividerSetting.Type), string(l.SectionDividerSetting.BlendMode), uint32(l.SectionDividerSetting.SubType))
		Infos(b, l.AdditionalLayerInfo)
		Channels(b, l.Channel)
		dumpImg(b, l.Picker)
		Layers(b, l.Layer)
	}
}

func Channels(b *bytes.Buffer, m map[int]psd.Channel) {
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(b, "channel %d %d ", id, len(m[id].Data))
		b.Write(m[id].Data)
		dumpImg(b, m[id].Picker)
	}
}

func dumpImg(b *bytes.Buffer, img image.Image) {
	if img == nil {
		b.WriteString("no image\n")
		return
	}
	r := img.Bounds()
	fmt.Fprintf(b, "image %T %v ", img, r)
	if !r.Empty() {
		for _, p := range []image.Point{r.Min, {X: r.Max.X - 1, Y: r.Max.Y - 1}, {X: r.Min.X + r.Dx()/2, Y: r.Min.Y + r.Dy()/2}} {
			fmt.Fprintf(b, "%v ", img.At(p.X, p.Y))
		}
	}
	b.WriteByte('\n')
}

// Touch reads every pixel and calls every accessor.
func Touch(p *psd.PSD) {
	_ = p.Config.Palette()
	_ = p.Config.PSB()
	TouchImg(p.Picker)
	for _, c := range p.Channel {
		TouchImg(c.Picker)
	}
	touchLayers(p.Layer)
}

func touchLayers(ls []psd.Layer) {
	for i := range ls {
		l := &ls[i]
		_ = l.Visible()
		_ = l.HasImage()
		_ = l.Folder()
		_ = l.FolderIsOpen()
		_ = l.TransparencyProtected()
		_ = l.String()
		_ = l.BlendMode.String()
		_ = l.Mask.Enabled()
		_ = l.Mask.RealEnabled()
		TouchImg(l.Picker)
		for _, c := range l.Channel {
			TouchImg(c.Picker)
		}
		touchLayers(l.Layer)
	}
}

func TouchImg(img image.Image) {
	if img == nil {
		return
	}
	r := img.Bounds()
	m := img.ColorModel()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			c := img.At(x, y)
			c.RGBA()
			if x == r.Min.X && y == r.Min.Y && m != nil {
				if p, ok := m.(color.Palette); !ok || len(p) > 0 {
					m.Convert(c).RGBA()
				}
			}
		}
	}
}
