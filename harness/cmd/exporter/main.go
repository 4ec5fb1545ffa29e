// Command exporter holds the check of the psdexporter command: C29.
package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/oov/psd"

	"verif/pbt"
	"verif/psdgen"
)

func main() { pbt.Main() }

func init() {
	pbt.Register(&pbt.Prop{
		ID:       "C29",
		Rule:     "a generated document (all modes and depths, groups, empty layers, masks, damaged or cut files, obstacles in the output directory) is given to the built psdexporter command in a fresh directory; its exit status, the set of files, their pixels and the printed names are compared with what decoding gives. Non-trivial: at least one image with pixels is written, or a failure is provoked.",
		Quick:    15000,
		Thorough: 60000,
		Run:      runC29,
		Assumptions: []string{
			"the decoded layers themselves are the subject of C03 and C04",
			"a PNG file holds the color of the decoded pixel, one unit of rounding of 8 bits allowed for documents of 8 bits, 4 units of 16 bits for deeper ones",
		},
	})
}

type want struct {
	file, name string
	l          *psd.Layer
}

func collect(prefix, name string, l *psd.Layer, out *[]want) {
	for i := range l.Layer {
		collect(fmt.Sprintf("%s_%03d", prefix, i), name+"/"+l.Layer[i].Name, &l.Layer[i], out)
	}
	if l.HasImage() && !l.Rect.Empty() {
		*out = append(*out, want{prefix + ".png", name, l})
	}
}

type result struct {
	stdout, stderr string
	code           int
}

func run(t *pbt.T, dir string, procs int, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_WORK")+"/psdexporter", args...)
	cmd.Dir = dir
	cmd.Env = []string{"GOMAXPROCS=" + strconv.Itoa(procs), "PATH=/nonexistent", "HOME=" + dir}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		t.Fatalf("psdexporter did not finish within 60 s")
	}
	r := result{so.String(), se.String(), 0}
	if ee, ok := err.(*exec.ExitError); ok {
		r.code = ee.ExitCode()
		if r.code < 0 {
			t.Fatalf("psdexporter was ended by a signal: %v\n%s", err, tail(r.stderr))
		}
	} else if err != nil {
		panic(err)
	}
	return r
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

func list(dir string) []string {
	var fs []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		if p != dir {
			rel, _ := filepath.Rel(dir, p)
			fs = append(fs, rel)
		}
		return nil
	})
	sort.Strings(fs)
	return fs
}

// many adds layers that all differ, one beside the other or in a group.
func many(t *pbt.T, d *psdgen.Doc, n int) {
	t.Label("many layers")
	divider := func(typ byte) {
		l := psdgen.Layer{Blend: "norm", Opacity: 255, DivType: int(typ)}
		l.Infos = []psdgen.Info{{Sig: "8BIM", Key: "lsct", Data: []byte{0, 0, 0, typ}}}
		for c := 0; c < psdgen.ModeChannels(d.Mode); c++ {
			l.Channels = append(l.Channels, psdgen.Channel{ID: c})
		}
		d.Layers = append(d.Layers, l)
	}
	group := t.Bool(40)
	if group {
		divider(3)
	}
	for i := 0; i < n; i++ {
		l := psdgen.Layer{Blend: "norm", Opacity: 255, Name: []byte("many"), Rect: psdgen.Rect{Top: 0, Left: i, Bottom: 1, Right: i + 1}}
		for c := 0; c < psdgen.ModeChannels(d.Mode); c++ {
			px := []byte{byte(i >> (8 * uint(c&1)))}
			if d.Depth > 8 {
				px = []byte{0x3f, px[0], 0, 0}[:d.Depth/8]
			}
			l.Channels = append(l.Channels, psdgen.Channel{ID: c, Rect: l.Rect, Plane: px, Enc: px})
		}
		d.Layers = append(d.Layers, l)
	}
	if group {
		divider(1)
	}
}

func runC29(t *pbt.T) {
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: pbt.Pick(t, 6, 20, 40), MaxLayers: pbt.Pick(t, 3, 10), Tree: true, Rich: t.Bool(20), Pixels: true, Place: t.Bool(20), WantLayers: t.Bool(85)})
	small := true
	for i := range d.Layers {
		l := &d.Layers[i]
		if l.DivType == 0 && t.Bool(10) { // an empty layer, as editors write for a new layer
			l.Rect = psdgen.Rect{}
			for j := range l.Channels {
				c := &l.Channels[j]
				if c.ID >= -1 {
					c.Rect, c.Plane, c.Enc, c.Comp = psdgen.Rect{}, nil, nil, psdgen.Raw
				}
			}
		}
		if l.Rect.Dx()*l.Rect.Dy() > 1<<16 {
			small = false
		}
	}
	if !small {
		t.Skip()
	}
	sum := d.Summary()
	if len(d.Layers) > 0 && t.N(400) == 399 {
		n := pbt.Pick(t, 1010, 1001, 120)
		sum += fmt.Sprintf("\nand %d layers of 1x1 pixels", n)
		many(t, d, n)
	}
	enc := d.Encode()
	data := enc.B
	t.Descf("%s", sum)

	root, err := os.MkdirTemp(pbt.ScratchDir(), "c29-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "out")
	if err := os.Mkdir(dir, 0o777); err != nil {
		panic(err)
	}
	src := filepath.Join(root, pbt.Pick(t, "in.psd", "in put.psb", "100%d.psd"))
	procs := pbt.Pick(t, 1, 2, 4, 8)

	bad := t.Weighted(12, 1, 1, 1)
	switch bad {
	case 1: // cut
		data = data[:t.N(enc.LayerEnd)]
	case 2: // not a document
		data = t.Bytes(t.N(100))
	}
	if bad != 3 {
		if err := os.WriteFile(src, data, 0o666); err != nil {
			panic(err)
		}
	}
	full, _, derr := psd.Decode(bytes.NewReader(data), &psd.DecodeOptions{SkipMergedImage: true})
	if bad == 3 || derr != nil { // unreadable
		if bad == 0 {
			t.Fatalf("the generated document does not decode: %v", derr)
		}
		t.NonTrivial()
		t.Label("unreadable input, kind %d", bad)
		r := run(t, dir, procs, src)
		if r.code == 0 {
			t.Fatalf("psdexporter reports success for an unreadable document (%v)", derr)
		}
		if fs := list(dir); len(fs) != 0 {
			t.Fatalf("psdexporter failed on an unreadable document but wrote %v", fs)
		}
		return
	}
	var ws []want
	for i := range full.Layer {
		collect(fmt.Sprintf("%03d", i), full.Layer[i].Name, &full.Layer[i], &ws)
	}
	// obstacles in the output directory
	obstacle := t.Weighted(8, 2, 1, 1)
	if len(ws) == 0 {
		obstacle = 0
	}
	if obstacle != 0 {
		w := ws[t.N(len(ws))]
		fn := filepath.Join(dir, w.file)
		switch obstacle {
		case 1: // an older, longer file
			t.Label("older file in the way")
			err = os.WriteFile(fn, bytes.Repeat([]byte("old"), 1000+t.N(40000)), 0o666)
		case 2: // a directory
			t.Label("directory in the way")
			err = os.Mkdir(fn, 0o777)
		case 3: // a device on which every write fails
			t.Label("full device")
			if _, e := os.Stat("/dev/full"); e != nil {
				t.Skip()
			}
			err = os.Symlink("/dev/full", fn)
		}
		if err != nil {
			panic(err)
		}
	}
	r := run(t, dir, procs, src)
	if obstacle >= 2 {
		t.NonTrivial()
		if r.code == 0 {
			t.Fatalf("psdexporter reports success although it could not write one of its files (obstacle %d)", obstacle)
		}
		ok := map[string]bool{}
		for _, w := range ws {
			ok[w.file] = true
		}
		for _, f := range list(dir) {
			if !ok[f] {
				t.Fatalf("psdexporter wrote %q, which is not one of its output names", f)
			}
		}
		return
	}
	if r.code != 0 {
		t.Fatalf("psdexporter exits with status %d on a readable document\n%s", r.code, tail(r.stderr))
	}
	if b, err := os.ReadFile(src); err != nil || !bytes.Equal(b, data) {
		t.Fatalf("psdexporter changed its input file")
	}
	var names []string
	for _, w := range ws {
		names = append(names, w.file)
	}
	sort.Strings(names)
	if got := list(dir); strings.Join(got, " ") != strings.Join(names, " ") {
		t.Fatalf("psdexporter wrote the files %v, want %v", got, names)
	}
	if up := list(root); len(up) != len(names)+2 {
		t.Fatalf("psdexporter wrote outside its directory: %v", up)
	}
	for _, w := range ws {
		t.Label("image written, mode %d depth %d", d.Mode, d.Depth)
		t.NonTrivial()
		compare(t, filepath.Join(dir, w.file), w, d.Depth > 8)
		if line := w.name + " -> " + w.file + "\n"; !strings.Contains(r.stdout, line) {
			t.Fatalf("psdexporter does not print which layer %s holds: want the line %q, output %q", w.file, line, tail(r.stdout))
		}
	}
	if strings.Count(r.stdout, ".png\n") < len(ws) {
		t.Fatalf("psdexporter prints too few lines: %q", tail(r.stdout))
	}
}

// compare compares a file with the layer it is made from; deep: with the precision of 16 bits.
func compare(t *pbt.T, fn string, w want, deep bool) {
	f, err := os.Open(fn)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	img, err := png.Decode(f)
	if err != nil {
		t.Fatalf("%s is not a PNG image: %v", w.file, err)
	}
	if rest, _ := io.ReadAll(f); len(rest) > 0 {
		t.Fatalf("%s has %d bytes after the image", w.file, len(rest))
	}
	r := w.l.Rect
	if img.Bounds().Dx() != r.Dx() || img.Bounds().Dy() != r.Dy() {
		t.Fatalf("%s has the size %v, the layer %q %v", w.file, img.Bounds(), w.name, r)
	}
	mn := img.Bounds().Min
	for y := 0; y < r.Dy(); y++ {
		for x := 0; x < r.Dx(); x++ {
			c := w.l.Picker.At(r.Min.X+x, r.Min.Y+y)
			if deep {
				var cv, gv [4]uint32
				cv[0], cv[1], cv[2], cv[3] = c.RGBA()
				gv[0], gv[1], gv[2], gv[3] = img.At(mn.X+x, mn.Y+y).RGBA()
				for i := range cv {
					if df := int(cv[i]) - int(gv[i]); df < -4 || df > 4 {
						t.Fatalf("%s differs from the layer %q at (%d,%d) of %v beyond the rounding of 16 bits: %x, want %x (%T)", w.file, w.name, x, y, image.Rectangle(r), gv, cv, c)
					}
				}
			}
			e := color.NRGBAModel.Convert(c).(color.NRGBA)
			g := color.NRGBAModel.Convert(img.At(mn.X+x, mn.Y+y)).(color.NRGBA)
			if !near(e.A, g.A, 1) || e.A != 0 && g.A != 0 && !(near(e.R, g.R, slack(e.A)) && near(e.G, g.G, slack(e.A)) && near(e.B, g.B, slack(e.A))) {
				t.Fatalf("%s differs from the layer %q at (%d,%d) of %v: %v, want %v (%T)", w.file, w.name, x, y, image.Rectangle(r), g, e, c)
			}
		}
	}
}

// slack is the rounding that premultiplied intermediate values allow.
func slack(a uint8) int { return 1 }

func near(a, b uint8, tol int) bool {
	d := int(a) - int(b)
	return -tol <= d && d <= tol
}
