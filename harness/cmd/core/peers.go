package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"

	"github.com/oov/psd"

	"verif/pbt"
	"verif/psdgen"
)

// proc is a helper process that answers requests over pipes.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    io.ReadCloser
	stderr *tailBuf
	dead   bool
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

var procsByName = map[string]*proc{}

func getProc(name string) *proc {
	if p := procsByName[name]; p != nil && !p.dead {
		return p
	}
	work := os.Getenv("VERIF_WORK")
	var cmd *exec.Cmd
	switch name {
	case "js":
		cmd = exec.Command("node", filepath.Join(os.Getenv("VERIF_HARNESS"), "cmd/core/packbits.js"), "/repo/compress.inc.js")
	case "386":
		cmd = exec.Command(filepath.Join(work, "peer386"))
	case "wasm":
		cmd = exec.Command("node", "--stack-size=8192", os.Getenv("VERIF_WASM_EXEC"), filepath.Join(work, "peer.wasm"))
		cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + work}
	}
	p := &proc{cmd: cmd, stderr: &tailBuf{}}
	cmd.Stderr = p.stderr
	var err error
	if p.in, err = cmd.StdinPipe(); err != nil {
		panic(err)
	}
	if p.out, err = cmd.StdoutPipe(); err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	procsByName[name] = p
	return p
}

// call sends a request and returns the answer.
func (p *proc) call(t *pbt.T, name string, parts ...[]byte) []byte {
	done := make(chan struct{})
	timer := time.AfterFunc(120*time.Second, func() { p.cmd.Process.Kill(); close(done) })
	var err error
	go func() {
		for _, b := range parts {
			if _, e := p.in.Write(b); e != nil {
				return
			}
		}
	}()
	var l [4]byte
	var out []byte
	if _, err = io.ReadFull(p.out, l[:]); err == nil {
		out = make([]byte, binary.BigEndian.Uint32(l[:]))
		_, err = io.ReadFull(p.out, out)
	}
	if !timer.Stop() {
		<-done
		p.dead = true
		p.cmd.Wait()
		t.Fatalf("%s: no answer within 120 s", name)
	}
	if err != nil {
		p.dead = true
		werr := p.cmd.Wait()
		p.stderr.mu.Lock()
		defer p.stderr.mu.Unlock()
		t.Fatalf("%s: the process ended (%v)\n%s", name, werr, p.stderr.b)
	}
	return out
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C30", Quick: 800000, Thorough: 3000000, Run: c30,
		Rule: "Random planes compressed by an independent PackBits encoder (any runs, literals, no-ops) are given to compress.inc.js running in node and to the Go decoder; results must equal the plane. Damaged data must make the JavaScript end normally. Non-trivial: at least two rows or damaged data.",
		Assumptions: []string{"the glue in compress_js.go needs GopherJS, which is not installed; only the JavaScript it calls is run",
			"for damaged data only the absence of exceptions, and false when the whole plane overflows, is required"},
	})
	pbt.Register(&pbt.Prop{ID: "C31", Quick: 100000, Thorough: 200000, Run: c31, MaxWorkers: 8,
		Rule: "Generated well-formed and damaged documents are decoded by builds for 386 and WebAssembly (run in helper processes) and by the native build; acceptance, bytes read and everything the result exposes must be equal, and no build may panic. Non-trivial: a document with layers, or a damaged one.",
		Assumptions: []string{"declared sizes that are legal but exhaust a 32-bit address space are out of scope",
			"the text of errors may differ, their presence may not"},
	})
}

func c30(t *pbt.T) {
	p := getProc("js")
	large := t.Bool(40)
	w, h := 1+t.N(pbt.Pick(t, 12, 40, 300)), t.N(pbt.Pick(t, 4, 12, 40))
	if large && t.N(300) == 1 { // lengths that need more than 16 bits
		w, h = 65000+t.N(6000), 1+t.N(2)
		t.Label("rows over 64 KiB")
	}
	plane := t.Bytes(w * h)
	enc := psdgen.EncodeRLE(t, plane, w, h, large)
	ts := 2
	if large {
		ts = 4
	}
	table, body := enc[:ts*h], enc[ts*h:]
	var lens []uint32
	for i := 0; i < h; i++ {
		lens = append(lens, uint32(psdgen.Get(table, i*ts, ts)))
	}
	t.Descf("%d rows of %d bytes, large %v, table %x data %x", h, w, large, table, cutBytes(body))
	if h > 1 {
		t.NonTrivial()
	}
	nd := len(plane)
	overflow := false
	damaged := h > 0 && len(body) > 0 && t.Bool(30)
	if damaged {
		t.NonTrivial()
		switch t.N(4) {
		case 3: // any lengths
			table = append([]byte(nil), table...)
			for i := range lens {
				v := uint64(t.Byte())<<8 | uint64(t.Byte())
				if large {
					v |= uint64(t.N(5)) << 16
				}
				psdgen.Put(table, i*ts, ts, v)
			}
		case 0:
			body = append([]byte(nil), body...)
			for k := 1 + t.N(3); k > 0; k-- {
				body[t.N(len(body))] = t.Byte()
			}
		case 1:
			nd = t.N(nd)
			overflow = true
		case 2:
			// move bytes from one row to the next one
			table = append([]byte(nil), table...)
			if i := t.N(h); i+1 < h && lens[i] > 0 {
				k := 1 + t.N(int(lens[i]))
				psdgen.Put(table, i*ts, ts, uint64(lens[i])-uint64(k))
				psdgen.Put(table, (i+1)*ts, ts, uint64(lens[i+1])+uint64(k))
			}
		}
		t.Descf("damaged: dest %d, table %x data %x", nd, table, cutBytes(body))
		t.Label("damaged")
	}
	hd := make([]byte, 13)
	if large {
		hd[0] = 1
	}
	binary.BigEndian.PutUint32(hd[1:], uint32(h))
	binary.BigEndian.PutUint32(hd[5:], uint32(nd))
	binary.BigEndian.PutUint32(hd[9:], uint32(len(body)))
	out := p.call(t, "JavaScript", hd, table, body)
	if out[0] == 2 {
		t.Fatalf("the JavaScript decoder throws or returns no boolean: %q", out[1:])
	}
	if len(out) != 1+4*h+nd {
		t.Fatalf("the JavaScript decoder changed the size of dest")
	}
	for i := 0; i < h; i++ {
		if got, want := psdgen.Get(out, 1+4*i, 4), psdgen.Get(table, i*ts, ts); got != want {
			t.Fatalf("decodePackBitsLines: line %d has the length %d, want %d", i, got, want)
		}
	}
	if overflow && out[0] == 1 {
		t.Fatalf("the JavaScript decoder accepts data for %d bytes into a dest of %d", len(plane), nd)
	}
	if damaged {
		return
	}
	if out[0] != 1 {
		t.Fatalf("the JavaScript decoder rejects valid data")
	}
	if js := out[1+4*h:]; !bytes.Equal(js, plane) {
		t.Fatalf("the JavaScript decoder gives another plane: %s", diffAt(js, plane))
	}
	// the native decoder, on the same bytes
	dest := make([]byte, len(plane))
	n, err := psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(enc), int64(len(enc)), image.Rect(0, 0, w, h), 8, 1, large)
	if err != nil || n != len(enc) || !bytes.Equal(dest, plane) {
		t.Fatalf("the native decoder differs: read %d of %d, %v, %s", n, len(enc), err, diffAt(dest, plane))
	}
}

func cutBytes(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func c31(t *pbt.T) {
	name := "386"
	if t.Bool(35) {
		name = "wasm"
	}
	d := psdgen.GenDoc(t, psdgen.Opts{MaxDim: pbt.Pick(t, 10, 25), MaxLayers: 4, Tree: true, Rich: t.Bool(50), Pixels: true, Place: true, Wide: true, Big: true})
	bad := t.Bool(60)
	if bad && t.Bool(50) {
		psdgen.Deform(t, d)
	}
	e := d.Encode()
	b := e.B
	if bad {
		t.Label("damaged")
		t.NonTrivial()
		b = psdgen.Mutate(t, d, e)
	} else if len(d.Layers) > 0 {
		t.NonTrivial()
	}
	if t.Bool(30) {
		b = append(b[:len(b):len(b)], t.Bytes(t.N(20))...)
	}
	t.Descf("%s\n%s\n%s", name, d.Summary(), fmt.Sprintf("%d bytes", len(b)))
	op := byte(t.Weighted(8, 1))
	var want []byte
	var err error
	if op == 0 {
		p, n, e := psd.Decode(bytes.NewReader(b), nil)
		if err = e; err == nil {
			want = append([]byte(fmt.Sprintf("read %d\n", n)), dump(p)...)
		}
	} else {
		c, n, e := psd.DecodeConfig(bytes.NewReader(b))
		if err = e; err == nil {
			var o bytes.Buffer
			dumpConfig(&o, &c)
			want = append([]byte(fmt.Sprintf("read %d\n", n)), o.Bytes()...)
		}
	}
	hd := make([]byte, 5)
	hd[0] = op
	binary.BigEndian.PutUint32(hd[1:], uint32(len(b)))
	out := getProc(name).call(t, name, hd, b)
	switch {
	case out[0] == 2:
		t.Fatalf("the %s build panics: %s", name, out[1:])
	case out[0] == 1 && err == nil:
		t.Fatalf("the %s build rejects what the native build accepts: %s", name, out[1:])
	case out[0] == 0 && err != nil:
		t.Fatalf("the %s build accepts what the native build rejects: %v", name, err)
	case out[0] == 0 && !bytes.Equal(out[1:], want):
		t.Fatalf("the %s build gives another result: %s", name, diffAt(out[1:], want))
	}
	if err == nil {
		t.Label("%s accepted", name)
	} else {
		t.Label("%s rejected", name)
	}
}
