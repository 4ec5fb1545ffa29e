// Command peer decodes documents on request. It is built for platforms other
// than the harness's own (386, WebAssembly) and driven over pipes.
//
// Request:  op byte, 32-bit length, data.
// Response: 32-bit length, then a status byte (0 ok, 1 error, 2 panic) and
// the dump, error or panic text.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"runtime/debug"

	"github.com/oov/psd"

	"verif/psddump"
)

func handle(op byte, data []byte) (out []byte) {
	defer func() {
		if p := recover(); p != nil {
			out = append([]byte{2}, fmt.Sprintf("%v\n%s", p, debug.Stack())...)
		}
	}()
	switch op {
	case 0:
		p, n, err := psd.Decode(bytes.NewReader(data), nil)
		if err != nil {
			return append([]byte{1}, err.Error()...)
		}
		psddump.Touch(p)
		return append(append([]byte{0}, fmt.Sprintf("read %d\n", n)...), psddump.Dump(p)...)
	case 1:
		c, n, err := psd.DecodeConfig(bytes.NewReader(data))
		if err != nil {
			return append([]byte{1}, err.Error()...)
		}
		var b bytes.Buffer
		psddump.Config(&b, &c)
		return append([]byte{0}, fmt.Sprintf("read %d\n%s", n, b.String())...)
	}
	return []byte{2}
}

func main() {
	debug.SetGCPercent(50)
	var h [5]byte
	for {
		if _, err := io.ReadFull(os.Stdin, h[:]); err != nil {
			return
		}
		data := make([]byte, binary.BigEndian.Uint32(h[1:]))
		if _, err := io.ReadFull(os.Stdin, data); err != nil {
			return
		}
		out := handle(h[0], data)
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(len(out)))
		if _, err := os.Stdout.Write(append(l[:], out...)); err != nil {
			return
		}
	}
}
