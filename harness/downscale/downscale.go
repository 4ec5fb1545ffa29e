// Package downscale stands in for github.com/oov/downscale, which the module
// cache of the sandbox does not have. It averages the covered area.
package downscale

import (
	"context"
	"errors"
	"image"
)

// ErrAborted is returned when the context is done.
var ErrAborted = errors.New("downscale: aborted")

// NRGBAFast scales src down to dest.
func NRGBAFast(ctx context.Context, dest *image.NRGBA, src *image.NRGBA) error {
	dw, dh := dest.Rect.Dx(), dest.Rect.Dy()
	sw, sh := src.Rect.Dx(), src.Rect.Dy()
	if dw <= 0 || dh <= 0 || sw <= 0 || sh <= 0 {
		return errors.New("downscale: empty image")
	}
	for y := 0; y < dh; y++ {
		if ctx.Err() != nil {
			return ErrAborted
		}
		y0, y1 := y*sh/dh, ((y+1)*sh+dh-1)/dh
		for x := 0; x < dw; x++ {
			x0, x1 := x*sw/dw, ((x+1)*sw+dw-1)/dw
			var r, g, b, a, n int
			for yy := y0; yy < y1; yy++ {
				for xx := x0; xx < x1; xx++ {
					p := src.Pix[yy*src.Stride+xx*4:]
					al := int(p[3])
					r += int(p[0]) * al
					g += int(p[1]) * al
					b += int(p[2]) * al
					a += al
					n++
				}
			}
			o := y*dest.Stride + x*4
			if a > 0 {
				dest.Pix[o], dest.Pix[o+1], dest.Pix[o+2] = uint8(r/a), uint8(g/a), uint8(b/a)
			}
			dest.Pix[o+3] = uint8(a / n)
		}
	}
	return nil
}
