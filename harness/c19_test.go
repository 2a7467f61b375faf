package harness

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC19 = "random images 1..24 x 1..24 (a few up to 600 wide or high) in every colour model Go can encode (8- and 16-bit gray, RGB(A), premultiplied or not, palette, YCbCr), written as PNG, JPEG or GIF (GIF frames also at an offset) into a scratch directory; every pixel compared with the standard decoder's. Scaling to 1..40 x 1..40 (a few up to 700 wide or high) is compared with the proportional-position and bilinear formulas, and with scaling after loading. Files truncated at any byte, damaged or missing must give an error. Non-trivial: more than one pixel and both sides different, or a scaling that changes the size."

func TestC19(t *testing.T) {
	run(t, "C19", ruleC19,
		sub{name: "load", n: 8000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c19Load[float32], c19Load[float64]) }},
		sub{name: "save", n: 6000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c19Save[float32], c19Save[float64]) }},
		sub{name: "roundTrip", n: 5000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c19Trip[float32], c19Trip[float64]) }},
		sub{name: "simple", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c19Simple[float32], c19Simple[float64], c19Simple[int], c19Simple[int16], c19Simple[int32], c19Simple[int64])
		}},
		sub{name: "smooth", n: 6000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c19Smooth[float32], c19Smooth[float64]) }},
		sub{name: "loadScaled", n: 8000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c19Scaled[float32], c19Scaled[float64]) }},
		sub{name: "errors", n: 4000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c19Errors[float32], c19Errors[float64]) }},
	)
}

func epsT[T types.Number]() float64 {
	if bitsOf[T]() == 32 {
		return 1.0 / (1 << 22)
	}
	return 1e-13
}

// scratch is a directory of this process only.
func scratch(rt *rapid.T) (string, func()) {
	d, err := os.MkdirTemp("", "verif-img-")
	if err != nil {
		rt.Fatalf("scratch directory: %v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

func genImage(rt *rapid.T, c *rec, opaque8 bool) (image.Image, string) {
	w, h := 1+uniform(rt, "w", 24), 1+uniform(rt, "h", 24)
	switch uniform(rt, "large", 60) {
	case 0:
		w, h = 1+uniform(rt, "w", 600), 1+h/6
	case 1:
		w, h = 1+w/6, 1+uniform(rt, "h", 600)
	}
	if uniform(rt, "tiny", 4) == 0 {
		w, h = 1+w%4, 1+h%4
	}
	r := genRng(rt, "pixels")
	kind := uniform(rt, "model", 8)
	if opaque8 {
		kind = []int{0, 3, 1, 7, 0, 3, 1, 7}[kind]
	}
	flat := uniform(rt, "flat", 6) == 0
	cr := *r
	px := func() color.NRGBA64 {
		if flat {
			*r = cr
		}
		v := color.NRGBA64{uint16(r.next()), uint16(r.next()), uint16(r.next()), uint16(r.next())}
		switch r.intn(6) {
		case 0:
			v.A = 0xffff
		case 1:
			v.R, v.G = 0, 0xffff
		case 2:
			v.A = 0
		}
		if opaque8 {
			v.A = 0xffff
		}
		return v
	}
	rect := image.Rect(0, 0, w, h)
	var m image.Image
	name := []string{"gray", "rgba", "gray16", "nrgba", "nrgba64", "rgba64", "rgba-alpha", "paletted"}[kind]
	fill := func(set func(x, y int, c color.Color)) {
		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				set(x, y, px())
			}
		}
	}
	switch kind {
	case 0:
		p := image.NewGray(rect)
		fill(p.Set)
		m = p
	case 1, 6:
		p := image.NewRGBA(rect)
		fill(func(x, y int, c color.Color) {
			n := c.(color.NRGBA64)
			if kind == 1 {
				n.A = 0xffff
			}
			p.Set(x, y, n)
		})
		m = p
	case 2:
		p := image.NewGray16(rect)
		fill(p.Set)
		m = p
	case 3:
		p := image.NewNRGBA(rect)
		fill(p.Set)
		m = p
	case 4:
		p := image.NewNRGBA64(rect)
		fill(p.Set)
		m = p
	case 5:
		p := image.NewRGBA64(rect)
		fill(p.Set)
		m = p
	case 7:
		var pal color.Palette
		for i := 2 + r.intn(30); i > 0; i-- {
			v := px()
			pal = append(pal, color.NRGBA{uint8(v.R >> 8), uint8(v.G >> 8), uint8(v.B >> 8), uint8(v.A >> 8)})
		}
		p := image.NewPaletted(rect, pal)
		for i := range p.Pix {
			p.Pix[i] = uint8(r.intn(len(pal)))
			if flat {
				p.Pix[i] = 1
			}
		}
		m = p
	}
	c.K("%s %dx%d seed%d", name, w, h, r.s)
	c.NT(w != h)
	c.L(name)
	if flat {
		c.L("one colour")
	}
	return m, name
}

// encode writes the image in a format drawn; the reference is what the
// standard library decodes from the bytes.
func encode(rt *rapid.T, c *rec, m image.Image) []byte {
	var buf bytes.Buffer
	var err error
	w, h := m.Bounds().Dx(), m.Bounds().Dy()
	switch k := uniform(rt, "format", 5); k {
	case 0, 1:
		c.L("png")
		err = png.Encode(&buf, m)
	case 2:
		c.L("jpeg")
		err = jpeg.Encode(&buf, m, &jpeg.Options{Quality: 20 + uniform(rt, "quality", 80)})
	default:
		c.L("gif")
		var o bytes.Buffer
		if err = gif.Encode(&o, m, &gif.Options{NumColors: 2 + uniform(rt, "colors", 255)}); err != nil {
			break
		}
		g, e := gif.DecodeAll(&o)
		if e != nil {
			err = e
			break
		}
		if k == 4 {
			c.L("offset frame")
			dx, dy := uniform(rt, "dx", 9), uniform(rt, "dy", 9)
			p := g.Image[0]
			p.Rect = p.Rect.Add(image.Pt(dx, dy))
			g.Config.Width, g.Config.Height = w+dx+uniform(rt, "px", 4), h+dy+uniform(rt, "py", 4)
		}
		err = gif.EncodeAll(&buf, g)
	}
	if err != nil {
		rt.Fatalf("encoding the test image: %v", err)
	}
	return buf.Bytes()
}

func decode(rt *rapid.T, b []byte) image.Image {
	m, _, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		rt.Fatalf("decoding the test image: %v", err)
	}
	return m
}

func rgba(m image.Image, x, y int) [4]float64 {
	r, g, b, a := m.At(m.Bounds().Min.X+x, m.Bounds().Min.Y+y).RGBA()
	return [4]float64{float64(r) / 65535, float64(g) / 65535, float64(b) / 65535, float64(a) / 65535}
}

func write(rt *rapid.T, dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		rt.Fatalf("%v", err)
	}
	return p
}

func at[T types.Number](t tensor.Tensor[T], d, x, y int) float64 {
	v, err := t.Get(uint(d), uint(x), uint(y))
	if err != nil {
		return math.NaN()
	}
	return float64(v)
}

func c19Load[T types.Number](rt *rapid.T, c *rec) {
	dir, done := scratch(rt)
	defer done()
	m, name := genImage(rt, c, false)
	b := encode(rt, c, m)
	p := write(rt, dir, "image", b)
	ref := decode(rt, b)
	t, err := img.LoadImage[T](p)
	if err != nil {
		rt.Fatalf("%s: %v", name, err)
	}
	w, h := ref.Bounds().Dx(), ref.Bounds().Dy()
	if !eqShape(t.GetShape(), []uint{4, uint(w), uint(h)}) {
		rt.Fatalf("%s %dx%d: tensor shape %v", name, w, h, t.GetShape())
	}
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			want := rgba(ref, x, y)
			for d := 0; d < 4; d++ {
				if g := at(t, d, x, y); !(math.Abs(g-want[d]) <= epsT[T]()) {
					rt.Fatalf("%s %dx%d bounds %v: channel %d at %d,%d is %v, want %v", name, w, h, ref.Bounds(), d, x, y, g, want[d])
				}
			}
		}
	}
	after, _ := os.ReadFile(p)
	if !bytes.Equal(after, b) {
		rt.Fatalf("loading changed the file")
	}
}

// genTensorImg draws a tensor with values in [0,1], many of them multiples of 1/255.
func genTensorImg[T types.Number](rt *rapid.T, c *rec, ch int) tensor.Tensor[T] {
	w, h := 1+uniform(rt, "w", 20), 1+uniform(rt, "h", 20)
	r := genRng(rt, "pixels")
	n := ch * w * h
	v := make([]T, n)
	for i := range v {
		switch r.intn(4) {
		case 0:
			v[i] = T(r.f64())
		case 1:
			v[i] = T(r.intn(2))
		default:
			v[i] = T(float64(r.intn(256)) / 255)
		}
	}
	c.K("%dx%dx%d seed%d", ch, w, h, r.s)
	c.NT(w != h)
	return mk(v, []uint{uint(ch), uint(w), uint(h)})
}

func c19Save[T types.Number](rt *rapid.T, c *rec) {
	dir, done := scratch(rt)
	defer done()
	ch := 4
	if uniform(rt, "more", 6) == 0 {
		ch = 5
	}
	t := genTensorImg[T](rt, c, ch)
	w, h := int(t.GetShape()[1]), int(t.GetShape()[2])
	before := t.GetData()
	m, err := img.ToImg(t)
	if err != nil {
		rt.Fatalf("ToImg: %v", err)
	}
	if m.Bounds() != image.Rect(0, 0, w, h) {
		rt.Fatalf("ToImg of %v: bounds %v", t.GetShape(), m.Bounds())
	}
	conv := func(x, y int) color.RGBA {
		if q, ok := m.(*image.RGBA); ok {
			return q.RGBAAt(x, y)
		}
		r, g, b, a := m.At(x, y).RGBA()
		return color.RGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(a >> 8)}
	}
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			q := conv(x, y)
			for d, g := range []uint8{q.R, q.G, q.B, q.A} {
				v := at(t, d, x, y) * 255
				ok := math.Abs(float64(g)-v) < 1+1e-4
				if near := math.Round(v); float64(T(near/255)) == at(t, d, x, y) {
					ok = float64(g) == near
				}
				if !ok {
					rt.Fatalf("ToImg of %v: channel %d at %d,%d is %d for %v/255", t.GetShape(), d, x, y, g, v)
				}
			}
		}
	}
	if d := sameAll(t.GetData(), before); d != "" {
		rt.Fatalf("ToImg changed the tensor: %s", d)
	}
	// files hold what the encoders make of this image
	p := filepath.Join(dir, "out")
	var want bytes.Buffer
	if uniform(rt, "jpg", 2) == 1 {
		q := 1 + uniform(rt, "quality", 100)
		err = img.JpgSave(t, p, q)
		jpeg.Encode(&want, m, &jpeg.Options{Quality: q})
		c.L("jpg")
	} else {
		err = img.PngSave(t, p)
		png.Encode(&want, m)
		c.L("png")
	}
	if err != nil {
		rt.Fatalf("saving: %v", err)
	}
	b, err := os.ReadFile(p)
	if err != nil {
		rt.Fatalf("saved file: %v", err)
	}
	got, _, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		rt.Fatalf("the saved file does not decode: %v", err)
	}
	ref := decode(rt, want.Bytes())
	if got.Bounds() != ref.Bounds() {
		rt.Fatalf("saved image has bounds %v, want %v", got.Bounds(), ref.Bounds())
	}
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			if rgba(got, x, y) != rgba(ref, x, y) {
				rt.Fatalf("saved image at %d,%d: %v, want %v", x, y, rgba(got, x, y), rgba(ref, x, y))
			}
		}
	}
}

func c19Trip[T types.Number](rt *rapid.T, c *rec) {
	dir, done := scratch(rt)
	defer done()
	m, name := genImage(rt, c, true)
	var buf bytes.Buffer
	if err := png.Encode(&buf, m); err != nil {
		rt.Fatalf("%v", err)
	}
	p := write(rt, dir, "a.png", buf.Bytes())
	t, err := img.LoadImage[T](p)
	if err != nil {
		rt.Fatalf("%s: %v", name, err)
	}
	q := filepath.Join(dir, "b.png")
	for round := 0; round < 2; round++ {
		if err := img.PngSave(t, q); err != nil {
			rt.Fatalf("%s: PngSave: %v", name, err)
		}
		u, err := img.LoadImage[T](q)
		if err != nil {
			rt.Fatalf("%s: %v", name, err)
		}
		if !eqShape(u.GetShape(), t.GetShape()) {
			rt.Fatalf("%s: shape %v after saving and loading %v", name, u.GetShape(), t.GetShape())
		}
		if d := sameAll(u.GetData(), t.GetData()); d != "" {
			rt.Fatalf("%s: after saving and loading: %s", name, d)
		}
	}
}

// srcPos is the proportional position and whether it is too close to an
// integer to say which pixel the rounding of the quotient gives.
func srcPos(x, from, to int) (int, bool, float64) {
	k := x * from / to
	return k, x*from%to == 0 && k > 0, float64(x) * float64(from) / float64(to)
}

func c19Scale[T types.Number](rt *rapid.T, c *rec, modes ...int) (tensor.Tensor[T], int, int, int, int, int) {
	ch := 1 + uniform(rt, "channels", 6)
	w, h := 1+uniform(rt, "w", 20), 1+uniform(rt, "h", 20)
	data := genVals[T](rt, c, "pixels", ch*w*h, modes...)
	if uniform(rt, "flat", 5) == 0 {
		for i := range data {
			data[i] = data[0]
		}
		c.L("one value")
	}
	nw, nh := newSize(rt)
	switch uniform(rt, "size", 6) {
	case 0:
		nw, nh = w, h
		c.L("same size")
	case 1:
		nw, nh = w*(1+uniform(rt, "fx", 3)), h*(1+uniform(rt, "fy", 3))
		c.L("multiple")
	}
	c.K("%dx%dx%d>%dx%d", ch, w, h, nw, nh)
	c.NT(nw != w || nh != h)
	return mk(data, []uint{uint(ch), uint(w), uint(h)}), ch, w, h, nw, nh
}

func c19Simple[T types.Number](rt *rapid.T, c *rec) {
	t, ch, w, h, nw, nh := c19Scale[T](rt, c)
	was := t.GetData()
	g, err := img.SimpleScale(t, uint(nw), uint(nh))
	if err != nil {
		rt.Fatalf("SimpleScale %v to %dx%d: %v", t.GetShape(), nw, nh, err)
	}
	if d := diffData(t.GetData(), was); d != "" {
		rt.Fatalf("SimpleScale changed its input: %s", d)
	}
	if !eqShape(g.GetShape(), []uint{uint(ch), uint(nw), uint(nh)}) {
		rt.Fatalf("SimpleScale %v to %dx%d: shape %v", t.GetShape(), nw, nh, g.GetShape())
	}
	if nw == w && nh == h {
		if d := diffData(g.GetData(), was); d != "" {
			rt.Fatalf("SimpleScale of %v to its own size: %s", t.GetShape(), d)
		}
	}
	gd := g.GetData()
	for x := 0; x < nw; x++ {
		for y := 0; y < nh; y++ {
			X, ex, _ := srcPos(x, w, nw)
			Y, ey, _ := srcPos(y, h, nh)
			for d := 0; d < ch; d++ {
				v := gd[(d*nw+x)*nh+y]
				ok := eqVal(v, was[(d*w+X)*h+Y])
				if !ok && ex && eqVal(v, was[(d*w+X-1)*h+Y]) {
					ok = true
				}
				if !ok && ey && eqVal(v, was[(d*w+X)*h+Y-1]) {
					ok = true
				}
				if !ok && ex && ey && eqVal(v, was[(d*w+X-1)*h+Y-1]) {
					ok = true
				}
				if !ok {
					rt.Fatalf("SimpleScale %v to %dx%d: channel %d at %d,%d is %v, want %v (pixel %d,%d)", t.GetShape(), nw, nh, d, x, y, v, was[(d*w+X)*h+Y], X, Y)
				}
			}
		}
	}
}

// bilin is the bilinear interpolation, the last pixel being its own neighbour.
func bilin(w, h int, fx, fy float64, get func(x, y int) float64) float64 {
	x, y := min(int(fx), w-1), min(int(fy), h-1)
	x1, y1 := min(x+1, w-1), min(y+1, h-1)
	dx, dy := fx-float64(x), fy-float64(y)
	return (1-dx)*((1-dy)*get(x, y)+dy*get(x, y1)) + dx*((1-dy)*get(x1, y)+dy*get(x1, y1))
}

func c19Smooth[T types.Number](rt *rapid.T, c *rec) {
	t, ch, w, h, nw, nh := c19Scale[T](rt, c, dSmall, dDecimal)
	was := t.GetData()
	g, err := img.SmoothScale(t, uint(nw), uint(nh))
	if err != nil {
		rt.Fatalf("SmoothScale %v to %dx%d: %v", t.GetShape(), nw, nh, err)
	}
	if d := diffData(t.GetData(), was); d != "" {
		rt.Fatalf("SmoothScale changed its input: %s", d)
	}
	if !eqShape(g.GetShape(), []uint{uint(ch), uint(nw), uint(nh)}) {
		rt.Fatalf("SmoothScale %v to %dx%d: shape %v", t.GetShape(), nw, nh, g.GetShape())
	}
	if nw == w && nh == h {
		if d := diffData(g.GetData(), was); d != "" {
			rt.Fatalf("SmoothScale of %v to its own size: %s", t.GetShape(), d)
		}
	}
	gd := g.GetData()
	for x := 0; x < nw; x++ {
		for y := 0; y < nh; y++ {
			_, _, fx := srcPos(x, w, nw)
			_, _, fy := srcPos(y, h, nh)
			for d := 0; d < ch; d++ {
				want := bilin(w, h, fx, fy, func(x, y int) float64 { return float64(was[(d*w+x)*h+y]) })
				if v := float64(gd[(d*nw+x)*nh+y]); !(math.Abs(v-want) <= epsT[T]()*20) {
					rt.Fatalf("SmoothScale %v to %dx%d: channel %d at %d,%d is %v, want %v", t.GetShape(), nw, nh, d, x, y, v, want)
				}
			}
		}
	}
}

func c19Scaled[T types.Number](rt *rapid.T, c *rec) {
	dir, done := scratch(rt)
	defer done()
	m, name := genImage(rt, c, false)
	b := encode(rt, c, m)
	p := write(rt, dir, "image", b)
	ref := decode(rt, b)
	w, h := ref.Bounds().Dx(), ref.Bounds().Dy()
	nw, nh := newSize(rt)
	if uniform(rt, "same", 5) == 0 {
		nw, nh = w, h
		c.L("same size")
	}
	c.K("to %dx%d", nw, nh)
	c.NT(nw != w || nh != h)
	full, err := img.LoadImage[T](p)
	if err != nil {
		rt.Fatalf("%s: %v", name, err)
	}
	flat := true
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			flat = flat && rgba(ref, x, y) == rgba(ref, 0, 0)
		}
	}
	smooth := uniform(rt, "smooth", 2) == 1
	var t, then tensor.Tensor[T]
	tol := epsT[T]()
	if smooth {
		c.L("smooth")
		t, err = img.LoadSmoothScaled[T](p, uint(nw), uint(nh))
		then, _ = img.SmoothScale(full, uint(nw), uint(nh))
		if !flat && (nw != w || nh != h) {
			tol += 1.0 / 65535 // interpolated in 16-bit steps
		}
	} else {
		t, err = img.LoadSimpleScaled[T](p, uint(nw), uint(nh))
		then, _ = img.SimpleScale(full, uint(nw), uint(nh))
	}
	if err != nil {
		rt.Fatalf("%s %dx%d to %dx%d: %v", name, w, h, nw, nh, err)
	}
	if !eqShape(t.GetShape(), []uint{4, uint(nw), uint(nh)}) {
		rt.Fatalf("%s %dx%d to %dx%d: shape %v", name, w, h, nw, nh, t.GetShape())
	}
	for x := 0; x < nw; x++ {
		for y := 0; y < nh; y++ {
			X, ex, fx := srcPos(x, w, nw)
			Y, ey, fy := srcPos(y, h, nh)
			for d := 0; d < 4; d++ {
				v := at(t, d, x, y)
				// (at the border of two pixels the rounding of the position decides)
				if u := at(then, d, x, y); !(math.Abs(u-v) <= tol) && (smooth || !ex && !ey) {
					rt.Fatalf("%s %dx%d to %dx%d (smooth %v): channel %d at %d,%d is %v; scaling after loading gives %v", name, w, h, nw, nh, smooth, d, x, y, v, u)
				}
				var ok bool
				var want float64
				if smooth {
					want = bilin(w, h, fx, fy, func(x, y int) float64 { return rgba(ref, x, y)[d] })
					ok = math.Abs(v-want) <= tol
				} else {
					want = rgba(ref, X, Y)[d]
					is := func(x, y int) bool { return math.Abs(v-rgba(ref, x, y)[d]) <= tol }
					ok = is(X, Y) || (ex && is(X-1, Y)) || (ey && is(X, Y-1)) || (ex && ey && is(X-1, Y-1))
				}
				if !ok {
					rt.Fatalf("%s %dx%d bounds %v to %dx%d (smooth %v, one colour %v): channel %d at %d,%d is %v, want %v", name, w, h, ref.Bounds(), nw, nh, smooth, flat, d, x, y, v, want)
				}
			}
		}
	}
}

func c19Errors[T types.Number](rt *rapid.T, c *rec) {
	dir, done := scratch(rt)
	defer done()
	must := func(what string, f func() (bool, error)) {
		var err error
		var some bool
		if m := catch(func() { some, err = f() }); m != "" {
			rt.Fatalf("%s: %s", what, m)
		}
		if err == nil {
			rt.Fatalf("%s: no error", what)
		}
		if some {
			rt.Fatalf("%s: an error and a result", what)
		}
	}
	loaders := func(what, p string) {
		must("LoadImage: "+what, func() (bool, error) { t, err := img.LoadImage[T](p); return t != nil, err })
		must("LoadSimpleScaled: "+what, func() (bool, error) { t, err := img.LoadSimpleScaled[T](p, 3, 2); return t != nil, err })
		must("LoadSmoothScaled: "+what, func() (bool, error) { t, err := img.LoadSmoothScaled[T](p, 3, 2); return t != nil, err })
	}
	switch uniform(rt, "case", 6) {
	case 0:
		c.K("missing")
		loaders("missing file", filepath.Join(dir, "none.png"))
		loaders("directory", dir)
		loaders("empty file", write(rt, dir, "empty", nil))
	case 1, 2:
		m, _ := genImage(rt, c, false)
		b := encode(rt, c, m)
		k := uniform(rt, "cut", len(b))
		b = b[:k]
		_, _, err := image.Decode(bytes.NewReader(b))
		c.K("cut %d", k)
		out.Extra["faults_injected"]++
		if err != nil {
			c.NT(k > 8)
			loaders(fmt.Sprintf("cut to %d bytes", k), write(rt, dir, "cut", b))
		}
	case 3:
		m, _ := genImage(rt, c, false)
		b := encode(rt, c, m)
		k := uniform(rt, "at", len(b))
		b = append([]byte{}, b...)
		b[k] ^= byte(1 + uniform(rt, "flip", 255))
		cfg, _, e := image.DecodeConfig(bytes.NewReader(b))
		if e == nil && cfg.Width*cfg.Height > 1<<16 {
			c.L("skipped: claims a huge size")
			return
		}
		_, _, err := image.Decode(bytes.NewReader(b))
		c.K("damaged at %d", k)
		out.Extra["faults_injected"]++
		if err != nil {
			c.NT(k > 8)
			loaders(fmt.Sprintf("damaged at %d", k), write(rt, dir, "bad", b))
		}
	case 4:
		rank := pick(rt, "rank", 0, 1, 2, 4, 5)
		sh := genShapeN(rt, "shape", rank, 30)
		t := mk(make([]T, prod(sh)), sh)
		c.K("shape %v", sh)
		c.NT(true)
		must("ToImg", func() (bool, error) { m, err := img.ToImg[T](t); return m != nil, err })
		must("PngSave", func() (bool, error) { return false, img.PngSave[T](t, filepath.Join(dir, "x.png")) })
		must("JpgSave", func() (bool, error) { return false, img.JpgSave[T](t, filepath.Join(dir, "x.jpg"), 50) })
		must("SimpleScale", func() (bool, error) { m, err := img.SimpleScale[T](t, 2, 3); return m != nil, err })
		must("SmoothScale", func() (bool, error) { m, err := img.SmoothScale[T](t, 2, 3); return m != nil, err })
	case 5:
		ch := 1 + uniform(rt, "channels", 3)
		t := genTensorImg[T](rt, c, ch)
		c.NT(true)
		must("ToImg of too few channels", func() (bool, error) { m, err := img.ToImg(t); return m != nil, err })
		full := genTensorImg[T](rt, c, 4)
		must("PngSave into a missing directory", func() (bool, error) { return false, img.PngSave(full, filepath.Join(dir, "no", "x.png")) })
		must("JpgSave into a missing directory", func() (bool, error) { return false, img.JpgSave(full, filepath.Join(dir, "no", "x.jpg"), 50) })
	}
}

func newSize(rt *rapid.T) (int, int) {
	nw, nh := 1+uniform(rt, "nw", 40), 1+uniform(rt, "nh", 40)
	switch uniform(rt, "largeNew", 60) {
	case 0:
		return 1 + uniform(rt, "nw", 700), 1 + nh/6
	case 1:
		return 1 + nw/6, 1 + uniform(rt, "nh", 700)
	}
	return nw, nh
}
