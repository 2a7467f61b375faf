package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"
	"testing/iotest"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC09 = "sequences of 1..5 tensors of rank 0..5 (all six element types; arbitrary bit patterns including NaN payloads, infinities, signed zeros, extremes) written in plain or full form to one stream and read back through whole, half-sized and one-byte readers, into tensors of the same and of other shapes. Fault enumeration: every truncation point of the stream and every byte budget after which the writer fails. Damaged full forms: header numbers replaced, noise, cuts; a refused load must leave the tensor as it was. Non-trivial: at least two elements in all, or at least one injected fault."

func TestC09(t *testing.T) {
	run(t, "C09", ruleC09,
		sub{name: "roundTrip", n: 12000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c09Round[float32], c09Round[float64], c09Round[int], c09Round[int16], c09Round[int32], c09Round[int64])
		}},
		sub{name: "truncated", n: 3000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c09Trunc[float32], c09Trunc[float64], c09Trunc[int], c09Trunc[int16], c09Trunc[int32], c09Trunc[int64])
		}},
		sub{name: "failingWriter", n: 3000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c09Fail[float32], c09Fail[float64], c09Fail[int], c09Fail[int16], c09Fail[int32], c09Fail[int64])
		}},
		sub{name: "damaged", n: 12000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c09Damaged[float32], c09Damaged[float64], c09Damaged[int], c09Damaged[int16], c09Damaged[int32], c09Damaged[int64])
		}},
	)
}

// anyBits draws an arbitrary bit pattern (float NaNs are quiet: a signalling
// one may be quieted by a move through a register on some machines).
func anyBits[T types.Number](r *rng) T {
	var z T
	switch p := any(&z).(type) {
	case *float32:
		u := uint32(r.next())
		if u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 {
			u |= 1 << 22
		}
		*p = math.Float32frombits(u)
	case *float64:
		u := r.next()
		if u&0x7ff0000000000000 == 0x7ff0000000000000 && u&0xfffffffffffff != 0 {
			u |= 1 << 51
		}
		*p = math.Float64frombits(u)
	case *int16:
		*p = int16(r.next())
	case *int32:
		*p = int32(r.next())
	case *int64:
		*p = int64(r.next())
	case *int:
		*p = int(r.next())
	}
	return z
}

// newLike makes a tensor holding exactly the given bits.
func newLike[T types.Number](d []T, shape []uint) *tensor.TensorMat[T] {
	t := tensor.NewZeros[T](append([]uint{}, shape...)...)
	for i, o := range t.GetOperands() {
		o.Value = d[i]
	}
	return t
}

func diffBits[T types.Number](t *tensor.TensorMat[T], want []T) string {
	ops := t.GetOperands()
	if len(ops) != len(want) {
		return fmt.Sprintf("%d elements, want %d", len(ops), len(want))
	}
	for i, o := range ops {
		if !sameBits(o.Value, want[i]) {
			return fmt.Sprintf("element %d is %v, want %v (bits differ)", i, o.Value, want[i])
		}
	}
	return ""
}

type streamed[T types.Number] struct {
	shape []uint
	d     []T
	full  bool
}

func genStream[T types.Number](rt *rapid.T, c *rec, max int) []streamed[T] {
	n := rapid.IntRange(1, 5).Draw(rt, "tensors")
	r := genRng(rt, "seed")
	var l []streamed[T]
	total := 0
	for i := 0; i < n; i++ {
		s := streamed[T]{shape: genShape(rt, "shape", 0, 5, max), full: rapid.Bool().Draw(rt, "full")}
		mode := rapid.IntRange(0, 3).Draw(rt, "mode")
		for k := prod(s.shape); k > 0; k-- {
			switch {
			case mode == 0:
				s.d = append(s.d, special[T](r))
			case mode == 1:
				s.d = append(s.d, T(r.between(-9, 9)))
			default:
				s.d = append(s.d, anyBits[T](r))
			}
		}
		total += len(s.d)
		c.K("%v full=%v mode%d", s.shape, s.full, mode)
		l = append(l, s)
	}
	c.K("seed%d", r.s)
	c.NT(total > 1)
	return l
}

func writeAll[T types.Number](l []streamed[T], w io.Writer) (int, error) {
	for i, s := range l {
		t := newLike(s.d, s.shape)
		var err error
		if s.full {
			err = t.SaveFull(w)
		} else {
			err = t.Save(w)
		}
		if err != nil {
			return i, err
		}
	}
	return len(l), nil
}

func wrapReader(kind int, r io.Reader) io.Reader {
	switch kind {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.HalfReader(r)
	case 3:
		return iotest.DataErrReader(r)
	}
	return r
}

func c09Round[T types.Number](rt *rapid.T, c *rec) {
	l := genStream[T](rt, c, pick(rt, "max", 600, 600, 1500))
	var buf bytes.Buffer
	if _, err := writeAll(l, &buf); err != nil {
		rt.Fatalf("writing: %v", err)
	}
	size := buf.Len()
	sentinel := []byte{0xde, 0xad, 0xbe, 0xef, 1}
	if uniform(rt, "atEnd", 2) == 1 {
		sentinel = sentinel[:0] // the last element ends the stream
		c.L("stream ends")
	}
	buf.Write(sentinel)
	kind := rapid.IntRange(0, 3).Draw(rt, "reader")
	c.L(fmt.Sprintf("reader%d", kind))
	rd := wrapReader(kind, &buf)
	for i, s := range l {
		var t *tensor.TensorMat[T]
		if s.full {
			// into any tensor
			t = tensor.NewOnes[T](genShape(rt, "into", 0, 4, 30)...)
			if err := t.LoadFull(rd); err != nil {
				rt.Fatalf("LoadFull of tensor %d %v: %v", i, s.shape, err)
			}
		} else {
			sh := s.shape
			if rapid.Bool().Draw(rt, "otherShape") {
				sh = []uint{1, uint(len(s.d))}
			}
			t = tensor.NewOnes[T](sh...)
			if err := t.Load(rd); err != nil {
				rt.Fatalf("Load of tensor %d %v: %v", i, s.shape, err)
			}
			if !eqShape(t.GetShape(), sh) {
				rt.Fatalf("Load changed the shape %v to %v", sh, t.GetShape())
			}
		}
		if d := diffBits(t, s.d); d != "" {
			rt.Fatalf("tensor %d of %d, shape %v, full=%v: %s", i, len(l), s.shape, s.full, d)
		}
		if s.full {
			if !eqShape(t.GetShape(), s.shape) {
				rt.Fatalf("LoadFull gave shape %v, want %v", t.GetShape(), s.shape)
			}
			if !eqShape(t.GetMulIndex(), strides(s.shape)) || int(t.GetSize()) != len(s.d) {
				rt.Fatalf("LoadFull of shape %v: index multipliers %v, size %d", s.shape, t.GetMulIndex(), t.GetSize())
			}
			checkTensor[T](rt, "LoadFull", t, s.shape, s.d)
		}
	}
	rest, err := io.ReadAll(rd)
	if err != nil || !bytes.Equal(rest, sentinel) {
		rt.Fatalf("after reading %d tensors (%d bytes) %d bytes are left, want the %d bytes written after them", len(l), size, len(rest), len(sentinel))
	}
}

func c09Trunc[T types.Number](rt *rapid.T, c *rec) {
	l := genStream[T](rt, c, 24)
	var buf bytes.Buffer
	if _, err := writeAll(l, &buf); err != nil {
		rt.Fatalf("writing: %v", err)
	}
	all := buf.Bytes()
	kind := rapid.IntRange(0, 3).Draw(rt, "reader")
	fail := rapid.Bool().Draw(rt, "readerFails")
	for cut := 0; cut < len(all); cut++ {
		var rd io.Reader = bytes.NewReader(all[:cut])
		if fail {
			rd = io.MultiReader(rd, iotest.ErrReader(errors.New("read fault")))
		}
		rd = wrapReader(kind, rd)
		var got error
		m := catch(func() {
			for _, s := range l {
				var t *tensor.TensorMat[T]
				if s.full {
					t = tensor.NewOnes[T](2)
					got = t.LoadFull(rd)
				} else {
					t = tensor.NewOnes[T](s.shape...)
					got = t.Load(rd)
				}
				if got != nil {
					if s.full && (!eqShape(t.GetShape(), []uint{2}) || diffBits(t, []T{1, 1}) != "") {
						panic(fmt.Sprintf("LoadFull failed and left %v %v of a tensor [2] of ones", t.GetShape(), t.GetData()))
					}
					return
				}
				if d := diffBits(t, s.d); d != "" {
					got = nil
					panic("no error, but " + d)
				}
			}
		})
		if m != "" {
			rt.Fatalf("stream of %d bytes cut at %d: %s", len(all), cut, m)
		}
		if got == nil {
			rt.Fatalf("stream of %d bytes cut at %d was read without an error", len(all), cut)
		}
		out.Extra["faults_injected"]++
	}
	c.NT(true)
}

type limitedWriter struct {
	left int
	n    int
}

var errFull = errors.New("write fault")

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		w.n += n
		return n, errFull
	}
	w.left -= len(p)
	w.n += len(p)
	return len(p), nil
}

func c09Fail[T types.Number](rt *rapid.T, c *rec) {
	l := genStream[T](rt, c, 24)
	var buf bytes.Buffer
	if _, err := writeAll(l, &buf); err != nil {
		rt.Fatalf("writing: %v", err)
	}
	for k := 0; k < buf.Len(); k++ {
		var err error
		if m := catch(func() { _, err = writeAll(l, &limitedWriter{left: k}) }); m != "" {
			rt.Fatalf("writer failing after %d bytes: %s", k, m)
		}
		if err == nil {
			rt.Fatalf("writer failing after %d of %d bytes: no error", k, buf.Len())
		}
		out.Extra["faults_injected"]++
	}
	if _, err := writeAll(l, &limitedWriter{left: buf.Len()}); err != nil {
		rt.Fatalf("writer with room for all %d bytes: %v", buf.Len(), err)
	}
	c.NT(true)
}

// c09Damaged: LoadFull of bytes that are not (all) those of a saved tensor. The
// format is taken from SaveFull itself: the number of dimensions, the extents,
// the elements. Numbers are small or so large that no allocation could succeed.
func c09Damaged[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 4, 30)
	r := genRng(rt, "seed")
	d := make([]T, prod(shape))
	for i := range d {
		d[i] = anyBits[T](r)
	}
	var buf bytes.Buffer
	if err := newLike(d, shape).SaveFull(&buf); err != nil {
		rt.Fatalf("SaveFull of %v: %v", shape, err)
	}
	b := buf.Bytes()
	head := 8 * (1 + len(shape))
	if len(b) < head {
		head = len(b)
	}
	what := ""
	switch k := uniform(rt, "damage", 4); k {
	case 0, 1: // one or two numbers of the header
		for n := 0; n <= k && head >= 8; n++ {
			i := uniform(rt, "word", head/8)
			v := pick(rt, "number", ^uint64(0), 1<<63, 1<<63-1, 1<<62, 1<<61+1, 0, 1, 2, 3, 7, 100, 1<<52, ^uint64(0)-3)
			binary.LittleEndian.PutUint64(b[8*i:], v)
			what += fmt.Sprintf("word %d = %d ", i, v)
		}
	case 2: // any bytes, the number of dimensions being small
		for i := range b {
			b[i] = byte(r.next())
		}
		if len(b) >= 8 {
			binary.LittleEndian.PutUint64(b, uint64(uniform(rt, "dims", 5)))
			for i := 8; i+8 <= len(b) && i < 40; i += 8 {
				b[i+7] |= 0x40
			}
		}
		what = "noise"
	case 3: // cut after a change
		if head >= 8 {
			i := uniform(rt, "word", head/8)
			v := pick(rt, "number", uint64(1<<62), 5, 2, 1000)
			binary.LittleEndian.PutUint64(b[8*i:], v)
			what = fmt.Sprintf("word %d = %d ", i, v)
		}
		b = b[:uniform(rt, "cut", len(b)+1)]
		what += fmt.Sprintf("cut at %d", len(b))
	}
	c.K("%v %s seed%d", shape, what, r.s)
	old := vals[T](r, dSmall, 6)
	t := mk(old, []uint{3, 2})
	rd := bytes.NewReader(b)
	var err error
	if m := catch(func() { err = t.LoadFull(rd) }); m != "" {
		rt.Fatalf("LoadFull of a damaged tensor %v (%s): %s", shape, what, m)
	}
	c.NT(true)
	if err != nil {
		c.L("refused")
		checkTensor[T](rt, "LoadFull failed, the tensor", t, []uint{3, 2}, old)
		return
	}
	// accepted: then it is the tensor the bytes describe
	c.L("accepted")
	used := len(b) - rd.Len()
	s := t.GetShape()
	if n := len(t.GetOperands()); n != prod(s) || int(t.GetSize()) != n {
		rt.Fatalf("LoadFull of a damaged tensor %v (%s) gives shape %v with %d elements", shape, what, s, n)
	}
	var again bytes.Buffer
	if err := t.SaveFull(&again); err != nil {
		rt.Fatalf("SaveFull: %v", err)
	}
	if again.Len() != used {
		rt.Fatalf("LoadFull of a damaged tensor %v (%s) gives shape %v, using %d bytes; saving it takes %d", shape, what, s, used, again.Len())
	}
}
