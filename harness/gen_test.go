package harness

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ randomness

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int       { return int(r.next() % uint64(n)) }
func (r *rng) between(a, b int) int { return a + r.intn(b-a+1) }
func (r *rng) f64() float64         { return float64(r.next()>>11) / (1 << 53) }

// genRng draws the seed of a bulk source; all of its output is a function of it.
func genRng(rt *rapid.T, label string) *rng {
	return &rng{s: uint64(rapid.Uint32().Draw(rt, label))}
}

func pick[V any](rt *rapid.T, label string, vs ...V) V {
	return vs[uniform(rt, label, len(vs))]
}

// dispatch runs a property at one of the element types.
func dispatch(rt *rapid.T, c *rec, f32, f64, i, i16, i32, i64 func(*rapid.T, *rec)) {
	fs := []func(*rapid.T, *rec){f32, f64, i32, i64, i16, i}
	k := uniform(rt, "elemType", len(fs))
	c.K("%s", []string{"float32", "float64", "int32", "int64", "int16", "int"}[k])
	fs[k](rt, c)
}

func dispatchF(rt *rapid.T, c *rec, f32, f64 func(*rapid.T, *rec)) {
	fs := []func(*rapid.T, *rec){f32, f64}
	k := uniform(rt, "elemType", 2)
	c.K("%s", []string{"float32", "float64"}[k])
	fs[k](rt, c)
}

func isFloat[T types.Number]() bool {
	h := 0.5
	return T(h) != 0
}

func bitsOf[T types.Number]() int {
	var z T
	switch any(z).(type) {
	case int16:
		return 16
	case int32, float32:
		return 32
	}
	return 64
}

// ---------------------------------------------------------------------- shapes

func prod(s []uint) int {
	n := 1
	for _, d := range s {
		n *= int(d)
	}
	return n
}

// genShapeN draws a shape of the given rank with at most max elements.
func genShapeN(rt *rapid.T, label string, rank, max int) []uint {
	s := make([]uint, rank)
	left := max
	for i := range s {
		hi := left
		switch rapid.IntRange(0, 3).Draw(rt, label+"Ext") {
		case 0, 1:
			if hi > 4 {
				hi = 4
			}
		case 2:
			if hi > 9 {
				hi = 9
			}
		}
		if hi > 2000 {
			hi = 2000
		}
		if hi < 1 {
			hi = 1
		}
		s[i] = uint(rapid.IntRange(1, hi).Draw(rt, label))
		left /= int(s[i])
	}
	if max >= 1500 && rank > 0 && uniform(rt, label+"Large", 250) == 249 {
		// a few really large ones, past the sizes at which buffers, blocks
		// and narrow counters end
		i := uniform(rt, label+"At", rank)
		s[i] = 1
		size := 5000 + uniform(rt, label+"Size", 65000)
		if uniform(rt, label+"Past16", 4) == 3 {
			size = 65530 + uniform(rt, label+"Past16By", 3000)
			for j := range s {
				s[j] = 1
			}
		}
		s[i] = uint(1 + size/prod(s))
	}
	return s
}

// genShape draws a shape; size classes up to max elements, ranks lo..hi.
func genShape(rt *rapid.T, label string, lo, hi, max int) []uint {
	lim := max
	switch rapid.IntRange(0, 5).Draw(rt, label+"Class") {
	case 0, 1, 2:
		lim = 24
	case 3, 4:
		lim = 200
	}
	if lim > max {
		lim = max
	}
	rank := rapid.IntRange(lo, hi).Draw(rt, label+"Rank")
	if hi >= 5 && uniform(rt, label+"HighRank", 40) == 39 {
		rank = 7 + uniform(rt, label+"HighRankOf", 6)
	}
	s := genShapeN(rt, label, rank, lim)
	if rank > 0 && max >= 500 && uniform(rt, label+"Edge", 60) == 59 {
		// as many elements as fill a block, one more or one less
		for i := range s {
			s[i] = 1
		}
		n := 1<<uint(4+uniform(rt, label+"EdgeBits", 8)) - 1 + uniform(rt, label+"EdgeBy", 3)
		for n > max {
			n /= 2
		}
		s[uniform(rt, label+"EdgeAt", rank)] = uint(n)
		return s
	}
	if rank > 0 && lim == max && rapid.Bool().Draw(rt, label+"Fill") {
		// one extent takes what is left, so that big sizes do occur
		i := rapid.IntRange(0, rank-1).Draw(rt, label+"FillAt")
		rest := prod(s) / int(s[i])
		if max/rest > 1 {
			s[i] = uint(rapid.IntRange(max/rest/2+1, max/rest).Draw(rt, label+"Big"))
		}
	}
	return s
}

// shapeNT is the usual non-triviality of a shape: some extent above 1 and at
// least two elements.
func shapeNT(s []uint) bool { return prod(s) > 1 }

func shapeLabels(c *rec, s []uint) {
	c.L(fmt.Sprintf("rank%d", len(s)))
	switch n := prod(s); {
	case n == 1:
		c.L("size=1")
	case n <= 24:
		c.L("size<=24")
	case n <= 200:
		c.L("size<=200")
	case n <= 1000:
		c.L("size<=1000")
	default:
		c.L("size>1000")
	}
}

// ------------------------------------------------------------------------ data

const (
	dSmall   = iota // integers -9..9 (exact in every type)
	dDecimal        // multiples of 1/1000 in [-10,10]; +-1000 for integers
	dWide           // many magnitudes
	dSpecial        // NaN, infinities, signed zeros, extremes mixed in
)

func special[T types.Number](r *rng) T {
	var z T
	switch any(z).(type) {
	case float32:
		v := []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 0, float32(math.Copysign(0, -1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 1, -1, 1 << 24}
		return T(v[r.intn(len(v))])
	case float64:
		v := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1, -1, 1 << 53}
		return T(v[r.intn(len(v))])
	}
	n := bitsOf[T]()
	min := int64(-1) << (n - 1)
	v := []int64{min, ^min, min + 1, 0, 1, -1, ^min - 1}
	return fromI64[T](v[r.intn(len(v))])
}

func fromI64[T types.Number](v int64) T { return T(v) }

// genVals expands a drawn seed and mode to n values.
func vals[T types.Number](r *rng, mode, n int) []T {
	v := make([]T, n)
	for i := range v {
		switch mode {
		case dSmall:
			v[i] = T(r.between(-9, 9))
		case dDecimal:
			k := r.between(-10000, 10000)
			if isFloat[T]() {
				v[i] = T(float64(k) / 1000)
			} else {
				v[i] = T(k / 10)
			}
		case dWide:
			if isFloat[T]() {
				e := r.between(-12, 12)
				v[i] = T((r.f64()*2 - 1) * math.Pow(10, float64(e)))
			} else {
				v[i] = fromI64[T](int64(r.next()) >> uint(r.intn(64)))
			}
		default:
			if r.intn(3) == 0 {
				v[i] = special[T](r)
			} else {
				v[i] = T(r.between(-9, 9))
			}
		}
	}
	return v
}

// akin returns values close to v: exchanged, reversed, negated, or one changed.
func akin[T types.Number](r *rng, v []T) []T {
	o := append([]T{}, v...)
	i, j := r.intn(len(v)), r.intn(len(v))
	switch r.intn(5) {
	case 0:
		o[i], o[j] = o[j], o[i]
	case 1:
		for k := range v {
			o[k] = v[len(v)-1-k]
		}
	case 2:
		for k := range v {
			o[k] = v[(k+1)%len(v)]
		}
	case 3:
		o[i] = -o[i]
	case 4:
		o[i]++
		o[j]--
	}
	return o
}

func genVals[T types.Number](rt *rapid.T, c *rec, label string, n int, modes ...int) []T {
	if len(modes) == 0 {
		modes = []int{dSmall, dDecimal, dWide, dSpecial}
	}
	mode := modes[rapid.IntRange(0, len(modes)-1).Draw(rt, label+"Mode")]
	r := genRng(rt, label+"Seed")
	c.K("%s:mode%d,seed%d", label, mode, r.s)
	return vals[T](r, mode, n)
}

func mk[T types.Number](data []T, shape []uint) *tensor.TensorMat[T] {
	sh := append([]uint{}, shape...)
	return tensor.NewFromValues[T](append([]T{}, data...), sh...)
}

// ------------------------------------------------------------------ comparison

func eqVal[T types.Number](a, b T) bool { return a == b || (a != a && b != b) }

// sameBits also distinguishes signed zeros.
func sameBits[T types.Number](a, b T) bool {
	switch x := any(a).(type) {
	case float32:
		return math.Float32bits(x) == math.Float32bits(any(b).(float32))
	case float64:
		return math.Float64bits(x) == math.Float64bits(any(b).(float64))
	}
	return a == b
}

func eqShape(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffData[T types.Number](got, want []T) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d elements, want %d", len(got), len(want))
	}
	for i := range got {
		if !eqVal(got[i], want[i]) {
			return fmt.Sprintf("element %d is %v, want %v", i, got[i], want[i])
		}
	}
	return ""
}

func checkTensor[T types.Number](rt *rapid.T, what string, t tensor.Tensor[T], shape []uint, want []T) {
	rt.Helper()
	if !eqShape(t.GetShape(), shape) {
		rt.Fatalf("%s: shape %v, want %v", what, t.GetShape(), shape)
	}
	if int(t.GetSize()) != prod(shape) {
		rt.Fatalf("%s: size %d for shape %v", what, t.GetSize(), shape)
	}
	if d := diffData(t.GetData(), want); d != "" {
		rt.Fatalf("%s: shape %v: %s", what, shape, d)
	}
	// the multi-index access path must agree with the flat one
	mul := strides(shape)
	step := 1 + len(want)/7
	for k := 0; k < len(want); k += step {
		g, err := t.Get(unravel(uint(k), mul)...)
		if err != nil || !eqVal(g, want[k]) {
			rt.Fatalf("%s: shape %v: Get(%v) = %v, %v, want %v", what, shape, unravel(uint(k), mul), g, err, want[k])
		}
	}
}

// ---------------------------------------------------- reference index arithmetic

func strides(shape []uint) []uint {
	m := make([]uint, len(shape))
	s := uint(1)
	for i := len(shape) - 1; i >= 0; i-- {
		m[i] = s
		s *= shape[i]
	}
	return m
}

func unravel(k uint, mul []uint) []uint {
	ix := make([]uint, len(mul))
	for i := range mul {
		ix[i] = k / mul[i]
		k %= mul[i]
	}
	return ix
}

func ravel(ix, mul []uint) uint {
	k := uint(0)
	for i := range ix {
		k += ix[i] * mul[i]
	}
	return k
}

// each calls f for every multi-index of shape in row-major order.
func each(shape []uint, f func(k int, ix []uint)) {
	n := prod(shape)
	mul := strides(shape)
	for k := 0; k < n; k++ {
		f(k, unravel(uint(k), mul))
	}
}

// mustNotPanic turns a panic of the tested call into text.
func catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return ""
}
