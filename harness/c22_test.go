package harness

import (
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC22 = "constructors and loading operations on generated shapes (rank 0..5), element types and value lists shorter, equal and longer than the tensor; random constructors with generated ranges (integer bounds for integer types; also ranges wider than the element type can count, and narrow ones far out), 2000..4000 elements per case: bounds, frequencies per quarter of the range (each integer inside the range must occur for integer types), mean and spread of the normal form, distinctness, correlation of neighbours, independence of two calls, with thresholds at more than 7 standard deviations. Non-trivial: more than one element and a range that is not empty."

func TestC22(t *testing.T) {
	run(t, "C22", ruleC22,
		sub{name: "contents", n: 40000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c22Contents[float32], c22Contents[float64], c22Contents[int], c22Contents[int16], c22Contents[int32], c22Contents[int64])
		}},
		sub{name: "uniform", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c22Uniform[float32], c22Uniform[float64], c22Uniform[int], c22Uniform[int16], c22Uniform[int32], c22Uniform[int64])
		}},
		sub{name: "normal", n: 3000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c22Normal[float32], c22Normal[float64], c22Normal[int], c22Normal[int16], c22Normal[int32], c22Normal[int64])
		}},
	)
}

func c22Contents[T types.Number](rt *rapid.T, c *rec) {
	sh := genShape(rt, "shape", 0, 5, pick(rt, "max", 400, 400, 1500))
	shapeLabels(c, sh)
	n := prod(sh)
	c.K("%v", sh)
	c.NT(n > 1)
	zero, one := make([]T, n), make([]T, n)
	for i := range one {
		one[i] = 1
	}
	checkTensor[T](rt, "NewZeros", tensor.NewZeros[T](sh...), sh, zero)
	checkTensor[T](rt, "NewOnes", tensor.NewOnes[T](sh...), sh, one)
	k := n
	switch uniform(rt, "count", 4) {
	case 0:
		k = uniform(rt, "fewer", n+1)
		c.L("missing values")
	case 1:
		k = n + uniform(rt, "more", 9)
		c.L("surplus values")
	}
	v := genVals[T](rt, c, "values", k)
	want := make([]T, n)
	copy(want, v)
	t := tensor.NewFromValues[T](v, sh...)
	checkTensor[T](rt, fmt.Sprintf("NewFromValues of %d values", k), t, sh, want)
	// replacing the contents
	for m := uniform(rt, "ops", 4); m > 0; m-- {
		w := genVals[T](rt, c, "new", n)
		switch uniform(rt, "op", 3) {
		case 0:
			if err := t.LoadData(w); err != nil {
				rt.Fatalf("LoadData of %d values into %v: %v", n, sh, err)
			}
			checkTensor[T](rt, "LoadData", t, sh, w)
		case 1:
			if err := t.LoadFromTensor(mk(w, sh)); err != nil {
				rt.Fatalf("LoadFromTensor into %v: %v", sh, err)
			}
			checkTensor[T](rt, "LoadFromTensor", t, sh, w)
		case 2:
			t.FillData(w[0])
			for i := range w {
				w[i] = w[0]
			}
			checkTensor[T](rt, "FillData", t, sh, w)
		}
	}
	if s := number.NewScalar(v0(v)); !eqVal(s.Value, v0(v)) {
		rt.Fatalf("NewScalar(%v) is %v", v0(v), s.Value)
	}
	if a, b := number.ScalarZero[T](), number.ScalarOne[T](); a.Value != 0 || b.Value != 1 {
		rt.Fatalf("ScalarZero %v, ScalarOne %v", a.Value, b.Value)
	}
	// random contents have the shape, too
	lo := float64(-3 + uniform(rt, "lo", 5))
	hi := lo + float64(uniform(rt, "width", 5))
	r := tensor.NewRand[T](lo, hi, sh...)
	q := tensor.NewNormRand[T](sh...)
	for _, x := range []*tensor.TensorMat[T]{r, q} {
		if !eqShape(x.GetShape(), sh) || len(x.GetData()) != n || int(x.GetSize()) != n {
			rt.Fatalf("random tensor of %v has shape %v, %d elements", sh, x.GetShape(), len(x.GetData()))
		}
		checkTensor[T](rt, "random tensor", x, sh, x.GetData())
	}
	for _, x := range r.GetData() {
		if !(float64(x) >= lo && float64(x) <= hi) {
			rt.Fatalf("NewRand(%v, %v) gave %v", lo, hi, x)
		}
	}
}

func v0[T types.Number](v []T) T {
	if len(v) > 0 {
		return v[0]
	}
	return 0
}

// correlation of neighbouring elements.
func lag1(v []float64) float64 {
	m, n := 0.0, float64(len(v))
	for _, x := range v {
		m += x / n
	}
	a, b := 0.0, 0.0
	for i, x := range v {
		b += (x - m) * (x - m)
		if i > 0 {
			a += (x - m) * (v[i-1] - m)
		}
	}
	if b < 1e-9*n {
		return 0
	}
	return a / b
}

// splitSize draws a shape of n elements.
func splitSize(rt *rapid.T, n uint) []uint {
	var s []uint
	for k := uniform(rt, "rank", 6); k > 0; k-- {
		var div []uint
		for _, d := range []uint{1, 2, 2, 3, 4, 5, 8, 10, 20, 50, 100} {
			if n%d == 0 {
				div = append(div, d)
			}
		}
		f := pick(rt, "extent", div...)
		s = append(s, f)
		n /= f
	}
	i := uniform(rt, "restAt", len(s)+1)
	return append(append(append([]uint{}, s[:i]...), n), s[i:]...)
}

func c22Uniform[T types.Number](rt *rapid.T, c *rec) {
	r := genRng(rt, "seed")
	rand.Seed(int64(r.s))
	const n = 2000
	var lo, hi float64
	if isFloat[T]() {
		s := math.Pow(10, float64(r.between(-3, 4)))
		lo = float64(T((r.f64()*2 - 1) * s))
		hi = float64(T(lo + (0.01+r.f64())*s))
		if r.intn(4) == 0 {
			lo, hi = float64(r.between(-2, 0)), float64(r.between(1, 2))
		}
		if r.intn(6) == 0 { // far apart
			c.L("wide")
			s := math.Pow(10, float64(r.between(20, 37)))
			if bitsOf[T]() == 64 {
				s = math.Pow(10, float64(r.between(20, 307)))
			}
			lo, hi = float64(T(-s*(0.1+r.f64()))), float64(T(s*(0.1+r.f64())))
		}
	} else {
		lo = float64(r.between(-20, 20))
		hi = lo + float64(r.between(1, 12))
	}
	wide := false
	if !isFloat[T]() && r.intn(4) == 0 { // a good part of all values there are
		wide = true
		c.L("wide")
		m := math.Pow(2, float64(bitsOf[T]()-1))
		lo, hi = -m, m-1
		if bitsOf[T]() == 64 {
			hi = m - 1024
		}
		switch r.intn(4) {
		case 0:
			lo = math.Floor(lo * (0.2 + 0.8*r.f64()))
		case 1:
			hi = math.Floor(hi * (0.2 + 0.8*r.f64()))
		case 2:
			lo, hi = math.Floor(lo*(0.2+0.8*r.f64())), math.Floor(hi*(0.2+0.8*r.f64()))
		}
	}
	src := uniform(rt, "source", 2)
	c.K("[%v,%v] seed%d source%d", lo, hi, r.s, src)
	c.NT(true)
	draw := func() []float64 {
		v := make([]float64, 0, n)
		if src == 0 {
			for _, x := range tensor.NewRand[T](lo, hi, splitSize(rt, n)...).GetData() {
				v = append(v, float64(x))
			}
		} else {
			for i := 0; i < n; i++ {
				v = append(v, float64(number.ScalarRand(T(lo), T(hi)).Value))
			}
		}
		return v
	}
	v := draw()
	for _, x := range v {
		if !(x >= lo && x <= hi) {
			rt.Fatalf("value %v outside [%v, %v]", x, lo, hi)
		}
	}
	if isFloat[T]() || wide {
		var q [4]int
		seen := map[float64]bool{}
		for _, x := range v {
			q[min(3, int((x-lo)/(hi-lo)*4))]++
			seen[x] = true
		}
		for i, k := range q {
			if k < 355 || k > 645 {
				rt.Fatalf("[%v, %v]: %d of %d values in quarter %d", lo, hi, k, n, i+1)
			}
		}
		grid := n * 9 / 10
		if bitsOf[T]() == 32 && (hi-lo)/math.Max(math.Abs(lo), math.Abs(hi)) < 0.1 || hi-lo < 1e5 && wide {
			grid = n / 2
		}
		if len(seen) < grid {
			rt.Fatalf("[%v, %v]: only %d different values among %d", lo, hi, len(seen), n)
		}
	} else {
		cnt := map[float64]int{}
		for _, x := range v {
			cnt[x]++
		}
		for x := lo + 1; x < hi; x++ {
			// at least about one in twelve
			if cnt[x] < 40 {
				rt.Fatalf("integers in [%v, %v]: %v occurs %d times in %d", lo, hi, x, cnt[x], n)
			}
		}
	}
	if k := lag1(v); math.Abs(k) > 7.5/math.Sqrt(n) {
		rt.Fatalf("[%v, %v]: neighbouring values are correlated: %v", lo, hi, k)
	}
	w := draw()
	same := 0
	for i := range v {
		if v[i] == w[i] {
			same++
		}
	}
	if isFloat[T]() && same > n/4 || same == n && hi-lo > 2 {
		rt.Fatalf("[%v, %v]: a second call gave %d of %d values again", lo, hi, same, n)
	}
	if !isFloat[T]() { // a narrow range far out
		m := T(math.Pow(2, float64(bitsOf[T]()-2)))
		a := m + T(r.intn(1000))
		b := a + T(r.between(1, 9))
		if r.intn(2) == 0 {
			a, b = -b, -a
		}
		for i := 0; i < 20; i++ {
			if x := number.ScalarRand(a, b).Value; x < a || x > b {
				rt.Fatalf("ScalarRand(%v, %v) gave %v", a, b, x)
			}
		}
	}
	// an empty range
	if x := tensor.NewRand[T](lo, lo, 3).GetData(); float64(x[0]) != lo || float64(x[2]) != lo {
		rt.Fatalf("NewRand(%v, %v) gave %v", lo, lo, x)
	}
	if x := number.ScalarRand(T(lo), T(lo)).Value; float64(x) != lo {
		rt.Fatalf("ScalarRand(%v, %v) gave %v", lo, lo, x)
	}
}

func c22Normal[T types.Number](rt *rapid.T, c *rec) {
	r := genRng(rt, "seed")
	rand.Seed(int64(r.s))
	const n = 4000
	src := uniform(rt, "source", 2)
	c.K("seed%d source%d", r.s, src)
	c.NT(true)
	var v []float64
	if src == 0 {
		for _, x := range tensor.NewNormRand[T](splitSize(rt, n)...).GetData() {
			v = append(v, float64(x))
		}
	} else {
		for i := 0; i < n; i++ {
			v = append(v, float64(number.ScalarNorm[T]().Value))
		}
	}
	m, q, in := 0.0, 0.0, 0
	for _, x := range v {
		m += x / n
		q += x * x / n
		if math.Abs(x) < 1 {
			in++
		}
	}
	if math.Abs(m) > 7.5/math.Sqrt(n) {
		rt.Fatalf("mean of %d values is %v", n, m)
	}
	f := float64(in) / n
	if isFloat[T]() {
		if math.Abs(q-1) > 7.5*math.Sqrt(2.0/n) {
			rt.Fatalf("variance of %d values is %v", n, q)
		}
		if math.Abs(f-0.6827) > 0.055 {
			rt.Fatalf("%v of the values lie within one standard deviation", f)
		}
		seen := map[float64]bool{}
		for _, x := range v {
			seen[x] = true
		}
		if len(seen) < n*9/10 {
			rt.Fatalf("only %d different values among %d", len(seen), n)
		}
	} else if q < 0.3 || q > 1.5 {
		rt.Fatalf("variance of %d integers is %v", n, q)
	}
	if k := lag1(v); math.Abs(k) > 7.5/math.Sqrt(n) {
		rt.Fatalf("neighbouring values are correlated: %v", k)
	}
}
