package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC03 = "shapes of rank 0..12 (mostly up to 6; up to 5000 elements), all six element types; whole-tensor and per-dimension Sum/Avg/Max/Min, SoftMax, graph and method forms. Integers and small-integer floats compare exactly, other floats within the rounding bound of a sum. Non-trivial: at least two elements (per-dimension: the slice has at least two elements; SoftMax: not all equal)."

func TestC03(t *testing.T) {
	run(t, "C03", ruleC03,
		sub{name: "whole", n: 7000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c03Whole[float32], c03Whole[float64], c03Whole[int], c03Whole[int16], c03Whole[int32], c03Whole[int64])
		}},
		sub{name: "perDim", n: 8000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c03Dim[float32], c03Dim[float64], c03Dim[int], c03Dim[int16], c03Dim[int32], c03Dim[int64])
		}},
		sub{name: "softmax", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c03Soft[float32], c03Soft[float64], c03Soft[int], c03Soft[int16], c03Soft[int32], c03Soft[int64])
		}},
	)
}

var redNames = []string{"Sum", "Avg", "Max", "Min"}

func epsOf[T types.Number]() float64 {
	if !isFloat[T]() {
		return 0
	}
	if bitsOf[T]() == 32 {
		return 1.2e-7
	}
	return 2.3e-16
}

// refRed reduces a slice; tol is the admissible deviation (0: exact).
func refRed[T types.Number](o int, v []T) (want T, tol float64) {
	switch o {
	case 0, 1:
		var s T
		var sf, abs float64
		for _, x := range v {
			s += x
			sf += float64(x)
			abs += math.Abs(float64(x))
		}
		if isFloat[T]() {
			tol = 2 * float64(len(v)) * epsOf[T]() * abs
			if o == 0 {
				return T(sf), tol
			}
			return T(sf / float64(len(v))), tol/float64(len(v)) + 4*epsOf[T]()*math.Abs(sf/float64(len(v)))
		}
		if o == 0 {
			return s, 0
		}
		return s / T(len(v)), 0
	case 2:
		m := v[0]
		for _, x := range v {
			if x > m {
				m = x
			}
		}
		return m, 0
	}
	m := v[0]
	for _, x := range v {
		if x < m {
			m = x
		}
	}
	return m, 0
}

func near[T types.Number](got, want T, tol float64) bool {
	if tol == 0 {
		return eqVal(got, want)
	}
	return math.Abs(float64(got)-float64(want)) <= tol
}

// genRed draws the data of a reduction.
func genRed[T types.Number](rt *rapid.T, c *rec, o, n int) []T {
	var v []T
	if o >= 2 {
		v = genVals[T](rt, c, "a", n)
		for i, x := range v {
			if x != x || math.IsInf(float64(x), 0) {
				v[i] = T(i%5) - 9
			}
		}
		switch rapid.IntRange(0, 3).Draw(rt, "sign") { // all on one side of 0
		case 0:
			for i, x := range v {
				if x > 0 {
					v[i] = -x
				}
			}
		case 1:
			for i, x := range v {
				if x < 0 {
					v[i] = -x
				}
			}
		}
	} else if o == 1 && !isFloat[T]() {
		v = genVals[T](rt, c, "a", n, dSmall)
		if bitsOf[T]() == 16 { // keep the sum in range
			for i := range v {
				v[i] /= 2
			}
		}
		if m := math.Floor(math.Pow(2, float64(bitsOf[T]()-1)) / float64(n+1)); m > 1 && uniform(rt, "large", 3) == 0 {
			r := genRng(rt, "largeSeed") // as large as the sum allows
			c.L("large values")
			c.K("large%d", r.s)
			for i := range v {
				v[i] = T(math.Floor((r.f64()*2 - 1) * 0.99 * m))
			}
		}
	} else if isFloat[T]() {
		v = genVals[T](rt, c, "a", n, dSmall, dDecimal, dWide)
	} else {
		v = genVals[T](rt, c, "a", n)
	}
	return v
}

func c03Whole[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 5000)
	n := prod(shape)
	o := rapid.IntRange(0, 3).Draw(rt, "op")
	d := genRed[T](rt, c, o, n)
	want, tol := refRed(o, d)
	a := mk(d, shape)
	var r *tensor.TensorMat[T]
	var e tensor.Tensor[T]
	var tv T
	s := number.NewScalar[T](55)
	var op operation.Operation
	switch o {
	case 0:
		r, e, tv = a.Sum(), tensor.Sum[T](a), tools.Sum(a.GetOperands())
		op = &operation.Sum[T]{Scalar: s, Args: a.GetOperands()}
	case 1:
		r, e, tv = a.Avg(), tensor.Avg[T](a), tools.Avg(a.GetOperands())
		op = &operation.Avg[T]{Scalar: s, Args: a.GetOperands()}
	case 2:
		r, e, tv = a.Max(), tensor.Max[T](a), tools.Max(a.GetOperands())
		op = &operation.Max[T]{Scalar: s, Args: a.GetOperands()}
	case 3:
		r, e, tv = a.Min(), tensor.Min[T](a), tools.Min(a.GetOperands())
		op = &operation.Min[T]{Scalar: s, Args: a.GetOperands()}
	}
	exec(rt, redNames[o], e)
	op.Cal()
	for i, m := range []tensor.Tensor[T]{r, e} {
		what := []string{"method", "graph"}[i]
		if !eqShape(m.GetShape(), []uint{1}) || m.GetSize() != 1 {
			rt.Fatalf("%s %s of %v has shape %v", redNames[o], what, shape, m.GetShape())
		}
		g, err := m.Get(0)
		if err != nil || !near(g, want, tol) {
			rt.Fatalf("%s %s of %v = %v, %v, want %v (+-%g)", redNames[o], what, shape, g, err, want, tol)
		}
	}
	if !near(tv, want, tol) || !near(s.Value, want, tol) {
		rt.Fatalf("%s of %v: tools %v, operation %v, want %v (+-%g)", redNames[o], shape, tv, s.Value, want, tol)
	}
	checkTensor[T](rt, redNames[o]+" operand afterwards", a, shape, d)
	c.K("%s %v", redNames[o], shape)
	c.NT(shapeNT(shape))
	c.L(redNames[o])
	shapeLabels(c, shape)
}

func c03Dim[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 1, 6, 3000)
	n := prod(shape)
	o := rapid.IntRange(0, 3).Draw(rt, "op")
	dim := rapid.IntRange(0, len(shape)-1).Draw(rt, "dim")
	d := genRed[T](rt, c, o, n)
	a := mk(d, shape)
	keep := shape[:dim+1]
	groups := make([][]T, prod(keep))
	each(shape, func(k int, ix []uint) {
		g := ravel(ix[:dim+1], strides(keep))
		groups[g] = append(groups[g], d[k])
	})
	var r *tensor.TensorMat[T]
	var e tensor.Tensor[T]
	var err error
	switch o {
	case 0:
		r, err = a.DSum(uint(dim))
		e = tensor.DSum[T](a, uint(dim))
	case 1:
		r, err = a.DAvg(uint(dim))
		e = tensor.DAvg[T](a, uint(dim))
	case 2:
		r, err = a.DMax(uint(dim))
		e = tensor.DMax[T](a, uint(dim))
	case 3:
		r, err = a.DMin(uint(dim))
		e = tensor.DMin[T](a, uint(dim))
	}
	if err != nil {
		rt.Fatalf("D%s(%d) of %v: %v", redNames[o], dim, shape, err)
	}
	exec(rt, redNames[o], e)
	for i, m := range []tensor.Tensor[T]{r, e} {
		what := fmt.Sprintf("D%s(%d) %s of %v", redNames[o], dim, []string{"method", "graph"}[i], shape)
		if !eqShape(m.GetShape(), keep) {
			rt.Fatalf("%s has shape %v", what, m.GetShape())
		}
		for g, v := range groups {
			want, tol := refRed(o, v)
			ix := unravel(uint(g), strides(keep))
			got, err := m.Get(ix...)
			if err != nil || !near(got, want, tol) {
				rt.Fatalf("%s at %v = %v, %v, want %v (+-%g)", what, ix, got, err, want, tol)
			}
		}
	}
	checkTensor[T](rt, redNames[o]+" operand afterwards", a, shape, d)
	c.K("D%s %v dim%d", redNames[o], shape, dim)
	c.NT(len(groups[0]) > 1)
	c.L(redNames[o])
	c.L(fmt.Sprintf("dim%d", dim))
	shapeLabels(c, shape)
}

func c03Soft[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 1, 5, 3000)
	n := prod(shape)
	var d []T
	if isFloat[T]() {
		d = genVals[T](rt, c, "a", n, dSmall, dDecimal, dWide)
		switch rapid.IntRange(0, 3).Draw(rt, "shift") {
		case 0:
			for i := range d {
				d[i] -= 1000
			}
		case 1:
			for i := range d {
				d[i] += 1000
			}
		}
	} else {
		d = genVals[T](rt, c, "a", n, dSmall)
		if n > 1500 {
			for i := range d {
				d[i] /= 2
			}
		}
	}
	min, max := d[0], d[0]
	var sum float64
	for _, x := range d {
		if x < min {
			min = x
		}
		if x > max {
			max = x
		}
	}
	for _, x := range d {
		sum += float64(x - min)
	}
	if min == max {
		c.Triv()
		return
	}
	a := mk(d, shape)
	r := a.SoftMax()
	e := exec(rt, "SoftMax", tensor.SoftMax[T](a))
	for i, m := range []tensor.Tensor[T]{r, e} {
		what := []string{"method", "graph"}[i]
		if !eqShape(m.GetShape(), shape) {
			rt.Fatalf("SoftMax %s of %v has shape %v", what, shape, m.GetShape())
		}
		got := m.GetData()
		var total float64
		for k, g := range got {
			if isFloat[T]() {
				want := float64(d[k]-min) / sum
				if !(math.Abs(float64(g)-want) <= want*(float64(n)+4)*epsOf[T]()*2) {
					rt.Fatalf("SoftMax %s of %v: element %d is %v, want %v", what, shape, k, g, want)
				}
				if g < 0 || float64(g) > 1+float64(n)*epsOf[T]() {
					rt.Fatalf("SoftMax %s of %v: element %d is %v, outside [0,1]", what, shape, k, g)
				}
			} else if g != (d[k]-min)/T(sum) {
				rt.Fatalf("SoftMax %s of %v: element %d is %v, want %v", what, shape, k, g, (d[k]-min)/T(sum))
			}
			total += float64(g)
			if k > 0 && ((d[k] > d[k-1] && g < got[k-1]) || (d[k] < d[k-1] && g > got[k-1]) || (d[k] == d[k-1] && g != got[k-1])) {
				rt.Fatalf("SoftMax %s of %v: order of elements %d (%v -> %v) and %d (%v -> %v) lost", what, shape, k-1, d[k-1], got[k-1], k, d[k], g)
			}
		}
		if isFloat[T]() && math.Abs(total-1) > float64(n+4)*4*epsOf[T]() {
			rt.Fatalf("SoftMax %s of %v sums to %v", what, shape, total)
		}
	}
	checkTensor[T](rt, "SoftMax operand afterwards", a, shape, d)
	c.K("SoftMax %v", shape)
	c.NT(true)
	shapeLabels(c, shape)
}
