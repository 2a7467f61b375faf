package harness

import (
	"fmt"
	"testing"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC02 = "operand shapes of rank 0..12 (mostly up to 6; up to 5000 elements), all six element types, values including extremes, NaN, infinities and signed zeros; each operation in its method and graph form, also with both operands the same tensor. Non-trivial: at least two elements."

func TestC02(t *testing.T) {
	run(t, "C02", ruleC02,
		sub{name: "binary", n: 8000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c02Binary[float32], c02Binary[float64], c02Binary[int], c02Binary[int16], c02Binary[int32], c02Binary[int64])
		}},
		sub{name: "scalar", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c02Scalar[float32], c02Scalar[float64], c02Scalar[int], c02Scalar[int16], c02Scalar[int32], c02Scalar[int64])
		}},
		sub{name: "unary", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c02Unary[float32], c02Unary[float64], c02Unary[int], c02Unary[int16], c02Unary[int32], c02Unary[int64])
		}},
		sub{name: "operations", n: 3000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c02Ops[float32], c02Ops[float64], c02Ops[int], c02Ops[int16], c02Ops[int32], c02Ops[int64])
		}},
	)
}

var opNames = []string{"Add", "Sub", "Mul", "Div"}

func refBin[T types.Number](o int, a, b T) T {
	switch o {
	case 0:
		return a + b
	case 1:
		return a - b
	case 2:
		return a * b
	}
	return a / b
}

func noZeros[T types.Number](v []T) {
	if isFloat[T]() {
		return
	}
	for i := range v {
		if v[i] == 0 {
			v[i] = T(3)
		}
	}
}

// exec builds and runs the graph of an expression.
func exec[T types.Number](rt *rapid.T, what string, e tensor.Tensor[T]) tensor.Tensor[T] {
	rt.Helper()
	g, err := graph.NewGraph(e)
	if err != nil {
		rt.Fatalf("%s: building the graph: %v", what, err)
	}
	g.Exec()
	first := append([]T{}, e.GetData()...)
	g.Exec()
	if d := diffData(e.GetData(), first); d != "" {
		rt.Fatalf("%s: executing the graph again, compared with the first time: %s", what, d)
	}
	return e
}

func c02Binary[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 5000)
	n := prod(shape)
	o := rapid.IntRange(0, 3).Draw(rt, "op")
	same := rapid.IntRange(0, 9).Draw(rt, "same") == 0
	da := genVals[T](rt, c, "a", n)
	db := genVals[T](rt, c, "b", n)
	if same {
		db = da
	}
	if o == 3 {
		noZeros(db)
	}
	want := make([]T, n)
	for i := range want {
		want[i] = refBin(o, da[i], db[i])
	}
	a := mk(da, shape)
	b := mk(db, shape)
	if same {
		b = a
	}
	var r *tensor.TensorMat[T]
	var err error
	var e tensor.Tensor[T]
	switch o {
	case 0:
		r, err = a.Add(b)
		e = tensor.Add[T](a, b)
	case 1:
		r, err = a.Sub(b)
		e = tensor.Sub[T](a, b)
	case 2:
		r, err = a.Mul(b)
		e = tensor.Mul[T](a, b)
	case 3:
		r, err = a.Div(b)
		e = tensor.Div[T](a, b)
	}
	if err != nil {
		rt.Fatalf("%s of two %v: %v", opNames[o], shape, err)
	}
	checkTensor[T](rt, opNames[o]+" method", r, shape, want)
	checkTensor[T](rt, opNames[o]+" graph", exec(rt, opNames[o], e), shape, want)
	checkTensor[T](rt, opNames[o]+" left operand afterwards", a, shape, da)
	checkTensor[T](rt, opNames[o]+" right operand afterwards", b, shape, db)
	c.K("%s %v same=%v", opNames[o], shape, same)
	c.NT(shapeNT(shape))
	c.L(opNames[o])
	shapeLabels(c, shape)
}

func c02Scalar[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 5000)
	n := prod(shape)
	o := rapid.IntRange(0, 3).Draw(rt, "op")
	da := genVals[T](rt, c, "a", n)
	ds := genVals[T](rt, c, "s", 1)
	if o == 3 {
		noZeros(ds)
	}
	own := rapid.IntRange(0, 9).Draw(rt, "own") == 0 // the scalar is an element of the tensor
	a := mk(da, shape)
	s := number.NewScalar(ds[0])
	if own {
		k := rapid.IntRange(0, n-1).Draw(rt, "k")
		if o != 3 || isFloat[T]() || da[k] != 0 {
			s = a.GetOperands()[k]
			ds[0] = da[k]
		}
	}
	want := make([]T, n)
	for i := range want {
		want[i] = refBin(o, da[i], ds[0])
	}
	var r *tensor.TensorMat[T]
	var e tensor.Tensor[T]
	switch o {
	case 0:
		r = a.AddScalar(s)
		e = tensor.AddScalar[T](a, s)
	case 1:
		r = a.SubScalar(s)
		e = tensor.SubScalar[T](a, s)
	case 2:
		r = a.MulScalar(s)
		e = tensor.MulScalar[T](a, s)
	case 3:
		r = a.DivScalar(s)
		e = tensor.DivScalar[T](a, s)
	}
	checkTensor[T](rt, opNames[o]+"Scalar method", r, shape, want)
	checkTensor[T](rt, opNames[o]+"Scalar graph", exec(rt, opNames[o], e), shape, want)
	checkTensor[T](rt, opNames[o]+"Scalar operand afterwards", a, shape, da)
	if !eqVal(s.Value, ds[0]) {
		rt.Fatalf("%sScalar changed the scalar from %v to %v", opNames[o], ds[0], s.Value)
	}
	c.K("%sScalar %v own=%v", opNames[o], shape, own)
	c.NT(shapeNT(shape))
	c.L(opNames[o])
	shapeLabels(c, shape)
}

func c02Unary[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 5000)
	n := prod(shape)
	da := genVals[T](rt, c, "a", n)
	a := mk(da, shape)
	want := make([]T, n)
	kind := rapid.IntRange(0, 3).Draw(rt, "op")
	var r *tensor.TensorMat[T]
	var e tensor.Tensor[T]
	name := ""
	switch kind {
	case 0:
		name = "Neg"
		for i := range want {
			want[i] = -da[i]
		}
		r, e = a.Neg(), tensor.Neg[T](a)
	case 1:
		name = "Abs"
		for i := range want {
			want[i] = da[i]
			if da[i] < 0 {
				want[i] = -da[i]
			}
		}
		r, e = a.Abs(), tensor.Abs[T](a)
	default:
		k := T(rapid.IntRange(-3, 3).Draw(rt, "k"))
		name = fmt.Sprintf("Activate(x*x+%v)", k)
		f := func(x T) T { return x*x + k }
		for i := range want {
			want[i] = f(da[i])
		}
		r, e = a.Activate(f), tensor.Activate[T](a, f)
	}
	checkTensor[T](rt, name+" method", r, shape, want)
	checkTensor[T](rt, name+" graph", exec(rt, name, e), shape, want)
	checkTensor[T](rt, name+" operand afterwards", a, shape, da)
	c.K("%s %v", name, shape)
	c.NT(shapeNT(shape))
	c.L(name[:3])
	shapeLabels(c, shape)
}

// c02Ops drives the scalar operations a graph is made of.
func c02Ops[T types.Number](rt *rapid.T, c *rec) {
	d := genVals[T](rt, c, "v", 2)
	a, b := number.NewScalar(d[0]), number.NewScalar(d[1])
	if rapid.IntRange(0, 4).Draw(rt, "equal") == 0 {
		b.Value, d[1] = d[0], d[0]
	}
	kind := rapid.IntRange(0, 8).Draw(rt, "op")
	if kind == 3 && !isFloat[T]() && d[1] == 0 {
		b.Value, d[1] = 7, 7
	}
	alias := rapid.IntRange(0, 2).Draw(rt, "alias") // result may be one of the operands
	res := number.NewScalar(T(77))
	if alias == 1 {
		res = a
	}
	f := func(x T) T { return x + x + 1 }
	var want T
	var op operation.Operation
	switch kind {
	case 0:
		op, want = &operation.Add[T]{Scalar: res, A: a, B: b}, d[0]+d[1]
	case 1:
		op, want = &operation.Sub[T]{Scalar: res, A: a, B: b}, d[0]-d[1]
	case 2:
		op, want = &operation.Mul[T]{Scalar: res, A: a, B: b}, d[0]*d[1]
	case 3:
		op, want = &operation.Div[T]{Scalar: res, A: a, B: b}, d[0]/d[1]
	case 4:
		op, want = &operation.Neg[T]{Scalar: res, O: a}, -d[0]
	case 5:
		op, want = &operation.Abs[T]{Scalar: res, O: a}, d[0]
		if d[0] < 0 {
			want = -d[0]
		}
	case 6:
		op, want = &operation.Set[T]{Scalar: res, O: a}, d[0]
	case 7:
		op, want = &operation.Func[T]{Scalar: res, O: a, F: f}, f(d[0])
	case 8:
		op, want = &operation.Equals[T]{Scalar: res, A: a, B: b}, 0
		if d[0] == d[1] {
			want = 1
		}
	}
	op.Cal()
	if !eqVal(res.Value, want) {
		rt.Fatalf("operation %T on %v, %v gives %v, want %v", op, d[0], d[1], res.Value, want)
	}
	if (res != a && !eqVal(a.Value, d[0])) || !eqVal(b.Value, d[1]) {
		rt.Fatalf("operation %T changed its operands %v, %v to %v, %v", op, d[0], d[1], a.Value, b.Value)
	}
	c.K("%T alias%d", op, alias)
	c.NT(d[0] != 0)
}
