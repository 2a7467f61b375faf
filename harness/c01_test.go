package harness

import (
	"testing"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC01 = "shapes of rank 0..12 (mostly up to 6; up to 6000 elements), all six element types; write/read histories against a flat slice model; invalid indices of wrong arity or with a coordinate at/above its extent (up to the largest unsigned integer). Non-trivial: at least two elements (histories also: at least one write)."

func TestC01(t *testing.T) {
	run(t, "C01", ruleC01,
		sub{name: "history", n: 4000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c01History[float32], c01History[float64], c01History[int], c01History[int16], c01History[int32], c01History[int64])
		}},
		sub{name: "bijection", n: 3000, f: c01Bijection},
		sub{name: "allIndices", n: 400, f: c01All},
		sub{name: "reject", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c01Reject[float32], c01Reject[float64], c01Reject[int], c01Reject[int16], c01Reject[int32], c01Reject[int64])
		}},
		sub{name: "derived", n: 2000, f: c01Derived},
	)
}

func genIndex(rt *rapid.T, label string, shape []uint) []uint {
	ix := make([]uint, len(shape))
	for i, s := range shape {
		ix[i] = uint(rapid.IntRange(0, int(s)-1).Draw(rt, label))
	}
	return ix
}

// genBadIndex draws an index that no tensor of this shape has.
func genBadIndex(rt *rapid.T, label string, shape []uint) []uint {
	ix := genIndex(rt, label, shape)
	kind := rapid.IntRange(0, 3).Draw(rt, label+"Kind")
	if len(shape) == 0 {
		kind = 1
	}
	switch kind {
	case 0: // too short
		return ix[:rapid.IntRange(0, len(ix)-1).Draw(rt, label+"Len")]
	case 1: // too long
		for n := rapid.IntRange(1, 3).Draw(rt, label+"More"); n > 0; n-- {
			ix = append(ix, uint(rapid.IntRange(0, 2).Draw(rt, label+"Tail")))
		}
		return ix
	case 2: // one coordinate just past its end or far out
		i := rapid.IntRange(0, len(ix)-1).Draw(rt, label+"Dim")
		switch over := pick(rt, label+"Over", 0, 0, 1, 5, 1<<20, -1, -2); over {
		case -1: // so far out that a narrower integer takes it for a valid one
			ix[i] += uint(1) << uint(pick(rt, label+"Bits", 16, 31, 32, 62, 63))
			if ix[i] < shape[i] {
				ix[i] = shape[i]
			}
		case -2:
			ix[i] = ^uint(0) - ix[i]
		default:
			ix[i] = shape[i] + uint(over)
		}
		return ix
	default: // several coordinates out
		any := false
		for i := range ix {
			if rapid.Bool().Draw(rt, label+"Bad") {
				ix[i] = shape[i] + uint(rapid.IntRange(0, 3).Draw(rt, label+"Over"))
				any = true
			}
		}
		if !any {
			ix[len(ix)-1] = shape[len(ix)-1]
		}
		return ix
	}
}

func c01History[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 2000)
	data := genVals[T](rt, c, "init", prod(shape))
	m := mk(data, shape)
	model := append([]T{}, data...)
	mul := strides(shape)
	writes := 0
	steps := rapid.IntRange(1, 25).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		switch rapid.IntRange(0, 6).Draw(rt, "op") {
		case 0, 1, 2:
			ix := genIndex(rt, "ix", shape)
			v := T(rapid.IntRange(-100, 100).Draw(rt, "v"))
			if err := m.Set(v, ix...); err != nil {
				rt.Fatalf("Set(%v) on shape %v: %v", ix, shape, err)
			}
			model[ravel(ix, mul)] = v
			writes++
		case 3:
			ix := genIndex(rt, "ix", shape)
			o, err := m.GetOperand(ix...)
			if err != nil {
				rt.Fatalf("GetOperand(%v) on shape %v: %v", ix, shape, err)
			}
			if !eqVal(o.Value, model[ravel(ix, mul)]) {
				rt.Fatalf("GetOperand(%v) on shape %v holds %v, want %v", ix, shape, o.Value, model[ravel(ix, mul)])
			}
			v := T(rapid.IntRange(-100, 100).Draw(rt, "v"))
			o.Value = v
			model[ravel(ix, mul)] = v
			writes++
		case 4:
			ix := genIndex(rt, "ix", shape)
			v, err := m.Get(ix...)
			if err != nil || !eqVal(v, model[ravel(ix, mul)]) {
				rt.Fatalf("Get(%v) on shape %v = %v, %v, want %v", ix, shape, v, err, model[ravel(ix, mul)])
			}
		case 5:
			ix := genBadIndex(rt, "bad", shape)
			if err := m.Set(T(1), ix...); err == nil {
				rt.Fatalf("Set(%v) on shape %v gave no error", ix, shape)
			}
		case 6:
			ops := m.GetOperands()
			k := rapid.IntRange(0, len(ops)-1).Draw(rt, "k")
			v, err := m.Get(unravel(uint(k), mul)...)
			if err != nil || !eqVal(v, ops[k].Value) {
				rt.Fatalf("Get(%v) = %v, %v but operand %d holds %v", unravel(uint(k), mul), v, err, k, ops[k].Value)
			}
		}
		if d := diffData(m.GetData(), model); d != "" {
			rt.Fatalf("after step %d on shape %v: %s", s, shape, d)
		}
	}
	if !eqShape(m.GetShape(), shape) || !eqShape(m.GetMulIndex(), mul) {
		rt.Fatalf("shape %v mul %v became %v %v", shape, mul, m.GetShape(), m.GetMulIndex())
	}
	c.K("history shape%v steps%d writes%d", shape, steps, writes)
	c.NT(shapeNT(shape) && writes > 0)
	shapeLabels(c, shape)
}

func c01Bijection(rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 1, 7, 6000)
	// the conversion helpers take any extents, also huge ones
	huge := rapid.IntRange(0, 4).Draw(rt, "huge") == 0
	if huge {
		shape = make([]uint, rapid.IntRange(1, 5).Draw(rt, "rank"))
		for i := range shape {
			shape[i] = uint(rapid.IntRange(1, 4000).Draw(rt, "ext"))
		}
	}
	mul := tools.GetIndexMul(shape)
	want := strides(shape)
	if !eqShape(mul, want) {
		rt.Fatalf("GetIndexMul(%v) = %v, want %v", shape, mul, want)
	}
	if n := tools.GetDataSize(shape); int(n) != prod(shape) {
		rt.Fatalf("GetDataSize(%v) = %d", shape, n)
	}
	r := genRng(rt, "seed")
	total := uint64(prod(shape))
	for i := 0; i < 40; i++ {
		k := uint(r.next() % total)
		if i == 0 {
			k = uint(total - 1)
		}
		ix := tools.ReverseIndex(mul, shape, k)
		if !eqShape(ix, unravel(k, want)) {
			rt.Fatalf("ReverseIndex(%v, %d) = %v, want %v", shape, k, ix, unravel(k, want))
		}
		back, err := tools.GetIndex(mul, shape, ix)
		if err != nil || back != k {
			rt.Fatalf("GetIndex(%v, %v) = %d, %v, want %d", shape, ix, back, err, k)
		}
		inv := tools.GetInvertedIndex(ix)
		for j := range ix {
			if inv[j] != ix[len(ix)-1-j] {
				rt.Fatalf("GetInvertedIndex(%v) = %v", ix, inv)
			}
		}
	}
	bad := genBadIndex(rt, "bad", shape)
	if k, err := tools.GetIndex(mul, shape, bad); err == nil {
		rt.Fatalf("GetIndex(%v, %v) = %d without an error", shape, bad, k)
	}
	c.K("bijection %v seed%d bad%v", shape, r.s, bad)
	c.NT(total > 1)
	if huge {
		c.L("huge")
	} else {
		shapeLabels(c, shape)
	}
}

// c01All walks every index of a shape.
func c01All(rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 3000)
	m := tensor.NewZeros[int64](shape...)
	each(shape, func(k int, ix []uint) {
		if err := m.Set(int64(k)+1, ix...); err != nil {
			rt.Fatalf("Set(%v) on %v: %v", ix, shape, err)
		}
	})
	for k, v := range m.GetData() {
		if v != int64(k)+1 {
			rt.Fatalf("shape %v: position %d holds %d, want %d", shape, k, v, k+1)
		}
	}
	each(shape, func(k int, ix []uint) {
		v, err := m.Get(ix...)
		if err != nil || v != int64(k)+1 {
			rt.Fatalf("Get(%v) on %v = %d, %v, want %d", ix, shape, v, err, k+1)
		}
	})
	c.K("all %v", shape)
	c.NT(shapeNT(shape))
	shapeLabels(c, shape)
}

func c01Reject[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 300)
	data := genVals[T](rt, c, "init", prod(shape))
	m := mk(data, shape)
	ix := genBadIndex(rt, "bad", shape)
	if v, err := m.Get(ix...); err == nil {
		rt.Fatalf("Get(%v) on shape %v = %v without an error", ix, shape, v)
	}
	if err := m.Set(T(42), ix...); err == nil {
		rt.Fatalf("Set(%v) on shape %v without an error", ix, shape)
	}
	if o, err := m.GetOperand(ix...); err == nil {
		rt.Fatalf("GetOperand(%v) on shape %v = %v without an error", ix, shape, o)
	}
	if d := diffData(m.GetData(), data); d != "" {
		rt.Fatalf("rejected Set(%v) on shape %v changed the tensor: %s", ix, shape, d)
	}
	c.K("reject %v %v", shape, ix)
	c.NT(shapeNT(shape))
	shapeLabels(c, shape)
}

// c01Derived: results of operations are addressed the same way.
func c01Derived(rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 1, 5, 600)
	m := tensor.NewZeros[int32](shape...)
	for i, o := range m.GetOperands() {
		o.Value = int32(i)
	}
	var r tensor.Tensor[int32]
	kind := rapid.IntRange(0, 4).Draw(rt, "kind")
	switch kind {
	case 0:
		r = m.Copy()
	case 1:
		r = m.Neg()
	case 2:
		tr, err := m.Transpose()
		if err != nil {
			rt.Fatalf("Transpose: %v", err)
		}
		r = tr
	case 3:
		r = m.Reshape(genShape(rt, "new", 0, 4, 600)...)
	case 4:
		d := uint(rapid.IntRange(0, len(shape)-1).Draw(rt, "dim"))
		s, err := m.DSum(d)
		if err != nil {
			rt.Fatalf("DSum: %v", err)
		}
		r = s
	}
	rs := r.GetShape()
	data := r.GetData()
	mul := strides(rs)
	if !eqShape(r.GetMulIndex(), mul) {
		rt.Fatalf("kind %d: MulIndex %v for shape %v", kind, r.GetMulIndex(), rs)
	}
	each(rs, func(k int, ix []uint) {
		v, err := r.Get(ix...)
		if err != nil || v != data[k] {
			rt.Fatalf("kind %d shape %v: Get(%v) = %v, %v but data[%d] = %v", kind, rs, ix, v, err, k, data[k])
		}
	})
	bad := genBadIndex(rt, "bad", rs)
	if v, err := r.Get(bad...); err == nil {
		rt.Fatalf("kind %d shape %v: Get(%v) = %v without an error", kind, rs, bad, v)
	}
	c.K("derived%d %v->%v", kind, shape, rs)
	c.NT(shapeNT(rs))
}
