package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC05 = "operand ranks 1..7 (mostly up to 4) in every combination, every pair of dimensions, extents 1..8 (shared extent up to 300), all six element types; oracle: the sum over the shared index, exact for integers and small-integer floats, else within the rounding bound. Non-trivial: shared extent above 1 or more than one result."

func TestC05(t *testing.T) {
	run(t, "C05", ruleC05,
		sub{name: "dotAt", n: 10000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c05DotAt[float32], c05DotAt[float64], c05DotAt[int], c05DotAt[int16], c05DotAt[int32], c05DotAt[int64])
		}},
		sub{name: "matmul", n: 3000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c05Mat[float32], c05Mat[float64], c05Mat[int], c05Mat[int16], c05Mat[int32], c05Mat[int64])
		}},
	)
}

func dropDim(s []uint, d int) []uint {
	r := append([]uint{}, s[:d]...)
	return append(r, s[d+1:]...)
}

// refDot returns shape, values and tolerances of DotAt.
func refDot[T types.Number](sa, sb []uint, da, db []T, p, q int) ([]uint, []T, []float64) {
	ra, rb := dropDim(sa, p), dropDim(sb, q)
	rs := append(append([]uint{}, ra...), rb...)
	if len(rs) == 0 {
		rs = []uint{1}
	}
	ma, mb, mr := strides(sa), strides(sb), strides(rs)
	n := prod(ra) * prod(rb)
	sum := make([]T, n)
	sf := make([]float64, n)
	abs := make([]float64, n)
	each(sa, func(ka int, ia []uint) {
		each(rb, func(_ int, ib []uint) {
			jb := append(append(append([]uint{}, ib[:q]...), ia[p]), ib[q:]...)
			x, y := da[ravel(ia, ma)], db[ravel(jb, mb)]
			o := append(dropDim(ia, p), ib...)
			k := uint(0)
			if len(o) > 0 {
				k = ravel(o, mr)
			}
			sum[k] += x * y
			sf[k] += float64(x) * float64(y)
			abs[k] += math.Abs(float64(x) * float64(y))
		})
	})
	tol := make([]float64, n)
	if isFloat[T]() {
		for k := range sum {
			sum[k] = T(sf[k])
			tol[k] = 2 * float64(sa[p]+2) * epsOf[T]() * abs[k]
		}
	}
	return rs, sum, tol
}

func checkDot[T types.Number](rt *rapid.T, what string, m tensor.Tensor[T], rs []uint, want []T, tol []float64) {
	rt.Helper()
	if !eqShape(m.GetShape(), rs) {
		rt.Fatalf("%s has shape %v, want %v", what, m.GetShape(), rs)
	}
	got := m.GetData()
	if len(got) != len(want) {
		rt.Fatalf("%s has %d elements, want %d", what, len(got), len(want))
	}
	mul := strides(rs)
	for k := range want {
		ix := unravel(uint(k), mul)
		g, err := m.Get(ix...)
		if err != nil || !eqVal(g, got[k]) {
			rt.Fatalf("%s: Get(%v) = %v, %v but element %d is %v", what, ix, g, err, k, got[k])
		}
		if !near(got[k], want[k], tol[k]) {
			rt.Fatalf("%s at %v is %v, want %v (+-%g)", what, ix, got[k], want[k], tol[k])
		}
	}
}

func c05DotAt[T types.Number](rt *rapid.T, c *rec) {
	ra, rb := rapid.IntRange(1, 4).Draw(rt, "rankA"), rapid.IntRange(1, 4).Draw(rt, "rankB")
	lim := pick(rt, "lim", 12, 12, 60)
	if uniform(rt, "highRank", 15) == 14 {
		ra, rb = 1+uniform(rt, "highA", 7), 1+uniform(rt, "highB", 7)
	}
	sa, sb := genShapeN(rt, "a", ra, lim), genShapeN(rt, "b", rb, lim)
	p, q := rapid.IntRange(0, ra-1).Draw(rt, "p"), rapid.IntRange(0, rb-1).Draw(rt, "q")
	k := uint(rapid.IntRange(1, 5).Draw(rt, "shared"))
	if rapid.IntRange(0, 19).Draw(rt, "long") == 0 && lim == 12 {
		k = uint(rapid.IntRange(6, 300).Draw(rt, "sharedLong"))
	}
	sa[p], sb[q] = k, k
	same := rapid.IntRange(0, 4).Draw(rt, "same") == 0
	if same { // a tensor with itself
		rb, q = ra, min(q, ra-1)
		if p != q {
			k = min(k, 5)
		}
		sa[p], sa[q] = k, k
		sb = sa
		c.L("with itself")
	}
	modes := []int{dSmall, dDecimal, dWide}
	da := genVals[T](rt, c, "da", prod(sa), modes...)
	db := genVals[T](rt, c, "db", prod(sb), modes...)
	a, b := mk(da, sa), mk(db, sb)
	if same {
		b, db = a, da
	}
	rs, want, tol := refDot(sa, sb, da, db, p, q)
	what := fmt.Sprintf("DotAt(%v, %v, %d, %d)", sa, sb, p, q)
	r, err := a.DotAt(b, uint(p), uint(q))
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	checkDot[T](rt, what+" method", r, rs, want, tol)
	e := tensor.DotAt[T](a, b, uint(p), uint(q))
	g, err := graph.NewGraph(e)
	if err != nil {
		rt.Fatalf("%s: building the graph: %v", what, err)
	}
	g.Exec()
	checkDot[T](rt, what+" graph", e, rs, want, tol)
	g.Exec()
	checkDot[T](rt, what+" graph executed again", e, rs, want, tol)
	if rapid.IntRange(0, 2).Draw(rt, "reload") == 0 {
		// the graph follows its operands
		da = genVals[T](rt, c, "da2", prod(sa), modes...)
		if err := a.LoadData(da); err != nil {
			rt.Fatalf("LoadData: %v", err)
		}
		if a == b {
			db = da
		}
		rs, want, tol = refDot(sa, sb, da, db, p, q)
		g.Exec()
		checkDot[T](rt, what+" graph after loading its operand", e, rs, want, tol)
	}
	// Dot contracts last with second to last
	dp, dq := len(sa)-1, len(sb)-2
	if dq < 0 {
		dq = 0
	}
	if sa[dp] == sb[dq] {
		rs, want, tol = refDot(sa, sb, da, db, dp, dq)
		r, err = a.Dot(b)
		if err != nil {
			rt.Fatalf("Dot(%v, %v): %v", sa, sb, err)
		}
		checkDot[T](rt, fmt.Sprintf("Dot(%v, %v) method", sa, sb), r, rs, want, tol)
		checkDot[T](rt, fmt.Sprintf("Dot(%v, %v) graph", sa, sb), exec(rt, what, tensor.Dot[T](a, b)), rs, want, tol)
		c.L("Dot too")
	}
	checkTensor[T](rt, what+" left operand afterwards", a, sa, da)
	checkTensor[T](rt, what+" right operand afterwards", b, sb, db)
	c.K("%s", what)
	c.NT(k > 1 || len(want) > 1)
	c.L(fmt.Sprintf("%dx%d", ra, rb))
}

func c05Mat[T types.Number](rt *rapid.T, c *rec) {
	n, m, k := uint(rapid.IntRange(1, 9).Draw(rt, "n")), uint(rapid.IntRange(1, 9).Draw(rt, "m")), uint(rapid.IntRange(1, 9).Draw(rt, "k"))
	sa, sb := []uint{n, k}, []uint{k, m}
	vec := rapid.IntRange(0, 4).Draw(rt, "vec") == 0
	if vec {
		sa, sb = []uint{k}, []uint{k}
	}
	da := genVals[T](rt, c, "da", prod(sa), dSmall, dDecimal)
	db := genVals[T](rt, c, "db", prod(sb), dSmall, dDecimal)
	a, b := mk(da, sa), mk(db, sb)
	p, q := len(sa)-1, 0
	rs, want, tol := refDot(sa, sb, da, db, p, q)
	r, err := a.Dot(b)
	if err != nil {
		rt.Fatalf("Dot(%v, %v): %v", sa, sb, err)
	}
	what := fmt.Sprintf("Dot(%v, %v)", sa, sb)
	checkDot[T](rt, what+" method", r, rs, want, tol)
	checkDot[T](rt, what+" graph", exec(rt, what, tensor.Dot[T](a, b)), rs, want, tol)
	if vec {
		v, err := a.DotVector(b)
		if err != nil {
			rt.Fatalf("DotVector(%v): %v", sa, err)
		}
		checkDot[T](rt, "DotVector", v, rs, want, tol)
		c.L("vectors")
	}
	c.K("%s", what)
	c.NT(k > 1)
}
