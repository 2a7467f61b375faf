package harness

import (
	"fmt"
	"math"
	"regexp"
	"strings"
	"testing"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC25 = "tensors of generated shapes, element types and values (NaN, infinities, signed zeros, extremes), and results of executed expressions, printed: the numbers in the text must be the rank, the element count, the extents and the elements in order, each as fmt prints the value; generated vectors for the distance and the list helpers, pairs of shapes for the comparison, and progress bars for all widths -3..200 with many progress values. Non-trivial: more than one element; shapes that differ; a progress strictly between 0 and 1."

func TestC25(t *testing.T) {
	run(t, "C25", ruleC25,
		sub{name: "print", n: 40000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c25Print[float32], c25Print[float64], c25Print[int], c25Print[int16], c25Print[int32], c25Print[int64])
		}},
		sub{name: "distance", n: 20000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c25Dist[float32], c25Dist[float64], c25Dist[int], c25Dist[int16], c25Dist[int32], c25Dist[int64])
		}},
		sub{name: "lists", n: 20000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c25Lists[float32], c25Lists[float64], c25Lists[int], c25Lists[int16], c25Lists[int32], c25Lists[int64])
		}},
		sub{name: "shapes", n: 40000, f: c25Shapes},
	)
	plain(t, "C25", "bar", c25Bar)
}

var numRe = regexp.MustCompile(`[-+]?(?:[0-9]+(?:\.[0-9]+)?(?:e[-+]?[0-9]+)?|Inf\b)|NaN`)

func c25Print[T types.Number](rt *rapid.T, c *rec) {
	sh := genShape(rt, "shape", 0, 5, pick(rt, "max", 120, 120, 120, 1500))
	n := prod(sh)
	v := genVals[T](rt, c, "values", n)
	c.K("%v", sh)
	c.NT(n > 1)
	var t tensor.Tensor[T] = mk(v, sh)
	if uniform(rt, "expr", 4) == 0 {
		c.L("expression")
		e := tensor.Neg(t)
		g, err := graph.NewGraph(e)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		g.Exec()
		v = e.GetData()
		t = e
	}
	str := t.String()
	got := numRe.FindAllString(str, -1)
	want := []string{fmt.Sprint(len(sh)), fmt.Sprint(n)}
	for _, d := range sh {
		want = append(want, fmt.Sprint(d))
	}
	for _, x := range v {
		want = append(want, fmt.Sprint(x))
	}
	if len(got) != len(want) {
		rt.Fatalf("tensor %v of %d elements prints %d numbers: %s", sh, n, len(got), short(str))
	}
	for i := range got {
		if got[i] != want[i] {
			rt.Fatalf("tensor %v: number %d of the text is %s, want %s: %s", sh, i, got[i], want[i], short(str))
		}
	}
	if f := fmt.Sprint(t); f != str {
		rt.Fatalf("fmt prints %s, String gives %s", short(f), short(str))
	}
	if ss := numRe.FindAllString(tools.ShapeStr(sh), -1); len(ss) != len(sh) || strings.Join(ss, " ") != strings.Join(want[2:2+len(sh)], " ") {
		rt.Fatalf("ShapeStr(%v) is %q", sh, tools.ShapeStr(sh))
	}
	if d := diffData(t.GetData(), v); d != "" {
		rt.Fatalf("printing changed the tensor: %s", d)
	}
}

func c25Dist[T types.Number](rt *rapid.T, c *rec) {
	n := uniform(rt, "n", 40)
	m := n
	if uniform(rt, "uneven", 4) == 0 {
		m = uniform(rt, "m", 40)
	}
	modes := []int{dSmall, dDecimal}
	if bitsOf[T]() < 32 {
		modes = []int{dSmall}
	}
	a, b := genVals[T](rt, c, "a", n, modes...), genVals[T](rt, c, "b", m, modes...)
	if n == m && uniform(rt, "equal", 6) == 0 {
		copy(b, a)
	}
	c.K("%d %d", n, m)
	was, was2 := append([]T{}, a...), append([]T{}, b...)
	var d T
	var err error
	if msg := catch(func() { d, err = tools.Distant(a, b) }); msg != "" {
		rt.Fatalf("Distant of %d and %d: %s", n, m, msg)
	}
	if sameAll(a, was) != "" || sameAll(b, was2) != "" {
		rt.Fatalf("Distant changed its arguments")
	}
	if n != m {
		c.L("unequal lengths")
		if err == nil {
			rt.Fatalf("Distant of %d and %d elements: no error", n, m)
		}
		return
	}
	if err != nil {
		rt.Fatalf("Distant of %d elements: %v", n, err)
	}
	s := 0.0
	for i := range a {
		x := float64(a[i]) - float64(b[i])
		s += x * x
	}
	if s > 30000 && bitsOf[T]() == 16 {
		c.L("does not fit the type")
		return
	}
	want := math.Sqrt(s)
	tol := 1e-12 * (1 + want)
	switch {
	case !isFloat[T]():
		tol = 1
		if want == math.Trunc(want) {
			tol = 0
		}
	case bitsOf[T]() == 32:
		tol = 1e-5 * (1 + want)
	}
	if !(math.Abs(float64(d)-want) <= tol) {
		rt.Fatalf("Distant(%v, %v) is %v, want %v", a, b, d, want)
	}
	if e, _ := tools.Distant(b, a); e != d {
		rt.Fatalf("Distant(%v, %v) is %v, the other way round %v", a, b, d, e)
	}
	c.NT(n > 1 && want > 0)
}

func c25Lists[T types.Number](rt *rapid.T, c *rec) {
	n := 1 + uniform(rt, "n", 40)
	if uniform(rt, "long", 25) == 24 {
		n = 41 + uniform(rt, "longN", 3000)
	}
	modes := []int{dSmall, dDecimal}
	if bitsOf[T]() < 32 {
		modes = []int{dSmall}
	}
	v := genVals[T](rt, c, "v", n, modes...)
	c.NT(n > 1)
	var l []*number.Scalar[T]
	s, mx, mn, abs := 0.0, math.Inf(-1), math.Inf(1), 0.0
	for _, x := range v {
		l = append(l, number.NewScalar(x))
		f := float64(x)
		s += f
		abs += math.Abs(f)
		mx, mn = math.Max(mx, f), math.Min(mn, f)
	}
	tol := 0.0
	if isFloat[T]() {
		tol = abs * (1e-13 + float64(n)*2e-16)
		if bitsOf[T]() == 32 {
			tol = abs * (1e-5 + float64(n)*1e-7)
		}
	}
	if g := tools.Sum(l); !(math.Abs(float64(g)-s) <= tol) {
		rt.Fatalf("Sum(%v) is %v, want %v", v, g, s)
	}
	avg := s / float64(n)
	if !isFloat[T]() {
		avg = math.Trunc(avg)
	}
	if g := tools.Avg(l); !(math.Abs(float64(g)-avg) <= tol) {
		rt.Fatalf("Avg(%v) is %v, want %v", v, g, avg)
	}
	if g := tools.Max(l); float64(g) != mx {
		rt.Fatalf("Max(%v) is %v, want %v", v, g, mx)
	}
	if g := tools.Min(l); float64(g) != mn {
		rt.Fatalf("Min(%v) is %v, want %v", v, g, mn)
	}
	for i := range v {
		if l[i].Value != v[i] {
			rt.Fatalf("a list helper changed element %d", i)
		}
	}
}

func c25Shapes(rt *rapid.T, c *rec) {
	a := genShape(rt, "a", 0, 6, 1000)
	b := append([]uint{}, a...)
	k := uniform(rt, "kind", 4)
	switch {
	case k == 0:
		b = genShape(rt, "b", 0, 6, 1000)
	case k == 1 && len(b) > 0: // change from some dimension on
		for i := uniform(rt, "from", len(b)); i < len(b); i++ {
			if uniform(rt, "change", 2) == 0 {
				b[i] += uint(uniform(rt, "by", 3))
			}
		}
	case k == 2:
		b = append(b, uint(1+uniform(rt, "extra", 3)))
	}
	c.K("%v %v", a, b)
	want := -1
	if len(a) != len(b) {
		want = -2
	} else {
		for i := range a {
			if a[i] != b[i] {
				want = i
				break
			}
		}
	}
	c.NT(want != -1)
	if g := tools.Equals(a, b); g != want {
		rt.Fatalf("Equals(%v, %v) is %d, want %d", a, b, g, want)
	}
	err := tools.GetEqShapeErr("operation x", a, b)
	if (err != nil) != (want != -1) {
		rt.Fatalf("GetEqShapeErr(%v, %v) is %v", a, b, err)
	}
	if err != nil {
		if !strings.Contains(err.Error(), "operation x") {
			rt.Fatalf("GetEqShapeErr(%v, %v) does not name the operation: %v", a, b, err)
		}
		if want >= 0 {
			for _, n := range []uint{a[want], b[want]} {
				if !strings.Contains(err.Error(), fmt.Sprint(n)) {
					rt.Fatalf("GetEqShapeErr(%v, %v) does not name the extents: %v", a, b, err)
				}
			}
		}
	}
}

func c25Bar(shard, shards int, st *subStats) string {
	r := &rng{s: uint64(envInt("VERIF_SEED", 1)*100 + shard)}
	for size := -3 + shard; size <= 200; size += shards {
		prev := -1
		var ps []float64
		for k := 0; k <= 100; k++ {
			ps = append(ps, float64(k)/100)
		}
		for k := 1; k < max(size, 1); k++ {
			ps = append(ps, float64(k)/float64(size))
		}
		for k := 0; k < 50; k++ {
			ps = append(ps, r.f64())
		}
		for i, p := range ps {
			st.Evaluations++
			s := tools.Bar(p, size)
			if size < 4 {
				if len(s) > max(size, 0) {
					return fmt.Sprintf("Bar(%v, %d) is %q", p, size, s)
				}
				continue
			}
			if p > 0 && p < 1 {
				out.Extra["enumerated_nontrivial"]++
			}
			if n := len([]rune(s)); n != size {
				return fmt.Sprintf("Bar(%v, %d) is %d characters wide: %q", p, size, n, s)
			}
			f := strings.Count(s, "#")
			want := p * float64(size-2)
			// rounded down; the product may be off by its rounding
			if math.Floor(want-1e-9) > float64(f) || math.Floor(want+1e-9) < float64(f) || (p == 1 && f != size-2) || (p == 0 && f != 0) {
				return fmt.Sprintf("Bar(%v, %d) has %d filled characters, want about %v: %q", p, size, f, want, s)
			}
			if f > 0 && !strings.Contains(s, strings.Repeat("#", f)) || (f > 0 && strings.Index(s, "#") > 1) {
				return fmt.Sprintf("Bar(%v, %d) is not filled from the left: %q", p, size, s)
			}
			if i <= 100 {
				if f < prev {
					return fmt.Sprintf("Bar(%v, %d) is emptier than at less progress: %q", p, size, s)
				}
				prev = f
			}
		}
	}
	return ""
}
