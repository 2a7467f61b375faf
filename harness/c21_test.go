package harness

import (
	"fmt"
	"math"
	"strconv"
	"testing"

	"github.com/julioguillermo/godeep/scalar"
	"pgregory.net/rapid"
)

const ruleC21 = "histories of 3..25 operations on a pool of 2..5 scalars of half, single and double precision (any combination, an operand also being its own argument): Add, Sub, Mul, Div, their Self forms, Cmp, Copy, S32, S64, G32, G64, String, on values of all magnitudes, subnormals, signed zeros, infinities and NaN. Oracle: the same operation in Go's float32/float64 and correct rounding to half; where a wider operand meets a narrower receiver, operating first or rounding the operand first are both accepted. After every operation all other scalars of the pool must be unchanged. Non-trivial: at least two precisions and an arithmetic operation with a finite, non-zero result."

func TestC21(t *testing.T) {
	run(t, "C21", ruleC21,
		sub{name: "history", n: 120000, f: c21Hist},
	)
}

func scalarVal(rt *rapid.T, label string) float64 {
	r := genRng(rt, label)
	switch r.intn(8) {
	case 0:
		v := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), 65504, 65520, 6e-8, 3e-8, math.MaxFloat32, math.MaxFloat64, 5e-324, 1e-45, 0.1, 1.0 / 3}
		return v[r.intn(len(v))]
	case 1:
		return float64(r.between(-50, 50))
	case 2:
		return (r.f64()*2 - 1) * math.Pow(10, float64(r.between(-310, 308)))
	case 3:
		return (r.f64()*2 - 1) * math.Pow(10, float64(r.between(-40, 38)))
	case 4:
		return halfVal(uint16(r.next()))
	}
	return (r.f64()*2 - 1) * math.Pow(10, float64(r.between(-5, 5)))
}

func rawBits(s scalar.Scalar) uint64 {
	switch x := s.(type) {
	case *scalar.F16:
		return uint64(x.Value)
	case *scalar.F32:
		return uint64(math.Float32bits(x.Value))
	case *scalar.F64:
		return math.Float64bits(x.Value)
	}
	return 0
}

func precOf(s scalar.Scalar) int {
	switch s.(type) {
	case *scalar.F16:
		return 16
	case *scalar.F32:
		return 32
	case *scalar.F64:
		return 64
	}
	return 0
}

func val(s scalar.Scalar) float64 {
	switch x := s.(type) {
	case *scalar.F16:
		return halfVal(x.Value)
	case *scalar.F32:
		return float64(x.Value)
	case *scalar.F64:
		return x.Value
	}
	return math.NaN()
}

func arith(k int, a, b float64) float64 {
	switch k {
	case 0:
		return a + b
	case 1:
		return a - b
	case 2:
		return a * b
	}
	return a / b
}

func arith32(k int, a, b float32) float32 {
	switch k {
	case 0:
		return a + b
	case 1:
		return a - b
	case 2:
		return a * b
	}
	return a / b
}

// acceptable results, as values, of a (of precision p) op b (of precision q).
func acceptable(k, p, q int, a, b float64) []float64 {
	switch p {
	case 64:
		return []float64{arith(k, a, b)}
	case 32:
		r := []float64{float64(arith32(k, float32(a), float32(b)))}
		if q == 64 {
			r = append(r, float64(float32(arith(k, a, b))))
		}
		return r
	}
	r := []float64{halfVal(toHalf(arith(k, a, halfVal(toHalf(b)))))}
	if q > 16 {
		f := float64(arith32(k, float32(a), float32(b)))
		d := arith(k, a, b)
		r = append(r, halfVal(toHalf(f)), halfVal(toHalf(d)), halfVal(toHalf(float64(float32(d)))), halfVal(toHalf(arith(k, a, halfVal(toHalf(float64(float32(b))))))))
	}
	return r
}

func sameFloat(a, b float64) bool {
	return (a != a && b != b) || math.Float64bits(a) == math.Float64bits(b)
}

func oneOf(v float64, l []float64) bool {
	for _, x := range l {
		if sameFloat(v, x) {
			return true
		}
	}
	return false
}

func rounded(p int, v float64) []float64 {
	switch p {
	case 16:
		return []float64{halfVal(toHalf(v)), halfVal(toHalf(float64(float32(v))))}
	case 32:
		return []float64{float64(float32(v))}
	}
	return []float64{v}
}

func newScalar(rt *rapid.T) scalar.Scalar {
	v := scalarVal(rt, "init")
	var s scalar.Scalar
	var want []float64
	k := uniform(rt, "prec", 6)
	switch k {
	case 0:
		s, want = scalar.F16fromF32(float32(v)), []float64{halfVal(toHalf(float64(float32(v))))}
	case 1:
		s, want = scalar.F16fromF64(v), rounded(16, v)
	case 2:
		s, want = scalar.NewF32(float32(v)), rounded(32, v)
	case 3:
		s, want = scalar.F32fromF64(v), rounded(32, v)
	case 4:
		s, want = scalar.NewF64(v), []float64{v}
	case 5:
		s, want = scalar.F64fromF32(float32(v)), rounded(32, v)
	}
	if !oneOf(val(s), want) {
		rt.Fatalf("constructor %d of %v holds %v", k, v, val(s))
	}
	return s
}

func c21Hist(rt *rapid.T, c *rec) {
	var pool []scalar.Scalar
	precs := map[int]bool{}
	for n := 2 + uniform(rt, "pool", 4); n > 0; n-- {
		s := newScalar(rt)
		precs[precOf(s)] = true
		pool = append(pool, s)
	}
	hist := ""
	good := false
	for n := 3 + uniform(rt, "ops", 23); n > 0; n-- {
		i, j := uniform(rt, "receiver", len(pool)), uniform(rt, "operand", len(pool))
		x, y := pool[i], pool[j]
		var was []uint64
		for _, s := range pool {
			was = append(was, rawBits(s))
		}
		a, b := val(x), val(y)
		p, q := precOf(x), precOf(y)
		changes := false
		k := uniform(rt, "op", 16)
		switch {
		case k < 4: // new scalar
			op := []string{"Add", "Sub", "Mul", "Div"}[k]
			var r scalar.Scalar
			switch k {
			case 0:
				r = x.Add(y)
			case 1:
				r = x.Sub(y)
			case 2:
				r = x.Mul(y)
			case 3:
				r = x.Div(y)
			}
			hist += fmt.Sprintf("%d:%d.%s(%d:%d) ", i, p, op, j, q)
			if precOf(r) != p {
				rt.Fatalf("%s: result of a %d-bit receiver is a %T", hist, p, r)
			}
			if !oneOf(val(r), acceptable(k, p, q, a, b)) {
				rt.Fatalf("%s: %v %s %v is %v, want %v", hist, a, op, b, val(r), acceptable(k, p, q, a, b))
			}
			good = good || (!math.IsInf(val(r), 0) && val(r) != 0 && val(r) == val(r))
			before := rawBits(r)
			if uniform(rt, "keep", 2) == 0 {
				z := uniform(rt, "slot", len(pool))
				pool[z] = r // later operations on it must not reach x or y
				was[z] = before
			} else {
				r.S64(12.5) // nor does a direct change
			}
		case k < 8:
			op := []string{"SelfAdd", "SelfSub", "SelfMul", "SelfDiv"}[k-4]
			switch k - 4 {
			case 0:
				x.SelfAdd(y)
			case 1:
				x.SelfSub(y)
			case 2:
				x.SelfMul(y)
			case 3:
				x.SelfDiv(y)
			}
			changes = true
			hist += fmt.Sprintf("%d:%d.%s(%d:%d) ", i, p, op, j, q)
			if !oneOf(val(x), acceptable(k-4, p, q, a, b)) {
				rt.Fatalf("%s: %v %s %v is %v, want %v", hist, a, op, b, val(x), acceptable(k-4, p, q, a, b))
			}
			good = good || (!math.IsInf(val(x), 0) && val(x) != 0 && val(x) == val(x))
		case k < 10:
			hist += fmt.Sprintf("%d:%d.Cmp(%d:%d) ", i, p, j, q)
			got := x.Cmp(y)
			cmp := func(a, b float64) scalar.CmpRes {
				switch {
				case a < b:
					return scalar.CmpL
				case a > b:
					return scalar.CmpG
				}
				return scalar.CmpE
			}
			if a == a && b == b {
				ok := false
				cands := rounded(p, b)
				if p < q {
					cands = append(cands, b, float64(float32(b)))
				}
				for _, v := range cands {
					ok = ok || cmp(a, v) == got
				}
				if !ok {
					rt.Fatalf("%s: %v against %v is %v", hist, a, b, got)
				}
			}
		case k == 10:
			hist += fmt.Sprintf("%d:%d.Copy ", i, p)
			r := x.Copy()
			if precOf(r) != p || rawBits(r) != rawBits(x) {
				rt.Fatalf("%s: copy of %v (%d bits) is %v (%T)", hist, a, p, val(r), r)
			}
			if uniform(rt, "keep", 2) == 0 {
				z := uniform(rt, "slot", len(pool))
				pool[z] = r
				was[z] = rawBits(r)
			} else {
				r.SelfAdd(scalar.NewF64(3))
				r.S64(-7)
			}
		case k < 13:
			v := scalarVal(rt, "set")
			changes = true
			want := rounded(p, v)
			if k == 11 {
				x.S32(float32(v))
				want = rounded(p, float64(float32(v)))
			} else {
				x.S64(v)
			}
			hist += fmt.Sprintf("%d:%d.S%d(%v) ", i, p, 32*(k-10), v)
			if !oneOf(val(x), want) {
				rt.Fatalf("%s: holds %v, want %v", hist, val(x), want)
			}
		case k == 13:
			hist += "G "
			if g := x.G64(); !sameFloat(g, a) {
				rt.Fatalf("%s: G64 of %v (%d bits) is %v", hist, a, p, g)
			}
			if g := x.G32(); !sameFloat(float64(g), float64(float32(a))) {
				rt.Fatalf("%s: G32 of %v (%d bits) is %v", hist, a, p, g)
			}
		default:
			hist += "String "
			str := x.String()
			v, err := strconv.ParseFloat(str, 64)
			if p < 64 {
				v = float64(float32(v))
			}
			if (err != nil && a == a) || (a != a && str != "NaN") || (a == a && v != a) || math.Signbit(v) != math.Signbit(a) && a == a {
				rt.Fatalf("%s: %v (%d bits) prints as %q", hist, a, p, str)
			}
		}
		for z, s := range pool {
			if z == i && changes {
				continue
			}
			if rawBits(s) != was[z] {
				rt.Fatalf("%s: number %d (%d bits) changed from %#x to %#x", hist, z, precOf(s), was[z], rawBits(s))
			}
		}
	}
	c.K("%s", hist)
	c.NT(len(precs) > 1 && good)
}
