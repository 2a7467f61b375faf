package harness

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/julioguillermo/godeep/scalar"
	"pgregory.net/rapid"
)

const ruleC20 = "exhaustive over all 65536 half patterns (widening, narrowing back, classification) and over the midpoint of every two neighbouring halves with its +-1, +-2 float32 neighbours; narrowing of further floats by stride over all 2^32 patterns (quick: every 7th with a seeded offset; thorough: all of them); arithmetic on generated pairs (thorough: more). Oracle: the value of a pattern by its definition in float64, nearest value by binary search with ties to even, exact float64 arithmetic rounded that way. Non-trivial: the result is finite and not an operand."

func TestC20(t *testing.T) {
	plain(t, "C20", "widen", c20Widen)
	plain(t, "C20", "boundaries", c20Bound)
	plain(t, "C20", "stride", c20Stride)
	run(t, "C20", ruleC20,
		sub{name: "arith", n: 400000, mul: 30, f: c20Arith},
		sub{name: "narrow", n: 200000, mul: 5, f: c20Narrow},
	)
}

// halfVal is the value a half pattern denotes.
func halfVal(b uint16) float64 {
	m, e := float64(b&0x3ff), int(b>>10&0x1f)
	var v float64
	switch {
	case e == 31 && m != 0:
		return math.NaN()
	case e == 31:
		v = math.Inf(1)
	case e == 0:
		v = math.Ldexp(m, -24)
	default:
		v = math.Ldexp(1024+m, e-25)
	}
	if b&0x8000 != 0 {
		v = math.Copysign(v, -1)
	}
	return v
}

var halfTab [0x7c01]float64 // the non-negative values, in order; the last stands for the next one, 2^16

func init() {
	for i := range halfTab {
		halfTab[i] = halfVal(uint16(i))
	}
	halfTab[0x7c00] = 65536
}

// toHalf is the nearest half of any float64 (exact or a float32 or correctly
// rounded quotient), ties to even.
func toHalf(v float64) uint16 {
	var sign uint16
	if math.Signbit(v) {
		sign = 0x8000
	}
	if v != v {
		return 0x7e00
	}
	a := math.Abs(v)
	if a >= 65536 {
		return sign | 0x7c00
	}
	i := sort.SearchFloat64s(halfTab[:], a) // the first not below a
	if halfTab[i] == a {
		return sign | uint16(i)
	}
	lo, hi := a-halfTab[i-1], halfTab[i]-a // exact: close numbers
	if hi < lo || (hi == lo && i%2 == 0) {
		return sign | uint16(i)
	}
	return sign | uint16(i-1)
}

func isHalfNaN(b uint16) bool { return b&0x7c00 == 0x7c00 && b&0x3ff != 0 }

func sameHalf(a, b uint16) bool { return a == b || (isHalfNaN(a) && isHalfNaN(b)) }

func narrowing(u uint32) string {
	f := math.Float32frombits(u)
	want := toHalf(float64(f))
	if got := scalar.F16fromF32(f).Value; !sameHalf(got, want) {
		return fmt.Sprintf("F16fromF32(%v = %#08x) is %#04x, want %#04x", f, u, got, want)
	}
	return ""
}

func c20Widen(shard, shards int, st *subStats) string {
	for k := shard; k < 1<<16; k += shards {
		b := uint16(k)
		st.Evaluations++
		h := &scalar.F16{Value: b}
		v := halfVal(b)
		nan, inf := v != v, math.IsInf(v, 0)
		g32, g64 := h.G32(), h.G64()
		if nan != (g32 != g32) || nan != (g64 != g64) {
			return fmt.Sprintf("%#04x widens to %v, %v", b, g32, g64)
		}
		if !nan && (math.Float64bits(float64(g32)) != math.Float64bits(v) || math.Float64bits(g64) != math.Float64bits(v)) {
			return fmt.Sprintf("%#04x widens to %v, %v, want %v", b, g32, g64, v)
		}
		for _, back := range []uint16{scalar.F16fromF32(g32).Value, scalar.F16fromF64(g64).Value} {
			if !sameHalf(back, b) {
				return fmt.Sprintf("%#04x widened and narrowed is %#04x", b, back)
			}
		}
		h.S32(g32)
		if !sameHalf(h.Value, b) {
			return fmt.Sprintf("S32 of %#04x's value stores %#04x", b, h.Value)
		}
		h.S64(g64)
		if !sameHalf(h.Value, b) {
			return fmt.Sprintf("S64 of %#04x's value stores %#04x", b, h.Value)
		}
		h.Value = b
		normal := !nan && !inf && math.Abs(v) >= math.Ldexp(1, -14)
		type q struct {
			n         string
			got, want bool
		}
		for _, x := range []q{
			{"IsNaN", h.IsNaN(), nan},
			{"IsQuietNaN", h.IsQuietNaN(), nan && b&0x200 != 0},
			{"IsInf(0)", h.IsInf(0), inf},
			{"IsInf(1)", h.IsInf(1), math.IsInf(v, 1)},
			{"IsInf(-1)", h.IsInf(-1), math.IsInf(v, -1)},
			{"IsInf(7)", h.IsInf(7), math.IsInf(v, 1)},
			{"IsInf(-7)", h.IsInf(-7), math.IsInf(v, -1)},
			{"IsFinite", h.IsFinite(), !nan && !inf},
			{"IsNormal", h.IsNormal(), normal},
			{"Signbit", h.Signbit(), b&0x8000 != 0},
		} {
			if x.got != x.want {
				return fmt.Sprintf("%#04x (%v): %s is %v", b, v, x.n, x.got)
			}
		}
		if h.Value != b {
			return fmt.Sprintf("asking about %#04x changed it", b)
		}
		out.Extra["enumerated_nontrivial"]++
	}
	n, pi, ni := scalar.F16NaN(), scalar.F16Inf(1), scalar.F16Inf(-1)
	if !isHalfNaN(n.Value) || pi.Value != 0x7c00 || ni.Value != 0xfc00 || scalarInf0() != 0x7c00 {
		return fmt.Sprintf("F16NaN, F16Inf(1), F16Inf(-1) are %#04x, %#04x, %#04x", n.Value, pi.Value, ni.Value)
	}
	return ""
}

func scalarInf0() uint16 { v := scalar.F16Inf(0); return v.Value }

func c20Bound(shard, shards int, st *subStats) string {
	for k := shard; k < 0x7c00; k += shards {
		lo, hi := halfTab[k], halfTab[k+1]
		for _, v := range []float64{lo, (lo + hi) / 2, hi} {
			u := math.Float32bits(float32(v))
			for d := -3; d <= 3; d++ {
				w := u + uint32(d)
				if d < 0 && u < uint32(-d) {
					continue
				}
				for _, s := range []uint32{0, 1 << 31} {
					st.Evaluations++
					out.Extra["enumerated_nontrivial"]++
					if m := narrowing(w | s); m != "" {
						return m
					}
				}
			}
		}
	}
	// around the special patterns
	for k := 0; k < 64; k++ {
		for _, u := range []uint32{0, 0x00800000, 0x33000000, 0x33800000, 0x387fe000, 0x38800000, 0x477fe000, 0x477ff000, 0x47800000, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x7fffffff} {
			for _, w := range []uint32{u + uint32(k), u - uint32(k)} {
				st.Evaluations++
				if m := narrowing(w); m != "" {
					return m
				}
				if m := narrowing(w ^ 1<<31); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

func c20Stride(shard, shards int, st *subStats) string {
	step := uint64(7)
	if thorough() {
		step = 1
	}
	for u := uint64(envInt("VERIF_SEED", 1))*2654435761%step + step*uint64(shard); u < 1<<32; u += step * uint64(shards) {
		st.Evaluations++
		if m := narrowing(uint32(u)); m != "" {
			return m
		}
		if e := u >> 23 & 0xff; e >= 103 && e < 143 { // the result is finite and not zero
			st.Nontrivial++
		}
	}
	out.Extra["enumerated_nontrivial"] += st.Nontrivial
	return ""
}

func genHalf(rt *rapid.T, label string) uint16 {
	switch uniform(rt, label+"Kind", 6) {
	case 0: // special
		return pick(rt, label, uint16(0), 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0x3c00, 0xbc00)
	case 1: // subnormal
		return uint16(uniform(rt, label, 0x400)) | uint16(uniform(rt, label+"Sign", 2))<<15
	case 2: // around one
		return uint16(0x3800 + uniform(rt, label, 0x800))
	}
	return uint16(uniform(rt, label, 1<<16))
}

func c20Arith(rt *rapid.T, c *rec) {
	a, b := genHalf(rt, "a"), genHalf(rt, "b")
	if uniform(rt, "near", 3) == 0 { // operands whose exponents are close: cancellation, ties
		b = a&0xfc00 ^ uint16(uniform(rt, "b2", 1<<16))&0x8fff
	}
	k := uniform(rt, "op", 4)
	va, vb := halfVal(a), halfVal(b)
	x, y := &scalar.F16{Value: a}, &scalar.F16{Value: b}
	z := &scalar.F16{Value: a}
	var r scalar.Scalar
	var want float64
	switch k {
	case 0:
		want, r = va+vb, x.Add(y)
		z.SelfAdd(y)
	case 1:
		want, r = va-vb, x.Sub(y)
		z.SelfSub(y)
	case 2:
		want, r = va*vb, x.Mul(y)
		z.SelfMul(y)
	case 3:
		want, r = va/vb, x.Div(y)
		z.SelfDiv(y)
	}
	op := []string{"+", "-", "*", "/"}[k]
	c.K("%#04x%s%#04x", a, op, b)
	c.L(op)
	w := toHalf(want)
	g, ok := r.(*scalar.F16)
	if !ok {
		rt.Fatalf("half %s half is a %T", op, r)
	}
	if !sameHalf(g.Value, w) || !sameHalf(z.Value, w) {
		rt.Fatalf("%v (%#04x) %s %v (%#04x) is %#04x (Self: %#04x), want %#04x", va, a, op, vb, b, g.Value, z.Value, w)
	}
	if x.Value != a || y.Value != b {
		rt.Fatalf("%#04x %s %#04x changed an operand", a, op, b)
	}
	c.NT(w&0x7c00 != 0x7c00 && w != a && w != b)
	switch {
	case w&0x7c00 == 0x7c00:
		c.L("infinite or NaN")
	case w&0x7c00 == 0:
		c.L("subnormal or zero")
	}
	if halfVal(w) != want && w&0x7c00 != 0x7c00 {
		c.L("rounded")
	}
}

// narrowing of float64 goes through float32 or directly: both are accepted.
func c20Narrow(rt *rapid.T, c *rec) {
	r := genRng(rt, "v")
	e := r.between(-30, 18)
	v := math.Ldexp(1+float64(r.intn(1<<12))/(1<<12), e)
	switch r.intn(3) {
	case 0:
		v = math.Nextafter(v, math.Inf(1-2*r.intn(2)))
	case 1:
		v *= 1 + r.f64()
	}
	if r.intn(2) == 0 {
		v = -v
	}
	c.K("%v", v)
	c.NT(math.Abs(v) < 65504 && math.Abs(v) > 6e-8)
	got := scalar.F16fromF64(v).Value
	h := &scalar.F16{}
	h.S64(v)
	if got != toHalf(v) && got != toHalf(float64(float32(v))) {
		rt.Fatalf("F16fromF64(%v) is %#04x, want %#04x", v, got, toHalf(v))
	}
	if h.Value != got {
		rt.Fatalf("S64(%v) stores %#04x, F16fromF64 %#04x", v, h.Value, got)
	}
	if m := narrowing(math.Float32bits(float32(v))); m != "" {
		rt.Fatalf("%s", m)
	}
}
