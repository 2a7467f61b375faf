package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC10 = "each of the nine activations at float32 and float64, with random parameters (also 0, 1, negative, large) and batches of 64 inputs: moderate, tiny, huge, at and next to the kinks. Oracle: the closed form and its derivative computed in float64 by a second, cancellation-free formula, tolerance a few units in the last place of the type at the natural scale of the function; plus, at float64, Derive against the central difference quotient of Activate itself. Non-trivial: an input other than 0."

func TestC10(t *testing.T) {
	run(t, "C10", ruleC10,
		sub{name: "closedForm", n: 12000, f: func(rt *rapid.T, c *rec) {
			dispatchF(rt, c, c10Closed[float32], c10Closed[float64])
		}},
		sub{name: "differenceQuotient", n: 6000, f: c10Quot},
	)
	plain(t, "C10", "sweep32", c10Sweep)
}

// act is an activation with its reference.
type act struct {
	name       string
	alpha, lam float64
	scaleF     float64 // magnitude at which errors are measured
	kink       bool
}

func genAct(rt *rapid.T, f32 bool) act {
	a := act{name: pick(rt, "act", "Linear", "Relu", "ELU", "SELU", "Sigmoid", "Tanh", "Sin", "Swish", "GELU"), scaleF: 1}
	par := func(label string) float64 {
		v := 0.0
		switch rapid.IntRange(0, 4).Draw(rt, label+"Kind") {
		case 0:
			v = pick(rt, label, 0, 1, 0.5, 0.01, 2)
		case 1:
			v = float64(rapid.IntRange(-3000, 3000).Draw(rt, label)) / 1000
		case 2:
			v = float64(rapid.IntRange(0, 2000).Draw(rt, label)) / 1000
		case 3:
			v = float64(rapid.IntRange(-1000, 1000).Draw(rt, label))
		default:
			v = 1.6732632423543772
		}
		if f32 {
			v = float64(float32(v))
		}
		return v
	}
	switch a.name {
	case "Relu":
		a.alpha = par("alpha")
	case "ELU":
		a.alpha = par("alpha")
	case "SELU":
		a.alpha, a.lam = par("alpha"), par("lambda")
	}
	return a
}

func (a act) String() string { return fmt.Sprintf("%s(%v,%v)", a.name, a.alpha, a.lam) }

func mkAct[T types.Number](a act) activation.Activation[T] {
	switch a.name {
	case "Linear":
		return activation.Linear[T]{}
	case "Relu":
		return activation.Relu[T]{Alpha: T(a.alpha)}
	case "ELU":
		return activation.ELU[T]{Alpha: T(a.alpha)}
	case "SELU":
		return activation.SELU[T]{ELU: activation.ELU[T]{Alpha: T(a.alpha)}, Lambda: T(a.lam)}
	case "Sigmoid":
		return activation.Sigmoid[T]{}
	case "Tanh":
		return activation.Tanh[T]{}
	case "Sin":
		return activation.Sin[T]{}
	case "Swish":
		return activation.Swish[T]{}
	case "GELU":
		return activation.GELU[T]{}
	}
	panic(a.name)
}

// sig and its complement without cancellation
func sig(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1 + e)
}

const geluC = 0.044715

func geluU(x float64) float64 { return math.Sqrt(2/math.Pi) * (x + geluC*x*x*x) }

// f returns the function's value and the scale of admissible rounding errors.
func (a act) f(x float64) (v, scale float64) {
	switch a.name {
	case "Linear":
		return x, math.Abs(x)
	case "Relu":
		if x < 0 {
			return a.alpha * x, math.Abs(a.alpha * x)
		}
		return x, x
	case "ELU":
		if x < 0 {
			return a.alpha * math.Expm1(x), math.Abs(a.alpha)
		}
		return x, x
	case "SELU":
		if x < 0 {
			return a.lam * a.alpha * math.Expm1(x), math.Abs(a.alpha * a.lam)
		}
		return a.lam * x, math.Abs(a.lam * x)
	case "Sigmoid":
		return sig(x), 1
	case "Tanh":
		return math.Tanh(x), math.Abs(math.Tanh(x))
	case "Sin":
		return math.Sin(x), 1
	case "Swish":
		return x * sig(x), math.Abs(x)
	case "GELU":
		// 1+tanh(u) = 2 sigmoid(2u)
		return x * sig(2*geluU(x)), math.Abs(x)
	}
	panic(a.name)
}

// d returns the derivative.
func (a act) d(x float64) (v, scale float64) {
	s := 1 + math.Min(math.Abs(x), 100)
	switch a.name {
	case "Linear":
		return 1, 1
	case "Relu":
		if x < 0 {
			return a.alpha, math.Abs(a.alpha)
		}
		return 1, 1
	case "ELU":
		if x < 0 {
			return a.alpha * math.Exp(x), math.Abs(a.alpha)
		}
		return 1, 1
	case "SELU":
		if x < 0 {
			return a.lam * a.alpha * math.Exp(x), math.Abs(a.alpha * a.lam)
		}
		return a.lam, math.Abs(a.lam)
	case "Sigmoid":
		return sig(x) * sig(-x), 1
	case "Tanh":
		if math.Abs(x) > 300 {
			return 0, 1
		}
		c := math.Cosh(x)
		return 1 / (c * c), 1
	case "Sin":
		return math.Cos(x), 1
	case "Swish":
		if math.Abs(x) > 1e6 {
			return sig(x), s
		}
		return sig(x) * (1 + x*sig(-x)), s
	case "GELU":
		if math.Abs(x) > 1e3 {
			return sig(x), s
		}
		u := 2 * geluU(x)
		du := 2 * math.Sqrt(2/math.Pi) * (1 + 3*geluC*x*x)
		return sig(u) + x*sig(u)*sig(-u)*du, s
	}
	panic(a.name)
}

func c10Input(r *rng, f32 bool) float64 {
	v := 0.0
	switch r.intn(8) {
	case 0, 1, 2:
		v = (r.f64()*2 - 1) * 6
	case 3:
		v = float64(r.between(-3, 3)) / 2
	case 4:
		v = (r.f64()*2 - 1) * 100
	case 5:
		v = (r.f64()*2 - 1) * math.Pow(10, float64(r.between(-30, 0)))
	case 6:
		e := 300
		if f32 {
			e = 37
		}
		v = (r.f64()*2 - 1) * math.Pow(10, float64(r.between(2, e)))
	default:
		v = []float64{0, math.Copysign(0, -1), 1e-300, -1e-300, math.MaxFloat32, -math.MaxFloat32, 88, -88, 89, -104, 710, -710, -745, 20, -20}[r.intn(15)]
	}
	if f32 {
		return float64(float32(v))
	}
	return v
}

func c10One[T types.Number](a act, fn activation.Activation[T], x T) string {
	eps := epsOf[T]()
	var tiny float64 = 1e-300
	lim := math.MaxFloat64
	if bitsOf[T]() == 32 {
		tiny = 1e-37
		lim = math.MaxFloat32
	}
	fx := float64(x)
	for k := 0; k < 2; k++ {
		var want, sc, got float64
		name := "Activate"
		if k == 0 {
			want, sc = a.f(fx)
			got = float64(fn.Activate(x))
		} else {
			name = "Derive"
			want, sc = a.d(fx)
			got = float64(fn.Derive(x))
		}
		if math.Abs(want) > lim/4 || sc > lim/4 {
			continue // at the edge of the type's range
		}
		if math.IsNaN(got) || math.IsInf(got, 0) {
			return fmt.Sprintf("%s.%s(%v) = %v, want %v", a, name, x, got, want)
		}
		// a huge input of Swish and GELU only matters where the sigmoid has not vanished
		if k == 0 && (a.name == "Swish" || a.name == "GELU") && fx < -800 {
			sc = 1e-3
		}
		tol := 64*eps*(sc+math.Abs(want)) + tiny
		if math.Abs(got-want) > tol {
			return fmt.Sprintf("%s.%s(%v) = %v, want %v (tolerance %.3g)", a, name, x, got, want, tol)
		}
	}
	return ""
}

func c10Closed[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	a := genAct(rt, f32)
	r := genRng(rt, "seed")
	c.K("%s seed%d", a, r.s)
	c.L(a.name)
	fn := mkAct[T](a)
	n := rapid.IntRange(1, 64).Draw(rt, "inputs")
	for i := 0; i < n; i++ {
		x := T(c10Input(r, f32))
		var bad string
		if m := catch(func() { bad = c10One(a, fn, x) }); m != "" {
			bad = fmt.Sprintf("%s at %v: %s", a, x, m)
		}
		if bad != "" {
			rt.Fatalf("%s", bad)
		}
		out.Extra["inputs"]++
		c.NT(x != 0)
	}
}

func c10Quot(rt *rapid.T, c *rec) {
	a := genAct(rt, false)
	fn := mkAct[float64](a)
	r := genRng(rt, "seed")
	c.K("%s seed%d", a, r.s)
	c.L(a.name)
	for i := 0; i < 16; i++ {
		x := (r.f64()*2 - 1) * []float64{1, 4, 12}[r.intn(3)]
		h := 1e-5
		if math.Abs(x) < 2*h {
			continue
		}
		q := (fn.Activate(x+h) - fn.Activate(x-h)) / (2 * h)
		g := fn.Derive(x)
		sc := 1 + math.Abs(a.alpha) + math.Abs(a.lam) + math.Abs(a.alpha*a.lam)
		if !(math.Abs(q-g) <= 1e-7*sc*(1+math.Abs(x))) {
			rt.Fatalf("%s: Derive(%v) = %v, but the difference quotient of Activate there is %v", a, x, g, q)
		}
		c.NT(true)
	}
}

// c10Sweep runs a grid over the whole range of float32 bit patterns.
func c10Sweep(shard, shards int, st *subStats) string {
	acts := []act{{name: "Linear"}, {name: "Relu", alpha: 0}, {name: "Relu", alpha: 0.25}, {name: "ELU", alpha: 1}, {name: "SELU", alpha: 1.5, lam: 1.25},
		{name: "Sigmoid"}, {name: "Tanh"}, {name: "Sin"}, {name: "Swish"}, {name: "GELU"}}
	step := uint64(500009)
	if thorough() {
		step = 20011
	}
	for _, a := range acts {
		fn := mkAct[float32](a)
		f64 := mkAct[float64](a)
		for b := uint64(shard) * step; b < 1<<32; b += step * uint64(shards) {
			x := math.Float32frombits(uint32(b))
			if x != x || math.IsInf(float64(x), 0) {
				continue
			}
			st.Evaluations++
			st.Nontrivial++
			out.Extra["enumerated_nontrivial"]++
			if bad := c10One(a, fn, x); bad != "" {
				return "float32: " + bad
			}
			if bad := c10One(a, f64, float64(x)); bad != "" {
				return "float64: " + bad
			}
		}
	}
	return ""
}
