package harness

import (
	"fmt"
	"testing"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC17 = "random networks (branches, nested models) and compositions of 2..3 models (of which the whole or a part is trained), histories of 2..7 training steps between which single layers, nested models, parts or the whole model are frozen and released at random. Oracle: a twin with nothing frozen, given the same parameters before every step: frozen parameters stay bit for bit, the others become bit for bit the twin's (for a layer that was frozen earlier: in steps without momentum); samples, data sets and a bystander model are unchanged. Non-trivial: a step with at least one frozen and one trainable parametric layer."

func TestC17(t *testing.T) {
	run(t, "C17", ruleC17,
		sub{name: "history", n: 9000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c17Hist[float32], c17Hist[float64]) }},
		sub{name: "composed", n: 4000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c17Comp[float32], c17Comp[float64]) }},
		sub{name: "train", n: 2000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c17Train[float32], c17Train[float64]) }},
	)
}

// modelsOf lists the nested models of a network with the parametric nodes
// each of them contains.
type nestedModel struct {
	n  *nspec
	ps []*nspec
}

func (s *netSpec) nested() []nestedModel {
	var l []nestedModel
	var inside func(n, stop, stop2 *nspec, add func(*nspec))
	inside = func(n, stop, stop2 *nspec, add func(*nspec)) {
		if n == nil || n == stop || n == stop2 || n.kind == "in" {
			return
		}
		if n.parametric() {
			add(n)
		}
		if n.kind == "model" {
			var ps []*nspec
			inside(n.inner, n.innerIn, n.pre, func(p *nspec) { ps = append(ps, p); add(p) })
			l = append(l, nestedModel{n, ps})
			inside(n.pre, stop, stop2, add)
			return
		}
		inside(n.pre, stop, stop2, add)
		inside(n.pre2, stop, stop2, add)
	}
	inside(s.root, s.in, nil, func(*nspec) {})
	return l
}

type freezer[T types.Number] struct {
	parts  []*net[T]
	whole  *model.Model[T]
	frozen map[*nspec]bool
	ever   map[*nspec]bool
	hist   string
}

func newFreezer[T types.Number](m *model.Model[T], parts ...*net[T]) *freezer[T] {
	return &freezer[T]{parts: parts, whole: m, frozen: map[*nspec]bool{}, ever: map[*nspec]bool{}}
}

func (f *freezer[T]) all() []*nspec {
	var l []*nspec
	for _, b := range f.parts {
		l = append(l, b.spec.params...)
	}
	return l
}

func (f *freezer[T]) lay(p *nspec) layer.Layer[T] {
	for _, b := range f.parts {
		if l, ok := b.layers[p]; ok {
			return l
		}
	}
	return nil
}

func (f *freezer[T]) set(ps []*nspec, on bool) {
	for _, p := range ps {
		f.frozen[p] = !on
		if !on {
			f.ever[p] = true
		}
	}
}

// change freezes or releases something.
func (f *freezer[T]) change(rt *rapid.T) {
	on := uniform(rt, "on", 5) < 2
	switch uniform(rt, "what", 6) {
	case 0:
		f.whole.SetTrainable(on)
		f.set(f.all(), on)
		f.hist += fmt.Sprintf("whole:%v ", on)
	case 1:
		b := f.parts[uniform(rt, "part", len(f.parts))]
		b.m.SetTrainable(on)
		f.set(b.spec.params, on)
		f.hist += fmt.Sprintf("part:%v ", on)
	case 2:
		var l []nestedModel
		var in []*net[T]
		for _, b := range f.parts {
			for _, n := range b.spec.nested() {
				l, in = append(l, n), append(in, b)
			}
		}
		if len(l) > 0 {
			i := uniform(rt, "nested", len(l))
			in[i].layers[l[i].n].SetTrainable(on)
			f.set(l[i].ps, on)
			f.hist += fmt.Sprintf("nested%d:%v ", i, on)
			return
		}
		fallthrough
	default:
		all := f.all()
		if len(all) == 0 {
			return
		}
		i := uniform(rt, "layer", len(all))
		f.lay(all[i]).SetTrainable(on)
		f.set(all[i:i+1], on)
		f.hist += fmt.Sprintf("layer%d:%v ", i, on)
	}
}

func layerParams[T types.Number](b *net[T], p *nspec) []T {
	l := base(b.layers[p])
	return append(l.Weights.GetData(), l.Bias.GetData()...)
}

// judge compares the model after a step with its state before and the twin.
func (f *freezer[T]) judge(rt *rapid.T, c *rec, what string, before map[*nspec][]T, twin []*net[T], mom float64) {
	cold, warm := false, false
	for i, b := range f.parts {
		for k, p := range b.spec.params {
			now := layerParams(b, p)
			if f.frozen[p] {
				cold = true
				if d := sameAll(now, before[p]); d != "" {
					rt.Fatalf("%s: %s: part %d: parameters of the frozen %s (number %d): %s", what, f.hist, i, p.kind, k, d)
				}
				continue
			}
			warm = true
			if mom == 0 || !f.ever[p] {
				if d := sameAll(now, layerParams(twin[i], p)); d != "" {
					rt.Fatalf("%s: %s: part %d: trainable %s (number %d) differs from the one of a model with nothing frozen: %s", what, f.hist, i, p.kind, k, d)
				}
			}
		}
	}
	c.NT(cold && warm)
}

func (f *freezer[T]) snapshot() map[*nspec][]T {
	m := map[*nspec][]T{}
	for _, b := range f.parts {
		for _, p := range b.spec.params {
			m[p] = layerParams(b, p)
		}
	}
	return m
}

func wild[T types.Number](v []T) bool {
	for _, x := range v {
		if !(x < 1000 && x > -1000) {
			return true
		}
	}
	return false
}

func c17Hist[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s := genNet(rt, c)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, f32)
	var three [3]*net[T]
	for i := range three {
		b, err := compiled[T](s)
		if err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		three[i] = b
	}
	b, twin, other := three[0], three[1], three[2]
	otherWas := other.params()
	f := newFreezer(b.m, b)
	if uniform(rt, "early", 3) == 0 {
		// frozen before it is compiled
		b = build[T](s)
		f = newFreezer(b.m, b)
		for k := 1 + uniform(rt, "earlyChanges", 3); k > 0; k-- {
			f.change(rt)
		}
		f.hist += "compile "
		if err := b.m.Compile(); err != nil {
			rt.Fatalf("%s: %s: Compile: %v", s, f.hist, err)
		}
		if err := b.setParams(); err != nil {
			rt.Fatalf("%s: %s: %v", s, f.hist, err)
		}
		c.L("frozen before compiling")
	}
	for n := rapid.IntRange(2, 7).Draw(rt, "steps"); n > 0; n-- {
		for k := uniform(rt, "changes", 4); k > 0; k-- {
			f.change(rt)
		}
		alpha := float64(T(pick(rt, "alpha", 0.05, 0.1, 0.25)))
		mom := float64(T(pick(rt, "momentum", 0, 0.5, 0, 0.9)))
		f.hist += fmt.Sprintf("train(%v) ", mom)
		xv, yv := randVec(r, prod(s.in.shape), f32), randVec(r, prod(s.root.shape), f32)
		x, y := tens[T](xv, s.in.shape), tens[T](yv, s.root.shape)
		b.readParams()
		if err := twin.setParams(); err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		before := f.snapshot()
		lb, err := b.m.TrainOne(x, y, T(alpha), T(mom))
		if err != nil {
			rt.Fatalf("%s: TrainOne: %v", s, err)
		}
		lt, err := twin.m.TrainOne(tens[T](xv, s.in.shape), tens[T](yv, s.root.shape), T(alpha), T(mom))
		if err != nil {
			rt.Fatalf("%s: TrainOne: %v", s, err)
		}
		if !eqVal(lb, lt) {
			rt.Fatalf("%s: %s: loss %v, with nothing frozen %v", s, f.hist, lb, lt)
		}
		if d := sameAll(x.GetData(), toT[T](xv)) + sameAll(y.GetData(), toT[T](yv)); d != "" {
			rt.Fatalf("%s: training changed the sample: %s", s, d)
		}
		f.judge(rt, c, s.String(), before, []*net[T]{twin}, mom)
		if d := sameAll(other.params(), otherWas); d != "" {
			rt.Fatalf("%s: training changed another model: %s", s, d)
		}
		if wild(b.params()) {
			c.L("stopped")
			break
		}
	}
	c.K("%s", f.hist)
}

func c17Comp[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	parts, mkWhole := genComposition[T](rt, c, 2, 3)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	what := partsString(parts)
	for _, s := range parts {
		s.initParams(r, f32)
	}
	w, err := mkWhole()
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	twin, err := mkWhole()
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	f := newFreezer(w.m, w.parts...)
	for n := rapid.IntRange(1, 4).Draw(rt, "steps"); n > 0; n-- {
		for k := uniform(rt, "changes", 4); k > 0; k-- {
			f.change(rt)
		}
		j := -1 // the whole
		if uniform(rt, "partAlone", 3) == 0 {
			j = uniform(rt, "trained", len(w.parts))
			c.L("a part trained alone")
		}
		f.hist += fmt.Sprintf("train%d ", j)
		for i, b := range w.parts {
			b.readParams()
			if err := twin.parts[i].setParams(); err != nil {
				rt.Fatalf("%s: %v", what, err)
			}
		}
		before := f.snapshot()
		r2 := &rng{s: r.s}
		if j >= 0 {
			w1, w2 := &whole[T]{w.parts[j].m, w.parts[j : j+1]}, &whole[T]{twin.parts[j].m, twin.parts[j : j+1]}
			if err := w1.train(r, 0.1, 0); err != nil {
				rt.Fatalf("%s: %s: TrainOne: %v", what, f.hist, err)
			}
			if err := w2.train(r2, 0.1, 0); err != nil {
				rt.Fatalf("%s: %s: TrainOne: %v", what, f.hist, err)
			}
			for i, b := range w.parts {
				for k, p := range b.spec.params {
					if d := sameAll(layerParams(b, p), before[p]); i != j && d != "" {
						rt.Fatalf("%s: %s: training part %d changed parametric layer %d of part %d: %s", what, f.hist, j, k, i, d)
					}
				}
			}
		} else {
			if err := w.train(r, 0.1, 0); err != nil {
				rt.Fatalf("%s: TrainOne: %v", what, err)
			}
			if err := twin.train(r2, 0.1, 0); err != nil {
				rt.Fatalf("%s: TrainOne: %v", what, err)
			}
		}
		f.judge(rt, c, what, before, twin.parts, 0)
		if wild(w.params()) {
			c.L("stopped")
			break
		}
	}
	c.K("%s", f.hist)
}

func c17Train[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s, r := c13Small[T](rt, c)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	f := newFreezer(b.m, b)
	for n := 1 + uniform(rt, "rounds", 3); n > 0; n-- {
		for k := uniform(rt, "changes", 4); k > 0; k-- {
			f.change(rt)
		}
		f.hist += "Train "
		var xs, ys []tensor.Tensor[T]
		var xv, yv [][]float64
		for i := 1 + uniform(rt, "samples", 3); i > 0; i-- {
			xv = append(xv, randVec(r, prod(s.in.shape), f32))
			yv = append(yv, randVec(r, prod(s.root.shape), f32))
			xs = append(xs, tens[T](xv[len(xv)-1], s.in.shape))
			ys = append(ys, tens[T](yv[len(yv)-1], s.root.shape))
		}
		before := f.snapshot()
		quiet(func() {
			err = b.m.Train(xs, ys, uint(1+uniform(rt, "epochs", 2)), uint(uniform(rt, "batch", 4)), T(pick(rt, "alpha", 0.05, 0.1)), T(pick(rt, "momentum", 0, 0.5)))
		})
		if err != nil {
			rt.Fatalf("%s: Train: %v", s, err)
		}
		cold := false
		for k, p := range s.params {
			if f.frozen[p] {
				cold = true
				if d := sameAll(layerParams(b, p), before[p]); d != "" {
					rt.Fatalf("%s: %s: parameters of the frozen %s (number %d): %s", s, f.hist, p.kind, k, d)
				}
			}
		}
		for i := range xs {
			if d := sameAll(xs[i].GetData(), toT[T](xv[i])) + sameAll(ys[i].GetData(), toT[T](yv[i])); d != "" {
				rt.Fatalf("%s: training changed the data set: %s", s, d)
			}
		}
		c.NT(cold)
	}
	c.K("%s", f.hist)
}
