package harness

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC13 = "random networks and histories of 2..8 training steps with changing samples, learning rates and momenta (0, positive, negative), interleaved with Predict, ResetIS, Compile, CompileBackPropagation and Save. Oracle: before every step the reference takes over the model's parameters, and the step's change must be rate*gradient + momentum*(change of the previous step), the reported loss the sum of |target-prediction|. Train is compared with its definition: on a data set of equal samples with e*b single steps of a twin, on 2..3 different samples with all possible sequences of e*b choices. Compositions of 1..4 models: 2..8 steps, each of the whole or of one part, the other parts staying bit for bit. Small networks are followed over 60..400 steps. A run of 60 draws per sample must use every sample of the data set, and 1000 draws some of every window of an eighth of a set of up to 5000. Train on a terminal (a pseudo terminal of several widths, long enough for the progress to be shown) ends with the parameters of single steps. Non-trivial: parameters, at least two steps, a momentum other than 0 (or several samples)."

func TestC13(t *testing.T) {
	run(t, "C13", ruleC13,
		sub{name: "recursion", n: 10000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c13Steps[float32], c13Steps[float64]) }},
		sub{name: "composed", n: 5000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c13Line[float32], c13Line[float64]) }},
		sub{name: "trainSame", n: 3000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c13Same[float32], c13Same[float64]) }},
		sub{name: "trainDifferent", n: 1200, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c13Diff[float32], c13Diff[float64]) }},
		sub{name: "long", n: 150, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c13Long[float32], c13Long[float64]) }},
		sub{name: "everySample", n: 300, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c13Every[float32], c13Every[float64]) }},
		sub{name: "largeSet", n: 60, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c13Window[float32], c13Window[float64]) }},
	)
	plain(t, "C13", "terminal", c13Terminal)
}

func c13Steps[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s := genNet(rt, c)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, f32)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	n := rapid.IntRange(2, 8).Draw(rt, "steps")
	prev := make([]float64, s.nParams())
	hist := ""
	usedMom := false
	x := randVec(r, prod(s.in.shape), f32)
	y := randVec(r, prod(s.root.shape), f32)
	done := 0
	var xt, yt tensor.Tensor[T]
	if rapid.Bool().Draw(rt, "sameTensors") {
		xt, yt = tens[T](x, s.in.shape), tens[T](y, s.root.shape)
		c.L("samples in the same tensors")
	}
	for k := 0; k < n; k++ {
		for rapid.IntRange(0, 2).Draw(rt, "between") == 2 {
			var err error
			switch rapid.IntRange(0, 4).Draw(rt, "what") {
			case 0:
				hist += "predict "
				_, err = b.m.Predict(tens[T](randVec(r, len(x), f32), s.in.shape))
			case 1:
				hist += "resetIS "
				err = b.m.ResetIS()
			case 2:
				hist += "compile "
				err = b.m.Compile()
			case 3:
				hist += "compileBP "
				err = b.m.CompileBackPropagation()
			case 4:
				hist += "save "
				b.m.ResetSave()
				err = b.m.Save(&bytes.Buffer{})
			}
			if err != nil {
				rt.Fatalf("%s after %s: %v", s, hist, err)
			}
		}
		if rapid.IntRange(0, 3).Draw(rt, "newSample") > 0 {
			x = randVec(r, len(x), f32)
			y = randVec(r, len(y), f32)
		}
		y := append([]float64{}, y...)
		all, met := false, make([]bool, len(y))
		if rapid.IntRange(0, 5).Draw(rt, "perfect") == 0 {
			// the target is what the model predicts, in all or some positions
			p, err := b.m.Predict(tens[T](x, s.in.shape))
			if err != nil {
				rt.Fatalf("%s after %s: Predict: %v", s, hist, err)
			}
			all = rapid.Bool().Draw(rt, "everywhere")
			rest := 0
			for i, v := range p.GetData() {
				if all || r.intn(2) == 0 {
					y[i], met[i] = float64(v), true
				} else {
					rest++
				}
			}
			all = rest == 0
			hist += "perfect "
			c.L("target equal to the prediction")
		}
		alpha := float64(T(pick(rt, "alpha", 0.02, 0.1, 0.25, 0, 0.5, -0.1)))
		mom := float64(T(pick(rt, "momentum", 0.9, 0, 0.5, 1, -0.5, 1.25)))
		hist += fmt.Sprintf("train(%v,%v) ", alpha, mom)
		b.readParams()
		before := b.params()
		h := newHealth()
		o := s.root.forward(x, h)
		e := make([]float64, len(o))
		loss, size := 0.0, 1.0
		for i := range e {
			e[i] = y[i] - o[i]
			if met[i] {
				e[i] = 0 // the model's prediction, exactly
			}
			loss += math.Abs(e[i])
			size += math.Abs(o[i]) + math.Abs(y[i])
		}
		s.root.backward(e)
		want := s.grads()
		for i := range want {
			want[i] = alpha*want[i] + mom*prev[i]
		}
		tx, ty := xt, yt
		if tx == nil {
			tx, ty = tens[T](x, s.in.shape), tens[T](y, s.root.shape)
		} else {
			for i, t := range []tensor.Tensor[T]{tx, ty} {
				if err := t.LoadData(toT[T]([][]float64{x, y}[i])); err != nil {
					rt.Fatalf("LoadData: %v", err)
				}
			}
		}
		got, err := b.m.TrainOne(tx, ty, T(alpha), T(mom))
		if err != nil {
			rt.Fatalf("%s after %s: TrainOne: %v", s, hist, err)
		}
		after := b.params()
		fwd, bwd := steady([]*netSpec{s}, x, y, f32)
		bwd = bwd || fwd && all // no gradient to be sensitive
		if fwd && h.okForward(f32) && !(math.Abs(float64(got)-loss) <= tolF[T]()*size) {
			rt.Fatalf("%s: %s: loss %v, want %v", s, hist, got, loss)
		}
		if bwd && h.okBackward(f32) {
			if d := diffStep(before, after, want); d != "" {
				var i int
				fmt.Sscanf(d, "parameter %d", &i)
				rt.Fatalf("%s: %s: step %d: %s [%s]", s, hist, k+1, d, s.where(i))
			}
			done++
			if k > 0 && mom != 0 {
				usedMom = true
			}
		} else {
			c.L("step not compared")
		}
		wild := false
		for i := range after {
			prev[i] = float64(after[i]) - float64(before[i])
			if !(math.Abs(float64(after[i])) < 50) {
				wild = true
			}
		}
		if wild {
			c.L("stopped")
			break
		}
	}
	c.K("%s", hist)
	c.NT(len(prev) > 0 && done > 1 && usedMom)
}

func c13Small[T types.Number](rt *rapid.T, c *rec) (*netSpec, *rng) {
	g := &netGen{rt: rt, maxElems: 40}
	s := g.gen()
	describe(c, s)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, bitsOf[T]() == 32)
	return s, r
}

func c13Same[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s, r := c13Small[T](rt, c)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	twin, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	x := tens[T](randVec(r, prod(s.in.shape), f32), s.in.shape)
	y := tens[T](randVec(r, prod(s.root.shape), f32), s.root.shape)
	alpha, mom := T(pick(rt, "alpha", 0.01, 0.05, 0.1)), T(pick(rt, "momentum", 0, 0.5, 0.9))
	total := 0
	if rapid.IntRange(0, 2).Draw(rt, "warm") == 0 {
		// earlier steps, after which the target is met exactly: the momentum moves on
		for i := rapid.IntRange(1, 2).Draw(rt, "warmSteps"); i > 0; i-- {
			for _, m := range []*net[T]{b, twin} {
				if _, err := m.m.TrainOne(x, y, alpha, mom); err != nil {
					rt.Fatalf("%s: TrainOne: %v", s, err)
				}
			}
		}
		p, err := b.m.Predict(x)
		if err != nil {
			rt.Fatalf("%s: Predict: %v", s, err)
		}
		y = p.Copy().(*tensor.TensorMat[T])
		c.L("target equal to the prediction")
	}
	for round := rapid.IntRange(1, 2).Draw(rt, "rounds"); round > 0; round-- {
		k := rapid.IntRange(1, 4).Draw(rt, "samples")
		e := rapid.IntRange(0, 4).Draw(rt, "epochs")
		bt := rapid.IntRange(0, 5).Draw(rt, "batch")
		switch rapid.IntRange(0, 29).Draw(rt, "many") {
		case 28:
			e, bt = rapid.IntRange(5, 40).Draw(rt, "epochs"), 1
		case 29:
			e, bt = 1, rapid.IntRange(5, 40).Draw(rt, "batch")
		}
		var xs, ys []tensor.Tensor[T]
		for i := 0; i < k; i++ {
			xs, ys = append(xs, x.Copy()), append(ys, y.Copy())
		}
		c.K("n=%d e=%d b=%d", k, e, bt)
		quiet(func() { err = b.m.Train(xs, ys, uint(e), uint(bt), alpha, mom) })
		if err != nil {
			rt.Fatalf("%s: Train: %v", s, err)
		}
		steps := e * bt
		if bt == 0 {
			steps = e * k
			c.L("batch 0")
		}
		total += steps
		for i := 0; i < steps; i++ {
			if _, err := twin.m.TrainOne(x, y, alpha, mom); err != nil {
				rt.Fatalf("%s: TrainOne: %v", s, err)
			}
		}
		if d := sameAll(b.params(), twin.params()); d != "" {
			rt.Fatalf("%s: Train on %d equal samples, %d epochs, batch %d differs from %d single steps: %s", s, k, e, bt, steps, d)
		}
	}
	c.NT(s.nParams() > 0 && total > 1)
}

func c13Diff[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s, r := c13Small[T](rt, c)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	k := rapid.IntRange(2, 3).Draw(rt, "samples")
	e := rapid.IntRange(1, 2).Draw(rt, "epochs")
	bt := rapid.IntRange(0, 2).Draw(rt, "batch")
	steps := e * bt
	if bt == 0 {
		e = 1
		steps = k
	}
	c.K("n=%d e=%d b=%d", k, e, bt)
	var xs, ys []tensor.Tensor[T]
	for i := 0; i < k; i++ {
		xs = append(xs, tens[T](randVec(r, prod(s.in.shape), f32), s.in.shape))
		ys = append(ys, tens[T](randVec(r, prod(s.root.shape), f32), s.root.shape))
	}
	alpha, mom := T(pick(rt, "alpha", 0.05, 0.1)), T(pick(rt, "momentum", 0, 0.5))
	quiet(func() { err = b.m.Train(xs, ys, uint(e), uint(bt), alpha, mom) })
	if err != nil {
		rt.Fatalf("%s: Train: %v", s, err)
	}
	got := b.params()
	all := 1
	for i := 0; i < steps; i++ {
		all *= k
	}
	for code := 0; code < all; code++ {
		twin, err := compiled[T](s)
		if err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		for i, q := 0, code; i < steps; i++ {
			if _, err := twin.m.TrainOne(xs[q%k], ys[q%k], alpha, mom); err != nil {
				rt.Fatalf("%s: TrainOne: %v", s, err)
			}
			q /= k
		}
		if sameAll(got, twin.params()) == "" {
			c.NT(len(got) > 0)
			return
		}
	}
	rt.Fatalf("%s: Train(%d samples, %d epochs, batch %d) ends with parameters that no sequence of %d steps on the samples yields", s, k, e, bt, steps)
}

// c13Line: steps of a composed model and of its parts in any order.
func c13Line[T types.Number](rt *rapid.T, c *rec) {
	straight := rapid.IntRange(0, 2).Draw(rt, "branchesLater") > 0
	var parts []*netSpec
	if straight {
		parts = genLine(rt, c, 1, 4)
	} else {
		parts = genParts(rt, c, 1, 3)
	}
	lineSteps[T](rt, c, parts, straight, rapid.IntRange(2, 8).Draw(rt, "steps"))
}

// lineSteps composes the parts and trains the whole or one of the parts. A step
// adds to the parameters of what is trained rate*gradient + momentum*(the
// change of the layer's previous step); the others stay. Not straight: a part's output may be shared by branches
// of the next, steps of the whole are not compared.
func lineSteps[T types.Number](rt *rapid.T, c *rec, parts []*netSpec, straight bool, n int) {
	f32 := bitsOf[T]() == 32
	what := partsString(parts)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	for _, s := range parts {
		s.initParams(r, f32)
	}
	w, err := composeAny[T](rt, c, parts)
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	f := newFreezer(w.m, w.parts...)
	prev := map[*nspec][]float64{}
	hist := ""
	done, moved, usedMom := 0, false, false
	for k := 0; k < n; k++ {
		j := uniform(rt, "trained", len(parts)+1) - 1
		m, set := w.m, parts
		name := "whole"
		if j >= 0 && !w.apart(j) {
			c.L("part not trained alone")
			j = -1
		}
		if j >= 0 {
			m, set = w.parts[j].m, parts[j:j+1]
			name = fmt.Sprintf("part %d", j)
		}
		alpha := float64(T(pick(rt, "alpha", 0.05, 0.25, 0.5, 0, -0.1)))
		mom := float64(T(pick(rt, "momentum", 0.9, 0, 0.5, 1, -0.5)))
		hist += fmt.Sprintf("%s(%v,%v) ", name, alpha, mom)
		for _, b := range w.parts {
			b.readParams()
		}
		before := f.snapshot()
		s, undo := line(set)
		x := randVec(r, prod(s.in.shape), f32)
		y := randVec(r, prod(s.root.shape), f32)
		h := newHealth()
		o := s.root.forward(x, h)
		e := make([]float64, len(o))
		loss, size := 0.0, 1.0
		for i := range e {
			e[i] = y[i] - o[i]
			loss += math.Abs(e[i])
			size += math.Abs(o[i]) + math.Abs(y[i])
		}
		s.root.backward(e)
		trained := map[*nspec]bool{}
		var want []float64
		for _, p := range s.params {
			trained[p] = true
			g := append(append([]float64{}, p.dw...), p.db...)
			for i := range g {
				g[i] *= alpha
				moved = moved || math.Abs(g[i]) > 1e-6
				if prev[p] != nil {
					g[i] += mom * prev[p][i]
					usedMom = usedMom || mom != 0
				}
			}
			want = append(want, g...)
		}
		fwd, bwd := steady([]*netSpec{s}, x, y, f32)
		order := s.params
		undo()
		got, err := m.TrainOne(tens[T](x, s.in.shape), tens[T](y, s.root.shape), T(alpha), T(mom))
		if err != nil {
			rt.Fatalf("%s: %s: TrainOne: %v", what, hist, err)
		}
		after := f.snapshot()
		for q, b := range w.parts {
			for i, p := range b.spec.params {
				if d := sameAll(after[p], before[p]); d != "" && !trained[p] {
					rt.Fatalf("%s: %s: parametric layer %d of part %d, which was not trained: %s", what, hist, i, q, d)
				}
			}
		}
		if fwd && h.okForward(f32) && !(math.Abs(float64(got)-loss) <= tolF[T]()*size) {
			rt.Fatalf("%s: %s: loss %v, want %v", what, hist, got, loss)
		}
		var was, now []T
		for _, p := range order {
			was, now = append(was, before[p]...), append(now, after[p]...)
			prev[p] = make([]float64, len(after[p]))
			for i := range prev[p] {
				prev[p][i] = float64(after[p][i]) - float64(before[p][i])
			}
		}
		if bwd && h.okBackward(f32) && (straight || len(set) == 1) {
			if d := diffStep(was, now, want); d != "" {
				var i int
				fmt.Sscanf(d, "parameter %d", &i)
				rt.Fatalf("%s: %s: %s [%s]", what, hist, d, s.where(i))
			}
			done++
		} else {
			c.L("step not compared")
		}
		big := false
		for _, v := range now {
			big = big || !(math.Abs(float64(v)) < 50)
		}
		if big {
			c.L("stopped")
			break
		}
	}
	c.K("%s", hist)
	c.NT(len(parts) > 1 && moved && done > 0 && (n == 1 || usedMom))
}

// c13Long: small networks over hundreds of steps.
func c13Long[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	g := &netGen{rt: rt, maxElems: 8}
	s := g.gen()
	describe(c, s)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, f32)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	prev := make([]float64, s.nParams())
	n := rapid.IntRange(60, 400).Draw(rt, "steps")
	samples := rapid.IntRange(1, 3).Draw(rt, "samples")
	var xs, ys [][]float64
	for i := 0; i < samples; i++ {
		xs, ys = append(xs, randVec(r, prod(s.in.shape), f32)), append(ys, randVec(r, prod(s.root.shape), f32))
	}
	alpha, mom := float64(T(pick(rt, "alpha", 0.005, 0.02, 0.05))), float64(T(pick(rt, "momentum", 0.5, 0.9, 0)))
	c.K("n=%d alpha=%v momentum=%v", n, alpha, mom)
	compared := 0
	for k := 0; k < n; k++ {
		x, y := xs[r.intn(samples)], ys[r.intn(samples)]
		b.readParams()
		before := b.params()
		h := newHealth()
		o := s.root.forward(x, h)
		e := make([]float64, len(o))
		for i := range e {
			e[i] = y[i] - o[i]
		}
		s.root.backward(e)
		want := s.grads()
		for i := range want {
			want[i] = alpha*want[i] + mom*prev[i]
		}
		if _, err := b.m.TrainOne(tens[T](x, s.in.shape), tens[T](y, s.root.shape), T(alpha), T(mom)); err != nil {
			rt.Fatalf("%s: TrainOne: %v", s, err)
		}
		after := b.params()
		if _, bwd := steady([]*netSpec{s}, x, y, f32); bwd && h.okBackward(f32) {
			if d := diffStep(before, after, want); d != "" {
				rt.Fatalf("%s: step %d with rate %v, momentum %v: %s", s, k+1, alpha, mom, d)
			}
			compared++
		}
		for i := range after {
			prev[i] = float64(after[i]) - float64(before[i])
		}
		if wild(after) {
			c.L("stopped")
			break
		}
	}
	c.NT(len(prev) > 0 && compared > 50)
}

// c13Every: with one-hot inputs every sample has a weight of its own, which
// changes exactly when the sample has been used. Each of the k samples is drawn
// with the same probability, so that one is left out of 60k draws with a
// probability below 1e-24.
func c13Every[T types.Number](rt *rapid.T, c *rec) {
	k := rapid.IntRange(1, 6).Draw(rt, "samples")
	e, bt := 60, uint(0)
	if rapid.Bool().Draw(rt, "fewEpochs") {
		e, bt = 2, uint(30*k)
	}
	c.K("k=%d e=%d b=%d", k, e, bt)
	m := model.NewModel[T]().Push(layer.NewInDense[T](uint(k), uint(1), activation.Linear[T]{}))
	if err := m.Compile(); err != nil {
		rt.Fatalf("Compile: %v", err)
	}
	var xs, ys []tensor.Tensor[T]
	target := 100
	for i := 0; i < k; i++ {
		x := make([]T, k)
		x[i] = 1
		xs = append(xs, tensor.NewFromValues(x, uint(k)))
		ys = append(ys, tensor.NewFromValues([]T{T(target)}, 1))
		target *= 3
	}
	weights := func() []float64 {
		w := make([]float64, k)
		o, err := m.Predict(tensor.NewZeros[T](uint(k)))
		for i := 0; err == nil && i < k; i++ {
			b := float64(o.GetData()[0])
			var p tensor.Tensor[T]
			if p, err = m.Predict(xs[i]); err == nil {
				w[i] = float64(p.GetData()[0]) - b
			}
		}
		if err != nil {
			rt.Fatalf("Predict: %v", err)
		}
		return w
	}
	before := weights()
	var err error
	alpha := T(1) / T(4)
	quiet(func() { err = m.Train(xs, ys, uint(e), bt, alpha, 0) })
	if err != nil {
		rt.Fatalf("Train: %v", err)
	}
	for i, w := range weights() {
		// the weights settle at target minus bias, at least 25 from zero
		if !(math.Abs(w-before[i]) > 1) {
			rt.Fatalf("after %d draws from %d samples, sample %d has not been used", 60*k, k, i)
		}
	}
	c.NT(k > 1)
}

// c13Window: in a large data set only a window of the samples, at least an
// eighth of them, has an input other than 0, so that the weight changes exactly
// when one of them is drawn. 1000 draws miss them with a probability below 1e-57.
func c13Window[T types.Number](rt *rapid.T, c *rec) {
	k := rapid.IntRange(7, 5000).Draw(rt, "samples")
	size := k/8 + 1
	at := uniform(rt, "at", k-size+1)
	switch uniform(rt, "end", 3) {
	case 1:
		at = 0
	case 2:
		at = k - size
	}
	e, bt := pick(rt, "epochs", 1, 4, 25), uint(0)
	bt = uint(1000 / e)
	if k >= 1000 && uniform(rt, "batch", 3) == 0 {
		e, bt = 1, 0
	}
	c.K("k=%d at=%d e=%d b=%d", k, at, e, bt)
	m := model.NewModel[T]().Push(layer.NewInDense[T](1, 1, activation.Linear[T]{}))
	if err := m.Compile(); err != nil {
		rt.Fatalf("Compile: %v", err)
	}
	zero, one := tensor.NewZeros[T](1), tensor.NewOnes[T](1)
	var xs, ys []tensor.Tensor[T]
	for i := 0; i < k; i++ {
		// the error of the window is positive throughout: the weight only grows
		x, y := zero, 0
		if at <= i && i < at+size {
			x, y = one, 1000
		}
		xs, ys = append(xs, x), append(ys, tensor.NewFromValues([]T{T(y)}, 1))
	}
	weight := func() float64 {
		a, err := m.Predict(one)
		if err != nil {
			rt.Fatalf("Predict: %v", err)
		}
		b, err := m.Predict(zero)
		if err != nil {
			rt.Fatalf("Predict: %v", err)
		}
		return float64(a.GetData()[0]) - float64(b.GetData()[0])
	}
	before := weight()
	var err error
	alpha := T(1) / T(64)
	quiet(func() { err = m.Train(xs, ys, uint(e), bt, alpha, 0) })
	if err != nil {
		rt.Fatalf("Train: %v", err)
	}
	if w := weight(); !(w-before > 5) {
		rt.Fatalf("after at least 1000 draws from %d samples, none of %d..%d has been used (the weight was %v and is %v)", k, at, at+size-1, before, w)
	}
	c.NT(true)
}
