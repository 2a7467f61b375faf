package harness

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/scalar"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC23 = "2..6 scripts of 3..12 steps on independent objects - models (build, compile, predict, train, save, load, print), compositions, graphs built from random expressions and executed with changing sources, immediate tensor operations with saving and loading, image conversion and scaling, scalars of all precisions. Every script is run alone, then all of them interleaved step by step in a generated schedule, then all of them in parallel goroutines (several times, in a binary built with Go's race detector where available). Oracle: bit for bit the results of the run alone; no data race. Non-trivial: at least two scripts that use models, graphs or tensors, and a schedule that switches between them at least three times."

func TestC23(t *testing.T) {
	// training prints its progress
	devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	old := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = old }()
	race := 0
	if raceEnabled {
		race = 1
	}
	out.Extra["shards_with_race_detector"] = race
	run(t, "C23", ruleC23,
		sub{name: "schedules", n: 4000, f: c23Run},
	)
}

// a script is a deterministic sequence of steps; start makes the objects.
type script struct {
	name  string
	steps int
	start func() func(i int) string
}

type digest struct{ b bytes.Buffer }

func (d *digest) add(a ...any) { fmt.Fprint(&d.b, append(a, ";")...) }

func dig[T types.Number](v []T) string {
	h := uint64(1469598103934665603)
	for _, x := range v {
		f := math.Float64bits(float64(x))
		if x != x {
			f = 1
		}
		h = (h ^ f) * 1099511628211
		h ^= h >> 29
	}
	return fmt.Sprintf("%d values %016x", len(v), h)
}

func c23Model[T types.Number](rt *rapid.T, c *rec) script {
	f32 := bitsOf[T]() == 32
	var parts []*netSpec
	composed := uniform(rt, "composed", 4) == 0
	if composed {
		parts = genParts(rt, c, 2, 2)
	} else {
		g := &netGen{rt: rt, maxElems: 40}
		parts = []*netSpec{g.gen()}
		describe(c, parts[0])
	}
	r := genRng(rt, "params")
	for _, s := range parts {
		s.initParams(r, f32)
	}
	n := 3 + uniform(rt, "steps", 8)
	ops := make([]int, n)
	for i := range ops {
		ops[i] = uniform(rt, "modelOp", 8)
	}
	seed := r.s
	mkWhole := func() (*whole[T], error) {
		if composed {
			return compose[T](parts)
		}
		b, err := compiled[T](parts[0])
		if err != nil {
			return nil, err
		}
		return &whole[T]{b.m, []*net[T]{b}}, nil
	}
	return script{"model " + partsString(parts), n, func() func(int) string {
		var w *whole[T]
		r := &rng{s: seed}
		return func(i int) string {
			var err error
			if w == nil {
				if w, err = mkWhole(); err != nil {
					return err.Error()
				}
			}
			x, y := tens[T](randVec(r, prod(w.in()), f32), w.in()), tens[T](randVec(r, prod(w.out()), f32), w.out())
			a, m := 0.05, 0.5
			res := ""
			switch ops[i] {
			case 0, 1:
				var p tensor.Tensor[T]
				if p, err = w.m.Predict(x); err == nil {
					res = dig(p.GetData())
				}
			case 2, 3:
				var l T
				l, err = w.m.TrainOne(x, y, T(a), T(m))
				res = fmt.Sprint(l)
			case 4:
				err = w.m.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}, 2, 2, T(a), T(m))
			case 5:
				var buf bytes.Buffer
				w.m.ResetSave()
				if err = w.m.Save(&buf); err == nil {
					var v *whole[T]
					if v, err = mkWhole(); err == nil {
						v.m.ResetLoad()
						err = v.m.Load(&buf)
						res = dig(v.params())
						w = v
					}
				}
			case 6:
				// an uncompiled composition cannot be printed
				if err = w.m.CompileBackPropagation(); err == nil {
					res = w.m.String()
					err = w.m.ResetIS()
				}
			case 7:
				v := w.parts[0].spec
				b := build[T](v)
				err = b.m.CompileBackPropagation()
			}
			return fmt.Sprint(ops[i], res, err, dig(w.params()))
		}
	}}
}

var _ = model.NewModel[float64]

// c23Expr builds a random expression of the source tensors with its own randomness.
func c23Expr[T types.Number](r *rng, src []tensor.Tensor[T]) []tensor.Tensor[T] {
	pool := append([]tensor.Tensor[T]{}, src...)
	shapes := [][]uint{}
	for _, s := range src {
		shapes = append(shapes, s.GetShape())
	}
	add := func(t tensor.Tensor[T], s []uint) {
		if prod(s) <= 300 {
			pool, shapes = append(pool, t), append(shapes, s)
		}
	}
	for k := r.between(2, 9); k > 0; k-- {
		i := r.intn(len(pool))
		a, s := pool[i], shapes[i]
		switch r.intn(10) {
		case 0:
			add(tensor.Add(a, a), s)
		case 1:
			for j := range pool {
				if j != i && eqShape(shapes[j], s) {
					add(tensor.Sub(a, pool[j]), s)
					break
				}
			}
		case 2:
			add(tensor.MulScalar(a, number.NewScalar(T(2))), s)
		case 3:
			q := append([]uint{}, s...)
			for x, y := 0, len(q)-1; x < y; x, y = x+1, y-1 {
				q[x], q[y] = q[y], q[x]
			}
			add(tensor.Transpose(a), q)
		case 4:
			d := r.intn(len(s))
			q := append([]uint{}, s...)
			q[d] *= 2
			add(tensor.Concat(a, a, uint(d)), q)
		case 5:
			d := r.intn(len(s))
			q := append([]uint{}, s...)
			q[d] = uint(r.between(1, int(s[d])))
			add(tensor.SubTensor(a, uint(d), s[d]-q[d], s[d]), q)
		case 6:
			add(tensor.Reshape(a, uint(prod(s)), 1), []uint{uint(prod(s)), 1})
		case 7:
			add(tensor.Activate(a, func(x T) T { return x * x }), s)
		case 8:
			q := []uint{s[0]}
			add(tensor.DSum(a, 0), q)
		case 9:
			add(tensor.Max(a), []uint{1})
		}
	}
	return pool
}

func c23Graph[T types.Number](rt *rapid.T, c *rec) script {
	r0 := genRng(rt, "graph")
	c.K("graph%d", r0.s)
	n := 3 + uniform(rt, "steps", 8)
	return script{fmt.Sprintf("graph %d", r0.s), n, func() func(int) string {
		r := &rng{s: r0.s}
		var src, pool []tensor.Tensor[T]
		var gs []*graph.Graph
		return func(i int) string {
			if src == nil {
				for k := r.between(1, 3); k > 0; k-- {
					s := make([]uint, r.between(1, 3))
					for d := range s {
						s[d] = uint(r.between(1, 5))
					}
					src = append(src, mk(vals[T](r, dSmall, prod(s)), s))
				}
				pool = c23Expr(r, src)
			}
			if r.intn(3) == 0 || len(gs) == 0 {
				g, err := graph.NewGraph(pool[r.intn(len(pool))])
				if err != nil {
					return err.Error()
				}
				gs = append(gs, g)
			}
			k := r.intn(len(src))
			if err := src[k].LoadData(vals[T](r, dSmall, int(src[k].GetSize()))); err != nil {
				return err.Error()
			}
			for _, g := range gs {
				g.Exec()
			}
			res := ""
			for _, t := range pool {
				res += dig(t.GetData())
			}
			return res
		}
	}}
}

func c23Tensor[T types.Number](rt *rapid.T, c *rec) script {
	r0 := genRng(rt, "tensor")
	c.K("tensor%d", r0.s)
	n := 3 + uniform(rt, "steps", 10)
	return script{fmt.Sprintf("tensor %d", r0.s), n, func() func(int) string {
		r := &rng{s: r0.s}
		var pool []*tensor.TensorMat[T]
		ops := immediates[T]()
		return func(i int) string {
			if pool == nil {
				for k := 0; k < 3; k++ {
					s := make([]uint, r.between(0, 3))
					for d := range s {
						s[d] = uint(r.between(1, 4))
					}
					pool = append(pool, mk(vals[T](r, dSmall, prod(s)), s))
				}
			}
			res := ""
			for k := 0; k < 4; k++ {
				a, b := pool[r.intn(3)], pool[r.intn(3)]
				switch o := r.intn(len(ops) + 3); {
				case o < len(ops):
					t := ops[o].f(a, b, r, []uint{uint(r.between(1, 4)), uint(r.between(1, 4))})
					if t != nil {
						res += ops[o].name + dig(t.GetData())
						if t.GetSize() < 200 {
							pool[r.intn(3)] = t
						}
					}
				case o == len(ops):
					if bitsOf[T]() == 64 && !isFloat[T]() {
						break
					}
					var buf bytes.Buffer
					err := a.SaveFull(&buf)
					t := tensor.NewZeros[T](1)
					err2 := t.LoadFull(&buf)
					res += fmt.Sprint(err, err2, dig(t.GetData()))
				case o == len(ops)+1:
					res += a.String()
				default:
					s := a.GetShape()
					a = tensor.NewOnes[T](s...)
					z := tensor.NewZeros[T](s...)
					res += dig(a.GetData()) + dig(z.GetData())
				}
			}
			return res
		}
	}}
}

func c23Image(rt *rapid.T, c *rec, dir string, id int) script {
	r0 := genRng(rt, "image")
	c.K("image%d", r0.s)
	n := 3 + uniform(rt, "steps", 4)
	return script{fmt.Sprintf("image %d", r0.s), n, func() func(int) string {
		r := &rng{s: r0.s}
		return func(i int) string {
			w, h := uint(r.between(1, 6)), uint(r.between(1, 6))
			v := make([]float32, 4*w*h)
			for i := range v {
				v[i] = float32(float64(r.intn(256)) / 255)
				if i >= int(3*w*h) {
					v[i] = 1
				}
			}
			t := mk(v, []uint{4, w, h})
			nw, nh := uint(r.between(1, 8)), uint(r.between(1, 8))
			a, err := img.SimpleScale[float32](t, nw, nh)
			b, err2 := img.SmoothScale[float32](t, nw, nh)
			p := filepath.Join(dir, fmt.Sprintf("s%d.png", id))
			err3 := img.PngSave[float32](t, p)
			d, err4 := img.LoadImage[float32](p)
			if err != nil || err2 != nil || err3 != nil || err4 != nil {
				return fmt.Sprint(err, err2, err3, err4)
			}
			return dig(a.GetData()) + dig(b.GetData()) + dig(d.GetData())
		}
	}}
}

func c23Scalar(rt *rapid.T, c *rec) script {
	r0 := genRng(rt, "scalar")
	c.K("scalar%d", r0.s)
	return script{fmt.Sprintf("scalar %d", r0.s), 6, func() func(int) string {
		r := &rng{s: r0.s}
		l := []scalar.Scalar{scalar.F16fromF32(1.5), scalar.NewF32(-2), scalar.NewF64(0.1)}
		return func(i int) string {
			res := ""
			for k := 0; k < 8; k++ {
				a, b := l[r.intn(3)], l[r.intn(3)]
				switch r.intn(4) {
				case 0:
					a.SelfAdd(b)
				case 1:
					a.SelfMul(b)
				case 2:
					res += a.Div(b).String()
				case 3:
					a.S64(r.f64())
				}
				res += a.String() + " "
			}
			return res
		}
	}}
}

func c23Run(rt *rapid.T, c *rec) {
	var dir string
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
		}
	}()
	n := 2 + uniform(rt, "scripts", 5)
	var l []script
	heavy := 0
	total := 0
	for i := 0; i < n; i++ {
		var s script
		switch uniform(rt, "kind", 10) {
		case 0, 1, 2:
			s = c23Model[float32](rt, c)
			heavy++
		case 3, 4:
			s = c23Model[float64](rt, c)
			heavy++
		case 5:
			s = c23Graph[int32](rt, c)
			heavy++
		case 6:
			s = c23Graph[float64](rt, c)
			heavy++
		case 7:
			s = c23Tensor[float32](rt, c)
			heavy++
		case 8:
			s = c23Tensor[int32](rt, c)
			heavy++
		default:
			if uniform(rt, "img", 3) > 0 {
				s = c23Scalar(rt, c)
				break
			}
			if dir == "" {
				d, err := os.MkdirTemp("", "verif-c23-")
				if err != nil {
					rt.Fatalf("%v", err)
				}
				dir = d
			}
			s = c23Image(rt, c, dir, i)
		}
		c.L(s.name[:5])
		l = append(l, s)
		total += s.steps
	}
	// alone
	alone := make([][]string, n)
	for k, s := range l {
		f := s.start()
		for i := 0; i < s.steps; i++ {
			alone[k] = append(alone[k], f(i))
		}
	}
	judge := func(how string, k, i int, got string) {
		if got != alone[k][i] {
			rt.Fatalf("%s: %s: step %d gives %s, alone %s", how, l[k].name, i, short(got), short(alone[k][i]))
		}
	}
	// interleaved
	next := make([]int, n)
	fs := make([]func(int) string, n)
	for k, s := range l {
		fs[k] = s.start()
	}
	switches, last := 0, -1
	sr := genRng(rt, "schedule")
	for done := 0; done < total; done++ {
		k := sr.intn(n)
		for next[k] == l[k].steps {
			k = (k + 1) % n
		}
		if k != last {
			switches++
		}
		last = k
		judge(fmt.Sprintf("interleaved with %d others (schedule %d)", n-1, sr.s), k, next[k], fs[k](next[k]))
		next[k]++
	}
	c.NT(heavy > 1 && switches > 3)
	// in parallel
	for round := 0; round < 2; round++ {
		got := make([][]string, n)
		bad := make([]string, n)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for k := range l {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-gate
				bad[k] = catch(func() {
					f := l[k].start()
					for i := 0; i < l[k].steps; i++ {
						got[k] = append(got[k], f(i))
					}
				})
			}(k)
		}
		close(gate)
		wg.Wait()
		for k := range l {
			if bad[k] != "" {
				rt.Fatalf("in parallel with %d others: %s: %s", n-1, l[k].name, bad[k])
			}
			for i := range got[k] {
				judge(fmt.Sprintf("in parallel with %d others", n-1), k, i, got[k][i])
			}
		}
	}
}
