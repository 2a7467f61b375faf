package harness

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC26 = "random networks (chains, joined branches from the input or from a shared hidden layer, nested models) and compositions of 2..3 of them, printed after compilation, after prediction, after training and with layers frozen, up to three times, before which the first part and nested models may be printed. Oracle: the layers of the specification, each once, depth first, with depth, feeding layers, kind and output shape; every layer's own text. Non-trivial: at least three layers."

func TestC26(t *testing.T) {
	run(t, "C26", ruleC26,
		sub{name: "networks", n: 16000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c26Net[float32], c26Net[float64]) }},
		sub{name: "composed", n: 8000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c26Composed[float32], c26Composed[float64]) }},
	)
}

var kindNames = map[string]string{"in": "Input", "nin": "Input", "dense": "Dense", "conv": "Conv2D", "deconv": "Deconv2D",
	"pool": "MaxPool", "up": "UpSampling", "flatten": "Flatten", "sub": "SubTensor", "norm": "Norm", "enorm": "Norm",
	"softmax": "SoftMax", "concat": "Concat"}

type printed struct {
	node  *nspec
	index int
	text  string // index, feeders, kind, shape
	own   string // index, kind, shape
}

// listing gives the layers in the order of printing. before is the layer the
// first one is connected to (nil: none).
func listing(s *netSpec, before *nspec, l []printed, idx map[*nspec]int) []printed {
	var walk func(n *nspec) int
	walk = func(n *nspec) int {
		if i, ok := idx[n]; ok {
			return i
		}
		if n.kind == "model" {
			return walk(n.inner)
		}
		var feeders []int
		switch {
		case n.kind == "in":
			if before != nil {
				feeders = []int{idx[before]}
			}
		case n.kind == "dense" && s.inDense && n.pre == s.in:
			if before != nil {
				feeders = []int{idx[before]}
			}
		case n.kind == "concat":
			feeders = []int{walk(n.pre), walk(n.pre2)}
		default:
			feeders = []int{walk(n.pre)}
		}
		i := 0
		from := ""
		for k, f := range feeders {
			if f+1 > i {
				i = f + 1
			}
			if k > 0 {
				from += ", "
			}
			from += fmt.Sprint(f)
		}
		idx[n] = i
		shape := strings.ReplaceAll(fmt.Sprint(n.shape), " ", ", ")
		l = append(l, printed{n, i, fmt.Sprintf("%d (%s) %s %s", i, from, kindNames[n.kind], shape),
			fmt.Sprintf("%d () %s %s", i, kindNames[n.kind], shape)})
		return i
	}
	idx[s.root] = walk(s.root)
	return l
}

var layerLine = regexp.MustCompile(`^<Layer\[(\d+)\]\s*(?:\(([\d, ]*)\))?\s*=>\s*(\w*):\s*(?:I\[[\d, ]*\]\s*)?O(\[[\d, ]*\])>$`)

func parseLayer(s string) string {
	m := layerLine.FindStringSubmatch(strings.TrimSpace(s))
	if m == nil {
		return "unreadable line " + s
	}
	return fmt.Sprintf("%s (%s) %s %s", m[1], m[2], m[3], m[4])
}

func c26Check(rt *rapid.T, what, got string, want []printed) {
	got = strings.TrimSpace(got)
	if !strings.HasPrefix(got, "<Model") || !strings.HasSuffix(got, ">") {
		rt.Fatalf("%s: printed as %q", what, short(got))
	}
	i, j := strings.Index(got, "["), strings.LastIndex(got, "]")
	var lines []string
	for _, l := range strings.Split(got[i+1:j], "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, parseLayer(l))
		}
	}
	for k := range want {
		if k >= len(lines) || lines[k] != want[k].text {
			g := "nothing"
			if k < len(lines) {
				g = lines[k]
			}
			rt.Fatalf("%s: layer %d is printed as %s, want %s\nprinted:\n%s", what, k, g, want[k].text, got)
		}
	}
	if len(lines) != len(want) {
		rt.Fatalf("%s: %d layers printed, want %d:\n%s", what, len(lines), len(want), got)
	}
}

func c26Own[T types.Number](rt *rapid.T, what string, want []printed, layers map[*nspec]layer.Layer[T]) {
	for _, p := range want {
		l, ok := layers[p.node]
		if !ok {
			continue
		}
		if g := parseLayer(l.String()); g != p.own {
			rt.Fatalf("%s: a layer prints itself as %s, want %s", what, g, p.own)
		}
	}
}

// models gives the nested models, in a fixed order.
func (b *net[T]) models() []*model.Model[T] {
	var l []*model.Model[T]
	seen := map[*nspec]bool{}
	var walk func(n *nspec)
	walk = func(n *nspec) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		walk(n.pre)
		walk(n.pre2)
		walk(n.inner)
		if m, ok := b.layers[n].(*model.Model[T]); ok {
			l = append(l, m)
		}
	}
	walk(b.spec.root)
	return l
}

func c26Use[T types.Number](rt *rapid.T, c *rec, what string, w *whole[T], want []printed) {
	r := genRng(rt, "use")
	frz := newFreezer(w.m, w.parts...)
	for k := 1 + uniform(rt, "prints", 3); k > 0; k-- {
		was := append([]T{}, w.params()...)
		x0 := tens[T](randVec(r, prod(w.in()), true), w.in())
		p0, _ := w.m.Predict(x0)
		if uniform(rt, "partBefore", 3) == 0 {
			// a part of it is printed first: the first one, or any nested model
			first := map[*nspec]int{}
			list := listing(w.parts[0].spec, nil, nil, first)
			c26Check(rt, what+" first part", w.parts[0].m.String(), list)
			for _, p := range w.parts {
				for _, n := range p.models() {
					if uniform(rt, "nestedBefore", 2) == 0 {
						_ = n.String()
					}
				}
			}
			c.L("parts printed before")
		}
		c26Check(rt, what, w.m.String(), want)
		p1, _ := w.m.Predict(x0)
		if d := sameAll(w.params(), was); d != "" {
			rt.Fatalf("%s: printing changes a parameter: %s", what, d)
		}
		if d := sameAll(p1.GetData(), p0.GetData()); d != "" {
			rt.Fatalf("%s: printing changes a prediction: %s", what, d)
		}
		for _, p := range w.parts {
			c26Own(rt, what, want, p.layers)
		}
		x, y := tens[T](randVec(r, prod(w.in()), true), w.in()), tens[T](randVec(r, prod(w.out()), true), w.out())
		a, m := 0.01, 0.5
		var err error
		switch r.intn(5) {
		case 4:
			frz.change(rt)
		case 0:
			_, err = w.m.Predict(x)
		case 1:
			_, err = w.m.TrainOne(x, y, T(a), T(m))
		case 2:
			err = w.m.CompileBackPropagation()
		}
		if err != nil {
			rt.Fatalf("%s: %v", what, err)
		}
	}
	c.NT(len(want) > 2)
}

func c26Net[T types.Number](rt *rapid.T, c *rec) {
	s := genNetShared(rt, c)
	s.initParams(genRng(rt, "params"), true)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	c26Use(rt, c, s.String(), &whole[T]{b.m, []*net[T]{b}}, listing(s, nil, nil, map[*nspec]int{}))
}

func c26Composed[T types.Number](rt *rapid.T, c *rec) {
	parts := genParts(rt, c, 2, 3)
	r := genRng(rt, "params")
	for _, s := range parts {
		s.initParams(r, true)
	}
	w, err := composeAny[T](rt, c, parts)
	if err != nil {
		rt.Fatalf("%s: %v", partsString(parts), err)
	}
	var want []printed
	var before *nspec
	idx := map[*nspec]int{}
	for _, s := range parts {
		want = listing(s, before, want, idx)
		before = s.root
	}
	c26Use(rt, c, partsString(parts), w, want)
}
