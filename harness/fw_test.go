package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- runner side

// A sub is one generated check. n is the number of cases of the quick tier,
// summed over all shards; mul is the factor of the thorough tier (default 10).
type sub struct {
	name string
	n    int
	mul  int
	f    func(rt *rapid.T, c *rec)
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
}

type shardOut struct {
	Property string               `json:"property"`
	Rule     string               `json:"rule"`
	Subs     map[string]*subStats `json:"subs"`
	Keys     []uint64             `json:"keys"`
	Findings []string             `json:"findings"`
	Extra    map[string]int       `json:"extra"`
}

// rec records what one generated case was.
type rec struct {
	key      strings.Builder
	nontriv  bool
	labels   []string
	trivials bool
}

// K appends to the description of the case (its identity).
func (c *rec) K(format string, args ...any) { fmt.Fprintf(&c.key, format+" ", args...) }

// NT marks the case as non-trivial.
func (c *rec) NT(b bool) {
	if b {
		c.nontriv = true
	}
}

// Triv marks the case as trivial whatever else is said.
func (c *rec) Triv() { c.trivials = true }

func (c *rec) L(l string) { c.labels = append(c.labels, l) }

var out = &shardOut{Subs: map[string]*subStats{}, Extra: map[string]int{}}
var keys = map[uint64]struct{}{}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func h64(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}

func (c *rec) commit(name string) {
	s := out.Subs[name]
	s.Evaluations++
	for _, l := range c.labels {
		s.Labels[l]++
	}
	if c.nontriv && !c.trivials {
		s.Nontrivial++
		k := h64(name, c.key.String())
		if _, ok := keys[k]; !ok {
			keys[k] = struct{}{}
			if len(s.Samples) < 2 || (len(s.Samples) < 6 && k%97 == 0) {
				str := c.key.String()
				if len(str) > 400 {
					str = str[:400] + "..."
				}
				s.Samples = append(s.Samples, name+": "+strings.TrimSpace(str))
			}
		}
	}
}

// run executes the subs of a property. It is called once per process; the
// process is one shard of the run.
func run(t *testing.T, property, rule string, subs ...sub) {
	out.Property = property
	out.Rule = rule
	deep := thorough()
	seed := envInt("VERIF_SEED", 1)
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	only := os.Getenv("VERIF_SUB")
	scale := envInt("VERIF_SCALE", 100)
	for _, s := range subs {
		s := s
		if only != "" && only != s.name {
			continue
		}
		n := s.n
		if deep {
			if s.mul == 0 {
				s.mul = 10
			}
			n *= s.mul
		}
		n = n * scale / 100
		mine := n / shards
		if shard < n%shards {
			mine++
		}
		if mine == 0 {
			continue
		}
		sd := h64(seed, "/", property, "/", s.name, "/", shard) >> 1
		if sd == 0 {
			sd = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(sd, 10))
		flag.Set("rapid.checks", strconv.Itoa(mine))
		out.Subs[s.name] = &subStats{Labels: map[string]int{}}
		ok := t.Run(s.name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				rand.Seed(int64(sd)) // contents of NewRand and of fresh layers
				c := &rec{}
				caseStart.Store(time.Now().UnixNano())
				defer caseStart.Store(0)
				s.f(rt, c)
				c.commit(s.name)
			})
		})
		if !ok {
			break
		}
	}
}

// plain executes a check that enumerates its cases itself; f returns a
// description of the first counterexample, or "".
func plain(t *testing.T, property, name string, f func(shard, shards int, st *subStats) string) {
	if only := os.Getenv("VERIF_SUB"); only != "" && only != name {
		return
	}
	st := &subStats{Labels: map[string]int{}}
	out.Property = property
	out.Subs[name] = st
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	t.Run(name, func(t *testing.T) {
		var bad string
		func() {
			defer func() {
				if r := recover(); r != nil {
					bad = fmt.Sprintf("panic: %v", r)
				}
			}()
			bad = f(shard, shards, st)
		}()
		if bad != "" {
			dir := filepath.Join("testdata", "rapid", "plain")
			os.MkdirAll(dir, 0o755)
			os.WriteFile(filepath.Join(dir, name+".fail"), []byte("# enumerated case of sub "+name+"\n# "+bad+"\n"), 0o644)
			t.Fatalf("%s", bad)
		}
	})
}

// caseStart is when the running case began (0: none is running). Cases take
// milliseconds; one that has not finished after minutes never will.
var caseStart atomic.Int64

func watch() {
	const limit = 200 * time.Second
	for idle := 0; ; {
		time.Sleep(time.Second)
		t := caseStart.Load()
		// count seconds observed here, so that a suspended machine does not matter
		if t == 0 || t != watched {
			watched, idle = t, 0
			continue
		}
		if idle++; time.Duration(idle)*time.Second > limit {
			buf := make([]byte, 1<<16)
			fmt.Printf("panic: a generated case has not finished after %v\n%s\n", limit, buf[:runtime.Stack(buf, true)])
			os.Exit(9)
		}
	}
}

var watched int64

func TestMain(m *testing.M) {
	flag.Parse()
	go watch()
	code := m.Run()
	if dir := os.Getenv("VERIF_OUT"); dir != "" {
		for k := range keys {
			out.Keys = append(out.Keys, k)
		}
		sort.Slice(out.Keys, func(i, j int) bool { return out.Keys[i] < out.Keys[j] })
		b, err := json.Marshal(out)
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("shard%d.json", envInt("VERIF_SHARD", 0))), b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot write results:", err)
			os.Exit(7)
		}
	}
	os.Exit(code)
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
