// Package pbt drives generated-input checks: rapid draws and shrinks a case
// value, a pure check function judges it, and the shrunk case is written as a
// replay file that is re-run without the library.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// Str is a string with arbitrary bytes that survives JSON.
type Str string

func (s Str) MarshalText() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return []byte(q[1 : len(q)-1]), nil
}

func (s *Str) UnmarshalText(b []byte) error {
	u, err := strconv.Unquote(`"` + string(b) + `"`)
	if err != nil {
		return err
	}
	*s = Str(u)
	return nil
}

// X is the per-case context.
type X struct {
	T          *testing.T
	nontrivial bool
	labels     []string
	counts     map[string]int
	foreign    string
}

// Foreign marks the case as cut short by a disagreement that belongs to other
// properties.
func (x *X) Foreign(why string) { x.foreign = why }

// Count adds to a counter of the part.
func (x *X) Count(name string, n int) {
	if x.counts == nil {
		x.counts = map[string]int{}
	}
	x.counts[name] += n
}

// NonTrivial marks the case as non-trivial by the part's rule.
func (x *X) NonTrivial() { x.nontrivial = true }

// Label counts the case under a label (at most once per case and label).
func (x *X) Label(format string, args ...any) {
	l := format
	if len(args) > 0 {
		l = fmt.Sprintf(format, args...)
	}
	for _, o := range x.labels {
		if o == l {
			return
		}
	}
	x.labels = append(x.labels, l)
}

// KnownErr is a violation that belongs to a class which may be listed in the
// known-findings file under Key.
type KnownErr struct{ Key, Msg string }

func (k *KnownErr) Error() string { return k.Msg }

// Known builds a KnownErr.
func Known(key, format string, args ...any) error {
	return &KnownErr{key, fmt.Sprintf(format, args...)}
}

// StopErr is a violation that is too costly to run into again: the case is kept
// as it is.
type StopErr struct{ Msg string }

func (k *StopErr) Error() string { return k.Msg }

// Stop builds a StopErr.
func Stop(format string, args ...any) error { return &StopErr{fmt.Sprintf(format, args...)} }

// Part is one generated check of a property.
type Part interface {
	name() string
	run(t *testing.T, r *runner)
	replay(t *testing.T, raw json.RawMessage) error
}

type part[C any] struct {
	nm     string
	quick  int
	factor int
	gen    *rapid.Generator[C]
	check  func(*X, C) error
	pinned []C
}

// P builds a part. quick is the number of cases in the quick tier; the thorough
// tier runs thoroughFactor times as many in each shard.
func P[C any](name string, quick, thoroughFactor int, gen *rapid.Generator[C], check func(*X, C) error, pinned ...C) Part {
	return &part[C]{name, quick, thoroughFactor, gen, check, pinned}
}

type partResult struct {
	Name        string
	Evaluations int
	Foreign     int
	ForeignWhy  string
	Counts      map[string]int
	Labels      map[string]int
	Hashes      []uint64
	Samples     []json.RawMessage
	Known       map[string]string
	KnownCount  map[string]int
	Violation   *Replay
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type runner struct {
	id    string
	out   string
	known map[string]bool
	seed  uint64
	shard uint64
	thor  bool
	res   []*partResult
}

func (p *part[C]) name() string { return p.nm }

// Under reports whether a panic stack passes through the code under test.
func Under(stack string) bool { return strings.Contains(stack, "github.com/256dpi/oauth2/v2") }

func (p *part[C]) safe(x *X, c C) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if !Under(st) {
				panic(fmt.Sprintf("harness panic: %v\n%s", r, st))
			}
			err = fmt.Errorf("panic in the code under test: %v\n%s", r, st)
		}
	}()
	return p.check(x, c)
}

func (p *part[C]) replay(t *testing.T, raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		t.Fatalf("bad replay: %v", err)
	}
	return p.safe(&X{T: t}, c)
}

func hashOf(parts ...string) uint64 {
	h := fnv.New64a()
	for _, s := range parts {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func (p *part[C]) run(t *testing.T, r *runner) {
	n := p.quick
	if r.thor {
		n *= p.factor
	}
	if s := os.Getenv("PBT_SCALE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		n = int(float64(n) * f)
		if n < 1 {
			n = 1
		}
	}
	res := &partResult{Name: p.nm, Labels: map[string]int{}, Counts: map[string]int{}, Known: map[string]string{}, KnownCount: map[string]int{}}
	r.res = append(r.res, res)
	seen := map[uint64]bool{}
	failing := false
	nextSample := 1
	var infl *os.File
	if r.out != "" {
		infl, _ = os.Create(filepath.Join(r.out, fmt.Sprintf("inflight-%d.json", r.shard)))
		defer infl.Close()
	}
	cur := t
	var stop error
	one := func(c C) error {
		if stop != nil {
			return stop
		}
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if infl != nil {
			b, _ := json.Marshal(Replay{r.id, p.nm, "process died while running this case", raw})
			infl.WriteAt(b, 0)
			infl.Truncate(int64(len(b)))
		}
		x := &X{T: cur}
		err = p.safe(x, c)
		if k, ok := err.(*KnownErr); ok && r.known[k.Key] {
			if _, ok := res.Known[k.Key]; !ok || len(k.Msg) < len(res.Known[k.Key]) {
				res.Known[k.Key] = k.Msg
			}
			res.KnownCount[k.Key]++
			err = nil
		}
		if !failing {
			res.Evaluations++
			for _, l := range x.labels {
				res.Labels[l]++
			}
			for k, n := range x.counts {
				res.Counts[k] += n
			}
			if x.foreign != "" {
				res.Foreign++
				res.ForeignWhy = x.foreign
			}
			if x.nontrivial {
				h := hashOf(string(raw))
				if !seen[h] {
					seen[h] = true
					if len(seen) == nextSample && len(raw) < 6000 && len(res.Samples) < 3 {
						res.Samples = append(res.Samples, raw)
					}
					if len(seen) >= nextSample {
						nextSample *= 6
					}
				}
			}
		}
		if err != nil {
			failing = true
			res.Violation = &Replay{r.id, p.nm, err.Error(), raw}
			if _, ok := err.(*StopErr); ok {
				stop = err
			}
		}
		return err
	}
	for _, c := range p.pinned {
		if err := one(c); err != nil {
			t.Errorf("pinned case: %v", err)
			return
		}
	}
	seed := hashOf(r.id, p.nm, strconv.FormatUint(r.seed, 10), strconv.FormatUint(r.shard, 10)) | 1
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	t.Run(p.nm, func(t *testing.T) {
		cur = t
		rapid.Check(t, func(rt *rapid.T) {
			c := p.gen.Draw(rt, "case")
			if err := one(c); err != nil {
				rt.Fatalf("%v", err)
			}
		})
	})
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
}

// Check runs all parts of a property (or one replay).
func Check(t *testing.T, id string, parts ...Part) {
	if f := os.Getenv("PBT_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var rp Replay
		if err := json.Unmarshal(b, &rp); err != nil {
			t.Fatal(err)
		}
		for _, p := range parts {
			if p.name() == rp.Part {
				for i := 0; i < 5; i++ {
					if err := p.replay(t, rp.Case); err != nil {
						t.Fatalf("REPRODUCED %s/%s: %v", id, rp.Part, err)
					}
				}
				t.Logf("NOT REPRODUCED %s/%s", id, rp.Part)
				return
			}
		}
		t.Fatalf("no part %q", rp.Part)
	}
	r := &runner{id: id, out: os.Getenv("PBT_OUT"), known: map[string]bool{}, thor: os.Getenv("VERIF_TIER") == "thorough"}
	for _, k := range strings.Fields(os.Getenv("PBT_KNOWN")) {
		r.known[k] = true
	}
	r.seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	r.shard, _ = strconv.ParseUint(os.Getenv("PBT_SHARD"), 10, 64)
	defer func() {
		if r.out == "" {
			for _, p := range r.res {
				t.Logf("%s: %d evaluations, %d distinct non-trivial, labels %v counts %v known %v foreign %d %s", p.Name, p.Evaluations, len(p.Hashes), p.Labels, p.Counts, p.KnownCount, p.Foreign, p.ForeignWhy)
				if p.Violation != nil {
					t.Logf("VIOLATION %s\n%s", p.Violation.Message, p.Violation.Case)
				}
			}
			return
		}
		b, _ := json.Marshal(r.res)
		os.WriteFile(filepath.Join(r.out, fmt.Sprintf("result-%d.json", r.shard)), b, 0644)
	}()
	only := os.Getenv("PBT_PART")
	for _, p := range parts {
		if only != "" && only != p.name() {
			continue
		}
		p.run(t, r)
		if r.res[len(r.res)-1].Violation != nil {
			return
		}
	}
}
