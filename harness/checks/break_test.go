package checks

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
	"aaverif/randhook"
)

// ---- C32: requests that break off

type brStep struct {
	Op Op
	F  ovFault
}

type brCase struct {
	W     World
	Steps []brStep
}

var brKinds = []string{"rand-error", "rand-short", "rand-panic", "body-error", "body-panic", "header-panic", "status-panic", "write-panic", "write-error", "write-cut", "write-abort"}

// recordedRand notes what is read.
type recordedRand struct {
	io.Reader
	got *[]byte
}

func (r recordedRand) Read(b []byte) (int, error) {
	n, err := r.Reader.Read(b)
	*r.got = append(*r.got, b[:n]...)
	return n, err
}

// breakOff runs the request with the fault; hit tells whether the fault came up.
func (s *ovState) breakOff(r *ROp, f ovFault) (o *Outcome, hit bool, keys [][]byte) {
	rec := NewRecorder()
	kind, mode, _ := strings.Cut(f.Kind, "-")
	reads := 0
	was := randhook.Current()
	var got []byte
	var src io.Reader = recordedRand{was, &got}
	if kind == "rand" {
		src = faultyReader{src, mode, f.At % 3, &reads}
	}
	randhook.Set(src)
	defer randhook.Set(was)
	n := 0
	switch kind {
	case "body":
		r.BodyHook = func(rd io.Reader) io.Reader {
			b := &bodyReader{rd, mode, f.N}
			return readFunc(func(p []byte) (int, error) {
				if b.at == 0 {
					hit = true
				}
				return b.Read(p)
			})
		}
	case "header", "status":
		rec.OnWrite = func(what string) {
			if what == kind {
				if n == f.At || kind == "status" {
					hit = true
					panic("injected panic")
				}
				n++
			}
		}
	case "write":
		rec.OnBody = func(b []byte) (int, error) {
			keep := 0
			if mode == "cut" {
				keep = min(len(b), f.N*7)
			}
			hit = true
			switch mode {
			case "panic":
				panic("injected panic")
			case "abort":
				panic(http.ErrAbortHandler)
			}
			return keep, errInjected
		}
	}
	o = Do(s.srv, r, rec)
	if kind == "rand" {
		hit = reads > f.At%3
	}
	k := s.cands[0].W.KeyLength
	for len(got) >= k && k > 0 {
		keys = append(keys, got[:k:k])
		got = got[k:]
	}
	return
}

type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

// dubious is the next state after a request that broke off.
func (s *ovState) dubious(x *pbt.X, r *ROp, now time.Time, keys [][]byte, none bool) {
	fake := map[string]bool{}
	for i := len(keys); i < 2; i++ {
		k := []byte(strings.Repeat("?", s.cands[0].W.KeyLength))
		k[0] = byte('0' + i)
		keys = append(keys, k)
		fake[Sign([]byte(s.cands[0].W.Secret), k)] = true
	}
	var next []*Model
	for _, m := range s.cands {
		after := m.After(r, now, keys[:2])
		seen := map[uint64]bool{}
		add := func(n *Model) {
			for t := range fake {
				n.Forget(t)
			}
			if !seen[n.State()] {
				seen[n.State()] = true
				next = append(next, n)
			}
		}
		if len(after) == 0 {
			add(m)
			continue
		}
		x.NonTrivial()
		x.Label("could-have-changed-something")
		for _, a := range after {
			add(m.Undone(a))
			if !none {
				add(a)
			}
		}
	}
	s.cands = next
}

func runBreak(x *pbt.X, c brCase, faults bool) error {
	SeedRandom(string(c.W.Secret))
	defer randhook.Set(nil)
	m0 := NewModel(&c.W)
	m0.Slack = 10 * time.Minute
	s := &ovState{srv: c.W.NewServer(), cands: []*Model{m0}}
	fail := func(f string, a ...any) error {
		var tr []string
		for _, l := range s.trace[max(0, len(s.trace)-60):] {
			tr = append(tr, l())
		}
		return fmt.Errorf("%s\n  history:\n    %s", fmt.Sprintf(f, a...), strings.Join(tr, "\n    "))
	}
	look := func(ops []*ROp) error {
		keep := len(s.trace)
		for _, r := range ops {
			if err := s.one(r); err != nil {
				return err
			}
			s.trace = s.trace[:keep]
		}
		return nil
	}
	for _, st := range c.Steps {
		now := time.Now()
		r := s.cands[0].Resolve(st.Op, now)
		if r == nil {
			continue
		}
		if st.F.Kind == "" || !faults {
			if err := s.one(r); err != nil {
				return fail("%v", err)
			}
			continue
		}
		o, hit, keys := s.breakOff(r, st.F)
		s.logf("%s\n        breaks off (%s %d %d, reached: %v) -> %s", r, st.F.Kind, st.F.At, st.F.N, hit, o)
		if !hit {
			if o.Panic != "" {
				return fail("panic: %s", o.Panic)
			}
			x.Label("not-hit:%s", st.F.Kind)
			r.BodyHook = nil
			if err := s.judged(r, now, o); err != nil {
				return fail("%v", err)
			}
			continue
		}
		x.Label("hit:%s", st.F.Kind)
		kind, _, _ := strings.Cut(st.F.Kind, "-")
		whole := o.Panic == "" && kind != "write" && o.Status > 0 && o.Status < 500
		r.BodyHook = nil
		switch {
		case kind == "rand" && whole: // it went on without
			if err := s.judged(r, now, o); err != nil {
				return fail("%v", err)
			}
		case kind == "body" && whole:
			if o.Error == "" && o.Status == 200 && r.K != "access" {
				// it was answered although it was not read to the end
				return fail("a request that cannot be read is answered as if it had been")
			}
			s.dubious(x, r, now, keys, true)
		default:
			s.dubious(x, r, now, keys, kind == "rand" || kind == "body")
		}
		if err := look(s.cands[len(s.cands)-1].AuditOps()); err != nil {
			return fail("after a request that broke off, what can be seen is neither the state before nor the one after it: %v", err)
		}
		if len(s.cands) > 1 {
			x.Label("undecided")
		}
	}
	last := s.cands[len(s.cands)-1]
	if err := look(last.DrainOps()); err != nil {
		return fail("at the end, when everything is redeemed: %v", err)
	}
	if err := look(s.cands[0].AuditOps()); err != nil {
		return fail("at the end: %v", err)
	}
	return nil
}

func checkBreak(x *pbt.X, c brCase) error {
	var err error
	if guarded(func() { err = runBreak(x, c, true) }) {
		return pbt.Stop("a request that broke off left the server blocked for 75 seconds")
	}
	if err != nil {
		var plain error
		if guarded(func() { plain = runBreak(&pbt.X{}, c, false) }) {
			return pbt.Stop("the server did not answer within 75 seconds")
		}
		if plain != nil {
			x.Foreign("also when nothing breaks off: " + plain.Error())
			return nil
		}
	}
	return err
}

func breakGen() *rapid.Generator[brCase] {
	op := OpGen(Profile{W: map[string]int{"adv": 0, "advto": 0, "other": 0, "code": 24, "refresh": 24, "revoke": 8, "access": 3, "introspect": 3, "auth-code": 16, "auth-token": 5, "password": 8, "cc": 4}, Fault: []string{"dead"}, FaultP: 18})
	return rapid.Custom(func(t *rapid.T) brCase {
		c := brCase{W: longWorld().Draw(t, "world")}
		for n := pbt.Int(2, 16).Draw(t, "n"); n > 0; n-- {
			s := brStep{Op: op.Draw(t, "op")}
			if pbt.Chance(t, 35) {
				s.F = ovFault{pbt.Pick(brKinds...).Draw(t, "kind"), pbt.Int(0, 7).Draw(t, "at"), pbt.Int(0, 14).Draw(t, "n")}
			}
			c.Steps = append(c.Steps, s)
			if pbt.Chance(t, 12) { // the same again
				s.F = ovFault{}
				c.Steps = append(c.Steps, s)
			}
		}
		return c
	})
}

func TestC32(t *testing.T) {
	pbt.Check(t, "C32", pbt.P("breaks", 2500, 15, breakGen(), checkBreak))
}
