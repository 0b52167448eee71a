package checks

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
	"aaverif/randhook"
)

// pause describes where and how long an operation dawdles.
type pause struct{ Body, Rand, Write, N int }

func (p pause) wait(kind int) {
	switch kind {
	case 1:
		for i := 0; i <= p.N; i++ {
			runtime.Gosched()
		}
	case 2:
		for end := time.Now().Add(time.Duration(2+p.N*6) * time.Microsecond); time.Now().Before(end); {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Microsecond) // in practice about a millisecond
	}
}

type ovRound struct {
	Pre     []Op
	Threads [][]Op
	Pause   []pause // by thread
}

type ovCase struct {
	W      World
	Fill   int // how many tokens are issued before
	Rounds []ovRound
}

// done is one completed operation of a thread.
type done struct {
	thread     int
	r          *ROp
	o          *Outcome
	start, end int64
}

func (d *done) String() string {
	return fmt.Sprintf("goroutine %d [%d..%d] %s\n        -> %s", d.thread, d.start, d.end, d.r, d.o)
}

// slowReader dawdles before every read.
type slowReader struct {
	io.Reader
	f func()
}

func (s slowReader) Read(p []byte) (int, error) {
	s.f()
	return s.Reader.Read(p)
}

var longLived = 3600_000

// ovModel keeps the models that can explain everything seen so far.
type ovState struct {
	srv    *oauth2.Server
	cands  []*Model
	trace  []func() string
	settle bool // one thing after the other
}

func settle() { time.Sleep(50 * time.Microsecond) }

func (s *ovState) logf(f string, a ...any) {
	s.trace = append(s.trace, func() string { return fmt.Sprintf(f, a...) })
}

// one runs a request on its own and keeps the models that agree.
func (s *ovState) one(r *ROp) error {
	if s.settle {
		settle()
	}
	now := time.Now()
	o := Do(s.srv, r, nil)
	s.logf("%s\n        -> %s", r, o)
	return s.judged(r, now, o)
}

// judged keeps the models that agree with the answer.
func (s *ovState) judged(r *ROp, now time.Time, o *Outcome) error {
	var keep []*Model
	var why []string
	for _, m := range s.cands {
		if vs := m.Judge(r, now, o); len(vs) == 0 {
			keep = append(keep, m)
		} else {
			why = append(why, vs[0].Msg)
		}
	}
	if len(keep) == 0 {
		return fmt.Errorf("%s", strings.Join(dedup(why), "; or "))
	}
	s.cands = keep
	return nil
}

func dedup(xs []string) []string {
	xs = slices.Clone(xs)
	sort.Strings(xs)
	return slices.Compact(xs)
}

// thread runs the operations of one goroutine; each is resolved from what the
// goroutine itself knows.
func runThread(srv *oauth2.Server, m *Model, n int, ops []Op, p *pause, seq *atomic.Int64, step func()) (out []*done) {
	for _, op := range ops {
		if step != nil {
			step() // whatever was left to do in the background gets done
		}
		r := m.Resolve(op, time.Now())
		if r == nil {
			continue
		}
		rec := NewRecorder()
		if p != nil {
			if p.Body != 0 {
				r.BodyHook = func(rd io.Reader) io.Reader { return slowReader{rd, func() { p.wait(p.Body) }} }
			}
			if p.Write != 0 {
				rec.OnWrite = func(string) { p.wait(p.Write) }
			}
		}
		d := &done{thread: n, r: r, start: seq.Add(1)}
		d.o = Do(srv, r, rec)
		d.end = seq.Add(1)
		m.Judge(r, time.Now(), d.o)
		out = append(out, d)
	}
	return
}

type pausedRand struct {
	io.Reader
	p pause
}

func (r pausedRand) Read(b []byte) (int, error) {
	r.p.wait(r.p.Rand)
	return r.Reader.Read(b)
}

// linearize returns every model that explains the operations in some order
// compatible with the one observed.
func linearize(from []*Model, ops []*done) (out []*Model, explored int) {
	type node struct {
		mask uint64
		st   uint64
	}
	seen := map[node]bool{}
	final := map[uint64]bool{}
	now := time.Now()
	var dfs func(m *Model, mask uint64)
	dfs = func(m *Model, mask uint64) {
		k := node{mask, m.State()}
		if seen[k] || explored > 200_000 {
			return
		}
		seen[k] = true
		explored++
		if mask == 1<<len(ops)-1 {
			if !final[k.st] {
				final[k.st] = true
				out = append(out, m)
			}
			return
		}
		first := int64(1) << 62
		for i, d := range ops {
			if mask&(1<<i) == 0 && d.end < first {
				first = d.end
			}
		}
		for i, d := range ops {
			if mask&(1<<i) != 0 || d.start > first {
				continue
			}
			n := m.Clone()
			if len(n.Judge(d.r, now, d.o)) == 0 {
				dfs(n, mask|1<<i)
			}
		}
	}
	for _, m := range from {
		dfs(m, 0)
	}
	return
}

// keep is the program around the server which, holding its mutex, goes through
// the registrations and stores and writes what is there.
func keep(s *oauth2.Server, stop chan bool) {
	for {
		s.Mutex.Lock()
		for _, m := range []map[string]*oauth2.ServerEntity{s.Clients, s.Users} {
			for k, e := range m {
				n := *e
				*e = n
				m[k] = e
			}
		}
		for _, m := range []map[string]*oauth2.ServerCredential{s.AccessTokens, s.RefreshTokens, s.AuthorizationCodes} {
			i := 0
			for k, e := range m {
				n := *e
				*e = n
				m[k] = e
				if i++; i == 20 {
					break
				}
			}
		}
		s.Mutex.Unlock()
		select {
		case <-stop:
			return
		case <-time.After(50 * time.Microsecond):
		}
	}
}

// runOverlap plays the case; with order != nil it plays the threads one
// operation at a time in a random interleaving.
func runOverlap(x *pbt.X, c ovCase, order *rand.Rand) error {
	SeedRandom(string(c.W.Secret))
	defer randhook.Set(nil)
	m0 := NewModel(&c.W)
	m0.Slack = 10 * time.Minute
	s := &ovState{srv: c.W.NewServer(), cands: []*Model{m0}, settle: order != nil}
	fail := func(f string, a ...any) error {
		var tr []string
		for _, l := range s.trace[max(0, len(s.trace)-60):] {
			tr = append(tr, l())
		}
		return fmt.Errorf("%s\n  history:\n    %s", fmt.Sprintf(f, a...), strings.Join(tr, "\n    "))
	}
	var seq atomic.Int64
	overlapped, succeeded, total := 0, 0, 0
	if c.Fill > 0 {
		s.logf("%d tokens are issued", c.Fill)
		r := m0.Resolve(Op{K: "token", Grant: "password"}, time.Now())
		for i := 0; i < c.Fill; i++ {
			Do(s.srv, r, nil)
		}
	}
	for _, rd := range c.Rounds {
		for _, op := range rd.Pre {
			if r := s.cands[0].Resolve(op, time.Now()); r != nil {
				if err := s.one(r); err != nil {
					return fail("before the goroutines started: %v", err)
				}
			}
		}
		var all []*done
		if order != nil {
			// the same operations, one at a time
			var next []int
			for i, th := range rd.Threads {
				for range th {
					next = append(next, i)
				}
			}
			order.Shuffle(len(next), func(i, j int) { next[i], next[j] = next[j], next[i] })
			views := make([]*Model, len(rd.Threads))
			at := make([]int, len(rd.Threads))
			for i := range views {
				views[i] = s.cands[0].Clone()
			}
			for _, i := range next {
				d := runThread(s.srv, views[i], i, rd.Threads[i][at[i]:at[i]+1], nil, &seq, settle)
				at[i]++
				all = append(all, d...)
			}
		} else {
			res := make([][]*done, len(rd.Threads))
			views := make([]*Model, len(rd.Threads))
			for i := range views {
				views[i] = s.cands[0].Clone()
			}
			if len(rd.Pause) > 0 && rd.Pause[0].Rand != 0 {
				randhook.Set(pausedRand{randhook.Current(), rd.Pause[0]})
			}
			var wg sync.WaitGroup
			var ready atomic.Int64
			for i := range rd.Threads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					p := pause{}
					if i < len(rd.Pause) {
						p = rd.Pause[i]
					}
					ready.Add(1)
					for ready.Load() < int64(len(rd.Threads)) {
						runtime.Gosched()
					}
					res[i] = runThread(s.srv, views[i], i, rd.Threads[i], &p, &seq, nil)
				}()
			}
			stop := make(chan bool)
			var keeper sync.WaitGroup
			if len(rd.Pause) > 0 && rd.Pause[0].N%3 == 0 {
				x.Label("keeper")
				keeper.Add(1)
				go func() {
					defer keeper.Done()
					keep(s.srv, stop)
				}()
			}
			wg.Wait()
			close(stop)
			keeper.Wait()
			for _, r := range res {
				all = append(all, r...)
			}
		}
		sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
		for i, d := range all {
			s.logf("%s", d)
			total++
			if d.o.Panic != "" {
				return fail("panic: %s", d.o.Panic)
			}
			if d.o.Status == 200 && !d.o.Untouch || d.o.Allowed || d.o.Redirect && d.o.Error == "" {
				succeeded++
			}
			for _, e := range all[:i] {
				if e.end > d.start {
					overlapped++
					break
				}
			}
		}
		var n int
		s.cands, n = linearize(s.cands, all)
		x.Count("orders-explored", n)
		if len(s.cands) == 0 {
			if n > 200_000 {
				x.Label("search-given-up")
				return nil
			}
			return fail("no sequential order of the last %d operations explains their results", len(all))
		}
		if len(s.cands) > 1 {
			x.Label("several-explanations")
		}
		s.logf("    look at everything")
		keep := len(s.trace)
		for i, r := range s.cands[0].AuditOps() {
			if (i+len(all))%2 == 0 {
				continue // everything is looked at in the end
			}
			if err := s.one(r); err != nil {
				return fail("afterwards: %v", err)
			}
			s.trace = s.trace[:keep]
		}
	}
	s.logf("    redeem everything")
	for _, r := range s.cands[0].DrainOps() {
		if err := s.one(r); err != nil {
			return fail("at the end: %v", err)
		}
	}
	for _, r := range s.cands[0].AuditOps() {
		if err := s.one(r); err != nil {
			return fail("at the very end: %v", err)
		}
	}
	if order == nil {
		if overlapped > 0 && succeeded > 0 {
			x.NonTrivial()
		}
		x.Count("concurrent-operations", total)
		x.Count("overlapping-operations", overlapped)
		x.Count("successes", succeeded)
		for k := range s.cands[0].Stats {
			x.Label("%s", k)
		}
	}
	return nil
}

func checkOverlap(x *pbt.X, c ovCase) error {
	tries := 1
	if os.Getenv("PBT_REPLAY") != "" {
		tries = 300
	}
	for i := 0; i < tries; i++ {
		var err error
		if guarded(func() { err = runOverlap(x, c, nil) }) {
			return pbt.Stop("the server did not answer within 75 seconds")
		}
		if err == nil {
			continue
		}
		// is it a disagreement that shows without any concurrency?
		order := rand.New(rand.NewPCG(1, 2))
		for j := 0; j < 60; j++ {
			var seq error
			if guarded(func() { seq = runOverlap(&pbt.X{}, c, order) }) {
				return pbt.Stop("the server did not answer within 75 seconds")
			}
			if seq != nil {
				x.Foreign("also without concurrency: " + seq.Error())
				return nil
			}
		}
		return err
	}
	return nil
}

func longWorld() *rapid.Generator[World] {
	return rapid.Map(WorldGen(WorldOpts{}), func(w World) World {
		w.AccessSec, w.RefreshSec, w.CodeSec = longLived, longLived, longLived
		w.Clients[0].Confidential = true
		return w
	})
}

func pauseGen() *rapid.Generator[pause] {
	return rapid.Custom(func(t *rapid.T) pause {
		k := pbt.Pick(0, 0, 0, 1, 1, 1, 2, 2, 2, 3)
		if !pbt.Chance(t, 10) {
			k = pbt.Pick(0, 0, 1, 1, 2)
		}
		return pause{k.Draw(t, "body"), k.Draw(t, "rand"), k.Draw(t, "write"), pbt.Int(0, 9).Draw(t, "n")}
	})
}

// atOnce are goroutines which withdraw something and use it right away.
func atOnce(t *rapid.T) (r ovRound) {
	owner := pbt.Int(0, 4).Draw(t, "owner")
	code := Op{K: "token", Grant: "authorization_code", Tok: Ref{Kind: "c", Sel: 2}}
	refresh := Op{K: "token", Grant: "refresh_token", Tok: Ref{Kind: "r", Sel: pbt.Int(1, 2).Draw(t, "sel")}}
	use := []Op{
		{K: "access", Tok: Ref{Kind: "a", Sel: 2}},
		{K: "token", Grant: "refresh_token", Tok: Ref{Kind: "r", Sel: 2}},
		{K: "introspect", Tok: Ref{Kind: pbt.Pick("a", "r").Draw(t, "kind"), Sel: 2}},
	}
	for n := pbt.Int(1, 3).Draw(t, "codes"); n > 0; n-- {
		c := code
		c.Tok.Sel = 1
		r.Pre = append(r.Pre, Op{K: "authorize", C: owner}, c)
	}
	for g := pbt.Int(1, 4).Draw(t, "goroutines"); g > 0; g-- {
		n := pbt.Pick(0, 0, 0, 1, 2).Draw(t, "n")
		first := pbt.Pick(code, code, refresh, Op{K: "revoke", Tok: Ref{Kind: "a", Sel: 1}}, Op{K: "revoke", Tok: Ref{Kind: "r", Sel: 1}}).Draw(t, "first")
		first.Tok.N = n
		ops := []Op{first}
		for i := pbt.Int(1, 2).Draw(t, "uses"); i > 0; i-- {
			u := pbt.Pick(use...).Draw(t, "use")
			u.Tok.N = n
			ops = append(ops, u)
		}
		r.Threads = append(r.Threads, ops)
	}
	r.Pause = rapid.SliceOfN(pauseGen(), len(r.Threads), len(r.Threads)).Draw(t, "pauses")
	return
}

func ovGen() *rapid.Generator[ovCase] {
	pre := OpGen(Profile{W: map[string]int{"adv": 0, "advto": 0, "introspect": 0, "access": 0, "other": 0, "revoke": 2, "auth-code": 20}, FaultP: 5})
	op := OpGen(Profile{W: map[string]int{"adv": 0, "advto": 0, "other": 0, "code": 26, "refresh": 22, "revoke": 14, "access": 14, "introspect": 8, "auth-code": 4, "auth-token": 3, "password": 3, "cc": 3}, Fault: []string{"dead", "client"}, FaultP: 20})
	storm := []string{"code", "refresh", "revoke", "access", "password", "auth-code"}
	stormOp := map[string]*rapid.Generator[Op]{}
	for _, k := range storm {
		w := map[string]int{}
		for kind := range map[string]bool{"auth-code": true, "auth-token": true, "password": true, "cc": true, "code": true, "refresh": true, "introspect": true, "revoke": true, "access": true, "adv": true, "advto": true, "other": true} {
			w[kind] = 0
		}
		w[k] = 1
		stormOp[k] = OpGen(Profile{W: w})
	}
	return rapid.Custom(func(t *rapid.T) ovCase {
		c := ovCase{W: longWorld().Draw(t, "world")}
		switch pbt.Int(0, 14).Draw(t, "dead") { // from the start
		case 12:
			c.W.AccessSec = -longLived
		case 13:
			c.W.RefreshSec = -longLived
		case 14:
			c.W.CodeSec = -longLived
		}
		if pbt.Chance(t, 12) {
			c.Fill = pbt.OneOf(pbt.Int(1, 20), pbt.Pick(64, 128, 256, 320)).Draw(t, "fill")
		}
		for n := pbt.Int(1, 4).Draw(t, "rounds"); n > 0; n-- {
			var r ovRound
			if pbt.Chance(t, 20) {
				// what is withdrawn is used at once
				c.Rounds = append(c.Rounds, atOnce(t))
				continue
			}
			r.Pre = pbt.Many(pre, 1, 8).Draw(t, "pre")
			g := pbt.Int(2, 6).Draw(t, "goroutines")
			if pbt.Chance(t, 50) {
				// everyone goes for the same thing
				var same []Op
				for i := pbt.Pick(1, 1, 1, 2).Draw(t, "same"); i > 0; i-- {
					o := stormOp[pbt.Pick(storm...).Draw(t, "storm")].Draw(t, "op")
					o.Tok.N = 0
					same = append(same, o)
				}
				for i := 0; i < g; i++ {
					r.Threads = append(r.Threads, same)
				}
				if pbt.Chance(t, 40) {
					r.Threads[0] = rapid.SliceOfN(op, 1, 2).Draw(t, "other")
				}
			} else {
				for i := 0; i < g; i++ {
					r.Threads = append(r.Threads, rapid.SliceOfN(op, 1, 3).Draw(t, "ops"))
				}
			}
			total := 0
			for i, th := range r.Threads {
				if total += len(th); total > 12 {
					r.Threads = r.Threads[:i]
					break
				}
			}
			r.Pause = rapid.SliceOfN(pauseGen(), g, g).Draw(t, "pauses")
			c.Rounds = append(c.Rounds, r)
		}
		return c
	})
}

// ---- requests that fail half way

type ovFault struct {
	Kind string
	At   int
	N    int
}

type faultCase struct {
	W      World
	Pre    []Op
	Victim Op
	F      ovFault
	Others []Op
	Pause  pause
}

var errInjected = errors.New("injected fault")

type faultyReader struct {
	io.Reader
	kind string
	at   int
	n    *int
}

func (f faultyReader) Read(p []byte) (int, error) {
	*f.n++
	if *f.n-1 != f.at {
		return f.Reader.Read(p)
	}
	switch f.kind {
	case "panic":
		panic("injected panic")
	case "short":
		n := len(p) / 2
		k, _ := f.Reader.Read(p[:n])
		return k, errInjected
	}
	return 0, errInjected
}

// bodyReader hands out the body in small pieces and fails after some of them.
type bodyReader struct {
	io.Reader
	kind string
	at   int
}

func (b *bodyReader) Read(p []byte) (int, error) {
	if b.at == 0 {
		if b.kind == "panic" {
			panic("injected panic")
		}
		return 0, errInjected
	}
	b.at--
	return b.Reader.Read(p[:min(len(p), 5)])
}

func runFault(x *pbt.X, c faultCase) error {
	SeedRandom(string(c.W.Secret))
	defer randhook.Set(nil)
	srv := c.W.NewServer()
	m := NewModel(&c.W)
	m.Slack = 10 * time.Minute
	for _, op := range c.Pre {
		if r := m.Resolve(op, time.Now()); r != nil {
			if vs := m.Judge(r, time.Now(), Do(srv, r, nil)); len(vs) > 0 {
				x.Foreign(vs[0].Msg)
				return nil
			}
		}
	}
	v := m.Resolve(c.Victim, time.Now())
	if v == nil {
		return nil
	}
	rec := NewRecorder()
	kind, mode, _ := strings.Cut(c.F.Kind, "-")
	reads := 0
	hit := false
	switch kind {
	case "rand":
		randhook.Set(faultyReader{randhook.Current(), mode, c.F.At % 2, &reads})
	case "body":
		v.BodyHook = func(rd io.Reader) io.Reader { return &bodyReader{rd, mode, c.F.N} }
	case "status", "write", "header":
		n := 0
		rec.OnWrite = func(what string) {
			if what == kind {
				if n == c.F.At%3 || kind != "header" {
					hit = true
					panic("injected panic")
				}
				n++
			}
		}
	}
	others := make([]*Outcome, len(c.Others))
	var wg sync.WaitGroup
	if kind != "rand" {
		for i, op := range c.Others {
			r := m.Resolve(op, time.Now())
			if r == nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Pause.wait(c.Pause.Body)
				others[i] = Do(srv, r, nil)
			}()
		}
	}
	o := Do(srv, v, rec)
	if kind == "rand" {
		SeedRandom("after" + string(c.W.Secret))
	}
	wg.Wait()
	if o.Panic != "" {
		x.Label("panicked:%s", c.F.Kind)
	} else if kind == "rand" && reads > 0 || kind == "body" || hit {
		x.Label("failed:%s", c.F.Kind)
	} else {
		x.Label("not-hit:%s", c.F.Kind)
	}
	if o.Panic != "" || hit || kind == "body" {
		x.NonTrivial()
	}
	for i, o := range others {
		if o != nil && o.Panic != "" {
			return fmt.Errorf("operation %d, next to the failing one, panicked: %s", i, o.Panic)
		}
	}
	// a fresh client is served by every entry point
	w := c.W
	fresh := NewModel(&w)
	if err := healthy(srv, fresh); err != nil {
		return fmt.Errorf("after a request that failed half way (%s): %v", v, err)
	}
	return nil
}

func checkFault(x *pbt.X, c faultCase) error {
	var err error
	if guarded(func() { err = runFault(x, c) }) {
		return pbt.Stop("a request that failed half way left the server blocked for 75 seconds")
	}
	return err
}

func faultGen() *rapid.Generator[faultCase] {
	pre := OpGen(Profile{W: map[string]int{"adv": 0, "advto": 0, "introspect": 0, "access": 0, "other": 0, "revoke": 1, "auth-code": 20}, FaultP: 5})
	op := OpGen(Profile{W: map[string]int{"adv": 0, "advto": 0}, FaultP: 30})
	return rapid.Custom(func(t *rapid.T) faultCase {
		return faultCase{longWorld().Draw(t, "world"), pbt.Many(pre, 1, 8).Draw(t, "pre"), op.Draw(t, "victim"),
			ovFault{pbt.Pick("rand-error", "rand-short", "rand-panic", "body-error", "body-panic", "status-panic", "write-panic", "header-panic").Draw(t, "kind"), pbt.Int(0, 5).Draw(t, "at"), pbt.Int(0, 12).Draw(t, "n")},
			rapid.SliceOfN(op, 0, 3).Draw(t, "others"), pauseGen().Draw(t, "pause")}
	})
}

// ---- tokens from many goroutines

type hsCase struct {
	Secret Str
	Len    []int
	G      int
	Bad    Str
}

func checkHS(x *pbt.X, c hsCase) error {
	SeedRandom(string(c.Secret))
	defer randhook.Set(nil)
	secret := []byte(c.Secret)
	shared, err := oauth2.GenerateHS256Token(secret, 16)
	if err != nil {
		return err
	}
	str, sig := shared.String(), shared.SignatureString()
	errs := make([]error, c.G)
	keys := make([][]string, c.G)
	var wg sync.WaitGroup
	var ready atomic.Int64
	for g := 0; g < c.G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[g] = fmt.Errorf("panic: %v", e)
				}
			}()
			ready.Add(1)
			for ready.Load() < int64(c.G) {
				runtime.Gosched()
			}
			for _, n := range c.Len {
				t, err := oauth2.GenerateHS256Token(secret, n)
				if err != nil || len(t.Key) != n {
					errs[g] = fmt.Errorf("generate: %v %v", t, err)
					return
				}
				if !t.Valid(secret) || t.String() != Sign(secret, t.Key) {
					errs[g] = fmt.Errorf("generated token %q is not valid", t)
					return
				}
				keys[g] = append(keys[g], string(t.Key))
				p, err := oauth2.ParseHS256Token(secret, t.String())
				if err != nil || string(p.Key) != string(t.Key) || !p.Equal(t.Signature) {
					errs[g] = fmt.Errorf("parsing %q: %v %v", t, p, err)
					return
				}
				if shared.String() != str || shared.SignatureString() != sig || !shared.Valid(secret) || shared.Equal(t.Signature) {
					errs[g] = fmt.Errorf("shared token changed: %q", shared)
					return
				}
				q, err := oauth2.ParseHS256Token(secret, str)
				if err != nil || q.SignatureString() != sig {
					errs[g] = fmt.Errorf("parsing the shared token: %v %v", q, err)
					return
				}
				if q, err := oauth2.ParseHS256Token(append([]byte("x"), secret...), str); err == nil {
					errs[g] = fmt.Errorf("parsing with another secret: %v", q)
					return
				}
			}
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	for g := range errs {
		if errs[g] != nil {
			return fmt.Errorf("goroutine %d: %v", g, errs[g])
		}
		for _, k := range keys[g] {
			if len(k) >= 16 && seen[k] {
				return fmt.Errorf("key %x was generated twice", k)
			}
			seen[k] = true
		}
	}
	x.NonTrivial()
	return nil
}

func TestC12(t *testing.T) {
	hsGen := rapid.Custom(func(t *rapid.T) hsCase {
		return hsCase{pbt.Bytes(1, 80).Draw(t, "secret"), rapid.SliceOfN(pbt.Int(16, 48), 1, 8).Draw(t, "len"), pbt.Int(2, 8).Draw(t, "g"), ""}
	})
	pbt.Check(t, "C12",
		pbt.P("overlap", 1200, 25, ovGen(), checkOverlap),
		pbt.P("fault", 1500, 10, faultGen(), checkFault),
		pbt.P("hs256", 300, 10, hsGen, func(x *pbt.X, c hsCase) error {
			var err error
			if guarded(func() { err = checkHS(x, c) }) {
				return pbt.Stop("no answer within 75 seconds")
			}
			return err
		}),
	)
}
