package model

import (
	"encoding/base64"
	hexenc "encoding/hex"
	"fmt"
	"io"
	"math/rand/v2"
	"net/url"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"

	"aaverif/pbt"
	"aaverif/randhook"
)

// lockedRand is a deterministic random source.
type lockedRand struct {
	mu sync.Mutex
	c  *rand.ChaCha8
}

func (l *lockedRand) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.c.Read(p)
}

// SeedRandom installs a deterministic source of randomness.
func SeedRandom(seed string) {
	var k [32]byte
	copy(k[:], MAC([]byte("seed"), []byte(seed)))
	randhook.Set(&lockedRand{c: rand.NewChaCha8(k)})
}

// Bubble runs f with a fake clock; panics are passed on to the caller.
func Bubble(t *testing.T, f func()) {
	var p any
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if e := recover(); e != nil {
				if err, ok := e.(error); ok && strings.Contains(err.Error(), "deadlock") {
					panic(e)
				}
				p = e
			}
		}()
		f()
	})
	if p != nil {
		panic(p)
	}
}

// Locked reports whether the server's mutex is held. It keeps a history on the
// fake clock from waiting for ever; the field is optional.
func Locked(s *oauth2.Server) bool {
	f := reflect.ValueOf(s).Elem().FieldByName("Mutex")
	if !f.IsValid() || !f.CanAddr() || !f.Addr().CanInterface() {
		return false
	}
	l, ok := f.Addr().Interface().(interface {
		TryLock() bool
		Unlock()
	})
	if !ok {
		return false
	}
	if !l.TryLock() {
		return true
	}
	l.Unlock()
	return false
}

// Opts controls a history run.
type Opts struct {
	Owner    string
	Snapshot bool // compare the stores around operations that must not change them
	Canary   bool // no response may contain a secret or an older credential
	Exposed  bool // the stores must hold exactly what is usable
	NonTriv  func(m *Model) bool
	// Via performs a request in another way; ok is false if it cannot
	Via func(srv *oauth2.Server, m *Model, r *ROp) (o *Outcome, bad string, ok bool)
}

// Canaries replaces all secrets of a configuration by conspicuous ones.
func (w *World) Canaries() {
	w.Secret = "canary-signing-9fX2qLw7"
	for i := range w.Clients {
		if w.Clients[i].Secret != "" {
			w.Clients[i].Secret = pbt.Str(fmt.Sprintf("canary-client-%d-Zk3v8Tq1", i))
		}
	}
	for i := range w.Users {
		w.Users[i].Password = pbt.Str(fmt.Sprintf("canary-user-%d-Hy6w2Rb5", i))
	}
}

// CanaryNames replaces the names of users and clients by conspicuous ones.
func (w *World) CanaryNames() {
	for i := range w.Clients {
		w.Clients[i].ID = pbt.Str(fmt.Sprintf("canary-app-%d-Jd5r", i))
	}
	for i := range w.Users {
		w.Users[i].Name = pbt.Str(fmt.Sprintf("canary-owner-%d-Wm4c", i))
	}
}

// carried is everything a request says.
func carried(r *ROp) string {
	var b strings.Builder
	b.WriteString(r.Path + "\n" + r.Auth + "\n")
	if raw, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(r.Auth, "Basic ")); err == nil {
		b.Write(raw)
	}
	for _, p := range append(append(append([]Pair(nil), r.Form...), r.Query...), r.Headers...) {
		b.WriteString("\n" + p.K + "\n" + p.V)
	}
	return b.String()
}

// leak looks for secrets in a response.
func (m *Model) leak(r *ROp, o *Outcome, older []*Cred) string {
	var b strings.Builder
	for k, vs := range o.Header {
		fmt.Fprintf(&b, "%s: %s\n", k, strings.Join(vs, "\n"))
	}
	b.Write(o.Body)
	if d, err := url.QueryUnescape(o.Loc); err == nil {
		b.WriteString("\n" + d)
	}
	text := b.String()
	has := func(s string) bool {
		for _, f := range []string{s, url.QueryEscape(s), base64.StdEncoding.EncodeToString([]byte(s)), base64.RawURLEncoding.EncodeToString([]byte(s)), hexenc.EncodeToString([]byte(s))} {
			if strings.Contains(text, f) {
				return true
			}
		}
		return false
	}
	if has(string(m.W.Secret)) {
		return "the signing secret"
	}
	for _, c := range m.W.Clients {
		if c.Secret != "" && has(string(c.Secret)) {
			return fmt.Sprintf("the secret of client %q", c.ID)
		}
	}
	for _, u := range m.W.Users {
		if has(string(u.Password)) {
			return fmt.Sprintf("the password of user %q", u.Name)
		}
	}
	if o.Error != "" || o.Status >= 400 {
		said := carried(r)
		for _, c := range m.W.Clients {
			if strings.HasPrefix(string(c.ID), "canary-") && has(string(c.ID)) && !strings.Contains(said, string(c.ID)) {
				return fmt.Sprintf("the client %q, which the request does not name", c.ID)
			}
		}
		for _, u := range m.W.Users {
			if strings.HasPrefix(string(u.Name), "canary-") && has(string(u.Name)) && !strings.Contains(said, string(u.Name)) {
				return fmt.Sprintf("the user %q, whom the request does not name", u.Name)
			}
		}
	}
	for _, c := range older {
		key, sig, _ := strings.Cut(c.Str, ".")
		if strings.Contains(text, sig) || strings.Contains(text, key) {
			return "the earlier credential " + c.Str
		}
	}
	// the signature that would make a presented string valid
	sent := []string{strings.TrimPrefix(r.Auth, "Bearer ")}
	for _, p := range append(append([]Pair(nil), r.Form...), r.Query...) {
		sent = append(sent, p.V)
	}
	for _, s := range sent {
		k, rest, _ := strings.Cut(s, ".")
		key, err := base64.RawURLEncoding.DecodeString(k)
		if err != nil || len(s) < 2 {
			continue
		}
		mac := MAC([]byte(m.W.Secret), key)
		for _, f := range []string{base64.RawURLEncoding.EncodeToString(mac), base64.StdEncoding.EncodeToString(mac), hexenc.EncodeToString(mac)} {
			if !strings.Contains(rest, f) && strings.Contains(text, f) {
				return fmt.Sprintf("the signature of the presented key %q", k)
			}
		}
	}
	return ""
}

type snapshot struct {
	cfg                       oauth2.ServerConfig
	clients, users            map[string]oauth2.ServerEntity
	access, refresh, authcode map[string]oauth2.ServerCredential
}

func snap(s *oauth2.Server) *snapshot {
	ent := func(in map[string]*oauth2.ServerEntity) map[string]oauth2.ServerEntity {
		out := map[string]oauth2.ServerEntity{}
		for k, v := range in {
			out[k] = *v
		}
		return out
	}
	cred := func(in map[string]*oauth2.ServerCredential) map[string]oauth2.ServerCredential {
		out := map[string]oauth2.ServerCredential{}
		for k, v := range in {
			c := *v
			c.Scope = append(oauth2.Scope{}, v.Scope...)
			out[k] = c
		}
		return out
	}
	cfg := s.Config
	cfg.Secret = slices.Clone(cfg.Secret)
	cfg.AllowedScope = append(oauth2.Scope{}, cfg.AllowedScope...)
	return &snapshot{cfg, ent(s.Clients), ent(s.Users), cred(s.AccessTokens), cred(s.RefreshTokens), cred(s.AuthorizationCodes)}
}

func diff(a, b *snapshot) string {
	var out []string
	x, y := reflect.ValueOf(*a), reflect.ValueOf(*b)
	for i := 0; i < x.NumField(); i++ {
		if !reflect.DeepEqual(get2(a, i), get2(b, i)) {
			out = append(out, fmt.Sprintf("%s: %+v -> %+v", x.Type().Field(i).Name, get2(a, i), get2(b, i)))
		}
	}
	_ = y
	return strings.Join(out, "; ")
}

func get2(s *snapshot, i int) any {
	return []any{s.cfg, s.clients, s.users, s.access, s.refresh, s.authcode}[i]
}

// Run plays a history against the real server and judges every answer.
func Run(x *pbt.X, h History, opt Opts) error {
	var err error
	Bubble(x.T, func() { err = run(x, h, opt) })
	return err
}

func run(x *pbt.X, h History, opt Opts) error {
	SeedRandom(string(h.W.Secret))
	defer randhook.Set(nil)
	srv := h.W.NewServer()
	m := NewModel(h.W.Clone())
	var trace []string
	step, played := 0, 0
	var last *ROp
	var kept []any // without the requests that must not have an effect
	fail := func(v Viol, what string) error {
		if !slices.Contains(v.Owners, opt.Owner) && opt.Snapshot && last != nil && len(kept) < played {
			if erased(h, kept, last, m) {
				v.Owners = append(slices.Clone(v.Owners), opt.Owner)
				v.Msg += " (and not if the earlier refused and read-only requests are left out)"
			}
		}
		if !slices.Contains(v.Owners, opt.Owner) {
			x.Foreign(fmt.Sprintf("%v %s", v.Owners, v.Msg))
			return errForeign
		}
		n := len(trace)
		if n > 30 {
			trace = append([]string{fmt.Sprintf("... %d earlier steps", n-30)}, trace[n-30:]...)
		}
		return fmt.Errorf("%s\n  at %s\n  history:\n    %s", v.Msg, what, strings.Join(trace, "\n    "))
	}
	do := func(r *ROp) ([]Viol, *Outcome) {
		now := m.settle()
		step++
		last = r
		if r.Slow > 0 {
			r.BodyHook = func(rd io.Reader) io.Reader {
				return &late{rd, func() {
					time.Sleep(r.Slow)
					m.settle()
					m.ctx["C26"] = true
					m.Stats["slow-body"]++
				}}
			}
		}
		var o *Outcome
		bad, ok := "", false
		if opt.Via != nil {
			o, bad, ok = opt.Via(srv, m, r)
		}
		if !ok {
			o = Do(srv, r, nil)
		}
		if r.Slow > 0 { // the request has not been made before all of it is there
			now = time.Now()
		}
		older := m.Creds[:len(m.Creds):len(m.Creds)]
		vs := m.Judge(r, now, o)
		if bad != "" {
			vs = append([]Viol{{[]string{opt.Owner}, bad + ": " + o.String()}}, vs...)
		}
		if opt.Canary {
			if l := m.leak(r, o, older); l != "" {
				vs = append([]Viol{{[]string{"C29"}, "the response discloses " + l + ": " + o.String()}}, vs...)
			}
			if o.Error != "" || o.Status >= 400 {
				m.Stats["leak-checked-refusals"]++
			}
		}
		trace = append(trace, fmt.Sprintf("%3d %s %s\n        -> %s", step, now.Format("15:04:05.000"), r, o))
		if opt.Exposed && len(vs) == 0 {
			if d := m.Exposed(srv, time.Now()); d != "" {
				vs = append(vs, Viol{[]string{"C34"}, d})
			}
		}
		if Locked(srv) {
			vs = append([]Viol{{[]string{"C12", "C13"}, "the server's lock is still held after the request"}}, vs...)
		}
		return vs, o
	}
	// first picks the first violation owned by the property, else any.
	first := func(vs []Viol) Viol {
		for _, v := range vs {
			if slices.Contains(v.Owners, opt.Owner) {
				return v
			}
		}
		return vs[0]
	}
	audit := func() error {
		keep := map[string]bool{}
		for k := range m.ctx {
			keep[k] = true
		}
		trace = append(trace, "    audit")
		played++
		n := len(trace)
		for _, r := range m.AuditOps() {
			if vs, _ := do(r); len(vs) > 0 {
				return fail(first(vs), "audit "+r.String())
			}
			trace = trace[:n]
			m.ctx = map[string]bool{}
			for k := range keep {
				m.ctx[k] = true
			}
		}
		m.ctx = map[string]bool{}
		return nil
	}
	var ops []Op
	for _, op := range h.Ops {
		audit, n := op.Audit, 0
		if op.K != "adv" && op.K != "cfg" && op.K != "store" {
			n = op.Rep
		}
		if n > 0 {
			m.Stats["bulk"]++
		}
		for op.Audit = false; n > 0; n-- {
			ops = append(ops, op)
		}
		op.Audit = audit
		ops = append(ops, op)
	}
	for _, op := range ops {
		if op.K == "adv" || op.K == "cfg" {
			kept = append(kept, op)
			played++
		}
		if op.K == "adv" {
			if d := m.Advance(op, time.Now()); d > 0 {
				time.Sleep(d)
				m.ctx["C26"] = true
				m.Stats["clock-moved"]++
				trace = append(trace, fmt.Sprintf("    clock +%v", d))
			}
			continue
		}
		if op.K == "store" {
			var what string
			if srv, what = m.Rearrange(srv, op, m.settle()); what != "" {
				x.Label("stores:%s", op.RT)
				m.Stats["rearranged"]++
				trace = append(trace, "    "+what)
				if op.Audit {
					if err := audit(); err != nil {
						return ret(err)
					}
				}
			}
			continue
		}
		if op.K == "cfg" {
			if what := m.Reconfigure(srv, op); what != "" {
				x.Label("changed:%s", op.RT)
				m.Stats["reconfigured"]++
				m.changed = true
				trace = append(trace, "    "+what)
				if op.Audit {
					if err := audit(); err != nil {
						return ret(err)
					}
				}
			}
			continue
		}
		r := m.Resolve(op, m.settle())
		if r == nil {
			x.Label("skipped-ambiguous")
			continue
		}
		var before *snapshot
		var kills int
		if opt.Snapshot {
			before = snap(srv)
			kills = m.Stats["replay"]
		}
		vs, o := do(r)
		if len(vs) > 0 {
			if err := fail(first(vs), r.String()); err != nil && err != errForeign || !opt.Snapshot {
				return ret(err)
			}
		}
		if opt.Snapshot {
			readOnly := r.K == "introspect" || r.K == "access" || r.K == "authorize" && r.Method == "GET"
			isErr := o.Error != "" || o.Status >= 400
			played++
			if !readOnly && (!isErr || m.Stats["replay"] != kills) {
				kept = append(kept, op)
			}
			if (readOnly || isErr) && m.Stats["replay"] == kills {
				x.Label("unchanged:%s:%s", r.K, o.Error)
				m.Stats["snapshots"]++
				if d := diff(before, snap(srv)); d != "" {
					return ret(fail(Viol{[]string{"C11"}, "stored state changed: " + d}, r.String()+" -> "+o.String()))
				}
			}
		}
		if len(vs) > 0 {
			return nil
		}
		if op.Audit {
			if err := audit(); err != nil {
				return ret(err)
			}
		}
	}
	if err := audit(); err != nil {
		return ret(err)
	}
	trace = append(trace, "    drain")
	for _, r := range m.DrainOps() {
		if vs, _ := do(r); len(vs) > 0 {
			return ret(fail(first(vs), "drain "+r.String()))
		}
		kept, played = append(kept, r), played+1
	}
	if err := audit(); err != nil {
		return ret(err)
	}
	for k := range m.Stats {
		x.Label("%s", k)
	}
	x.Count("requests", step)
	x.Count("credentials", len(m.Creds))
	if opt.NonTriv == nil || opt.NonTriv(m) {
		x.NonTrivial()
	}
	return nil
}

var errForeign = fmt.Errorf("foreign")

func ret(err error) error {
	if err == errForeign {
		return nil
	}
	return err
}

// erased plays the remaining operations at a new server and then the request
// that was judged wrong; it tells if this time it was right.
func erased(h History, ops []any, r *ROp, was *Model) bool {
	SeedRandom(string(h.W.Secret) + "erased")
	srv := h.W.NewServer()
	m := NewModel(h.W.Clone())
	same := func(r *ROp) *ROp { // with the credentials of this server
		n := *r
		n.Form = slices.Clone(r.Form)
		for i, c := range was.Creds[:min(len(was.Creds), len(m.Creds))] {
			n.Auth = strings.ReplaceAll(n.Auth, c.Str, m.Creds[i].Str)
			for j := range n.Form {
				n.Form[j].V = strings.ReplaceAll(n.Form[j].V, c.Str, m.Creds[i].Str)
			}
		}
		return &n
	}
	right := func(r *ROp) bool {
		now := m.settle()
		return len(m.Judge(r, now, Do(srv, r, nil))) == 0
	}
	for _, op := range ops {
		switch op := op.(type) {
		case *ROp:
			if !right(same(op)) {
				return false
			}
		case Op:
			switch op.K {
			case "adv":
				if d := m.Advance(op, time.Now()); d > 0 {
					time.Sleep(d)
				}
			case "cfg":
				m.Reconfigure(srv, op)
			default:
				if r := m.Resolve(op, m.settle()); r != nil && !right(r) {
					return false
				}
			}
		}
	}
	return len(m.Creds) == len(was.Creds) && right(same(r))
}

// late is a body that keeps its end back for some time.
type late struct {
	io.Reader
	wait func()
}

func (l *late) Read(p []byte) (int, error) {
	n, err := l.Reader.Read(p)
	if w := l.wait; err != nil && w != nil {
		l.wait = nil
		w()
	}
	return n, err
}

// settle makes sure the clock is at no credential's exact expiry instant.
func (m *Model) settle() time.Time {
	for {
		now := time.Now()
		hit := false
		for _, c := range m.Creds {
			if c.Expires.Equal(now) {
				hit = true
			}
		}
		if !hit {
			return now
		}
		time.Sleep(1)
	}
}
