package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
)

// ---- C31

type e2eCase struct {
	H     History
	Limit int
}

var tokenFields = []string{"grant_type", "scope", "username", "password", "refresh_token", "redirect_uri", "code"}

// viaClient performs a request through the library's client, if its interface
// can express the request.
func viaClient(x *pbt.X, limit int, done map[string]int) func(srv *oauth2.Server, m *Model, r *ROp) (*Outcome, string, bool) {
	var clients = map[string]*oauth2.Client{}
	var handle func(*http.Request) (*http.Response, error)
	return func(srv *oauth2.Server, m *Model, r *ROp) (*Outcome, string, bool) {
		if r.Method != "POST" || len(r.Query) > 0 || len(r.Headers) > 0 || !r.HasAuth || !strings.HasPrefix(r.Auth, "Basic ") {
			return nil, "", false
		}
		known := tokenFields
		if r.K == "introspect" || r.K == "revoke" {
			known = []string{"token", "token_type_hint"}
		} else if r.K != "token" {
			return nil, "", false
		}
		f := map[string]string{}
		for _, p := range r.Form {
			if _, dup := f[p.K]; dup || !slices.Contains(known, p.K) {
				return nil, "", false
			}
			f[p.K] = p.V
		}
		var id, sec string
		{
			h := &http.Request{Header: http.Header{"Authorization": {r.Auth}}}
			var ok bool
			if id, sec, ok = h.BasicAuth(); !ok || id == "" && sec == "" || strings.Contains(id, ":") {
				return nil, "", false
			}
		}
		redirect, err := url.QueryUnescape(f["redirect_uri"])
		if err != nil {
			return nil, "", false
		}
		var o *Outcome
		var bad string
		calls := 0
		handle = func(q *http.Request) (*http.Response, error) {
			calls++
			if q.URL.Path != r.Path {
				bad = fmt.Sprintf("the client asked %s instead of %s", q.URL.Path, r.Path)
			}
			b, err := io.ReadAll(q.Body)
			if err != nil {
				return nil, err
			}
			got, err := FormDecode(string(b))
			if err != nil {
				bad = fmt.Sprintf("the client sent %q", b)
			}
			for k := range got {
				if k == "redirect_uri" {
					if u, err := url.QueryUnescape(got[k][0]); err != nil || u != redirect {
						bad = fmt.Sprintf("the client sent the redirect URI %q instead of %q", got[k], redirect)
					}
				} else if !slices.Equal(got[k], []string{f[k]}) {
					bad = fmt.Sprintf("the client sent %s=%q instead of %q", k, got[k], f[k])
				}
			}
			n := 0
			for _, v := range f {
				if v != "" {
					n++
				}
			}
			if len(got) != n {
				bad = fmt.Sprintf("the client sent %q instead of %q", got, f)
			}
			q.Body = io.NopCloser(strings.NewReader(string(b)))
			q.RequestURI = q.URL.RequestURI()
			rec := NewRecorder()
			o = DoRequest(srv, q, rec)
			if o.Panic != "" {
				return nil, fmt.Errorf("panic")
			}
			return &http.Response{StatusCode: o.Status, Status: fmt.Sprintf("%d %s", o.Status, http.StatusText(o.Status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: o.Header.Clone(), Body: io.NopCloser(strings.NewReader(string(o.Body))), ContentLength: -1, Request: q}, nil
		}
		prefix := r.Path[:strings.LastIndex(r.Path, "/")+1]
		cl := clients[prefix]
		if cl == nil {
			// one client for the whole history
			cfg := oauth2.Default("http://server.test")
			cfg.TokenEndpoint, cfg.IntrospectionEndpoint, cfg.RevocationEndpoint = prefix+"token", prefix+"introspect", prefix+"revoke"
			cfg.ResponseLimit = int64(limit)
			cl = oauth2.NewClientWithClient(cfg, &http.Client{Transport: stub{func(q *http.Request) (*http.Response, error) { return handle(q) }}})
			clients[prefix] = cl
		}
		max := limit
		if max == 0 {
			max = 2048
		}
		var res any
		var cerr error
		switch r.K {
		case "token":
			var scope oauth2.Scope
			if s := f["scope"]; s != "" {
				scope = strings.Split(s, " ")
			}
			t, err := cl.Authenticate(oauth2.TokenRequest{GrantType: f["grant_type"], Scope: scope, ClientID: id, ClientSecret: sec, Username: f["username"], Password: f["password"], RefreshToken: f["refresh_token"], RedirectURI: redirect, Code: f["code"]})
			if cerr = err; t != nil {
				res = *t
			}
		case "introspect":
			t, err := cl.Introspect(oauth2.IntrospectionRequest{Token: f["token"], TokenTypeHint: f["token_type_hint"], ClientID: id, ClientSecret: sec})
			if cerr = err; t != nil {
				res = *t
			}
		case "revoke":
			cerr = cl.Revoke(oauth2.RevocationRequest{Token: f["token"], TokenTypeHint: f["token_type_hint"], ClientID: id, ClientSecret: sec})
		}
		if calls != 1 {
			return o, fmt.Sprintf("%d requests were sent, error %v", calls, cerr), o != nil
		}
		if bad != "" || o.Panic != "" {
			return o, bad, true
		}
		str := func(k string) string { s, _ := o.JSON[k].(string); return s }
		num := func(k string) int64 {
			n, _ := o.JSON[k].(json.Number)
			i, _ := n.Int64()
			return i
		}
		scope := func(s oauth2.Scope) string { return strings.Join(s, " ") }
		switch {
		case o.Status == 200 && r.K == "revoke":
			done["ok"]++
			if cerr != nil {
				bad = fmt.Sprintf("the client reports %v", cerr)
			}
		case o.Status == 200 && len(o.Body) > max && len(strings.TrimSpace(string(o.Body))) <= max:
			// only the space after the document is beyond the limit
			done["edge"]++
			if (cerr == nil) != (res != nil) {
				bad = fmt.Sprintf("the client reports %+v, %v", res, cerr)
			}
		case o.Status == 200 && len(o.Body) > max:
			done["cut"]++
			if cerr == nil || res != nil {
				bad = fmt.Sprintf("the client reports %+v, %v for an answer beyond the limit", res, cerr)
			}
		case o.Status == 200 && r.K == "token":
			done["ok"]++
			t, _ := res.(oauth2.TokenResponse)
			if cerr != nil || t.AccessToken != str("access_token") || t.RefreshToken != str("refresh_token") || t.TokenType != str("token_type") || int64(t.ExpiresIn) != num("expires_in") || scope(t.Scope) != str("scope") || t.State != "" || t.RedirectURI != "" {
				bad = fmt.Sprintf("the client reports %+v, %v", res, cerr)
			}
		case o.Status == 200:
			done["ok"]++
			t, _ := res.(oauth2.IntrospectionResponse)
			active, _ := o.JSON["active"].(bool)
			want := oauth2.IntrospectionResponse{Active: active, ClientID: str("client_id"), Username: str("username"), TokenType: str("token_type"), ExpiresAt: num("exp")}
			s := scope(t.Scope)
			t.Scope = nil
			if cerr != nil || s != str("scope") || !reflect.DeepEqual(t, want) {
				bad = fmt.Sprintf("the client reports %+v, %v", res, cerr)
			}
		default:
			done["refused"]++
			e, ok := cerr.(*oauth2.Error)
			if res != nil || cerr == nil {
				bad = fmt.Sprintf("the client reports %+v, %v", res, cerr)
			} else if o.Error != "" && len(o.Body) <= max && (!ok || e.Name != o.Error || e.Status != o.Status || e.Description != str("error_description") || scope(e.Scope) != str("scope")) {
				bad = fmt.Sprintf("the client reports the error %#v", cerr)
			}
		}
		return o, bad, true
	}
}

func e2eGen() *rapid.Generator[e2eCase] {
	hg := HistoryGen(Profile{W: map[string]int{"access": 4, "introspect": 12, "revoke": 8, "refresh": 14}, FaultP: 30, Fault: []string{"tok", "dead", "sec", "scope", "client"}, Audit: 15})
	return rapid.Custom(func(t *rapid.T) e2eCase {
		c := e2eCase{H: hg.Draw(t, "history")}
		c.Limit = pbt.OneOf(pbt.Pick(0, 0, 0, 1<<20), pbt.Int(50, 1000)).Draw(t, "limit")
		return c
	})
}

func checkE2E(x *pbt.X, c e2eCase) error {
	done := map[string]int{}
	return Run(x, c.H, Opts{Owner: "C31", Via: viaClient(x, c.Limit, done), NonTriv: func(m *Model) bool {
		for k := range done {
			x.Label("client-%s", k)
		}
		return done["ok"] > 1 && done["refused"] > 0
	}})
}

// checkHTTP plays a history over real connections. A disagreement with the
// model that also happens without connections belongs to other properties.
func checkHTTP(x *pbt.X, h History) error {
	err := playHTTP(x, h, true)
	if err != nil {
		alone := fmt.Errorf("panic")
		func() {
			defer func() { recover() }()
			alone = playHTTP(&pbt.X{T: x.T}, h, false)
		}()
		if alone != nil {
			x.Foreign(alone.Error())
			return nil
		}
	}
	return err
}

func playHTTP(x *pbt.X, h History, wire bool) error {
	srv := h.W.NewServer()
	var mu sync.Mutex
	var required []string
	panicked := ""
	ts := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer func() {
			if e := recover(); e != nil {
				mu.Lock()
				panicked = fmt.Sprint(e)
				mu.Unlock()
			}
		}()
		if strings.HasPrefix(r.URL.Path, "/api/") || r.URL.Path == "/audit" {
			mu.Lock()
			req := append(oauth2.Scope(nil), required...)
			mu.Unlock()
			if srv.Authorize(w, r, req) {
				w.Header().Set("X-Allowed", "yes")
				w.WriteHeader(299)
			}
			return
		}
		srv.ServeHTTP(w, r)
	}))
	ts.Start()
	defer ts.Close()
	tr := &http.Transport{}
	defer tr.CloseIdleConnections()
	m := NewModel(h.W.Clone())
	m.Slack = 10 * time.Minute
	var trace []string
	do := func(r *ROp) error {
		now := time.Now()
		mu.Lock()
		required, panicked = r.Required, ""
		mu.Unlock()
		if !wire {
			if vs := m.Judge(r, now, Do(srv, r, nil)); len(vs) > 0 {
				return fmt.Errorf("%s", vs[0].Msg)
			}
			return nil
		}
		bare := *r
		bare.Amb = 0 // the connection has its own circumstances
		q := bare.Request()
		body, _ := io.ReadAll(q.Body)
		q2, err := http.NewRequest(q.Method, ts.URL+q.URL.RequestURI(), strings.NewReader(string(body)))
		if err != nil {
			return nil
		}
		q2.Header = q.Header
		res, err := tr.RoundTrip(q2)
		if err != nil {
			mu.Lock()
			defer mu.Unlock()
			if panicked != "" {
				return fmt.Errorf("panic: %s", panicked)
			}
			return fmt.Errorf("%s was not answered: %v", r, err)
		}
		b, err := io.ReadAll(res.Body)
		res.Body.Close()
		if err != nil {
			return fmt.Errorf("%s: the answer breaks off: %v", r, err)
		}
		rec := NewRecorder()
		allowed := res.Header.Get("X-Allowed") != ""
		if !allowed {
			rec.H = res.Header.Clone()
			for _, k := range []string{"Date", "Content-Length", "Connection"} {
				rec.H.Del(k)
			}
			rec.WriteHeader(res.StatusCode)
			rec.Write(b)
			rec.Headers = 1
		}
		o := Parse(rec)
		o.Allowed = allowed
		trace = append(trace, fmt.Sprintf("%s\n        -> %s", r, o))
		vs := m.Judge(r, now, o)
		if len(vs) == 0 {
			return nil
		}
		return fmt.Errorf("over a connection: %s\n  history:\n    %s", vs[0].Msg, strings.Join(trace[max(0, len(trace)-30):], "\n    "))
	}
	for _, op := range h.Ops {
		if op.K == "adv" {
			continue
		}
		r := m.Resolve(op, time.Now())
		if r == nil || r.Method == "post" || r.Method == "HEAD" || strings.Trim(r.Auth, " \t") != r.Auth || strings.ContainsFunc(r.Auth, func(c rune) bool { return c < ' ' && c != '\t' || c == 127 }) {
			// HTTP does not carry these, or not unchanged
			continue
		}
		for _, p := range r.Headers {
			if p.K == "Connection" || p.K == "Range" || strings.ContainsFunc(p.V, func(c rune) bool { return c < ' ' || c == 127 }) {
				r.Headers = nil
				break
			}
		}
		if err := do(r); err != nil {
			return err
		}
	}
	for _, r := range m.AuditOps() {
		if err := do(r); err != nil {
			return err
		}
	}
	for k := range m.Stats {
		x.Label("%s", k)
	}
	if all(m, "token-ok", "token-refused") {
		x.NonTrivial()
	}
	return nil
}

func httpGen() *rapid.Generator[History] {
	hg := HistoryGen(Profile{FaultP: 35, MaxOps: 25})
	return rapid.Custom(func(t *rapid.T) History {
		h := hg.Draw(t, "history")
		h.W.AccessSec, h.W.RefreshSec, h.W.CodeSec = 3600_000, 7200_000, 5400_000
		return h
	})
}

// sharedCase has several goroutines use one client.
type sharedCase struct {
	Calls  [][]int // per goroutine: kinds of calls (mod 3) and tokens (div 3)
	Delays []int
	Fail   int
}

func sharedGen() *rapid.Generator[sharedCase] {
	return rapid.Custom(func(t *rapid.T) sharedCase {
		return sharedCase{
			Calls:  pbt.Many(rapid.SliceOfN(pbt.Int(0, 8), 1, 6), 2, 6).Draw(t, "calls"),
			Delays: rapid.SliceOfN(pbt.Int(0, 3), 8, 8).Draw(t, "delays"),
			Fail:   pbt.Int(0, 9).Draw(t, "fail"),
		}
	})
}

func checkShared(x *pbt.X, c sharedCase) error {
	var errs []error
	var mu sync.Mutex
	report := func(f string, a ...any) {
		mu.Lock()
		errs = append(errs, fmt.Errorf(f, a...))
		mu.Unlock()
	}
	Bubble(x.T, func() {
		n := 0
		cl := oauth2.NewClientWithClient(oauth2.Default("http://server.test"), &http.Client{Transport: stub{func(q *http.Request) (*http.Response, error) {
			b, _ := io.ReadAll(q.Body)
			form, _ := FormDecode(string(b))
			tag := ""
			for _, k := range []string{"username", "token"} {
				if v := form[k]; len(v) > 0 {
					tag = v[0]
				}
			}
			mu.Lock()
			d := c.Delays[n%len(c.Delays)]
			n++
			mu.Unlock()
			time.Sleep(time.Duration(d) * time.Millisecond)
			id, _, _ := q.BasicAuth()
			doc, status := "", 200
			switch {
			case strings.HasSuffix(id, fmt.Sprint(c.Fail)):
				doc, status = fmt.Sprintf(`{"error":"refused","error_description":%q}`, tag+" "+id), 400
			case strings.HasSuffix(q.URL.Path, "/token"):
				doc = fmt.Sprintf(`{"token_type":"bearer","access_token":%q,"expires_in":1,"scope":%q}`, tag, id)
			case strings.HasSuffix(q.URL.Path, "/introspect"):
				doc = fmt.Sprintf(`{"active":true,"username":%q,"client_id":%q}`, tag, id)
			}
			return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(doc)), Request: q}, nil
		}}})
		var wg sync.WaitGroup
		for g, kinds := range c.Calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, k := range kinds {
					tag, id := fmt.Sprintf("tag-%d", k/3), fmt.Sprintf("client-%d-%d-%d", g, i, (3*g+i)%10)
					fails := strings.HasSuffix(id, fmt.Sprint(c.Fail))
					k %= 3
					var err error
					good := false
					switch k {
					case 0:
						var r *oauth2.TokenResponse
						r, err = cl.Authenticate(oauth2.TokenRequest{GrantType: "password", Username: tag, ClientID: id, ClientSecret: "x"})
						good = r != nil && r.AccessToken == tag && strings.Join(r.Scope, " ") == id
					case 1:
						var r *oauth2.IntrospectionResponse
						r, err = cl.Introspect(oauth2.IntrospectionRequest{Token: tag, ClientID: id, ClientSecret: "x"})
						good = r != nil && r.Username == tag && r.ClientID == id
					case 2:
						err = cl.Revoke(oauth2.RevocationRequest{Token: tag, ClientID: id, ClientSecret: "x"})
						good = err == nil
					}
					e, _ := err.(*oauth2.Error)
					if fails && (good || e == nil || e.Description != tag+" "+id) || !fails && (!good || err != nil) {
						report("call %d of goroutine %d (%s) got the answer to another call: %v", i, g, []string{"token", "introspect", "revoke"}[k], err)
					}
				}
			}()
		}
		wg.Wait()
	})
	x.NonTrivial()
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}

func TestC31(t *testing.T) {
	pbt.Check(t, "C31",
		pbt.P("history", 700, 20, e2eGen(), checkE2E),
		pbt.P("shared", 600, 20, sharedGen(), checkShared),
		pbt.P("http", 150, 20, httpGen(), checkHTTP),
	)
}
