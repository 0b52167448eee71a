// Package suite holds what the checks of the conformance suite need: a small
// authorization server of its own, conforming unless told otherwise, and the
// tampering with single responses.
package suite

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"
)

// Cfg declares a server and what a specification says about it.
type Cfg struct {
	ConfID, ConfSecret, ConfURI string
	PubID, PubURI               string
	User, Pass                  string
	Allowed, Required           []string
	AccessLife, RefreshLife     time.Duration
	CodeLife                    time.Duration
	Paths                       map[string]string // token authorize introspect revoke resource
	Password, CC, Implicit      bool
	Code, Refresh               bool
	Replay                      bool
	ByHeader                    bool // resource owner credentials in headers
	Tokens                      int  // what tokens look like
	Style                       int  // how the same answer is written down
}

type cred struct {
	kind, client, user, redirect, root string
	scope                              []string
	exp                                time.Time
	used                               bool
}

// Ref is the server.
type Ref struct {
	Cfg
	Fault string
	creds map[string]*cred
	made  map[string]bool
	gone  map[string]tomb
	n     int
}

// tomb is what is left of a credential.
type tomb struct {
	*cred
	why string
}

// NewRef makes a server.
func NewRef(c Cfg, fault string) *Ref {
	return &Ref{Cfg: c, Fault: fault, creds: map[string]*cred{}, made: map[string]bool{}, gone: map[string]tomb{}}
}

// Issue makes a credential.
func (s *Ref) Issue(kind, client, user, redirect, root string, scope []string, life time.Duration) string {
	t := s.Unknown()
	s.creds[t] = &cred{kind, client, user, redirect, root, scope, time.Now().Add(life), false}
	return t
}

// Unknown makes a well-formed string that is no credential.
func (s *Ref) Unknown() string {
	s.n++
	a, b := s.n*7919, s.n*104729%1000003
	t := ""
	switch s.Tokens {
	case 0:
		t = fmt.Sprintf("ref-%d.x%dx", s.n, a)
	case 1:
		t = fmt.Sprintf("%08x%08x%08x%08x", a, b, a+b, s.n)
	case 2:
		t = fmt.Sprintf("eyJhbGciOiJIUzI1NiJ9.eyJqdGkiOiI%d.%d-_%d", a, b, s.n)
	case 3:
		t = fmt.Sprintf("%08d-0000-4000-8000-%012d", a%100000000, b)
	case 4:
		t = fmt.Sprintf("+/~%d._-%d==", a, s.n)
	case 5:
		t = fmt.Sprintf("%d.%s%d", s.n, strings.Repeat("longtoken", 400), b)
	case 6:
		t = fmt.Sprintf("%d", s.n)
	}
	s.made[t] = true
	return t
}

// TokenForms is the number of ways tokens look.
const TokenForms = 7

// remove deletes a credential.
func (s *Ref) remove(t, why string) {
	if c := s.creds[t]; c != nil {
		s.gone[t] = tomb{c, why}
	}
	delete(s.creds, t)
}

// find returns a credential.
func (s *Ref) find(t, fault string) *cred {
	if g := s.gone[t]; g.cred != nil && s.bad(fault+":"+g.kind+":"+g.why) {
		return g.cred
	}
	return s.creds[t]
}

func (s *Ref) wellFormed(t string) bool { return s.made[t] }

var statusOf = map[string]int{"invalid_client": 401, "access_denied": 403, "insufficient_scope": 403, "invalid_token": 401}

// Styles are the ways of writing down the same answer.
const (
	TightCommas = 1 << iota
	WideCommas
	RealmFirst
	Described
	UpperScheme
	UnquotedError
	IndentedJSON
	ExtraFields
	ExtraParams
	PercentSpaces
	SecondChallenge
	RevokeBody
	StyleEnd
)

func (s *Ref) is(style int) bool { return s.Style&style != 0 }

// challenge writes down a challenge with an optional error.
func (s *Ref) challenge(w http.ResponseWriter, scheme, realm, code string) {
	var ps []string
	if code != "" {
		p := `error="` + code + `"`
		if s.is(UnquotedError) {
			p = "error=" + code
		}
		ps = append(ps, p)
		if s.is(Described) {
			ps = append(ps, `error_description="so: a, error=b, \"c\" \\"`)
		}
	}
	if realm != "" {
		ps = append(ps, `realm="`+realm+`"`)
	}
	if s.is(RealmFirst) {
		if realm == "" {
			ps = append(ps, `realm="of many, error=none"`)
		}
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	sep := ", "
	switch {
	case s.is(TightCommas) && s.is(WideCommas):
		sep = " ,\t"
	case s.is(TightCommas):
		sep = ","
	case s.is(WideCommas):
		sep = " ,  "
	}
	if s.is(UpperScheme) {
		scheme = strings.ToUpper(scheme)
	}
	w.Header().Set("WWW-Authenticate", scheme+" "+strings.Join(ps, sep))
	if s.is(SecondChallenge) {
		w.Header().Add("WWW-Authenticate", `Digest realm="other", nonce="x"`)
	}
}

func (s *Ref) fail(w http.ResponseWriter, code string) {
	st := statusOf[code]
	if st == 0 {
		st = 400
	}
	if st == 401 {
		s.challenge(w, "Basic", "ref", "")
	}
	s.doc(w, st, map[string]any{"error": code})
}

func (s *Ref) doc(w http.ResponseWriter, st int, v map[string]any) {
	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Cache-Control", "no-store")
	w.WriteHeader(st)
	e := json.NewEncoder(w)
	if s.is(IndentedJSON) {
		e.SetIndent(" ", "\t")
	}
	if s.is(ExtraFields) {
		v["a_first"], v["z_last"] = map[string]any{"error": "none", "active": nil}, []int{1}
		if v["error"] != nil {
			v["error_description"] = "so: \"x\""
		}
	}
	e.Encode(v)
}

func (s *Ref) bad(f string) bool { return s.Fault == f }

func (s *Ref) includes(have, want []string, flow string) bool {
	m := map[string]bool{}
	for _, h := range have {
		m[h] = true
	}
	hit := 0
	for _, x := range want {
		if m[x] {
			hit++
		}
	}
	if s.bad("scope-any:" + flow) {
		return true
	}
	if s.bad("scope-disjoint:" + flow) {
		return hit == 0 || hit == len(want)
	}
	if s.bad("scope-overlap:" + flow) {
		return hit > 0 || len(want) == 0
	}
	return hit == len(want)
}

func (s *Ref) userOK(name, pass, flow string) bool {
	if name == "" && pass == "" && s.bad("user-missing:"+flow) {
		return true
	}
	n := name == s.User || s.bad("user-name:"+flow)
	p := pass == s.Pass || s.bad("user-pass:"+flow)
	return n && p
}

func (s *Ref) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	r.ParseForm()
	switch r.URL.Path {
	case s.Paths["token"]:
		s.token(w, r)
	case s.Paths["authorize"]:
		s.authorize(w, r)
	case s.Paths["resource"]:
		s.resource(w, r)
	default:
		switch {
		case r.URL.Path == s.Paths["introspect"] && s.Paths["introspect"] != "":
			s.tokens(w, r, "introspect")
		case r.URL.Path == s.Paths["revoke"] && s.Paths["revoke"] != "":
			s.tokens(w, r, "revoke")
		default:
			http.NotFound(w, r)
		}
	}
}

func (s *Ref) resource(w http.ResponseWriter, r *http.Request) {
	refuse := func(code string) {
		realm, st := "", statusOf[code]
		if code == "" {
			realm, st = "ref", 401
		}
		if st == 0 {
			st = 400
		}
		s.challenge(w, "Bearer", realm, code)
		w.WriteHeader(st)
	}
	h := r.Header.Get("Authorization")
	if h == "" && !s.bad("resource-missing") {
		refuse("")
		return
	}
	t, ok := strings.CutPrefix(h, "Bearer ")
	if !ok && h != "" && !s.bad("resource-header") {
		refuse("invalid_request")
		return
	}
	if ok {
		c := s.find(t, "use-gone")
		switch {
		case !s.wellFormed(t) && !s.bad("resource-malformed"), s.wellFormed(t) && (c == nil || c.kind != "a") && !s.bad("resource-unknown"):
			refuse("invalid_token")
			return
		case c != nil && time.Now().After(c.exp) && !s.bad("expiry-access"):
			refuse("invalid_token")
			return
		case c != nil && !s.includes(c.scope, s.Required, "resource"):
			refuse("insufficient_scope")
			return
		}
	}
	w.Write([]byte("OK"))
}

// client authenticates; empty means refused.
func (s *Ref) client(w http.ResponseWriter, r *http.Request, where string) string {
	id, sec, ok := r.BasicAuth()
	if !ok {
		if !s.bad("client-missing:" + where) {
			s.fail(w, "invalid_request")
			return ""
		}
		return s.ConfID
	}
	switch {
	case id == s.PubID:
		return id
	case id == s.ConfID && (sec == s.ConfSecret || s.bad("client-secret:"+where)):
		return id
	case id != s.ConfID && s.bad("client-unknown:"+where):
		return s.ConfID
	}
	s.refuseClient(w, where, map[bool]string{true: "secret", false: "unknown"}[id == s.ConfID])
	return ""
}

func (s *Ref) refuseClient(w http.ResponseWriter, where, why string) {
	if s.bad("no-challenge-" + why + ":" + where) {
		s.doc(w, 401, map[string]any{"error": "invalid_client"})
		return
	}
	s.fail(w, "invalid_client")
}

func (s *Ref) redirect(w http.ResponseWriter, uri string, frag bool, v url.Values) {
	sep := "?"
	if strings.Contains(uri, "?") {
		sep = "&"
	}
	if frag {
		sep = "#"
	}
	if s.is(ExtraParams) {
		v.Set("a_iss", "https://issuer.example/?error=x&state=y#z")
		v.Set("z_session", "")
	}
	q := v.Encode()
	if s.is(PercentSpaces) {
		q = strings.ReplaceAll(q, "+", "%20")
	}
	w.Header().Set("Location", uri+sep+q)
	w.WriteHeader(303)
}

func (s *Ref) authorize(w http.ResponseWriter, r *http.Request) {
	f := r.Form
	rt, id, uri := f.Get("response_type"), f.Get("client_id"), f.Get("redirect_uri")
	if r.Method == "GET" && s.bad("authorize-get") {
		http.NotFound(w, r)
		return
	}
	if rt == "" && id == "" && uri == "" && s.bad("authorize-empty") {
		w.Write([]byte("form"))
		return
	}
	if rt != "" && rt != "code" && rt != "token" && s.bad("response-type") {
		rt = "code"
		if !s.Code {
			rt = "token"
		}
	}
	if rt == "" || id == "" || uri == "" || rt != "code" && rt != "token" {
		if r.Method == "GET" {
			w.WriteHeader(400)
			return
		}
		s.fail(w, "invalid_request")
		return
	}
	reg := s.ConfURI
	if id == s.PubID {
		reg = s.PubURI
	} else if id != s.ConfID && !s.bad("client-unknown:authorize") {
		s.refuseClient(w, "authorize", "unknown")
		return
	}
	if uri != reg && !s.bad("redirect-authorize") {
		s.fail(w, "invalid_request")
		return
	}
	if rt == "code" && !s.Code || rt == "token" && !s.Implicit {
		s.fail(w, "unsupported_response_type")
		return
	}
	if r.Method == "GET" {
		w.Write([]byte("form"))
		return
	}
	frag := rt == "token"
	v := url.Values{}
	if st := f.Get("state"); st != "" {
		v.Set("state", st)
	}
	scope := strings.Fields(f.Get("scope"))
	e := ""
	name, pass := r.PostForm.Get("username"), r.PostForm.Get("password")
	if s.ByHeader {
		name, pass = r.Header.Get("X-User"), r.Header.Get("X-Pass")
	}
	switch {
	case !s.includes(s.Allowed, scope, "authorize-"+rt):
		e = "invalid_scope"
	case !s.userOK(name, pass, "authorize-"+rt):
		e = "access_denied"
	}
	if e != "" {
		v.Set("error", e)
		if s.bad("state-error:" + rt) {
			v.Del("state")
		}
		s.redirect(w, uri, frag, v)
		return
	}
	if s.bad("state-success:" + rt) {
		v.Del("state")
	}
	if rt == "code" {
		c := s.Issue("c", id, name, uri, "", scope, s.CodeLife)
		if !s.bad("missing:code") {
			v.Set("code", c)
		}
	} else {
		t := s.Issue("a", id, name, "", "", scope, s.AccessLife)
		if s.bad("dead:access_token:implicit") {
			delete(s.creds, t)
		}
		for k, x := range map[string]string{"access_token": t, "token_type": "bearer", "expires_in": fmt.Sprint(int(s.AccessLife / time.Second)), "scope": strings.Join(scope, " ")} {
			if !s.bad("missing:" + k + ":implicit") {
				v.Set(k, x)
			}
		}
		if s.bad("implicit-refresh") {
			v.Set("refresh_token", s.Issue("r", id, name, "", "", scope, s.RefreshLife))
		}
	}
	s.redirect(w, uri, frag, v)
}

func (s *Ref) token(w http.ResponseWriter, r *http.Request) {
	f := r.PostForm
	g := f.Get("grant_type")
	switch g {
	case "password", "client_credentials", "authorization_code", "refresh_token":
	default:
		if g == "" && !s.bad("token-empty") || g != "" && !s.bad("grant-type") {
			s.fail(w, "invalid_request")
			return
		}
		s.doc(w, 200, map[string]any{})
		return
	}
	id := s.client(w, r, g)
	if id == "" {
		return
	}
	if g == "password" && !s.Password || g == "client_credentials" && !s.CC || g == "authorization_code" && !s.Code {
		s.fail(w, "unsupported_grant_type")
		return
	}
	scope := strings.Fields(f.Get("scope"))
	full := scope
	user, root := f.Get("username"), ""
	switch g {
	case "password":
		if !s.userOK(user, f.Get("password"), "password") {
			s.fail(w, "access_denied")
			return
		}
		if !s.includes(s.Allowed, scope, g) {
			s.fail(w, "invalid_scope")
			return
		}
	case "client_credentials":
		user = ""
		if id == s.PubID && !s.bad("public-client") {
			s.refuseClient(w, g, "public")
			return
		}
		if !s.includes(s.Allowed, scope, g) {
			s.fail(w, "invalid_scope")
			return
		}
	case "authorization_code":
		t := f.Get("code")
		if !s.wellFormed(t) && s.bad("malformed-code") || s.wellFormed(t) && s.creds[t] == nil && s.bad("unknown-code") {
			s.creds[t] = &cred{"c", id, s.User, f.Get("redirect_uri"), "", scope, time.Now().Add(time.Hour), false}
		} else if !s.wellFormed(t) {
			s.fail(w, "invalid_request")
			return
		}
		c := s.creds[t]
		if c == nil || c.kind != "c" {
			s.fail(w, "invalid_grant")
			return
		}
		if c.used && !s.bad("reuse-code") {
			if s.Replay {
				for k, x := range s.creds {
					if x.root == t && x.kind != "c" && !s.bad("replay-"+x.kind) {
						s.remove(k, "replayed")
					}
				}
			}
			s.fail(w, "invalid_grant")
			return
		}
		if time.Now().After(c.exp) && !s.bad("expiry-code") || c.client != id && !s.bad("owner-code") || c.redirect != f.Get("redirect_uri") && !s.bad("redirect-exchange") {
			s.fail(w, "invalid_grant")
			return
		}
		c.used = true
		scope, full, user, root = c.scope, c.scope, c.user, t
	case "refresh_token":
		t := f.Get("refresh_token")
		if !s.wellFormed(t) && s.bad("malformed-refresh") || s.wellFormed(t) && s.creds[t] == nil && s.bad("unknown-refresh") {
			s.creds[t] = &cred{"r", id, s.User, "", "", scope, time.Now().Add(time.Hour), false}
		} else if !s.wellFormed(t) {
			s.fail(w, "invalid_request")
			return
		}
		c := s.find(t, "use-gone")
		if c == nil || c.kind != "r" || time.Now().After(c.exp) && !s.bad("expiry-refresh") || c.client != id && !s.bad("owner-refresh") {
			s.fail(w, "invalid_grant")
			return
		}
		if !s.includes(c.scope, scope, g) {
			s.fail(w, "invalid_scope")
			return
		}
		if len(scope) == 0 {
			scope = c.scope
		}
		full, user, root = c.scope, c.user, c.root
		if !s.bad("reuse-refresh") {
			s.remove(t, "spent")
		}
	}
	out := map[string]any{"token_type": "bearer", "expires_in": int(s.AccessLife / time.Second), "scope": strings.Join(scope, " ")}
	out["access_token"] = s.Issue("a", id, user, "", root, scope, s.AccessLife)
	out["refresh_token"] = s.Issue("r", id, user, "", root, full, s.RefreshLife)
	for _, k := range []string{"access_token", "refresh_token"} {
		if s.bad("dead:" + k + ":" + g) {
			delete(s.creds, out[k].(string))
		}
	}
	for k := range out {
		if s.bad("missing:" + k + ":" + g) {
			delete(out, k)
		}
	}
	s.doc(w, 200, out)
}

func (s *Ref) tokens(w http.ResponseWriter, r *http.Request, what string) {
	if r.Method != "POST" {
		if s.bad("get:" + what) {
			s.doc(w, 200, map[string]any{"active": false})
			return
		}
		s.fail(w, "invalid_request")
		return
	}
	t, hint := r.PostForm.Get("token"), r.PostForm.Get("token_type_hint")
	_, _, authd := r.BasicAuth()
	if t == "" && (authd && s.bad("missing-token:"+what) || !authd && s.bad("empty:"+what)) {
		s.doc(w, 200, map[string]any{"active": false})
		return
	}
	if t == "" {
		s.fail(w, "invalid_request")
		return
	}
	if hint != "" && hint != "access_token" && hint != "refresh_token" && !s.bad("hint:"+what) {
		s.fail(w, "unsupported_token_type")
		return
	}
	id := s.client(w, r, what)
	if id == "" {
		return
	}
	if !s.wellFormed(t) && !s.bad("malformed:"+what) {
		s.fail(w, "invalid_request")
		return
	}
	c := s.find(t, what+"-gone")
	if c != nil && c.kind == "c" {
		c = nil
	}
	if c == nil && s.bad("unknown-token:"+what) {
		s.fail(w, "invalid_request")
		return
	}
	if c != nil && c.client != id && !s.bad("owner:"+what) {
		s.fail(w, "invalid_client")
		return
	}
	if what == "revoke" {
		if c != nil && !s.bad("revoke-"+c.kind) {
			s.remove(t, "revoked")
		}
		w.WriteHeader(200)
		if s.is(RevokeBody) {
			w.Write([]byte("{}"))
		}
		return
	}
	out := map[string]any{"active": false}
	live := c != nil && !time.Now().After(c.exp)
	if live && !s.bad("introspect-inactive") && !s.bad("introspect-inactive-"+c.kind) || s.bad("introspect-active") {
		kind := "access_token"
		if c != nil && c.kind == "r" {
			kind = "refresh_token"
		}
		if s.bad("introspect-kind") {
			kind = map[string]string{"access_token": "refresh_token", "refresh_token": "access_token"}[kind]
		}
		out = map[string]any{"active": true, "token_type": kind}
	}
	s.doc(w, 200, out)
}

// Has tells what a specification declares.
type Has struct{ Password, CC, Implicit, Code, Refresh, Introspect, Revoke, Replay, BadUser bool }

// Faults lists the deviations that the suite covers under the specification.
func Faults(h Has) []string {
	var out []string
	add := func(cond bool, fs ...string) {
		if cond {
			out = append(out, fs...)
		}
	}
	anyRefresh := h.Password || h.CC || h.Code || h.Refresh
	token := anyRefresh
	authz := h.Implicit || h.Code
	add(true, "resource-missing", "resource-header", "resource-malformed", "resource-unknown", "expiry-access", "scope-any:resource")
	add(token, "grant-type", "token-empty", "client-unknown:password", "reuse-refresh")
	add(h.CC, "no-challenge-secret:client_credentials", "no-challenge-public:client_credentials")
	add(authz, "authorize-get", "authorize-empty", "response-type", "no-challenge-unknown:authorize")
	add(h.Code, "malformed-code", "unknown-code")
	add(h.Refresh, "malformed-refresh", "unknown-refresh")
	add(h.Implicit, "dead:access_token:implicit")
	add(h.Introspect, "get:introspect")
	add(h.Password, "client-secret:password")
	add(h.CC, "client-secret:client_credentials")
	add(h.Code, "client-secret:authorization_code")
	add(h.Refresh, "client-secret:refresh_token")
	for _, g := range []string{"password", "client_credentials", "authorization_code", "refresh_token"} {
		on := map[string]bool{"password": h.Password, "client_credentials": h.CC, "authorization_code": h.Code, "refresh_token": anyRefresh}[g]
		for _, k := range []string{"access_token", "refresh_token", "scope", "expires_in", "token_type"} {
			add(on, "missing:"+k+":"+g)
		}
		add(on, "dead:access_token:"+g)
		add(on && g != "refresh_token", "dead:refresh_token:"+g)
		if g != "authorization_code" {
			add(on && (g != "refresh_token" || h.Refresh), "scope-any:"+g, "scope-overlap:"+g)
			add(on && g != "refresh_token", "scope-disjoint:"+g)
		}
	}
	add(h.Password, "user-name:password", "user-pass:password")
	add(h.CC, "public-client")
	add(authz, "client-unknown:authorize", "redirect-authorize")
	for _, rt := range []string{"code", "token"} {
		on := rt == "code" && h.Code || rt == "token" && h.Implicit
		add(on, "scope-any:authorize-"+rt, "scope-overlap:authorize-"+rt, "scope-disjoint:authorize-"+rt, "user-missing:authorize-"+rt, "state-error:"+rt, "state-success:"+rt)
		add(on && h.BadUser, "user-name:authorize-"+rt)
		add(on && !h.BadUser, "user-pass:authorize-"+rt)
	}
	add(h.Implicit, "missing:access_token:implicit", "missing:token_type:implicit", "missing:scope:implicit", "missing:expires_in:implicit", "implicit-refresh")
	add(h.Code, "missing:code", "reuse-code", "expiry-code", "owner-code", "redirect-exchange")
	add(h.Code && h.Replay, "replay-a", "replay-r")
	add(h.Refresh, "expiry-refresh", "owner-refresh")
	for _, e := range []string{"introspect", "revoke"} {
		on := e == "introspect" && h.Introspect || e == "revoke" && h.Revoke
		add(on, "client-missing:"+e, "client-unknown:"+e, "client-secret:"+e, "hint:"+e, "malformed:"+e, "owner:"+e)
		add(on, "missing-token:"+e, "empty:"+e, "unknown-token:"+e, "no-challenge-unknown:"+e, "no-challenge-secret:"+e)
	}
	add(h.Introspect, "introspect-inactive", "introspect-inactive-a")
	add(h.Introspect && (h.Revoke || anyRefresh), "introspect-active")
	add(h.Introspect && (h.Implicit || anyRefresh || h.Revoke), "introspect-kind")
	add(h.Introspect && anyRefresh, "introspect-inactive-r")
	add(h.Introspect && h.Revoke, "introspect-gone:a:revoked")
	add(h.Introspect && h.Revoke && anyRefresh, "introspect-gone:r:revoked")
	add(h.Introspect && anyRefresh, "introspect-gone:r:spent")
	add(h.Revoke, "use-gone:a:revoked")
	add(h.Revoke && anyRefresh, "use-gone:r:revoked")
	add(anyRefresh, "use-gone:r:spent")
	add(h.Code && h.Replay, "use-gone:a:replayed", "use-gone:r:replayed")
	add(h.Revoke, "revoke-a")
	add(h.Revoke && anyRefresh, "revoke-r")
	return out
}
