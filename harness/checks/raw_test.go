package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
	"aaverif/randhook"
)

// guarded runs f and reports whether it came back in time.
func guarded(f func()) (hung bool) {
	done := make(chan any, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("%v", r)
				return
			}
			done <- nil
		}()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
		return false
	case <-time.After(75 * time.Second):
		return true
	}
}

type edit struct {
	Kind, At, Len int
	With          Str
}

type rawCase struct {
	Base   Op     // a request over the fixed world
	Path   Str    // replaces the path
	Hdr    []kv   // additional header lines
	Line   Str    // replaces the method
	Ext    int    // headers that have nothing to do with it
	Edits  []edit // byte edits of the serialized request
	Body   int    // body delivery
	Access bool
	Req    []Str
	Free   Str // a request made of raw text only
	Struct bool
	Big    int // size of what does not matter
	BigAt  int // body, query, header, many parameters, path
}

// rawWorld is a small fixed world with something of everything.
func rawWorld() (*oauth2.Server, *Model) {
	w := World{Secret: "raw-secret", KeyLength: 16, Allowed: []Str{"foo", "bar"}, AccessSec: 3600_000, RefreshSec: 3600_000, CodeSec: 3600_000, PathPrefix: "/oauth2/",
		ExtraScopes: []Str{"baz"}, Clients: []Client{{"c1", "s1", "http://example.com/cb?a=b", true}, {"c2", "", "http://example.com/cb", false}, {"c3", "s3", "https://x.test/", true}}, Users: []User{{"u1", "p1"}, {"u2", "p2"}}}
	SeedRandom("raw")
	s := w.NewServer()
	m := NewModel(&w)
	now := time.Now()
	for _, op := range []Op{{K: "token"}, {K: "authorize"}, {K: "authorize"}, {K: "authorize", RT: "token"}, {K: "token", Grant: "authorization_code", Tok: Ref{Kind: "c"}}, {K: "token", Grant: "client_credentials"}} {
		r := m.Resolve(op, now)
		m.Judge(r, now, Do(s, r, nil))
	}
	return s, m
}

func rawGen() *rapid.Generator[rawCase] {
	og := OpGen(Profile{W: map[string]int{"adv": 0, "advto": 0}, FaultP: 50})
	frag := pbt.OneOf(
		pbt.Pick[Str]("%", "%zz", "%00", "&", "=", ";", "+", "\r\n", "\x00", "\xff", "/", "//", "?", "#", "..", " ", "\t", "authorize", "token", "redirect_uri=", "scope=", "grant_type=", "Authorization: Basic Og==\r\n", "Authorization: Bearer \r\n", "Content-Type: multipart/form-data; boundary=x\r\n", "Content-Type: \r\n", "Expect: 100-continue\r\n", "Host: \r\n", "http://", "[", "\"", "\\"),
		pbt.Bytes(1, 4), rapid.Map(pbt.Int(10, 2000), func(n int) Str { return Str(strings.Repeat("A", n)) }))
	return rapid.Custom(func(t *rapid.T) rawCase {
		c := rawCase{Base: og.Draw(t, "op"), Access: pbt.Chance(t, 25), Struct: true}
		if c.Access {
			c.Req = rapid.SliceOfN(pbt.OneOf(pbt.Pick[Str]("foo", "baz"), pbt.Match(`[!#-\[\]-~]{1,8}`)), 0, 2).Draw(t, "req")
		}
		switch {
		case pbt.Chance(t, 20):
			c.Path = pbt.OneOf(pbt.Pick[Str]("/", "/oauth2/", "/token/", "/authorize/x", "/Token", "/oauth2/token2", "/introspect/../revoke", "//token", "/a/b/c/introspect", "/%74oken", "/oauth2%2Ftoken", "/tokenauthorize", "*", "/revoke;x=1", "/oauth2/authorize.json"), pbt.Match(`/[a-z/]{0,12}`), pbt.Match(`/[ -~]{0,12}`)).Draw(t, "path")
		}
		if pbt.Chance(t, 20) {
			c.Line = pbt.OneOf(pbt.Pick[Str]("GET", "POST", "HEAD", "OPTIONS", "CONNECT", "TRACE", "PUT", "PATCH", "DELETE", "PROPFIND", "get", "M-SEARCH"), pbt.Match(`[A-Z!#$%&'*+.^_-]{1,9}`)).Draw(t, "line")
		}
		hn := pbt.Pick[Str]("Content-Type", "Authorization", "Cookie", "Content-Encoding", "X-Forwarded-Host", "Accept", "Content-Length", "Transfer-Encoding", "Host", "authorization")
		hv := pbt.OneOf(pbt.Pick[Str]("", "multipart/form-data", "multipart/form-data; boundary=b", "text/plain", "application/json", "application/x-www-form-urlencoded; a=\"", ";", "Basic", "Basic ", "Basic Og==", "Basic YTo=", "Basic !!", "Basic "+Str(strings.Repeat("QUFB", 200)), "Bearer", "Bearer ", "Bearer a.b", "Bearer .", "Bearer ..", "bearer \x80", "chunked", "0", "5", "-1", "gzip"), pbt.Match(`[ -~]{0,20}`))
		if pbt.Chance(t, 35) {
			for i := pbt.Int(1, 3).Draw(t, "nh"); i > 0; i-- {
				c.Hdr = append(c.Hdr, kv{hn.Draw(t, "hn"), hv.Draw(t, "hv")})
			}
		}
		if pbt.Chance(t, 20) {
			c.Ext = pbt.Int(1, 16).Draw(t, "ext")
			if pbt.Chance(t, 30) {
				c.Line = pbt.Pick[Str]("OPTIONS", "OPTIONS", "HEAD", "GET", "PUT").Draw(t, "method")
			}
		}
		if pbt.Chance(t, 60) {
			for i := pbt.Int(1, 4).Draw(t, "ne"); i > 0; i-- {
				c.Edits = append(c.Edits, edit{pbt.Int(0, 5).Draw(t, "ek"), pbt.Int(0, 2000).Draw(t, "at"), pbt.Int(0, 60).Draw(t, "el"), frag.Draw(t, "with")})
			}
		}
		if pbt.Chance(t, 20) {
			c.Body = pbt.Int(1, 4).Draw(t, "body")
		}
		if pbt.Chance(t, 4) {
			c.Big, c.BigAt = pbt.OneOf(pbt.Pick(1<<10, 1<<12, 1<<13, 1<<14, 1<<15, 1<<16, 1<<17, 1<<18, 1<<20, 2<<20), pbt.Int(500, 100_000)).Draw(t, "big")+pbt.Int(-1, 1).Draw(t, "more"), pbt.Pick(0, 0, 0, 1, 2, 3, 4).Draw(t, "where")
			if pbt.Chance(t, 4) {
				c.Big = 11 << 20
			}
		}
		if pbt.Chance(t, 5) {
			c.Free = pbt.Match(`(GET|POST|PUT|HEAD) /(authorize|token|introspect|revoke|x)(\?[ -~]{0,30})? HTTP/1\.[01]\r\n([A-Z][a-z-]{1,12}: [ -~]{0,20}\r\n){0,4}\r\n[ -~]{0,40}`).Draw(t, "free")
		}
		return c
	})
}

func (c *rawCase) bytes(m *Model) []byte {
	if c.Free != "" {
		return []byte(c.Free)
	}
	r := m.Resolve(c.Base, time.Now())
	if r == nil {
		r = &ROp{K: "token", Method: "POST", Path: "/oauth2/token"}
	}
	q := EncodeForm(r.Query)
	method, path := r.Method, r.Path
	if c.Line != "" {
		method = string(c.Line)
	}
	if c.Path != "" {
		path = string(c.Path)
	}
	body := EncodeForm(r.Form)
	pad := strings.Repeat("x", c.Big)
	if c.Big > 0 {
		switch c.BigAt {
		case 0:
			body = strings.TrimPrefix(body+"&pad="+pad, "&")
		case 1:
			q = strings.TrimPrefix(q+"&pad="+pad, "&")
		case 2:
			c.Hdr = append(c.Hdr[:len(c.Hdr):len(c.Hdr)], kv{"X-Pad", Str(pad)})
		case 3:
			body = strings.TrimPrefix(body+strings.Repeat("&p=x", c.Big/4), "&")
		case 4:
			path = "/" + pad + path
		}
	}
	if q != "" {
		path += "?" + q
	}
	for _, e := range c.Edits { // half of the edits go to the body, whose length is then right
		if e.Kind >= 3 {
			body = apply(body, e)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: server.test\r\nContent-Type: application/x-www-form-urlencoded\r\n", method, path)
	if r.HasAuth {
		fmt.Fprintf(&b, "Authorization: %s\r\n", r.Auth)
	}
	for _, h := range c.Hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h.K, h.V)
	}
	for _, h := range ExtHeaders(c.Ext, "a.b", "c1") {
		fmt.Fprintf(&b, "%s: %s\r\n", h.K, h.V)
	}
	head := b.String()
	for _, e := range c.Edits {
		if e.Kind < 3 {
			head = apply(head, e)
		}
	}
	return []byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n%s", head, len(body), body))
}

func apply(s string, e edit) string {
	if len(s) == 0 {
		return string(e.With)
	}
	at := e.At % (len(s) + 1)
	end := min(len(s), at+e.Len)
	switch e.Kind % 3 {
	case 0:
		return s[:at] + string(e.With) + s[at:]
	case 1:
		return s[:at] + s[end:]
	default:
		return s[:at] + string(e.With) + s[end:]
	}
}

// statusFor lists the statuses an OAuth2 error code may come with.
var statusFor = map[string]int{"invalid_request": 400, "invalid_client": 401, "invalid_grant": 400, "invalid_scope": 400, "access_denied": 403, "unsupported_token_type": 400, "unsupported_grant_type": 400, "unsupported_response_type": 400, "unauthorized_client": 400, "invalid_token": 401, "insufficient_scope": 403}

// judgeAny checks the response to any request whatsoever.
func judgeAny(method, path string, access bool, o *Outcome) error {
	if o.Panic != "" {
		return fmt.Errorf("panic: %s", o.Panic)
	}
	if access {
		if o.Allowed {
			if !o.Untouch {
				return fmt.Errorf("allowed but something was written: %s", o)
			}
			return nil
		}
		if o.Headers != 1 || len(o.Body) != 0 {
			return fmt.Errorf("stopped request: status written %d times, body %q", o.Headers, o.Body)
		}
		if !o.HasChall || o.BadChall != "" || o.Chall == nil {
			return fmt.Errorf("stopped request without a well-formed bearer challenge: %s %s", o, o.BadChall)
		}
		want := statusFor[o.Chall["error"]]
		if o.Chall["error"] == "" {
			want = 401
		}
		if want == 0 || o.Status != want {
			return fmt.Errorf("stopped request with status %d and error %q", o.Status, o.Chall["error"])
		}
		return nil
	}
	if o.Headers > 1 {
		return fmt.Errorf("status written %d times", o.Headers)
	}
	end := path[strings.LastIndexByte(path, '/')+1:]
	switch end {
	case "authorize", "token", "introspect", "revoke":
	default:
		if o.Status != 404 {
			return fmt.Errorf("unknown path %q answered with %s", path, o)
		}
		return nil
	}
	if o.Status < 400 && method != "POST" && (method != "GET" || end != "authorize") {
		return fmt.Errorf("%s request for %q answered with %s", method, path, o)
	}
	if o.Status == 303 && end != "authorize" {
		return fmt.Errorf("%q answered with a redirect: %s", path, o)
	}
	switch {
	case o.Status == 200:
		if o.HasLoc || o.Error != "" {
			return fmt.Errorf("status 200 with an error or a location: %s", o)
		}
		if o.JSON != nil && !NoStore(o.Header) {
			return fmt.Errorf("cacheable document: %v", o.Header)
		}
	case o.Status == 303:
		if !o.HasLoc || o.BadLoc != "" || len(o.Body) != 0 {
			return fmt.Errorf("malformed redirect: %s %s", o, o.BadLoc)
		}
		if !NoStore(o.Header) {
			return fmt.Errorf("cacheable redirect: %v", o.Header)
		}
	case o.Status >= 400 && o.Status < 500:
		if o.JSON == nil || o.Error == "" {
			return fmt.Errorf("status %d without an OAuth2 error document: %q", o.Status, o.Body)
		}
		if statusFor[o.Error] != o.Status {
			return fmt.Errorf("error %q with status %d", o.Error, o.Status)
		}
		if !NoStore(o.Header) {
			return fmt.Errorf("cacheable error: %v", o.Header)
		}
		if o.HasLoc {
			return fmt.Errorf("error document with a location: %s", o)
		}
		if o.Status == 401 && (!o.HasChall || o.BadChall != "") {
			return fmt.Errorf("401 without a well-formed challenge: %s %s", o, o.BadChall)
		}
	default:
		return fmt.Errorf("status %d: %s", o.Status, o)
	}
	return nil
}

func doRaw(s *oauth2.Server, r *http.Request, access bool, req oauth2.Scope) *Outcome {
	rec := NewRecorder()
	var allowed bool
	var pan string
	func() {
		defer func() {
			if e := recover(); e != nil {
				pan = fmt.Sprint(e)
			}
		}()
		if access {
			allowed = s.Authorize(rec, r, req)
		} else {
			s.ServeHTTP(rec, r)
		}
	}()
	o := Parse(rec)
	o.Allowed, o.Panic = allowed, pan
	return o
}

// healthy makes sure that the server still serves a client.
func healthy(s *oauth2.Server, m *Model) error {
	r := m.Resolve(Op{K: "token", Grant: "client_credentials"}, time.Now())
	o := Do(s, r, nil)
	if o.Panic != "" || o.Status != 200 || o.JSON["access_token"] == nil {
		return fmt.Errorf("a later valid request is not served: %s", o)
	}
	a := Do(s, &ROp{K: "access", Method: "GET", Path: "/x", HasAuth: true, Auth: "Bearer " + fmt.Sprint(o.JSON["access_token"])}, nil)
	if !a.Allowed {
		return fmt.Errorf("a later valid access is not allowed: %s", a)
	}
	return nil
}

func checkRaw(x *pbt.X, c rawCase) error {
	defer randhook.Set(nil)
	s, m := rawWorld()
	raw := c.bytes(m)
	var err error
	run := func() {
		var r *http.Request
		var rerr error
		r, rerr = http.ReadRequest(bufio.NewReader(bytes.NewReader(raw)))
		if rerr != nil {
			x.Label("not-http")
			return
		}
		switch c.Body {
		case 1:
			r.Body = http.NoBody
		case 2:
			r.Body = io.NopCloser(&trackedBody{data: raw, failAt: len(raw) / 2, failErr: io.ErrUnexpectedEOF})
		case 3:
			r.Body = io.NopCloser(bytes.NewReader(raw))
		case 4:
			b, _ := io.ReadAll(r.Body)
			r.Body = http.MaxBytesReader(nil, io.NopCloser(bytes.NewReader(b)), 10)
		}
		path := r.URL.Path
		o := doRaw(s, r, c.Access, toScope(c.Req))
		x.NonTrivial()
		if c.Access {
			x.Label("access-%d", o.Status)
		} else {
			x.Label("%s-%d", map[bool]string{true: o.Error, false: "ok"}[o.Error != ""], o.Status)
		}
		if err = judgeAny(r.Method, path, c.Access, o); err == nil {
			err = healthy(s, m)
		}
	}
	if guarded(run) {
		err = pbt.Stop("no answer within 75 seconds")
	}
	if err != nil {
		return fmt.Errorf("%v\n%q", err, raw[:min(len(raw), 5000)])
	}
	return nil
}

// ---- the error constructors

type errCase struct {
	N    int
	Desc Str
	Sc   []Str
}

var constructors = []struct {
	name   string
	status int
	f      func(string) *oauth2.Error
}{
	{"invalid_request", 400, oauth2.InvalidRequest}, {"invalid_client", 401, oauth2.InvalidClient}, {"invalid_grant", 400, oauth2.InvalidGrant}, {"invalid_scope", 400, oauth2.InvalidScope}, {"invalid_token", 401, oauth2.InvalidToken},
	{"unauthorized_client", 400, oauth2.UnauthorizedClient}, {"unsupported_grant_type", 400, oauth2.UnsupportedGrantType}, {"unsupported_response_type", 400, oauth2.UnsupportedResponseType}, {"unsupported_token_type", 400, oauth2.UnsupportedTokenType}, {"access_denied", 403, oauth2.AccessDenied},
	{"server_error", 500, oauth2.ServerError}, {"temporarily_unavailable", 503, oauth2.TemporarilyUnavailable},
}

func checkErr(x *pbt.X, c errCase) error {
	x.NonTrivial()
	var e *oauth2.Error
	name, status, desc := "", 401, string(c.Desc)
	scope := toScope(c.Sc)
	switch c.N {
	case len(constructors):
		e, desc = oauth2.ProtectedResource(), ""
		scope = nil
	case len(constructors) + 1:
		e, name, status, desc = oauth2.InsufficientScope(scope), "insufficient_scope", 403, ""
	default:
		k := constructors[c.N]
		e, name, status = k.f(desc), k.name, k.status
		scope = nil
	}
	if e.Name != name || e.Status != status || e.Description != desc || len(e.Scope) != len(scope) || len(scope) > 0 && !reflect.DeepEqual(e.Scope, scope) {
		return fmt.Errorf("%s: %+v", name, e)
	}
	rec := NewRecorder()
	if err := oauth2.WriteError(rec, e); err != nil {
		return err
	}
	o := Parse(rec)
	if o.Status != status || o.Error != name || !NoStore(o.Header) || o.JSON == nil || o.Headers != 1 {
		return fmt.Errorf("%s is written as %s", name, o)
	}
	if name == "invalid_client" && (!o.HasChall || o.BadChall != "") {
		return fmt.Errorf("%s is written without a challenge", name)
	}
	if e2 := oauth2.InvalidClient("x"); len(e2.Headers) == 0 {
		return fmt.Errorf("invalid_client lost its headers")
	}
	x.Label("%s", name)
	return nil
}

func TestC13(t *testing.T) {
	errGen := rapid.Custom(func(t *rapid.T) errCase {
		return errCase{pbt.Int(0, len(constructors)+1).Draw(t, "n"), utext().Draw(t, "desc"), rapid.SliceOfN(uword(), 0, 3).Draw(t, "scope")}
	})
	pbt.Check(t, "C13",
		pbt.P("raw-request", 12000, 40, rawGen(), checkRaw),
		hist("C13", 500, 20, Profile{FaultP: 70, Audit: 10}, nil, false),
		pbt.P("errors", 1500, 5, errGen, checkErr),
	)
}
