package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"slices"
	"strings"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
)

type clientCase struct {
	Call     string // token introspect revoke
	Limit    int    // 0: default
	Base, EP Str
	ID, Sec  Str
	Fields   []Str
	Scope    []Str
	Status   int
	CT       int
	Doc      int // kind of body, see body
	Strs     []Str
	RScope   []Str
	Num      int
	Active   bool
	Pad      int // distance of the document's end from the limit; -1: unpadded
	FailAt   int // -1 never
	FailEOF  bool
	Chunk    int
	Err      int // transport error
	Len      bool
	DataEOF  bool
}

var docKinds = []string{"document", "truncated", "trailing garbage", "not json", "empty", "array", "wrong type", "oauth error", "json text", "extra members", "number"}

var clientCTs = []struct {
	h    string
	json int // 1 yes, -1 no
}{
	{"application/json", 1}, {"application/json;charset=UTF-8", 1}, {"application/json; charset=utf-8", 1}, {"Application/JSON", 1},
	{"text/html", -1}, {"", -1}, {"text/plain; charset=utf-8", -1}, {"application/jsonp", -1}, {"application/json-patch+json", -1}, {"text/json", -1}, {"application/problem+json", -1}, {"application/x-www-form-urlencoded", -1}, {"application", -1},
	{"application/json; charset", -1}, {"application/json; =utf-8", -1}, {"application/json; charset=a; charset=b", -1},
}

// atEnd lets reading fail where the document ends.
const atEnd = 1 << 20

func clientGen() *rapid.Generator[clientCase] {
	return rapid.Custom(func(t *rapid.T) clientCase {
		c := clientCase{Call: pbt.Pick("token", "token", "introspect", "introspect", "revoke").Draw(t, "call"), FailAt: -1, Pad: -1}
		c.Limit = pbt.OneOf(pbt.Pick(0, 0, 0, 2048, 4096, 100), pbt.Int(1, 5000)).Draw(t, "limit")
		c.Base = pbt.Pick[Str]("http://auth.example.com", "https://127.0.0.1:8443", "http://h/base", "http://[::1]:1/x%2Fy").Draw(t, "base")
		c.EP = pbt.Pick[Str]("/oauth2/token", "/t", "", "/a/b/c?tenant=1", "/introspect", "/oauth2/revoke").Draw(t, "ep")
		if pbt.Chance(t, 2) {
			c.Base = pbt.Pick[Str]("://bad", "http://h\x01", "http://[::").Draw(t, "bad")
		}
		c.ID = Str(strings.ReplaceAll(string(value().Draw(t, "id")), ":", "_"))
		c.Sec = maybe(t, 80, value())
		for i := 0; i < 6; i++ {
			c.Fields = append(c.Fields, maybe(t, 50, value()))
			c.Strs = append(c.Strs, maybe(t, 65, utext()))
		}
		c.Scope = scopeList().Draw(t, "scope")
		c.RScope = rapid.SliceOfN(uword(), 0, 3).Draw(t, "rscope")
		c.Num = pbt.OneOf(pbt.Int(0, 10), pbt.Int(1, 1<<40)).Draw(t, "num")
		c.Active = rapid.Bool().Draw(t, "active")
		c.Status = 200
		if pbt.Chance(t, 35) {
			c.Status = pbt.OneOf(pbt.Pick(400, 401, 403, 500, 503, 201, 204, 202, 206, 404, 302, 304), pbt.Int(201, 299), pbt.Int(400, 599)).Draw(t, "status")
		}
		if pbt.Chance(t, 15) {
			c.CT = pbt.Int(0, len(clientCTs)-1).Draw(t, "ct")
		}
		c.Doc = 0
		if c.Status != 200 {
			c.Doc = pbt.Pick(7, 7, 7, 7, 0, 2, 3, 4, 5, 8).Draw(t, "doc")
		} else if pbt.Chance(t, 35) {
			c.Doc = pbt.Int(1, len(docKinds)-1).Draw(t, "doc")
		}
		if pbt.Chance(t, 30) {
			c.Pad = pbt.Pick(-2, 0, 1, 2, 3, 50, 100000).Draw(t, "pad") + 3 // document ends Pad-3 bytes after the limit
		}
		if pbt.Chance(t, 12) {
			c.FailAt = pbt.OneOf(pbt.Int(0, 3000), rapid.Just(atEnd)).Draw(t, "failat")
			c.FailEOF = rapid.Bool().Draw(t, "faileof")
		}
		c.Chunk = pbt.Pick(0, 0, 1, 7, 100).Draw(t, "chunk")
		if pbt.Chance(t, 6) {
			c.Err = pbt.Int(1, 3).Draw(t, "err")
		}
		c.Len, c.DataEOF = rapid.Bool().Draw(t, "len"), rapid.Bool().Draw(t, "dataeof")
		return c
	})
}

// trackedBody counts what is read and whether it is closed.
type trackedBody struct {
	data    []byte
	read    int
	closed  int
	after   bool
	chunk   int
	failAt  int
	failErr error
	failed  bool
	dataEOF bool
}

func (b *trackedBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.after = true
	}
	if b.failAt >= 0 && b.read >= b.failAt {
		b.failed = true
		return 0, b.failErr
	}
	n := min(len(p), len(b.data)-b.read)
	if b.chunk > 0 {
		n = min(n, b.chunk)
	}
	if b.failAt >= 0 {
		n = min(n, b.failAt-b.read)
	}
	copy(p, b.data[b.read:b.read+n])
	b.read += n
	if b.failAt < 0 && b.read == len(b.data) && (n == 0 || b.dataEOF) && len(p) > 0 {
		return n, io.EOF
	}
	return n, nil
}

func (b *trackedBody) Close() error { b.closed++; return nil }

type stub struct {
	f func(*http.Request) (*http.Response, error)
}

func (s stub) RoundTrip(r *http.Request) (*http.Response, error) { return s.f(r) }

func checkClient(x *pbt.X, c clientCase) error {
	return callClient(x, c, func(cfg oauth2.ClientConfig, rt http.RoundTripper) *oauth2.Client {
		return oauth2.NewClientWithClient(cfg, &http.Client{Transport: rt})
	})
}

// seqCase is a series of calls on one client; alike calls may get different
// answers.
type seqCase struct {
	EPs   [3]Str
	Calls []clientCase
}

func seqGen() *rapid.Generator[seqCase] {
	cg := clientGen()
	return rapid.Custom(func(t *rapid.T) seqCase {
		c := seqCase{EPs: pbt.Pick([3]Str{"/token", "/introspect", "/revoke"}, [3]Str{"", "", ""}, [3]Str{"/a?x=1", "/a?x=2", "/a?x=3"}).Draw(t, "endpoints")}
		for i := pbt.Int(2, 5).Draw(t, "calls"); i > 0; i-- {
			d := cg.Draw(t, "call")
			d.Base = "http://auth.example.com"
			if n := len(c.Calls); n > 0 {
				d.Limit = c.Calls[0].Limit
				if pbt.Chance(t, 60) { // the same request, a different answer
					p := c.Calls[pbt.Int(0, n-1).Draw(t, "like")]
					d.Call, d.ID, d.Sec, d.Fields, d.Scope = p.Call, p.ID, p.Sec, p.Fields, p.Scope
					if pbt.Chance(t, 30) {
						d.Sec += "x"
					}
				}
			}
			c.Calls = append(c.Calls, d)
		}
		return c
	})
}

func checkSeq(x *pbt.X, c seqCase) error {
	var cl *oauth2.Client
	var now http.RoundTripper
	for i, d := range c.Calls {
		d.EP = c.EPs[map[string]int{"token": 0, "introspect": 1, "revoke": 2}[d.Call]]
		err := callClient(x, d, func(cfg oauth2.ClientConfig, rt http.RoundTripper) *oauth2.Client {
			now = rt
			if cl == nil {
				cfg.TokenEndpoint, cfg.IntrospectionEndpoint, cfg.RevocationEndpoint = string(c.EPs[0]), string(c.EPs[1]), string(c.EPs[2])
				cl = oauth2.NewClientWithClient(cfg, &http.Client{Transport: stub{func(r *http.Request) (*http.Response, error) { return now.RoundTrip(r) }}})
			}
			return cl
		})
		if err != nil {
			return fmt.Errorf("call %d: %v", i+1, err)
		}
	}
	return nil
}

func callClient(x *pbt.X, c clientCase, client func(oauth2.ClientConfig, http.RoundTripper) *oauth2.Client) error {
	limit := c.Limit
	if limit == 0 {
		limit = 2048
	}
	s := func(i int) string { return string(c.Strs[i]) }
	doc := map[string]any{}
	nz := func(k string, v string) {
		if v != "" {
			doc[k] = v
		}
	}
	rscope := toScope(c.RScope)
	var wantTok oauth2.TokenResponse
	var wantIntro oauth2.IntrospectionResponse
	wantErr := oauth2.Error{Status: c.Status}
	typed := "expires_in"
	kind := docKinds[c.Doc]
	switch {
	case kind == "oauth error":
		wantErr = oauth2.Error{Name: "e" + s(0), Description: s(1), URI: s(2), State: s(3), Realm: s(4), Scope: rscope, Status: c.Status}
		doc["error"] = wantErr.Name
		nz("error_description", s(1))
		nz("error_uri", s(2))
		nz("state", s(3))
		nz("realm", s(4))
		nz("scope", strings.Join(rscope, " "))
	case c.Call == "introspect":
		wantIntro = oauth2.IntrospectionResponse{Active: c.Active, Scope: rscope, ClientID: s(0), Username: s(1), TokenType: s(2), ExpiresAt: int64(c.Num), Subject: s(3), Audience: s(4), Issuer: s(5)}
		doc["active"] = c.Active
		nz("scope", strings.Join(rscope, " "))
		nz("client_id", s(0))
		nz("username", s(1))
		nz("token_type", s(2))
		nz("sub", s(3))
		nz("aud", s(4))
		nz("iss", s(5))
		if c.Num != 0 {
			doc["exp"] = c.Num
		}
		typed = "active"
	default:
		wantTok = oauth2.TokenResponse{TokenType: s(0), AccessToken: s(1), RefreshToken: s(2), State: s(3), ExpiresIn: c.Num, Scope: rscope}
		doc["token_type"], doc["access_token"], doc["expires_in"] = s(0), s(1), c.Num
		nz("refresh_token", s(2))
		nz("state", s(3))
		nz("scope", strings.Join(rscope, " "))
	}
	if kind == "extra members" || c.Pad >= 0 && (kind == "document" || kind == "oauth error") {
		doc["x_note"] = ""
		doc["x_other"] = []any{1, map[string]any{"a": nil}}
	}
	if kind == "wrong type" {
		doc[typed] = []any{"x", map[string]any{}, "1"}[c.Num%3]
	}
	body, err := json.Marshal(doc)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	switch kind {
	case "document", "oauth error", "wrong type", "extra members":
		if c.Pad >= 0 && doc["x_note"] != nil {
			want := limit + c.Pad - 3
			if want > len(body) {
				doc["x_note"] = strings.Repeat("n", want-len(body))
				body, _ = json.Marshal(doc)
			}
		}
	case "truncated":
		body = body[:len(body)-1-c.Num%(len(body)-1)]
	case "trailing garbage":
		body = append(body, "x{]}"[c.Num%4])
	case "not json":
		body = []byte([]string{"<html>error</html>", "access_token=abc&token_type=bearer", "Bad Request", "\x00", "{", "{'a':1}"}[c.Num%6])
	case "empty":
		body = nil
	case "array":
		body = []byte("[" + string(body) + "]")
	case "json text":
		body, _ = json.Marshal(string(body))
	case "number":
		body = []byte("42")
	}
	tb := &trackedBody{data: body, chunk: c.Chunk, failAt: c.FailAt, failErr: errors.New("broken connection"), dataEOF: c.DataEOF}
	if c.FailEOF {
		tb.failErr = io.ErrUnexpectedEOF
	}
	if tb.failAt == atEnd {
		tb.failAt = len(body)
	}
	if tb.failAt > len(body) {
		tb.failAt = -1
	}
	var reqs []*http.Request
	var sent []string
	transport := stub{func(r *http.Request) (*http.Response, error) {
		reqs = append(reqs, r)
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		sent = append(sent, string(b))
		if c.Err > 0 {
			return nil, []error{errors.New("connection refused"), io.EOF, io.ErrUnexpectedEOF}[c.Err-1]
		}
		res := &http.Response{StatusCode: c.Status, Status: fmt.Sprintf("%d Stub", c.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: tb, ContentLength: -1, Request: r}
		if c.Len {
			res.ContentLength = int64(len(body))
		}
		if ct := clientCTs[c.CT].h; ct != "" {
			res.Header.Set("Content-Type", ct)
		}
		return res, nil
	}}
	cfg := oauth2.Default(string(c.Base))
	other := "/wrong-endpoint"
	cfg.TokenEndpoint, cfg.IntrospectionEndpoint, cfg.RevocationEndpoint = other, other, other
	cfg.ResponseLimit = int64(c.Limit)
	var call func(cl *oauth2.Client) (any, error)
	want := map[string]string{}
	put := func(k string, v Str) {
		if v != "" {
			want[k] = string(v)
		}
	}
	switch c.Call {
	case "token":
		cfg.TokenEndpoint = string(c.EP)
		put("grant_type", c.Fields[0])
		put("username", c.Fields[1])
		put("password", c.Fields[2])
		put("refresh_token", c.Fields[3])
		put("code", c.Fields[4])
		put("scope", Str(strings.Join(toScope(c.Scope), " ")))
		call = func(cl *oauth2.Client) (any, error) {
			r, err := cl.Authenticate(oauth2.TokenRequest{GrantType: string(c.Fields[0]), Username: string(c.Fields[1]), Password: string(c.Fields[2]), RefreshToken: string(c.Fields[3]), Code: string(c.Fields[4]), Scope: toScope(c.Scope), ClientID: string(c.ID), ClientSecret: string(c.Sec)})
			if r == nil {
				return nil, err
			}
			return *r, err
		}
	default:
		put("token", c.Fields[0])
		put("token_type_hint", c.Fields[1])
		if c.Call == "introspect" {
			cfg.IntrospectionEndpoint = string(c.EP)
			call = func(cl *oauth2.Client) (any, error) {
				r, err := cl.Introspect(oauth2.IntrospectionRequest{Token: string(c.Fields[0]), TokenTypeHint: string(c.Fields[1]), ClientID: string(c.ID), ClientSecret: string(c.Sec)})
				if r == nil {
					return nil, err
				}
				return *r, err
			}
		} else {
			cfg.RevocationEndpoint = string(c.EP)
			call = func(cl *oauth2.Client) (any, error) {
				return nil, cl.Revoke(oauth2.RevocationRequest{Token: string(c.Fields[0]), TokenTypeHint: string(c.Fields[1]), ClientID: string(c.ID), ClientSecret: string(c.Sec)})
			}
		}
	}
	res, cerr := call(client(cfg, transport))
	x.Label("%s", c.Call)
	if cerr != nil && res != nil {
		return fmt.Errorf("result %+v together with error %v", res, cerr)
	}
	if strings.Contains(string(c.Base), "bad") || strings.ContainsAny(string(c.Base), "\x01") || c.Base == "http://[::" {
		x.Label("bad-uri")
		if cerr == nil || len(reqs) > 0 {
			return fmt.Errorf("unusable endpoint: error %v, %d requests", cerr, len(reqs))
		}
		return nil
	}
	// the request
	if len(reqs) != 1 {
		return fmt.Errorf("%d requests were sent", len(reqs))
	}
	q := reqs[0]
	if q.Method != "POST" || q.URL.String() != string(c.Base+c.EP) {
		return fmt.Errorf("sent %s %s instead of POST %s", q.Method, q.URL, c.Base+c.EP)
	}
	if !strings.HasPrefix(q.Header.Get("Content-Type"), "application/x-www-form-urlencoded") {
		return fmt.Errorf("content type %q", q.Header.Get("Content-Type"))
	}
	if a := q.Header["Authorization"]; (c.ID != "" || c.Sec != "") && !slices.Equal(a, []string{Basic(string(c.ID), string(c.Sec))}) {
		return fmt.Errorf("authorization %q", a)
	}
	form, err := FormDecode(sent[0])
	if err != nil {
		return fmt.Errorf("body %q: %v", sent[0], err)
	}
	for k, v := range want {
		if !slices.Equal(form[k], []string{v}) {
			return fmt.Errorf("parameter %s is %q instead of %q", k, form[k], v)
		}
	}
	if len(form) != len(want) {
		return fmt.Errorf("parameters %q instead of %q", form, want)
	}
	if c.Err > 0 {
		x.Label("transport-error")
		if cerr == nil {
			return fmt.Errorf("transport failure reported as success")
		}
		return nil
	}
	// the body
	if tb.closed == 0 {
		return fmt.Errorf("the response body was not closed (status %d, error %v)", c.Status, cerr)
	}
	if tb.after {
		return fmt.Errorf("the response body was read after it was closed")
	}
	if tb.read > limit {
		return fmt.Errorf("%d bytes of the response were read with a limit of %d", tb.read, limit)
	}
	x.NonTrivial()
	fits := len(body) <= limit
	cut := tb.failAt >= 0 && tb.failAt < min(len(body), limit) // breaks inside the part that counts
	if c.Status == 200 && tb.failAt == len(body) && len(body) < limit {
		cut = true // the document is there but the answer is not complete
	}
	edge := tb.failAt >= 0 && !cut
	desc := fmt.Sprintf("status %d, content type %q, body kind %q of %d bytes, limit %d, read failure at %d", c.Status, clientCTs[c.CT].h, kind, len(body), limit, tb.failAt)
	if c.Status == 200 {
		if c.Call == "revoke" {
			x.Label("revoke-200")
			if cerr != nil {
				return fmt.Errorf("revocation answered with 200 reported as %v", cerr)
			}
			return nil
		}
		good := clientCTs[c.CT].json == 1 && (kind == "document" || kind == "extra members") && fits && !cut
		if kind == "oauth error" && clientCTs[c.CT].json == 1 && fits && !cut {
			return nil // an error document with status 200 is undecided
		}
		if kind == "trailing garbage" && len(body)-1 == limit && clientCTs[c.CT].json == 1 && cerr == nil {
			return nil // the garbage lies beyond what may be read
		}
		if !good {
			x.Label("200-bad-%s", kind)
			if cerr == nil {
				return fmt.Errorf("reported as success: %s", desc)
			}
			return nil
		}
		if edge {
			x.Label("read-failure-at-end")
			if cerr != nil {
				return nil
			}
		}
		x.Label("success")
		if len(body) >= limit-2 {
			x.Label("success-at-limit")
		}
		if cerr != nil {
			return fmt.Errorf("genuine success reported as error %v: %s", cerr, desc)
		}
		if t, ok := res.(oauth2.TokenResponse); ok {
			if len(t.Scope) == 0 {
				t.Scope = wantTok.Scope
			}
			if !reflect.DeepEqual(t, wantTok) {
				return fmt.Errorf("result %+v instead of %+v", t, wantTok)
			}
			return nil
		}
		t := res.(oauth2.IntrospectionResponse)
		if len(t.Scope) == 0 {
			t.Scope = wantIntro.Scope
		}
		if !reflect.DeepEqual(t, wantIntro) {
			return fmt.Errorf("result %+v instead of %+v", t, wantIntro)
		}
		return nil
	}
	if cerr == nil {
		return fmt.Errorf("reported as success: %s", desc)
	}
	oe, isOAuth := cerr.(*oauth2.Error)
	if isOAuth && oe.Status != c.Status {
		return fmt.Errorf("the OAuth2 error carries status %d: %s", oe.Status, desc)
	}
	switch {
	case kind == "oauth error" && fits && !cut:
		x.Label("oauth-error")
		if edge && !isOAuth || clientCTs[c.CT].json != 1 && !isOAuth {
			return nil
		}
		if !isOAuth {
			return fmt.Errorf("OAuth2 error lost: %v: %s", cerr, desc)
		}
		g := *oe
		if len(g.Scope) == 0 {
			g.Scope = wantErr.Scope
		}
		if !reflect.DeepEqual(g, wantErr) {
			return fmt.Errorf("OAuth2 error %+v instead of %+v", g, wantErr)
		}
	case kind == "not json" || kind == "empty" || kind == "array" || kind == "number" || kind == "json text" || !fits && kind == "oauth error" || cut && kind == "oauth error":
		x.Label("other-error")
		if isOAuth {
			return fmt.Errorf("invented OAuth2 error %+v: %s", *oe, desc)
		}
		if !strings.Contains(cerr.Error(), fmt.Sprint(c.Status)) {
			return fmt.Errorf("error %q does not name the status: %s", cerr, desc)
		}
	}
	return nil
}

func TestC23(t *testing.T) {
	pbt.Check(t, "C23",
		pbt.P("call", 12000, 30, clientGen(), checkClient),
		pbt.P("slow", 2500, 30, slowGen(), checkSlow),
		pbt.P("sequence", 3000, 30, seqGen(), checkSeq))
}

// slowCase is a call over a slow connection; Wait is before the answer, Drip
// before the end of its body and Patience the time the caller's HTTP client
// allows (0: any).
type slowCase struct {
	C                    clientCase
	Wait, Drip, Patience int // milliseconds
}

func slowGen() *rapid.Generator[slowCase] {
	cg := clientGen()
	d := pbt.OneOf(pbt.Pick(0, 1, 100, 5_500, 10_500, 31_000, 61_000, 301_000, 3_601_000, 90_000_000), pbt.Int(0, 200_000))
	return rapid.Custom(func(t *rapid.T) slowCase {
		c := slowCase{C: cg.Draw(t, "call"), Wait: d.Draw(t, "wait"), Drip: d.Draw(t, "drip")}
		c.C.Base = "http://auth.example.com"
		switch pbt.Int(0, 3).Draw(t, "patience") {
		case 0: // enough
			c.Patience = c.Wait + c.Drip + pbt.Pick(2, 1000, 100_000).Draw(t, "more")
		case 1: // not enough
			c.Patience = 1 + pbt.Int(0, 100).Draw(t, "percent")*c.Wait/100
		}
		return c
	})
}

// slowTransport answers late, unless the request is given up before.
type slowTransport struct {
	http.RoundTripper
	c slowCase
}

func (s slowTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := linger(r, s.c.Wait); err != nil {
		return nil, err
	}
	res, err := s.RoundTripper.RoundTrip(r)
	if err == nil {
		res.Body = &slowBody{ReadCloser: res.Body, r: r, ms: s.c.Drip}
	}
	return res, err
}

func linger(r *http.Request, ms int) error {
	select {
	case <-time.After(time.Duration(ms) * time.Millisecond):
		return nil
	case <-r.Context().Done():
		return r.Context().Err()
	}
}

type slowBody struct {
	io.ReadCloser
	r    *http.Request
	ms   int
	done bool
}

func (b *slowBody) Read(p []byte) (int, error) {
	if !b.done {
		b.done = true
		if err := linger(b.r, b.ms); err != nil {
			return 0, err
		}
	}
	return b.ReadCloser.Read(p)
}

func checkSlow(x *pbt.X, c slowCase) (err error) {
	Bubble(x.T, func() {
		hc := &http.Client{Timeout: time.Duration(c.Patience) * time.Millisecond}
		if c.Patience == 0 || c.Wait+c.Drip < c.Patience {
			if c.Wait+c.Drip > 60_000 {
				x.NonTrivial()
			}
			var before http.Client
			err = callClient(x, c.C, func(cfg oauth2.ClientConfig, rt http.RoundTripper) *oauth2.Client {
				hc.Transport = slowTransport{rt, c}
				before = *hc
				return oauth2.NewClientWithClient(cfg, hc)
			})
			if err != nil {
				err = fmt.Errorf("with an answer after %d ms and its body %d ms later (allowed are %d): %v", c.Wait, c.Drip, c.Patience, err)
			} else if hc.Timeout != before.Timeout || hc.Jar != nil || hc.CheckRedirect != nil {
				err = fmt.Errorf("the caller's HTTP client became %+v", *hc)
			}
			return
		}
		if c.Wait <= c.Patience {
			return
		}
		x.Label("given-up")
		x.NonTrivial()
		hc.Transport = slowTransport{stub{func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(`{"token_type":"bearer","access_token":"a","active":true}`)), ContentLength: -1, Request: r}, nil
		}}, c}
		cl := oauth2.NewClientWithClient(oauth2.Default("http://auth.example.com"), hc)
		start := time.Now()
		var cerr error
		switch c.C.Call {
		case "token":
			_, cerr = cl.Authenticate(oauth2.TokenRequest{GrantType: "password"})
		case "introspect":
			_, cerr = cl.Introspect(oauth2.IntrospectionRequest{Token: "t"})
		default:
			cerr = cl.Revoke(oauth2.RevocationRequest{Token: "t"})
		}
		if cerr == nil {
			err = fmt.Errorf("success although the answer takes %d ms and the caller's HTTP client allows %d", c.Wait, c.Patience)
		} else if d := time.Since(start); d >= time.Duration(c.Wait)*time.Millisecond {
			err = fmt.Errorf("the call took %v although the caller's HTTP client allows %d ms", d, c.Patience)
		}
	})
	return err
}
