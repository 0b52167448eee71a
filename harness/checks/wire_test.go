package checks

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
)

// ---- C15

type buildCase struct {
	Fn       string
	URI      Str
	Grant    Str
	Scope    []Str
	ID, Sec  Str
	User, PW Str
	RT, Code Str
	Redirect Str
	Tok      Str
	Hint     Str
	BadURI   bool
}

func buildGen() *rapid.Generator[buildCase] {
	return rapid.Custom(func(t *rapid.T) buildCase {
		c := buildCase{Fn: pbt.Pick("token", "token", "introspection", "revocation").Draw(t, "fn")}
		host := pbt.Pick[Str]("http://auth.example.com", "https://auth.example.com:8443", "http://127.0.0.1:9", "http://[::1]:80").Draw(t, "host")
		c.URI = host + pbt.Pick[Str]("/oauth2/token", "/", "", "/a%2Fb/token", "/t?tenant=1", "/t?x=%20y&z", "/%C3%BC", "/token/").Draw(t, "path")
		if pbt.Chance(t, 3) {
			c.BadURI = true
			c.URI = pbt.Pick[Str]("://bad", "http://[::1", "http://h/%zz", "http://a\x01b/").Draw(t, "baduri")
		}
		c.ID = value().Draw(t, "id")
		if !pbt.Chance(t, 4) {
			c.ID = Str(strings.ReplaceAll(string(c.ID), ":", "_"))
		}
		c.Sec = maybe(t, 85, value())
		if c.Fn == "token" {
			c.Grant = pbt.OneOf(pbt.Pick[Str]("password", "client_credentials", "authorization_code", "refresh_token"), value()).Draw(t, "grant")
			c.Scope = scopeList().Draw(t, "scope")
			c.User, c.PW, c.RT, c.Code = maybe(t, 50, value()), maybe(t, 50, value()), maybe(t, 50, value()), maybe(t, 50, value())
			c.Redirect = maybe(t, 55, goodURI())
		} else {
			c.Tok = value().Draw(t, "token")
			c.Hint = maybe(t, 60, pbt.OneOf(pbt.Pick[Str]("access_token", "refresh_token"), value()))
			if pbt.Chance(t, 5) {
				c.ID = ""
				c.Sec = "s" + c.Sec
			}
		}
		return c
	})
}

func checkBuild(x *pbt.X, c buildCase) error {
	scope := toScope(c.Scope)
	trq := oauth2.TokenRequest{GrantType: string(c.Grant), Scope: scope, ClientID: string(c.ID), ClientSecret: string(c.Sec), Username: string(c.User), Password: string(c.PW), RefreshToken: string(c.RT), RedirectURI: string(c.Redirect), Code: string(c.Code)}
	irq := oauth2.IntrospectionRequest{Token: string(c.Tok), TokenTypeHint: string(c.Hint), ClientID: string(c.ID), ClientSecret: string(c.Sec)}
	rrq := oauth2.RevocationRequest(irq)
	var req *http.Request
	var err error
	values := func() url.Values {
		switch c.Fn {
		case "token":
			return oauth2.TokenRequestValues(trq)
		case "introspection":
			return oauth2.IntrospectionRequestValues(irq)
		}
		return oauth2.RevocationRequestValues(rrq)
	}
	switch c.Fn {
	case "token":
		req, err = oauth2.BuildTokenRequest(string(c.URI), trq)
	case "introspection":
		req, err = oauth2.BuildIntrospectionRequest(string(c.URI), irq)
	default:
		req, err = oauth2.BuildRevocationRequest(string(c.URI), rrq)
	}
	x.Label("%s", c.Fn)
	if c.BadURI {
		if err == nil || req != nil {
			return fmt.Errorf("unusable URI %q accepted", c.URI)
		}
		x.Label("bad-uri")
		return nil
	}
	if err != nil || req == nil {
		return fmt.Errorf("building failed: %v", err)
	}
	// expected parameters
	want := map[string]string{}
	put := func(k string, v string) {
		if v != "" {
			want[k] = v
		}
	}
	if c.Fn == "token" {
		put("grant_type", string(c.Grant))
		put("scope", strings.Join(scope, " "))
		put("username", string(c.User))
		put("password", string(c.PW))
		put("refresh_token", string(c.RT))
		put("code", string(c.Code))
		put("redirect_uri", string(c.Redirect))
	} else {
		put("token", string(c.Tok))
		put("token_type_hint", string(c.Hint))
	}
	// the form values
	vals := values()
	same := func(what string, got map[string][]string) error {
		for k, v := range got {
			w, ok := want[k]
			if !ok || len(v) != 1 {
				return fmt.Errorf("%s: unexpected parameter %q = %q", what, k, v)
			}
			g := v[0]
			if k == "redirect_uri" && g != w {
				if u, err := url.QueryUnescape(g); err == nil {
					g = u
				}
			}
			if g != w {
				return fmt.Errorf("%s: parameter %q is %q instead of %q", what, k, v[0], w)
			}
		}
		for k := range want {
			if _, ok := got[k]; !ok {
				return fmt.Errorf("%s: parameter %q is missing", what, k)
			}
		}
		return nil
	}
	if err := same("form values", vals); err != nil {
		return err
	}
	// independence: extending or changing one key leaves the others alone
	var keys []string
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := values()
		orig := map[string][]string{}
		for o := range v {
			orig[o] = slices.Clone(v[o])
		}
		v.Add(k, "extended")
		v[k] = append(v[k], "more", "and more")
		v[k][0] = "changed"
		for o := range orig {
			if o != k && !slices.Equal(orig[o], v[o]) {
				return fmt.Errorf("changing %q altered %q from %q to %q", k, o, orig[o], v[o])
			}
		}
		if err := same("form values after others were changed", values()); err != nil {
			return err
		}
	}
	if len(keys) > 1 {
		x.Label("independence")
	}
	// the request
	if req.Method != "POST" {
		return fmt.Errorf("method %q", req.Method)
	}
	wantURL, err := url.Parse(string(c.URI))
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	if req.URL.String() != wantURL.String() {
		return fmt.Errorf("URL %q instead of %q", req.URL, wantURL)
	}
	var wire bytes.Buffer
	if err := req.Write(&wire); err != nil {
		return fmt.Errorf("request cannot be sent: %v", err)
	}
	raw := wire.String()
	sreq, err := http.ReadRequest(bufio.NewReader(&wire))
	if err != nil {
		return fmt.Errorf("request cannot be read back: %v\n%q", err, raw)
	}
	if ct := sreq.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/x-www-form-urlencoded") {
		return fmt.Errorf("content type %q", ct)
	}
	wantPath := wantURL.EscapedPath()
	if wantPath == "" {
		wantPath = "/"
	}
	gotPath := sreq.URL.EscapedPath()
	if gotPath != wantPath || sreq.URL.RawQuery != wantURL.RawQuery || sreq.Host != wantURL.Host {
		return fmt.Errorf("sent to %s %s?%s instead of %s %s?%s", sreq.Host, gotPath, sreq.URL.RawQuery, wantURL.Host, wantPath, wantURL.RawQuery)
	}
	body, err := io.ReadAll(sreq.Body)
	if err != nil {
		return fmt.Errorf("body cannot be read: %v", err)
	}
	dec, err := FormDecode(string(body))
	if err != nil {
		return fmt.Errorf("body is not form encoded: %v", err)
	}
	if err := same("body", dec); err != nil {
		return err
	}
	auths := sreq.Header["Authorization"]
	if (c.ID != "" || c.Sec != "") && !slices.Equal(auths, []string{Basic(string(c.ID), string(c.Sec))}) {
		return fmt.Errorf("authorization header %q", auths)
	}
	// the secret may show up nowhere else
	if s := string(c.Sec); len(s) > 12 {
		other := false
		for _, v := range []Str{c.ID, c.Grant, c.User, c.PW, c.RT, c.Code, c.Redirect, c.Tok, c.Hint, c.URI, Str(strings.Join(scope, " "))} {
			if strings.Contains(string(v), s) {
				other = true
			}
		}
		if !other && (strings.Contains(raw, s) || strings.Contains(raw, url.QueryEscape(s))) {
			return fmt.Errorf("the client secret is sent outside the authorization header:\n%s", raw)
		}
	}
	// parse on the server
	sreq.Body = io.NopCloser(bytes.NewReader(body))
	var back any
	var perr error
	switch c.Fn {
	case "token":
		var q *oauth2.TokenRequest
		if q, perr = oauth2.ParseTokenRequest(sreq); perr == nil {
			if len(q.Scope) == 0 {
				q.Scope = nil
			}
			if c.Redirect == "" {
				x.Label("no-redirect")
			}
			back = *q
		}
	case "introspection":
		var q *oauth2.IntrospectionRequest
		if q, perr = oauth2.ParseIntrospectionRequest(sreq); perr == nil {
			back = *q
		}
	default:
		var q *oauth2.RevocationRequest
		if q, perr = oauth2.ParseRevocationRequest(sreq); perr == nil {
			back = *q
		}
	}
	if perr != nil {
		if c.Fn == "token" && strings.HasPrefix(string(c.ID), ":") {
			return pbt.Known("client-id-with-colon", "the server rejects the built request: %v\n%q", perr, raw)
		}
		return fmt.Errorf("the server rejects the built request: %v\n%q", perr, raw)
	}
	var orig any = trq
	if c.Fn == "introspection" {
		orig = irq
	} else if c.Fn == "revocation" {
		orig = rrq
	}
	x.NonTrivial()
	if !reflect.DeepEqual(orig, back) {
		err := fmt.Errorf("the server understood\n  %#v\ninstead of\n  %#v", back, orig)
		if i := strings.IndexByte(string(c.ID), ':'); i >= 0 {
			alt := func(id, sec *string) {
				*sec = (*id)[i+1:] + ":" + *sec
				*id = (*id)[:i]
			}
			a, b, d := trq, irq, rrq
			alt(&a.ClientID, &a.ClientSecret)
			alt(&b.ClientID, &b.ClientSecret)
			alt(&d.ClientID, &d.ClientSecret)
			if reflect.DeepEqual(back, any(a)) || reflect.DeepEqual(back, any(b)) || reflect.DeepEqual(back, any(d)) {
				return pbt.Known("client-id-with-colon", "%v", err)
			}
		}
		return err
	}
	return nil
}

func TestC15(t *testing.T) {
	pbt.Check(t, "C15", pbt.P("build-send-parse", 12000, 30, buildGen(), checkBuild,
		buildCase{Fn: "introspection", URI: "http://h/i", ID: "a:b", Sec: "c", Tok: "t"},
	))
}

// ---- C16

// wireResponse sends a recorded response through the HTTP wire format.
func wireResponse(rec *Recorder) (*http.Response, error) {
	if rec.Status == 0 {
		return nil, fmt.Errorf("nothing was written")
	}
	if f := Framing(rec.Sent, rec.Body.Len()); f != "" {
		return nil, fmt.Errorf("%s", f)
	}
	res := &http.Response{StatusCode: rec.Status, ProtoMajor: 1, ProtoMinor: 1, Header: rec.Sent.Clone(), Body: io.NopCloser(bytes.NewReader(rec.Body.Bytes())), ContentLength: int64(rec.Body.Len())}
	var b bytes.Buffer
	if err := res.Write(&b); err != nil {
		return nil, err
	}
	return http.ReadResponse(bufio.NewReader(&b), &http.Request{Method: "POST"})
}

type respCase struct {
	Kind      string // token introspection error foreign
	Strs      []Str  // string fields in order
	Scope     []Str
	Num       []int64
	Active    bool
	TT        Str
	Extra     json.RawMessage
	Status    int
	HasExtra  bool
	Headers   []kv
	Preset    bool
	ForeignTy int
	New       bool `json:",omitempty"` // made with the constructor
}

func utext() *rapid.Generator[Str] {
	return pbt.OneOf(
		pbt.Pick[Str]("foo", "hello world", "a\"b\\c", "<b>&amp;", "ü€𝄞", "line\nbreak\ttab", "\u2028\u2029", "\x00\x1f", "null", "{}", "%41+", "\ufffd", "\x7f"),
		rapid.Map(pbt.Text(0, 20), func(s Str) Str { return Str(strings.ToValidUTF8(string(s), "?")) }),
		rapid.Map(long(900), func(n int) Str { return Str(strings.Repeat("z", n)) }),
	)
}

func uword() *rapid.Generator[Str] {
	return rapid.Map(word(), func(s Str) Str { return Str(strings.ToValidUTF8(string(s), "?")) })
}

func jsonValue(depth int) *rapid.Generator[any] {
	leaf := rapid.Custom(func(t *rapid.T) any {
		switch pbt.Int(0, 4).Draw(t, "j") {
		case 0:
			return string(utext().Draw(t, ""))
		case 1:
			return float64(pbt.Int(-100000, 100000).Draw(t, "")) / 8
		case 2:
			return rapid.Bool().Draw(t, "")
		case 3:
			return nil
		}
		return float64(pbt.Int(-9, 9).Draw(t, ""))
	})
	if depth == 0 {
		return leaf
	}
	sub := jsonValue(depth - 1)
	return rapid.Custom(func(t *rapid.T) any {
		switch pbt.Int(0, 3).Draw(t, "n") {
		case 0:
			l := []any{}
			return append(l, rapid.SliceOfN(sub, 0, 3).Draw(t, "")...)
		case 1:
			m := map[string]any{}
			for _, k := range rapid.SliceOfN(utext(), 0, 3).Draw(t, "") {
				m[string(k)] = sub.Draw(t, "")
			}
			return m
		}
		return leaf.Draw(t, "")
	})
}

func respGen() *rapid.Generator[respCase] {
	return rapid.Custom(func(t *rapid.T) respCase {
		c := respCase{Kind: pbt.Pick("token", "introspection", "error", "foreign").Draw(t, "kind"), New: rapid.Bool().Draw(t, "new")}
		for i := 0; i < 8; i++ {
			c.Strs = append(c.Strs, maybe(t, 60, utext()))
		}
		c.Scope = rapid.SliceOfN(uword(), 0, 4).Draw(t, "scope")
		if pbt.Chance(t, 3) {
			c.Scope = rapid.SliceOfN(uword(), 10, 60).Draw(t, "manyscopes")
		}
		num := rapid.Map(pbt.OneOf(pbt.Int(0, 10), pbt.Int(1, 1<<40), pbt.Int(-5, 1<<31), pbt.Int(1<<53, 1<<53+20), pbt.Pick(1<<32, 1<<62+1, -1<<53-1, math.MaxInt64, math.MinInt64)), func(n int) int64 { return int64(n) })
		for i := 0; i < 3; i++ {
			c.Num = append(c.Num, num.Draw(t, "num"))
		}
		c.Active = rapid.Bool().Draw(t, "active")
		c.TT = pbt.OneOf(pbt.Pick[Str]("access_token", "refresh_token", "access_token", "refresh_token", "bearer", "", "Access_Token", "authorization_code", "access_token "), utext()).Draw(t, "tt")
		if c.Kind == "introspection" && pbt.Chance(t, 50) {
			m := map[string]any{}
			for _, k := range rapid.SliceOfN(utext(), 1, 4).Draw(t, "extra") {
				m[string(k)] = jsonValue(2).Draw(t, "v")
			}
			c.Extra, _ = json.Marshal(m)
			c.HasExtra = true
		}
		c.Status = pbt.Pick(400, 401, 403, 400, 404, 405, 409, 418, 429, 451, 499, 500, 501, 503).Draw(t, "status")
		if pbt.Chance(t, 40) {
			c.Headers = append(c.Headers, kv{"WWW-Authenticate", pbt.Pick[Str](`Basic realm="OAuth2"`, `Bearer`, `Foo a="b"`).Draw(t, "h")})
		}
		if pbt.Chance(t, 20) {
			c.Headers = append(c.Headers, kv{"X-Extra", "1"})
		}
		c.Preset = pbt.Chance(t, 20)
		c.ForeignTy = pbt.Int(0, foreignKinds-1).Draw(t, "ft")
		return c
	})
}

type otherError struct{ Name, Description, Status string }

func (o otherError) Error() string { return o.Name + o.Description }

// richError is an error of another type with everything one may ask it for.
type richError struct{ Name, Description, URI, text string }

func (e *richError) Error() string        { return e.text }
func (e *richError) Temporary() bool      { return true }
func (e *richError) Timeout() bool        { return true }
func (e *richError) Status() int          { return 418 }
func (e *richError) StatusCode() int      { return 418 }
func (e *richError) String() string       { return e.text }
func (e *richError) GoString() string     { return e.text }
func (e *richError) Headers() http.Header { return http.Header{"X-Leak": {e.text}} }
func (e *richError) Map() map[string]string {
	return map[string]string{"error": e.text, "error_description": e.text}
}
func (e *richError) Params() string               { return e.text }
func (e *richError) MarshalJSON() ([]byte, error) { return json.Marshal(e.text) }
func (e *richError) MarshalText() ([]byte, error) { return []byte(e.text), nil }
func (e *richError) Is(error) bool                { return true }

const foreignKinds = 16

// foreignErr builds an error that is not an OAuth2 error.
func foreignErr(kind int, secret, more string) error {
	switch kind {
	case 1:
		return otherError{secret, more, "401"}
	case 2:
		return &otherError{secret, more, "400"}
	case 3:
		return &url.Error{Op: secret, URL: secret, Err: io.EOF}
	case 4:
		return &richError{secret, more, more, secret}
	case 5:
		return &net.DNSError{Err: secret, Name: secret, IsTemporary: true, IsTimeout: true, IsNotFound: true}
	case 6:
		return &net.OpError{Op: secret, Net: secret, Err: &richError{secret, more, more, secret}}
	case 7:
		return fmt.Errorf("%s: %w", secret, context.DeadlineExceeded)
	case 8:
		return fmt.Errorf("%s: %w", secret, context.Canceled)
	case 9:
		return &http.MaxBytesError{Limit: 7}
	case 10:
		return &os.PathError{Op: secret, Path: secret, Err: os.ErrNotExist}
	case 11:
		return &json.SyntaxError{Offset: 3}
	case 12:
		return errors.Join(errors.New(secret), errors.New(more))
	case 13:
		return fmt.Errorf("%s: %w", secret, os.ErrPermission)
	case 14:
		return io.ErrUnexpectedEOF
	case 15:
		return &json.UnsupportedValueError{Str: secret}
	}
	return errors.New(secret)
}

// jsonDoc decodes a document without the package's types.
func jsonDoc(b []byte) (map[string]any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return m, nil
}

// sameDoc compares a document with the wanted members; zero members may be
// left out unless they are listed as always present.
func sameDoc(got map[string]any, want map[string]any, always ...string) error {
	norm := func(v any) string {
		switch n := v.(type) {
		case json.Number:
			return "n" + n.String()
		case int64:
			return "n" + strconv.FormatInt(n, 10)
		case bool:
			return "b" + strconv.FormatBool(n)
		case string:
			return "s" + n
		}
		return fmt.Sprintf("?%v", v)
	}
	for k, v := range got {
		if k == "extra" {
			continue
		}
		w, ok := want[k]
		if !ok {
			return fmt.Errorf("unexpected member %q = %v", k, v)
		}
		if norm(v) != norm(w) {
			return fmt.Errorf("member %q is %v instead of %v", k, v, w)
		}
	}
	for k, w := range want {
		if _, ok := got[k]; ok {
			continue
		}
		zero := w == "" || w == int64(0) || w == false
		if !zero || slices.Contains(always, k) {
			return fmt.Errorf("member %q (%v) is missing", k, w)
		}
	}
	return nil
}

func checkResp(x *pbt.X, c respCase) error {
	rec := NewRecorder()
	if c.Preset {
		rec.H.Set("Cache-Control", "max-age=600")
		rec.H.Set("Pragma", "foo")
		rec.H.Set("Content-Type", "text/html")
		for _, h := range c.Headers {
			rec.H.Set(string(h.K), "set before")
		}
	}
	before := rec.H.Clone()
	scope := toScope(c.Scope)
	scopeStr := strings.Join(scope, " ")
	s := func(i int) string { return string(c.Strs[i]) }
	x.Label("%s", c.Kind)
	jsonHeaders := func(status int) (map[string]any, *http.Response, error) {
		if rec.Headers > 1 {
			return nil, nil, fmt.Errorf("status written %d times", rec.Headers)
		}
		if rec.Status != status {
			return nil, nil, fmt.Errorf("status %d instead of %d", rec.Status, status)
		}
		h := rec.Sent
		mt := strings.ToLower(strings.TrimSpace(strings.Split(h.Get("Content-Type"), ";")[0]))
		if mt != "application/json" || len(h["Content-Type"]) != 1 {
			return nil, nil, fmt.Errorf("content type %q", h["Content-Type"])
		}
		if !NoStore(h) {
			return nil, nil, fmt.Errorf("cacheable: %v", h)
		}
		doc, err := jsonDoc(rec.Body.Bytes())
		if err != nil {
			return nil, nil, fmt.Errorf("not a JSON document: %v: %q", err, rec.Body.Bytes())
		}
		res, err := wireResponse(rec)
		return doc, res, err
	}
	x.NonTrivial()
	const limit = 1 << 20
	switch c.Kind {
	case "token":
		r := oauth2.TokenResponse{TokenType: s(0), AccessToken: s(1), ExpiresIn: int(c.Num[0]), RefreshToken: s(2), Scope: scope, State: s(3)}
		orig := r
		if c.New {
			r = *oauth2.NewTokenResponse(s(0), s(1), int(c.Num[0]))
			r.RefreshToken, r.Scope, r.State = s(2), scope, s(3)
			if b := oauth2.NewBearerTokenResponse(s(1), int(c.Num[0])); !strings.EqualFold(b.TokenType, "bearer") || b.AccessToken != s(1) || b.ExpiresIn != int(c.Num[0]) {
				return fmt.Errorf("new bearer token response %+v", *b)
			}
		}
		if err := oauth2.WriteTokenResponse(rec, &r); err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		doc, res, err := jsonHeaders(200)
		if err != nil {
			return err
		}
		if err := sameDoc(doc, map[string]any{"token_type": s(0), "access_token": s(1), "expires_in": c.Num[0], "refresh_token": s(2), "scope": scopeStr, "state": s(3)}, "token_type", "access_token", "expires_in"); err != nil {
			return err
		}
		back, err := oauth2.ParseTokenResponse(res, limit)
		if err != nil {
			return fmt.Errorf("the client cannot read the response: %v", err)
		}
		if len(back.Scope) == 0 {
			back.Scope = orig.Scope
		}
		if !reflect.DeepEqual(*back, orig) {
			return fmt.Errorf("the client read %#v instead of %#v", *back, orig)
		}
	case "introspection":
		r := oauth2.IntrospectionResponse{Active: c.Active, Scope: scope, ClientID: s(0), Username: s(1), TokenType: string(c.TT), ExpiresAt: c.Num[0], IssuedAt: c.Num[1], NotBefore: c.Num[2], Subject: s(2), Audience: s(3), Issuer: s(4), Identifier: s(5)}
		if c.New {
			n := oauth2.NewIntrospectionResponse(c.Active, scope, s(0), s(1), string(c.TT))
			n.ExpiresAt, n.IssuedAt, n.NotBefore, n.Subject, n.Audience, n.Issuer, n.Identifier = r.ExpiresAt, r.IssuedAt, r.NotBefore, r.Subject, r.Audience, r.Issuer, r.Identifier
			want := r
			r = *n
			if !reflect.DeepEqual(r, want) {
				return fmt.Errorf("new introspection response %+v instead of %+v", r, want)
			}
		}
		if c.HasExtra {
			if err := json.Unmarshal(c.Extra, &r.Extra); err != nil {
				return fmt.Errorf("harness: %v", err)
			}
		}
		orig := r
		err := oauth2.WriteIntrospectionResponse(rec, &r)
		if c.Active && c.TT != "access_token" && c.TT != "refresh_token" {
			x.Label("unknown-type")
			if err == nil {
				return fmt.Errorf("active response with token type %q was not refused", c.TT)
			}
			if rec.Status != 0 || rec.Headers != 0 || rec.Body.Len() > 0 || !reflect.DeepEqual(rec.H, before) {
				return fmt.Errorf("refused but something was written")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		doc, res, err := jsonHeaders(200)
		if err != nil {
			return err
		}
		if err := sameDoc(doc, map[string]any{"active": c.Active, "scope": scopeStr, "client_id": s(0), "username": s(1), "token_type": string(c.TT), "exp": c.Num[0], "iat": c.Num[1], "nbf": c.Num[2], "sub": s(2), "aud": s(3), "iss": s(4), "jti": s(5)}, "active"); err != nil {
			return err
		}
		back, err := oauth2.ParseIntrospectionResponse(res, limit)
		if err != nil {
			return fmt.Errorf("the client cannot read the response: %v", err)
		}
		if len(back.Scope) == 0 {
			back.Scope = orig.Scope
		}
		if !reflect.DeepEqual(*back, orig) {
			return fmt.Errorf("the client read %#v instead of %#v", *back, orig)
		}
	case "error":
		e := oauth2.Error{Name: s(0), State: s(1), Scope: scope, Realm: s(2), Description: s(3), URI: s(4), Status: c.Status}
		if len(c.Headers) > 0 {
			e.Headers = map[string]string{}
			for _, h := range c.Headers {
				e.Headers[string(h.K)] = string(h.V)
			}
		}
		orig := e
		if err := oauth2.WriteError(rec, &e); err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		doc, res, err := jsonHeaders(c.Status)
		if err != nil {
			return err
		}
		if err := sameDoc(doc, map[string]any{"error": s(0), "state": s(1), "scope": scopeStr, "realm": s(2), "error_description": s(3), "error_uri": s(4)}, "error"); err != nil {
			return err
		}
		for _, h := range c.Headers {
			if !slices.Equal(rec.Sent.Values(string(h.K)), []string{string(h.V)}) {
				return fmt.Errorf("header %q is %q instead of %q", h.K, rec.Sent.Values(string(h.K)), h.V)
			}
		}
		back, ok := oauth2.ParseRequestError(res, limit).(*oauth2.Error)
		if !ok {
			return fmt.Errorf("the client does not recognise the error")
		}
		if len(back.Scope) == 0 {
			back.Scope = orig.Scope
		}
		orig.Headers = nil
		if !reflect.DeepEqual(*back, orig) {
			return fmt.Errorf("the client read %#v instead of %#v", *back, orig)
		}
	case "foreign":
		secret := "confidential-" + s(0)
		var err error
		err = foreignErr(c.ForeignTy, secret, s(1))
		if werr := oauth2.WriteError(rec, err); werr != nil {
			return fmt.Errorf("writing failed: %v", werr)
		}
		doc, res, jerr := jsonHeaders(500)
		if jerr != nil {
			return jerr
		}
		if err := sameDoc(doc, map[string]any{"error": "server_error"}, "error"); err != nil {
			return err
		}
		for k, v := range rec.Sent {
			if strings.Contains(strings.Join(v, " "), "confidential") {
				return fmt.Errorf("header %s reveals the error: %q", k, v)
			}
		}
		if strings.Contains(rec.Body.String(), "confidential") {
			return fmt.Errorf("the body reveals the error")
		}
		back, ok := oauth2.ParseRequestError(res, limit).(*oauth2.Error)
		if !ok || back.Name != "server_error" || back.Status != 500 || back.Description != "" {
			return fmt.Errorf("the client read %v", back)
		}
	}
	return nil
}

// breakingWriter takes a number of body bytes and then fails.
type breakingWriter struct {
	*Recorder
	left  int
	piece bool // accepts part of the failing write
	broke bool
}

func (w *breakingWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		w.broke = true
		n := 0
		if w.piece {
			n, _ = w.Recorder.Write(b[:w.left])
		}
		w.left = 0
		return n, io.ErrClosedPipe
	}
	w.left -= len(b)
	return w.Recorder.Write(b)
}

type brokenCase struct {
	R     respCase
	After int // share of the body that is taken, in percent
	Piece bool
}

func brokenGen() *rapid.Generator[brokenCase] {
	rg := respGen()
	return rapid.Custom(func(t *rapid.T) brokenCase {
		return brokenCase{rg.Draw(t, "response"), pbt.OneOf(pbt.Pick(0, 99, 100, 101), pbt.Int(0, 110)).Draw(t, "after"), rapid.Bool().Draw(t, "piece")}
	})
}

// checkBroken writes a response to a connection that fails.
func checkBroken(x *pbt.X, c brokenCase) error {
	scope := toScope(c.R.Scope)
	s := func(i int) string { return string(c.R.Strs[i]) }
	write := func(w http.ResponseWriter) error {
		switch c.R.Kind {
		case "token":
			return oauth2.WriteTokenResponse(w, &oauth2.TokenResponse{TokenType: s(0), AccessToken: s(1), ExpiresIn: int(c.R.Num[0]), RefreshToken: s(2), Scope: scope, State: s(3)})
		case "introspection":
			return oauth2.WriteIntrospectionResponse(w, &oauth2.IntrospectionResponse{Active: c.R.Active, Scope: scope, ClientID: s(0), Username: s(1), TokenType: "access_token", ExpiresAt: c.R.Num[0]})
		case "error":
			return oauth2.WriteError(w, &oauth2.Error{Name: s(0), State: s(1), Scope: scope, Description: s(3), Status: c.R.Status})
		}
		return oauth2.WriteError(w, foreignErr(c.R.ForeignTy, s(0), s(1)))
	}
	full := NewRecorder()
	if err := write(full); err != nil {
		return fmt.Errorf("writing failed: %v", err)
	}
	n := full.Body.Len() * c.After / 100
	if c.After > 100 {
		n += 10
	}
	w := &breakingWriter{Recorder: NewRecorder(), left: n, piece: c.Piece}
	err := write(w)
	x.Label("%s-broke:%v", c.R.Kind, w.broke)
	if w.broke {
		x.NonTrivial()
	}
	if w.broke != (err != nil) {
		return fmt.Errorf("a writer that takes %d of %d bytes: the write failed: %v, the error returned is %v", n, full.Body.Len(), w.broke, err)
	}
	if !bytes.HasPrefix(full.Body.Bytes(), w.Body.Bytes()) || w.Recorder.Headers > 1 || w.Status != 0 && w.Status != full.Status {
		return fmt.Errorf("a writer that takes %d of %d bytes got status %d (%d times) and %q", n, full.Body.Len(), w.Status, w.Recorder.Headers, w.Body.Bytes())
	}
	return nil
}

func TestC16(t *testing.T) {
	pbt.Check(t, "C16",
		pbt.P("write-send-parse", 12000, 30, respGen(), checkResp),
		pbt.P("broken-writer", 3000, 30, brokenGen(), checkBroken))
}

// ---- C17

type redirCase struct {
	URI    Str
	Bad    bool
	Frag   bool
	Params []kv
	Via    string // raw, token, code, error
}

func redirGen() *rapid.Generator[redirCase] {
	return rapid.Custom(func(t *rapid.T) redirCase {
		c := redirCase{Via: pbt.Pick("raw", "raw", "token", "code", "error").Draw(t, "via"), Frag: rapid.Bool().Draw(t, "frag")}
		c.URI = goodURI().Draw(t, "uri")
		switch {
		case pbt.Chance(t, 5):
			c.URI = pbt.Pick[Str]("", "foo", "foo/bar", "://x", "http://[::1", "http://h/%zz", "http://h/\x01", "?a=b", "www.example.com/cb", " /x").Draw(t, "bad")
			c.Bad = true
		case pbt.Chance(t, 4):
			sep := "?"
			if strings.Contains(string(c.URI), "?") {
				sep = "&"
			}
			c.URI += Str(sep + string(pbt.Pick[Str]("a;b=c", "x=%zz", "k=1;l=2", "100%", "%").Draw(t, "odd")))
		}
		key := pbt.OneOf(pbt.Pick[Str]("code", "state", "error", "access_token", "scope", "a", "b c", "x&y", "k=", "ü", "#", "a", "token_type"), value())
		n := pbt.Pick(0, 1, 2, 3, 5).Draw(t, "n")
		if c.Via != "raw" {
			n = 8
			key = rapid.Just[Str]("x")
		}
		for i := 0; i < n; i++ {
			c.Params = append(c.Params, kv{key.Draw(t, "k"), maybe(t, 85, value())})
		}
		return c
	})
}

func multiset(m map[string][]string) map[string][]string {
	out := map[string][]string{}
	for k, v := range m {
		s := slices.Clone(v)
		sort.Strings(s)
		out[k] = s
	}
	return out
}

// normTarget lower-cases the scheme, which is case-insensitive.
func normTarget(s string) string {
	i := strings.IndexByte(s, ':')
	if i < 0 || strings.HasPrefix(s, "/") {
		return s
	}
	return strings.ToLower(s[:i]) + s[i:]
}

func checkRedirect(x *pbt.X, c redirCase) error {
	rec := NewRecorder()
	uri := string(c.URI)
	want := map[string]string{}
	frag := c.Frag
	v := func(i int) string { return string(c.Params[i].V) }
	nz := func(k, s string) {
		if s != "" {
			want[k] = s
		}
	}
	if c.Via != "raw" && uri == "" {
		c.Via = "raw"
	}
	x.Label("via-%s", c.Via)
	var err error
	switch c.Via {
	case "raw":
		params := map[string]string{}
		for _, p := range c.Params {
			params[string(p.K)] = string(p.V)
			want[string(p.K)] = string(p.V)
		}
		err = oauth2.WriteRedirect(rec, uri, params, frag)
		if len(params) != len(want) {
			return fmt.Errorf("the parameters passed in were changed")
		}
	case "token":
		frag = true
		r := oauth2.NewTokenResponse(v(0), v(1), len(v(2))).SetRedirect(uri, v(3))
		r.RefreshToken = v(4)
		want["token_type"], want["access_token"], want["expires_in"] = v(0), v(1), strconv.Itoa(len(v(2)))
		nz("state", v(3))
		nz("refresh_token", v(4))
		if c.Frag {
			r.Scope = oauth2.Scope{"foo", "bar"}
			want["scope"] = "foo bar"
		}
		err = oauth2.WriteTokenResponse(rec, r)
	case "code":
		frag = false
		want["code"] = v(0)
		nz("state", v(1))
		err = oauth2.WriteCodeResponse(rec, oauth2.NewCodeResponse(v(0), uri, v(1)))
	case "error":
		e := &oauth2.Error{Name: v(0), Description: v(1), URI: v(2), Realm: v(3), Status: 400}
		if len(v(5)) > 2 {
			e.Scope = oauth2.Scope{"a", "b"}
			want["scope"] = "a b"
		}
		e.SetRedirect(uri, v(4), frag)
		nz("error", v(0))
		nz("error_description", v(1))
		nz("error_uri", v(2))
		nz("realm", v(3))
		nz("state", v(4))
		err = oauth2.WriteError(rec, e)
	}
	if c.Bad {
		x.Label("unusable")
		if err == nil {
			return fmt.Errorf("unusable URI %q accepted: %v", uri, rec.Sent)
		}
		if rec.Status != 0 || rec.Headers != 0 || rec.Body.Len() > 0 || len(rec.H) > 0 {
			return fmt.Errorf("unusable URI %q: error, but something was written: %d %v", uri, rec.Status, rec.H)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("redirect to %q failed: %v", uri, err)
	}
	if rec.Status != 303 || rec.Headers != 1 {
		return fmt.Errorf("status %d written %d times", rec.Status, rec.Headers)
	}
	if !NoStore(rec.Sent) {
		return fmt.Errorf("cacheable: %v", rec.Sent)
	}
	switch p := rec.Sent.Get("Referrer-Policy"); p {
	case "origin", "no-referrer", "same-origin", "strict-origin":
	default:
		return fmt.Errorf("referrer policy %q", p)
	}
	if len(rec.Sent["Location"]) != 1 {
		return fmt.Errorf("locations %q", rec.Sent["Location"])
	}
	loc := rec.Sent["Location"][0]
	for i := 0; i < len(loc); i++ {
		if loc[i] <= ' ' || loc[i] == 0x7f {
			return fmt.Errorf("location %q contains illegal bytes", loc)
		}
	}
	target, query, fragment, _, hasFrag := SplitLocation(loc)
	wt, wq, _, _, _ := SplitLocation(uri)
	if normTarget(target) != normTarget(wt) {
		return fmt.Errorf("location %q changes the target of %q", loc, uri)
	}
	// segments that are not form encoding
	var odd, regular []string
	if wq != "" {
		for _, s := range strings.Split(wq, "&") {
			if _, err := FormDecode(s); err != nil || strings.Contains(s, ";") {
				odd = append(odd, s)
			} else {
				regular = append(regular, s)
			}
		}
	}
	gotSegs := strings.Split(query, "&")
	var missing []string
	for _, s := range odd {
		if i := slices.Index(gotSegs, s); i >= 0 {
			gotSegs = slices.Delete(gotSegs, i, i+1)
		} else {
			missing = append(missing, s)
		}
	}
	q, err := FormDecode(strings.Join(gotSegs, "&"))
	if err != nil {
		return fmt.Errorf("query of %q: %v", loc, err)
	}
	wantQ, err := FormDecode(strings.Join(regular, "&"))
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	f, err := FormDecode(fragment)
	if err != nil {
		return fmt.Errorf("fragment of %q: %v", loc, err)
	}
	wantF := map[string][]string{}
	for k, val := range want {
		if frag {
			wantF[k] = append(wantF[k], val)
		} else {
			wantQ[k] = append(wantQ[k], val)
		}
	}
	if !frag && hasFrag {
		return fmt.Errorf("location %q has a fragment", loc)
	}
	if !reflect.DeepEqual(multiset(q), multiset(wantQ)) {
		return fmt.Errorf("query parameters %q instead of %q in %q for %q", q, wantQ, loc, uri)
	}
	if !reflect.DeepEqual(multiset(f), multiset(wantF)) {
		return fmt.Errorf("fragment parameters %q instead of %q in %q", f, wantF, loc)
	}
	if len(want) > 0 {
		x.NonTrivial()
		if wq != "" {
			x.Label("with-query")
		}
	}
	if len(missing) > 0 {
		return pbt.Known("malformed-query-segment-dropped", "query segments %q of %q are missing in %q", missing, uri, loc)
	}
	return nil
}

func TestC17(t *testing.T) {
	pbt.Check(t, "C17", pbt.P("redirect", 12000, 30, redirGen(), checkRedirect,
		redirCase{URI: "http://example.com/cb?a;b=c", Via: "raw", Params: []kv{{"code", "x"}}},
		redirCase{URI: "http://example.com/cb?x=%zz", Via: "raw", Params: []kv{{"code", "x"}}},
	))
}
