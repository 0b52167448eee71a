package checks

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"testing"
	"testing/iotest"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
)

type Str = pbt.Str

type kv struct{ K, V Str }

// value draws a parameter value of any kind.
func value() *rapid.Generator[Str] {
	return pbt.OneOf(
		pbt.Pick[Str]("a", "foo", "hello world", "a+b", "100%", "%41", "a=b&c=d", "ü€", "\"q\"", "x;y", "#", "\x00", "\xff\xfe", "  ", "null", "<b>", "a\r\nb"),
		pbt.Bytes(1, 20), pbt.Text(1, 12), pbt.Match(`[ -~]{1,30}`),
		rapid.Map(long(3000), func(n int) Str { return Str(strings.Repeat("v", n)) }),
	)
}

// long draws lengths of up to n, and now and then much longer ones.
func long(n int) *rapid.Generator[int] {
	big := pbt.Pick(2048, 4096, 5000, 10000, 40000, 70000)
	return rapid.Custom(func(t *rapid.T) int {
		if pbt.Chance(t, 4) {
			return big.Draw(t, "")
		}
		return pbt.Int(50, n).Draw(t, "")
	})
}

func maybe(t *rapid.T, p int, g *rapid.Generator[Str]) Str {
	if pbt.Chance(t, p) {
		return g.Draw(t, "")
	}
	return ""
}

// word draws a scope element without white space of any kind.
func word() *rapid.Generator[Str] {
	return pbt.OneOf(ScopeToken(), rapid.Map(pbt.Text(1, 6), func(s Str) Str {
		w := strings.Join(strings.Fields(string(s)), "_")
		if w == "" {
			w = "_"
		}
		return Str(w)
	}))
}

func scopeList() *rapid.Generator[[]Str] {
	return rapid.Custom(func(t *rapid.T) []Str {
		if pbt.Chance(t, 3) {
			return rapid.SliceOfN(word(), 10, 80).Draw(t, "")
		}
		return rapid.SliceOfN(word(), 0, 5).Draw(t, "")
	})
}

func toScope(ss []Str) (out oauth2.Scope) {
	for _, s := range ss {
		out = append(out, string(s))
	}
	return
}

// goodURI draws an absolute URI or path without a fragment.
func goodURI() *rapid.Generator[Str] {
	return rapid.Custom(func(t *rapid.T) Str {
		seg := pbt.OneOf(pbt.Pick[Str]("cb", "callback", "a.b", "a-b_c~d", "x,y", "%2F", "%20", "%C3%BC", "a+b", "@me", "c:d", "!$'()*"), pbt.Match(`[a-zA-Z0-9]{1,6}`))
		path := ""
		for _, s := range rapid.SliceOfN(seg, 0, 4).Draw(t, "path") {
			path += "/" + string(s)
		}
		if pbt.Chance(t, 2) {
			path += "/" + strings.Repeat("p", long(500).Draw(t, "long"))
		}
		q := ""
		if pbt.Chance(t, 50) {
			var ps []string
			el := pbt.OneOf(pbt.Pick[Str]("a", "state", "code", "b+c", "%26", "%3D", "%20x", "é", "", "a/b?c", "k[]", "1"), pbt.Match(`[a-zA-Z0-9.~_-]{1,6}`))
			for _, k := range rapid.SliceOfN(el, 1, 4).Draw(t, "query") {
				s := strings.ReplaceAll(string(k), "é", "%C3%A9")
				if pbt.Chance(t, 80) {
					s += "=" + strings.ReplaceAll(string(el.Draw(t, "v")), "é", "%C3%A9")
				}
				ps = append(ps, s)
			}
			q = "?" + strings.Join(ps, "&")
		}
		switch pbt.Int(0, 5).Draw(t, "form") {
		case 0:
			if path == "" {
				path = "/"
			}
			return Str(path + q)
		case 1:
			if path == "" {
				path = "/cb"
			}
			return Str(string(pbt.Pick[Str]("com.example.app:", "myapp:", "x-y+z.1:").Draw(t, "scheme")) + path + q)
		default:
			host := pbt.Pick[Str]("example.com", "EXAMPLE.com", "localhost", "127.0.0.1", "[::1]", "a.b-c.d", "example.com:8080", "user@example.com", "u:p@h:1", "example.com:80", "example.com:443", "[::1]:443", "[2001:db8::1]:80", "example.com.", "xn--bcher-kva.example").Draw(t, "host")
			return Str(string(pbt.Pick[Str]("http", "https", "app").Draw(t, "scheme")) + "://" + string(host) + path + q)
		}
	})
}

// badURI draws strings that are neither an absolute URI nor a path, or carry a fragment.
func badURI() *rapid.Generator[Str] {
	return rapid.Custom(func(t *rapid.T) Str {
		switch pbt.Int(0, 3).Draw(t, "bad") {
		case 0:
			return goodURI().Draw(t, "") + "#" + Str(pbt.Pick[Str]("", "x", "access_token=1").Draw(t, "frag"))
		case 1:
			return pbt.Match(`[a-z]{1,8}(/[a-z]{1,5})?`).Draw(t, "")
		case 2:
			return pbt.Pick[Str]("://x", "http://[::1", "?a=b", "not a uri", "example.com/cb", ":", "#", "http://h/\x01", "http://h/\x7f", "http://a b/", "1a://x").Draw(t, "")
		default:
			return pbt.Pick[Str](".", "..", "./a", "../a", "a b", "www.example.com", "*x").Draw(t, "")
		}
	})
}

type parseCase struct {
	Fn      string
	Method  Str
	Query   []kv
	Form    []kv
	CT      int
	Auth    int
	ID, Sec Str
	Read    int
	Ext     int `json:",omitempty"`
	Amb     int `json:",omitempty"` // circumstances
	Bad     int `json:",omitempty"` // a segment that cannot be decoded
}

var badSegments = []string{"", "%", "x=%", "x=%4", "x=%zz", "state=%u0041", "%zz=1", "scope=a%2", "state=%%20", "x=%-1"}

// malform adds a segment that cannot be decoded to an encoded form.
func malform(s string, i int) string {
	bad := badSegments[i%len(badSegments)]
	if bad == "" || s == "" {
		return s + bad
	}
	if i >= len(badSegments) {
		return bad + "&" + s
	}
	return s + "&" + bad
}

// badInQuery tells where it is put: where the parameters are looked for.
func (c *parseCase) badInQuery() bool {
	return c.Fn == "authorization" && (c.Method == "GET" || c.CT > 2 || c.Bad%2 == 1)
}

var contentTypes = []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded", "application/json", "", "text/plain",
	// the parameters are written down in the way the type says
	"application/json", "application/json; charset=utf-8", "multipart/form-data; boundary=XyZ", "multipart/mixed; boundary=XyZ", "text/plain", "application/xml", "application/vnd.oauth+json"}

// otherBody writes parameters down as a body of another type.
func otherBody(ct string, ps []kv) string {
	switch {
	case strings.Contains(ct, "json"):
		m := map[string]string{}
		for _, p := range ps {
			if _, ok := m[string(p.K)]; !ok {
				m[string(p.K)] = string(p.V)
			}
		}
		return string(mustJSON(m))
	case strings.HasPrefix(ct, "multipart"):
		b := new(strings.Builder)
		w := multipart.NewWriter(b)
		w.SetBoundary("XyZ")
		for _, p := range ps {
			w.WriteField(string(p.K), string(p.V))
		}
		w.Close()
		return b.String()
	case strings.Contains(ct, "xml"):
		b := new(strings.Builder)
		b.WriteString("<request>")
		for _, p := range ps {
			fmt.Fprintf(b, "<%s>", p.K)
			xml.EscapeText(b, []byte(p.V))
			fmt.Fprintf(b, "</%s>", p.K)
		}
		b.WriteString("</request>")
		return b.String()
	}
	b := new(strings.Builder)
	for _, p := range ps {
		fmt.Fprintf(b, "%s=%s\r\n", p.K, p.V)
	}
	return b.String()
}

func (c *parseCase) header() (string, bool) {
	b := Basic(string(c.ID), string(c.Sec))
	switch c.Auth {
	case 1:
		return b, true
	case 2:
		return "basic" + b[5:], true
	case 3:
		return "Bearer abc", true
	case 4:
		return "Digest " + b[6:], true
	case 5:
		return "Basic " + b[6:] + "!", true
	case 6:
		return Basic("", "")[:6] + "Zm9v", true // no colon
	}
	return "", false
}

func parseGen() *rapid.Generator[parseCase] {
	return rapid.Custom(func(t *rapid.T) parseCase {
		c := parseCase{Fn: pbt.Pick("authorization", "token", "token", "introspection", "revocation").Draw(t, "fn")}
		c.Method = "POST"
		if pbt.Chance(t, 12) {
			c.Method = pbt.OneOf(pbt.Pick[Str]("GET", "PUT", "HEAD", "DELETE", "PATCH", "post", "", "OPTIONS"), pbt.Match(`[A-Z]{1,6}`)).Draw(t, "method")
		}
		if c.Fn == "authorization" && pbt.Chance(t, 45) {
			c.Method = "GET"
		}
		scope := func() Str {
			sep := pbt.Pick(" ", " ", " ", "  ").Draw(t, "sep")
			s := strings.Join(toScope(scopeList().Draw(t, "scope")), sep)
			return Str(pbt.Pick("", "", "", " ").Draw(t, "lead") + s + pbt.Pick("", "", "", " ").Draw(t, "trail"))
		}
		uri := func() Str {
			switch pbt.Int(0, 9).Draw(t, "uri") {
			case 0:
				return badURI().Draw(t, "")
			case 1, 2, 3:
				return goodURI().Draw(t, "")
			case 4:
				return Str(url.QueryEscape(string(badURI().Draw(t, ""))))
			default:
				return Str(url.QueryEscape(string(goodURI().Draw(t, ""))))
			}
		}
		var ps []kv
		add := func(k Str, p int, v func() Str) {
			switch {
			case pbt.Chance(t, p):
				ps = append(ps, kv{k, v()})
			case pbt.Chance(t, 30):
				ps = append(ps, kv{k, ""})
			}
		}
		val := func() Str { return value().Draw(t, "value") }
		switch c.Fn {
		case "authorization":
			add("response_type", 93, func() Str { return pbt.OneOf(pbt.Pick[Str]("code", "token", "id_token"), value()).Draw(t, "") })
			add("client_id", 93, val)
			add("redirect_uri", 93, uri)
			add("scope", 70, scope)
			add("state", 70, val)
		case "token":
			add("grant_type", 93, func() Str {
				return pbt.OneOf(pbt.Pick[Str]("password", "client_credentials", "authorization_code", "refresh_token"), value()).Draw(t, "")
			})
			for _, k := range []Str{"username", "password", "refresh_token", "code"} {
				add(k, 50, val)
			}
			add("redirect_uri", 50, uri)
			add("scope", 50, scope)
			if pbt.Chance(t, 60) {
				add("client_id", 85, val)
				add("client_secret", 80, val)
			}
		default:
			add("token", 92, val)
			add("token_type_hint", 60, func() Str {
				return pbt.OneOf(pbt.Pick[Str]("access_token", "refresh_token"), value()).Draw(t, "")
			})
		}
		if pbt.Chance(t, 30) {
			ps = append(ps, kv{pbt.Pick[Str]("foo", "Token", "CODE", "resource", "").Draw(t, "extra"), val()})
		}
		for n := pbt.Pick(0, 0, 0, 0, 0, 1, 1, 3).Draw(t, "spellings"); n > 0; n-- { // names that are not quite those
			ps = append(ps, kv{spelling().Draw(t, "name"), val()})
		}
		if pbt.Chance(t, 3) { // many that mean nothing
			for n := pbt.Pick(20, 40, 70, 130, 300, 600).Draw(t, "many"); n > 0; n-- {
				ps = append(ps, kv{Str(fmt.Sprintf("x%d", n)), "y"})
			}
		}
		// order
		for i := len(ps) - 1; i > 0; i-- {
			j := pbt.Int(0, i).Draw(t, "perm")
			ps[i], ps[j] = ps[j], ps[i]
		}
		if c.Fn == "authorization" {
			for _, p := range ps {
				if c.Method == "GET" || pbt.Chance(t, 25) {
					c.Query = append(c.Query, p)
				} else {
					c.Form = append(c.Form, p)
				}
			}
			if c.Method == "GET" && pbt.Chance(t, 10) {
				c.Query, c.Form = c.Form, c.Query
			}
		} else {
			c.Form = ps
			if pbt.Chance(t, 25) { // decoys
				for _, k := range []Str{"grant_type", "token", "client_id", "client_secret", "code", "refresh_token", "username", "password", "scope", "token_type_hint"} {
					if pbt.Chance(t, 60) {
						c.Query = append(c.Query, kv{k, "decoy"})
					}
				}
			}
		}
		if pbt.Chance(t, 15) {
			c.CT = pbt.Int(1, len(contentTypes)-1).Draw(t, "ct")
		}
		c.Auth = pbt.Pick(1, 1, 1, 1, 2, 0, 0, 3, 4, 5, 6).Draw(t, "auth")
		c.ID = Str(strings.ReplaceAll(string(maybe(t, 94, value())), ":", "_"))
		c.Sec = maybe(t, 90, value())
		if pbt.Chance(t, 10) {
			c.Read = pbt.Int(1, 4).Draw(t, "read")
		}
		if pbt.Chance(t, 12) {
			c.Ext = pbt.Int(1, 16).Draw(t, "ext")
		}
		if pbt.Chance(t, 15) {
			c.Amb = pbt.Int(1, Circumstances).Draw(t, "circumstances")
		}
		if pbt.Chance(t, 6) {
			c.Bad = pbt.OneOf(pbt.Int(1, len(badSegments)-1), pbt.Int(len(badSegments)+1, 2*len(badSegments)-1)).Draw(t, "bad")
		}
		return c
	})
}

// spelling generates names of parameters that are spelled differently.
func spelling() *rapid.Generator[Str] {
	return rapid.Custom(func(t *rapid.T) Str {
		k := pbt.Pick("grant_type", "response_type", "client_id", "client_secret", "redirect_uri", "scope", "state", "code", "username", "password", "refresh_token", "token", "token_type_hint").Draw(t, "key")
		switch pbt.Int(0, 11).Draw(t, "spelled") {
		case 0:
			k = strings.ToUpper(k)
		case 1:
			k = strings.ToUpper(k[:1]) + k[1:]
		case 2:
			for i, p := 0, strings.Split(k, "_"); i == 0; i++ {
				for j := range p {
					if j > 0 {
						p[j] = strings.ToUpper(p[j][:1]) + p[j][1:]
					}
				}
				k = strings.Join(p, "")
			}
		case 3:
			k = strings.ReplaceAll(k, "_", "-")
		case 4:
			k = strings.ReplaceAll(k, "_", "")
		case 5:
			k += pbt.Pick("[]", "[0]", " ", "\x00", "s", ".", "\t").Draw(t, "suffix")
		case 6:
			k = pbt.Pick(" ", "\ufeff", "x_", "oauth_", "-", "?", "amp;").Draw(t, "prefix") + k
		case 7:
			k = k[:len(k)-1]
		case 8:
			k = map[string]string{"client_id": "client", "client_secret": "secret", "redirect_uri": "redirect_url", "scope": "scopes", "username": "user", "password": "pass", "refresh_token": "token", "token": "access_token"}[k]
		case 9:
			k = strings.ReplaceAll(k, "_", " ")
		case 10:
			k = strings.Replace(k, "s", "\u017f", 1)
		case 11:
			k = strings.ReplaceAll(k, "_", "%5F")
		}
		if k == "token" || k == "code" || k == "scope" || k == "state" {
			k = strings.ToUpper(k)
		}
		return Str(k)
	})
}

func encode(ps []kv) string {
	var out []Pair
	for _, p := range ps {
		out = append(out, Pair{K: string(p.K), V: string(p.V)})
	}
	return EncodeForm(out)
}

func (c *parseCase) request() *http.Request {
	body, query := encode(c.Form), encode(c.Query)
	if c.CT > 5 {
		body = otherBody(contentTypes[c.CT], c.Form)
	}
	if c.Bad > 0 && c.badInQuery() {
		query = malform(query, c.Bad)
	} else if c.Bad > 0 {
		body = malform(body, c.Bad)
	}
	var rd io.Reader = strings.NewReader(body)
	switch c.Read {
	case 1:
		rd = iotest.OneByteReader(rd)
	case 2:
		rd = iotest.DataErrReader(rd)
	case 3:
		rd = io.MultiReader(strings.NewReader(body[:len(body)/2]), iotest.ErrReader(errors.New("broken body")))
	case 4:
		rd = iotest.HalfReader(rd)
	}
	r := &http.Request{Method: string(c.Method), URL: &url.URL{Path: "/oauth2/x", RawQuery: query}, Header: http.Header{}, Body: io.NopCloser(rd), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: int64(len(body)), Host: "server.test", RemoteAddr: "127.0.0.1:1234"}
	if ct := contentTypes[c.CT]; ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	if h, ok := c.header(); ok {
		r.Header.Set("Authorization", h)
	}
	for _, p := range ExtHeaders(c.Ext, "ext.token", "someone") {
		r.Header[p.K] = []string{p.V}
	}
	return Circumstance(r, c.Amb, string(c.ID), c.Read != 3 && c.Bad == 0)
}

// wantInvalid checks a rejection.
func wantInvalid(err error, isNil bool) error {
	e, ok := err.(*oauth2.Error)
	if !ok || e == nil {
		return fmt.Errorf("rejected with %T %v instead of an OAuth2 error", err, err)
	}
	if e.Name != "invalid_request" || e.Status != 400 {
		return fmt.Errorf("rejected with %s (%d) instead of invalid_request (400)", e.Name, e.Status)
	}
	if !isNil {
		return fmt.Errorf("rejected but a request was returned")
	}
	return nil
}

type parsed struct {
	err    error
	isNil  bool
	fields map[string]string
	scope  []string
	uri    string
}

func runParse(fn string, r *http.Request) parsed {
	switch fn {
	case "authorization":
		q, err := oauth2.ParseAuthorizationRequest(r)
		if q == nil {
			return parsed{err: err, isNil: true}
		}
		return parsed{err, false, map[string]string{"response_type": q.ResponseType, "client": q.ClientID, "state": q.State}, q.Scope, q.RedirectURI}
	case "token":
		q, err := oauth2.ParseTokenRequest(r)
		if q == nil {
			return parsed{err: err, isNil: true}
		}
		return parsed{err, false, map[string]string{"grant_type": q.GrantType, "client": q.ClientID, "secret": q.ClientSecret, "username": q.Username, "password": q.Password, "refresh_token": q.RefreshToken, "code": q.Code}, q.Scope, q.RedirectURI}
	case "introspection":
		q, err := oauth2.ParseIntrospectionRequest(r)
		if q == nil {
			return parsed{err: err, isNil: true}
		}
		return parsed{err, false, map[string]string{"token": q.Token, "token_type_hint": q.TokenTypeHint, "client": q.ClientID, "secret": q.ClientSecret}, nil, ""}
	default:
		q, err := oauth2.ParseRevocationRequest(r)
		if q == nil {
			return parsed{err: err, isNil: true}
		}
		return parsed{err, false, map[string]string{"token": q.Token, "token_type_hint": q.TokenTypeHint, "client": q.ClientID, "secret": q.ClientSecret}, nil, ""}
	}
}

func lookup(ps []kv, k string) string {
	for _, p := range ps {
		if string(p.K) == k {
			return string(p.V)
		}
	}
	return ""
}

func words(s string) (out []string) {
	for _, w := range strings.Split(s, " ") {
		if w != "" {
			out = append(out, w)
		}
	}
	return
}

// uriOK judges a redirect URI: 1 valid, -1 invalid, 0 undecided.
func uriOK(s string) int {
	if strings.Contains(s, "#") {
		return -1
	}
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] == 0x7f {
			return -1
		}
	}
	if _, err := url.ParseRequestURI(s); err != nil {
		return -1
	}
	return 1
}

func checkParse(x *pbt.X, c parseCase) error {
	got := runParse(c.Fn, c.request())
	if (got.err == nil) == got.isNil {
		return fmt.Errorf("error %v together with nil=%v", got.err, got.isNil)
	}
	formType := c.CT <= 2
	form := c.Form
	if !formType || c.Method == "GET" {
		form = nil
	}
	get := func(k string) string {
		if c.Fn == "authorization" {
			if v := lookup(form, k); v != "" {
				return v
			}
			return lookup(c.Query, k)
		}
		return lookup(form, k)
	}
	var reject []string // certain reasons to reject
	unsure := c.Read == 3
	want := map[string]string{}
	if !(c.Method == "POST" || c.Fn == "authorization" && c.Method == "GET") {
		reject = append(reject, "method "+string(c.Method))
	}
	need := func(k string) string {
		v := get(k)
		if v == "" {
			reject = append(reject, "missing "+k)
		}
		return v
	}
	basic := c.Auth == 1 || c.Auth == 2
	if c.Read == 3 && formType && c.Method == "POST" {
		reject = append(reject, "unreadable body")
	}
	if c.Bad > 0 {
		reject = append(reject, "malformed form data")
		x.Label("malformed-form")
	}
	switch c.Fn {
	case "authorization":
		want["response_type"], want["client"], want["state"] = need("response_type"), need("client_id"), get("state")
		need("redirect_uri")
	case "token":
		want["grant_type"] = need("grant_type")
		for _, k := range []string{"username", "password", "refresh_token", "code"} {
			want[k] = get(k)
		}
		if basic {
			want["client"], want["secret"] = string(c.ID), string(c.Sec)
		} else {
			want["client"], want["secret"] = get("client_id"), get("client_secret")
			if c.Auth == 5 || c.Auth == 6 {
				unsure = true
			}
		}
		if want["client"] == "" {
			reject = append(reject, "no client identification")
		}
	default:
		want["token"], want["token_type_hint"] = need("token"), get("token_type_hint")
		want["client"], want["secret"] = string(c.ID), string(c.Sec)
		if !basic {
			reject = append(reject, "no basic credentials")
		}
		if c.ID == "" {
			unsure = true
		}
	}
	// the redirect URI, read verbatim and decoded once more
	var rawURI, decURI string
	decOK := true
	if c.Fn == "authorization" || c.Fn == "token" {
		rawURI = get("redirect_uri")
		var err error
		decURI, err = url.QueryUnescape(rawURI)
		decOK = err == nil
	}
	plainURI := decOK && rawURI == decURI
	uriFault := func(s string, ok bool) bool {
		return !ok || s != "" && uriOK(s) < 0 || s == "" && c.Fn == "authorization"
	}
	rejVerb, rejDec := uriFault(rawURI, true), uriFault(decURI, decOK)
	x.Label("%s", c.Fn)
	if c.CT > 5 {
		x.Label("body of another type")
	}
	check := func(rejectURI bool, uri string) error {
		why := reject
		if rejectURI {
			why = append(slices.Clone(why), fmt.Sprintf("redirect URI %q", uri))
		}
		if got.err != nil {
			if err := wantInvalid(got.err, got.isNil); err != nil {
				return err
			}
			if len(why) == 0 && !unsure {
				return fmt.Errorf("valid %s request rejected: %v", c.Fn, got.err)
			}
			x.Label("%s-rejected", c.Fn)
			return nil
		}
		if len(why) > 0 {
			return fmt.Errorf("%s request accepted despite %s", c.Fn, strings.Join(why, ", "))
		}
		x.Label("%s-accepted", c.Fn)
		for k, v := range want {
			if got.fields[k] != v {
				return fmt.Errorf("%s: %s is %q instead of %q", c.Fn, k, got.fields[k], v)
			}
		}
		if c.Fn == "authorization" || c.Fn == "token" {
			if ws := words(get("scope")); !slices.Equal(got.scope, ws) {
				return fmt.Errorf("%s: scope %q instead of %q", c.Fn, got.scope, ws)
			}
			if got.uri != uri {
				return fmt.Errorf("%s: redirect URI %q instead of %q", c.Fn, got.uri, uri)
			}
		}
		return nil
	}
	if len(c.Query)+len(c.Form) > 1 {
		x.NonTrivial()
	}
	if len(reject) == 0 && got.err == nil {
		x.Label("accepted")
	}
	err := check(rejVerb, rawURI)
	if err == nil || plainURI {
		return err
	}
	// the submitted value contains % or +
	if err2 := check(rejDec, decURI); err2 != nil {
		return err2
	}
	x.Label("decoded-twice")
	return pbt.Known("redirect-uri-decoded-twice", "%v", err)
}

func TestC14(t *testing.T) {
	pbt.Check(t, "C14", pbt.P("parse", 20000, 30, parseGen(), checkParse,
		parseCase{Fn: "authorization", Method: "GET", Query: []kv{{"response_type", "code"}, {"client_id", "c"}, {"redirect_uri", "http://example.com/a%2Fb"}}},
		parseCase{Fn: "token", Method: "POST", Form: []kv{{"grant_type", "authorization_code"}, {"client_id", "c"}, {"redirect_uri", "http://example.com/a+b"}}},
	))
}
