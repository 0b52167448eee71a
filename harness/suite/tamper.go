package suite

import (
	"bufio"
	"bytes"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
)

// Entry is one answered request of a suite run.
type Entry struct {
	N                int
	Path, Method     string
	Form             url.Values
	Resp             *httptest.ResponseRecorder
	PrevGrant        string // grant type of the preceding request
	OnlyResourceYet  bool   // nothing but the resource was requested so far
	UndeclaredEP     bool
	PrevWasTokenPost bool
}

// Proxy forwards to a server, records, and tampers with one response.
type Proxy struct {
	To      http.Handler
	Paths   map[string]string
	Log     []*Entry
	Tamper  *Tamper
	Applied bool
	ValidAT string
	Unknown string
}

// Tamper names one change of one response.
type Tamper struct {
	N    int
	Kind string
	With string
}

func (p *Proxy) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	form := formOf(r)
	e := &Entry{N: len(p.Log), Path: r.URL.Path, Method: r.Method, Form: form, OnlyResourceYet: r.URL.Path == p.Paths["resource"]}
	known := false
	for _, x := range p.Paths {
		known = known || x == r.URL.Path && x != ""
	}
	e.UndeclaredEP = !known
	if len(p.Log) > 0 {
		l := p.Log[len(p.Log)-1]
		e.OnlyResourceYet = e.OnlyResourceYet && l.OnlyResourceYet
		e.PrevWasTokenPost = l.Path == p.Paths["token"]
		e.PrevGrant = l.Form.Get("grant_type")
	}
	rec := httptest.NewRecorder()
	p.To.ServeHTTP(rec, r)
	e.Resp = rec
	p.Log = append(p.Log, e)
	if p.Tamper != nil && p.Tamper.N == e.N {
		p.Applied = true
		rec = p.apply(rec, e)
	}
	for k, v := range rec.Header() {
		w.Header()[k] = v
	}
	w.WriteHeader(rec.Code)
	w.Write(rec.Body.Bytes())
}

func jsonBody(rec *httptest.ResponseRecorder) map[string]any {
	var m map[string]any
	if json.Unmarshal(rec.Body.Bytes(), &m) != nil {
		return nil
	}
	return m
}

// location splits the redirect into its parameters and where they were.
func location(rec *httptest.ResponseRecorder) (base string, v url.Values, frag bool) {
	l := rec.Header().Get("Location")
	if b, f, ok := strings.Cut(l, "#"); ok {
		v, _ = url.ParseQuery(f)
		return b, v, true
	}
	b, q, _ := strings.Cut(l, "?")
	v, _ = url.ParseQuery(q)
	return b, v, false
}

// Options lists the changes of this response that the suite must notice.
func (p *Proxy) Options(e *Entry) (out []Tamper) {
	add := func(kind string, with ...string) {
		for _, w := range with {
			if strings.HasPrefix(kind, "rename") && strings.HasSuffix(kind, ":"+w) {
				continue // not a change
			}
			out = append(out, Tamper{e.N, kind, w})
		}
		if len(with) == 0 {
			out = append(out, Tamper{e.N, kind, ""})
		}
	}
	rec := e.Resp
	if e.Path == p.Paths["authorize"] && e.Method == "GET" {
		add("status", "404")
		return
	}
	for _, st := range []string{"200", "400", "401", "403", "404", "500", "303", "201", "202", "204", "302", "307", "405", "429", "503"} {
		if st != itoa(rec.Code) {
			add("status", st)
		}
	}
	codes := []string{"invalid_request", "invalid_client", "invalid_grant", "invalid_scope", "access_denied", "server_error", "unsupported_token_type", "invalid_token", ""}
	switch {
	case e.Path == p.Paths["resource"]:
		h := rec.Header().Get("WWW-Authenticate")
		if strings.Contains(h, `error="`) && !(e.PrevWasTokenPost && e.PrevGrant == "authorization_code") {
			for _, c := range codes {
				if c != "" && !strings.Contains(h, `"`+c+`"`) {
					add("challenge-error", c)
				}
			}
		}
		if e.OnlyResourceYet && rec.Code >= 400 {
			add("body", "x", " ", "\n", "{}")
		}
	case rec.Code == 303:
		_, v, _ := location(rec)
		if v.Get("error") != "" {
			for _, c := range codes {
				if c != v.Get("error") {
					add("param:error", c)
				}
			}
		}
		if v.Get("state") != "" {
			add("param:state", "", "xy", "xyz ", "XYZ", "xyzz", "wxyz", "xyz,xyz")
		}
		for _, k := range []string{"error", "code", "access_token"} {
			if v.Get(k) != "" {
				add("param:"+k, "")
				add("component")
				add("rename-param:"+k, strings.ToUpper(k))
			}
		}
		if v.Get("access_token") != "" {
			add("param:scope", "", "other", v.Get("scope")+" other", v.Get("scope")+"x", "x"+v.Get("scope"))
			add("param:expires_in", append([]string{"", "1"}, near(v.Get("expires_in"))...)...)
			add("param:token_type", "", "mac", "bearerx", "xbearer")
			for _, k := range []string{"scope", "expires_in", "token_type"} {
				add("rename-param:"+k, strings.ToUpper(k))
			}
			add("param:refresh_token", "something")
		}
	default:
		m := jsonBody(rec)
		if c, _ := m["error"].(string); c != "" {
			for _, x := range codes {
				if x != c {
					add("json:error", x)
				}
			}
			add("retype:error", "list", "object")
			add("rename:error", "Error", "errors", "err")
			add("garble", "short", "list")
		}
		if _, ok := m["access_token"]; ok {
			add("json:access_token", "")
			add("json:refresh_token", "")
			sc, _ := m["scope"].(string)
			add("json:scope", "", "other", sc+" other", sc+"x", "x"+sc)
			n, _ := m["expires_in"].(float64)
			add("json:expires_in", append([]string{"", "1", itoa(int(n)) + ".5"}, near(itoa(int(n)))...)...)
			add("json:token_type", "", "mac", "bearerx", "xbearer")
			for _, k := range []string{"access_token", "refresh_token", "scope", "token_type"} {
				add("retype:"+k, "list", "object", "number")
				add("rename:"+k, strings.ToUpper(k), strings.ReplaceAll(k, "_", ""), strings.ReplaceAll(k, "_", "-"))
			}
			add("retype:expires_in", "string", "list")
			add("rename:expires_in", "Expires_In", "expires")
			add("garble", "short", "list")
		}
		tok := e.Form.Get("token")
		if a, ok := m["active"].(bool); ok && tok != p.Unknown {
			add("active", map[bool]string{true: "", false: "true"}[a])
			if a {
				add("retype:active", "string", "number")
				add("rename:active", "Active", "is_active")
				add("garble", "short", "list")
			}
			if a && tok != p.ValidAT {
				add("json:token_type", "", "other")
			}
		}
	}
	return
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness panic: " + err.Error())
	}
	return b
}

// near returns the neighbours of a number.
func near(s string) []string {
	n := atoi(s)
	return []string{itoa(n + 1), itoa(n - 1), itoa(n * 1000), itoa(-n)}
}

func itoa(n int) string { b, _ := json.Marshal(n); return string(b) }

func atoi(s string) int { var n int; json.Unmarshal([]byte(s), &n); return n }

func (p *Proxy) apply(rec *httptest.ResponseRecorder, e *Entry) *httptest.ResponseRecorder {
	t := p.Tamper
	out := httptest.NewRecorder()
	for k, v := range rec.Header() {
		out.Header()[k] = append([]string(nil), v...)
	}
	out.Code = rec.Code
	body := append([]byte(nil), rec.Body.Bytes()...)
	what, arg, _ := strings.Cut(t.Kind, ":")
	switch what {
	case "status":
		out.Code = atoi(t.With)
	case "challenge-error":
		h := rec.Header().Get("WWW-Authenticate")
		a, b, _ := strings.Cut(h, `error="`)
		_, c, _ := strings.Cut(b, `"`)
		out.Header().Set("WWW-Authenticate", a+`error="`+t.With+`"`+c)
	case "body":
		body = []byte(t.With)
	case "param":
		base, v, frag := location(rec)
		if t.With == "" {
			v.Del(arg)
		} else {
			v.Set(arg, t.With)
		}
		out.Header().Set("Location", base+map[bool]string{true: "#", false: "?"}[frag]+v.Encode())
	case "component":
		base, v, frag := location(rec)
		sep := "#"
		if frag {
			sep = "?"
			if strings.Contains(base, "?") {
				sep = "&"
			}
		}
		out.Header().Set("Location", base+sep+v.Encode())
	case "rename-param":
		base, v, frag := location(rec)
		v.Set(t.With, v.Get(arg))
		v.Del(arg)
		out.Header().Set("Location", base+map[bool]string{true: "#", false: "?"}[frag]+v.Encode())
	case "garble":
		if t.With == "short" {
			body = bytes.TrimRight(body, "\n\t }")
			body = body[:len(body)-1]
		} else {
			body = append(append([]byte("["), body...), ']')
		}
	case "retype", "rename":
		m := jsonBody(rec)
		old := m[arg]
		switch {
		case what == "rename":
			delete(m, arg)
			m[t.With] = old
		case t.With == "list":
			m[arg] = []any{old}
		case t.With == "object":
			m[arg] = map[string]any{"value": old, arg: old}
		case t.With == "number":
			m[arg] = 1
		default:
			m[arg] = strings.Trim(string(mustJSON(old)), `"`)
		}
		body = mustJSON(m)
	case "json", "active":
		m := jsonBody(rec)
		switch {
		case what == "active":
			m["active"] = t.With != ""
		case t.With == "":
			delete(m, arg)
		case arg == "expires_in":
			m[arg] = json.Number(t.With)
		default:
			m[arg] = t.With
		}
		body, _ = json.Marshal(m)
	}
	out.Body = bytes.NewBuffer(body)
	return out
}

// formOf returns what was sent and leaves the request as it was.
func formOf(r *http.Request) url.Values {
	form := url.Values{}
	for k, v := range r.PostForm {
		form[k] = append([]string(nil), v...)
	}
	if r.PostForm == nil && r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body = io.NopCloser(bytes.NewReader(b))
		form, _ = url.ParseQuery(string(b))
	}
	return form
}

// Wire passes on each request the way a connection does: only what is written
// to it arrives.
func Wire(h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c := r.Clone(r.Context())
		if c.Host == "" {
			c.Host = "server.example"
		}
		var buf bytes.Buffer
		if err := c.Write(&buf); err != nil {
			panic("harness panic: " + err.Error())
		}
		x, err := http.ReadRequest(bufio.NewReader(&buf))
		if err != nil {
			panic("harness panic: " + err.Error())
		}
		h.ServeHTTP(w, x)
	})
}
