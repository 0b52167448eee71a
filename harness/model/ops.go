package model

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"slices"
	"strings"
	"time"

	"pgregory.net/rapid"

	. "aaverif/pbt"
)

// Ref is a symbolic reference to a token or code.
type Ref struct {
	Kind string `json:",omitempty"` // a, r, c: issued; u: signed but never issued; f: foreign secret; g: garbage; e: empty
	Sel  int    `json:",omitempty"` // 0 any, 1 usable, 2 dead, 3 expired
	N    int    `json:",omitempty"`
	Mut  int    `json:",omitempty"`
	Far  bool   `json:",omitempty"` // counted from the oldest one on
}

// Op is a symbolic operation; zero values mean the valid default.
type Op struct {
	K         string // authorize token introspect revoke access adv
	Grant     string `json:",omitempty"`
	RT        string `json:",omitempty"`
	C         int    `json:",omitempty"` // 0: owner of Tok or first client; k: client k-1
	ID        int    `json:",omitempty"`
	Sec       int    `json:",omitempty"`
	Auth      int    `json:",omitempty"`
	U         int    `json:",omitempty"`
	UM        int    `json:",omitempty"`
	PM        int    `json:",omitempty"`
	RM        int    `json:",omitempty"`
	Enc       int    `json:",omitempty"`
	Scope     []int  `json:",omitempty"`
	ScopeForm int    `json:",omitempty"`
	State     Str    `json:",omitempty"`
	Place     int    `json:",omitempty"`
	Tok       Ref
	Hint      int  `json:",omitempty"`
	Method    int  `json:",omitempty"`
	Hdr       int  `json:",omitempty"`
	D         int  `json:",omitempty"`
	Off       int  `json:",omitempty"`
	Audit     bool `json:",omitempty"`
	Rep       int  `json:",omitempty"` // how often it is done again
	Ext       int  `json:",omitempty"` // headers that do not matter
	Amb       int  `json:",omitempty"` // circumstances that do not matter
	Par       int  `json:",omitempty"` // parameters that do not matter
	Slow      int  `json:",omitempty"` // the body takes its time
}

// History is a generated case.
type History struct {
	W   World
	Ops []Op
}

var methods = []string{"", "GET", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS", "post", "POST"}

func mod(n, m int) int {
	if m <= 0 {
		return 0
	}
	n %= m
	if n < 0 {
		n += m
	}
	return n
}

func flipCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
			return string(b)
		}
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
			return string(b)
		}
	}
	return s + "X"
}

func dropLast(s string) string {
	if s == "" {
		return "x"
	}
	return s[:len(s)-1]
}

// pick finds the referenced credential.
func (m *Model) pick(r Ref, now time.Time) *Cred {
	var all, sel []*Cred
	for _, c := range m.Creds {
		if string(c.Kind) != r.Kind {
			continue
		}
		all = append(all, c)
		exp := now.After(c.Expires)
		switch r.Sel {
		case 1:
			if c.Dead == "" && !exp {
				sel = append(sel, c)
			}
		case 2:
			if c.Dead != "" {
				sel = append(sel, c)
			}
		case 3:
			if exp {
				sel = append(sel, c)
			}
		}
	}
	if len(sel) > 0 {
		all = sel
	}
	if len(all) == 0 {
		return nil
	}
	if r.Far {
		return all[mod(r.N, len(all))]
	}
	return all[mod(len(all)-1-mod(r.N, 64), len(all))]
}

// tokenString renders a reference; skip means the case is ambiguous.
func (m *Model) tokenString(r Ref, now time.Time) (s string, c *Cred, skip bool) {
	sec := []byte(m.W.Secret)
	key := []byte(strings.Repeat("k", 15) + string(rune('a'+mod(r.N, 26))))
	other := append([]byte("other-"), sec...)
	switch r.Kind {
	case "a", "r", "c":
		c = m.pick(r, now)
		if c == nil {
			s = Sign(sec, key)
		} else {
			s = c.Str
		}
	case "f":
		s = Sign(other, key)
	case "g":
		s = []string{"garbage", "a.b", ".", "..", "a", "%", "not a token", "a.b.c", "YWJj.ZGVm", "null"}[mod(r.N, 10)]
	case "s": // the other server's
		s = Sign(sec, key)
		if m.Other != nil && len(m.Other.Creds) > 0 {
			n := len(m.Other.Creds)
			s = m.Other.Creds[mod(n-1-mod(r.N, 64), n)].Str
			m.Stats["stranger"]++
		}
	case "e":
		return "", nil, false
	default:
		s = Sign(sec, key)
	}
	if r.Mut != 0 && strings.Count(s, ".") == 1 {
		e := base64.RawURLEncoding
		ks, gs, _ := strings.Cut(s, ".")
		k, _ := e.DecodeString(ks)
		g, _ := e.DecodeString(gs)
		flip := func(b []byte) []byte {
			b = append([]byte(nil), b...)
			if len(b) > 0 {
				b[mod(r.N, len(b))] ^= 1 << mod(r.N/7, 8)
			}
			return b
		}
		switch r.Mut {
		case 1:
			s = e.EncodeToString(flip(k)) + "." + gs
		case 2:
			s = ks + "." + e.EncodeToString(flip(g))
		case 3:
			if len(g) > 0 {
				g = g[:len(g)-1]
			}
			s = ks + "." + e.EncodeToString(g)
		case 4:
			s = ks + "." + e.EncodeToString(append(g, 0))
		case 5:
			s = gs + "." + ks
		case 6:
			s = s + "." + gs
		case 7:
			s = ks
		case 8:
			s = ks + "."
		case 9:
			s = " " + s
		case 10:
			s = strings.ToUpper(s)
		case 11:
			if len(g) > 16 {
				g = g[:16]
			}
			s = ks + "." + e.EncodeToString(g)
		case 12:
			o := m.pick(Ref{Kind: "a", N: r.N}, now)
			if o != nil {
				_, og, _ := strings.Cut(o.Str, ".")
				s = ks + "." + og
			}
		case 13:
			s = Sign(other, k)
		case 14:
			s = Sign(nil, k)
		case 15:
			s = s + "="
		case 16:
			s = "." + gs
		case 17:
			s = strings.TrimSuffix(s, s[len(s)-1:])
		case 18:
			if len(k) > 0 {
				s = e.EncodeToString(k[:len(k)-1]) + "." + gs
			}
		case 19:
			s = e.EncodeToString(append(k, 0)) + "." + gs
		}
	}
	if _, signed, canonical := Verify(sec, s); signed && !canonical {
		return s, nil, true
	}
	c = m.find(s)
	return s, c, false
}

func redirectMut(w *World, uri string, kind, n int) string {
	path, q, has := strings.Cut(uri, "?")
	switch kind {
	case 1:
		return string(w.Clients[mod(n, len(w.Clients))].Redirect)
	case 2:
		return uri + "x"
	case 3:
		return uri + "/"
	case 4:
		return strings.ToUpper(uri)
	case 5:
		return dropLast(uri)
	case 6:
		if has {
			return uri + "&x=1"
		}
		return uri + "?x=1"
	case 7:
		return ""
	case 8:
		return uri + "#frag"
	case 9:
		if strings.HasPrefix(uri, "http:") {
			return "https:" + uri[5:]
		}
		if strings.HasPrefix(uri, "https:") {
			return "http:" + uri[6:]
		}
		return "x" + uri
	case 10:
		if has {
			return path
		}
		return uri + "?"
	case 11:
		return "not a uri"
	case 12:
		return path + "/sub" + strings.Repeat("?"+q, b2i(has))
	case 13:
		return flipCase(uri)
	case 14:
		return "https://evil.example/?" + uri
	case 15:
		return uri + "/../evil"
	case 17: // another port
		if u, err := url.Parse(uri); err == nil && u.Host != "" {
			port := []string{":8081", ":80", ":443", ":1", ""}[mod(n, 5)]
			u.Host = strings.TrimSuffix(u.Host, ":"+u.Port()) + port
			return u.String()
		}
		return uri + ":80"
	case 18: // the same in another spelling
		i := len(path) - 1 - mod(n, 5)
		if i > 12 && (path[i] >= 'a' && path[i] <= 'z') {
			return fmt.Sprintf("%s%%%02X%s", path[:i], path[i], uri[i+1:])
		}
		return uri + "%20"
	case 19: // another host
		if i := strings.Index(uri, "://"); i > 0 {
			return uri[:i+3] + []string{"sub.", "evil.example/", "evil.example\\@", "user:pw@", "x"}[mod(n, 5)] + uri[i+3:]
		}
		return "/" + uri
	case 20: // other query
		if has {
			if a, b, two := strings.Cut(q, "&"); two {
				return path + "?" + b + "&" + a
			}
			return uri + "2"
		}
		return uri + "?a=b&c=d"
	case 23: // part of it
		if a, b, two := strings.Cut(uri, ","); two {
			if strings.Contains(b, ":") && n%2 == 0 {
				return b
			}
			return a
		}
		return uri + ",x"
	case 21:
		if u, err := url.Parse(uri); err == nil && u.Host != "" && u.Port() == "" {
			u.Host += "."
			return u.String()
		}
		return uri + "."
	case 22:
		return path + ";p=1" + strings.Repeat("?"+q, b2i(has))
	}
	return uri
}

// ExtHeaders are headers that no endpoint may care about.
func ExtHeaders(n int, tok, other string) []Pair {
	return [][]Pair{
		nil,
		{{"Origin", "https://evil.example"}, {"Access-Control-Request-Method", "POST"}, {"Access-Control-Request-Headers", "authorization"}},
		{{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-Websocket-Protocol", "bearer, " + tok}},
		{{"X-Requested-With", "XMLHttpRequest"}},
		{{"X-Http-Method-Override", "GET"}, {"X-Http-Method", "GET"}},
		{{"X-Http-Method-Override", "POST"}},
		{{"X-Forwarded-For", "127.0.0.1"}, {"X-Real-Ip", "127.0.0.1"}, {"Forwarded", "for=127.0.0.1;proto=https"}},
		{{"X-Forwarded-Proto", "https"}, {"X-Forwarded-Host", "evil.example"}, {"X-Forwarded-User", other}, {"Remote-User", other}},
		{{"Cookie", "access_token=" + tok + "; token=" + tok + "; session=1"}},
		{{"X-Access-Token", tok}, {"Access-Token", tok}, {"X-Auth-Token", tok}, {"Proxy-Authorization", "Bearer " + tok}},
		{{"Accept", "text/html"}, {"Accept-Language", "de"}, {"Accept-Charset", "iso-8859-1"}},
		{{"Accept", "application/x-www-form-urlencoded"}},
		{{"Accept", "application/jwt"}},
		{{"User-Agent", "curl/8"}, {"Referer", "https://evil.example/cb"}},
		{{"Cache-Control", "no-cache"}, {"If-None-Match", "*"}, {"If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}},
		{{"Range", "bytes=0-10"}, {"Expect", "100-continue"}, {"Te", "trailers"}},
		{{"X-Scope", "*"}, {"X-Client-Id", other}, {"X-User", other}, {"X-Debug", "1"}},
	}[mod(n, 17)]
}

// extParams are parameters that the endpoint does not know.
func extParams(k, grant string, n int, w *World, tok, code string, us, ou User) []Pair {
	o := string(ou.Name)
	var all [][]Pair
	switch k {
	case "authorize":
		all = [][]Pair{
			{{"response_mode", "query"}}, {{"response_mode", "fragment"}}, {{"response_mode", "form_post"}}, {{"prompt", "none"}}, {{"nonce", "n"}, {"max_age", "0"}},
			{{"code_challenge", "x"}, {"code_challenge_method", "plain"}}, {{"login_hint", o}, {"user", o}, {"sub", o}}, {{"access_type", "offline"}, {"approval_prompt", "force"}},
			{{"expires_in", "999999999"}, {"token_type", "mac"}}, {{"grant_type", "password"}, {"code", "x"}, {"token", tok}}, {{"client_secret", "x"}, {"refresh_token", tok}}, {{"error", "access_denied"}, {"_method", "GET"}},
			{{"access_token", tok}}, {{"decision", "allow"}, {"approved", "true"}}, {{"audience", "x"}, {"resource", "https://x.example"}},
		}
	default:
		all = [][]Pair{
			{{"state", "xyz"}}, {{"response_type", "token"}}, {{"client_assertion", tok}, {"client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}}, {{"assertion", tok}},
			{{"expires_in", "999999999"}}, {{"code_verifier", "x"}}, {{"audience", "x"}, {"resource", "https://x.example"}}, {{"access_token", tok}}, {{"active", "true"}, {"exp", "9999999999"}}, {{"_method", "GET"}},
			{{"user", o}, {"sub", o}, {"user_id", o}},
		}
		if k != "token" {
			all = append(all, []Pair{{"grant_type", "password"}}, []Pair{{"scope", "*"}}, []Pair{{"refresh_token", tok}, {"code", tok}}, []Pair{{"username", o}, {"password", string(ou.Password)}})
		} else {
			all = append(all, []Pair{{"token", tok}, {"token_type_hint", "foo"}})
			if grant != "password" && grant != "" {
				all = append(all, []Pair{{"username", string(us.Name)}, {"password", string(us.Password)}}, []Pair{{"username", o}})
			}
			switch grant {
			case "refresh_token":
				all = append(all, []Pair{{"code", "x"}}, []Pair{{"code", tok}}, []Pair{{"code", code}}, []Pair{{"code", code}, {"redirect_uri", string(w.Clients[0].Redirect)}})
			case "authorization_code":
				all = append(all, []Pair{{"refresh_token", "x"}}, []Pair{{"refresh_token", tok}})
			}
			if grant == "password" || grant == "client_credentials" || grant == "" {
				all = append(all, []Pair{{"refresh_token", tok}}, []Pair{{"code", tok}}, []Pair{{"code", tok}, {"redirect_uri", string(w.Clients[0].Redirect)}})
			}
		}
	}
	return all[mod(n, len(all))]
}

// changed alters one place of a secret.
func changed(s string, how, n int) string {
	b := []byte(s)
	switch how {
	case 13: // one byte, nearer the end
		if len(b) > 0 {
			b[len(b)-1-mod(n*n*n, len(b))] ^= 1 << mod(n, 7)
		}
	case 14: // other spellings
		r := strings.NewReplacer("ä", "a\u0308", "e", "é", "o", "0", "s", "ſ", "k", "K", "%20", " ", "+", " ", " ", "+")
		return r.Replace(s)
	case 15: // something in the middle
		i := mod(n, len(b)+1)
		return s[:i] + "\x00" + s[i:]
	}
	return string(b)
}

// adorned is a name in one of the forms some systems accept for it.
func adorned(s string, n int) string {
	forms := []string{"%s@example.com", "@%s", "%s@", "EXAMPLE\\%s", "%s+tag", "acct:%s", "%s,dc=org", "cn=%s", "%s.", "%s/", "/%s", "%s#1", "%s:0", "\"%s\"", "'%s'", "<%s>", "%s;v=2", "%s\n", "\t%s", "urn:%s", "%s%%00", "%s*", "%s|", "%s,other", "other,%s"}
	return strings.Replace(forms[mod(n, len(forms))], "%s", s, 1)
}

// piece is a part of a value that could be taken for a list or for a tagged value.
func piece(s string, n int) string {
	parts := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(",;|: \t\n/$&}", r) })
	if len(parts) == 0 || len(parts) == 1 && parts[0] == s {
		return s + "x"
	}
	p := parts[mod(n, len(parts))]
	switch i := strings.Index(s, p); mod(n/5, 3) {
	case 1:
		p = s[:i+len(p)]
	case 2:
		p = s[i:]
	}
	if p == s {
		return s[:len(s)-1]
	}
	return p
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Advance returns how far an adv operation moves the clock.
func (m *Model) Advance(o Op, now time.Time) time.Duration {
	if o.Tok.Kind == "" {
		return time.Duration(mod(o.D, 1<<30)) * time.Millisecond
	}
	c := m.pick(o.Tok, now)
	if c == nil {
		return 0
	}
	off := []time.Duration{1, -1, time.Millisecond, -time.Millisecond, time.Second, -time.Second, 500 * time.Millisecond, -500 * time.Millisecond, time.Minute, -time.Minute}[mod(o.Off, 10)]
	d := c.Expires.Add(off).Sub(now)
	if d < 0 || now.Year() > 2150 { // the fake clock ends in 2262
		return 0
	}
	return d
}

// Resolve turns a symbolic operation into a request; nil means skip.
func (m *Model) Resolve(o Op, now time.Time) *ROp {
	w := m.W
	r := &ROp{K: o.K, Method: "POST"}
	tok, cred, skip := m.tokenString(o.Tok, now)
	if skip {
		return nil
	}
	// client
	cl := w.Clients[0]
	if o.C > 0 {
		cl = w.Clients[mod(o.C-1, len(w.Clients))]
	} else if cred != nil {
		for _, c := range w.Clients {
			if string(c.ID) == cred.Client {
				cl = c
			}
		}
	}
	oc := w.Clients[mod(indexOf(w, cl.ID)+1, len(w.Clients))]
	us := w.Users[mod(o.U, len(w.Users))]
	ou := w.Users[mod(o.U+1, len(w.Users))]
	id, sec := string(cl.ID), string(cl.Secret)
	switch o.ID {
	case 1:
		id += "x"
	case 2:
		id = ""
	case 3:
		id = flipCase(id)
	case 4:
		id = dropLast(id)
	case 5:
		id = string(us.Name)
	case 6:
		id += " "
	case 7:
		if n := len(m.gone); n > 0 {
			id, sec = string(m.gone[mod(o.U, n)].ID), string(m.gone[mod(o.U, n)].Secret)
		} else {
			id = "unknown"
		}
	case 8:
		id = adorned(id, o.D)
	}
	id = strings.ReplaceAll(id, ":", ";")
	switch o.Sec {
	case 1:
		sec = ""
	case 2:
		sec = dropLast(sec)
	case 3:
		sec += "x"
	case 4:
		sec = flipCase(sec)
	case 5:
		sec = string(oc.Secret)
	case 6:
		sec = string(us.Password)
	case 7:
		sec = "wrong"
	case 8:
		sec = id
	case 9:
		sec += " "
	case 10:
		sec += "\x00"
	case 11:
		sec = sec + ":" + sec
	case 12:
		if old, ok := m.oldSecret[cl.ID]; ok {
			sec = string(old)
		} else {
			sec = "wrong"
		}
	case 13, 14, 15:
		sec = changed(sec, o.Sec, o.D)
	case 16:
		sec = piece(sec, o.D)
	}
	scopeOf := func() string {
		var el []string
		for _, v := range o.Scope {
			switch {
			case v < 0:
				el = append(el, string(w.ExtraScopes[mod(-v-1, len(w.ExtraScopes))]))
			case v < 100 && cred != nil && len(cred.Scope) > 0:
				el = append(el, cred.Scope[mod(v, len(cred.Scope))])
			default:
				el = append(el, w.allowedAt(v))
			}
		}
		sep := " "
		if o.ScopeForm&1 != 0 {
			sep = "  "
		}
		s := strings.Join(el, sep)
		if o.ScopeForm&2 != 0 {
			s = " " + s
		}
		if o.ScopeForm&4 != 0 {
			s += " "
		}
		return s
	}
	add := func(ps *[]Pair, k, v string) {
		if v != "" {
			*ps = append(*ps, Pair{k, v})
		}
	}
	un, pw := string(us.Name), string(us.Password)
	switch o.UM {
	case 1:
		un += "x"
	case 2:
		un = ""
	case 3:
		un = flipCase(un)
	case 4:
		un += " "
	case 5:
		un = string(ou.Name)
	case 6:
		un = dropLast(un)
	case 7:
		un = id
	case 8, 9, 10:
		un = changed(un, o.UM+5, o.D)
	case 11:
		un = adorned(un, o.D)
	}
	switch o.PM {
	case 1:
		pw = ""
	case 2:
		pw = dropLast(pw)
	case 3:
		pw += "x"
	case 4:
		pw = flipCase(pw)
	case 5:
		pw = string(ou.Password)
	case 6:
		pw = string(cl.Secret)
	case 7:
		pw = "wrong"
	case 8:
		pw = " " + pw
	case 9:
		pw += "\x00"
	case 10:
		if old, ok := m.oldPassword[us.Name]; ok {
			pw = string(old)
		} else {
			pw = "wrong"
		}
	case 11:
		if n := len(m.goneUsers); n > 0 {
			un, pw = string(m.goneUsers[mod(o.U, n)].Name), string(m.goneUsers[mod(o.U, n)].Password)
		} else {
			un = "unknown"
		}
	case 13, 14, 15:
		pw = changed(pw, o.PM, o.D)
	case 16:
		pw = piece(pw, o.D)
	}
	encURI := func(u string) string {
		if u == "" {
			return ""
		}
		if o.Enc == 1 && !strings.ContainsAny(u, "%+") {
			return u
		}
		return url.QueryEscape(u)
	}
	if o.Method > 0 {
		r.Method = methods[mod(o.Method, len(methods))]
		if r.Method == "" {
			r.Method = "POST"
		}
	}
	basicAuth := func(body bool) {
		switch o.Auth {
		case 0:
			r.Auth, r.HasAuth = Basic(id, sec), true
		case 1:
			if body {
				add(&r.Form, "client_id", id)
				add(&r.Form, "client_secret", sec)
			} else {
				r.Auth, r.HasAuth = Basic(id, sec), true
			}
		case 2: // basic plus contradicting body
			r.Auth, r.HasAuth = Basic(id, sec), true
			add(&r.Form, "client_id", string(oc.ID))
			add(&r.Form, "client_secret", string(oc.Secret))
		case 3: // nothing
		case 4: // malformed basic
			r.Auth, r.HasAuth = "Basic !!!", true
		case 5:
			r.Auth, r.HasAuth = "Bearer "+tok, true
		case 6: // query
			add(&r.Query, "client_id", id)
			add(&r.Query, "client_secret", sec)
		case 7: // body although the endpoint may require basic
			add(&r.Form, "client_id", id)
			add(&r.Form, "client_secret", sec)
		case 8:
			r.Auth, r.HasAuth = strings.Replace(Basic(id, sec), "Basic", "bAsIc", 1), true
		case 9:
			r.Auth, r.HasAuth = strings.Replace(Basic(id, sec), "Basic", "Digest", 1), true
		}
	}
	r.Path = string(w.PathPrefix)
	switch o.K {
	case "authorize":
		r.Path += "authorize"
		redirect := redirectMut(w, string(cl.Redirect), o.RM, o.Tok.N+o.D)
		if old, ok := m.oldRedirect[cl.ID]; ok && o.RM == 16 {
			redirect = string(old)
		}
		rt := o.RT
		if rt == "" {
			rt = "code"
		}
		if rt == "none" {
			rt = ""
		}
		var ps []Pair
		add(&ps, "response_type", rt)
		add(&ps, "client_id", id)
		add(&ps, "redirect_uri", encURI(redirect))
		add(&ps, "scope", scopeOf())
		add(&ps, "state", string(o.State))
		var up []Pair
		add(&up, "username", un)
		add(&up, "password", pw)
		switch {
		case r.Method == "GET" || r.Method == "HEAD":
			r.Query = append(ps, up...)
		case o.Place == 1: // everything in the query
			r.Query = append(ps, up...)
		case o.Place == 2: // parameters in the query, credentials in the body
			r.Query, r.Form = ps, up
		case o.Place == 3: // credentials in the query
			r.Query, r.Form = up, ps
		default:
			r.Form = append(ps, up...)
		}
		if o.Auth == 5 {
			r.Auth, r.HasAuth = Basic(id, sec), true
		}
	case "token":
		r.Path += "token"
		var ps []Pair
		switch o.Grant {
		case "", "password":
			ps = append(ps, Pair{"grant_type", "password"})
			add(&ps, "username", un)
			add(&ps, "password", pw)
			add(&ps, "scope", scopeOf())
		case "client_credentials":
			ps = append(ps, Pair{"grant_type", "client_credentials"})
			add(&ps, "scope", scopeOf())
		case "authorization_code":
			base := string(cl.Redirect)
			if cred != nil && cred.Kind == 'c' {
				base = cred.Redirect
			}
			rm := o.RM
			if (rm == 8 || rm == 11) && cred != nil && cred.Dead != "" {
				rm = 1
			}
			ps = append(ps, Pair{"grant_type", "authorization_code"})
			add(&ps, "code", tok)
			add(&ps, "redirect_uri", encURI(redirectMut(w, base, rm, o.Tok.N+o.D)))
			add(&ps, "scope", scopeOf())
		case "refresh_token":
			ps = append(ps, Pair{"grant_type", "refresh_token"})
			add(&ps, "refresh_token", tok)
			add(&ps, "scope", scopeOf())
		default:
			g := o.Grant
			if g == "none" {
				g = ""
			}
			add(&ps, "grant_type", g)
			add(&ps, "code", tok)
			add(&ps, "refresh_token", tok)
			add(&ps, "username", un)
			add(&ps, "password", pw)
		}
		if o.Place == 1 {
			r.Query = ps
		} else {
			r.Form = ps
		}
		basicAuth(true)
	case "introspect", "revoke":
		r.Path += o.K
		var ps []Pair
		add(&ps, "token", tok)
		add(&ps, "token_type_hint", []string{"", "access_token", "refresh_token", "authorization_code", "Access_Token", "foo", "access_token "}[mod(o.Hint, 7)])
		if o.Place == 1 {
			r.Query = ps
		} else {
			r.Form = ps
		}
		basicAuth(false)
	case "access":
		r.Path = "/api/resource"
		r.Method = methods[mod(o.Method, len(methods))]
		if r.Method == "" {
			r.Method = "GET"
		}
		r.HasAuth = true
		switch o.Hdr {
		case 0:
			r.Auth = "Bearer " + tok
		case 1:
			r.Auth = "bearer " + tok
		case 2:
			r.Auth = "BEARER " + tok
		case 3:
			r.HasAuth = false
			add(&r.Query, "access_token", tok)
		case 4:
			r.Auth = "Bearer"
		case 5:
			r.Auth = "Bearer "
		case 6:
			r.Auth = "Bearer" + tok
		case 7:
			r.Auth = Basic(id, sec)
		case 8:
			r.Auth = "Bearer  " + tok
		case 9:
			r.Auth = "Bearer\t" + tok
		case 10:
			r.Auth = tok
		case 11:
			r.HasAuth = false
			r.Method = "POST"
			add(&r.Form, "access_token", tok)
		case 12:
			r.Auth = "Bearer " + tok + " "
		case 13:
			r.Auth = "Bearer " + tok + ",x"
		case 14:
			r.Auth = "Token " + tok
		}
		for _, v := range o.Scope {
			switch {
			case v < 0:
				r.Required = append(r.Required, string(w.ExtraScopes[mod(-v-1, len(w.ExtraScopes))]))
			case v < 100 && cred != nil && len(cred.Scope) > 0:
				r.Required = append(r.Required, cred.Scope[mod(v, len(cred.Scope))])
			default:
				r.Required = append(r.Required, w.allowedAt(v))
			}
		}
	}
	if o.Ext > 0 {
		r.Headers = ExtHeaders(o.Ext, tok, string(ou.Name))
	}
	r.Amb = o.Amb
	if o.Slow > 0 && o.K != "access" && len(r.Form) > 0 {
		t := o.Tok
		if t.Kind != "" && !strings.Contains("arc", t.Kind) || o.Slow%4 == 0 {
			t.Kind = "" // a while, not up to the expiry of what the request presents
		}
		r.Slow = m.Advance(Op{Tok: t, D: o.Slow * 7919, Off: o.Slow}, now)
	}
	if o.Par > 0 && o.K == "access" && len(r.Form) == 0 { // the request has a form for the resource itself
		r.Method = []string{"POST", "PUT", "PATCH"}[o.Par%3]
		add(&r.Form, "comment", "a&b=c d")
		add(&r.Form, "scope", strings.Join(r.Required, " "))
	}
	if o.Par > 0 && o.K != "access" {
		code := "y"
		if c := m.pick(Ref{Kind: "c", Sel: o.Par / 2 % 2, N: o.Par}, now); c != nil {
			code = c.Str
		}
		ps := extParams(o.K, o.Grant, o.Par/2, w, tok, code, us, ou)
		if len(ps) > 0 && ps[len(ps)-1].K == "redirect_uri" && !strings.ContainsAny(ps[len(ps)-1].V, "%+") || len(ps) > 0 && ps[len(ps)-1].K != "redirect_uri" {
			if o.Par%2 == 0 && r.Method == "POST" {
				r.Form = append(r.Form[:len(r.Form):len(r.Form)], ps...)
			} else {
				r.Query = append(r.Query[:len(r.Query):len(r.Query)], ps...)
			}
		}
	}
	return r
}

func indexOf(w *World, id Str) int {
	for i, c := range w.Clients {
		if c.ID == id {
			return i
		}
	}
	return 0
}

// Profile biases the generated operations towards one property.
type Profile struct {
	W      map[string]int // weights of kinds: auth-code auth-token password cc code refresh introspect revoke access adv advto other
	Fault  []string       // preferred fault dimensions
	FaultP int            // percentage of operations with a fault
	Audit  int            // percentage of operations followed by an audit
	MinOps int
	MaxOps int
	Bulk   int // percentage of histories in which something happens very often
	Slow   int // percentage of requests with a slow body
	World  WorldOpts
}

var baseWeights = map[string]int{"auth-code": 10, "auth-token": 5, "password": 8, "cc": 4, "code": 10, "refresh": 8, "introspect": 6, "revoke": 5, "access": 8, "adv": 3, "advto": 4, "other": 1}

var dims = map[string][]string{
	"auth-code":  {"id", "user", "pass", "redirect", "scope", "rt", "method", "place", "state"},
	"auth-token": {"id", "user", "pass", "redirect", "scope", "rt", "method", "place", "state"},
	"password":   {"id", "sec", "auth", "user", "pass", "scope", "method", "place"},
	"cc":         {"id", "sec", "auth", "scope", "method", "place", "client"},
	"code":       {"client", "id", "sec", "auth", "redirect", "tok", "kind", "method", "place", "dead", "scope"},
	"refresh":    {"client", "id", "sec", "auth", "tok", "kind", "scope", "method", "place", "dead"},
	"introspect": {"client", "id", "sec", "auth", "tok", "kind", "hint", "method", "place", "dead"},
	"revoke":     {"client", "id", "sec", "auth", "tok", "kind", "hint", "method", "place", "dead"},
	"access":     {"tok", "kind", "hdr", "scope", "dead"},
	"other":      {"id"},
}

func stateGen() *rapid.Generator[Str] {
	return OneOf(
		Pick[Str]("", "", "xyz", "a b", "a+b", "100%", "%20", "a&b=c", "#frag", "ü", "\"quoted\"", "1", "state?x=1", "<script>", "a;b"),
		rapid.Map(rapid.StringN(0, 12, -1), func(s string) Str { return Str(s) }),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 12), func(b []byte) Str { return Str(b) }),
		rapid.Map(Pick(1, 40, 200, 600, 5000), func(n int) Str { return Str(strings.Repeat("s", n)) }),
	)
}

// OpGen draws one operation.
func OpGen(p Profile) *rapid.Generator[Op] {
	var kinds []string
	for _, k := range []string{"auth-code", "auth-token", "password", "cc", "code", "refresh", "introspect", "revoke", "access", "adv", "advto", "other"} {
		n := baseWeights[k]
		if v, ok := p.W[k]; ok {
			n = v
		}
		for i := 0; i < n; i++ {
			kinds = append(kinds, k)
		}
	}
	return rapid.Custom(func(t *rapid.T) Op {
		k := Pick(kinds...).Draw(t, "kind")
		var o Op
		small := func(name string, lo, hi int) int { return Int(lo, hi).Draw(t, name) }
		goodScope := func() []int {
			n := Pick(0, 1, 1, 2, 3, 5).Draw(t, "nscope")
			if Chance(t, 3) {
				n = Int(8, 60).Draw(t, "nscopebig")
			}
			var s []int
			for i := 0; i < n; i++ {
				s = append(s, small("scope", 0, 14))
			}
			return s
		}
		o.Audit = Int(0, 99).Draw(t, "audit") < p.Audit
		issueClient := func() { o.C = small("client", 0, 4) }
		kindOf := func(def string) {
			o.Tok = Ref{Kind: def, Sel: 1, N: Pick(0, 0, 0, 1, 1, 2, 3, 5, 8).Draw(t, "n")}
		}
		switch k {
		case "auth-code", "auth-token":
			o.K = "authorize"
			if k == "auth-token" {
				o.RT = "token"
			}
			issueClient()
			o.U = small("user", 0, 2)
			o.Scope = goodScope()
			o.ScopeForm = Pick(0, 0, 0, 0, 1, 2, 4, 7).Draw(t, "sform")
			o.State = stateGen().Draw(t, "state")
			o.Place = Pick(0, 0, 2).Draw(t, "place")
			o.Enc = small("enc", 0, 1)
		case "password", "cc":
			o.K = "token"
			o.Grant = map[string]string{"password": "password", "cc": "client_credentials"}[k]
			issueClient()
			o.U = small("user", 0, 2)
			o.Scope = goodScope()
			o.ScopeForm = Pick(0, 0, 0, 0, 1, 2, 4, 7).Draw(t, "sform")
			o.Auth = Pick(0, 0, 1, 2, 8).Draw(t, "auth")
		case "code":
			o.K, o.Grant = "token", "authorization_code"
			kindOf("c")
			o.Auth = Pick(0, 0, 1, 2, 8).Draw(t, "auth")
			o.Enc = small("enc", 0, 1)
		case "refresh":
			o.K, o.Grant = "token", "refresh_token"
			kindOf("r")
			o.Scope = goodScope()
			o.Auth = Pick(0, 0, 1, 2, 8).Draw(t, "auth")
		case "introspect", "revoke":
			o.K = k
			kindOf(Pick("a", "r", "a", "r", "c").Draw(t, "tk"))
			o.Hint = Pick(0, 0, 1, 2).Draw(t, "hint")
			o.Auth = Pick(0, 0, 0, 2, 8).Draw(t, "auth")
		case "access":
			o.K = k
			kindOf("a")
			o.Scope = goodScope()
			o.Hdr = Pick(0, 0, 1, 2).Draw(t, "hdr")
			o.Method = Pick(0, 0, 8, 2, 4, 3, 5, 6, 7).Draw(t, "method")
		case "adv":
			o.K = "adv"
			o.D = OneOf(Int(0, 5000), Int(0, 700_000), Int(0, 8_000_000)).Draw(t, "d")
		case "advto":
			o.K = "adv"
			o.Tok = Ref{Kind: Pick("a", "r", "c").Draw(t, "tk"), Sel: 1, N: small("n", 0, 4)}
			o.Off = small("off", 0, 9)
		case "other":
			o.K, o.Grant = "token", Pick("none", "implicit", "Password", "token", "urn:ietf:params:oauth:grant-type:jwt-bearer", "refresh_token ").Draw(t, "grant")
			kindOf(Pick("c", "r", "a").Draw(t, "tk"))
		}
		if o.K != "adv" && Chance(t, 12) {
			if rapid.Bool().Draw(t, "extra") {
				o.Ext = small("ext", 1, 16)
			} else {
				o.Par = small("par", 1, 45)
			}
		}
		if o.K != "adv" && Chance(t, 12) {
			o.Amb = small("amb", 1, Circumstances)
		}
		if p.Slow > 0 && o.K != "adv" && Chance(t, p.Slow) {
			o.Slow = small("slow", 1, 400)
		}
		if o.K == "adv" || Int(0, 99).Draw(t, "faulty") >= p.FaultP {
			return o
		}
		o.D = small("which", 0, 49)
		nf := Pick(1, 1, 1, 1, 1, 2, 3).Draw(t, "nfaults")
		ds := append([]string(nil), dims[k]...)
		for _, f := range p.Fault {
			for _, d := range dims[k] {
				if d == f {
					ds = append(ds, d, d, d)
				}
			}
		}
		for i := 0; i < nf; i++ {
			switch Pick(ds...).Draw(t, "dim") {
			case "id":
				o.ID = small("idm", 1, 8)
			case "sec":
				o.Sec = small("secm", 1, 16)
			case "auth":
				o.Auth = small("authm", 1, 9)
			case "user":
				o.UM = small("um", 1, 11)
			case "pass":
				o.PM = OneOf(Int(1, 11), Int(13, 16)).Draw(t, "pm")
			case "client":
				o.C = small("otherclient", 1, 4)
			case "redirect":
				o.RM = small("rm", 1, 23)
			case "scope":
				o.Scope = append(o.Scope, OneOf(Int(-60, -1), Int(-12, -1), Int(100, 114)).Draw(t, "badscope"))
				if rapid.Bool().Draw(t, "front") {
					l := len(o.Scope) - 1
					o.Scope[0], o.Scope[l] = o.Scope[l], o.Scope[0]
				}
			case "rt":
				o.RT = Pick("none", "Code", "id_token", "code token", "code ", "token2").Draw(t, "rtm")
			case "method":
				o.Method = small("methodm", 1, 7)
			case "place":
				o.Place = Pick(1, 1, 3).Draw(t, "placem")
			case "state":
				o.State = stateGen().Draw(t, "state")
			case "tok":
				if rapid.Bool().Draw(t, "mutated") {
					o.Tok.Mut = small("mut", 1, 19)
					o.Tok.N = small("mutn", 0, 40)
				} else {
					o.Tok = Ref{Kind: Pick("u", "f", "g", "e").Draw(t, "tokkind"), N: small("tn", 0, 20)}
				}
			case "kind":
				o.Tok.Kind = Pick("a", "r", "c").Draw(t, "otherkind")
			case "dead":
				o.Tok.Sel = small("sel", 2, 3)
				if rapid.Bool().Draw(t, "xclient") {
					o.C = small("otherclient", 1, 4)
				}
			case "hint":
				o.Hint = small("hintm", 3, 6)
			case "hdr":
				o.Hdr = small("hdrm", 3, 14)
			}
		}
		return o
	})
}

// right is the same operation without mistakes.
func (o Op) right() Op {
	n := Op{K: o.K, Grant: o.Grant, C: o.C, U: o.U, Tok: Ref{Kind: o.Tok.Kind, Sel: 1, N: o.Tok.N}}
	if o.RT == "token" {
		n.RT = o.RT
	}
	switch {
	case o.Grant == "authorization_code":
		n.Tok.Kind = "c"
	case o.Grant == "refresh_token":
		n.Tok.Kind = "r"
	case o.K == "access":
		n.Tok.Kind = "a"
	}
	for _, v := range o.Scope {
		if v >= 0 && v < 100 {
			n.Scope = append(n.Scope, v)
		}
	}
	return n
}

// VolumeGen draws short histories in which something happens thousands of times.
func VolumeGen(p Profile) *rapid.Generator[History] {
	og := OpGen(p)
	return rapid.Custom(func(t *rapid.T) History {
		h := History{WorldGen(p.World).Draw(t, "world"), Many(og, 4, 12).Draw(t, "ops")}
		i := Int(0, len(h.Ops)-1).Draw(t, "often")
		o := &h.Ops[i]
		if o.K == "adv" || o.K == "cfg" || o.K == "store" || Chance(t, 70) {
			*o = Op{K: "token", Grant: Pick("password", "client_credentials", "refresh_token").Draw(t, "grant"), C: o.C, U: o.U, Tok: Ref{Kind: "r", Sel: 1}}
			if Chance(t, 40) {
				*o = Op{K: "authorize", RT: Pick("token", "code").Draw(t, "rt"), C: o.C, U: o.U}
			}
		}
		o.Rep = OneOf(Pick(1000, 1024, 2048, 4096), Int(600, 5000)).Draw(t, "times") + Int(0, 3).Draw(t, "more")
		h.Ops = slices.Insert(h.Ops, i+1, o.right())
		return h
	})
}

// Crowd describes a history with very many credentials that are alive at the
// same time, of which many are then used in one of the given ways.
type Crowd struct {
	W    World
	N    int    // how many authorizations
	Acts int    // how many uses
	Mix  uint64 // who, what and which
}

func CrowdGen(world *rapid.Generator[World], most int) *rapid.Generator[Crowd] {
	return rapid.Custom(func(t *rapid.T) Crowd {
		return Crowd{world.Draw(t, "world"), OneOf(Int(1, most), Int(most*9/10, most)).Draw(t, "n"), Int(1, most/2).Draw(t, "acts"), rapid.Uint64().Draw(t, "mix")}
	})
}

// History spells the operations out. The uses are codes that are replayed (c),
// redeemed by others (x) or kept (k), tokens that are refreshed (r), replayed
// (d), revoked (v), revoked by others (w) and introspected (i).
func (c Crowd) History(uses string) History {
	z := c.Mix
	rnd := func(n int) int { // splitmix64
		z += 0x9e3779b97f4a7c15
		x := z
		x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
		x = (x ^ x>>27) * 0x94d049bb133111eb
		return int((x ^ x>>31) >> 1 % uint64(n))
	}
	h := History{W: c.W}
	for i := 0; i < c.N; i++ {
		cl, us, sc := 1+rnd(8), rnd(8), []int{rnd(8), rnd(8)}[:rnd(3)]
		h.Ops = append(h.Ops, Op{K: "authorize", RT: "code", C: cl, U: us, Scope: sc})
		if !strings.Contains(uses, "k") || rnd(2) == 0 {
			h.Ops = append(h.Ops, Op{K: "token", Grant: "authorization_code", Tok: Ref{Kind: "c", Sel: 1}})
		}
	}
	for i := 0; i < c.Acts; i++ {
		tok := func(kind string, sel int) Ref { return Ref{Kind: kind, Sel: sel, N: rnd(1 << 20), Far: true} }
		var o Op
		switch uses[rnd(len(uses))] {
		case 'c':
			o = Op{K: "token", Grant: "authorization_code", C: rnd(9), Tok: tok("c", 2)}
		case 'x':
			o = Op{K: "token", Grant: "authorization_code", C: 1 + rnd(8), Tok: tok("c", 1)}
		case 'k':
			o = Op{K: "token", Grant: "authorization_code", Tok: tok("c", 1)}
		case 'r':
			o = Op{K: "token", Grant: "refresh_token", Tok: tok("r", 1)}
		case 'd':
			o = Op{K: "token", Grant: "refresh_token", Tok: tok("r", 2)}
		case 'v':
			o = Op{K: "revoke", Tok: tok([]string{"a", "r"}[rnd(2)], rnd(3))}
		case 'w':
			o = Op{K: "revoke", C: 1 + rnd(8), Tok: tok([]string{"a", "r"}[rnd(2)], 1)}
		case 'i':
			o = Op{K: "introspect", Tok: tok([]string{"a", "r", "c"}[rnd(3)], rnd(3))}
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

// HistoryGen draws a configuration and a history.
func HistoryGen(p Profile) *rapid.Generator[History] {
	og := OpGen(p)
	lo, hi := p.MinOps, p.MaxOps
	if lo == 0 {
		lo = 4
	}
	if hi == 0 {
		hi = 40
	}
	bulk := p.Bulk
	if bulk == 0 {
		bulk = 8
	}
	return rapid.Custom(func(t *rapid.T) History {
		w := WorldGen(p.World).Draw(t, "world")
		h := History{w, Many(og, lo, hi).Draw(t, "ops")}
		if Chance(t, bulk) {
			h.Ops[Int(0, len(h.Ops)-1).Draw(t, "often")].Rep = OneOf(Pick(15, 33, 65, 130, 260, 520), Int(10, 150)).Draw(t, "times")
		}
		if Chance(t, 20) { // a request, right or wrong, is made again and again, and then one that is right
			i := Int(0, len(h.Ops)-1).Draw(t, "insist")
			if o := &h.Ops[i]; o.K != "adv" && o.Rep == 0 {
				o.Rep = Int(1, 12).Draw(t, "more")
				h.Ops = slices.Insert(h.Ops, i+1, o.right())
			}
		}
		return h
	})
}
