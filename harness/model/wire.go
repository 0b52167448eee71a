package model

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"runtime/debug"
	"strings"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"

	"aaverif/pbt"
)

// Pair is one ordered form parameter.
type Pair struct{ K, V string }

// ROp is a concrete request.
type ROp struct {
	K        string // authorize, token, introspect, revoke, access
	Method   string
	Path     string
	Query    []Pair
	Form     []Pair
	Auth     string
	HasAuth  bool
	Required []string
	Headers  []Pair        // that do not matter
	Amb      int           // circumstances that do not matter
	Slow     time.Duration // how long the body takes
	BodyHook func(io.Reader) io.Reader
}

// EncodeForm encodes form parameters in the given order.
func EncodeForm(ps []Pair) string { return enc(ps) }

func enc(ps []Pair) string {
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			b.WriteByte('&')
		}
		b.WriteString(url.QueryEscape(p.K))
		b.WriteByte('=')
		b.WriteString(url.QueryEscape(p.V))
	}
	return b.String()
}

func get(ps []Pair, k string) string {
	for _, p := range ps {
		if p.K == k {
			return p.V
		}
	}
	return ""
}

func (r *ROp) form(k string) string { return get(r.Form, k) }

func (r *ROp) any(k string) string {
	if v := get(r.Form, k); v != "" {
		return v
	}
	return get(r.Query, k)
}

func (r *ROp) has(k string) bool {
	for _, ps := range [][]Pair{r.Form, r.Query} {
		for _, p := range ps {
			if p.K == k {
				return true
			}
		}
	}
	return false
}

func (r *ROp) String() string {
	s := r.Method + " " + r.Path
	if r.K == "access" {
		return fmt.Sprintf("access %s header=%v %q required=%q query=%s headers=%v body=%s", r.Method, r.HasAuth, r.Auth, r.Required, enc(r.Query), r.Headers, enc(r.Form))
	}
	if len(r.Query) > 0 {
		s += "?" + enc(r.Query)
	}
	if r.HasAuth {
		s += fmt.Sprintf(" Authorization=%q", r.Auth)
		if id, sec, ok := parseBasic(r.Auth); ok {
			s += fmt.Sprintf(" (basic %q %q)", id, sec)
		}
	}
	if len(r.Headers) > 0 {
		s += fmt.Sprintf(" headers=%v", r.Headers)
	}
	if r.Amb > 0 {
		s += fmt.Sprintf(" circumstances=%d", r.Amb)
	}
	if r.Slow > 0 {
		s += fmt.Sprintf(" (arriving for %v)", r.Slow)
	}
	return s + " body=" + enc(r.Form)
}

// Request builds the HTTP request as a server would see it.
func (r *ROp) Request() *http.Request {
	u := &url.URL{Path: r.Path, RawQuery: enc(r.Query)}
	body := enc(r.Form)
	h := http.Header{}
	var rd io.Reader = strings.NewReader(body)
	if r.BodyHook != nil {
		rd = r.BodyHook(rd)
	}
	if r.Method == "GET" && len(r.Form) == 0 {
		body = ""
	} else {
		h.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if r.HasAuth {
		h["Authorization"] = []string{r.Auth}
	}
	for _, p := range r.Headers {
		h[p.K] = append(h[p.K][:0:0], p.V)
	}
	q := &http.Request{
		Method: r.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Host: "server.test",
		Body: io.NopCloser(rd), ContentLength: int64(len(body)), RequestURI: u.RequestURI(), RemoteAddr: "127.0.0.1:1234",
	}
	who := r.form("username")
	if who == "" {
		who = r.form("client_id")
	}
	if id, _, ok := parseBasic(r.Auth); ok && who == "" {
		who = id
	}
	return Circumstance(q, r.Amb, who, r.BodyHook == nil)
}

// Circumstances is the number of circumstances of a request that no endpoint
// may care about.
const Circumstances = 16

// Circumstance puts a request into the i-th of them. It names who, and reads
// the form beforehand only if that may be done.
func Circumstance(q *http.Request, i int, who string, readable bool) *http.Request {
	switch i {
	case 1: // the peer is gone already
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		q = q.WithContext(ctx)
	case 2:
		ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		cancel()
		q = q.WithContext(ctx)
	case 3:
		q.RemoteAddr = ""
	case 4:
		q.RemoteAddr = "[2001:db8::1%eth0]:443"
	case 5:
		q.RemoteAddr = "@"
	case 6:
		q.RemoteAddr = "203.0.113.7:5555"
	case 7:
		q.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: "server.test"}
		q.Host = "server.test:8443"
	case 8:
		q.Proto, q.ProtoMinor, q.Close = "HTTP/1.0", 0, true
	case 9:
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
		q.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, NegotiatedProtocol: "h2"}
	case 10:
		q.Host = ""
	case 11: // as a proxy sees it
		q.URL.Scheme, q.URL.Host = "http", "server.test"
		q.RequestURI = q.URL.String()
	case 12:
		q.ContentLength, q.TransferEncoding = -1, []string{"chunked"}
	case 13: // something in front of the server has looked at the form
		if readable {
			_ = q.ParseForm()
		}
	case 14: // a TLS client certificate for somebody
		q.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, PeerCertificates: []*x509.Certificate{{Subject: pkix.Name{CommonName: who}, DNSNames: []string{who}}}}
	case 15:
		q.Host = "127.0.0.1"
	case 16:
		q.Trailer = http.Header{"Authorization": nil, "X-Sum": nil}
	}
	return q
}

// Recorder records a response including misuse of the writer.
type Recorder struct {
	H       http.Header
	Sent    http.Header
	Status  int
	Headers int // number of WriteHeader calls
	Body    bytes.Buffer
	Late    bool                        // body written before the status was set, then WriteHeader
	OnWrite func(what string)           // called before every header, status and write call
	OnBody  func(b []byte) (int, error) // how much of the body gets through
}

func NewRecorder() *Recorder { return &Recorder{H: http.Header{}} }

func (r *Recorder) Header() http.Header {
	if r.OnWrite != nil {
		r.OnWrite("header")
	}
	return r.H
}

func (r *Recorder) WriteHeader(s int) {
	if r.OnWrite != nil {
		r.OnWrite("status")
	}
	if r.Status != 0 && r.Headers == 0 { // after the body was begun
		r.Headers++
	}
	r.Headers++
	if r.Status == 0 {
		r.Status = s
		r.Sent = r.H.Clone()
	}
}

func (r *Recorder) Write(b []byte) (int, error) {
	if r.Status == 0 {
		r.Status = 200
		r.Sent = r.H.Clone()
	}
	if r.OnWrite != nil {
		r.OnWrite("write")
	}
	if r.OnBody != nil {
		n, err := r.OnBody(b)
		r.Body.Write(b[:n])
		return n, err
	}
	return r.Body.Write(b)
}

// Outcome is a parsed response.
type Outcome struct {
	Status   int
	Header   http.Header
	Body     []byte
	Headers  int
	Untouch  bool   // nothing was written at all
	Allowed  bool   // result of Authorize
	Passed   string // how an allowed request differs from the one that came in
	Panic    string
	JSON     map[string]any
	HasLoc   bool
	Loc      string
	Frag     map[string][]string
	HasFrag  bool
	Query    map[string][]string
	Target   string // location without query and fragment
	BadLoc   string
	Error    string // OAuth2 error code, wherever it was
	Redirect bool
	Chall    map[string]string
	HasChall bool
	BadChall string
}

// DoRequest runs a ready request against the server's handler.
func DoRequest(s *oauth2.Server, q *http.Request, rec *Recorder) *Outcome {
	return doWith(s, &ROp{K: "http"}, rec, func() *http.Request { return q })
}

// Do runs the request against the server.
func Do(s *oauth2.Server, r *ROp, rec *Recorder) *Outcome { return doWith(s, r, rec, r.Request) }

func doWith(s *oauth2.Server, r *ROp, rec *Recorder, request func() *http.Request) (o *Outcome) {
	if rec == nil {
		rec = NewRecorder()
	}
	var allowed bool
	var passed string
	pan := func() (p string) {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if !pbt.Under(st) {
					panic(fmt.Sprintf("harness panic: %v\n%s", e, st))
				}
				p = fmt.Sprintf("%v\n%s", e, st)
			}
		}()
		if r.K == "access" {
			var req oauth2.Scope
			for _, e := range r.Required {
				req = append(req, e)
			}
			q := request()
			head, uri, method, parsed := q.Header.Clone(), *q.URL, q.Method, q.Form != nil
			allowed = s.Authorize(rec, q, req)
			if allowed && r.BodyHook == nil {
				switch body, err := io.ReadAll(q.Body); {
				case !reflect.DeepEqual(head, q.Header):
					passed = fmt.Sprintf("its header %v became %v", head, q.Header)
				case q.Method != method || !reflect.DeepEqual(uri, *q.URL):
					passed = fmt.Sprintf("%s %s became %s %s", method, &uri, q.Method, q.URL)
				case !parsed && (err != nil || string(body) != enc(r.Form)):
					passed = fmt.Sprintf("of its body %q only %q is left (%v)", enc(r.Form), body, err)
				case !parsed && (q.Form != nil || q.PostForm != nil || q.MultipartForm != nil):
					passed = fmt.Sprintf("its form was parsed: %v", q.Form)
				}
			}
		} else {
			s.ServeHTTP(rec, request())
		}
		return ""
	}()
	o = Parse(rec)
	o.Allowed, o.Panic, o.Passed = allowed, pan, passed
	return o
}

// FormDecode decodes form-urlencoded text independently of net/url's parser.
func FormDecode(s string) (map[string][]string, error) {
	out := map[string][]string{}
	if s == "" {
		return out, nil
	}
	dec := func(x string) (string, error) {
		var b []byte
		for i := 0; i < len(x); i++ {
			switch x[i] {
			case '+':
				b = append(b, ' ')
			case '%':
				if i+2 >= len(x) {
					return "", fmt.Errorf("bad escape in %q", x)
				}
				h, l := hex(x[i+1]), hex(x[i+2])
				if h < 0 || l < 0 {
					return "", fmt.Errorf("bad escape in %q", x)
				}
				b = append(b, byte(h<<4|l))
				i += 2
			default:
				b = append(b, x[i])
			}
		}
		return string(b), nil
	}
	for _, seg := range strings.Split(s, "&") {
		if seg == "" {
			continue
		}
		k, v, _ := strings.Cut(seg, "=")
		dk, err := dec(k)
		if err != nil {
			return nil, err
		}
		dv, err := dec(v)
		if err != nil {
			return nil, err
		}
		out[dk] = append(out[dk], dv)
	}
	return out, nil
}

func hex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// SplitLocation splits a location into target, query and fragment.
func SplitLocation(loc string) (target, query, frag string, hasQuery, hasFrag bool) {
	target, frag, hasFrag = strings.Cut(loc, "#")
	target, query, hasQuery = strings.Cut(target, "?")
	return
}

// ParseChallenge parses one challenge by the RFC 9110 grammar.
func ParseChallenge(h string) (scheme string, params map[string]string, err error) {
	tchar := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("!#$%&'*+-.^_`|~", c) >= 0
	}
	i := 0
	tok := func() string {
		j := i
		for i < len(h) && tchar(h[i]) {
			i++
		}
		return h[j:i]
	}
	ws := func() int {
		j := i
		for i < len(h) && (h[i] == ' ' || h[i] == '\t') {
			i++
		}
		return i - j
	}
	scheme = tok()
	if scheme == "" {
		return "", nil, fmt.Errorf("no scheme in %q", h)
	}
	params = map[string]string{}
	if i == len(h) {
		return
	}
	if h[i] != ' ' {
		return "", nil, fmt.Errorf("no space after scheme in %q", h)
	}
	for i < len(h) && h[i] == ' ' {
		i++
	}
	for {
		k := strings.ToLower(tok())
		if k == "" {
			return "", nil, fmt.Errorf("parameter name expected at %d in %q", i, h)
		}
		ws()
		if i >= len(h) || h[i] != '=' {
			return "", nil, fmt.Errorf("= expected at %d in %q", i, h)
		}
		i++
		ws()
		var v []byte
		if i < len(h) && h[i] == '"' {
			i++
			closed := false
			for i < len(h) {
				c := h[i]
				if c == '"' {
					i++
					closed = true
					break
				}
				if c == '\\' {
					i++
					if i >= len(h) {
						break
					}
					c = h[i]
				}
				if c != '\t' && c < ' ' || c == 0x7f {
					return "", nil, fmt.Errorf("control character in quoted string in %q", h)
				}
				v = append(v, c)
				i++
			}
			if !closed {
				return "", nil, fmt.Errorf("unterminated quoted string in %q", h)
			}
		} else {
			v = []byte(tok())
			if len(v) == 0 {
				return "", nil, fmt.Errorf("value expected at %d in %q", i, h)
			}
		}
		if _, dup := params[k]; dup {
			return "", nil, fmt.Errorf("duplicate parameter %q in %q", k, h)
		}
		params[k] = string(v)
		ws()
		if i == len(h) {
			return
		}
		if h[i] != ',' {
			return "", nil, fmt.Errorf(", expected at %d in %q", i, h)
		}
		i++
		ws()
	}
}

// Parse interprets a recorded response.
func Parse(rec *Recorder) *Outcome {
	o := &Outcome{Status: rec.Status, Header: rec.Sent, Body: rec.Body.Bytes(), Headers: rec.Headers}
	if rec.Status == 0 {
		o.Untouch = rec.Body.Len() == 0 && len(rec.H) == 0 && rec.Headers == 0
		o.Status = 200 // net/http default
		o.Header = rec.H.Clone()
	}
	if l, ok := o.Header["Location"]; ok {
		o.HasLoc = true
		o.Loc = l[0]
		if len(l) > 1 {
			o.BadLoc = fmt.Sprintf("several Location headers %q", l)
		}
		t, q, f, _, hf := SplitLocation(o.Loc)
		o.Target, o.HasFrag = t, hf
		var err error
		if o.Query, err = FormDecode(q); err != nil {
			o.BadLoc = err.Error()
		}
		if o.Frag, err = FormDecode(f); err != nil {
			o.BadLoc = err.Error()
		}
	}
	if o.Status >= 300 && o.Status < 400 {
		o.Redirect = true
		if v := o.Frag["error"]; len(v) > 0 {
			o.Error = v[len(v)-1]
		} else if v := o.Query["error"]; len(v) > 0 {
			o.Error = v[len(v)-1]
		}
	}
	if strings.HasPrefix(o.Header.Get("Content-Type"), "application/json") {
		d := json.NewDecoder(bytes.NewReader(o.Body))
		d.UseNumber()
		var m map[string]any
		if d.Decode(&m) == nil {
			if _, err := d.Token(); err == io.EOF {
				o.JSON = m
			}
		}
		if e, ok := o.JSON["error"].(string); ok {
			o.Error = e
		}
	}
	if c, ok := o.Header["Www-Authenticate"]; ok {
		o.HasChall = true
		s, p, err := ParseChallenge(c[0])
		switch {
		case err != nil:
			o.BadChall = err.Error()
		case len(c) > 1:
			o.BadChall = fmt.Sprintf("several challenges %q", c)
		case strings.EqualFold(s, "bearer"):
			o.Chall = p
		}
	}
	return o
}

func (o *Outcome) str(k string) (string, bool) {
	v, ok := o.JSON[k].(string)
	return v, ok
}

func (o *Outcome) String() string {
	s := fmt.Sprintf("%d", o.Status)
	if o.Untouch {
		s = "untouched"
	}
	if o.Allowed {
		s += " allowed"
	}
	if o.HasLoc {
		s += " Location: " + o.Loc
	}
	if o.HasChall {
		s += fmt.Sprintf(" WWW-Authenticate: %q", o.Header["Www-Authenticate"])
	}
	if len(o.Body) > 0 {
		b := o.Body
		if len(b) > 400 {
			b = b[:400]
		}
		s += " " + strings.TrimSpace(string(b))
	}
	if o.Panic != "" {
		s += " PANIC " + o.Panic
	}
	return s
}

func parseBasic(h string) (id, sec string, ok bool) {
	if len(h) < 6 || !strings.EqualFold(h[:6], "basic ") {
		return
	}
	b, err := base64.StdEncoding.DecodeString(h[6:])
	if err != nil {
		return
	}
	return strings.Cut(string(b), ":")
}

// Basic builds a Basic authorization header.
func Basic(id, sec string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(id+":"+sec))
}

// MAC is an independent HMAC-SHA256.
func MAC(secret, key []byte) []byte {
	block := make([]byte, 64)
	if len(secret) > 64 {
		s := sha256.Sum256(secret)
		copy(block, s[:])
	} else {
		copy(block, secret)
	}
	ip, op := make([]byte, 64), make([]byte, 64)
	for i, b := range block {
		ip[i], op[i] = b^0x36, b^0x5c
	}
	in := sha256.Sum256(append(ip, key...))
	out := sha256.Sum256(append(op, in[:]...))
	return out[:]
}

// Sign makes a token string.
func Sign(secret, key []byte) string {
	e := base64.RawURLEncoding
	return e.EncodeToString(key) + "." + e.EncodeToString(MAC(secret, key))
}

// Verify classifies a token string: signed says the lenient reading verifies,
// canonical that the strict reading does too.
func Verify(secret []byte, s string) (key []byte, signed, canonical bool) {
	p := strings.Split(s, ".")
	if len(p) != 2 {
		return
	}
	k, err := base64.RawURLEncoding.DecodeString(p[0])
	if err != nil {
		return
	}
	g, err := base64.RawURLEncoding.DecodeString(p[1])
	if err != nil {
		return
	}
	if !hmac.Equal(g, MAC(secret, k)) {
		return
	}
	e := base64.RawURLEncoding
	return k, true, e.EncodeToString(k) == p[0] && e.EncodeToString(g) == p[1]
}
