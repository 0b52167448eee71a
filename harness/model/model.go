package model

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"aaverif/pbt"
)

// Cred is an issued token or code as learnt from the server's answers.
type Cred struct {
	Kind     rune // a r c
	Str      string
	Client   string
	User     string
	Scope    []string
	Issued   time.Time
	Expires  time.Time
	Redirect string
	Root     *Cred
	Dead     string // revoked replayed rotated used
}

// Model is the state implied by the answers given so far.
type Model struct {
	W     *World
	Creds []*Cred
	bySt  map[string]*Cred
	// owners of what happened since the last audit
	ctx, next map[string]bool
	// statistics
	Stats map[string]int
	// Slack is how far an issue time may be off (real clock).
	Slack time.Duration
	// another server in the same process
	Other *Model
	// what the owner of the server removed, and the first signing secret
	gone    []Client
	first   pbt.Str
	changed bool
	// the stores were changed from outside
	stored bool
	// values that no longer count
	oldSecret, oldPassword, oldRedirect map[pbt.Str]pbt.Str
	goneUsers                           []User
}

// NewModel returns an empty model.
func NewModel(w *World) *Model {
	return &Model{W: w, bySt: map[string]*Cred{}, ctx: map[string]bool{}, next: map[string]bool{}, Stats: map[string]int{}}
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := NewModel(m.W)
	mp := map[*Cred]*Cred{}
	for _, c := range m.Creds {
		d := *c
		mp[c] = &d
		n.Creds = append(n.Creds, &d)
		n.bySt[d.Str] = &d
	}
	for _, c := range n.Creds {
		if c.Root != nil {
			c.Root = mp[c.Root]
		}
	}
	for k := range m.ctx {
		n.ctx[k] = true
	}
	n.Slack = m.Slack
	return n
}

// State summarises the model for comparison.
func (m *Model) State() uint64 {
	var sum uint64
	for _, c := range m.Creds {
		h := uint64(14695981039346656037)
		add := func(s string) {
			for i := 0; i < len(s); i++ {
				h = (h ^ uint64(s[i])) * 1099511628211
			}
			h = (h ^ 256) * 1099511628211
		}
		add(string(c.Kind))
		add(c.Str)
		add(c.Dead)
		if c.Root != nil {
			add(c.Root.Str)
		}
		sum += h
	}
	return sum
}

func (m *Model) find(s string) *Cred { return m.bySt[s] }

// Viol is a disagreement between the server and the model.
type Viol struct {
	Owners []string
	Msg    string
}

type fault struct {
	codes    []string
	owners   []string
	why      string
	redirect bool // delivered by redirect
}

func set(xs []string) map[string]bool {
	r := map[string]bool{}
	for _, x := range xs {
		r[x] = true
	}
	return r
}

func sameSet(a, b []string) bool {
	x, y := set(a), set(b)
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

func words(s string) []string {
	var out []string
	for _, w := range strings.Split(s, " ") {
		if w != "" {
			out = append(out, w)
		}
	}
	return out
}

func subset(a, b []string) bool {
	y := set(b)
	for _, x := range a {
		if !y[x] {
			return false
		}
	}
	return true
}

var statusOf = map[string]int{
	"invalid_request": 400, "invalid_client": 401, "invalid_grant": 400, "invalid_scope": 400, "access_denied": 403,
	"unsupported_token_type": 400, "unsupported_grant_type": 400, "unsupported_response_type": 400, "unauthorized_client": 400,
	"invalid_token": 401, "insufficient_scope": 403,
}

func (m *Model) client(id string) *Client {
	for i := range m.W.Clients {
		if string(m.W.Clients[i].ID) == id {
			return &m.W.Clients[i]
		}
	}
	return nil
}

func (m *Model) user(name, pw string) bool {
	for i := range m.W.Users {
		if string(m.W.Users[i].Name) == name {
			return string(m.W.Users[i].Password) == pw
		}
	}
	return false
}

func (m *Model) allowed() []string {
	var out []string
	for _, a := range m.W.Allowed {
		out = append(out, string(a))
	}
	return out
}

// EffectiveRedirect applies the parser's documented decoding of a form value.
func effectiveRedirect(v string) (string, bool) {
	s, err := url.QueryUnescape(v)
	return s, err == nil
}

func usableURI(s string) bool {
	if strings.Contains(s, "#") {
		return false
	}
	_, err := url.ParseRequestURI(s)
	return err == nil
}

func union(fs []fault) (codes, owners []string, why string) {
	for _, f := range fs {
		codes = append(codes, f.codes...)
		owners = append(owners, f.owners...)
		if why != "" {
			why += "; "
		}
		why += f.why
	}
	return
}

func deadOwner(reason string) string {
	switch reason {
	case "revoked":
		return "C08"
	case "replayed":
		return "C03"
	case "rotated":
		return "C04"
	case "used":
		return "C02"
	}
	return "C26"
}

// state classifies a credential for use as kind.
func (m *Model) state(s string, kind rune, now time.Time) (c *Cred, signed bool, why, owner string) {
	_, signed, _ = Verify([]byte(m.W.Secret), s)
	if !signed {
		return nil, false, "not a validly signed token", "C27"
	}
	c = m.find(s)
	if c == nil {
		return nil, true, "never issued", "C27"
	}
	if c.Kind != kind {
		return c, true, "a credential of another kind (" + string(c.Kind) + ")", "C27"
	}
	if c.Dead != "" {
		return c, true, c.Dead, deadOwner(c.Dead)
	}
	if now.After(c.Expires) {
		return c, true, "expired", "C26"
	}
	return c, true, "", ""
}

func (m *Model) ctxOwners(base ...string) []string {
	out := append([]string(nil), base...)
	for k := range m.ctx {
		out = append(out, k)
	}
	sort.Strings(out)
	return slices.Compact(out)
}

// Judge compares one answer with the model and updates the model from it.
func (m *Model) Judge(r *ROp, now time.Time, o *Outcome) []Viol {
	var vs []Viol
	if o.Panic != "" {
		return []Viol{{[]string{"C13"}, "panic: " + o.Panic}}
	}
	// what this request did matters for the judgement of later ones only
	m.next = map[string]bool{}
	defer func() {
		for k := range m.next {
			m.ctx[k] = true
		}
	}()
	vs = append(vs, wellFormed(r, o)...)
	m.misplaced(r)
	switch r.K {
	case "access":
		vs = append(vs, m.judgeAccess(r, now, o)...)
	case "authorize":
		vs = append(vs, m.judgeAuthorize(r, now, o)...)
	case "token":
		vs = append(vs, m.judgeToken(r, now, o)...)
	case "introspect":
		vs = append(vs, m.judgeIntrospect(r, now, o)...)
	case "revoke":
		vs = append(vs, m.judgeRevoke(r, now, o)...)
	}
	if m.stored {
		for i := range vs {
			vs[i].Owners = append(slices.Clone(vs[i].Owners), "C34")
		}
	}
	if m.changed {
		for i := range vs {
			vs[i].Owners = append(slices.Clone(vs[i].Owners), "C28")
		}
	}
	return vs
}

// misplaced notes the presentation of a credential where its kind has no place.
func (m *Model) misplaced(r *ROp) {
	see := func(s string, kinds string) {
		if c := m.find(s); c != nil && !strings.ContainsRune(kinds, c.Kind) {
			m.next["C27"] = true
			m.Stats["misplaced"]++
		}
	}
	see(r.form("code"), "c")
	see(r.form("refresh_token"), "r")
	see(r.form("token"), "ar")
	if r.K == "access" && len(r.Auth) > 7 {
		see(r.Auth[7:], "a")
	}
}

// NoStore tells whether the headers forbid caching.
func NoStore(h http.Header) bool { return noStore(h) }

func noStore(h http.Header) bool {
	return strings.Contains(strings.ToLower(h.Get("Cache-Control")), "no-store") && strings.EqualFold(h.Get("Pragma"), "no-cache")
}

// Framing tells why a response with the header would not arrive whole.
func Framing(h http.Header, n int) string {
	for _, l := range h.Values("Content-Length") {
		if l != strconv.Itoa(n) {
			return fmt.Sprintf("the announced length %s is not that of the body, %d", l, n)
		}
	}
	return ""
}

func wellFormed(r *ROp, o *Outcome) (vs []Viol) {
	bad := func(owners []string, f string, a ...any) {
		vs = append(vs, Viol{owners, fmt.Sprintf(f, a...)})
	}
	c13 := []string{"C13"}
	if o.Headers > 1 {
		bad(c13, "status written %d times", o.Headers)
	}
	if o.Status >= 500 || o.Status < 200 {
		bad(c13, "status %d", o.Status)
	}
	if f := Framing(o.Header, len(o.Body)); f != "" && r.Method != "HEAD" {
		bad(c13, "%s", f)
	}
	if o.Status == 401 && !o.HasChall {
		bad([]string{"C13", "C05"}, "401 without WWW-Authenticate")
	}
	if o.BadChall != "" {
		bad([]string{"C13", "C22"}, "malformed challenge: %s", o.BadChall)
	}
	if r.K == "access" {
		return
	}
	if o.Redirect != o.HasLoc {
		bad([]string{"C13", "C10"}, "status %d with Location %q", o.Status, o.Loc)
	}
	if o.Redirect && (o.Status != 303 || o.BadLoc != "") {
		bad([]string{"C13", "C17"}, "redirect with status %d %s", o.Status, o.BadLoc)
	}
	if o.Status >= 400 && (o.JSON == nil || o.Error == "") {
		bad(c13, "status %d without an OAuth2 error document: %q", o.Status, o.Body)
	}
	if (o.JSON != nil || o.Redirect) && !noStore(o.Header) {
		bad([]string{"C13", "C16"}, "cacheable response")
	}
	if o.JSON != nil && o.Status == 200 && o.Error != "" {
		bad(c13, "error document with status 200")
	}
	return
}

// refused judges an answer that must be an error for one of the given faults.
func (m *Model) refused(r *ROp, o *Outcome, fs []fault) []Viol {
	codes, owners, why := union(fs)
	if o.Error == "" || (o.Status < 400 && !o.Redirect) {
		return []Viol{{owners, fmt.Sprintf("not refused although %s", why)}}
	}
	if !slices.Contains(codes, o.Error) {
		return []Viol{{owners, fmt.Sprintf("refused with %s instead of %v although %s", o.Error, codes, why)}}
	}
	if !o.Redirect && statusOf[o.Error] != o.Status {
		return []Viol{{append(owners, "C13"), fmt.Sprintf("%s with status %d", o.Error, o.Status)}}
	}
	if o.Error == "invalid_client" && !o.HasChall {
		return []Viol{{append(owners, "C13", "C05"), "invalid_client without challenge"}}
	}
	if s, ok := o.JSON["access_token"]; ok {
		return []Viol{{append(owners, "C11"), fmt.Sprintf("refusal carries a token %v", s)}}
	}
	// what the refusal left behind is for these to explain
	for _, w := range owners {
		switch w {
		case "C02", "C04", "C05", "C06", "C08", "C27":
			m.next[w] = true
		}
	}
	return nil
}

var codeOwner = map[string]string{"invalid_client": "C05", "access_denied": "C06", "invalid_scope": "C07"}

func unexpected(o *Outcome, owners ...string) []Viol {
	if w := codeOwner[o.Error]; w != "" {
		owners = append(owners, w)
	}
	return []Viol{{owners, "valid request not served: " + o.String()}}
}

func (m *Model) judgeAccess(r *ROp, now time.Time, o *Outcome) []Viol {
	var fs []fault
	f := func(code string, why string, owners ...string) {
		fs = append(fs, fault{codes: []string{code}, owners: append(owners, "C01"), why: why})
	}
	tok := ""
	switch {
	case !r.HasAuth || r.Auth == "":
		f("", "no bearer token was sent")
	case len(r.Auth) < 8 || !strings.EqualFold(r.Auth[:6], "bearer") || r.Auth[6] != ' ':
		f("invalid_request", "the authorization header is malformed")
	default:
		tok = r.Auth[7:]
		c, _, why, owner := m.state(tok, 'a', now)
		if why != "" {
			owners := []string{owner}
			if c != nil && c.Dead != "" {
				owners = m.ctxOwners(owners...)
			}
			f("invalid_token", "the token is "+why, owners...)
		}
		if c != nil && c.Kind == 'a' && !subset(r.Required, c.Scope) {
			f("insufficient_scope", fmt.Sprintf("scope %q does not cover %q", c.Scope, r.Required), "C07")
		}
	}
	m.next["C11"] = true
	if len(fs) == 0 {
		m.Stats["access-ok"]++
		if !o.Allowed {
			return []Viol{{m.ctxOwners("C01"), fmt.Sprintf("usable token refused: %s", o)}}
		}
		if !o.Untouch {
			return []Viol{{[]string{"C01"}, fmt.Sprintf("allowed request but something was written: %s", o)}}
		}
		if o.Passed != "" {
			return []Viol{{[]string{"C01"}, "allowed request not passed on as it came: " + o.Passed}}
		}
		return nil
	}
	m.Stats["access-refused"]++
	codes, owners, why := union(fs)
	if o.Allowed {
		return []Viol{{owners, "access allowed although " + why}}
	}
	code := o.Chall["error"]
	if !slices.Contains(codes, code) {
		return []Viol{{owners, fmt.Sprintf("access refused with %q instead of %q although %s", code, codes, why)}}
	}
	want := statusOf[code]
	if code == "" {
		want = 401
	}
	if o.Status != want {
		return []Viol{{owners, fmt.Sprintf("access refused with status %d instead of %d (%s)", o.Status, want, why)}}
	}
	if !o.HasChall || o.Chall == nil {
		return []Viol{{[]string{"C01", "C13"}, "refused without a bearer challenge"}}
	}
	if len(o.Body) != 0 {
		return []Viol{{[]string{"C01", "C13", "C22"}, fmt.Sprintf("refused with body %q", o.Body)}}
	}
	return nil
}

func (m *Model) mustClientFaults(r *ROp, form bool) (fs []fault, cl *Client) {
	bad := func(code, why string) {
		fs = append(fs, fault{codes: []string{code}, owners: []string{"C05"}, why: why})
	}
	id, sec, ok := parseBasic(r.Auth)
	if !r.HasAuth {
		ok = false
	}
	if !ok {
		if !form {
			fs = append(fs, fault{codes: []string{"invalid_request"}, owners: []string{"C05", "C14"}, why: "no basic client credentials were sent"})
			return
		}
		id, sec = r.form("client_id"), r.form("client_secret")
	}
	if form && id == "" {
		fs = append(fs, fault{codes: []string{"invalid_request"}, owners: []string{"C05", "C14"}, why: "no client identification was sent"})
		return
	}
	cl = m.client(id)
	if cl == nil {
		bad("invalid_client", fmt.Sprintf("client %q is not registered", id))
		return
	}
	if cl.Confidential && string(cl.Secret) != sec {
		bad("invalid_client", fmt.Sprintf("the secret of client %q is wrong", id))
		return fs, cl
	}
	return
}

func (m *Model) add(c *Cred) []Viol {
	if m.find(c.Str) != nil {
		return []Viol{{[]string{"C19", "C12"}, fmt.Sprintf("credential %q was issued twice", c.Str)}}
	}
	key, signed, canonical := Verify([]byte(m.W.Secret), c.Str)
	if !signed || !canonical {
		return []Viol{{[]string{"C19", "C18"}, fmt.Sprintf("issued credential %q is not properly signed", c.Str)}}
	}
	if len(key) != m.W.KeyLength {
		return []Viol{{[]string{"C19"}, fmt.Sprintf("issued credential has a key of %d bytes instead of %d", len(key), m.W.KeyLength)}}
	}
	m.Creds = append(m.Creds, c)
	m.bySt[c.Str] = c
	return nil
}

// ownQuery removes the registered query from the received one.
func ownQuery(registered string, got map[string][]string) (added map[string][]string, ok bool) {
	_, q, _, _, _ := SplitLocation(registered)
	own, err := FormDecode(q)
	if err != nil {
		return nil, false
	}
	added = map[string][]string{}
	for k, v := range got {
		added[k] = slices.Clone(v)
	}
	for k, vs := range own {
		for _, v := range vs {
			i := slices.Index(added[k], v)
			if i < 0 {
				return nil, false
			}
			added[k] = slices.Delete(added[k], i, i+1)
		}
		if len(added[k]) == 0 {
			delete(added, k)
		}
	}
	return added, true
}

func one(m map[string][]string, k string) (string, bool) {
	if len(m[k]) != 1 {
		return "", false
	}
	return m[k][0], true
}

func (m *Model) judgeAuthorize(r *ROp, now time.Time, o *Outcome) []Viol {
	var fs, rfs []fault
	direct := func(why string, owners []string, codes ...string) {
		fs = append(fs, fault{codes: codes, owners: append(owners, "C10"), why: why})
	}
	rt, id, state := r.any("response_type"), r.any("client_id"), r.any("state")
	uri, okURI := effectiveRedirect(r.any("redirect_uri"))
	scope := words(r.any("scope"))
	get := r.Method == "GET"
	if r.Method != "GET" && r.Method != "POST" {
		direct("the method is "+r.Method, []string{"C14"}, "invalid_request")
		m.next["C11"] = true
		return m.directError(r, o, fs)
	}
	if rt == "" {
		direct("there is no response type", []string{"C14"}, "invalid_request")
	} else if rt != "code" && rt != "token" {
		direct("the response type is unknown", nil, "invalid_request", "unsupported_response_type")
	}
	if id == "" {
		direct("there is no client id", []string{"C14"}, "invalid_request")
	}
	if !okURI || uri == "" || !usableURI(uri) {
		direct("the redirect URI is missing or invalid", []string{"C14"}, "invalid_request")
	}
	cl := m.client(id)
	if id != "" && cl == nil {
		direct("the client is not registered", []string{"C05"}, "invalid_client")
	}
	if cl != nil && uri != string(cl.Redirect) {
		direct(fmt.Sprintf("%q is not the registered redirect URI", uri), nil, "invalid_request")
	}
	m.next["C11"] = true
	if len(fs) > 0 {
		return m.directError(r, o, fs)
	}
	if !subset(scope, m.allowed()) {
		rfs = append(rfs, fault{codes: []string{"invalid_scope"}, owners: []string{"C07"}, why: fmt.Sprintf("scope %q is not allowed", scope), redirect: true})
	}
	if get {
		m.Stats["authorize-get"]++
		if o.Redirect && o.Error == "invalid_scope" && len(rfs) > 0 {
			return m.errorRedirect(r, o, cl, rt, state, rfs)
		}
		if o.HasLoc {
			return []Viol{{[]string{"C06", "C10"}, "GET answered with a redirect: " + o.Loc}}
		}
		if o.Status != 200 {
			return []Viol{{[]string{"C06", "C10", "C13"}, "valid GET answered with " + o.String()}}
		}
		return nil
	}
	if !m.user(r.form("username"), r.form("password")) {
		rfs = append(rfs, fault{codes: []string{"access_denied"}, owners: []string{"C06"}, why: "the user credentials are wrong", redirect: true})
	}
	if len(rfs) > 0 {
		m.Stats["authorize-redirected-error"]++
		return m.errorRedirect(r, o, cl, rt, state, rfs)
	}
	m.Stats["authorize-"+rt]++
	if !o.Redirect || o.Error != "" {
		return unexpected(o, "C06", "C10")
	}
	vs := m.checkRedirect(r, o, cl, rt, state)
	if len(vs) > 0 {
		return vs
	}
	if rt == "code" {
		added, _ := ownQuery(string(cl.Redirect), o.Query)
		code, ok := one(added, "code")
		if !ok {
			return []Viol{{[]string{"C10", "C02", "C17"}, "redirect without a code: " + o.Loc}}
		}
		if len(added["access_token"])+len(added["refresh_token"]) > 0 {
			return []Viol{{[]string{"C10"}, "code redirect carries a token: " + o.Loc}}
		}
		return m.add(&Cred{Kind: 'c', Str: code, Client: id, User: r.form("username"), Scope: scope, Issued: now, Expires: now.Add(ms(m.W.CodeSec)), Redirect: uri})
	}
	at, ok := one(o.Frag, "access_token")
	if !ok {
		return []Viol{{[]string{"C10", "C17"}, "redirect without an access token in the fragment: " + o.Loc}}
	}
	if _, ok := o.Frag["refresh_token"]; ok {
		return []Viol{{[]string{"C10"}, "the implicit flow carries a refresh token"}}
	}
	if tt, _ := one(o.Frag, "token_type"); !strings.EqualFold(tt, "bearer") {
		return []Viol{{[]string{"C10", "C17"}, "token type " + tt}}
	}
	if e, _ := one(o.Frag, "expires_in"); e != fmt.Sprint(m.W.AccessSec/1000) {
		return []Viol{{[]string{"C26"}, fmt.Sprintf("expires_in %q, lifetime %v", e, ms(m.W.AccessSec))}}
	}
	if got := words(strings.Join(o.Frag["scope"], " ")); !sameSet(got, scope) {
		return []Viol{{[]string{"C07"}, fmt.Sprintf("reported scope %q, granted %q", got, scope)}}
	}
	return m.add(&Cred{Kind: 'a', Str: at, Client: id, User: r.form("username"), Scope: scope, Issued: now, Expires: now.Add(ms(m.W.AccessSec))})
}

func (m *Model) directError(r *ROp, o *Outcome, fs []fault) []Viol {
	m.Stats["authorize-direct-error"]++
	if o.HasLoc {
		_, owners, why := union(fs)
		return []Viol{{owners, "redirected although " + why + ": " + o.Loc}}
	}
	return m.refused(r, o, fs)
}

func (m *Model) errorRedirect(r *ROp, o *Outcome, cl *Client, rt, state string, fs []fault) []Viol {
	_, owners, why := union(fs)
	if !o.Redirect {
		if o.Error != "" {
			return []Viol{{append(owners, "C10"), "error not delivered by redirect: " + o.String()}}
		}
		return []Viol{{owners, "not refused although " + why}}
	}
	if o.Error == "" {
		return []Viol{{owners, "not refused although " + why + ": " + o.Loc}}
	}
	if len(o.Frag["access_token"])+len(o.Query["access_token"])+len(o.Frag["code"]) > 0 {
		return []Viol{{owners, "error redirect carries a credential: " + o.Loc}}
	}
	if vs := m.refused(r, o, fs); len(vs) > 0 {
		return vs
	}
	return m.checkRedirect(r, o, cl, rt, state)
}

func (m *Model) checkRedirect(r *ROp, o *Outcome, cl *Client, rt, state string) []Viol {
	c10 := func(f string, a ...any) []Viol { return []Viol{{[]string{"C10"}, fmt.Sprintf(f, a...)}} }
	if o.BadLoc != "" {
		return c10("bad Location: %s", o.BadLoc)
	}
	target, _, _, _, _ := SplitLocation(string(cl.Redirect))
	if o.Target != target {
		return c10("redirected to %q instead of %q", o.Target, target)
	}
	added, ok := ownQuery(string(cl.Redirect), o.Query)
	if !ok {
		return c10("the query of the registered URI %q was not kept in %q", cl.Redirect, o.Loc)
	}
	params := added
	if rt == "token" {
		if len(added) != 0 {
			return c10("implicit flow added query parameters: %q", o.Loc)
		}
		params = o.Frag
	} else if o.HasFrag {
		return c10("code flow used the fragment: %q", o.Loc)
	}
	got, has := params["state"]
	if state == "" && has && !(r.has("state") && len(got) == 1 && got[0] == "") {
		return c10("state %q although none was sent", got)
	}
	if state != "" && (len(got) != 1 || got[0] != state) {
		return c10("state %q instead of %q", got, state)
	}
	return nil
}

// grantFlow names the property a grant belongs to.
func grantFlow(g string) []string {
	switch g {
	case "authorization_code":
		return []string{"C02"}
	case "refresh_token":
		return []string{"C04"}
	case "client_credentials":
		return []string{"C05"}
	case "password":
		return []string{"C06"}
	}
	return []string{"C05", "C06"}
}

func (m *Model) judgeToken(r *ROp, now time.Time, o *Outcome) []Viol {
	var fs []fault
	bad := func(why string, owners []string, codes ...string) {
		fs = append(fs, fault{codes: codes, owners: owners, why: why})
	}
	g := r.form("grant_type")
	flow := grantFlow(g)
	if r.Method != "POST" {
		bad("the method is "+r.Method, append(flow, "C14"), "invalid_request")
		m.next["C11"] = true
		return m.refused(r, o, fs)
	}
	parse := true
	if g == "" {
		bad("there is no grant type", append(flow, "C14"), "invalid_request")
		parse = false
	} else if len(flow) == 2 {
		bad("the grant type is unknown", flow, "invalid_request", "unsupported_grant_type")
		parse = false
	}
	uri, okURI := effectiveRedirect(r.form("redirect_uri"))
	if !okURI || uri != "" && !usableURI(uri) {
		bad("the redirect URI is invalid", append(flow, "C14"), "invalid_request")
		parse = false
	}
	cfs, cl := m.mustClientFaults(r, true)
	fs = append(fs, cfs...)
	scope := words(r.form("scope"))
	granted, refreshScope := scope, scope
	user := ""
	id := ""
	if cl != nil {
		id = string(cl.ID)
	}
	var used *Cred
	var root *Cred
	switch g {
	case "password":
		user = r.form("username")
		if !m.user(user, r.form("password")) {
			bad("the user credentials are wrong", []string{"C06"}, "access_denied")
		}
		if !subset(scope, m.allowed()) {
			bad(fmt.Sprintf("scope %q is not allowed", scope), []string{"C07"}, "invalid_scope")
		}
	case "client_credentials":
		if cl != nil && !cl.Confidential {
			bad("the client is public", []string{"C05"}, "invalid_client")
		}
		if !subset(scope, m.allowed()) {
			bad(fmt.Sprintf("scope %q is not allowed", scope), []string{"C07"}, "invalid_scope")
		}
	case "authorization_code":
		c, signed, why, owner := m.state(r.form("code"), 'c', now)
		switch {
		case !signed:
			bad("the code is "+why, []string{"C02", "C27"}, "invalid_request")
		case c != nil && c.Kind == 'c' && c.Dead == "used":
			if parse && len(cfs) == 0 {
				// replay
				m.Stats["replay"]++
				if r2 := m.refused(r, o, []fault{{codes: []string{"invalid_grant"}, owners: []string{"C02", "C03"}, why: "the code was already redeemed"}}); len(r2) > 0 {
					return r2
				}
				n := 0
				for _, t := range m.Creds {
					if t.Root == c && t.Dead == "" {
						t.Dead = "replayed"
						n++
					}
				}
				if n > 0 {
					m.Stats["replay-kills"]++
				}
				if n > 2 {
					m.Stats["replay-kills-refreshed"]++
				}
				m.next["C03"] = true
				return nil
			}
			bad("the code was already redeemed", []string{"C02"}, "invalid_grant")
		case why != "":
			bad("the code is "+why, []string{"C02", owner}, "invalid_grant")
		default:
			used, root = c, c
			user, granted, refreshScope = c.User, c.Scope, c.Scope
			if c.Client != id {
				bad("the code belongs to another client", []string{"C02"}, "invalid_grant")
			}
			if c.Redirect != uri {
				bad("the redirect URI differs", []string{"C02"}, "invalid_grant")
			}
		}
	case "refresh_token":
		c, signed, why, owner := m.state(r.form("refresh_token"), 'r', now)
		switch {
		case !signed:
			bad("the refresh token is "+why, []string{"C04", "C27"}, "invalid_request")
		case why != "":
			own := []string{"C04", owner}
			if c != nil && c.Dead != "" && c.Kind == 'r' {
				own = m.ctxOwners(own...)
			}
			bad("the refresh token is "+why, own, "invalid_grant")
		default:
			used, root = c, c.Root
			user, refreshScope = c.User, c.Scope
			if len(scope) == 0 {
				granted = c.Scope
			}
			if c.Client != id {
				bad("the refresh token belongs to another client", []string{"C04"}, "invalid_grant")
			}
			if !subset(scope, c.Scope) {
				bad(fmt.Sprintf("scope %q exceeds the original %q", scope, c.Scope), []string{"C04", "C07"}, "invalid_scope")
			}
		}
	}
	m.next["C11"] = true
	if len(fs) > 0 {
		m.Stats["token-refused"]++
		return m.refused(r, o, fs)
	}
	m.Stats["token-"+g]++
	m.Stats["token-ok"]++
	if o.Status != 200 || o.Error != "" {
		if used != nil {
			return unexpected(o, m.ctxOwners(flow...)...)
		}
		return unexpected(o, flow...)
	}
	at, _ := o.str("access_token")
	if at == "" {
		return []Viol{{flow, "token response without an access token: " + o.String()}}
	}
	if tt, _ := o.str("token_type"); !strings.EqualFold(tt, "bearer") {
		return []Viol{{append(flow, "C16"), "token type " + tt}}
	}
	if e, ok := o.JSON["expires_in"].(json.Number); !ok || e.String() != fmt.Sprint(m.W.AccessSec/1000) {
		return []Viol{{[]string{"C26"}, fmt.Sprintf("expires_in %v, lifetime %v", o.JSON["expires_in"], ms(m.W.AccessSec))}}
	}
	sc, _ := o.str("scope")
	if !sameSet(words(sc), granted) {
		own := []string{"C07"}
		if used != nil {
			own = append(own, flow...)
		}
		return []Viol{{own, fmt.Sprintf("reported scope %q, granted %q", sc, granted)}}
	}
	rt, _ := o.str("refresh_token")
	if g == "refresh_token" && rt == "" {
		return []Viol{{flow, "no replacement refresh token"}}
	}
	if used != nil {
		if used.Kind == 'c' {
			used.Dead = "used"
			m.next["C02"] = true
		} else {
			used.Dead = "rotated"
			m.next["C04"] = true
			if len(scope) > 0 && len(set(scope)) < len(set(used.Scope)) {
				m.Stats["refresh-narrowed"]++
			}
		}
	}
	vs := m.add(&Cred{Kind: 'a', Str: at, Client: id, User: user, Scope: granted, Issued: now, Expires: now.Add(ms(m.W.AccessSec)), Root: root})
	if rt != "" {
		vs = append(vs, m.add(&Cred{Kind: 'r', Str: rt, Client: id, User: user, Scope: refreshScope, Issued: now, Expires: now.Add(ms(m.W.RefreshSec)), Root: root})...)
	}
	return vs
}

func (m *Model) tokenEndpointFaults(r *ROp, flow string) (fs []fault, cl *Client, done bool) {
	bad := func(why string, owners []string, codes ...string) {
		fs = append(fs, fault{codes: codes, owners: owners, why: why})
	}
	if r.Method != "POST" {
		bad("the method is "+r.Method, []string{flow, "C14"}, "invalid_request")
		return fs, nil, true
	}
	if r.form("token") == "" {
		bad("there is no token", []string{flow, "C14"}, "invalid_request")
	}
	if h := r.form("token_type_hint"); h != "" && h != "access_token" && h != "refresh_token" {
		bad("the hint is not supported", []string{flow}, "unsupported_token_type")
	}
	cfs, cl := m.mustClientFaults(r, false)
	if len(cfs) > 0 {
		cfs[0].owners = append(cfs[0].owners, flow)
	}
	return append(fs, cfs...), cl, false
}

func (m *Model) judgeIntrospect(r *ROp, now time.Time, o *Outcome) []Viol {
	m.next["C11"] = true
	fs, cl, done := m.tokenEndpointFaults(r, "C09")
	if done {
		return m.refused(r, o, fs)
	}
	tok := r.form("token")
	_, signed, _ := Verify([]byte(m.W.Secret), tok)
	c := m.find(tok)
	live := false
	owners := []string{"C09"}
	why := "never issued"
	lenient := false
	if !signed {
		if tok != "" {
			fs = append(fs, fault{codes: []string{"invalid_request"}, owners: []string{"C09"}, why: "the token is not validly signed"})
		}
	} else if c != nil && c.Kind != 'c' {
		live = c.Dead == "" && !now.After(c.Expires)
		why = c.Dead
		if c.Dead == "" && !live {
			why = "expired"
		}
		if cl != nil && c.Client != string(cl.ID) {
			if live {
				fs = append(fs, fault{codes: []string{"invalid_client"}, owners: []string{"C09"}, why: "the token belongs to another client"})
			} else {
				lenient = true
			}
		}
		if c.Dead != "" {
			owners = m.ctxOwners("C09", deadOwner(c.Dead))
		} else if !live {
			owners = []string{"C09", "C26"}
		}
	} else if c != nil {
		why = "an authorization code"
		owners = append(owners, "C27")
	} else {
		owners = append(owners, "C27")
	}
	if len(fs) > 0 {
		m.Stats["introspect-refused"]++
		if lenient {
			fs = append(fs, fault{codes: []string{"invalid_client"}, owners: []string{"C09"}, why: "the token belonged to another client"})
		}
		return m.refused(r, o, fs)
	}
	if lenient && o.Error == "invalid_client" {
		return nil
	}
	if o.Status != 200 || o.JSON == nil || o.Error != "" {
		return unexpected(o, "C09")
	}
	active, _ := o.JSON["active"].(bool)
	if !live {
		m.Stats["introspect-inactive"]++
		if active {
			return []Viol{{owners, "introspection answers active although the token is " + why}}
		}
		for k, v := range o.JSON {
			if k == "active" || v == nil || v == "" || v == json.Number("0") {
				continue
			}
			return []Viol{{[]string{"C09"}, fmt.Sprintf("inactive answer discloses %s=%v", k, v)}}
		}
		return nil
	}
	m.Stats["introspect-active"]++
	if !active {
		return []Viol{{m.ctxOwners("C09"), "introspection answers inactive for a usable token"}}
	}
	str := func(k string) string { s, _ := o.str(k); return s }
	kind := map[rune]string{'a': "access_token", 'r': "refresh_token"}[c.Kind]
	if str("token_type") != kind {
		return []Viol{{[]string{"C09", "C27"}, fmt.Sprintf("token_type %q instead of %q", str("token_type"), kind)}}
	}
	if str("client_id") != jsonText(c.Client) {
		return []Viol{{[]string{"C09"}, fmt.Sprintf("client_id %q instead of %q", str("client_id"), c.Client)}}
	}
	if str("username") != jsonText(c.User) {
		return []Viol{{[]string{"C09", "C06", "C04", "C02"}, fmt.Sprintf("username %q instead of %q", str("username"), c.User)}}
	}
	if !sameSet(words(str("scope")), words(jsonText(strings.Join(c.Scope, " ")))) {
		return []Viol{{[]string{"C09", "C07", "C04", "C02"}, fmt.Sprintf("scope %q instead of %q", str("scope"), c.Scope)}}
	}
	if e, _ := o.JSON["exp"].(json.Number); m.Slack > 0 {
		if n, err := e.Int64(); err != nil || n < c.Expires.Add(-m.Slack).Unix() || n > c.Expires.Add(m.Slack).Unix() {
			return []Viol{{[]string{"C09", "C26"}, fmt.Sprintf("exp %v instead of about %d", e, c.Expires.Unix())}}
		}
	} else if e.String() != fmt.Sprint(c.Expires.Unix()) {
		return []Viol{{[]string{"C09", "C26"}, fmt.Sprintf("exp %v instead of %d", e, c.Expires.Unix())}}
	}
	return nil
}

// jsonText is what a string looks like after a trip through JSON.
func jsonText(s string) string { return string([]rune(s)) }

func (m *Model) judgeRevoke(r *ROp, now time.Time, o *Outcome) []Viol {
	fs, cl, done := m.tokenEndpointFaults(r, "C08")
	if done {
		m.next["C11"] = true
		return m.refused(r, o, fs)
	}
	tok := r.form("token")
	_, signed, _ := Verify([]byte(m.W.Secret), tok)
	c := m.find(tok)
	lenient := false
	if !signed {
		if tok != "" {
			fs = append(fs, fault{codes: []string{"invalid_request"}, owners: []string{"C08"}, why: "the token is not validly signed"})
		}
	} else if c != nil && c.Kind != 'c' && cl != nil && c.Client != string(cl.ID) {
		if c.Dead == "" && !now.After(c.Expires) {
			fs = append(fs, fault{codes: []string{"invalid_client"}, owners: []string{"C08"}, why: "the token belongs to another client"})
		} else {
			lenient = true
		}
	}
	if len(fs) > 0 {
		m.Stats["revoke-refused"]++
		m.next["C11"], m.next["C08"] = true, true
		if lenient {
			fs = append(fs, fault{codes: []string{"invalid_client"}, owners: []string{"C08"}, why: "the token belonged to another client"})
		}
		return m.refused(r, o, fs)
	}
	m.next["C08"] = true
	if lenient && o.Error == "invalid_client" {
		return nil
	}
	if o.Status != 200 || o.Error != "" {
		return unexpected(o, "C08")
	}
	if c != nil && c.Kind != 'c' && c.Dead == "" && !lenient {
		c.Dead = "revoked"
		m.Stats["revoked"]++
	}
	return nil
}

// AuditOps lists requests that look at every credential without using it up.
func (m *Model) AuditOps() []*ROp {
	var out []*ROp
	for _, c := range m.sample() {
		if c.Kind == 'a' {
			out = append(out, &ROp{K: "access", Method: "GET", Path: "/audit", Auth: "Bearer " + c.Str, HasAuth: true, Required: c.Scope})
		}
		if c.Kind != 'c' {
			cl := m.client(c.Client)
			if cl == nil {
				continue
			}
			out = append(out, &ROp{K: "introspect", Method: "POST", Path: string(m.W.PathPrefix) + "introspect", Auth: Basic(c.Client, string(cl.Secret)), HasAuth: true, Form: []Pair{{"token", c.Str}}})
		}
	}
	return out
}

// DrainOps lists requests that redeem everything redeemable, dead refresh
// tokens included.
func (m *Model) DrainOps() []*ROp {
	var out []*ROp
	for _, c := range m.sample() {
		if c.Kind == 'a' || c.Dead == "used" {
			continue
		}
		cl := m.client(c.Client)
		if cl == nil {
			continue
		}
		r := &ROp{K: "token", Method: "POST", Path: string(m.W.PathPrefix) + "token", Auth: Basic(c.Client, string(cl.Secret)), HasAuth: true}
		if c.Kind == 'c' {
			r.Form = []Pair{{"grant_type", "authorization_code"}, {"code", c.Str}, {"redirect_uri", url.QueryEscape(c.Redirect)}}
		} else {
			r.Form = []Pair{{"grant_type", "refresh_token"}, {"refresh_token", c.Str}}
		}
		out = append(out, r)
	}
	for i := range m.W.Clients {
		cl := &m.W.Clients[i]
		req := func(form ...Pair) {
			out = append(out, &ROp{K: "token", Method: "POST", Path: string(m.W.PathPrefix) + "token", Auth: Basic(string(cl.ID), string(cl.Secret)), HasAuth: true, Form: form})
		}
		req(Pair{"grant_type", "client_credentials"})
		for _, u := range m.W.Users {
			req(Pair{"grant_type", "password"}, Pair{"username", string(u.Name)}, Pair{"password", string(u.Password)})
		}
	}
	return out
}

// sample is every credential unless there are very many.
func (m *Model) sample() []*Cred {
	n := len(m.Creds)
	if n <= 1500 {
		return m.Creds
	}
	out := m.Creds[:200:200]
	for i := 200; i < n-200; i += n/400 + 1 {
		out = append(out, m.Creds[i])
	}
	return append(out, m.Creds[n-200:]...)
}
