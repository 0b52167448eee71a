package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"github.com/256dpi/oauth2/v2/oauth2test"
	"pgregory.net/rapid"

	"aaverif/pbt"
	"aaverif/suite"
)

// suiteCase is a server together with the specification that describes it.
type suiteCase struct {
	Ref                         bool // the harness's own server instead of the built-in one
	ConfID, ConfSecret, ConfURI Str
	PubID, PubSecret, PubURI    Str
	BadURI                      Str
	User, Pass                  Str
	BadUser                     bool
	BadPass                     Str
	ByHeader                    bool
	Secret                      Str
	KeyLength                   int
	Allowed, Valid, Bad, Req    []Str
	ReqN                        int
	ValidAll                    bool // the issued credentials carry everything allowed
	AccessMS, RefreshMS, CodeMS int
	PastMS                      int
	Prefix, Resource            Str
	RefPaths                    []Str
	Query                       Str
	Password, CC, Implicit      bool
	Code, Refresh               bool
	Introspect, Revoke, Replay  bool
	BadToken                    int
	Tamper                      int
	Fault                       int
	Style                       int  // how the reference server writes its answers
	Tokens                      int  // what the tokens of the reference server look like
	Wire                        bool // the server is reached over a connection
}

func (c *suiteCase) has() suite.Has {
	return suite.Has{Password: c.Password, CC: c.CC, Implicit: c.Implicit, Code: c.Code, Refresh: c.Refresh,
		Introspect: c.Introspect, Revoke: c.Revoke, Replay: c.Replay, BadUser: c.BadUser}
}

func strsOf(xs []Str) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = string(x)
	}
	return out
}

func (c *suiteCase) paths() map[string]string {
	m := map[string]string{}
	for i, n := range []string{"token", "authorize", "introspect", "revoke"} {
		if c.Ref {
			m[n] = string(c.RefPaths[i])
		} else {
			m[n] = string(c.Prefix) + "/" + n
		}
	}
	m["resource"] = string(c.Resource)
	return m
}

// build makes a fresh server and its specification.
func (c *suiteCase) build(fault string) (http.Handler, *oauth2test.Spec, string) {
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	paths := c.paths()
	allowed, valid := strsOf(c.Allowed), strsOf(c.Valid)
	required := valid[:min(len(valid), 1+c.ReqN)]
	full := allowed
	if !c.ValidAll {
		full = valid
	}
	confID, confURI := string(c.ConfID), string(c.ConfURI)
	var h http.Handler
	var issue func(kind string, scope []string, life time.Duration) string
	var unknown func() string
	badTokens := []string{"invalid", "x", "a.b", "a", "-._~+/=", "xyz.xyz.xyz", "="}
	if c.Ref {
		s := suite.NewRef(suite.Cfg{
			ConfID: confID, ConfSecret: string(c.ConfSecret), ConfURI: confURI, PubID: string(c.PubID), PubURI: string(c.PubURI),
			User: string(c.User), Pass: string(c.Pass), Allowed: allowed, Required: required,
			AccessLife: ms(c.AccessMS), RefreshLife: ms(c.RefreshMS), CodeLife: ms(c.CodeMS), Paths: paths,
			Password: c.Password, CC: c.CC, Implicit: c.Implicit, Code: c.Code, Refresh: c.Refresh, Replay: c.Replay, ByHeader: c.ByHeader, Style: c.Style, Tokens: c.Tokens,
		}, fault)
		h = s
		issue = func(kind string, scope []string, life time.Duration) string {
			return s.Issue(kind, confID, string(c.User), confURI, "", scope, life)
		}
		unknown = s.Unknown
	} else {
		cfg := oauth2.DefaultServerConfig([]byte(c.Secret), oauth2.Scope(allowed))
		cfg.KeyLength = c.KeyLength
		cfg.AccessTokenLifespan, cfg.RefreshTokenLifespan, cfg.AuthorizationCodeLifespan = ms(c.AccessMS), ms(c.RefreshMS), ms(c.CodeMS)
		s := oauth2.NewServer(cfg)
		s.Clients[confID] = &oauth2.ServerEntity{Secret: string(c.ConfSecret), RedirectURI: confURI, Confidential: true}
		s.Clients[string(c.PubID)] = &oauth2.ServerEntity{Secret: string(c.PubSecret), RedirectURI: string(c.PubURI)}
		s.Users[string(c.User)] = &oauth2.ServerEntity{Secret: string(c.Pass)}
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path == paths["resource"] {
				if s.Authorize(w, r, oauth2.Scope(required)) {
					w.Write([]byte("OK"))
				}
				return
			}
			s.ServeHTTP(w, r)
		})
		issue = func(kind string, scope []string, life time.Duration) string {
			t := cfg.MustGenerate()
			m := map[string]map[string]*oauth2.ServerCredential{"a": s.AccessTokens, "r": s.RefreshTokens, "c": s.AuthorizationCodes}[kind]
			cred := &oauth2.ServerCredential{ClientID: confID, Username: string(c.User), Scope: oauth2.Scope(scope), ExpiresAt: time.Now().Add(life)}
			if kind == "c" {
				cred.RedirectURI = confURI
			}
			m[t.SignatureString()] = cred
			return t.String()
		}
		unknown = func() string { return cfg.MustGenerate().String() }
		other := oauth2.MustGenerateHS256Token(append([]byte("other"), c.Secret...), 16).String()
		good := cfg.MustGenerate().String()
		k, _, _ := strings.Cut(good, ".")
		badTokens = append(badTokens, other, k, k+".", good+"."+k)
	}
	q := string(c.Query)
	spec := &oauth2test.Spec{
		TokenEndpoint: paths["token"] + q, AuthorizeEndpoint: paths["authorize"] + q, ProtectedResource: paths["resource"],
		PasswordGrantSupport: c.Password, ClientCredentialsGrantSupport: c.CC, ImplicitGrantSupport: c.Implicit,
		AuthorizationCodeGrantSupport: c.Code, RefreshTokenGrantSupport: c.Refresh,
		ConfidentialClientID: confID, ConfidentialClientSecret: string(c.ConfSecret), PublicClientID: string(c.PubID),
		InvalidScope: strings.Join(strsOf(c.Bad), " "), ValidScope: strings.Join(valid, " "),
		ExceedingScope:    strings.Join(append(append([]string{}, valid...), strsOf(c.Bad)...), " "),
		ExpectedExpiresIn: c.AccessMS / 1000,
	}
	past, hour := -ms(c.PastMS), time.Hour
	spec.InvalidToken = badTokens[c.BadToken%len(badTokens)]
	spec.UnknownToken = unknown()
	spec.ValidToken = issue("a", full, hour)
	spec.ExpiredToken = issue("a", full, past)
	spec.InsufficientToken = issue("a", nil, hour)
	if c.Introspect {
		spec.IntrospectionEndpoint = paths["introspect"] + q
	}
	if c.Revoke {
		spec.RevocationEndpoint = paths["revoke"] + q
	}
	if c.Password {
		spec.ResourceOwnerUsername, spec.ResourceOwnerPassword = string(c.User), string(c.Pass)
	}
	if c.Implicit || c.Code {
		spec.InvalidRedirectURI, spec.PrimaryRedirectURI, spec.SecondaryRedirectURI = string(c.BadURI), confURI, string(c.PubURI)
		n, p := "username", "password"
		if c.Ref && c.ByHeader {
			n, p = "X-User", "X-Pass"
		}
		good := map[string]string{n: string(c.User), p: string(c.Pass)}
		bad := map[string]string{n: string(c.User), p: string(c.BadPass)}
		if c.BadUser {
			bad = map[string]string{n: string(c.BadPass), p: string(c.Pass)}
		}
		if c.Ref && c.ByHeader {
			spec.ValidAuthorizationHeaders, spec.InvalidAuthorizationHeaders = good, bad
		} else {
			spec.ValidAuthorizationParams, spec.InvalidAuthorizationParams = good, bad
		}
	}
	if c.Code {
		spec.InvalidAuthorizationCode = badTokens[(c.BadToken+1)%len(badTokens)]
		spec.UnknownAuthorizationCode = unknown()
		spec.ExpiredAuthorizationCode = issue("c", valid, past)
		spec.CodeReplayMitigation = c.Replay
	}
	if c.Refresh {
		spec.InvalidRefreshToken = badTokens[(c.BadToken+2)%len(badTokens)]
		spec.UnknownRefreshToken = unknown()
		spec.ValidRefreshToken = issue("r", valid, hour)
		spec.ExpiredRefreshToken = issue("r", valid, past)
	}
	return h, spec, spec.UnknownToken
}

/* the worker process */

// suiteJob is one request to the worker.
type suiteJob struct {
	Case  suiteCase
	Fault string
	N     int // tampering option, or -1
}

// suiteRun is its answer.
type suiteRun struct {
	Passed     bool
	Requests   int
	Undeclared []string
	Options    int
	Option     string
	Output     string
	Changed    string `json:",omitempty"`
	Died       string `json:",omitempty"`
}

// suiteOnce runs the conformance suite and reports whether it passed.
func suiteOnce(spec *oauth2test.Spec) bool {
	return testing.RunTests(func(_, _ string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "Suite", F: func(t *testing.T) { oauth2test.Run(t, spec) }}})
}

// observe runs the suite through the proxy.
func (c *suiteCase) observe(fault string, t *suite.Tamper) (*suite.Proxy, bool, string) {
	h, spec, unknown := c.build(fault)
	if c.Wire {
		h = suite.Wire(h)
	}
	p := &suite.Proxy{To: h, Paths: c.paths(), Tamper: t, ValidAT: spec.ValidToken, Unknown: unknown}
	if spec.IntrospectionEndpoint == "" {
		p.Paths["introspect"] = ""
	}
	if spec.RevocationEndpoint == "" {
		p.Paths["revoke"] = ""
	}
	if !c.Implicit && !c.Code {
		p.Paths["authorize"] = ""
	}
	text := func() string {
		x := *spec
		x.Handler = nil
		return fmt.Sprintf("%+v", x)
	}
	before := text()
	spec.Handler = p
	ok := suiteOnce(spec)
	if after := text(); after != before {
		return p, ok, before + " became " + after
	}
	return p, ok, ""
}

func TestSuiteWorker(t *testing.T) {
	if os.Getenv("AAV_WORKER") != "suite" {
		t.Skip("only used as a worker process")
	}
	out := os.NewFile(3, "results")
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	tmp, err := os.CreateTemp("", "suite")
	if err != nil {
		t.Fatal(err)
	}
	os.Remove(tmp.Name())
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j suiteJob
		if err := json.Unmarshal(line, &j); err != nil {
			panic("harness panic: " + err.Error())
		}
		tmp.Truncate(0)
		tmp.Seek(0, 0)
		os.Stdout = tmp
		var tam *suite.Tamper
		var run suiteRun
		var p *suite.Proxy
		if j.N >= 0 {
			p, run.Passed, run.Changed = j.Case.observe(j.Fault, nil)
			if !run.Passed {
				run.Option = "" // nothing to tamper with
			} else {
				var opts []suite.Tamper
				for _, e := range p.Log {
					opts = append(opts, p.Options(e)...)
				}
				run.Options = len(opts)
				if len(opts) > 0 {
					tam = &opts[j.N%len(opts)]
					e := p.Log[tam.N]
					run.Option = fmt.Sprintf("%s of request %d (%s %s %v, answered %d) becomes %q", tam.Kind, tam.N, e.Method, e.Path, e.Form, e.Resp.Code, tam.With)
					fmt.Fprintf(out, "{\"Option\":%s,\"Options\":%d}\n", mustJSON(run.Option), run.Options)
					p, run.Passed, run.Changed = j.Case.observe(j.Fault, tam)
				}
			}
		} else {
			p, run.Passed, run.Changed = j.Case.observe(j.Fault, nil)
		}
		os.Stdout = stdout
		run.Requests = len(p.Log)
		for _, e := range p.Log {
			if e.UndeclaredEP && !slices.Contains(run.Undeclared, e.Path) {
				run.Undeclared = append(run.Undeclared, e.Path)
			}
		}
		tmp.Seek(0, 0)
		b, _ := io.ReadAll(io.LimitReader(tmp, 2500))
		run.Output = string(b)
		out.Write(append(mustJSON(run), '\n'))
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

type suiteWorker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	f    *os.File
	errs *os.File
}

var (
	workerMu sync.Mutex
	worker   *suiteWorker
)

func startWorker() *suiteWorker {
	bin := os.Getenv("AAV_BIN")
	if bin == "" {
		var err error
		if bin, err = os.Executable(); err != nil {
			panic(err)
		}
	}
	w := &suiteWorker{cmd: exec.Command(bin, "-test.run", "^TestSuiteWorker$", "-test.timeout", "0")}
	w.cmd.Env = append(os.Environ(), "AAV_WORKER=suite")
	r, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	w.cmd.ExtraFiles = []*os.File{pw}
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	if w.errs, err = os.CreateTemp("", "suite"); err != nil {
		panic(err)
	}
	os.Remove(w.errs.Name())
	w.cmd.Stderr, w.cmd.Stdout = w.errs, w.errs
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	w.f, w.out = r, bufio.NewReaderSize(r, 1<<16)
	return w
}

func (w *suiteWorker) stop() string {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.f.Close()
	w.errs.Seek(0, 0)
	b, _ := io.ReadAll(io.LimitReader(w.errs, 6000))
	w.errs.Close()
	return string(b)
}

// runSuite has the worker run the suite. A worker that dies or hangs means the
// suite did not pass.
func runSuite(j suiteJob) suiteRun {
	workerMu.Lock()
	defer workerMu.Unlock()
	if worker == nil {
		worker = startWorker()
	}
	line := append(mustJSON(j), '\n')
	var res suiteRun
	done := make(chan error, 1)
	w := worker
	go func() {
		if _, err := w.in.Write(line); err != nil {
			done <- err
			return
		}
		for {
			b, err := w.out.ReadBytes('\n')
			if err != nil {
				done <- err
				return
			}
			var r suiteRun
			if err := json.Unmarshal(b, &r); err != nil {
				done <- err
				return
			}
			if r.Requests == 0 && r.Option != "" {
				res.Option, res.Options = r.Option, r.Options
				continue
			}
			res = r
			done <- nil
			return
		}
	}()
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		w.cmd.Process.Kill()
		<-done
		err = fmt.Errorf("hung")
	}
	if err != nil {
		text := w.stop()
		worker = nil
		if strings.Contains(text, "harness panic") || !strings.Contains(text, "panic") && err.Error() != "hung" {
			panic("harness panic: worker: " + err.Error() + "\n" + text)
		}
		i := strings.Index(text, "panic")
		res.Died = err.Error() + ": " + text[max(i, 0):min(len(text), max(i, 0)+1500)]
	}
	return res
}

func stopWorker() {
	workerMu.Lock()
	defer workerMu.Unlock()
	if worker != nil {
		worker.stop()
		worker = nil
	}
}

/* generators */

var (
	genScopeTok = pbt.OneOf(
		pbt.Pick[Str]("foo", "bar", "baz", "read", "write", "a", "openid"),
		pbt.Match(`[a-z]{1,8}(:[a-z]{1,5})?`),
		pbt.Match("[\x21\x23-\x5b\x5d-\x7e]{1,6}"),
		pbt.Pick[Str]("a+b", "a%20b", "%", "&x", "a=b", "a;b", "state=1", "x,", ",", "foo,bar", "#", "?", "a/b", "https://x.y/z", "%2B"),
	)
	genName = pbt.OneOf(
		pbt.Pick[Str]("client1", "client2", "a", "b", "user1", "admin", "me@example.com", "unknown2", "Invalid", "x y", "ü"),
		pbt.Match(`[a-zA-Z0-9._~-]{1,12}`),
		pbt.Match("[\x20-\x39\x3b-\x7e]{1,10}"),
		pbt.Text(1, 8),
	)
	genHeaderName = pbt.OneOf(pbt.Match(`[a-zA-Z0-9._~-]{1,12}`), pbt.Match("[\x21-\x7e]([\x20-\x7e]{0,6}[\x21-\x7e])?"))
	genSecret     = pbt.OneOf(
		pbt.Pick[Str]("foo", "secret", "a", "p:w", ":", "::a", "Invalid", "invalid ", "a b", "a+b", "%41", "&=;"),
		pbt.Match("[\x20-\x7e]{1,12}"),
		pbt.Text(1, 8),
	)
	// no '%' and no '+', see the known finding
	genCleanURI = pbt.OneOf(
		pbt.Pick[Str]("http://example.com/callback1", "http://example.com/callback2", "https://x.y", "https://x.y/", "app://cb", "com.example.app:/oauth", "/local", "http://localhost:8080/cb?x=1",
			"https://a.b/c?q=1&a=2", "https://[::1]:1234/cb", "http://127.0.0.1/", "https://u@h.x/p", "https://x.y/?", "https://x.y/?b", "https://x.y:443/cb", "http://x.y:80", "https://[::1]:443/"),
		pbt.Match(`https?://[a-z]{1,6}\.[a-z]{2,3}(:[1-9][0-9]{1,3})?(/[a-zA-Z0-9._~!$'()*,;=:@-]{0,5}){0,3}(\?[abqx]=[a-zA-Z0-9.~_-]{0,5}(&[abqx]=[a-zA-Z0-9]{0,3})?)?`),
		pbt.Match(`[a-z][a-z0-9.-]{1,6}://[a-z]{0,6}(/[a-z]{0,3})?`),
	)
	genDirtyURI = pbt.OneOf(genCleanURI, pbt.Match(`https://[a-z]{1,5}\.io/(%20|\+|%2B|%25|%C3%A9|[a-z]){1,4}(\?[abqx]=(%26|\+|%3D|[a-z]){0,3})?`))
	genPath     = pbt.OneOf(
		pbt.Pick[Str]("/oauth2", "", "/", "/a/b/c", "/v1.0", "/token", "/authorize", "/introspect/revoke", "/~u", "/a-b_c", "/api//x", "/ü"),
		pbt.Match(`(/[a-zA-Z0-9._~-]{1,6}){0,4}`),
	)
)

func distinct[T comparable](t *rapid.T, g *rapid.Generator[T], not ...T) T {
	for i := 0; i < 50; i++ {
		v := g.Draw(t, "")
		if !slices.Contains(not, v) {
			return v
		}
	}
	t.Skip("no distinct value")
	panic("")
}

func distinctList(t *rapid.T, g *rapid.Generator[Str], lo, hi int, not []Str) []Str {
	var out []Str
	n := pbt.Int(lo, hi).Draw(t, "")
	for i := 0; i < n; i++ {
		out = append(out, distinct(t, g, append(append([]Str{}, not...), out...)...))
	}
	return out
}

var genLife = pbt.OneOf(pbt.Int(60_000, 100_000), pbt.Pick(3600_000, 600_000, 60_000, 60_999, 7*24*3600_000, 86400_000), pbt.Int(60_000, 100_000_000), pbt.Int(60_000, 200_000_000_000))

func genSuite(ref int) *rapid.Generator[suiteCase] {
	return rapid.Custom(func(t *rapid.T) suiteCase {
		c := suiteCase{Ref: pbt.Chance(t, ref)}
		uri, name, sec := genCleanURI, genName, genSecret
		if c.Ref {
			uri = genDirtyURI
			c.ByHeader = pbt.Chance(t, 25)
			if pbt.Chance(t, 60) {
				c.Style = pbt.Int(0, suite.StyleEnd-1).Draw(t, "")
			}
			c.Tokens = pbt.Int(0, suite.TokenForms-1).Draw(t, "")
			if c.ByHeader {
				name, sec = genHeaderName, genHeaderName
			}
		}
		c.ConfID = distinct(t, genName, "unknown", "invalid")
		c.PubID = distinct(t, genName, "unknown", "invalid", c.ConfID)
		for _, p := range []*Str{&c.ConfID, &c.PubID} {
			*p = Str(strings.ReplaceAll(string(*p), ":", ";"))
		}
		if c.ConfID == c.PubID {
			t.Skip("same client ids")
		}
		c.ConfSecret = distinct(t, genSecret, "invalid")
		c.PubSecret = pbt.OneOf(genSecret, rapid.Just(Str(""))).Draw(t, "")
		c.ConfURI = uri.Draw(t, "")
		c.PubURI = distinct(t, uri, c.ConfURI)
		c.BadURI = distinct(t, pbt.OneOf(uri, pbt.Pick[Str]("http://invalid.com", "x", "not a uri", "http://x/#f"), rapid.Just(c.PubURI), rapid.Just(c.ConfURI+"x"), rapid.Just(c.ConfURI[:len(c.ConfURI)-1])), c.ConfURI, "")
		c.User = distinct(t, name, "invalid")
		c.Pass = distinct(t, sec, "invalid")
		c.BadUser = pbt.Chance(t, 35)
		if c.BadUser {
			c.BadPass = distinct(t, name, c.User)
		} else {
			c.BadPass = distinct(t, pbt.OneOf(sec, pbt.Pick[Str]("invalid", ""), rapid.Just(c.Pass+"x")), c.Pass)
		}
		c.Secret = pbt.OneOf(pbt.Pick[Str]("secret", "", "k"), pbt.Bytes(0, 80)).Draw(t, "")
		c.KeyLength = pbt.OneOf(rapid.Just(16), pbt.Int(16, 64)).Draw(t, "")
		c.Valid = distinctList(t, genScopeTok, 1, 4, nil)
		c.Allowed = append(append([]Str{}, c.Valid...), distinctList(t, genScopeTok, 0, 3, c.Valid)...)
		if pbt.Chance(t, 60) {
			c.Allowed = rapid.Permutation(c.Allowed).Draw(t, "")
		}
		c.Bad = distinctList(t, genScopeTok, 1, 2, c.Allowed)
		c.ReqN = pbt.Int(0, 3).Draw(t, "")
		c.ValidAll = rapid.Bool().Draw(t, "")
		c.AccessMS, c.RefreshMS, c.CodeMS = genLife.Draw(t, ""), genLife.Draw(t, ""), genLife.Draw(t, "")
		c.PastMS = pbt.Pick(1000, 5, 3600_000, 86400_000*400).Draw(t, "")
		c.Prefix = genPath.Draw(t, "")
		if c.Prefix == "/" { // a path must not begin with two slashes
			c.Prefix = ""
		}
		c.Resource = distinct(t, rapid.Map(genPath, func(s Str) Str { return "/r" + s }))
		if c.Ref {
			for len(c.RefPaths) < 4 {
				c.RefPaths = append(c.RefPaths, distinct(t, rapid.Map(genPath, func(s Str) Str { return "/e" + s }), c.RefPaths...))
			}
		}
		c.Query = pbt.Pick[Str]("", "", "", "?tenant=1", "?a=b&c=d").Draw(t, "")
		for _, b := range []*bool{&c.Password, &c.CC, &c.Implicit, &c.Code, &c.Refresh, &c.Introspect, &c.Revoke, &c.Replay} {
			*b = pbt.Chance(t, 65)
		}
		c.BadToken = pbt.Int(0, 9).Draw(t, "")
		c.Tamper = pbt.Int(0, 1<<20).Draw(t, "")
		c.Fault = pbt.Int(0, 1<<20).Draw(t, "")
		c.Wire = rapid.Bool().Draw(t, "")
		return c
	})
}

func (c *suiteCase) label(x *pbt.X) {
	if c.Ref {
		x.Label("own reference server")
		if c.Style != 0 {
			x.Label("answers written differently")
		}
	} else {
		x.Label("built-in server")
	}
	for n, b := range map[string]bool{"password": c.Password, "client_credentials": c.CC, "implicit": c.Implicit, "code": c.Code, "refresh": c.Refresh, "introspection": c.Introspect, "revocation": c.Revoke, "replay mitigation": c.Code && c.Replay} {
		if b {
			x.Label("declares %s", n)
		} else {
			x.Label("lacks %s", n)
		}
	}
	if strings.ContainsAny(strings.Join(strsOf(c.Valid), ""), "%+&;=#") {
		x.Label("scope with characters that need encoding")
	}
	if c.Wire {
		x.Label("server behind a connection")
	}
	if c.Query != "" {
		x.Label("endpoint with query")
	}
}

func checkSuitePasses(x *pbt.X, c suiteCase) error {
	r := runSuite(suiteJob{c, "", -1})
	c.label(x)
	x.Count("requests sent by the suite", r.Requests)
	x.NonTrivial()
	what := map[bool]string{true: "a conforming server", false: "the built-in server"}[c.Ref]
	if r.Died != "" {
		return fmt.Errorf("the suite crashed against %s that conforms to its specification: %s", what, r.Died)
	}
	if !r.Passed {
		msg := fmt.Sprintf("the suite fails against %s that conforms to its specification:\n%s", what, r.Output)
		if !c.Ref && (c.Implicit || c.Code) && strings.ContainsAny(string(c.ConfURI)+string(c.PubURI), "%+") {
			return pbt.Known("redirect-uri-decoded-twice", "%s", msg)
		}
		return fmt.Errorf("%s", msg)
	}
	if r.Changed != "" {
		return fmt.Errorf("the suite changes the specification of its caller: %s", r.Changed)
	}
	if len(r.Undeclared) > 0 {
		return fmt.Errorf("the suite passes but requests %q, which the specification does not declare", r.Undeclared)
	}
	return nil
}

func checkTamperCaught(x *pbt.X, c suiteCase) error {
	r := runSuite(suiteJob{c, "", c.Tamper})
	if r.Option == "" {
		x.Foreign("the suite already fails without tampering: " + r.Died + r.Output)
		return nil
	}
	c.label(x)
	x.NonTrivial()
	k, _, _ := strings.Cut(r.Option, " of request")
	x.Label("tampered: %s", k)
	if r.Died != "" {
		x.Label("suite panicked")
		return nil
	}
	if r.Passed {
		return fmt.Errorf("the suite passes although one response was changed: %s", r.Option)
	}
	return nil
}

func checkFaultCaught(x *pbt.X, c suiteCase) error {
	if !c.Ref {
		c.Ref = true
		c.RefPaths = []Str{"/e/token", "/e/authorize", "/e/introspect", "/e/revoke"}
	}
	fs := suite.Faults(c.has())
	f := fs[c.Fault%len(fs)]
	c.label(x)
	x.NonTrivial()
	x.Label("fault: %s", f)
	r := runSuite(suiteJob{c, f, -1})
	if r.Died != "" {
		x.Label("suite panicked")
		return nil
	}
	if r.Passed {
		return fmt.Errorf("the suite passes on a server with the fault %q", f)
	}
	return nil
}

func plainCase() suiteCase {
	return suiteCase{
		ConfID: "client1", ConfSecret: "foo", ConfURI: "http://example.com/callback1", PubID: "client2", PubSecret: "foo", PubURI: "http://example.com/callback2",
		BadURI: "http://invalid.com", User: "user1", Pass: "foo", BadPass: "invalid", Secret: "secret", KeyLength: 16,
		Allowed: []Str{"foo", "bar"}, Valid: []Str{"foo", "bar"}, Bad: []Str{"baz"}, ValidAll: true, AccessMS: 3600_000, RefreshMS: 3600_000, CodeMS: 600_000, PastMS: 3600_000,
		Prefix: "/oauth2", Resource: "/api/protected", Password: true, CC: true, Implicit: true, Code: true, Refresh: true, Introspect: true, Revoke: true, Replay: true,
	}
}

func TestC24(t *testing.T) {
	defer stopWorker()
	enc := plainCase()
	enc.ConfURI = "http://example.com/a%20b"
	scope := plainCase()
	scope.Valid, scope.Allowed = []Str{"a+b"}, []Str{"a+b"}
	ps := []suiteCase{plainCase(), enc, scope}
	for i := 1; i < suite.StyleEnd; i *= 2 {
		c := plainCase()
		c.Ref, c.RefPaths, c.Style = true, []Str{"/e/token", "/e/authorize", "/e/introspect", "/e/revoke"}, i
		ps = append(ps, c)
	}
	pbt.Check(t, "C24", pbt.P("suite", 3000, 20, genSuite(30), checkSuitePasses, ps...))
}

func TestC25(t *testing.T) {
	defer stopWorker()
	pbt.Check(t, "C25",
		pbt.P("tamper", 3000, 20, genSuite(50), checkTamperCaught),
		pbt.P("fault", 2500, 20, genSuite(100), checkFaultCaught),
	)
}
