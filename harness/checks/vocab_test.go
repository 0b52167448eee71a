package checks

import (
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"testing"
	"unicode"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	"aaverif/pbt"
)

// ---- C33

// The words of the protocol, taken from RFC 6749, RFC 7009 and RFC 7662.
var (
	grantWords    = []string{"password", "client_credentials", "authorization_code", "refresh_token"}
	responseWords = []string{"token", "code"}
	tokenWords    = []string{"access_token", "refresh_token"}
	allWords      = []string{"password", "client_credentials", "authorization_code", "refresh_token", "token", "code", "access_token"}
	// words of other parts of the protocol family, which the library must not take for its own
	otherWords = []string{"implicit", "id_token", "none", "device_code", "bearer", "Bearer", "mac", "hybrid", "urn:ietf:params:oauth:grant-type:jwt-bearer", "urn:ietf:params:oauth:grant-type:device_code",
		"urn:ietf:params:oauth:token-type:access_token", "client-credentials", "authorization-code", "refresh-token", "access-token", "clientCredentials", "authorizationCode", "refreshToken", "accessToken", "passwords", "tokens", "codes", "jwt", "saml2",
		"client credentials", "authorization code", "refresh token", "access token", "pass", "word", "credentials", "client", "authorization", "refresh", "access", "", " ", "_token", "*"}
)

type wordCase struct {
	Word Str
	How  string
}

func wordGen() *rapid.Generator[wordCase] {
	all := slices.Concat(allWords, otherWords)
	fold := map[rune][]rune{'k': {'K', '\u212a'}, 's': {'S', 'ſ'}}
	return rapid.Custom(func(t *rapid.T) wordCase {
		w := pbt.Pick(all...).Draw(t, "w")
		n := pbt.Int(0, 1000).Draw(t, "n")
		c := wordCase{How: pbt.Pick("same", "upper", "title", "some", "special", "pad", "cut", "double", "pair", "junk", "swap", "byte", "any").Draw(t, "how")}
		at := func(m int) int {
			if m <= 0 {
				return 0
			}
			return n % m
		}
		sep := pbt.Pick(" ", ",", "+", "|", ";", "\t", "", "\x00", ".", "/", ":", "&").Draw(t, "sep")
		other := pbt.Pick(all...).Draw(t, "other")
		switch c.How {
		case "upper":
			w = strings.ToUpper(w)
		case "title":
			w = strings.Title(w) //nolint
		case "some":
			r := []rune(w)
			if len(r) > 0 {
				r[at(len(r))] = unicode.ToUpper(r[at(len(r))])
			}
			w = string(r)
		case "special":
			r := []rune(w)
			for i := range r {
				if f := fold[r[i]]; f != nil {
					r[i] = f[at(len(f))]
					break
				}
			}
			w = string(r)
		case "pad":
			p := pbt.Pick(" ", "\t", "\n", "\r\n", "\u00a0", "\x00", "\u200b", "\ufeff", "\"", "'", "%20").Draw(t, "p")
			w = []string{p + w, w + p, p + w + p}[at(3)]
		case "cut":
			if len(w) > 0 {
				w = []string{w[1:], w[:len(w)-1], w[at(len(w)):], w[:at(len(w))]}[n/7%4]
			}
		case "double":
			w = w + sep + w
		case "pair":
			w = w + sep + other
		case "junk":
			j := string(pbt.Text(1, 4).Draw(t, "j"))
			w = []string{j + w, w + j, w[:at(len(w))] + j + w[at(len(w)):]}[n/7%3]
		case "swap":
			w = []string{strings.ReplaceAll(w, "_", "-"), strings.ReplaceAll(w, "_", " "), strings.ReplaceAll(w, "_", ""), strings.ReplaceAll(w, "_", "__")}[at(4)]
		case "byte":
			b := []byte(w)
			if len(b) > 0 {
				b[at(len(b))] ^= 1 << (n / 13 % 8)
			}
			w = string(b)
		case "any":
			w = string(pbt.OneOf(pbt.Text(0, 20), pbt.Bytes(0, 20)).Draw(t, "any"))
		}
		c.Word = Str(w)
		return c
	})
}

func checkWord(x *pbt.X, c wordCase) error {
	w := string(c.Word)
	x.Label("%s", c.How)
	if c.How != "same" && c.How != "any" {
		x.NonTrivial()
	}
	for _, k := range []struct {
		name  string
		got   bool
		words []string
	}{
		{"grant", oauth2.KnownGrantType(w), grantWords},
		{"response", oauth2.KnownResponseType(w), responseWords},
		{"token", oauth2.KnownTokenType(w), tokenWords},
	} {
		if want := slices.Contains(k.words, w); k.got != want {
			return fmt.Errorf("%q is a known %s type: %t", w, k.name, k.got)
		}
		if k.got {
			x.Label("known-%s", k.name)
		}
	}
	// the words themselves
	if !slices.Equal(grantWords, []string{oauth2.PasswordGrantType, oauth2.ClientCredentialsGrantType, oauth2.AuthorizationCodeGrantType, oauth2.RefreshTokenGrantType}) ||
		!slices.Equal(responseWords, []string{oauth2.TokenResponseType, oauth2.CodeResponseType}) || !slices.Equal(tokenWords, []string{oauth2.AccessToken, oauth2.RefreshToken}) {
		return errors.New("the exported words are not those of the protocol")
	}
	return nil
}

// errorKinds gives for every constructor the code and status of the protocol.
var errorKinds = []struct {
	name   string
	make   func(string) *oauth2.Error
	code   string
	status int
}{
	{"InvalidRequest", oauth2.InvalidRequest, "invalid_request", 400},
	{"InvalidClient", oauth2.InvalidClient, "invalid_client", 401},
	{"InvalidGrant", oauth2.InvalidGrant, "invalid_grant", 400},
	{"InvalidScope", oauth2.InvalidScope, "invalid_scope", 400},
	{"InvalidToken", oauth2.InvalidToken, "invalid_token", 401},
	{"UnauthorizedClient", oauth2.UnauthorizedClient, "unauthorized_client", 400},
	{"UnsupportedGrantType", oauth2.UnsupportedGrantType, "unsupported_grant_type", 400},
	{"UnsupportedResponseType", oauth2.UnsupportedResponseType, "unsupported_response_type", 400},
	{"UnsupportedTokenType", oauth2.UnsupportedTokenType, "unsupported_token_type", 400},
	{"AccessDenied", oauth2.AccessDenied, "access_denied", 403},
	{"ServerError", oauth2.ServerError, "server_error", 500},
	{"TemporarilyUnavailable", oauth2.TemporarilyUnavailable, "temporarily_unavailable", 503},
}

type makeCase struct {
	Kind     int
	S        []Str // description, state, realm, URI, redirect URI, tokens
	Scope    []Str
	NilScope bool
	N        int
	Active   bool
	Fragment bool
}

func makeGen() *rapid.Generator[makeCase] {
	str := pbt.OneOf(pbt.Text(0, 30), pbt.Bytes(0, 12), pbt.Pick[Str]("", "", "", " ", "\"", "\\", "a\nb", "  padded  ", "invalid_request", "access_token", "Bearer", "<script>&", "\xff", "é", Str(strings.Repeat("x", 400)),
		"missing or invalid token", "UPPER case", "trailing.", "%41%zz", "{\"error\":\"x\"}", "0", "null"))
	return rapid.Custom(func(t *rapid.T) makeCase {
		c := makeCase{Kind: pbt.Int(0, len(errorKinds)-1).Draw(t, "kind"), S: rapid.SliceOfN(str, 8, 8).Draw(t, "s"), Scope: rapid.SliceOfN(str, 0, 3).Draw(t, "scope"), NilScope: pbt.Chance(t, 30),
			Active: rapid.Bool().Draw(t, "active"), Fragment: rapid.Bool().Draw(t, "fragment")}
		c.N = pbt.OneOf(pbt.Int(0, 10000), rapid.Int(), pbt.Pick(0, 0, -1, 3600)).Draw(t, "n")
		return c
	})
}

func checkMake(x *pbt.X, c makeCase) error {
	s := func(i int) string { return string(c.S[i]) }
	scope := toScope(c.Scope)
	if c.NilScope {
		scope = nil
	}
	if s(0) != "" && s(1) != "" && len(scope) > 0 {
		x.NonTrivial()
	}
	// error constructors
	k := errorKinds[c.Kind]
	x.Label("%s", k.name)
	e := k.make(s(0))
	if e == nil {
		return fmt.Errorf("%s(%q) is nil", k.name, s(0))
	}
	want := oauth2.Error{Name: k.code, Status: k.status, Description: s(0)}
	if k.code == "invalid_client" {
		// the client has to learn which authentication to use
		if len(e.Headers) != 1 || !strings.HasPrefix(e.Headers["WWW-Authenticate"], "Basic realm=\"") || !strings.HasSuffix(e.Headers["WWW-Authenticate"], "\"") {
			return fmt.Errorf("%s(%q) carries the headers %q", k.name, s(0), e.Headers)
		}
		want.Headers = e.Headers
	} else if len(e.Headers) == 0 {
		want.Headers = e.Headers
	}
	if !reflect.DeepEqual(*e, want) {
		return fmt.Errorf("%s(%q) is %#v", k.name, s(0), *e)
	}
	for _, text := range []string{e.String(), e.Error()} {
		if !strings.Contains(text, k.code) || !strings.Contains(text, s(0)) {
			return fmt.Errorf("%s(%q) reads %q", k.name, s(0), text)
		}
	}
	if p := oauth2.ProtectedResource(); p.Status != 401 || !reflect.DeepEqual(*p, oauth2.Error{Status: 401}) {
		return fmt.Errorf("ProtectedResource() is %#v", *p)
	}
	in := oauth2.InsufficientScope(scope)
	if in.Status != 403 || in.Name != "insufficient_scope" || !slices.Equal(in.Scope, scope) {
		return fmt.Errorf("InsufficientScope(%q) is %#v", scope, *in)
	}
	if rest := *in; true {
		rest.Scope = nil
		if !reflect.DeepEqual(rest, oauth2.Error{Status: 403, Name: "insufficient_scope"}) {
			return fmt.Errorf("InsufficientScope(%q) is %#v", scope, *in)
		}
	}
	// the presented fields of an error are exactly those set
	given := map[string]string{"error": k.code}
	put := func(m map[string]string, k, v string) {
		if v != "" {
			m[k] = v
		}
	}
	put(given, "error_description", s(0))
	if !maps.Equal(e.Map(), given) {
		return fmt.Errorf("%s(%q).Map() is %q", k.name, s(0), e.Map())
	}
	if e.SetRedirect(s(4), s(1), c.Fragment) != e || e.RedirectURI != s(4) || e.State != s(1) || e.UseFragment != c.Fragment || e.Name != k.code || e.Description != s(0) || e.Status != k.status {
		return fmt.Errorf("SetRedirect(%q, %q, %t) makes %#v", s(4), s(1), c.Fragment, *e)
	}
	e.Scope, e.Realm, e.URI = scope, s(2), s(3)
	put(given, "state", s(1))
	put(given, "realm", s(2))
	put(given, "error_uri", s(3))
	if len(scope) > 0 {
		given["scope"] = strings.Join(scope, " ")
	}
	if !maps.Equal(e.Map(), given) {
		return fmt.Errorf("the fields of %#v are %q", *e, e.Map())
	}
	e2 := *e
	e2.Name = ""
	delete(given, "error")
	if !maps.Equal(e2.Map(), given) {
		return fmt.Errorf("the fields of %#v are %q", e2, e2.Map())
	}
	// token responses
	tr := oauth2.NewTokenResponse(s(0), s(5), c.N)
	if !reflect.DeepEqual(*tr, oauth2.TokenResponse{TokenType: s(0), AccessToken: s(5), ExpiresIn: c.N}) {
		return fmt.Errorf("NewTokenResponse(%q, %q, %d) is %#v", s(0), s(5), c.N, *tr)
	}
	br := oauth2.NewBearerTokenResponse(s(5), c.N)
	if rest := *br; !strings.EqualFold(br.TokenType, "bearer") {
		return fmt.Errorf("a bearer token response has the type %q", br.TokenType)
	} else {
		rest.TokenType = ""
		if !reflect.DeepEqual(rest, oauth2.TokenResponse{AccessToken: s(5), ExpiresIn: c.N}) {
			return fmt.Errorf("NewBearerTokenResponse(%q, %d) is %#v", s(5), c.N, *br)
		}
	}
	fields := map[string]string{"token_type": s(0), "access_token": s(5), "expires_in": fmt.Sprint(c.N)}
	if !maps.Equal(tr.Map(), fields) {
		return fmt.Errorf("the fields of %#v are %q", *tr, tr.Map())
	}
	tr.RefreshToken = s(6)
	tr.Scope = scope
	if tr.SetRedirect(s(4), s(1)) != tr || tr.RedirectURI != s(4) || tr.State != s(1) || tr.AccessToken != s(5) || tr.RefreshToken != s(6) || tr.ExpiresIn != c.N || tr.TokenType != s(0) {
		return fmt.Errorf("SetRedirect(%q, %q) makes %#v", s(4), s(1), *tr)
	}
	put(fields, "refresh_token", s(6))
	put(fields, "state", s(1))
	got := tr.Map()
	if len(scope) > 0 {
		fields["scope"] = strings.Join(scope, " ")
	} else if got["scope"] == "" {
		delete(got, "scope")
	}
	if !maps.Equal(got, fields) {
		return fmt.Errorf("the fields of %#v are %q", *tr, got)
	}
	// code responses
	cr := oauth2.NewCodeResponse(s(5), s(4), s(1))
	if !reflect.DeepEqual(*cr, oauth2.CodeResponse{Code: s(5), RedirectURI: s(4), State: s(1)}) {
		return fmt.Errorf("NewCodeResponse(%q, %q, %q) is %#v", s(5), s(4), s(1), *cr)
	}
	fields = map[string]string{"code": s(5)}
	put(fields, "state", s(1))
	if !maps.Equal(cr.Map(), fields) {
		return fmt.Errorf("the fields of %#v are %q", *cr, cr.Map())
	}
	// introspection responses
	ir := oauth2.NewIntrospectionResponse(c.Active, scope, s(5), s(6), s(7))
	if !slices.Equal(ir.Scope, scope) {
		return fmt.Errorf("NewIntrospectionResponse(%t, %q, …) is %#v", c.Active, scope, *ir)
	}
	rest := *ir
	rest.Scope = nil
	if !reflect.DeepEqual(rest, oauth2.IntrospectionResponse{Active: c.Active, ClientID: s(5), Username: s(6), TokenType: s(7)}) {
		return fmt.Errorf("NewIntrospectionResponse(%t, …, %q, %q, %q) is %#v", c.Active, s(5), s(6), s(7), *ir)
	}
	return nil
}

func TestC33(t *testing.T) {
	var words []wordCase
	for _, w := range slices.Concat(allWords, otherWords) {
		words = append(words, wordCase{Word: Str(w), How: "same"})
	}
	pbt.Check(t, "C33",
		pbt.P("words", 60000, 20, wordGen(), checkWord, words...),
		pbt.P("values", 20000, 30, makeGen(), checkMake),
	)
}
