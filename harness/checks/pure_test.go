package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
	"aaverif/randhook"
)

// ---- C30

// pureCall is one call of the library with its arguments.
type pureCall struct {
	Fn    string
	S     []Str // 8 strings
	Scope []Str
	Key   Str
	N     int
	B     bool
	Mix   int // which fields are changed between two calls
}

type pureCase struct{ Calls []pureCall }

// pureArgs holds freshly built arguments; everything in it must stay as it is.
type pureArgs struct {
	Secret, Key []byte
	Scope       oauth2.Scope
	Other       oauth2.Scope
	Err         *oauth2.Error
	Token       *oauth2.TokenResponse
	TokenReq    oauth2.TokenRequest
	Intro       *oauth2.IntrospectionResponse
	IntroReq    oauth2.IntrospectionRequest
	RevReq      oauth2.RevocationRequest
	Code        *oauth2.CodeResponse
	Params      map[string]string
	HS          *oauth2.HS256Token
	Cfg         oauth2.ServerConfig
	Raw         []byte
}

// roomy copies a slice into one with spare capacity that is watched.
func roomyBytes(s Str) []byte {
	b := make([]byte, len(s)+24)
	copy(b, s)
	copy(b[len(s):], "SENTINELSENTINELSENTINEL")
	return b[:len(s)]
}

func roomyScope(ss []Str) oauth2.Scope {
	b := make(oauth2.Scope, 0, len(ss)+3)
	b = append(b, toScope(ss)...)
	for i := len(b); i < cap(b); i++ {
		b[:cap(b)][i] = "SENTINEL"
	}
	return b
}

func (c *pureCall) args() *pureArgs {
	s := func(i int) string { return string(c.S[i]) }
	a := &pureArgs{Secret: roomyBytes(c.S[6]), Key: roomyBytes(c.Key), Scope: roomyScope(c.Scope), Other: roomyScope(append(append([]Str(nil), c.Scope...), c.S[5])), Raw: roomyBytes(c.S[7])}
	a.Err = &oauth2.Error{Name: s(0), State: s(1), Scope: roomyScope(c.Scope), Realm: s(2), Description: s(3), URI: s(4), Status: 400 + c.N%5, Headers: map[string]string{"X-Note": s(2)}}
	if c.B {
		a.Err.RedirectURI, a.Err.UseFragment = "https://example.com/cb?a=b", c.N%2 == 0
	}
	a.Token = &oauth2.TokenResponse{TokenType: s(0), AccessToken: s(1), ExpiresIn: c.N, RefreshToken: s(2), Scope: roomyScope(c.Scope), State: s(3)}
	if c.B {
		a.Token.RedirectURI = "https://example.com/cb?a=b"
	}
	a.TokenReq = oauth2.TokenRequest{GrantType: s(0), Scope: roomyScope(c.Scope), ClientID: s(1), ClientSecret: s(2), Username: s(3), Password: s(4), RefreshToken: s(5), RedirectURI: s(6), Code: s(7)}
	a.Intro = &oauth2.IntrospectionResponse{Active: c.B, Scope: roomyScope(c.Scope), ClientID: s(0), Username: s(1), TokenType: "access_token", ExpiresAt: int64(c.N), Subject: s(3), Extra: map[string]any{s(4): s(5), "list": []any{s(0), 1.5}}}
	a.IntroReq = oauth2.IntrospectionRequest{Token: s(0), TokenTypeHint: s(1), ClientID: s(2), ClientSecret: s(3)}
	a.RevReq = oauth2.RevocationRequest{Token: s(0), TokenTypeHint: s(1), ClientID: s(2), ClientSecret: s(3)}
	a.Code = &oauth2.CodeResponse{Code: s(0), State: s(1), RedirectURI: "https://example.com/cb?a=b"}
	a.Params = map[string]string{s(0): s(1), "code": s(2), "state": s(3)}
	mac := MAC(a.Secret, a.Key)
	a.HS = &oauth2.HS256Token{Key: roomyBytes(c.Key), Signature: roomyBytes(Str(mac))}
	a.Cfg = oauth2.ServerConfig{Secret: a.Secret, KeyLength: 16 + c.N%20, AllowedScope: a.Scope}
	return a
}

// request builds a fresh form request from the strings.
func (c *pureCall) request() *http.Request {
	s := func(i int) string { return string(c.S[i]) }
	r := &ROp{K: "token", Method: "POST", Path: "/x"}
	for i, k := range []string{"grant_type", "response_type", "token", "client_id", "scope", "state", "code"} {
		r.Form = append(r.Form, Pair{K: k, V: s(i)})
	}
	r.Form = append(r.Form, Pair{K: "redirect_uri", V: url.QueryEscape("https://example.com/" + url.PathEscape(s(0)))})
	if c.B {
		r.Auth, r.HasAuth = Basic(strings.ReplaceAll(s(3), ":", ""), s(2)), true
	} else if c.N%3 == 0 {
		r.Auth, r.HasAuth = "Bearer "+s(2), true
	}
	return r.Request()
}

func (c *pureCall) response() *http.Response {
	s := func(i int) string { return string(c.S[i]) }
	doc := map[string]any{"error": s(0), "error_description": s(1), "token_type": s(2), "access_token": s(3), "expires_in": c.N, "active": c.B, "client_id": s(4), "scope": strings.Join(toScope(c.Scope), " "), "extra": map[string]any{"k": []any{s(5)}}}
	b, _ := json.Marshal(doc)
	if c.N%7 == 0 {
		b = b[:len(b)/2]
	}
	return &http.Response{StatusCode: 400 + c.N%5, Status: "400 Bad", Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(string(b)))}
}

type multi []any

var pureFns = map[string]func(c *pureCall, a *pureArgs) any{
	"InvalidRequest":          func(c *pureCall, a *pureArgs) any { return oauth2.InvalidRequest(string(c.S[0])) },
	"InvalidClient":           func(c *pureCall, a *pureArgs) any { return oauth2.InvalidClient(string(c.S[0])) },
	"InvalidGrant":            func(c *pureCall, a *pureArgs) any { return oauth2.InvalidGrant(string(c.S[0])) },
	"InvalidScope":            func(c *pureCall, a *pureArgs) any { return oauth2.InvalidScope(string(c.S[0])) },
	"InvalidToken":            func(c *pureCall, a *pureArgs) any { return oauth2.InvalidToken(string(c.S[0])) },
	"UnauthorizedClient":      func(c *pureCall, a *pureArgs) any { return oauth2.UnauthorizedClient(string(c.S[0])) },
	"UnsupportedGrantType":    func(c *pureCall, a *pureArgs) any { return oauth2.UnsupportedGrantType(string(c.S[0])) },
	"UnsupportedResponseType": func(c *pureCall, a *pureArgs) any { return oauth2.UnsupportedResponseType(string(c.S[0])) },
	"UnsupportedTokenType":    func(c *pureCall, a *pureArgs) any { return oauth2.UnsupportedTokenType(string(c.S[0])) },
	"ProtectedResource":       func(c *pureCall, a *pureArgs) any { return oauth2.ProtectedResource() },
	"InsufficientScope":       func(c *pureCall, a *pureArgs) any { return oauth2.InsufficientScope(a.Scope) },
	"AccessDenied":            func(c *pureCall, a *pureArgs) any { return oauth2.AccessDenied(string(c.S[0])) },
	"ServerError":             func(c *pureCall, a *pureArgs) any { return oauth2.ServerError(string(c.S[0])) },
	"TemporarilyUnavailable":  func(c *pureCall, a *pureArgs) any { return oauth2.TemporarilyUnavailable(string(c.S[0])) },
	"SetRedirect": func(c *pureCall, a *pureArgs) any {
		return oauth2.AccessDenied(string(c.S[0])).SetRedirect("https://example.com/"+url.PathEscape(string(c.S[1])), string(c.S[2]), c.B)
	},
	"Error.Map":    func(c *pureCall, a *pureArgs) any { return a.Err.Map() },
	"Error.Params": func(c *pureCall, a *pureArgs) any { return a.Err.Params() },
	"Error.String": func(c *pureCall, a *pureArgs) any { return multi{a.Err.String(), a.Err.Error()} },
	"WriteError": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.WriteError(w, a.Err)}
	},
	"WriteError foreign": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.WriteError(w, errors.New(string(c.S[0])))}
	},
	"WriteBearerError": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.WriteBearerError(w, a.Err)}
	},
	"Write": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.Write(w, a.Params, 200+c.N%300)}
	},
	"WriteRedirect": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.WriteRedirect(w, "https://example.com/?x=y", a.Params, c.B)}
	},
	"WriteTokenResponse": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.WriteTokenResponse(w, a.Token)}
	},
	"WriteCodeResponse": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.WriteCodeResponse(w, a.Code)}
	},
	"WriteIntrospectionResponse": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		return multi{w, oauth2.WriteIntrospectionResponse(w, a.Intro)}
	},
	"failing writer": func(c *pureCall, a *pureArgs) any {
		w := &lostWriter{h: http.Header{}, n: c.N % 40}
		var err error
		switch c.N % 6 {
		case 0:
			err = oauth2.Write(w, a.Params, 200)
		case 1:
			err = oauth2.WriteError(w, a.Err)
		case 2:
			err = oauth2.WriteTokenResponse(w, a.Token)
		case 3:
			err = oauth2.WriteIntrospectionResponse(w, a.Intro)
		case 4:
			err = oauth2.WriteBearerError(w, a.Err)
		case 5:
			err = oauth2.WriteCodeResponse(w, a.Code)
		}
		return multi{w.h, w.status, err}
	},
	"unencodable": func(c *pureCall, a *pureArgs) any {
		w := NewRecorder()
		bad := []any{math.NaN(), make(chan int), func() {}, map[bool]int{true: 1}, json.RawMessage("{"), broken{}}[c.N%6]
		var err error
		if c.B {
			err = oauth2.Write(w, map[string]any{"a": string(c.S[0]), "b": []any{a.Scope, bad}}, 200)
		} else {
			a.Intro.Extra["bad"] = bad
			err = oauth2.WriteIntrospectionResponse(w, a.Intro)
			delete(a.Intro.Extra, "bad")
		}
		return multi{w.H, err != nil}
	},
	"failing body": func(c *pureCall, a *pureArgs) any {
		r, res := c.request(), c.response()
		if r.Body != nil {
			r.Body = io.NopCloser(io.MultiReader(io.LimitReader(r.Body, int64(c.N%60)), failing{}))
		}
		res.Body = io.NopCloser(io.MultiReader(io.LimitReader(res.Body, int64(c.N%60)), failing{}))
		switch c.N % 7 {
		case 0:
			x, err := oauth2.ParseTokenRequest(r)
			return multi{x, err}
		case 1:
			x, err := oauth2.ParseIntrospectionRequest(r)
			return multi{x, err}
		case 2:
			x, err := oauth2.ParseRevocationRequest(r)
			return multi{x, err}
		case 3:
			x, err := oauth2.ParseAuthorizationRequest(r)
			return multi{x, err}
		case 4:
			x, err := oauth2.ParseTokenResponse(res, 100000)
			return multi{x, err}
		case 5:
			x, err := oauth2.ParseIntrospectionResponse(res, 100000)
			return multi{x, err}
		}
		return oauth2.ParseRequestError(res, 100000)
	},
	"ParseScope": func(c *pureCall, a *pureArgs) any { return oauth2.ParseScope(string(c.S[0]) + "  " + a.Scope.String()) },
	"Scope": func(c *pureCall, a *pureArgs) any {
		j, err := a.Scope.MarshalJSON()
		return multi{a.Scope.Contains(string(c.S[5])), a.Scope.Includes(a.Other), a.Other.Includes(a.Scope), a.Scope.Empty(), a.Scope.String(), j, err}
	},
	"Scope.UnmarshalJSON": func(c *pureCall, a *pureArgs) any {
		var s oauth2.Scope
		err := s.UnmarshalJSON(a.Raw)
		j, _ := json.Marshal(a.Scope.String())
		var u oauth2.Scope
		err2 := u.UnmarshalJSON(j)
		return multi{s, err, u, err2}
	},
	"HS256TokenFromKey": func(c *pureCall, a *pureArgs) any { return oauth2.HS256TokenFromKey(a.Secret, a.Key) },
	"ParseHS256Token": func(c *pureCall, a *pureArgs) any {
		t, err := oauth2.ParseHS256Token(a.Secret, Sign(a.Secret, a.Key))
		u, err2 := oauth2.ParseHS256Token(a.Secret, string(c.S[0])+"."+string(c.S[1]))
		return multi{t, err, u, err2}
	},
	"HS256Token": func(c *pureCall, a *pureArgs) any {
		return multi{a.HS.Valid(a.Secret), a.HS.Valid(a.Raw), a.HS.Equal(a.HS.Signature), a.HS.Equal(a.Raw), a.HS.String(), a.HS.SignatureString()}
	},
	"TokenRequestValues":         func(c *pureCall, a *pureArgs) any { return oauth2.TokenRequestValues(a.TokenReq) },
	"IntrospectionRequestValues": func(c *pureCall, a *pureArgs) any { return oauth2.IntrospectionRequestValues(a.IntroReq) },
	"RevocationRequestValues":    func(c *pureCall, a *pureArgs) any { return oauth2.RevocationRequestValues(a.RevReq) },
	"BuildTokenRequest": func(c *pureCall, a *pureArgs) any {
		r, err := oauth2.BuildTokenRequest("https://example.com/token", a.TokenReq)
		return multi{r, err}
	},
	"BuildIntrospectionRequest": func(c *pureCall, a *pureArgs) any {
		r, err := oauth2.BuildIntrospectionRequest("https://example.com/introspect", a.IntroReq)
		return multi{r, err}
	},
	"BuildRevocationRequest": func(c *pureCall, a *pureArgs) any {
		r, err := oauth2.BuildRevocationRequest("https://example.com/revoke", a.RevReq)
		return multi{r, err}
	},
	"ParseTokenRequest": func(c *pureCall, a *pureArgs) any {
		r := c.request()
		x, err := oauth2.ParseTokenRequest(r)
		y, err2 := oauth2.ParseTokenRequest(r)
		return twice{multi{x, err}, multi{y, err2}}
	},
	"ParseIntrospectionRequest": func(c *pureCall, a *pureArgs) any {
		r := c.request()
		x, err := oauth2.ParseIntrospectionRequest(r)
		y, err2 := oauth2.ParseIntrospectionRequest(r)
		return twice{multi{x, err}, multi{y, err2}}
	},
	"ParseRevocationRequest": func(c *pureCall, a *pureArgs) any {
		r := c.request()
		x, err := oauth2.ParseRevocationRequest(r)
		y, err2 := oauth2.ParseRevocationRequest(r)
		return twice{multi{x, err}, multi{y, err2}}
	},
	"ParseAuthorizationRequest": func(c *pureCall, a *pureArgs) any {
		r := c.request()
		x, err := oauth2.ParseAuthorizationRequest(r)
		y, err2 := oauth2.ParseAuthorizationRequest(r)
		return twice{multi{x, err}, multi{y, err2}}
	},
	"ParseBearerToken": func(c *pureCall, a *pureArgs) any {
		r := c.request()
		x, err := oauth2.ParseBearerToken(r)
		y, err2 := oauth2.ParseBearerToken(r)
		return twice{multi{x, err}, multi{y, err2}}
	},
	"ParseTokenResponse": func(c *pureCall, a *pureArgs) any {
		x, err := oauth2.ParseTokenResponse(c.response(), 100000)
		return multi{x, err}
	},
	"ParseIntrospectionResponse": func(c *pureCall, a *pureArgs) any {
		x, err := oauth2.ParseIntrospectionResponse(c.response(), 100000)
		return multi{x, err}
	},
	"ParseRequestError": func(c *pureCall, a *pureArgs) any { return oauth2.ParseRequestError(c.response(), 100000) },
	"NewTokenResponse": func(c *pureCall, a *pureArgs) any {
		return multi{oauth2.NewTokenResponse(string(c.S[0]), string(c.S[1]), c.N), oauth2.NewBearerTokenResponse(string(c.S[1]), c.N).SetRedirect(string(c.S[2]), string(c.S[3]))}
	},
	"TokenResponse.Map": func(c *pureCall, a *pureArgs) any { return a.Token.Map() },
	"CodeResponse": func(c *pureCall, a *pureArgs) any {
		return multi{oauth2.NewCodeResponse(string(c.S[0]), string(c.S[1]), string(c.S[2])), a.Code.Map()}
	},
	"NewIntrospectionResponse": func(c *pureCall, a *pureArgs) any {
		return oauth2.NewIntrospectionResponse(c.B, a.Scope, string(c.S[0]), string(c.S[1]), string(c.S[2]))
	},
	"Known": func(c *pureCall, a *pureArgs) any {
		s := append([]string{string(c.S[0]), "token", "code", "password", "client_credentials", "authorization_code", "refresh_token", "access_token"}, a.Scope...)
		var out multi
		for _, k := range s {
			out = append(out, oauth2.KnownGrantType(k), oauth2.KnownResponseType(k), oauth2.KnownTokenType(k))
		}
		return out
	},
	"Default": func(c *pureCall, a *pureArgs) any {
		return multi{oauth2.Default(string(c.S[0])), oauth2.DefaultServerConfig(a.Secret, a.Scope)}
	},
	"Client": func(c *pureCall, a *pureArgs) any { // the HTTP client stays as it is
		var out multi
		hc := &http.Client{Transport: stub{func(r *http.Request) (*http.Response, error) {
			res := c.response()
			if res.Request = r; c.B {
				res.StatusCode = 200
			}
			return res, nil
		}}}
		if c.N%2 == 0 {
			hc.Timeout = time.Hour
		}
		look := func() multi {
			d := http.DefaultClient
			return multi{hc.Timeout, hc.CheckRedirect == nil, hc.Jar == nil, fmt.Sprintf("%T", hc.Transport), d.Timeout, d.CheckRedirect == nil, d.Jar == nil, d.Transport == nil}
		}
		before := look()
		cl := oauth2.NewClientWithClient(oauth2.ClientConfig{BaseURI: "http://server.test", ResponseLimit: 100000}, hc)
		t, err := cl.Authenticate(a.TokenReq)
		i, err2 := cl.Introspect(a.IntroReq)
		out = append(out, t, err, i, err2, cl.Revoke(a.RevReq))
		oauth2.NewClient(oauth2.Default("http://server.test"))
		return twice{append(before, out...), append(look(), out...)}
	},
	"NewServer": func(c *pureCall, a *pureArgs) any {
		s := oauth2.NewServer(a.Cfg)
		return multi{s.Config, s.Clients, s.Users, s.AccessTokens, s.RefreshTokens, s.AuthorizationCodes}
	},
	"Generate": func(c *pureCall, a *pureArgs) any {
		t, err := oauth2.GenerateHS256Token(a.Secret, c.N%50)
		return multi{t, err}
	},
	"MustGenerate": func(c *pureCall, a *pureArgs) any {
		return multi{oauth2.MustGenerateHS256Token(a.Secret, c.N%50), a.Cfg.MustGenerate()}
	},
}

// lostWriter is a connection that breaks after some bytes.
type lostWriter struct {
	h      http.Header
	status int
	n      int
}

func (w *lostWriter) Header() http.Header { return w.h }
func (w *lostWriter) WriteHeader(s int)   { w.status = s }
func (w *lostWriter) Write(b []byte) (int, error) {
	if w.n -= len(b); w.n < 0 {
		return max(0, w.n+len(b)), errLost
	}
	return len(b), nil
}

var errLost = errors.New("connection lost")

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errLost }

// broken cannot be encoded.
type broken struct{}

func (broken) MarshalJSON() ([]byte, error) { return []byte(`{"half":`), errLost }

// twice holds the results of parsing the same request two times.
type twice struct{ a, b multi }

var pureNames []string

func init() {
	for k := range pureFns {
		pureNames = append(pureNames, k)
	}
	sort.Strings(pureNames)
}

// dump prints everything that can be reached through exported fields; with room
// also the unused capacity of slices.
func dump(v any, room bool) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v), room, 0)
	return b.String()
}

// raw writes a string together with its length.
func raw(b *strings.Builder, s string) {
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte('"')
	b.WriteString(s)
	b.WriteByte('"')
}

func dumpTo(b *strings.Builder, v reflect.Value, room bool, depth int) {
	if !v.IsValid() || depth > 12 {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *http.Request:
			if x == nil {
				b.WriteString("nil")
				return
			}
			fmt.Fprintf(b, "%s %s %s ", x.Method, x.URL, x.Host)
			dumpTo(b, reflect.ValueOf(x.Header), room, depth+1)
			if x.GetBody != nil {
				if r, err := x.GetBody(); err == nil {
					d, _ := io.ReadAll(r)
					raw(b, string(d))
				}
			}
			return
		case *Recorder:
			fmt.Fprintf(b, "%d %d ", x.Status, x.Headers)
			dumpTo(b, reflect.ValueOf(map[string][]string(x.Sent)), room, depth+1)
			raw(b, x.Body.String())
			return
		case *oauth2.Error: // has fields as well as a text
		case error:
			b.WriteString("error")
			raw(b, x.Error())
			return
		case twice:
			dumpTo(b, reflect.ValueOf(x.a), room, depth+1)
			dumpTo(b, reflect.ValueOf(x.b), room, depth+1)
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpTo(b, v.Elem(), room, depth+1)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
				dumpTo(b, v.Field(i), room, depth+1)
				b.WriteByte(' ')
			}
		}
		b.WriteByte('}')
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dumpTo(&e, k, room, depth+1)
			e.WriteByte('=')
			dumpTo(&e, v.MapIndex(k), room, depth+1)
			parts = append(parts, e.String())
		}
		sort.Strings(parts)
		b.WriteString("map")
		for _, p := range parts {
			raw(b, p)
		}
	case reflect.Slice:
		n := v.Len()
		if room {
			n = v.Cap()
			fmt.Fprintf(b, "%d/", v.Len())
			v = v.Slice(0, n)
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			raw(b, string(v.Bytes()))
			return
		}
		b.WriteByte('[')
		for i := 0; i < n; i++ {
			dumpTo(b, v.Index(i), room, depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.String:
		raw(b, v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// spoil changes everything that can be reached and set.
func spoil(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 12 {
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *http.Request:
			if x != nil {
				spoil(reflect.ValueOf(x.Header), depth+1)
				x.Method = "SPOILED"
				x.URL.Path = "/spoiled"
			}
			return
		case *Recorder:
			spoil(reflect.ValueOf(x.H), depth+1)
			return
		case *oauth2.Error:
		case error:
			return
		case twice:
			spoil(reflect.ValueOf(x.a), depth+1)
			spoil(reflect.ValueOf(x.b), depth+1)
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			spoil(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				spoil(v.Field(i), depth+1)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			e := v.MapIndex(k)
			spoil(e, depth+1) // what it refers to
			n := reflect.New(e.Type()).Elem()
			n.Set(e)
			spoil(n, depth+1)
			v.SetMapIndex(k, n)
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("Spoiled").Convert(v.Type().Key()), reflect.New(v.Type().Elem()).Elem())
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("spoiled")
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(uint64(^uint8(v.Uint())))
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// copied is a deep copy of what can be reached through exported fields.
func copied(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			n.Set(reflect.New(v.Type().Elem()))
			n.Elem().Set(copied(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			n.Set(copied(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(copied(v.Field(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			n.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				n.SetMapIndex(k, copied(v.MapIndex(k)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			all, to := v.Slice(0, v.Cap()), reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
			switch k := v.Type().Elem().Kind(); {
			case k <= reflect.Complex128 || k == reflect.String:
				reflect.Copy(to, all)
			default:
				for i := 0; i < v.Cap(); i++ {
					to.Index(i).Set(copied(all.Index(i)))
				}
			}
			n.Set(to.Slice(0, v.Len()))
		}
	default:
		n.Set(v)
	}
	return n
}

// remix sets some of the exported fields of the objects in a to those in b.
func remix(a, b *pureArgs, mix int) {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	n := 0
	var set func(x, y reflect.Value)
	set = func(x, y reflect.Value) {
		switch {
		case x.Kind() == reflect.Pointer:
			set(x.Elem(), y.Elem())
		case x.Kind() == reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				if x.Type().Field(i).IsExported() {
					set(x.Field(i), y.Field(i))
				}
			}
		default:
			n++
			switch {
			case mix>>(n%13)&1 != 1 && mix%5 != 0:
			case x.Kind() == reflect.Slice && mix>>((n+5)%13)&1 == 1: // in place
				for i := 0; i < x.Len(); i++ {
					if y.Len() > 0 && (mix+i)%3 > 0 {
						x.Index(i).Set(copied(y.Index((mix + i) % y.Len())))
					}
				}
			default:
				x.Set(y)
			}
		}
	}
	set(x, y)
}

// relatives are functions of the same object.
var relatives = [][]string{
	{"Error.Map", "Error.Params", "Error.String", "WriteError", "WriteBearerError", "failing writer"},
	{"TokenResponse.Map", "WriteTokenResponse", "failing writer"},
	{"CodeResponse", "WriteCodeResponse", "failing writer"},
	{"WriteIntrospectionResponse", "unencodable", "failing writer"},
	{"HS256Token", "Scope"},
	{"Write", "WriteRedirect"},
	{"TokenRequestValues", "BuildTokenRequest"},
	{"IntrospectionRequestValues", "BuildIntrospectionRequest"},
	{"RevocationRequestValues", "BuildRevocationRequest"},
}

// sameObject calls the function twice with the same objects; what it was asked
// before must not show, neither in the result nor after fields were changed.
func sameObject(c *pureCase, i int) error {
	call := &c.Calls[i]
	a := call.args()
	fresh := func() string {
		f := copied(reflect.ValueOf(a)).Interface().(*pureArgs)
		SeedRandom(fmt.Sprint(i))
		return dump(pureFns[call.Fn](call, f), false)
	}
	again := func() (any, string) {
		SeedRandom(fmt.Sprint(i))
		r := pureFns[call.Fn](call, a)
		return r, dump(r, false)
	}
	r, _ := again()
	_, d := again()
	if f := fresh(); f != d {
		return fmt.Errorf("%s called twice on the same objects gives another result than on equal ones: %s", call.Fn, change(f, d))
	}
	spoil(reflect.ValueOf(r), 0)
	for _, fns := range relatives { // what else is done with the object
		if slices.Contains(fns, call.Fn) {
			for j := range fns {
				spoil(reflect.ValueOf(pureFns[fns[(j+call.Mix)%len(fns)]](call, a)), 0)
			}
		}
	}
	_, d = again()
	if f := fresh(); f != d {
		return fmt.Errorf("after its result was changed %s gives another result for the same objects than for equal ones: %s", call.Fn, change(f, d))
	}
	for k := 0; k < 3; k++ {
		again()
		remix(a, c.Calls[(i+1+k)%len(c.Calls)].args(), call.Mix>>k)
		_, d = again()
		if f := fresh(); f != d {
			return fmt.Errorf("after fields were set %s gives another result for the same objects than for equal ones: %s", call.Fn, change(f, d))
		}
	}
	return nil
}

func pureGen() *rapid.Generator[pureCase] {
	call := rapid.Custom(func(t *rapid.T) pureCall {
		c := pureCall{Fn: pbt.Pick(pureNames...).Draw(t, "fn")}
		for i := 0; i < 8; i++ {
			c.S = append(c.S, maybe(t, 75, value()))
		}
		c.Scope = scopeList().Draw(t, "scope")
		c.Key = pbt.Bytes(0, 40).Draw(t, "key")
		c.N, c.B = pbt.Int(0, 4000).Draw(t, "n"), rapid.Bool().Draw(t, "b")
		c.Mix = pbt.Int(0, 1<<16).Draw(t, "mix")
		return c
	})
	return rapid.Custom(func(t *rapid.T) pureCase {
		n := pbt.Int(2, 10).Draw(t, "n")
		var c pureCase
		for i := 0; i < n; i++ {
			if i > 0 && pbt.Chance(t, 35) { // the same function again, with the same or other arguments
				d := c.Calls[pbt.Int(0, i-1).Draw(t, "again")]
				if pbt.Chance(t, 60) {
					e := call.Draw(t, "call")
					e.Fn = d.Fn
					d = e
				}
				c.Calls = append(c.Calls, d)
				continue
			}
			c.Calls = append(c.Calls, call.Draw(t, "call"))
		}
		return c
	})
}

// change describes where two dumps differ.
func change(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-80):min(len(s), i+120)] }
	return fmt.Sprintf("%+q became %+q", cut(a), cut(b))
}

func checkPure(x *pbt.X, c pureCase) error {
	defer randhook.Set(nil)
	n := len(c.Calls)
	run := func(i int) (any, error) {
		call := &c.Calls[i]
		SeedRandom(fmt.Sprint(i))
		a := call.args()
		before := dump(a, true)
		r := pureFns[call.Fn](call, a)
		if after := dump(a, true); after != before {
			return nil, fmt.Errorf("%s changed its arguments %s", call.Fn, change(before, after))
		}
		if t, ok := r.(twice); ok {
			if p, q := dump(t.a, false), dump(t.b, false); p != q {
				return nil, fmt.Errorf("%s of the same request gives different results: %s", call.Fn, change(p, q))
			}
		}
		return r, nil
	}
	res := make([]any, n)
	first := make([]string, n)
	for i := range c.Calls {
		x.Label("%s", c.Calls[i].Fn)
		r, err := run(i)
		if err != nil {
			return err
		}
		res[i], first[i] = r, dump(r, false)
	}
	x.NonTrivial()
	for i := range res {
		if d := dump(res[i], false); d != first[i] {
			return fmt.Errorf("the result of %s changed %s by later calls", c.Calls[i].Fn, change(first[i], d))
		}
	}
	// once more, the other way round
	second := make([]any, n)
	for i := n - 1; i >= 0; i-- {
		r, err := run(i)
		if err != nil {
			return err
		}
		if d := dump(r, false); d != first[i] {
			return fmt.Errorf("the same call of %s gives different results: %s", c.Calls[i].Fn, change(first[i], d))
		}
		second[i] = r
	}
	// nobody notices when results are changed
	for i := range second {
		spoil(reflect.ValueOf(second[i]), 0)
	}
	for j := range res {
		if d := dump(res[j], false); d != first[j] {
			return fmt.Errorf("changing the results of the second calls changed the first result of %s %s", c.Calls[j].Fn, change(first[j], d))
		}
	}
	for i := range c.Calls {
		r, err := run(i)
		if err != nil {
			return err
		}
		if d := dump(r, false); d != first[i] {
			return fmt.Errorf("after results were changed %s gives another result: %s", c.Calls[i].Fn, change(first[i], d))
		}
	}
	for i := range c.Calls {
		if err := sameObject(&c, i); err != nil {
			return err
		}
	}
	// all at once
	got := make([]string, n)
	var wg sync.WaitGroup
	for i := range c.Calls {
		if strings.Contains(c.Calls[i].Fn, "Generate") {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					got[i] = fmt.Sprint("panic: ", e)
				}
			}()
			call := &c.Calls[i]
			got[i] = dump(pureFns[call.Fn](call, call.args()), false)
		}()
	}
	wg.Wait()
	for i := range got {
		if !strings.Contains(c.Calls[i].Fn, "Generate") && got[i] != first[i] {
			return fmt.Errorf("next to other calls %s gives another result: %s", c.Calls[i].Fn, change(first[i], got[i]))
		}
	}
	return nil
}

func TestC30(t *testing.T) {
	pbt.Check(t, "C30", pbt.P("calls", 1500, 20, pureGen(), checkPure))
}
