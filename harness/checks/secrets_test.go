package checks

import (
	"bytes"
	"fmt"
	"net/url"
	"reflect"
	"testing"
	"time"

	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
	"aaverif/randhook"
)

// ---- C29

// whoCase asks the same question for somebody registered and for nobody.
type whoCase struct {
	W      World
	Kind   string // password cc code refresh introspect revoke / u-password u-code u-token
	C, U   int
	Name   int // how the unknown name is made
	Wrong  int // the wrong secret
	Tok    int // 0: a usable credential, 1: a used one, 2: unknown, 3: another client's, 4: garbage
	Body   bool
	Scope  int // none, allowed, forbidden
	Hint   int
	State  Str
	Method int
}

func whoGen() *rapid.Generator[whoCase] {
	return rapid.Custom(func(t *rapid.T) whoCase {
		w := WorldGen(WorldOpts{MinClients: 2, MinUsers: 2}).Draw(t, "world")
		w.Canaries()
		c := whoCase{W: w, Kind: pbt.Pick("password", "cc", "code", "refresh", "introspect", "revoke", "u-password", "u-code", "u-token").Draw(t, "kind")}
		c.C, c.U = pbt.Int(0, len(w.Clients)-1).Draw(t, "client"), pbt.Int(0, len(w.Users)-1).Draw(t, "user")
		c.W.Clients[c.C].Confidential = true
		if c.W.Clients[c.C].Secret == "" {
			c.W.Clients[c.C].Secret = "canary-late"
		}
		c.Name, c.Wrong = pbt.Int(0, 4).Draw(t, "name"), pbt.Int(0, 4).Draw(t, "wrong")
		c.Tok, c.Hint = pbt.Int(0, 4).Draw(t, "tok"), pbt.Int(0, 2).Draw(t, "hint")
		c.Body, c.Scope = rapid.Bool().Draw(t, "body"), pbt.Int(0, 2).Draw(t, "scope")
		c.State = pbt.Pick[Str]("", "xyz", "a b").Draw(t, "state")
		return c
	})
}

func unknownName(kind int, name string) string {
	switch kind {
	case 0:
		return name + "x"
	case 1:
		return "nobody"
	case 2:
		return "x" + name
	case 3:
		return name + name
	}
	return "somebody-with-a-long-name-0123456789"
}

func wrongSecret(kind int, right, other string) string {
	switch kind {
	case 0:
		return ""
	case 1:
		return "wrong"
	case 2:
		return right[:len(right)-1]
	case 3:
		if other != right {
			return other
		}
	}
	return right + right
}

func checkWho(x *pbt.X, c whoCase) error {
	SeedRandom(string(c.W.Secret))
	defer randhook.Set(nil)
	var err error
	Bubble(x.T, func() { err = runWho(x, c) })
	return err
}

func runWho(x *pbt.X, c whoCase) error {
	w := &c.W
	cl, us := w.Clients[c.C], w.Users[c.U]
	known := func(name string) bool {
		for _, k := range w.Clients {
			if string(k.ID) == name {
				return true
			}
		}
		for _, u := range w.Users {
			if string(u.Name) == name {
				return true
			}
		}
		return false
	}
	real := string(cl.ID)
	byUser := c.Kind[0] == 'u' && c.Kind[1] == '-'
	if byUser {
		real = string(us.Name)
	}
	fake := unknownName(c.Name, real)
	if known(fake) {
		return nil
	}
	// every question is put to a server of its own with the same history
	ask := func(name string) (*Recorder, error) {
		SeedRandom(string(w.Secret))
		srv := w.NewServer()
		token := func(form []Pair, id, sec string) (*Outcome, error) {
			o := Do(srv, &ROp{K: "token", Method: "POST", Path: "/token", HasAuth: true, Auth: Basic(id, sec), Form: form}, nil)
			if o.Panic != "" || o.Status != 200 {
				return nil, fmt.Errorf("preparing: %s %s", o, o.Panic)
			}
			return o, nil
		}
		owner := cl
		if c.Tok == 3 {
			owner = w.Clients[(c.C+1)%len(w.Clients)]
		}
		str := func(o *Outcome, k string) string { s, _ := o.JSON[k].(string); return s }
		pw, err := token([]Pair{{"grant_type", "password"}, {"username", string(us.Name)}, {"password", string(us.Password)}}, string(owner.ID), string(owner.Secret))
		if err != nil {
			return nil, err
		}
		tok := str(pw, "refresh_token")
		code := ""
		o := Do(srv, &ROp{K: "authorize", Method: "POST", Path: "/authorize", Form: []Pair{{"response_type", "code"}, {"client_id", string(owner.ID)}, {"redirect_uri", url.QueryEscape(string(owner.Redirect))}, {"username", string(us.Name)}, {"password", string(us.Password)}}}, nil)
		if n := len(o.Query["code"]); n > 0 {
			code = o.Query["code"][n-1]
		}
		switch c.Tok {
		case 1:
			if _, err := token([]Pair{{"grant_type", "refresh_token"}, {"refresh_token", tok}}, string(owner.ID), string(owner.Secret)); err != nil {
				return nil, err
			}
			if _, err := token([]Pair{{"grant_type", "authorization_code"}, {"code", code}, {"redirect_uri", url.QueryEscape(string(owner.Redirect))}}, string(owner.ID), string(owner.Secret)); err != nil {
				return nil, err
			}
		case 2:
			tok = Sign([]byte(w.Secret), []byte("never-issued-key"))
			code = tok
		case 4:
			tok, code = "garbage", "garbage"
		}
		r := &ROp{K: "token", Method: "POST", Path: "/token"}
		add := func(k, v string) {
			if v != "" {
				r.Form = append(r.Form, Pair{k, v})
			}
		}
		scope := ""
		switch {
		case c.Scope == 1 && len(w.Allowed) > 0:
			scope = string(w.Allowed[0])
		case c.Scope == 2:
			scope = "never-allowed"
		}
		id, sec := name, wrongSecret(c.Wrong, string(cl.Secret), string(w.Clients[(c.C+1)%len(w.Clients)].Secret))
		un, up := string(us.Name), string(us.Password)
		if byUser {
			id, sec = string(cl.ID), string(cl.Secret)
			un, up = name, wrongSecret(c.Wrong, string(us.Password), string(w.Users[(c.U+1)%len(w.Users)].Password))
		}
		switch c.Kind {
		case "password", "u-password":
			add("grant_type", "password")
			add("username", un)
			add("password", up)
			add("scope", scope)
		case "cc":
			add("grant_type", "client_credentials")
			add("scope", scope)
		case "code":
			add("grant_type", "authorization_code")
			add("code", code)
			add("redirect_uri", url.QueryEscape(string(cl.Redirect)))
		case "refresh":
			add("grant_type", "refresh_token")
			add("refresh_token", tok)
			add("scope", scope)
		case "introspect", "revoke":
			r.K, r.Path = c.Kind, "/"+c.Kind
			add("token", tok)
			add("token_type_hint", []string{"", "access_token", "refresh_token"}[c.Hint])
		default:
			r.K, r.Path = "authorize", "/authorize"
			add("response_type", map[string]string{"u-code": "code", "u-token": "token"}[c.Kind])
			add("client_id", id)
			add("redirect_uri", url.QueryEscape(string(cl.Redirect)))
			add("scope", scope)
			add("state", string(c.State))
			add("username", un)
			add("password", up)
		}
		if r.K != "authorize" {
			if c.Body && r.K == "token" {
				add("client_id", id)
				add("client_secret", sec)
			} else {
				r.Auth, r.HasAuth = Basic(id, sec), true
			}
		}
		time.Sleep(time.Millisecond)
		rec := NewRecorder()
		o = Do(srv, r, rec)
		if o.Panic != "" {
			return nil, fmt.Errorf("panic: %s", o.Panic)
		}
		if o.Error == "" {
			return nil, fmt.Errorf("served: %s", o)
		}
		return rec, nil
	}
	a, errA := ask(real)
	b, errB := ask(fake)
	if errA != nil || errB != nil {
		x.Foreign(fmt.Sprint(errA, errB))
		return nil
	}
	x.NonTrivial()
	x.Label("%s", c.Kind)
	if a.Status != b.Status || !reflect.DeepEqual(a.Sent, b.Sent) || !bytes.Equal(a.Body.Bytes(), b.Body.Bytes()) {
		return fmt.Errorf("%s: somebody registered (%q) with a wrong secret is answered with\n  %d %v %s\nand somebody unknown (%q) with\n  %d %v %s", c.Kind, real, a.Status, a.Sent, a.Body.Bytes(), fake, b.Status, b.Sent, b.Body.Bytes())
	}
	return nil
}

func TestC29(t *testing.T) {
	p := Profile{W: map[string]int{"other": 3}, FaultP: 60, Audit: 10}
	hg := HistoryGen(p)
	pbt.Check(t, "C29",
		pbt.P("history", 1500, 20, rapid.Custom(func(t *rapid.T) History {
			h := hg.Draw(t, "history")
			h.W.Canaries()
			if pbt.Chance(t, 60) {
				h.W.CanaryNames()
			}
			return h
		}), func(x *pbt.X, h History) error {
			return Run(x, h, Opts{Owner: "C29", Canary: true, NonTriv: func(m *Model) bool { return m.Stats["leak-checked-refusals"] > 3 && len(m.Creds) > 2 }})
		}),
		pbt.P("who", 3000, 20, whoGen(), checkWho),
	)
}
