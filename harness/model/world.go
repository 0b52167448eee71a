// Package model is a reference model of the authorization server: it builds
// concrete requests from symbolic operations, runs them against the real
// server, and judges every answer from the history of answers alone.
package model

import (
	"fmt"
	"strings"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/pbt"
)

// Client is a registered client.
type Client struct {
	ID, Secret, Redirect Str
	Confidential         bool
}

// User is a registered resource owner.
type User struct{ Name, Password Str }

// World is a server configuration.
type World struct {
	Secret      Str
	KeyLength   int
	Allowed     []Str
	AccessSec   int // lifetimes in milliseconds
	RefreshSec  int
	CodeSec     int
	Clients     []Client
	Users       []User
	PathPrefix  Str
	ExtraScopes []Str // near misses and unrelated elements
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// NewServer builds the real server.
func (w *World) NewServer() *oauth2.Server {
	var allowed oauth2.Scope
	for _, a := range w.Allowed {
		allowed = append(allowed, string(a))
	}
	cfg := oauth2.DefaultServerConfig([]byte(w.Secret), allowed)
	cfg.KeyLength = w.KeyLength
	cfg.AccessTokenLifespan = ms(w.AccessSec)
	cfg.RefreshTokenLifespan = ms(w.RefreshSec)
	cfg.AuthorizationCodeLifespan = ms(w.CodeSec)
	s := oauth2.NewServer(cfg)
	for _, c := range w.Clients {
		s.Clients[string(c.ID)] = &oauth2.ServerEntity{Secret: string(c.Secret), RedirectURI: string(c.Redirect), Confidential: c.Confidential}
	}
	for _, u := range w.Users {
		s.Users[string(u.Name)] = &oauth2.ServerEntity{Secret: string(u.Password)}
	}
	return s
}

// allowedAt picks an allowed scope element, if there is one.
func (w *World) allowedAt(v int) string {
	if len(w.Allowed) == 0 {
		return string(w.ExtraScopes[mod(v, len(w.ExtraScopes))])
	}
	return string(w.Allowed[mod(v, len(w.Allowed))])
}

// Clone copies the configuration.
func (w *World) Clone() *World {
	n := *w
	n.Allowed = append([]Str(nil), w.Allowed...)
	n.ExtraScopes = append([]Str(nil), w.ExtraScopes...)
	n.Clients = append([]Client(nil), w.Clients...)
	n.Users = append([]User(nil), w.Users...)
	return &n
}

// Reconfigure applies a change of the configuration to the model's world and to
// the server, as the owner of a running server would. It returns what changed.
func (m *Model) Reconfigure(s *oauth2.Server, o Op) string {
	w := m.W
	if m.oldSecret == nil {
		m.oldSecret, m.oldPassword, m.oldRedirect = map[Str]Str{}, map[Str]Str{}, map[Str]Str{}
	}
	ci := mod(o.C, len(w.Clients))
	ui := mod(o.U, len(w.Users))
	cl, us := &w.Clients[ci], &w.Users[ui]
	// the registry keeps the entry, or gets a new one
	put := func(reg map[string]*oauth2.ServerEntity, id string, e oauth2.ServerEntity) {
		if old := reg[id]; old != nil && o.Enc == 0 {
			*old = e
			return
		}
		reg[id] = &e
	}
	sync := func() string {
		put(s.Clients, string(cl.ID), oauth2.ServerEntity{Secret: string(cl.Secret), RedirectURI: string(cl.Redirect), Confidential: cl.Confidential})
		return fmt.Sprintf("client %q is now %+v", cl.ID, *cl)
	}
	free := func(id Str) bool {
		for _, c := range w.Clients {
			if c.ID == id {
				return false
			}
		}
		return true
	}
	switch o.RT {
	case "secret":
		m.oldSecret[cl.ID] = cl.Secret
		cl.Secret = Str(fmt.Sprintf("new-secret-%d", mod(o.N(), 50)))
		return sync()
	case "swap": // two clients trade their secrets
		other := &w.Clients[mod(ci+1, len(w.Clients))]
		cl.Secret, other.Secret = other.Secret, cl.Secret
		out := sync()
		cl = other
		return out + ", " + sync()
	case "confidential":
		cl.Confidential = !cl.Confidential
		return sync()
	case "redirect":
		m.oldRedirect[cl.ID] = cl.Redirect
		cl.Redirect = redirectPool[mod(o.N(), len(redirectPool))]
		return sync()
	case "remove-client":
		if len(w.Clients) < 2 {
			return ""
		}
		id := cl.ID
		m.gone = append(m.gone, *cl)
		w.Clients = append(append([]Client(nil), w.Clients[:ci]...), w.Clients[ci+1:]...)
		delete(s.Clients, string(id))
		return fmt.Sprintf("client %q is removed", id)
	case "add-client":
		n := Client{ID: Str(fmt.Sprintf("late-client-%d", mod(o.N(), 4))), Secret: "late", Redirect: redirectPool[mod(o.N(), len(redirectPool))], Confidential: o.N()%3 != 0}
		if k := len(m.gone); k > 0 && o.N()%2 == 0 {
			n = m.gone[k-1]
			m.oldSecret[n.ID] = n.Secret
			n.Secret += "2"
		}
		if !free(n.ID) {
			return ""
		}
		w.Clients = append(append([]Client(nil), w.Clients...), n)
		cl = &w.Clients[len(w.Clients)-1]
		return sync()
	case "password":
		m.oldPassword[us.Name] = us.Password
		us.Password = Str(fmt.Sprintf("new-password-%d", mod(o.N(), 50)))
		put(s.Users, string(us.Name), oauth2.ServerEntity{Secret: string(us.Password)})
		return fmt.Sprintf("user %q has the password %q", us.Name, us.Password)
	case "remove-user":
		if len(w.Users) < 2 {
			return ""
		}
		name := us.Name
		m.goneUsers = append(m.goneUsers, *us)
		w.Users = append(append([]User(nil), w.Users[:ui]...), w.Users[ui+1:]...)
		delete(s.Users, string(name))
		return fmt.Sprintf("user %q is removed", name)
	case "add-user":
		n := User{Str(fmt.Sprintf("late-user-%d", mod(o.N(), 4))), "late"}
		for _, u := range w.Users {
			if u.Name == n.Name {
				return ""
			}
		}
		w.Users = append(append([]User(nil), w.Users...), n)
		put(s.Users, string(n.Name), oauth2.ServerEntity{Secret: string(n.Password)})
		return fmt.Sprintf("user %q is added", n.Name)
	case "allow", "forbid":
		if o.RT == "forbid" && len(w.Allowed) > 1 {
			i := mod(o.N(), len(w.Allowed))
			w.ExtraScopes = append(append([]Str(nil), w.ExtraScopes...), w.Allowed[i])
			w.Allowed = append(append([]Str(nil), w.Allowed[:i]...), w.Allowed[i+1:]...)
		} else {
			i := mod(o.N(), len(w.ExtraScopes))
			e := w.ExtraScopes[i]
			for _, a := range w.Allowed {
				if a == e {
					return ""
				}
			}
			w.Allowed = append(append([]Str(nil), w.Allowed...), e)
		}
		var a oauth2.Scope
		for _, e := range w.Allowed {
			a = append(a, string(e))
		}
		s.Config.AllowedScope = a
		return fmt.Sprintf("the allowed scope is %q", a)
	case "lifetimes":
		w.AccessSec, w.RefreshSec, w.CodeSec = 1+mod(o.N()*7919, 4_000_000), 1+mod(o.N()*104729, 4_000_000), 1+mod(o.N()*1299709, 4_000_000)
		s.Config.AccessTokenLifespan, s.Config.RefreshTokenLifespan, s.Config.AuthorizationCodeLifespan = ms(w.AccessSec), ms(w.RefreshSec), ms(w.CodeSec)
		return fmt.Sprintf("the lifetimes are %v %v %v", ms(w.AccessSec), ms(w.RefreshSec), ms(w.CodeSec))
	case "keylength":
		w.KeyLength = 16 + mod(o.N(), 30)
		s.Config.KeyLength = w.KeyLength
		return fmt.Sprintf("the key length is %d", w.KeyLength)
	case "signing":
		// another secret, or back to the first one
		if m.first == "" {
			m.first = w.Secret
		}
		if w.Secret == m.first {
			w.Secret = m.first + Str(fmt.Sprint(mod(o.N(), 3)))
		} else {
			w.Secret = m.first
		}
		s.Config.Secret = []byte(w.Secret)
		return "the signing secret changes"
	}
	return ""
}

// ReconfigureGen draws changes of the configuration.
func ReconfigureGen() *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		return Op{K: "cfg", RT: Pick("secret", "secret", "swap", "confidential", "confidential", "redirect", "redirect", "remove-client", "add-client", "add-client", "password", "password", "remove-user", "add-user", "allow", "forbid", "forbid", "lifetimes", "keylength", "signing").Draw(t, "change"),
			C: Int(0, 3).Draw(t, "client"), U: Int(0, 2).Draw(t, "user"), D: Int(0, 1000).Draw(t, "n"), Enc: Int(0, 1).Draw(t, "fresh"), Audit: Chance(t, 30)}
	})
}

// N is the operation's number.
func (o Op) N() int { return o.D }

var redirectPool = []Str{
	"http://example.com/callback1", "http://example.com/callback", "https://example.com/cb?a=b", "http://localhost:8080/",
	"com.example.app:/oauth", "http://127.0.0.1/cb", "http://127.0.0.1:5000/cb", "https://app.example.com:8443/a/b/c?x=1&y=2", "/relative/callback", "https://example.com/cb%2Fx?q=%20z",
	"http://example.com/a+b?c=d+e", "https://example.com", "https://example.com/Callback", "http://[::1]:8080/cb",
	"https://user@example.com/cb", "https://example.com/cb?state=fixed&code=none", "https://example.com/%C3%BC?k=%26&k=%3D", "https://ex.com/" + Str(strings.Repeat("p", 300)),
	"https://example.com:443/cb", "http://example.com:80/cb", "http://[::1]:80/", "https://example.com:80/cb", "https://EXAMPLE.com/cb/../cb", "http://xn--bcher-kva.example/",
	"https://example.com/cb?ids=1,2", "https://one.example/cb,https://two.example/cb", "https://example.com/cb;v=1", "https://example.com/cb,v2", "https://example.com/cb?next=https://two.example/cb", "https://example.com/*", "https://*.example.com/cb",
}

// ScopeToken generates an RFC 6749 scope token.
func ScopeToken() *rapid.Generator[Str] {
	return OneOf(
		Pick[Str]("foo", "bar", "baz", "read", "write", "admin", "Foo", "read:users", "https://x.io/auth/r.w", "a", "*", "openid", "https://x.io/", "files/", "a/b", "repo:*", "a.b.c"),
		rapid.Map(rapid.StringMatching(`[!#-\[\]-~]{1,8}`), func(s string) Str { return Str(s) }),
	)
}

// NearMisses derives look-alike scope elements.
func NearMisses(a Str) []Str {
	s := string(a)
	out := []Str{a + "x", a + ":read", a + "*", Str(strings.ToUpper(s)), Str(strings.ToLower(s)), a + a, a + ",", "." + a, a + "/"}
	if len(s) > 1 {
		out = append(out, a[:len(a)-1], a[1:])
	}
	return out
}

func nameGen() *rapid.Generator[Str] {
	return OneOf(
		Pick[Str]("client1", "client2", "client", "alice", "bob", "admin", "user1", "a", "Alice"),
		rapid.Map(rapid.StringMatching(`[a-zA-Z0-9_.@/+%&= -]{1,12}[a-z0-9]`), func(s string) Str { return Str(s) }),
		rapid.Map(rapid.StringN(1, 6, -1), func(s string) Str { return Str(strings.ReplaceAll(s, ":", ";")) }),
	)
}

func secretGen() *rapid.Generator[Str] {
	return OneOf(
		Pick[Str]("foo", "secret", "s3cr3t:with:colons", "pass word", "p%20w+d", "Pässwörd", "x", "old-one,new-one", "a;b|c", "trailing:", ":leading", "one\ntwo", "$2a$10$N9qo8uLOickgx2ZMRZoMye", "{SHA}W6ph5Mm5Pz8GgiULbPgzG37mj9g=", "md5:abc", "*", " padded ", "plain:text:"),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 1, 40), func(b []byte) Str { return Str(b) }),
		rapid.Map(rapid.StringMatching(`[ -~]{1,80}`), func(s string) Str { return Str(s) }),
		rapid.Map(OneOf(Int(60, 80), Pick(64, 72, 73, 128, 200, 256, 300, 1100)), func(n int) Str { return Str(strings.Repeat("long secret ", n/12+1)[:n]) }),
	)
}

// WorldOpts restricts the generated configurations.
type WorldOpts struct {
	MinClients, MinUsers int
}

// WorldGen draws a configuration.
func WorldGen(o WorldOpts) *rapid.Generator[World] {
	return rapid.Custom(func(t *rapid.T) World {
		var w World
		w.Secret = Str(OneOf(rapid.SliceOfN(rapid.Byte(), 1, 100), rapid.Just([]byte("secret"))).Draw(t, "secret"))
		w.KeyLength = Pick(16, 16, 16, 16, 17, 17, 20, 20, 32, 32, 33, 64, 64, 128, 255, 256, 300).Draw(t, "keylen")
		n := Int(0, 3).Draw(t, "nallowed") // 0..
		if Int(0, 9).Draw(t, "big") == 9 {
			n = OneOf(Int(6, 14), Pick(0, 20, 40, 70)).Draw(t, "nallowedbig")
		} else {
			n++
		}
		seen := map[Str]bool{}
		for i := 0; i < n; i++ {
			s := ScopeToken().Draw(t, "allowed")
			if !seen[s] {
				seen[s] = true
				w.Allowed = append(w.Allowed, s)
			}
		}
		std := []Str{"openid", "offline_access", "admin", "*", "all", "profile", "email", "root", "read", "write", "user", "basic"}
		for i := Int(0, len(std)-1).Draw(t, "std"); len(std) > 5; i++ { // a few words that mean something elsewhere
			i %= len(std)
			if !seen[std[i]] {
				w.ExtraScopes = append(w.ExtraScopes, std[i])
			}
			std = append(std[:i], std[i+1:]...)
		}
		for _, a := range w.Allowed {
			for _, m := range NearMisses(a) {
				if !seen[m] {
					w.ExtraScopes = append(w.ExtraScopes, m)
				}
			}
		}
		w.ExtraScopes = append(w.ExtraScopes, "zzz-unknown")
		lf := func(name string) int {
			return OneOf(Pick(3600_000, 600_000, 60_000, 1_000, 7*24*3600_000, 1500, 90_500, 400*24*3600_000, 20*365*24*3600_000, 70*365*24*3600_000, 100*365*24*3600_000), Int(1, 5_000_000)).Draw(t, name)
		}
		w.AccessSec, w.RefreshSec, w.CodeSec = lf("access"), lf("refresh"), lf("code")
		nc := Int(max(o.MinClients, 1), 4).Draw(t, "nclients")
		ids := map[Str]bool{}
		for i := 0; len(w.Clients) < nc; i++ {
			id := nameGen().Draw(t, "id")
			if ids[id] {
				id = id + Str(fmt.Sprint(i))
			}
			if ids[id] {
				continue
			}
			ids[id] = true
			c := Client{ID: id, Secret: secretGen().Draw(t, "csecret"), Redirect: Pick(redirectPool...).Draw(t, "redirect"), Confidential: Int(0, 2).Draw(t, "conf") != 2}
			if i > 0 && Chance(t, 10) {
				c.Secret = w.Clients[0].Secret
			}
			if !c.Confidential && rapid.Bool().Draw(t, "nosecret") {
				c.Secret = ""
			}
			w.Clients = append(w.Clients, c)
		}
		nu := Int(max(o.MinUsers, 1), 3).Draw(t, "nusers")
		us := map[Str]bool{}
		for i := 0; len(w.Users) < nu; i++ {
			id := nameGen().Draw(t, "user")
			if us[id] {
				id = id + Str(fmt.Sprint(i))
			}
			if us[id] {
				continue
			}
			us[id] = true
			w.Users = append(w.Users, User{Name: id, Password: secretGen().Draw(t, "password")})
		}
		w.PathPrefix = Pick[Str]("/oauth2/", "/", "/a/b/c/", "/token/").Draw(t, "prefix")
		return w
	})
}
