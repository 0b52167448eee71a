package model

import (
	"fmt"
	"slices"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/pbt"
)

// stores gives the server's stores of the credentials of a kind.
func stores(s *oauth2.Server, kind rune) map[string]*oauth2.ServerCredential {
	switch kind {
	case 'a':
		return s.AccessTokens
	case 'r':
		return s.RefreshTokens
	}
	return s.AuthorizationCodes
}

func (c *Cred) signature() string {
	for i := range c.Str {
		if c.Str[i] == '.' {
			return c.Str[i+1:]
		}
	}
	return ""
}

// Exposed tells how the server's stores differ from what they must hold of the
// usable credentials.
func (m *Model) Exposed(s *oauth2.Server, now time.Time) string {
	known := map[string]bool{}
	for _, c := range m.Creds {
		known[string(c.Kind)+c.signature()] = true
		if c.Dead != "" || now.After(c.Expires) {
			continue
		}
		e := stores(s, c.Kind)[c.signature()]
		what := fmt.Sprintf("%c %s of client %q and user %q with scope %q until %v", c.Kind, c.Str, c.Client, c.User, c.Scope, c.Expires)
		switch {
		case e == nil:
			return what + " is not in the store"
		case e.ClientID != c.Client || e.Username != c.User || !e.ExpiresAt.Equal(c.Expires) || !subset(e.Scope, c.Scope) || !subset(c.Scope, e.Scope) || e.Used || c.Kind == 'c' && e.RedirectURI != c.Redirect:
			return fmt.Sprintf("%s is in the store as %+v", what, *e)
		}
	}
	for _, kind := range "arc" {
		for k, e := range stores(s, kind) {
			if !known[string(kind)+k] && !e.Used && !now.After(e.ExpiresAt) {
				return fmt.Sprintf("the store of the kind %c holds %+v, which nobody was given", kind, *e)
			}
		}
	}
	return ""
}

// Rearrange does something to the stores, as the program around a server would,
// or moves everything to a new server.
func (m *Model) Rearrange(s *oauth2.Server, o Op, now time.Time) (*oauth2.Server, string) {
	w := m.W
	cl, us := w.Clients[mod(o.C, len(w.Clients))], w.Users[mod(o.U, len(w.Users))]
	kind := rune((o.Tok.Kind + "a")[0])
	scope := func() (out []string) {
		for _, v := range o.Scope {
			if v < 0 {
				out = append(out, string(w.ExtraScopes[mod(-v-1, len(w.ExtraScopes))]))
			} else {
				out = append(out, w.allowedAt(v))
			}
		}
		return out
	}
	if m.stored = true; o.RT == "plant" {
		tok := s.Config.MustGenerate()
		c := &Cred{Kind: kind, Str: tok.String(), Client: string(cl.ID), User: string(us.Name), Scope: scope(), Issued: now, Expires: now.Add(ms(o.D))}
		e := &oauth2.ServerCredential{ClientID: c.Client, Username: c.User, Scope: slices.Clone(c.Scope), ExpiresAt: c.Expires}
		if kind == 'c' {
			c.Redirect = string(cl.Redirect)
			e.RedirectURI = c.Redirect
		} else if o.Off%3 == 0 {
			c.User, e.Username = "", ""
		} else if root := m.pick(Ref{Kind: "c", Sel: 2, N: o.Off}, now); o.Off%3 == 1 && root != nil && root.Dead == "used" {
			c.Root, e.Code = root, root.signature() // one of the family
		}
		if m.add(c) != nil { // what random numbers do is for others to judge
			return s, ""
		}
		stores(s, kind)[tok.SignatureString()] = e
		return s, fmt.Sprintf("%c %s with %+v is put into the store", kind, c.Str, *e)
	}
	if o.RT == "move" {
		n := oauth2.NewServer(s.Config)
		move := func(to, from map[string]*oauth2.ServerCredential) {
			for k, v := range from {
				e := *v
				e.Scope = slices.Clone(v.Scope)
				to[k] = &e
			}
		}
		for k, v := range s.Clients {
			e := *v
			n.Clients[k] = &e
		}
		for k, v := range s.Users {
			e := *v
			n.Users[k] = &e
		}
		move(n.AccessTokens, s.AccessTokens)
		move(n.RefreshTokens, s.RefreshTokens)
		move(n.AuthorizationCodes, s.AuthorizationCodes)
		return n, "everything moves to a new server"
	}
	if o.RT == "share" { // a second server in front of the same memory
		n := oauth2.NewServer(s.Config)
		n.Clients, n.Users = s.Clients, s.Users
		n.AccessTokens, n.RefreshTokens, n.AuthorizationCodes = s.AccessTokens, s.RefreshTokens, s.AuthorizationCodes
		return n, "a new server takes over the stores"
	}
	if o.RT == "swap" || o.RT == "clear" && o.Enc == 1 { // another map
		next := map[string]*oauth2.ServerCredential{}
		if o.RT == "swap" {
			for k, v := range stores(s, kind) {
				if next[k] = v; o.Off%2 == 1 {
					e := *v
					next[k] = &e
				}
			}
		} else {
			for _, d := range m.Creds {
				if d.Kind == kind {
					d.Dead = "taken out"
				}
			}
		}
		switch kind {
		case 'a':
			s.AccessTokens = next
		case 'r':
			s.RefreshTokens = next
		default:
			s.AuthorizationCodes = next
		}
		return s, fmt.Sprintf("the store of the kind %c is another map (%s)", kind, o.RT)
	}
	c := m.pick(o.Tok, now)
	if c == nil || c.Dead != "" {
		return s, ""
	}
	st := stores(s, c.Kind)
	e := st[c.signature()]
	if e == nil { // already cleaned up
		return s, ""
	}
	if o.Enc == 1 { // another entry instead of another content
		n := *e
		e = &n
		st[c.signature()] = e
	}
	switch o.RT {
	case "drop":
		delete(st, c.signature())
		c.Dead = "taken out"
	case "clear":
		clear(st)
		for _, d := range m.Creds {
			if d.Kind == c.Kind {
				d.Dead = "taken out"
			}
		}
		return s, fmt.Sprintf("all credentials of the kind %c are taken out", c.Kind)
	case "expiry":
		c.Expires = now.Add(ms(o.D))
		if o.Off%3 == 0 {
			c.Expires = now.Add(-ms(o.D))
		}
		e.ExpiresAt = c.Expires
	case "scope":
		c.Scope = scope()
		e.Scope = slices.Clone(c.Scope)
	case "client":
		c.Client, e.ClientID = string(cl.ID), string(cl.ID)
	case "user":
		c.User, e.Username = string(us.Name), string(us.Name)
	case "used":
		if c.Kind != 'c' {
			return s, ""
		}
		e.Used, c.Dead = true, "used"
	case "redirect":
		if c.Kind != 'c' {
			return s, ""
		}
		c.Redirect = string(cl.Redirect)
		e.RedirectURI = c.Redirect
	}
	return s, fmt.Sprintf("%c %s is now %+v (%s)", c.Kind, c.Str, *e, o.RT)
}

// RearrangeGen draws changes of the stores.
func RearrangeGen() *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: "store", RT: Pick("plant", "plant", "plant", "plant", "drop", "drop", "expiry", "expiry", "scope", "client", "user", "used", "redirect", "move", "move", "share", "swap", "swap", "clear", "clear").Draw(t, "change"),
			C: Int(0, 3).Draw(t, "client"), U: Int(0, 2).Draw(t, "user"), D: OneOf(Int(1, 100_000), Int(1, 100_000_000)).Draw(t, "ms"), Enc: Int(0, 1).Draw(t, "fresh"), Off: Int(0, 30).Draw(t, "off"), Audit: Chance(t, 30)}
		o.Tok = Ref{Kind: Pick("a", "r", "c").Draw(t, "kind"), Sel: Pick(1, 1, 1, 3).Draw(t, "sel"), N: Int(0, 8).Draw(t, "n")}
		for i := Int(0, 3).Draw(t, "nscope"); i > 0; i-- {
			o.Scope = append(o.Scope, OneOf(Int(0, 5), Int(0, 5), Int(-10, -1)).Draw(t, "s"))
		}
		return o
	})
}
