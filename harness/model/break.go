package model

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"time"
)

// After returns the states in which the server may be once it has completely
// done what the request asks for, if it took its tokens from the given keys.
func (m *Model) After(r *ROp, now time.Time, keys [][]byte) (out []*Model) {
	var toks []string
	for _, k := range keys {
		toks = append(toks, Sign([]byte(m.W.Secret), k))
	}
	seen := map[uint64]bool{m.State(): true}
	for _, o := range m.answers(r, toks) {
		n := m.Clone()
		if len(n.Judge(r, now, o)) == 0 && !seen[n.State()] {
			seen[n.State()] = true
			out = append(out, n)
		}
	}
	return
}

// answers lists complete answers the request could get.
func (m *Model) answers(r *ROp, toks []string) (out []*Outcome) {
	reply := func(status int, f func(w *Recorder)) {
		w := NewRecorder()
		w.H.Set("Content-Type", "application/json;charset=UTF-8")
		w.H.Set("Cache-Control", "no-store")
		w.H.Set("Pragma", "no-cache")
		f(w)
		if w.Status == 0 {
			w.WriteHeader(status)
		}
		out = append(out, Parse(w))
	}
	doc := func(status int, v map[string]any) {
		reply(status, func(w *Recorder) {
			w.WriteHeader(status)
			b, _ := json.Marshal(v)
			w.Write(b)
		})
	}
	switch r.K {
	case "token":
		scopes := []string{r.form("scope")}
		for _, k := range []string{"code", "refresh_token"} {
			if c := m.find(r.form(k)); c != nil {
				scopes = append(scopes, strings.Join(c.Scope, " "))
			}
		}
		for _, sc := range scopes {
			for i := range toks {
				v := map[string]any{"token_type": "bearer", "access_token": toks[i], "expires_in": m.W.AccessSec / 1000, "scope": sc}
				if len(toks) > 1 {
					v["refresh_token"] = toks[1-i%2]
				}
				doc(200, v)
			}
		}
		doc(400, map[string]any{"error": "invalid_grant"})
	case "authorize":
		for _, cl := range m.W.Clients {
			for _, t := range toks {
				base := string(cl.Redirect)
				v := url.Values{}
				state := r.any("state")
				if state != "" {
					v.Set("state", state)
				}
				v.Set("code", t)
				sep := "?"
				if strings.Contains(base, "?") {
					sep = "&"
				}
				loc := base + sep + v.Encode()
				reply(303, func(w *Recorder) { w.H.Set("Location", loc) })
				v.Del("code")
				v.Set("access_token", t)
				v.Set("token_type", "bearer")
				v.Set("expires_in", fmt.Sprint(m.W.AccessSec/1000))
				v.Set("scope", r.any("scope"))
				loc2 := base + "#" + v.Encode()
				reply(303, func(w *Recorder) { w.H.Set("Location", loc2) })
			}
		}
	case "revoke":
		reply(200, func(w *Recorder) {})
	}
	return
}

// Undone is the state m with what was issued on the way to after, all of it
// without value.
func (m *Model) Undone(after *Model) *Model {
	n := m.Clone()
	for _, c := range after.Creds[len(m.Creds):] {
		d := *c
		d.Dead, d.Root = "undone", nil
		n.Creds = append(n.Creds, &d)
		n.bySt[d.Str] = &d
	}
	return n
}

// Forget drops a credential.
func (m *Model) Forget(str string) {
	for i, c := range m.Creds {
		if c.Str == str {
			m.Creds = append(m.Creds[:i:i], m.Creds[i+1:]...)
			delete(m.bySt, str)
			return
		}
	}
}
