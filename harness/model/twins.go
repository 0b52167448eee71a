package model

import (
	"fmt"
	"slices"
	"strings"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/pbt"
	"aaverif/randhook"
)

// TwinOp is an operation at one of two servers.
type TwinOp struct {
	Side int
	Op
}

// Twins is a history of two servers in one process.
type Twins struct {
	W, V World
	Ops  []TwinOp
}

// TwinsGen draws two configurations, mostly alike, and a history.
func TwinsGen(p Profile) *rapid.Generator[Twins] {
	og := OpGen(p)
	mixed := rapid.Custom(func(t *rapid.T) TwinOp {
		o := og.Draw(t, "op")
		if o.K != "adv" && Chance(t, 30) {
			switch {
			case o.K == "access", o.K == "introspect", o.K == "revoke", o.Grant == "refresh_token", o.Grant == "authorization_code":
				o.Tok = Ref{Kind: "s", N: Pick(0, 0, 0, 1, 1, 2, 3, 5, 8).Draw(t, "stranger")}
			}
		}
		return TwinOp{Int(0, 1).Draw(t, "side"), o}
	})
	return rapid.Custom(func(t *rapid.T) Twins {
		w := WorldGen(p.World).Draw(t, "world")
		v := *w.Clone()
		if Chance(t, 25) {
			v = WorldGen(p.World).Draw(t, "other")
		}
		if Chance(t, 60) {
			v.Secret = w.Secret
		} else {
			v.Secret = w.Secret + "2"
		}
		return Twins{w, v, Many(mixed, 6, 50).Draw(t, "ops")}
	})
}

// RunTwins plays a history at two servers. What each of them does must be what
// it would do alone; a disagreement with the model that also happens when the
// server is played alone belongs to other properties.
func RunTwins(x *X, h Twins, owner string, nt func(a, b *Model) bool) error {
	var err error
	Bubble(x.T, func() { err = runTwins(x, h, owner, -1, nt) })
	if err == nil {
		return nil
	}
	for side := 0; side < 2; side++ {
		alone := fmt.Errorf("panic")
		func() {
			defer func() { recover() }()
			Bubble(x.T, func() { alone = runTwins(&X{T: x.T}, h, owner, side, nil) })
		}()
		if alone != nil {
			x.Foreign(alone.Error())
			return nil
		}
	}
	return err
}

func runTwins(x *X, h Twins, owner string, only int, nt func(a, b *Model) bool) error {
	SeedRandom(string(h.W.Secret))
	defer randhook.Set(nil)
	var srv [2]*oauth2.Server
	var ms [2]*Model
	for i, w := range []*World{&h.W, &h.V} {
		srv[i], ms[i] = w.NewServer(), NewModel(w.Clone())
	}
	ms[0].Other, ms[1].Other = ms[1], ms[0]
	var trace []string
	do := func(side int, r *ROp) error {
		if only >= 0 && side != only {
			return nil
		}
		m := ms[side]
		now := m.settle()
		o := Do(srv[side], r, nil)
		trace = append(trace, fmt.Sprintf("server %d: %s %s\n        -> %s", side, now.Format("15:04:05.000"), r, o))
		vs := m.Judge(r, now, o)
		if len(vs) == 0 {
			return nil
		}
		v := vs[0]
		for _, w := range vs {
			if slices.Contains(w.Owners, owner) {
				v = w
			}
		}
		if n := len(trace); n > 30 {
			trace = trace[n-30:]
		}
		return fmt.Errorf("next to another server: %s\n  history:\n    %s", v.Msg, strings.Join(trace, "\n    "))
	}
	for _, op := range h.Ops {
		m := ms[op.Side&1]
		if op.K == "adv" {
			if d := m.Advance(op.Op, time.Now()); d > 0 {
				time.Sleep(d)
			}
			ms[0].settle()
			ms[1].settle()
			continue
		}
		r := m.Resolve(op.Op, m.settle())
		if r == nil {
			continue
		}
		if err := do(op.Side&1, r); err != nil {
			return err
		}
	}
	audit := func(side int) error {
		m := ms[side]
		ops := m.AuditOps()
		if len(m.W.Clients) > 0 { // the other server's credentials are worth nothing
			cl := m.W.Clients[0]
			auth := Basic(string(cl.ID), string(cl.Secret))
			for _, c := range m.Other.Creds {
				if _, signed, canonical := Verify([]byte(m.W.Secret), c.Str); signed && !canonical || m.find(c.Str) != nil {
					continue
				}
				m.Stats["stranger"]++
				ops = append(ops,
					&ROp{K: "access", Method: "GET", Path: "/audit", Auth: "Bearer " + c.Str, HasAuth: true},
					&ROp{K: "introspect", Method: "POST", Path: string(m.W.PathPrefix) + "introspect", Auth: auth, HasAuth: true, Form: []Pair{{"token", c.Str}}},
					&ROp{K: "revoke", Method: "POST", Path: string(m.W.PathPrefix) + "revoke", Auth: auth, HasAuth: true, Form: []Pair{{"token", c.Str}}},
					&ROp{K: "token", Method: "POST", Path: string(m.W.PathPrefix) + "token", Auth: auth, HasAuth: true, Form: []Pair{{"grant_type", "refresh_token"}, {"refresh_token", c.Str}}})
			}
		}
		n := len(trace)
		for _, r := range ops {
			if err := do(side, r); err != nil {
				return err
			}
			trace = trace[:min(n, len(trace))]
		}
		return nil
	}
	for round := 0; round < 2; round++ {
		for side := 0; side < 2; side++ {
			if err := audit(side); err != nil {
				return err
			}
		}
		if round == 0 {
			for side := 1; side >= 0; side-- {
				for _, r := range ms[side].DrainOps() {
					if err := do(side, r); err != nil {
						return err
					}
				}
			}
		}
	}
	for _, m := range ms {
		for k := range m.Stats {
			x.Label("%s", k)
		}
	}
	if nt != nil && nt(ms[0], ms[1]) {
		x.NonTrivial()
	}
	return nil
}
