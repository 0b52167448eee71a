package checks

import (
	"testing"

	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
)

// hist builds the history part of a property.
func hist(id string, quick, factor int, p Profile, nt func(m *Model) bool, snapshot bool) pbt.Part {
	return pbt.P("history", quick, factor, HistoryGen(p), func(x *pbt.X, h History) error {
		return Run(x, h, Opts{Owner: id, Snapshot: snapshot, NonTriv: nt})
	})
}

// changed builds the part of a property in which the configuration is changed
// between the requests.
func changed(id string, p Profile) pbt.Part {
	return pbt.P("changed", 300, 30, reconfigured(p), func(x *pbt.X, h History) error {
		return Run(x, h, Opts{Owner: id, NonTriv: func(m *Model) bool {
			return m.Stats["reconfigured"] > 1 && all(m, "token-ok", "token-refused")
		}})
	})
}

// volume builds the part of a property in which something happens very often.
func volume(id string, p Profile) pbt.Part {
	return pbt.P("volume", 3, 10, VolumeGen(p), func(x *pbt.X, h History) error {
		return Run(x, h, Opts{Owner: id, NonTriv: func(m *Model) bool { return m.Stats["bulk"] > 0 }})
	})
}

// crowd builds the part of a property in which very many credentials are alive
// at the same time.
func crowd(id, uses string) pbt.Part {
	return pbt.P("crowd", 30, 10, CrowdGen(longWorld(), 450), func(x *pbt.X, c Crowd) error {
		return Run(x, c.History(uses), Opts{Owner: id, NonTriv: func(m *Model) bool { return len(m.Creds) > 300 }})
	})
}

func all(m *Model, keys ...string) bool {
	for _, k := range keys {
		if m.Stats[k] == 0 {
			return false
		}
	}
	return true
}

func TestC01(t *testing.T) {
	p := Profile{
		W: map[string]int{"access": 24, "introspect": 1, "auth-token": 8, "revoke": 6}, Fault: []string{"tok", "dead", "hdr", "scope", "kind"}, FaultP: 45, Audit: 30,
	}
	pbt.Check(t, "C01", changed("C01", p), volume("C01", Profile{}), hist("C01", 2500, 15, p, func(m *Model) bool { return all(m, "access-ok", "access-refused", "clock-moved") }, false))
}

func TestC02(t *testing.T) {
	p := Profile{
		W: map[string]int{"auth-code": 20, "code": 24, "password": 2, "cc": 2, "auth-token": 2, "introspect": 1}, Fault: []string{"client", "redirect", "tok", "dead", "kind"}, FaultP: 45, Audit: 20,
	}
	pbt.Check(t, "C02", changed("C02", p), crowd("C02", "xkkc"), volume("C02", Profile{W: map[string]int{"auth-code": 20, "code": 24}, Fault: []string{"dead", "client", "redirect"}, FaultP: 30}), hist("C02", 2500, 15, p, func(m *Model) bool { return all(m, "token-authorization_code", "token-refused") }, false))
}

func TestC03(t *testing.T) {
	p := Profile{
		W: map[string]int{"auth-code": 20, "code": 30, "refresh": 16, "password": 3, "cc": 2, "auth-token": 3, "introspect": 1, "advto": 5}, Fault: []string{"dead", "dead", "client", "redirect", "sec"}, FaultP: 50, Audit: 60,
	}
	pbt.Check(t, "C03", changed("C03", p), crowd("C03", "cccr"), volume("C03", Profile{W: map[string]int{"auth-code": 20, "code": 30, "refresh": 16}, Fault: []string{"dead"}, FaultP: 40}), hist("C03", 2500, 15, p, func(m *Model) bool { return all(m, "replay-kills") }, false))
}

func TestC04(t *testing.T) {
	p := Profile{
		W: map[string]int{"refresh": 30, "introspect": 1, "auth-token": 2}, Fault: []string{"client", "dead", "scope", "tok", "kind"}, FaultP: 45, Audit: 50,
	}
	pbt.Check(t, "C04", changed("C04", p), crowd("C04", "rrrd"), volume("C04", Profile{W: map[string]int{"refresh": 30}, Fault: []string{"dead", "scope"}, FaultP: 30}), hist("C04", 2500, 15, p, func(m *Model) bool { return all(m, "token-refresh_token", "token-refused") }, false))
}

func TestC05(t *testing.T) {
	p := Profile{
		W: map[string]int{"cc": 20, "adv": 1, "advto": 1, "access": 2}, Fault: []string{"id", "sec", "sec", "auth", "client"}, FaultP: 55, Audit: 20,
	}
	pbt.Check(t, "C05", changed("C05", p), volume("C05", Profile{}), hist("C05", 2500, 15, p, func(m *Model) bool { return all(m, "token-ok", "token-refused") }, false))
}

func TestC06(t *testing.T) {
	p := Profile{
		W: map[string]int{"auth-code": 18, "auth-token": 14, "password": 22, "revoke": 2, "cc": 1, "adv": 1, "advto": 1}, Fault: []string{"user", "user", "pass", "pass", "method", "place"}, FaultP: 50, Audit: 30, World: WorldOpts{MinUsers: 2},
	}
	pbt.Check(t, "C06", changed("C06", p), volume("C06", Profile{}), hist("C06", 2500, 15, p, func(m *Model) bool { return all(m, "token-ok", "authorize-redirected-error") }, false))
}

func TestC07(t *testing.T) {
	p := Profile{
		W: map[string]int{"auth-code": 14, "auth-token": 10, "password": 12, "cc": 10, "code": 16, "refresh": 14, "access": 16, "adv": 1, "advto": 1}, Fault: []string{"scope", "scope", "scope", "scope"}, FaultP: 45, Audit: 50,
	}
	pbt.Check(t, "C07", changed("C07", p), volume("C07", Profile{}), hist("C07", 2500, 15, p, func(m *Model) bool { return all(m, "token-ok", "access-ok") && len(m.Creds) > 3 }, false))
}

func TestC08(t *testing.T) {
	p := Profile{
		W: map[string]int{"revoke": 30, "introspect": 1}, Fault: []string{"client", "client", "hint", "dead", "kind", "tok"}, FaultP: 45, Audit: 80,
	}
	pbt.Check(t, "C08", changed("C08", p), crowd("C08", "vvvw"), volume("C08", Profile{}), hist("C08", 2500, 15, p, func(m *Model) bool { return all(m, "revoked", "revoke-refused") }, false))
}

func TestC09(t *testing.T) {
	p := Profile{
		W: map[string]int{"introspect": 30, "access": 1}, Fault: []string{"client", "client", "hint", "dead", "kind", "tok"}, FaultP: 40, Audit: 20,
	}
	pbt.Check(t, "C09", changed("C09", p), crowd("C09", "irv"), volume("C09", Profile{}), hist("C09", 2500, 15, p, func(m *Model) bool { return all(m, "introspect-active", "introspect-inactive", "introspect-refused") }, false))
}

func TestC10(t *testing.T) {
	p := Profile{
		W: map[string]int{"auth-code": 30, "auth-token": 30, "password": 1, "cc": 1, "code": 3, "refresh": 1, "introspect": 1, "revoke": 1, "access": 1, "adv": 1, "advto": 1}, Fault: []string{"redirect", "redirect", "redirect", "id", "rt", "method", "state", "scope", "user"}, FaultP: 55,
	}
	pbt.Check(t, "C10", changed("C10", p), volume("C10", Profile{}), hist("C10", 2500, 15, p, func(m *Model) bool { return all(m, "authorize-direct-error", "authorize-redirected-error") }, false))
}

func TestC11(t *testing.T) {
	pbt.Check(t, "C11", hist("C11", 2000, 15, Profile{
		FaultP: 60, Audit: 100, MaxOps: 30,
	}, func(m *Model) bool { return m.Stats["snapshots"] >= 3 && len(m.Creds) > 2 }, true))
}

func TestC26(t *testing.T) {
	p := Profile{
		W: map[string]int{"adv": 8, "advto": 24, "refresh": 14, "revoke": 1, "code": 14}, Fault: []string{"dead"}, FaultP: 15, Audit: 60, Slow: 12,
	}
	pbt.Check(t, "C26", changed("C26", p), volume("C26", Profile{W: map[string]int{"adv": 8, "advto": 24, "refresh": 14, "code": 14}, FaultP: 10}), hist("C26", 2500, 15, p, func(m *Model) bool { return all(m, "clock-moved", "access-refused", "access-ok") }, false))
}

func TestC27(t *testing.T) {
	p := Profile{
		W: map[string]int{"revoke": 8, "introspect": 8, "access": 14, "code": 14, "refresh": 14}, Fault: []string{"kind", "kind", "kind", "kind", "kind", "tok", "tok"}, FaultP: 60, Audit: 20,
	}
	tp := p
	tp.FaultP = 15
	pbt.Check(t, "C27",
		hist("C27", 2500, 15, p, func(m *Model) bool { return all(m, "token-ok", "token-refused") && len(m.Creds) > 3 }, false),
		pbt.P("twins", 600, 20, TwinsGen(tp), func(x *pbt.X, h Twins) error {
			return RunTwins(x, h, "C27", func(a, b *Model) bool {
				return all(a, "token-ok", "stranger") && all(b, "token-ok", "stranger")
			})
		}))
}

// reconfigured mixes changes of the configuration into histories.
func reconfigured(p Profile) *rapid.Generator[History] {
	og, cg := OpGen(p), ReconfigureGen()
	mixed := rapid.Custom(func(t *rapid.T) Op {
		if pbt.Chance(t, 18) {
			return cg.Draw(t, "cfg")
		}
		o := og.Draw(t, "op")
		if pbt.Chance(t, 60) { // what used to be right is the most interesting mistake
			if o.Sec > 0 {
				o.Sec = 12
			}
			if o.PM > 0 || o.UM > 0 {
				o.UM, o.PM = 0, pbt.Int(10, 11).Draw(t, "stale")
			}
			if o.RM > 0 {
				o.RM = 16
			}
			if o.ID > 0 {
				o.ID = 7
			}
		}
		return o
	})
	return rapid.Custom(func(t *rapid.T) History {
		return History{WorldGen(p.World).Draw(t, "world"), pbt.Many(mixed, 6, 50).Draw(t, "ops")}
	})
}

func TestC28(t *testing.T) {
	pbt.Check(t, "C28", pbt.P("history", 1500, 20, reconfigured(Profile{
		W: map[string]int{"introspect": 6, "access": 4, "adv": 1, "advto": 2}, Fault: []string{"sec", "user", "pass", "scope", "redirect", "client"}, FaultP: 25, Audit: 10,
	}), func(x *pbt.X, h History) error {
		return Run(x, h, Opts{Owner: "C28", NonTriv: func(m *Model) bool {
			return m.Stats["reconfigured"] > 1 && all(m, "token-ok", "token-refused")
		}})
	}))
}

func TestC34(t *testing.T) {
	p := Profile{W: map[string]int{"adv": 1, "advto": 3, "code": 14, "refresh": 14, "access": 10, "introspect": 8, "revoke": 5}, Fault: []string{"client", "scope", "dead"}, FaultP: 25}
	og, sg := OpGen(p), RearrangeGen()
	mixed := rapid.Custom(func(t *rapid.T) Op {
		if pbt.Chance(t, 30) {
			return sg.Draw(t, "store")
		}
		return og.Draw(t, "op")
	})
	gen := rapid.Custom(func(t *rapid.T) History {
		return History{WorldGen(p.World).Draw(t, "world"), pbt.Many(mixed, 6, 50).Draw(t, "ops")}
	})
	pbt.Check(t, "C34", pbt.P("history", 1500, 20, gen, func(x *pbt.X, h History) error {
		return Run(x, h, Opts{Owner: "C34", Exposed: true, NonTriv: func(m *Model) bool {
			return m.Stats["rearranged"] > 2 && all(m, "token-ok", "token-refused")
		}})
	}))
}
