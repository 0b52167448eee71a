package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"mime/multipart"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf16"

	oauth2 "github.com/256dpi/oauth2/v2"
	"pgregory.net/rapid"

	. "aaverif/model"
	"aaverif/pbt"
	"aaverif/randhook"
)

// ---- C18

func secretBytes() *rapid.Generator[Str] {
	return pbt.OneOf(pbt.Bytes(0, 70), pbt.Pick[Str]("secret", "", "0123456789abcdef", "a", Str(strings.Repeat("s", 64)), Str(strings.Repeat("s", 65)), "Secret", "secret2"),
		rapid.Map(pbt.Int(60, 200), func(n int) Str { return Str(strings.Repeat("\x9c", n)) }))
}

func keyBytes() *rapid.Generator[Str] {
	return pbt.OneOf(pbt.Bytes(0, 40), pbt.Bytes(16, 16), pbt.Bytes(32, 32), rapid.Map(long(300), func(n int) Str { return Str(strings.Repeat("\x00\xff", n)) }))
}

type tokenCase struct {
	Secret, Key, Other Str
	Mut                int
	N, M               int
	Junk               Str
}

func tokenGen() *rapid.Generator[tokenCase] {
	return rapid.Custom(func(t *rapid.T) tokenCase {
		c := tokenCase{Secret: secretBytes().Draw(t, "secret"), Key: keyBytes().Draw(t, "key"), Mut: pbt.Int(0, 20).Draw(t, "mut"), N: pbt.Int(0, 4095).Draw(t, "n"), M: pbt.Int(0, 4095).Draw(t, "m")}
		switch pbt.Int(0, 4).Draw(t, "other") {
		case 0:
			c.Other = secretBytes().Draw(t, "os")
		case 1:
			c.Other = c.Secret + "x"
		case 2:
			if len(c.Secret) > 0 {
				c.Other = c.Secret[:len(c.Secret)-1]
			}
		case 3:
			c.Other = c.Secret + "\x00"
		default:
			b := []byte(c.Secret)
			if len(b) > 0 {
				b[c.N%len(b)] ^= 1 << (c.M % 8)
			}
			c.Other = Str(b)
		}
		c.Junk = pbt.OneOf(pbt.Bytes(0, 12), pbt.Pick[Str]("=", ".", "a", "\n", " ", "-_", "+/", "é", "AAAA")).Draw(t, "junk")
		return c
	})
}

// accept checks what the parser must do with a string.
func accept(secret []byte, s string) error {
	key, signed, canonical := Verify(secret, s)
	tok, err := oauth2.ParseHS256Token(secret, s)
	if (err == nil) != (tok != nil) {
		return fmt.Errorf("token %v together with error %v", tok, err)
	}
	if err == nil {
		if !signed {
			return fmt.Errorf("%q is accepted under %q although it is not validly signed", s, secret)
		}
		if !bytes.Equal(tok.Key, key) || !bytes.Equal(tok.Signature, MAC(secret, key)) {
			return fmt.Errorf("%q parses to key %x signature %x", s, tok.Key, tok.Signature)
		}
		if !tok.Valid(secret) {
			return fmt.Errorf("accepted token %q is not valid", s)
		}
		return nil
	}
	if canonical {
		return fmt.Errorf("validly signed token %q is rejected under %q: %v", s, secret, err)
	}
	return nil
}

func checkToken(x *pbt.X, c tokenCase) error {
	secret, key := []byte(c.Secret), []byte(c.Key)
	e := base64.RawURLEncoding
	tok := oauth2.HS256TokenFromKey(secret, slices.Clone(key))
	sig := MAC(secret, key)
	str := tok.String()
	if want := Sign(secret, key); str != want {
		return fmt.Errorf("token for secret %q key %x prints as %q instead of %q", secret, key, str, want)
	}
	if tok.KeyString() != e.EncodeToString(key) || tok.SignatureString() != e.EncodeToString(sig) {
		return fmt.Errorf("segments %q %q", tok.KeyString(), tok.SignatureString())
	}
	if !bytes.Equal(tok.Key, key) || !bytes.Equal(tok.Signature, sig) {
		return fmt.Errorf("key %x signature %x", tok.Key, tok.Signature)
	}
	if err := accept(secret, str); err != nil {
		return err
	}
	if len(key) > 0 {
		x.NonTrivial()
	}
	// other secret
	if err := accept([]byte(c.Other), str); err != nil {
		return err
	}
	if tok.Valid([]byte(c.Other)) != bytes.Equal(MAC([]byte(c.Other), key), sig) {
		return fmt.Errorf("validity under another secret %q", c.Other)
	}
	// mutated signature and key bytes
	flip := func(b []byte) []byte {
		b = slices.Clone(b)
		if len(b) > 0 {
			b[c.N%len(b)] ^= 1 << (c.M % 8)
		}
		return b
	}
	k2, s2 := key, sig
	s := ""
	switch c.Mut {
	case 0:
		k2 = flip(key)
	case 1:
		s2 = flip(sig)
	case 2:
		s2 = sig[:c.N%32]
	case 3:
		s2 = append(slices.Clone(sig), c.Junk...)
	case 4:
		k2 = append(slices.Clone(key), c.Junk...)
	case 5:
		if len(key) > 0 {
			k2 = key[:c.N%len(key)]
		}
	case 6:
		k2, s2 = sig, key
	case 7:
		s2 = MAC([]byte(c.Other), key)
	case 8:
		s2 = MAC(nil, key)
	case 9:
		s2 = nil
	case 10:
		k2 = nil
	case 11:
		s2 = append(slices.Clone(sig), sig...)
	case 12:
		s2 = sig[16:]
	case 13:
		s2 = make([]byte, 32)
	case 14:
		s = str + "." + e.EncodeToString(sig)
	case 15:
		s = str + string(c.Junk)
	case 16:
		i := c.N % (len(str) + 1)
		s = str[:i] + string(c.Junk) + str[i:]
	case 17:
		s = base64.StdEncoding.EncodeToString(key) + "." + base64.StdEncoding.EncodeToString(sig)
	case 18:
		s = strings.Replace(str, ".", string(c.Junk), 1)
	case 19:
		i := c.N % len(str)
		s = str[:i]
	case 20:
		b := []byte(str)
		b[c.N%len(b)] ^= 1 << (c.M % 8)
		s = string(b)
	}
	if s == "" && c.Mut < 14 {
		s = e.EncodeToString(k2) + "." + e.EncodeToString(s2)
	}
	if err := accept(secret, s); err != nil {
		return err
	}
	x.Label("mut%02d", c.Mut)
	if c.Mut < 14 {
		// a token made of these parts is valid exactly if the signature is right
		m := &oauth2.HS256Token{Key: slices.Clone(k2), Signature: slices.Clone(s2)}
		if got, want := m.Valid(secret), bytes.Equal(s2, MAC(secret, k2)); got != want {
			return fmt.Errorf("Valid is %v instead of %v for key %x signature %x", got, want, k2, s2)
		}
		if got, want := tok.Equal(s2), bytes.Equal(s2, sig); got != want {
			return fmt.Errorf("Equal is %v instead of %v for %x and %x", got, want, sig, s2)
		}
		if got, want := m.Equal(sig), bytes.Equal(s2, sig); got != want {
			return fmt.Errorf("Equal is %v instead of %v for %x and %x", got, want, s2, sig)
		}
		if len(s2) > 0 && len(s2) < 32 {
			x.Label("truncated")
		}
	}
	// nothing of the above changes the original
	if !tok.Valid(secret) || tok.String() != str {
		return fmt.Errorf("the token changed to %s", tok)
	}
	return accept(secret, str)
}

func TestC18(t *testing.T) {
	pbt.Check(t, "C18", pbt.P("token", 30000, 30, tokenGen(), checkToken))
}

// ---- C19

// scriptReader is a random source that records what it delivered and may fail.
type scriptReader struct {
	mu     sync.Mutex
	c      *rand.ChaCha8
	out    []byte
	chunk  int
	fail   int // fail once this many bytes were delivered; <0 never
	kind   int
	zero   bool
	failed bool
}

var errRandom = errors.New("random source failed")

func newScript(seed string, chunk, fail, kind int) *scriptReader {
	var k [32]byte
	copy(k[:], MAC([]byte("script"), []byte(seed)))
	return &scriptReader{c: rand.NewChaCha8(k), chunk: chunk, fail: fail, kind: kind}
}

func (s *scriptReader) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	var err error
	if s.fail >= 0 && len(s.out)+n > s.fail {
		n = s.fail - len(s.out)
		err = errRandom
		if s.kind%3 == 1 {
			err = io.EOF
		} else if s.kind%3 == 2 {
			err = io.ErrUnexpectedEOF
		}
		if s.kind >= 3 && n > 0 { // data first, the error on the next call
			err = nil
		} else {
			s.failed = true
		}
	}
	b := make([]byte, n)
	s.c.Read(b)
	copy(p, b)
	s.out = append(s.out, b...)
	return n, err
}

type genCase struct {
	Secret Str
	Len    []int
	Seed   int
	Chunk  int
	Fail   int
	Kind   int
	Must   bool
}

func genTokens(t *rapid.T) genCase {
	c := genCase{Secret: secretBytes().Draw(t, "secret"), Seed: pbt.Int(0, 1<<20).Draw(t, "seed"), Kind: pbt.Int(0, 5).Draw(t, "kind"), Must: rapid.Bool().Draw(t, "must")}
	ln := pbt.OneOf(pbt.Pick(16, 16, 32, 20), pbt.Int(1, 70), pbt.Int(100, 600))
	c.Len = rapid.SliceOfN(ln, 1, 12).Draw(t, "len")
	if pbt.Chance(t, 3) {
		// a great many
		n := pbt.Pick(16, 32, 24, 17, 64).Draw(t, "each")
		c.Len = nil
		for i := pbt.Int(60, 500).Draw(t, "many"); i > 0; i-- {
			c.Len = append(c.Len, n)
		}
	}
	c.Chunk = pbt.Pick(0, 0, 1, 3, 7, 16).Draw(t, "chunk")
	c.Fail = -1
	if pbt.Chance(t, 60) {
		total := 0
		for _, l := range c.Len {
			total += l
		}
		c.Fail = pbt.Int(0, total+3).Draw(t, "fail")
	}
	return c
}

// intervals finds each key in the delivered bytes at places that do not overlap.
func intervals(keys [][]byte, stream []byte) error {
	type iv struct{ a, b int }
	var used []iv
	order := slices.Clone(keys)
	sort.Slice(order, func(i, j int) bool { return len(order[i]) > len(order[j]) })
	for _, k := range order {
		if len(k) < 8 { // too short to be told apart
			if !bytes.Contains(stream, k) {
				return fmt.Errorf("key %x is not made of bytes of the random source", k)
			}
			continue
		}
		found := false
		for off := 0; !found; {
			i := bytes.Index(stream[off:], k)
			if i < 0 {
				break
			}
			i += off
			ok := true
			for _, u := range used {
				if i < u.b && u.a < i+len(k) {
					ok = false
				}
			}
			if ok {
				used = append(used, iv{i, i + len(k)})
				found = true
			}
			off = i + 1
		}
		if !found {
			return fmt.Errorf("key %x is not made of fresh bytes of the random source (%d bytes delivered)", k, len(stream))
		}
	}
	return nil
}

func generate(secret []byte, n int, must bool) (tok *oauth2.HS256Token, err error) {
	if !must {
		return oauth2.GenerateHS256Token(secret, n)
	}
	defer func() {
		if r := recover(); r != nil {
			tok, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	return oauth2.MustGenerateHS256Token(secret, n), nil
}

func checkGenerate(x *pbt.X, c genCase) error {
	src := newScript(fmt.Sprint(c.Seed), c.Chunk, c.Fail, c.Kind)
	randhook.Set(src)
	defer randhook.Set(nil)
	secret := []byte(c.Secret)
	var keys [][]byte
	var toks []*oauth2.HS256Token
	var strs []string
	for i, n := range c.Len {
		before := len(src.out)
		tok, err := generate(secret, n, c.Must)
		if err != nil {
			if tok != nil {
				return fmt.Errorf("token %d: error %v together with a token", i, err)
			}
			if c.Fail < 0 || !src.failed {
				return fmt.Errorf("token %d of length %d failed although the random source works: %v", i, n, err)
			}
			x.Label("failed")
			break
		}
		if tok == nil {
			return fmt.Errorf("token %d: neither token nor error", i)
		}
		if len(tok.Key) != n {
			return fmt.Errorf("token %d has a key of %d bytes instead of %d", i, len(tok.Key), n)
		}
		if src.failed && len(src.out)-before < n {
			return fmt.Errorf("token %d of length %d was generated from %d random bytes", i, n, len(src.out)-before)
		}
		if tok.String() != Sign(secret, tok.Key) || !tok.Valid(secret) {
			return fmt.Errorf("token %d is not validly signed", i)
		}
		keys = append(keys, slices.Clone(tok.Key))
		toks = append(toks, tok)
		strs = append(strs, tok.String())
	}
	if err := intervals(keys, src.out); err != nil {
		return err
	}
	for i, tok := range toks { // nothing generated later touched them
		if tok.String() != strs[i] || !tok.Valid(secret) {
			return fmt.Errorf("token %d changed after it was generated", i)
		}
	}
	x.NonTrivial()
	return nil
}

type concCase struct {
	Secret  Str
	Len     int
	Workers int
	Each    int
	Seed    int
}

func checkConcurrent(x *pbt.X, c concCase) error {
	src := newScript(fmt.Sprint(c.Seed), 5, -1, 0)
	randhook.Set(src)
	defer randhook.Set(nil)
	secret := []byte(c.Secret)
	out := make([][]*oauth2.HS256Token, c.Workers)
	bad := make([]error, c.Workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < c.Each; i++ {
				tok, err := oauth2.GenerateHS256Token(secret, c.Len)
				if err != nil {
					bad[w] = err
					return
				}
				s := tok.String()
				if p, err := oauth2.ParseHS256Token(secret, s); err != nil || !tok.Valid(secret) || p.String() != s || s != Sign(secret, tok.Key) {
					bad[w] = fmt.Errorf("generated token %q is not accepted: %v", s, err)
					return
				}
				if s2 := Sign([]byte("x"+c.Secret), tok.Key); true {
					if _, err := oauth2.ParseHS256Token(secret, s2); err == nil {
						bad[w] = fmt.Errorf("token %q signed with another secret is accepted", s2)
						return
					}
				}
				out[w] = append(out[w], tok)
			}
		}()
	}
	close(start)
	wg.Wait()
	seen := map[string]bool{}
	for w, toks := range out {
		if bad[w] != nil {
			return bad[w]
		}
		for _, tok := range toks {
			if len(tok.Key) != c.Len || tok.String() != Sign(secret, tok.Key) {
				return fmt.Errorf("bad token %q", tok)
			}
			if seen[string(tok.Key)] {
				return fmt.Errorf("key %x was generated twice", tok.Key)
			}
			seen[string(tok.Key)] = true
		}
	}
	x.NonTrivial()
	x.Count("tokens", len(seen))
	return nil
}

// serverTokens issues many credentials and looks at their keys.
type issueCase struct {
	W     World
	N     int
	Chunk int
	Seed  int
}

func checkIssue(x *pbt.X, c issueCase) error {
	if d := oauth2.DefaultServerConfig([]byte(c.W.Secret), nil); d.KeyLength < 16 || !bytes.Equal(d.Secret, []byte(c.W.Secret)) {
		return fmt.Errorf("the default configuration has keys of %d bytes and the secret %q instead of %q", d.KeyLength, d.Secret, c.W.Secret)
	}
	src := newScript(fmt.Sprint(c.Seed), c.Chunk, -1, 0)
	randhook.Set(src)
	defer randhook.Set(nil)
	srv := c.W.NewServer()
	m := NewModel(&c.W)
	for i := range c.W.Clients {
		c.W.Clients[i].Confidential = true
		srv.Clients[string(c.W.Clients[i].ID)].Confidential = true
	}
	now := time.Now()
	var keys [][]byte
	for i := 0; i < c.N; i++ {
		op := []Op{{K: "token"}, {K: "token", Grant: "client_credentials"}, {K: "authorize"}, {K: "authorize", RT: "token"}, {K: "token", Grant: "authorization_code", Tok: Ref{Kind: "c", Sel: 1}}, {K: "token", Grant: "refresh_token", Tok: Ref{Kind: "r", Sel: 1, N: i}}}[i%6]
		r := m.Resolve(op, now)
		o := Do(srv, r, nil)
		n := len(m.Creds)
		if vs := m.Judge(r, now, o); len(vs) > 0 {
			for _, v := range vs {
				if slices.Contains(v.Owners, "C19") {
					return fmt.Errorf("%s -> %s: %s", r, o, v.Msg)
				}
			}
			x.Foreign(vs[0].Msg)
			return nil
		}
		for _, cr := range m.Creds[n:] {
			key, _, _ := Verify([]byte(c.W.Secret), cr.Str)
			keys = append(keys, key)
		}
	}
	x.NonTrivial()
	x.Count("credentials", len(keys))
	x.Label("keylength-%d..", c.W.KeyLength/16*16)
	return intervals(keys, src.out)
}

func TestC19(t *testing.T) {
	conc := rapid.Custom(func(t *rapid.T) concCase {
		return concCase{secretBytes().Draw(t, "secret"), pbt.Pick(16, 16, 17, 24, 32, 64).Draw(t, "len"), pbt.Int(2, 8).Draw(t, "workers"), pbt.Int(1, 30).Draw(t, "each"), pbt.Int(0, 1<<20).Draw(t, "seed")}
	})
	issue := rapid.Custom(func(t *rapid.T) issueCase {
		w := WorldGen(WorldOpts{}).Draw(t, "world")
		w.KeyLength = pbt.OneOf(pbt.Pick(16, 32, 64, 128, 255, 256, 257, 512, 1000), pbt.Int(8, 100)).Draw(t, "keylength")
		w.AccessSec, w.RefreshSec, w.CodeSec = 3600_000, 3600_000, 3600_000
		return issueCase{w, pbt.Int(6, 60).Draw(t, "n"), pbt.Pick(0, 1, 5).Draw(t, "chunk"), pbt.Int(0, 1<<20).Draw(t, "seed")}
	})
	pbt.Check(t, "C19",
		pbt.P("generate", 6000, 30, rapid.Custom(genTokens), checkGenerate),
		pbt.P("concurrent", 150, 30, conc, checkConcurrent),
		pbt.P("server", 400, 20, issue, checkIssue),
	)
}

// ---- C20

type scopeCase struct {
	Str    Str
	A, B   []Str
	C      []Str
	Extra  Str
	Perm   int
	JSON   Str
	Spaced bool
}

func scopeGen() *rapid.Generator[scopeCase] {
	return rapid.Custom(func(t *rapid.T) scopeCase {
		var c scopeCase
		var pool []Str
		for len(pool) < 4 {
			w := word().Draw(t, "word")
			pool = append(pool, w)
			if pbt.Chance(t, 15) { // blanks of other kinds inside a word
				pool = append(pool, joined(w, word().Draw(t, "rest")).Draw(t, "joined"))
			}
			if pbt.Chance(t, 50) {
				pool = append(pool, pbt.Pick(NearMisses(w)...).Draw(t, "near"))
			}
		}
		el := pbt.Pick(pool...)
		top := 6
		if pbt.Chance(t, 8) {
			// many elements
			for top = 70; len(pool) < 40; {
				pool = append(pool, word().Draw(t, "word")+Str(fmt.Sprint(len(pool))))
			}
			el = pbt.Pick(pool...)
		}
		c.A = pbt.OneOf(rapid.SliceOfN(el, 0, 6), rapid.SliceOfN(el, top/2, top)).Draw(t, "a")
		if pbt.Chance(t, 40) {
			c.B = rapid.SliceOfN(el, 0, top).Draw(t, "b")
		} else { // a subset with repetitions
			for _, s := range c.A {
				for i := pbt.Int(0, 2).Draw(t, "rep"); i > 0; i-- {
					c.B = append(c.B, s)
				}
			}
		}
		for _, s := range c.B {
			if pbt.Chance(t, 60) {
				c.C = append(c.C, s)
			}
		}
		c.Extra = el.Draw(t, "extra")
		c.Perm = pbt.Int(0, 1<<20).Draw(t, "perm")
		switch pbt.Int(0, 3).Draw(t, "str") {
		case 0:
			c.Str = value().Draw(t, "any")
		default:
			c.Spaced = true
			s := strings.Repeat(" ", pbt.Pick(0, 0, 1, 3).Draw(t, "lead"))
			for _, w := range rapid.SliceOfN(word(), 0, 6).Draw(t, "words") {
				if pbt.Chance(t, 15) {
					w = joined(w, "z").Draw(t, "joined")
				}
				s += string(w) + strings.Repeat(" ", pbt.Pick(1, 1, 1, 2, 4).Draw(t, "gap"))
			}
			if pbt.Chance(t, 60) {
				s = strings.TrimRight(s, " ")
			}
			c.Str = Str(s)
		}
		c.JSON = pbt.Pick[Str]("1", "-1.5", "true", "false", "[]", "{}", `["foo"]`, `{"a":"b"}`, `[1,2]`, `[null]`, "0", "1e3", `["a b"]`, "").Draw(t, "json")
		return c
	})
}

// joined puts something between two words that is no space.
func joined(a, b Str) *rapid.Generator[Str] {
	return rapid.Map(pbt.Pick[Str]("\u00a0", "\t", "\n", "\r\n", "\v", "\u2003", "\u3000", "\u2028", "\u200b", "\x00", ",", ";", "+", "%20", "\u0085"), func(m Str) Str { return a + m + b })
}

func incl(a, b []Str) bool {
	for _, x := range b {
		if !slices.Contains(a, x) {
			return false
		}
	}
	return true
}

func checkScope(x *pbt.X, c scopeCase) error {
	// parsing
	s := string(c.Str)
	p := oauth2.ParseScope(s)
	if c.Spaced {
		if want := words(s); !slices.Equal(p, want) {
			return fmt.Errorf("ParseScope(%q) = %q instead of %q", s, p, want)
		}
		x.Label("words-%d", min(len(p), 4))
	}
	for _, e := range p {
		if e == "" || strings.Contains(e, " ") {
			return fmt.Errorf("ParseScope(%q) has element %q", s, e)
		}
	}
	if p.Empty() != (len(p) == 0) {
		return fmt.Errorf("Empty of %q", p)
	}
	again := oauth2.ParseScope(p.String())
	if !slices.Equal(again, p) || again.String() != p.String() {
		return fmt.Errorf("parsing is not idempotent: %q -> %q -> %q", s, p, again)
	}
	// printing then parsing
	a, b, cc := toScope(c.A), toScope(c.B), toScope(c.C)
	keepA, keepB := slices.Clone(a), slices.Clone(b)
	if a.String() != strings.Join(a, " ") {
		return fmt.Errorf("%q prints as %q", a, a.String())
	}
	if r := oauth2.ParseScope(a.String()); !slices.Equal(r, a) {
		return fmt.Errorf("%q prints and parses to %q", a, r)
	}
	valid := oauth2.Scope{}
	for _, e := range a {
		valid = append(valid, strings.ToValidUTF8(e, "?"))
	}
	j, err := json.Marshal(valid)
	if err != nil {
		return fmt.Errorf("marshalling %q: %v", valid, err)
	}
	var text string
	if err := json.Unmarshal(j, &text); err != nil || text != strings.Join(valid, " ") {
		return fmt.Errorf("%q marshals to %s", valid, j)
	}
	back := oauth2.Scope{"stale"}
	if err := json.Unmarshal(j, &back); err != nil || !slices.Equal(back, valid) {
		return fmt.Errorf("%q marshals to %s and back to %q (%v)", valid, j, back, err)
	}
	// other spellings of the same JSON string
	for k := 0; k < 6; k++ {
		enc := spellJSON(text, k)
		again := oauth2.Scope{"stale"}
		if err := json.Unmarshal(enc, &again); err != nil || !slices.Equal(again, valid) {
			return fmt.Errorf("%s unmarshals to %q instead of %q (%v)", enc, again, valid, err)
		}
	}
	type holder struct{ S oauth2.Scope }
	hj, err := json.Marshal(holder{valid})
	var h holder
	if err != nil || json.Unmarshal(hj, &h) != nil || !slices.Equal(h.S, valid) {
		return fmt.Errorf("%q inside a struct marshals to %s", valid, hj)
	}
	// not a string
	stale := oauth2.Scope{"stale"}
	if err := stale.UnmarshalJSON([]byte(c.JSON)); err == nil {
		return fmt.Errorf("JSON value %s is accepted as scope %q", c.JSON, stale)
	}
	// containment
	ask := append(append(slices.Clone(c.A), c.B...), c.Extra, c.Str, "", " ")
	for i := 0; i+1 < len(c.A); i += 1 + len(c.A)/8 { // what several elements look like together
		l, r := c.A[i], c.A[i+1]
		ask = append(ask, l+" "+r, l+r, l+",", " "+r, r+" ", l+"\x00"+r, l+" "+r+" "+l)
		if n := len(l) / 2; n > 0 {
			ask = append(ask, l[:n], l[n:])
		}
	}
	for _, e := range ask {
		if got, want := a.Contains(string(e)), slices.Contains(c.A, e); got != want {
			return fmt.Errorf("%q contains %q: %v", a, e, got)
		}
	}
	inc := func(l, r []Str) error {
		if got, want := toScope(l).Includes(toScope(r)), incl(l, r); got != want {
			return fmt.Errorf("%q includes %q: %v", l, r, got)
		}
		return nil
	}
	for _, pr := range [][2][]Str{{c.A, c.B}, {c.B, c.A}, {c.A, c.A}, {c.B, c.C}, {c.A, c.C}, {c.A, nil}, {nil, c.A}, {nil, nil}, {append(slices.Clone(c.A), c.Extra), c.A}, {c.A, append(slices.Clone(c.A), c.Extra)}, {c.A, append(slices.Clone(c.B), c.Extra)}, {c.A, append([]Str{c.Extra}, c.B...)}} {
		if err := inc(pr[0], pr[1]); err != nil {
			return err
		}
	}
	if !a.Includes(oauth2.Scope{}) || !a.Includes(a) {
		return fmt.Errorf("%q does not include itself or the empty scope", a)
	}
	if a.Includes(b) && b.Includes(cc) && !a.Includes(cc) {
		return fmt.Errorf("inclusion is not transitive: %q %q %q", a, b, cc)
	}
	// order and repetition do not matter
	shuffle := func(in oauth2.Scope) oauth2.Scope {
		out := slices.Clone(in)
		r := rand.New(rand.NewPCG(uint64(c.Perm), 1))
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		if len(out) > 0 {
			out = append(out, out[0])
		}
		return out
	}
	if got := shuffle(a).Includes(shuffle(b)); got != a.Includes(b) {
		return fmt.Errorf("inclusion of %q in %q depends on the order", b, a)
	}
	if !slices.Equal(a, keepA) || !slices.Equal(b, keepB) {
		return fmt.Errorf("a scope was modified by an inspection")
	}
	if a.Includes(b) {
		x.Label("included")
	} else {
		x.Label("not-included")
	}
	if len(a) > 1 && len(b) > 0 {
		x.NonTrivial()
	}
	return nil
}

func TestC20(t *testing.T) {
	pbt.Check(t, "C20", pbt.P("scope", 12000, 30, scopeGen(), checkScope))
}

// ---- C21

type bearerCase struct {
	Has    bool
	H      Str
	Method Str
	Query  Str
	Form   Str
	Other  Str
	Ext    int   `json:",omitempty"`
	Parsed int   `json:",omitempty"` // the form was read before, or is a multipart one
	More   []Str `json:",omitempty"` // further headers of the name
}

func bearerGen() *rapid.Generator[bearerCase] {
	return rapid.Custom(func(t *rapid.T) bearerCase {
		c := bearerCase{Has: !pbt.Chance(t, 8), Method: pbt.Pick[Str]("GET", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "CONNECT", "").Draw(t, "method")}
		tok := pbt.OneOf(pbt.Match(`[A-Za-z0-9_-]{1,30}\.[A-Za-z0-9_-]{1,40}`), pbt.Pick[Str]("x", "a b", " lead", "trail ", "\ttab", "a,b", `a="b"`, "Bearer x", "ü", "=", "abc==", "\x01"), pbt.Bytes(1, 20),
			rapid.Map(long(300), func(n int) Str { return Str(strings.Repeat("t", n)) })).Draw(t, "token")
		word := pbt.OneOf(
			pbt.Pick[Str]("Bearer", "bearer", "BEARER", "bEaReR", "BeArEr", "Bearer", "bearer"),
			pbt.Pick[Str]("Basic", "Digest", "Beare", "Bearers", "Token", "MAC", "B\xc3\xa9arer", "\x62earer", "Bearer:", "Bearer,", "OAuth", " Bearer", "Bearer\u00a0", "bEARER\u017f"),
		).Draw(t, "scheme")
		sep := pbt.Pick[Str](" ", " ", " ", " ", " ", " ", "", "\t", "  ", "\u00a0", ",", ":", "=", "\n", "+", "%20").Draw(t, "sep")
		for pbt.Chance(t, 15) && len(tok) < 10000 { // what could be taken for its end
			tok += pbt.Pick[Str](", ", ",", "; ", ";", " ", "  ", "\t", "=", "\"", ", Basic ", ", Bearer ", " realm=", "&", "?", "#", "\r\n", "\n", "\x00", ":", "|", "%20", "+").Draw(t, "joint") + pbt.OneOf(tokenText(), pbt.Pick[Str]("", "x")).Draw(t, "rest")
		}
		if pbt.Chance(t, 40) {
			word, sep = pbt.Pick[Str]("Bearer", "bearer", "BEARER", "bEAReR").Draw(t, "right"), " "
		}
		c.H = word + sep + tok
		switch {
		case pbt.Chance(t, 8):
			c.H = word
		case pbt.Chance(t, 5):
			c.H = word + " "
		case pbt.Chance(t, 5):
			c.H = pbt.Bytes(0, 12).Draw(t, "raw")
		case pbt.Chance(t, 5):
			c.H = tok
		}
		c.Query, c.Form, c.Other = maybe(t, 30, tokenText()), maybe(t, 30, tokenText()), maybe(t, 20, tokenText())
		if pbt.Chance(t, 20) {
			c.Ext = pbt.Int(1, 16).Draw(t, "ext")
		}
		if pbt.Chance(t, 30) {
			c.Parsed = pbt.Int(1, 3).Draw(t, "parsed")
		}
		if c.Has && pbt.Chance(t, 10) {
			for n := pbt.Int(1, 2).Draw(t, "more"); n > 0; n-- {
				c.More = append(c.More, pbt.Pick[Str]("Bearer ", "bearer ", "Basic ", "", "Bearer").Draw(t, "scheme")+tokenText().Draw(t, "other"))
			}
		}
		return c
	})
}

func tokenText() *rapid.Generator[Str] { return pbt.Match(`[A-Za-z0-9_-]{4,12}`) }

func checkBearer(x *pbt.X, c bearerCase) error {
	u := &url.URL{Path: "/x"}
	if c.Query != "" {
		u.RawQuery = "access_token=" + string(c.Query) + "&token=" + string(c.Query)
	}
	r := &http.Request{Method: string(c.Method), URL: u, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("access_token=" + string(c.Form)))}
	if c.Form != "" {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if c.Other != "" {
		for _, h := range []string{"Proxy-Authorization", "X-Authorization", "Cookie", "X-Access-Token"} {
			r.Header.Set(h, "Bearer "+string(c.Other))
		}
	}
	for _, p := range ExtHeaders(c.Ext, "ext.token", "someone") {
		r.Header[p.K] = []string{p.V}
	}
	if c.Has {
		r.Header["Authorization"] = []string{string(c.H)}
	}
	for _, m := range c.More {
		r.Header["Authorization"] = append(r.Header["Authorization"], string(m))
	}
	switch c.Parsed {
	case 1:
		_ = r.ParseForm()
	case 2: // whatever the type says
		r.PostForm = url.Values{"access_token": {string(c.Form)}, "token": {string(c.Form)}}
		r.Form = url.Values{"access_token": {string(c.Form), string(c.Query)}}
	case 3:
		r.MultipartForm = &multipart.Form{Value: map[string][]string{"access_token": {string(c.Form)}}}
	}
	tok, err := oauth2.ParseBearerToken(r)
	h := string(c.H)
	if err != nil && tok != "" {
		return fmt.Errorf("token %q together with error %v", tok, err)
	}
	e, _ := err.(*oauth2.Error)
	if err != nil && e == nil {
		return fmt.Errorf("%T %v is not an OAuth2 error", err, err)
	}
	is := func(name string, status int) bool { return e != nil && e.Name == name && e.Status == status }
	switch {
	case len(c.More) > 0 && is("invalid_request", 400): // repeating the header is malformed
		x.Label("repeated")
	case !c.Has:
		x.Label("absent")
		if !is("", 401) {
			return fmt.Errorf("without header: token %q error %v", tok, err)
		}
	case h == "":
		x.Label("empty")
		if !is("", 401) && !is("invalid_request", 400) {
			return fmt.Errorf("empty header: token %q error %v", tok, err)
		}
	case len(h) > 7 && asciiLower(h[:6]) == "bearer" && h[6] == ' ':
		x.Label("bearer")
		x.NonTrivial()
		if err != nil || tok != h[7:] {
			return fmt.Errorf("header %q: token %q error %v", h, tok, err)
		}
	default:
		x.Label("malformed")
		x.NonTrivial()
		if !is("invalid_request", 400) {
			return fmt.Errorf("header %q: token %q error %v", h, tok, err)
		}
	}
	return nil
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func TestC21(t *testing.T) {
	pbt.Check(t, "C21", pbt.P("header", 30000, 30, bearerGen(), checkBearer))
}

// ---- C22

type challCase struct {
	Fields  []Str // name description uri realm state
	Scope   []Str
	Status  int
	Foreign int
	Hdr     bool
	Redir   bool
	Preset  bool
}

func quotable() *rapid.Generator[Str] {
	return pbt.OneOf(
		pbt.Pick[Str]("invalid_token", "foo", `a"b`, `back\slash`, `\`, `"`, `\"`, "a, b=\"c\"", "tab\there", "ü", "=", "  ", `"", error="other`, `x\`, "%s%d"),
		pbt.Match(`[ -~]{1,20}`),
		rapid.Map(pbt.Bytes(1, 15), func(s Str) Str {
			b := []byte(s)
			for i, c := range b {
				if c < ' ' && c != '\t' || c == 0x7f {
					b[i] = '_'
				}
			}
			return Str(b)
		}),
		rapid.Map(long(400), func(n int) Str { return Str(strings.Repeat(`e"`, n/2)) }),
	)
}

func challGen() *rapid.Generator[challCase] {
	return rapid.Custom(func(t *rapid.T) challCase {
		var c challCase
		for i := 0; i < 5; i++ {
			c.Fields = append(c.Fields, maybe(t, 45, quotable()))
		}
		w := rapid.Map(quotable(), func(s Str) Str {
			r := Str(strings.Join(strings.FieldsFunc(string(s), func(r rune) bool { return r == ' ' || r == '\t' }), "_"))
			if r == "" {
				return "_"
			}
			return r
		})
		if pbt.Chance(t, 45) {
			c.Scope = rapid.SliceOfN(w, 1, 4).Draw(t, "scope")
		}
		c.Status = pbt.Pick(400, 401, 403, 404, 405, 429, 499, 500).Draw(t, "status")
		if pbt.Chance(t, 15) {
			c.Foreign = pbt.Int(1, foreignKinds).Draw(t, "foreign")
		}
		c.Hdr, c.Redir, c.Preset = pbt.Chance(t, 20), pbt.Chance(t, 20), pbt.Chance(t, 10)
		return c
	})
}

func checkChallenge(x *pbt.X, c challCase) error {
	f := func(i int) string { return string(c.Fields[i]) }
	e := &oauth2.Error{Name: f(0), Description: f(1), URI: f(2), Realm: f(3), State: f(4), Scope: toScope(c.Scope), Status: c.Status}
	if c.Hdr {
		e.Headers = map[string]string{"X-Custom": "hidden-header"}
	}
	if c.Redir {
		e.RedirectURI, e.UseFragment = "https://hidden.example/", true
	}
	want := map[string]string{}
	put := func(k, v string) {
		if v != "" {
			want[k] = v
		}
	}
	put("error", f(0))
	put("error_description", f(1))
	put("error_uri", f(2))
	put("realm", f(3))
	put("state", f(4))
	put("scope", strings.Join(e.Scope, " "))
	var err error = e
	if c.Foreign != 0 {
		err = foreignErr(c.Foreign-1, "confidential text", "more")
	}
	if c.Foreign == 0 {
		m := e.Map()
		if fmt.Sprint(m) != fmt.Sprint(want) || len(m) != len(want) {
			return fmt.Errorf("Map() is %q instead of %q", m, want)
		}
		for k, v := range want {
			if m[k] != v {
				return fmt.Errorf("Map()[%q] is %q instead of %q", k, m[k], v)
			}
		}
	}
	rec := NewRecorder()
	if c.Preset {
		rec.H.Set("X-Other", "1")
		if c.Foreign == 0 && c.Status != 500 {
			rec.H.Set("WWW-Authenticate", "Basic realm=\"earlier\"")
		}
	}
	if werr := oauth2.WriteBearerError(rec, err); werr != nil {
		return fmt.Errorf("writing failed: %v", werr)
	}
	if rec.Headers != 1 || rec.Body.Len() != 0 {
		return fmt.Errorf("status written %d times, body %q", rec.Headers, rec.Body.Bytes())
	}
	hs := rec.Sent["Www-Authenticate"]
	if c.Foreign != 0 || c.Status == 500 {
		x.Label("server-error")
		if rec.Status != 500 || len(hs) != 0 {
			return fmt.Errorf("server error answered with %d %q", rec.Status, hs)
		}
		for k, v := range rec.Sent {
			if k != "X-Other" {
				return fmt.Errorf("server error answered with header %s: %q", k, v)
			}
		}
		return nil
	}
	if rec.Status != c.Status {
		return fmt.Errorf("status %d instead of %d", rec.Status, c.Status)
	}
	if len(hs) != 1 {
		return fmt.Errorf("challenges %q", hs)
	}
	scheme, params, perr := ParseChallenge(hs[0])
	if perr != nil {
		return fmt.Errorf("malformed challenge: %v", perr)
	}
	if !strings.EqualFold(scheme, "bearer") {
		return fmt.Errorf("scheme %q", scheme)
	}
	if len(want) == 0 {
		x.Label("realm-only")
		if len(params) != 1 || params["realm"] == "" {
			return fmt.Errorf("challenge of an empty error: %q", hs[0])
		}
		return nil
	}
	x.NonTrivial()
	x.Label("fields-%d", len(want))
	if len(params) != len(want) {
		return fmt.Errorf("challenge %q carries %q instead of %q", hs[0], params, want)
	}
	for k, v := range want {
		if params[k] != v {
			return fmt.Errorf("challenge %q: %s is %q instead of %q", hs[0], k, params[k], v)
		}
	}
	return nil
}

func TestC22(t *testing.T) {
	pbt.Check(t, "C22", pbt.P("challenge", 20000, 30, challGen(), checkChallenge))
}

// spellJSON writes a string as one of its JSON representations.
func spellJSON(s string, how int) []byte {
	var b strings.Builder
	b.WriteByte('"')
	for i, r := range []rune(s) {
		hex := "%04x"
		if how == 2 || how == 5 {
			hex = "%04X"
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\n': `\n`, '\t': `\t`, '\r': `\r`, '\b': `\b`, '\f': `\f`}[r]
		switch must := r < ' ' || r == '"' || r == '\\'; {
		case short != "" && (how == 0 || how == 3):
			b.WriteString(short)
		case how == 1 || how == 2 || must && how != 3 || how > 3 && (i*7+int(r))%how == 0, must:
			if r > 0xffff {
				hi, lo := utf16.EncodeRune(r)
				fmt.Fprintf(&b, "\\u"+hex+"\\u"+hex, hi, lo)
			} else {
				fmt.Fprintf(&b, "\\u"+hex, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return []byte(b.String())
}
