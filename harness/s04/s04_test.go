// Package s04 decides property S04: wallet authentication tokens are genuine,
// ordered and never accepted twice.
package s04

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/cekit"
	"verif/vt"

	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

const window = 3600

type keys struct {
	pub [32]byte
	sec [64]byte
}

func newKeys(seed uint32) (k keys) {
	sk := ed25519.NewKeyFromSeed(vt.Expand(32, seed, 0))
	copy(k.sec[:], sk)
	copy(k.pub[:], sk[32:])
	return
}

// craft makes a token as the documentation lays it out.
func craft(k keys, nonce []byte, ltime, counter uint64) []byte {
	t := append([]byte(nil), k.pub[:]...)
	t = append(t, nonce...)
	t = binary.BigEndian.AppendUint64(t, ltime)
	t = binary.BigEndian.AppendUint64(t, counter)
	return append(t, ed25519.Sign(k.sec[:], t)...)
}

func counters(t *rapid.T, label string) uint64 {
	return rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1,
		1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64})).Draw(t, label)
}

// verify is CheckToken with the crash reported.
func verify(t *rapid.T, tok []byte) (pub *[32]byte, lt, lc uint64, err error) {
	before := append([]byte(nil), tok...)
	if p := vt.Try(func() { pub, lt, lc, err = walletauth.AuthToken(tok).CheckToken() }); p != "" {
		t.Fatalf("CheckToken(%x): %s", tok, p)
	}
	if !bytes.Equal(before, tok) {
		t.Fatalf("CheckToken changed the token")
	}
	if err != nil && (pub != nil || lt != 0 || lc != 0) {
		t.Fatalf("refused token has values %x %d %d", pub, lt, lc)
	}
	return
}

// TestToken checks genuine tokens and everything made from them.
func TestToken(t *testing.T) {
	vt.Check(t, "a changed or crafted token was judged", 4000, 200000, func(rt *rapid.T, c *vt.Case) {
		k := newKeys(rapid.Uint32().Draw(rt, "key"))
		counter := counters(rt, "counter")
		before := uint64(time.Now().Unix()) / window
		pub, sec := k.pub, k.sec
		tok := walletauth.CreateToken(&pub, &sec, counter)
		after := uint64(time.Now().Unix()) / window
		if pub != k.pub || sec != k.sec {
			rt.Fatalf("CreateToken changed the keys")
		}
		p, lt, lc, err := verify(rt, tok)
		if err != nil || *p != k.pub || lc != counter || lt < before || lt > after {
			rt.Fatalf("genuine token for %x, %d verifies as %x, %d, %d: %v", k.pub, counter, p, lt, lc, err)
		}
		if len(tok) != walletauth.TokenSize {
			rt.Fatalf("token has %d bytes", len(tok))
		}
		sum := sha256.Sum256(tok)
		if !bytes.Equal(tok.Hash(), sum[:]) {
			rt.Fatalf("wrong hash")
		}
		again := walletauth.CreateToken(&pub, &sec, counter)
		if bytes.Equal(again[32:64], tok[32:64]) {
			rt.Fatalf("two tokens for the same call")
		}
		// other implementations understand it
		if !bytes.Equal(craft(k, tok[32:64], lt, counter), tok) {
			rt.Fatalf("token is not laid out as documented: %x", []byte(tok))
		}
		switch what := rapid.SampledFrom([]string{"craft", "mutate", "field", "splice", "rekey", "length", "any"}).Draw(rt, "what"); what {
		case "craft":
			// all times and counters a holder can sign
			lt2, lc2 := counters(rt, "time"), counters(rt, "counter 2")
			x := craft(k, vt.Expand(32, rapid.Uint32().Draw(rt, "nonce"), 1), lt2, lc2)
			p, lt, lc, err := verify(rt, x)
			if err != nil || *p != k.pub || lt != lt2 || lc != lc2 {
				rt.Fatalf("crafted token %x, %d, %d verifies as %x, %d, %d: %v", k.pub, lt2, lc2, p, lt, lc, err)
			}
			c.Label("%s", what)
			c.NonTrivial(lt2, lc2)
		case "length":
			n := rapid.SampledFrom([]int{0, 1, 31, 32, 63, 64, 79, 80, 143, 145, 160, 288}).Draw(rt, "length")
			x := append(append([]byte(nil), tok...), tok...)[:n]
			if _, _, _, err := verify(rt, x); err != walletauth.ErrBadToken {
				rt.Fatalf("token of %d bytes: %v", n, err)
			}
			c.Label("%s", what)
			c.NonTrivial(n)
		default:
			x := append([]byte(nil), tok...)
			switch what {
			case "mutate":
				x, _ = vt.Mutation(rt, x, "mutation")
			case "field":
				f := rapid.SampledFrom([][2]int{{0, 32}, {32, 64}, {64, 72}, {72, 80}, {80, 112}, {112, 144}}).Draw(rt, "field")
				i := rapid.IntRange(f[0], f[1]-1).Draw(rt, "at")
				x[i] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
			case "splice":
				// parts of two genuine tokens of one holder
				o := walletauth.CreateToken(&pub, &sec, counters(rt, "counter 2"))
				i := rapid.SampledFrom([]int{32, 64, 72, 80, 112}).Draw(rt, "at")
				x = append(append([]byte(nil), tok[:i]...), o[i:]...)
				if bytes.Equal(x, o) {
					return
				}
			case "rekey":
				// a stranger signs for the account
				s := newKeys(rapid.Uint32().Draw(rt, "stranger"))
				if s.pub == k.pub {
					return
				}
				x = craft(s, tok[32:64], lt, counter)
				copy(x[:32], k.pub[:])
			case "any":
				x = vt.Bytes(300, 143, 144, 145).Draw(rt, "bytes")
			}
			if bytes.Equal(x, tok) {
				return
			}
			_, _, _, err := verify(rt, x)
			if err == nil {
				rt.Fatalf("%s: token accepted that the holder did not make: %x", what, x)
			}
			if len(x) == 144 && err != walletauth.ErrBadSignature || len(x) != 144 && err != walletauth.ErrBadToken {
				rt.Fatalf("%s: refused with %v", what, err)
			}
			c.Label("%s", what)
			c.NonTrivial(x)
		}
	})
}

// TestReplayError checks how errors of servers are understood.
func TestReplayError(t *testing.T) {
	max := new(big.Int).SetUint64(math.MaxUint64)
	vt.Check(t, "a replay error or near miss", 4000, 200000, func(rt *rapid.T, c *vt.Case) {
		var s string
		switch rapid.IntRange(0, 4).Draw(rt, "kind") {
		case 0:
			s = "ErrReplay: " + strconv.FormatUint(counters(rt, "counter"), 10)
		case 1:
			s = "ErrReplay: " + rapid.StringMatching(`[0-9]{15,25}`).Draw(rt, "digits")
		case 2:
			s = rapid.SampledFrom([]string{"ErrReplay: ", "ErrReplay:", "ErrReplay", "errReplay: ", " ErrReplay: ", "walletauth: ErrReplay: ", ""}).Draw(rt, "prefix") +
				rapid.SampledFrom([]string{"", "7", "-7", "+7", "7 ", " 7", "0x7", "1_000", "7.0", "1e3", "٧", "7\n"}).Draw(rt, "rest")
		case 3:
			s = rapid.String().Draw(rt, "text")
		case 4:
			s = rapid.SampledFrom([]string{"walletserver: bad token", "walletserver: server error", "accountdb: Nothing found", walletauth.ErrReplay.Error()}).Draw(rt, "text")
		}
		want, is := uint64(0), false
		if d := strings.TrimPrefix(s, "ErrReplay: "); d != s && d != "" && strings.Trim(d, "0123456789") == "" {
			if n, _ := new(big.Int).SetString(d, 10); n.Cmp(max) <= 0 {
				want, is = n.Uint64(), true
			}
		}
		in := errors.New(s)
		var n uint64
		var err error
		if p := vt.Try(func() { n, err = walletauth.IsReplay(in) }); p != "" {
			rt.Fatalf("IsReplay(%q): %s", s, p)
		}
		if is && (n != want || err != walletauth.ErrReplay) || !is && (n != 0 || err != in) {
			rt.Fatalf("IsReplay(%q) gives %d, %v", s, n, err)
		}
		c.Label("replay %v", is)
		c.NonTrivial(s)
	})
}

// server is a wallet server: it takes each token once, in order, and answers
// a repeated call as before.
type server struct {
	mu       sync.Mutex
	account  [32]byte
	time     uint64
	counter  uint64
	seen     map[string]bool
	cache    map[string]cekit.M
	serial   int
	faults   []string
	requests int
	problems []string
	given    map[string]int // wallet tokens given out, by serial
}

func (s *server) call(method string, p cekit.M) (cekit.M, error) {
	enc, _ := p["AuthToken"].(string)
	tok, err := base64.StdEncoding.DecodeString(enc)
	if err != nil {
		s.problems = append(s.problems, "authentication token is not encoded")
		return nil, errors.New("walletserver: bad token")
	}
	pub, lt, lc, err := walletauth.AuthToken(tok).CheckToken()
	if err != nil || *pub != s.account {
		s.problems = append(s.problems, fmt.Sprintf("bad authentication token: %v", err))
		return nil, errors.New("walletserver: bad token")
	}
	if r := s.cache[method+string(tok)]; r != nil {
		return r, nil
	}
	if s.seen[string(tok)] || lt < s.time || lt == s.time && lc <= s.counter {
		return nil, fmt.Errorf("ErrReplay: %d", s.counter)
	}
	s.time, s.counter = lt, lc
	s.seen[string(tok)] = true
	s.serial++
	var r cekit.M
	if method == "WalletServer.GetToken" {
		e := base64.StdEncoding.EncodeToString
		r = cekit.M{"Token": e([]byte(fmt.Sprintf("token %d for %v", s.serial, p["Usage"]))), "Params": e([]byte(fmt.Sprintf("params %d", s.serial))),
			"PubKeyUsed": e([]byte(fmt.Sprintf("key %d", s.serial)))}
	} else {
		r = cekit.M{"SubscriptionTokens": s.serial, "PrepayTokens": 2 * s.serial, "LastSubscribeLoad": 3 * s.serial}
	}
	s.cache[method+string(tok)] = r
	return r, nil
}

// TestClient runs wallet calls against a server that enforces order, with
// failures at every step.
func TestClient(t *testing.T) {
	rpc := cekit.NewRPC(false)
	defer rpc.Close()
	old := walletrpc.ServiceURL
	defer func() { walletrpc.ServiceURL = old }()
	walletrpc.ServiceURL = rpc.URL()
	vt.CheckSteps(t, "a call met a failure or replay answer and a later one succeeded", 250, 6000, 25, func(rt *rapid.T, c *vt.Case) {
		k := newKeys(rapid.Uint32().Draw(rt, "key"))
		s := &server{account: k.pub, seen: map[string]bool{}, cache: map[string]cekit.M{}}
		s.counter = rapid.SampledFrom([]uint64{0, 0, 1, 5, 1 << 40, math.MaxUint64 / 2}).Draw(rt, "counter")
		s.time = uint64(time.Now().Unix())/window - uint64(rapid.IntRange(0, 1).Draw(rt, "age"))
		var tamper func(cekit.M, string)
		rpc.Handle(func(method string, p cekit.M) (cekit.M, error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			if len(s.faults) > 0 && strings.HasPrefix(s.faults[0], "reply:") {
				f := s.faults[0]
				s.faults = s.faults[1:]
				r, err := s.call(method, p)
				if err != nil {
					return nil, err
				}
				q := cekit.M{}
				for n, v := range r {
					q[n] = v
				}
				tamper(q, f)
				return q, nil
			}
			if len(s.faults) > 0 && strings.HasPrefix(s.faults[0], "error:") {
				f := s.faults[0]
				s.faults = s.faults[1:]
				return nil, errors.New(f[6:])
			}
			return s.call(method, p)
		})
		tamper = func(m cekit.M, f string) {
			parts := strings.SplitN(f, ":", 3)
			names := make([]string, 0)
			for _, n := range []string{"Token", "Params", "PubKeyUsed", "SubscriptionTokens", "PrepayTokens", "LastSubscribeLoad"} {
				if _, ok := m[n]; ok {
					names = append(names, n)
				}
			}
			i, _ := strconv.Atoi(parts[1])
			n := names[i%len(names)]
			var v interface{}
			if parts[2] == "missing" {
				delete(m, n)
				return
			}
			vt.InfraIf(json.Unmarshal([]byte(parts[2]), &v))
			m[n] = v
		}
		rpc.Raw(func(method string, w http.ResponseWriter) bool {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.requests++
			if len(s.faults) == 0 {
				return false
			}
			switch f := s.faults[0]; f {
			case "drop":
				s.faults = s.faults[1:]
				if h, ok := w.(http.Hijacker); ok {
					conn, _, _ := h.Hijack()
					conn.Close()
				}
				return true
			case "status":
				s.faults = s.faults[1:]
				w.WriteHeader(500)
				return true
			case "junk":
				s.faults = s.faults[1:]
				w.Write([]byte("[1,"))
				return true
			}
			return false
		})
		mk := func() *walletrpc.WalletClient { return walletrpc.New(&k.pub, &k.sec, nil) }
		wc := mk()
		got := map[string]bool{}
		failed, recovered := false, false
		// call makes one call; it reports what it got
		call := func(rt *rapid.T, balance bool) error {
			s.mu.Lock()
			s.requests = 0
			s.mu.Unlock()
			var err error
			var tok, par, key []byte
			var a, b, d uint64
			usage := ""
			if !balance {
				usage = rapid.SampledFrom([]string{"Message", "UID", ""}).Draw(rt, "usage")
			}
			done := make(chan string, 1)
			go func() {
				done <- vt.Try(func() {
					if balance {
						a, b, d, err = wc.GetBalance()
					} else {
						tok, par, key, err = wc.GetToken(usage)
					}
				})
			}()
			select {
			case p := <-done:
				if p != "" {
					rt.Fatalf("call crashed: %s", p)
				}
			case <-time.After(30 * time.Second):
				rt.Fatalf("call does not end")
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			if len(s.problems) > 0 {
				rt.Fatalf("%v", s.problems)
			}
			if s.requests > 6 {
				rt.Fatalf("%d requests for one call", s.requests)
			}
			if err != nil {
				failed = true
				if tok != nil || par != nil || key != nil || a != 0 || b != 0 || d != 0 {
					rt.Fatalf("failed call (%v) has results %q %q %q %d %d %d", err, tok, par, key, a, b, d)
				}
				return err
			}
			if failed {
				recovered = true
			}
			if balance {
				if a == 0 || b != 2*a || d != 3*a {
					rt.Fatalf("balance %d %d %d", a, b, d)
				}
				return nil
			}
			var n int
			var u string
			if _, e := fmt.Sscanf(string(tok)+"$", "token %d for %s", &n, &u); e != nil || string(par) != fmt.Sprintf("params %d", n) || string(key) != fmt.Sprintf("key %d", n) {
				rt.Fatalf("call returns %q %q %q", tok, par, key)
			}
			if got[string(tok)] {
				rt.Fatalf("two calls return the same wallet token %q: one authentication served twice", tok)
			}
			got[string(tok)] = true
			return nil
		}
		fault := rapid.Custom(func(t *rapid.T) string {
			switch rapid.IntRange(0, 5).Draw(t, "fault") {
			case 0:
				return "drop"
			case 1:
				return rapid.SampledFrom([]string{"status", "junk"}).Draw(t, "answer")
			case 2:
				return "error:" + rapid.SampledFrom([]string{"walletserver: server error", "walletserver: insufficient funds", "ErrReplay: ", "ErrReplay: x", "other"}).Draw(t, "error")
			case 3:
				return fmt.Sprintf("error:ErrReplay: %d", counters(t, "counter")%(1<<62))
			default:
				return fmt.Sprintf("reply:%d:%s", rapid.IntRange(0, 5).Draw(t, "member"),
					rapid.SampledFrom([]string{"missing", "null", "{}", "[]", "true", `"*"`, "[[]]"}).Draw(t, "value"))
			}
		})
		steps := map[string]func(*rapid.T){
			"token":   func(rt *rapid.T) { call(rt, false) },
			"balance": func(rt *rapid.T) { call(rt, true) },
			"fault": func(rt *rapid.T) {
				fs := rapid.SliceOfN(fault, 1, 5).Draw(rt, "faults")
				s.mu.Lock()
				s.faults = append(s.faults, fs...)
				s.mu.Unlock()
				call(rt, rapid.Bool().Draw(rt, "balance"))
			},
			"restart": func(rt *rapid.T) {
				// as the wallet does: keep the last token, or not
				n := mk()
				if rapid.Bool().Draw(rt, "keep") {
					n.LastAuthToken = wc.LastAuthToken
				}
				wc = n
			},
			"forget": func(rt *rapid.T) { // the server's cache of calls
				s.mu.Lock()
				s.cache = map[string]cekit.M{}
				s.mu.Unlock()
			},
			"elsewhere": func(rt *rapid.T) { // another device of the account
				s.mu.Lock()
				if s.counter < math.MaxUint64/2+1<<20 {
					s.counter += uint64(rapid.IntRange(1, 1000).Draw(rt, "calls"))
				}
				s.mu.Unlock()
			},
		}
		rt.Repeat(steps)
		// without failures the client works again
		s.mu.Lock()
		s.faults = nil
		s.mu.Unlock()
		for _, balance := range []bool{false, true} {
			err := call(rt, balance)
			if err == walletauth.ErrReplay {
				err = call(rt, balance)
			}
			if err != nil {
				rt.Fatalf("server answers, the client still fails (balance %v): %v", balance, err)
			}
		}
		if recovered {
			c.NonTrivial(len(got), s.serial, s.counter)
			c.Sample("%d calls served, counter %d", s.serial, s.counter)
		}
	})
}
