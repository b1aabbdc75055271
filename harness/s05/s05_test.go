// Package s05 decides property S05: the wallet store agrees with a simple
// model of its tokens, locks and cached data.
package s05

import (
	"bytes"
	"database/sql"
	"encoding/hex"
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"verif/vt"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// entry is a token of the model.
type entry struct {
	client.TokenEntry
	lock   int64
	locked int64 // time
}

func (e *entry) self() bool   { return e.OwnerPrivKey != nil }
func (e *entry) params() bool { return len(e.Params) > 0 }
func (e *entry) state() bool {
	return len(e.ServerPacket) > 0 || len(e.BlindingFactors) > 0 || e.NewOwnerPrivKey != nil
}
func (e *entry) free() bool { return e.lock == 0 && !e.state() }

func same(a, b *client.TokenEntry) string {
	va, vb := reflect.ValueOf(*a), reflect.ValueOf(*b)
	for i := 0; i < va.NumField(); i++ {
		x, y := va.Field(i).Interface(), vb.Field(i).Interface()
		if p, ok := x.([]byte); ok {
			if !bytes.Equal(p, y.([]byte)) {
				return fmt.Sprintf("%s: %x, want %x", va.Type().Field(i).Name, p, y)
			}
		} else if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("%s: %v, want %v", va.Type().Field(i).Name, x, y)
		}
	}
	return ""
}

type world struct {
	steps  int
	path   string
	db     *sql.DB
	ws     *walletstore.Storage
	tokens map[string]*entry
	auth   []byte
	tries  int
	verify [][32]byte
}

func (w *world) open() {
	var err error
	w.db, err = sql.Open("sqlite3", w.path)
	vt.InfraIf(err)
	w.db.SetMaxOpenConns(1)
	w.ws, err = walletstore.New(w.db)
	vt.InfraIf(err)
}

func pub(i int) *[32]byte {
	var k [32]byte
	copy(k[:], vt.Expand(32, uint32(i), 0))
	return &k
}

func sec(i int) *[64]byte {
	var k [64]byte
	copy(k[:], vt.Expand(64, uint32(i), 1))
	return &k
}

var usages = []string{"Message", "UID", "message", "", "Message ", "Mess'age", "Ü%_"}

func genHash(t *rapid.T) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "hash kind") {
	case 0:
		return vt.Bytes(40, 0, 1, 32).Draw(t, "hash")
	default:
		return vt.Expand(32, uint32(rapid.IntRange(1, 12).Draw(t, "hash")), 0)
	}
}

// genToken draws a token; expiry times keep away from the limits by some seconds.
func genToken(t *rapid.T, now int64) client.TokenEntry {
	e := client.TokenEntry{Hash: genHash(t)}
	e.Token = vt.Bytes(200, 0, 1, 120).Draw(t, "token")
	e.OwnerPubKey = pub(rapid.IntRange(0, 3).Draw(t, "owner"))
	if rapid.Bool().Draw(t, "self") {
		e.OwnerPrivKey = sec(rapid.IntRange(0, 2).Draw(t, "owner key"))
	}
	e.Renewable = rapid.Bool().Draw(t, "renewable")
	e.CanReissue = rapid.Bool().Draw(t, "can reissue")
	e.Usage = rapid.SampledFrom(usages).Draw(t, "usage")
	base := rapid.SampledFrom([]int64{now, now + walletstore.ExpireEdge, now - walletstore.ExpireEdge, now + 4*walletstore.ExpireEdge}).Draw(t, "expiry")
	e.Expire = base + rapid.SampledFrom([]int64{-1 << 20, -1000, -100, 100, 200, 1000, 1 << 20, 1 << 31}).Draw(t, "expiry offset")
	if rapid.IntRange(0, 19).Draw(t, "odd expiry") == 0 {
		e.Expire = rapid.SampledFrom([]int64{0, 1, -1, 1<<31 - 1, 1 << 32, 1<<63 - 1}).Draw(t, "expire")
	}
	if rapid.IntRange(0, 2).Draw(t, "with params") == 0 {
		e.Params = vt.Bytes(100, 0, 1).Draw(t, "params")
	}
	if rapid.IntRange(0, 3).Draw(t, "in reissue") == 0 {
		e.ServerPacket = vt.Bytes(100, 0, 1).Draw(t, "packet")
		e.BlindingFactors = vt.Bytes(100, 0, 1).Draw(t, "factors")
		if rapid.Bool().Draw(t, "own") {
			e.NewOwnerPrivKey = sec(rapid.IntRange(5, 6).Draw(t, "new owner key"))
		}
		if x := (&entry{TokenEntry: e}); x.state() || x.params() {
			e.NewOwnerPubKey = pub(rapid.IntRange(5, 6).Draw(t, "new owner"))
		}
	}
	return e
}

// minimal lists the free tokens that match and expire first.
func (w *world) minimal(match func(*entry) bool) (out []*entry) {
	for _, e := range w.tokens {
		if !match(e) {
			continue
		}
		if len(out) > 0 && e.Expire > out[0].Expire {
			continue
		}
		if len(out) > 0 && e.Expire < out[0].Expire {
			out = nil
		}
		out = append(out, e)
	}
	return
}

func (w *world) count(match func(*entry) bool) (n int64) {
	for _, e := range w.tokens {
		if match(e) {
			n++
		}
	}
	return
}

func owned(e *entry, usage string, owner *[32]byte) bool {
	return e.free() && !e.self() && e.Usage == usage && (owner == nil || *e.OwnerPubKey == *owner)
}

func oneOf(h []byte, es []*entry) *entry {
	for _, e := range es {
		if bytes.Equal(e.Hash, h) {
			return e
		}
	}
	return nil
}

func call(t *rapid.T, what string, f func()) {
	if p := vt.Try(f); p != "" {
		t.Fatalf("%s: %s", what, p)
	}
}

// check compares everything that is visible.
func (w *world) check(t *rapid.T, hashes [][]byte) {
	// most steps look at a part (what is wrong stays wrong)
	w.steps++
	part := func(i, n int) bool { return w.steps%6 == 0 || (i+w.steps)%n == 0 }
	for i, h := range hashes {
		if !part(i, 4) {
			continue
		}
		e := w.tokens[string(h)]
		var got *client.TokenEntry
		var err error
		call(t, "GetToken", func() { got, err = w.ws.GetToken(h, -1) })
		if e == nil {
			if err == nil {
				t.Fatalf("token %x is there, was deleted or never stored", h)
			}
			continue
		}
		if err != nil {
			t.Fatalf("token %x is lost: %v", h, err)
		}
		if d := same(got, &e.TokenEntry); d != "" {
			t.Fatalf("token %x read back changed: %s", h, d)
		}
		// reading with a lock number
		for _, id := range []int64{0, 1, e.lock, e.lock + 1} {
			_, err := w.ws.GetToken(h, id)
			if e.lock != 0 && id != e.lock {
				if err != client.ErrLocked {
					t.Fatalf("locked token read with lock %d (is %d): %v", id, e.lock, err)
				}
			} else if err != nil {
				t.Fatalf("token (lock %d) not readable with lock %d: %v", e.lock, id, err)
			}
		}
	}
	for i, u := range usages {
		if !part(i, 2) {
			continue
		}
		if got, want := w.ws.GetBalanceOwn(u), w.count(func(e *entry) bool { return e.free() && e.self() && e.Usage == u }); got != want {
			t.Fatalf("GetBalanceOwn(%q) is %d, want %d", u, got, want)
		}
		for i := -1; i < 4; i++ {
			var owner *[32]byte
			if i >= 0 {
				owner = pub(i)
			}
			if got, want := w.ws.GetBalance(u, owner), w.count(func(e *entry) bool { return owned(e, u, owner) }); got != want {
				t.Fatalf("GetBalance(%q, %d) is %d, want %d", u, i, got, want)
			}
		}
		es := w.minimal(func(e *entry) bool { return e.free() && e.self() && e.Usage == u })
		got, err := w.ws.FindToken(u)
		if len(es) == 0 {
			if err != client.ErrNoToken || got != nil {
				t.Fatalf("FindToken(%q) without token gives %v, %v", u, got, err)
			}
		} else if err != nil {
			t.Fatalf("FindToken(%q) fails: %v", u, err)
		} else if e := oneOf(got.Hash, es); e == nil || same(got, &e.TokenEntry) != "" {
			t.Fatalf("FindToken(%q) gives %x, not the first to expire", u, got.Hash)
		}
	}
	now := time.Now().Unix()
	one := func(what string, h []byte, es []*entry) {
		if (h == nil) != (len(es) == 0) && !(h == nil && len(es) > 0 && len(es[0].Hash) == 0) {
			t.Fatalf("%s gives %x, %d candidates", what, h, len(es))
		}
		if h != nil && oneOf(h, es) == nil {
			t.Fatalf("%s gives %x, not the first to expire", what, h)
		}
	}
	one("GetExpire", w.ws.GetExpire(), w.minimal(func(e *entry) bool {
		return e.free() && e.self() && e.Renewable && !e.params() && e.Expire < now+walletstore.ExpireEdge
	}))
	one("GetInReissue", w.ws.GetInReissue(), w.minimal(func(e *entry) bool { return e.lock == 0 && e.state() }))
}

func (w *world) checkCache(t *rapid.T) {
	var auth []byte
	var tries int
	var keys [][32]byte
	call(t, "GetAuthToken", func() { auth, tries = w.ws.GetAuthToken() })
	if !bytes.Equal(auth, w.auth) || tries != w.tries || auth == nil != (w.auth == nil) {
		t.Fatalf("authentication token %x (nil: %v), %d; stored %x, %d", auth, auth == nil, tries, w.auth, w.tries)
	}
	call(t, "GetVerifyKeys", func() { keys = w.ws.GetVerifyKeys() })
	if len(keys) != len(w.verify) {
		t.Fatalf("%d verify keys, stored %d", len(keys), len(w.verify))
	}
	for i, k := range keys {
		if k != w.verify[i] {
			t.Fatalf("verify key %d changed", i)
		}
	}
}

// TestModel compares histories with the model.
func TestModel(t *testing.T) {
	vt.CheckSteps(t, "a history with a locked token, a restart and at least 4 tokens", 100, 6000, 60, func(rt *rapid.T, c *vt.Case) {
		w := &world{path: filepath.Join(vt.TempDir(), "wallet.db"), tokens: map[string]*entry{}}
		w.open()
		defer func() { w.db.Close() }()
		known := map[string][]byte{}
		hashes := func() (out [][]byte) {
			for i := 1; i <= 12; i++ {
				out = append(out, vt.Expand(32, uint32(i), 0))
			}
			for _, h := range known {
				out = append(out, h)
			}
			sort.Slice(out[12:], func(i, j int) bool { return bytes.Compare(out[12+i], out[12+j]) < 0 })
			return
		}
		locks, restarts, most := 0, 0, 0
		pick := func(rt *rapid.T) []byte { return genHash(rt) }
		rt.Repeat(map[string]func(*rapid.T){
			"": func(rt *rapid.T) {
				w.check(rt, hashes())
				if len(w.tokens) > most {
					most = len(w.tokens)
				}
			},
			"set": func(rt *rapid.T) {
				for i := rapid.IntRange(1, 3).Draw(rt, "tokens"); i > 0; i-- {
					e := genToken(rt, time.Now().Unix())
					in := e
					var err error
					call(rt, "SetToken", func() { err = w.ws.SetToken(in) })
					if err != nil {
						rt.Fatalf("SetToken: %v", err)
					}
					known[string(e.Hash)] = e.Hash
					if old := w.tokens[string(e.Hash)]; old != nil {
						old.TokenEntry = e // keeps its lock
					} else {
						w.tokens[string(e.Hash)] = &entry{TokenEntry: e}
					}
				}
			},
			"lock": func(rt *rapid.T) {
				h := pick(rt)
				e := w.tokens[string(h)]
				var id int64
				call(rt, "LockToken", func() { id = w.ws.LockToken(h) })
				if e != nil && e.lock == 0 {
					if id <= 0 {
						rt.Fatalf("token cannot be locked: %d", id)
					}
					e.lock, e.locked = id, time.Now().Unix()
					locks++
				} else if id >= 0 {
					rt.Fatalf("token %v locked (%d) although locked or unknown", e, id)
				}
			},
			"unlock": func(rt *rapid.T) {
				h := pick(rt)
				call(rt, "UnlockToken", func() { w.ws.UnlockToken(h) })
				if e := w.tokens[string(h)]; e != nil {
					e.lock = 0
				}
			},
			"delete": func(rt *rapid.T) {
				h := pick(rt)
				call(rt, "DelToken", func() { w.ws.DelToken(h) })
				delete(w.tokens, string(h))
			},
			"select": func(rt *rapid.T) {
				u := rapid.SampledFrom(usages).Draw(rt, "usage")
				var owner *[32]byte
				if rapid.Bool().Draw(rt, "of owner") {
					owner = pub(rapid.IntRange(0, 3).Draw(rt, "owner"))
				}
				es := w.minimal(func(e *entry) bool { return owned(e, u, owner) })
				var got *client.TokenEntry
				var err error
				call(rt, "GetAndLockToken", func() { got, err = w.ws.GetAndLockToken(u, owner) })
				if len(es) == 0 {
					if err != client.ErrNoToken || got != nil {
						rt.Fatalf("selection without token gives %v, %v", got, err)
					}
					return
				}
				if err != nil {
					rt.Fatalf("selection fails: %v", err)
				}
				e := oneOf(got.Hash, es)
				if e == nil {
					rt.Fatalf("selected %+v, not the first to expire for %q", got, u)
				}
				if d := same(got, &e.TokenEntry); d != "" {
					rt.Fatalf("selected token: %s", d)
				}
				// it is locked now
				e.lock, e.locked = w.lockID(got.Hash), time.Now().Unix()
				if e.lock <= 0 {
					rt.Fatalf("selected token is not locked")
				}
				locks++
			},
			"age": func(rt *rapid.T) {
				// time passes for the locks
				by := rapid.SampledFrom([]int64{10, 1000, walletstore.MaxLockAge - 100, walletstore.MaxLockAge + 100, 1 << 20}).Draw(rt, "seconds")
				_, err := w.db.Exec("UPDATE walletTokens SET LockTime=LockTime-? WHERE LockID!=0", by)
				vt.InfraIf(err)
				for _, e := range w.tokens {
					e.locked -= by
				}
			},
			"clean": func(rt *rapid.T) {
				force := rapid.IntRange(0, 3).Draw(rt, "force") == 0
				w.clean(rt, force, func() { w.ws.CleanLocks(force) })
			},
			"restart": func(rt *rapid.T) {
				restarts++
				w.db.Close()
				w.clean(rt, false, w.open)
				if rapid.Bool().Draw(rt, "look at the cache") {
					w.checkCache(rt)
				}
			},
			"second": func(rt *rapid.T) {
				// another user of the same database
				w.clean(rt, false, func() {
					var err error
					w.ws, err = walletstore.New(w.db)
					vt.InfraIf(err)
				})
			},
			"expire": func(rt *rapid.T) {
				limit := time.Now().Unix() - walletstore.ExpireEdge
				dead := w.count(func(e *entry) bool { return e.Expire < limit })
				var more bool
				call(rt, "ExpireUnusable", func() { more = w.ws.ExpireUnusable() })
				n := int64(0)
				for h, e := range w.tokens {
					if _, err := w.ws.GetToken([]byte(h), -1); err != nil {
						if e.Expire >= limit {
							rt.Fatalf("token deleted %d s before its time", e.Expire-limit)
						}
						n++
						delete(w.tokens, h)
					}
				}
				if dead < 10 && (n != dead || more) {
					rt.Fatalf("%d of %d dead tokens deleted, more: %v", n, dead, more)
				}
				if dead >= 10 && (n == 0 || n < dead && !more) {
					rt.Fatalf("%d of %d dead tokens deleted, more: %v", n, dead, more)
				}
			},
			"auth": func(rt *rapid.T) {
				w.auth, w.tries = nil, 0
				if rapid.Bool().Draw(rt, "token") {
					w.auth, w.tries = vt.Bytes(200, 1, 144).Draw(rt, "auth"), rapid.SampledFrom([]int{0, 1, 2, 3, 128, 1 << 20}).Draw(rt, "tries")
					if len(w.auth) == 0 {
						w.auth = nil
					}
				}
				if err := w.ws.SetAuthToken(w.auth, w.tries); err != nil {
					rt.Fatalf("SetAuthToken: %v", err)
				}
				w.checkCache(rt)
			},
			"verify keys": func(rt *rapid.T) {
				n := rapid.IntRange(0, 4).Draw(rt, "keys")
				w.verify = nil
				for i := 0; i < n; i++ {
					w.verify = append(w.verify, *pub(rapid.IntRange(0, 100).Draw(rt, "key")))
				}
				w.ws.SetVerifyKeys(append([][32]byte(nil), w.verify...))
				w.checkCache(rt)
			},
			"cache": func(rt *rapid.T) { w.checkCache(rt) },
		})
		w.steps = 5
		w.check(rt, hashes())
		c.Label("locks %v restarts %v", locks > 0, restarts > 0)
		if locks > 0 && restarts > 0 && most >= 4 {
			c.NonTrivial(locks, restarts, most, fmt.Sprint(len(w.tokens)), rapid.Uint32().Draw(rt, "-"))
			c.Sample("%d locks, %d restarts, at most %d tokens", locks, restarts, most)
		}
	})
}

func (w *world) lockID(h []byte) (id int64) {
	vt.InfraIf(w.db.QueryRow("SELECT LockID FROM walletTokens WHERE Hash=?", hex.EncodeToString(h)).Scan(&id))
	return
}

// clean runs something that removes old locks, or all of them.
func (w *world) clean(t *rapid.T, force bool, f func()) {
	now := time.Now().Unix()
	call(t, "cleaning", f)
	for _, e := range w.tokens {
		if e.lock != 0 && (force || e.locked < now-walletstore.MaxLockAge-2) {
			e.lock = 0
		}
	}
}

// TestConcurrent lets several users of one store compete.
func TestConcurrent(t *testing.T) {
	vt.Check(t, "at least two users selected tokens", 120, 4000, func(rt *rapid.T, c *vt.Case) {
		w := &world{path: filepath.Join(vt.TempDir(), "wallet.db"), tokens: map[string]*entry{}}
		w.open()
		defer func() { w.db.Close() }()
		n := rapid.IntRange(1, 12).Draw(rt, "tokens")
		for i := 0; i < n; i++ {
			vt.InfraIf(w.ws.SetToken(client.TokenEntry{Hash: vt.Expand(32, uint32(i), 0), Token: []byte{1}, OwnerPubKey: pub(i % 2), Usage: "Message", Expire: time.Now().Unix() + 1000}))
		}
		users := rapid.IntRange(2, 6).Draw(rt, "users")
		stores := []*walletstore.Storage{w.ws}
		if rapid.Bool().Draw(rt, "two stores") {
			s, err := walletstore.New(w.db)
			vt.InfraIf(err)
			stores = append(stores, s)
		}
		kinds := make([]int, users)
		for i := range kinds {
			kinds[i] = rapid.IntRange(0, 2).Draw(rt, "kind")
		}
		var mu sync.Mutex
		holder := map[string]int{}
		taken := map[int]bool{}
		bad := ""
		var wg sync.WaitGroup
		start := make(chan bool)
		for u := 0; u < users; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				ws := stores[u%len(stores)]
				<-start
				for i := 0; i < n; i++ {
					var h []byte
					switch kinds[u] {
					case 0:
						tok, err := ws.GetAndLockToken("Message", nil)
						if err != nil {
							continue
						}
						h = tok.Hash
					case 1:
						h = vt.Expand(32, uint32((i+u)%n), 0)
						if id := ws.LockToken(h); id <= 0 {
							continue
						} else if _, err := ws.GetToken(h, id); err != nil {
							mu.Lock()
							bad = fmt.Sprintf("token just locked cannot be read with its lock: %v", err)
							mu.Unlock()
						}
					case 2:
						// housekeeping
						ws.SetAuthToken([]byte{byte(u), byte(i)}, i)
						ws.GetVerifyKeys()
						ws.GetAuthToken()
						if i%4 == 1 {
							ws.SetVerifyKeys([][32]byte{*pub(u)})
						}
						ws.GetBalance("Message", nil)
						continue
					}
					mu.Lock()
					taken[u] = true
					if o, ok := holder[string(h)]; ok {
						bad = fmt.Sprintf("token %x locked by user %d and user %d", h, o, u)
					}
					holder[string(h)] = u
					mu.Unlock()
				}
			}(u)
		}
		close(start)
		wg.Wait()
		if bad != "" {
			rt.Fatalf("%s", bad)
		}
		if got := w.ws.GetBalance("Message", nil); got != int64(n-len(holder)) {
			rt.Fatalf("balance %d, %d of %d locked", got, len(holder), n)
		}
		if len(taken) > 1 {
			c.NonTrivial(n, users, kinds)
		}
	})
}

// TestFaults makes statements fail: what was stored stays.
func TestFaults(t *testing.T) {
	vt.CheckSteps(t, "a failing write was reported", 70, 4000, 30, func(rt *rapid.T, c *vt.Case) {
		w := &world{path: filepath.Join(vt.TempDir(), "wallet.db"), tokens: map[string]*entry{}}
		w.open()
		defer func() { w.db.Close() }()
		var hs [][]byte
		for i := 1; i <= 12; i++ {
			hs = append(hs, vt.Expand(32, uint32(i), 0))
		}
		failed := 0
		fail := func(rt *rapid.T) func() {
			table := rapid.SampledFrom([]string{"walletTokens", "walletState"}).Draw(rt, "table")
			for _, op := range []string{"INSERT", "UPDATE"} {
				_, err := w.db.Exec(fmt.Sprintf("CREATE TRIGGER fail%s BEFORE %s ON %s BEGIN SELECT RAISE(ABORT, 'disk error'); END", op, op, table))
				vt.InfraIf(err)
			}
			return func() {
				for _, op := range []string{"INSERT", "UPDATE"} {
					_, err := w.db.Exec("DROP TRIGGER fail" + op)
					vt.InfraIf(err)
				}
			}
		}
		rt.Repeat(map[string]func(*rapid.T){
			"": func(rt *rapid.T) { w.check(rt, hs); w.checkCache(rt) },
			"set": func(rt *rapid.T) {
				e := genToken(rt, time.Now().Unix())
				e.Hash = hs[rapid.IntRange(0, 11).Draw(rt, "hash")]
				heal := func() {}
				if rapid.Bool().Draw(rt, "failing") {
					heal = fail(rt)
				}
				var err error
				call(rt, "SetToken", func() { err = w.ws.SetToken(e) })
				heal()
				if err != nil {
					failed++
					return // as before
				}
				if old := w.tokens[string(e.Hash)]; old != nil {
					old.TokenEntry = e
				} else {
					w.tokens[string(e.Hash)] = &entry{TokenEntry: e}
				}
			},
			"lock": func(rt *rapid.T) {
				h := hs[rapid.IntRange(0, 11).Draw(rt, "hash")]
				heal := func() {}
				if rapid.Bool().Draw(rt, "failing") {
					heal = fail(rt)
				}
				id := w.ws.LockToken(h)
				heal()
				e := w.tokens[string(h)]
				if id > 0 {
					if e == nil || e.lock != 0 {
						rt.Fatalf("locked %v", e)
					}
					e.lock = id
				} else {
					failed++
				}
			},
			"get": func(rt *rapid.T) {
				// a token that cannot be read is not handed out, and not locked
				u, o := rapid.SampledFrom(usages[:3]).Draw(rt, "usage"), rapid.IntRange(-1, 3).Draw(rt, "owner")
				var owner *[32]byte
				if o >= 0 {
					owner = pub(o)
				}
				es := w.minimal(func(e *entry) bool { return owned(e, u, owner) })
				bad := rapid.Bool().Draw(rt, "unreadable")
				if bad {
					_, err := w.db.Exec("UPDATE walletTokens SET Token='!' || Token")
					vt.InfraIf(err)
				}
				var got *client.TokenEntry
				var err error
				call(rt, "GetAndLockToken", func() { got, err = w.ws.GetAndLockToken(u, owner) })
				if bad {
					_, err := w.db.Exec("UPDATE walletTokens SET Token=substr(Token, 2)")
					vt.InfraIf(err)
					failed++
				}
				switch {
				case err == nil && (bad || len(es) == 0):
					rt.Fatalf("GetAndLockToken gives %x, unreadable %v, %d tokens", got.Hash, bad, len(es))
				case err != nil && !bad && len(es) > 0:
					rt.Fatalf("GetAndLockToken: %v, %d tokens", err, len(es))
				case err == nil:
					e := oneOf(got.Hash, es)
					if e == nil {
						rt.Fatalf("GetAndLockToken gives %x, not the first to expire", got.Hash)
					}
					e.lock = w.lockID(got.Hash)
					if e.lock == 0 {
						rt.Fatalf("token handed out without lock")
					}
				}
			},
			"auth": func(rt *rapid.T) {
				heal := func() {}
				failing := rapid.Bool().Draw(rt, "failing")
				if failing {
					heal = fail(rt)
				}
				w.auth, w.tries = vt.Expand(144, rapid.Uint32().Draw(rt, "auth"), 0), rapid.IntRange(0, 9).Draw(rt, "tries")
				err := w.ws.SetAuthToken(w.auth, w.tries)
				heal()
				if err != nil {
					if !failing {
						rt.Fatalf("SetAuthToken: %v", err)
					}
					failed++
					// write again, the store may know either
					if err := w.ws.SetAuthToken(w.auth, w.tries); err != nil {
						rt.Fatalf("SetAuthToken: %v", err)
					}
				}
				w.db.Close()
				w.open()
			},
		})
		w.steps = 5
		w.check(rt, hs)
		if failed > 0 {
			c.NonTrivial(failed, len(w.tokens), rapid.Uint32().Draw(rt, "-"))
		}
	})
}
