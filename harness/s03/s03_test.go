// Package s03 decides property S03: the key pool only hands out genuine,
// current keys of the right usage.
package s03

import (
	"bytes"
	"crypto/elliptic"
	"crypto/rand"
	"database/sql"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"verif/guardkit"
	"verif/vt"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydb"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydir"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/ronperry/cryptoedge/eccutil"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

func generator() *signkeys.KeyGenerator {
	return signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash)
}

func isKey(p *signkeys.PublicKey, k guardkit.RawKey) bool {
	x, y := k.Point()
	return p != nil && bytes.Equal(p.KeyID[:], k.KeyID) && p.PublicKey.X.Cmp(x) == 0 && p.PublicKey.Y.Cmp(y) == 0 && p.Expire == k.Expire &&
		p.Usage == k.Usage && bytes.Equal(p.Signer[:], k.Signer) && bytes.Equal(p.Signature[:], k.Signature)
}

// store is where a pool keeps its keys.
type store struct {
	kind string // "dir", "db"
	dir  string
	db   *sql.DB
	has  map[[32]byte]bool
}

func newStore(kind string) *store {
	s := &store{kind: kind, dir: vt.TempDir(), has: map[[32]byte]bool{}}
	if kind == "db" {
		var err error
		s.db, err = sql.Open("sqlite3", filepath.Join(s.dir, "keys.db"))
		vt.InfraIf(err)
		s.db.SetMaxOpenConns(1) // a connection that is not given back blocks
	}
	return s
}

func (s *store) add(rt *rapid.T, kp *keypool.KeyPool) {
	var err error
	if s.kind == "db" {
		err = keydb.Add(kp, s.db)
	} else {
		err = keydir.Add(kp, s.dir)
	}
	if err != nil {
		rt.Fatalf("storage: %v", err)
	}
}

func (s *store) close() {
	if s.db != nil {
		s.db.Close()
	}
	os.RemoveAll(s.dir)
}

// pool is a key pool and its model.
type pool struct {
	kp     *keypool.KeyPool
	usage  string
	stores []*store
	trust  map[[32]byte]bool
	keys   map[[32]byte]guardkit.RawKey
	cur    *signkeys.KeyPair
	gen    *guardkit.Issuer
}

func (p *pool) open(rt *rapid.T, verify bool) {
	g := generator()
	g.Usage = p.usage
	if p.gen != nil {
		g.PublicKey = &p.gen.Pub
		var priv [64]byte
		copy(priv[:], p.gen.Priv)
		g.PrivateKey = &priv
	}
	p.kp = keypool.New(g)
	p.keys = map[[32]byte]guardkit.RawKey{}
	p.cur = nil
	for _, s := range p.stores {
		s.add(rt, p.kp)
	}
	if verify {
		for k := range p.trust {
			k := k
			p.kp.AddVerifyKey(&k)
		}
	} else {
		p.trust = map[[32]byte]bool{}
	}
}

// good reports whether a key may enter the pool.
func (p *pool) good(k guardkit.RawKey) bool {
	var s [32]byte
	copy(s[:], k.Signer)
	return k.Genuine() && p.trust[s] && k.Expire > time.Now().Unix() && (p.usage == "" || p.usage == k.Usage)
}

func id(b []byte) (out [32]byte) {
	copy(out[:], b)
	return out
}

// TestModel compares a pool and its storage with a reference model.
func TestModel(t *testing.T) {
	vt.CheckSteps(t, "a history with at least one reload and one refused key", 250, 6000, 60, func(rt *rapid.T, c *vt.Case) {
		issuers := []*guardkit.Issuer{guardkit.NewIssuer(), guardkit.NewIssuer(), guardkit.NewIssuer()}
		p := &pool{usage: rapid.SampledFrom([]string{"", "A", "A", "B"}).Draw(rt, "usage"), trust: map[[32]byte]bool{}}
		for _, k := range rapid.SampledFrom([][]string{nil, {"dir"}, {"db"}, {"db"}, {"dir", "db"}, {"db", "dir"}}).Draw(rt, "stores") {
			s := newStore(k)
			defer s.close()
			p.stores = append(p.stores, s)
		}
		if rapid.Bool().Draw(rt, "generator") {
			p.gen = guardkit.NewIssuer()
		}
		p.open(rt, false)
		var all []guardkit.RawKey // every key ever made
		refused, reloads, stored := 0, 0, 0
		draw := func(rt *rapid.T, what string) guardkit.RawKey {
			if len(all) == 0 {
				rt.Skip("no key")
			}
			return all[rapid.IntRange(0, len(all)-1).Draw(rt, what)]
		}
		// every key is where it should be
		check := func(rt *rapid.T) {
			for _, k := range all {
				got, err := p.kp.Lookup(id(k.KeyID))
				want, ok := p.keys[id(k.KeyID)]
				if !ok {
					fetch := false
					for _, s := range p.stores {
						fetch = fetch || s.kind == "db" && s.has[id(k.KeyID)]
					}
					if fetch && p.good(k) {
						// fetched from the database
						if err != nil || !isKey(got, k) {
							rt.Fatalf("stored key is not found: %v", err)
						}
						p.keys[id(k.KeyID)] = k
						continue
					}
					if err == nil {
						rt.Fatalf("Lookup finds a key that may not be in the pool: %+v", got)
					}
					continue
				}
				if want.Expire <= time.Now().Unix()+2 {
					continue
				}
				if err != nil || !isKey(got, want) {
					rt.Fatalf("Lookup gives %+v, %v; loaded %+v", got, err, want)
				}
			}
		}
		rt.Repeat(map[string]func(*rapid.T){
			"": func(rt *rapid.T) { check(rt) },
			"trust": func(rt *rapid.T) {
				is := rapid.SampledFrom(issuers).Draw(rt, "issuer")
				p.kp.AddVerifyKey(&is.Pub)
				p.trust[is.Pub] = true
				list := p.kp.ListVerifyKeys()
				if len(list) != len(p.trust) {
					rt.Fatalf("%d verify keys, %d added", len(list), len(p.trust))
				}
				for _, is := range issuers {
					if p.kp.HasVerifyKey(&is.Pub, false) != p.trust[is.Pub] {
						rt.Fatalf("wrong verify keys")
					}
				}
			},
			"new key": func(rt *rapid.T) {
				is := rapid.SampledFrom(issuers).Draw(rt, "issuer")
				life := rapid.SampledFrom([]int64{100, 1000, 1 << 40, -10, -1000, -1 << 30, -1 << 32}).Draw(rt, "life")
				u := rapid.SampledFrom([]string{"A", "A", "B", "", "AB", "A:"}).Draw(rt, "key usage")
				k := is.NewKey(u, life).RawKey
				what := rapid.SampledFrom([]string{"good", "good", "good", "good", "expire", "usage", "signer", "signature", "id", "x", "move", "curve", "resigned"}).Draw(rt, "change")
				k.Signature = append([]byte(nil), k.Signature...)
				switch what {
				case "expire":
					k.Expire += rapid.Int64Range(1, 1<<32).Draw(rt, "more")
				case "usage":
					k.Usage = "A"
					if u == "A" {
						k.Usage = "B"
					}
				case "signer":
					k.Signer = rapid.SampledFrom(issuers).Draw(rt, "other").Pub[:]
				case "signature":
					k.Signature[rapid.IntRange(0, 63).Draw(rt, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
				case "id":
					k.KeyID = append([]byte(nil), k.KeyID...)
					k.KeyID[rapid.IntRange(0, 31).Draw(rt, "at")] ^= 1
				case "x":
					k.PublicKeyX, k.PublicKeyY = k.PublicKeyY, k.PublicKeyX
				case "move":
					all := append(append([]byte(nil), k.PublicKeyX...), k.PublicKeyY...)
					at := len(k.PublicKeyX) + rapid.SampledFrom([]int{-20, -1, 1, 2, 20}).Draw(rt, "by")
					k.PublicKeyX, k.PublicKeyY = all[:at], all[at:]
				case "curve":
					k.PublicKeyX = vt.Expand(32, rapid.Uint32().Draw(rt, "x"), 0)
					kk := guardkit.Key{RawKey: k}
					is.Sign(&kk)
					k = kk.RawKey
				case "resigned":
					// signed by one issuer, naming another
					kk := guardkit.Key{RawKey: k}
					k = issuers[rapid.IntRange(0, 2).Draw(rt, "by")].Sign(&kk).RawKey
				}
				all = append(all, k)
				c.Label("%s", what)
			},
			"load": func(rt *rapid.T) {
				k := draw(rt, "key")
				var err error
				var got *[32]byte
				pk, uerr := new(signkeys.PublicKey).Unmarshal(guardkit.DER(k))
				if uerr != nil {
					rt.Fatalf("Unmarshal: %v", uerr)
				}
				if !isKey(pk, k) {
					rt.Fatalf("key decodes to another key")
				}
				if rapid.Bool().Draw(rt, "unsafe") {
					got, err = p.kp.LoadKeyUnsafe(pk)
				} else {
					got, err = p.kp.LoadKey(pk)
				}
				_, known := p.keys[id(k.KeyID)]
				good := p.good(k)
				switch {
				case !good:
					refused++
					if err == nil || err == keypool.ErrExists {
						rt.Fatalf("key that may not be in the pool loaded (%v): %+v", err, k)
					}
					_, exp := p.trust[id(k.Signer)]
					if k.Genuine() && exp && k.Expire > time.Now().Unix() && err != keypool.ErrBadUsage {
						rt.Fatalf("key of other usage refused with %v", err)
					}
				case known:
					if err != keypool.ErrExists || got == nil || *got != id(k.KeyID) {
						rt.Fatalf("loading a known key gives %v, %v", got, err)
					}
				default:
					if err != nil || *got != id(k.KeyID) {
						rt.Fatalf("valid key refused: %v", err)
					}
					p.keys[id(k.KeyID)] = k
				}
			},
			"save": func(rt *rapid.T) {
				k := draw(rt, "key")
				_, ok := p.keys[id(k.KeyID)]
				var err error
				if rapid.Bool().Draw(rt, "unsafe") {
					err = p.kp.SaveKeyUnsafe(id(k.KeyID))
				} else {
					err = p.kp.SaveKey(id(k.KeyID))
				}
				if ok != (err == nil) {
					rt.Fatalf("saving gives %v, key known: %v", err, ok)
				}
				if ok {
					stored++
					for _, s := range p.stores {
						s.has[id(k.KeyID)] = true
					}
				}
			},
			"put": func(rt *rapid.T) {
				// somebody else writes into the storage
				k := draw(rt, "key")
				for _, s := range p.stores {
					if s.has[id(k.KeyID)] {
						continue
					}
					if s.kind == "db" {
						_, err := s.db.Exec("INSERT INTO keypool (KeyID, KeyUsage, KeyData) VALUES (?,?,?)", hex.EncodeToString(k.KeyID), k.Usage,
							base64.StdEncoding.EncodeToString(guardkit.DER(k)))
						vt.InfraIf(err)
					} else {
						vt.InfraIf(os.WriteFile(filepath.Join(s.dir, hex.EncodeToString(k.KeyID)+".pubkey"), guardkit.DER(k), 0600))
					}
					s.has[id(k.KeyID)] = true
				}
			},
			"misfile": func(rt *rapid.T) {
				// a key filed under another identity
				k, as := draw(rt, "key"), rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "as")
				for _, s := range p.stores {
					if s.kind != "db" {
						continue
					}
					_, err := s.db.Exec("INSERT INTO keypool (KeyID, KeyUsage, KeyData) VALUES (?,?,?)", hex.EncodeToString(as), k.Usage,
						base64.StdEncoding.EncodeToString(guardkit.DER(k)))
					vt.InfraIf(err)
					if got, err := p.kp.Lookup(id(as)); err == nil {
						rt.Fatalf("Lookup of %x gives key %x", as, got.KeyID)
					}
					_, err = s.db.Exec("DELETE FROM keypool WHERE KeyID=?", hex.EncodeToString(as))
					vt.InfraIf(err)
					// the pool may have taken the key for what it is
					if got, err := p.kp.Lookup(id(k.KeyID)); err == nil {
						if _, known := p.keys[id(k.KeyID)]; !known && !p.good(k) {
							rt.Fatalf("key that may not be in the pool loaded from the database")
						}
						if !isKey(got, k) {
							rt.Fatalf("another key under this ID")
						}
						p.keys[id(k.KeyID)] = k
					}
				}
			},
			"reload": func(rt *rapid.T) {
				reloads++
				trust := rapid.IntRange(0, 4).Draw(rt, "verify keys") > 0
				p.open(rt, trust)
				if rapid.Bool().Draw(rt, "load") {
					if err := p.kp.Load(); err != nil {
						rt.Fatalf("Load: %v", err)
					}
					for _, k := range all {
						for _, s := range p.stores {
							if s.has[id(k.KeyID)] && p.good(k) {
								p.keys[id(k.KeyID)] = k
							}
						}
					}
				}
			},
			"current": func(rt *rapid.T) {
				cur, prev, err := p.kp.Current()
				if p.gen == nil {
					if err != keypool.ErrNoGenerator || cur != nil {
						rt.Fatalf("pool without generator has a current key: %v", err)
					}
					return
				}
				if err != nil {
					rt.Fatalf("Current: %v", err)
				}
				k, ok := guardkit.ParseKey(marshal(rt, &cur.PublicKey))
				if !ok || !k.Genuine() || !bytes.Equal(k.Signer, p.gen.Pub[:]) || k.Usage != p.usage {
					rt.Fatalf("current key is not genuine: %+v", k)
				}
				x, y := elliptic.P256().ScalarBaseMult(cur.PrivateKey)
				if x.Cmp(cur.PublicKey.PublicKey.X) != 0 || y.Cmp(cur.PublicKey.PublicKey.Y) != 0 {
					rt.Fatalf("private key does not belong to the public key")
				}
				now := time.Now().Unix()
				if et := p.kp.Generator.ExpireTime; et >= 10 && cur.PublicKey.Expire <= now {
					rt.Fatalf("current key has expired for %d s", now-cur.PublicKey.Expire)
				}
				if et := p.kp.Generator.ExpireTime; et >= 10 && cur.PublicKey.Expire < now+et/2-2 {
					rt.Fatalf("current key has %d s left, configured %d", cur.PublicKey.Expire-now, et)
				}
				if et := p.kp.Generator.ExpireTime; et >= 10 && cur.PublicKey.Expire > now+et+5 && p.cur == nil {
					rt.Fatalf("current key expires in %d s, configured %d", cur.PublicKey.Expire-now, et)
				}
				if p.cur != nil && cur.PublicKey.KeyID != p.cur.PublicKey.KeyID {
					if prev == nil || prev.PublicKey.KeyID != p.cur.PublicKey.KeyID {
						rt.Fatalf("previous key is not the one used before")
					}
					c.Label("rotated")
				}
				if p.cur == nil && prev != nil {
					rt.Fatalf("the first key has a previous one")
				}
				p.cur = cur
				if cur.PublicKey.Expire > now+5 {
					// used and stored like any key
					all = append(all, k)
					p.keys[id(k.KeyID)] = k
					for _, s := range p.stores {
						s.has[id(k.KeyID)] = true
					}
					cur2, _, err := p.kp.Current()
					if err != nil || cur2.PublicKey.KeyID != cur.PublicKey.KeyID && cur.PublicKey.Expire >= now+p.kp.Generator.ExpireTime-2 {
						rt.Fatalf("new current key is replaced at once: %v", err)
					}
					p.cur = cur2
					if cur2 != cur {
						k, _ := guardkit.ParseKey(marshal(rt, &cur2.PublicKey))
						all = append(all, k)
						p.keys[id(k.KeyID)] = k
						for _, s := range p.stores {
							s.has[id(k.KeyID)] = true
						}
					}
				}
			},
			"expire time": func(rt *rapid.T) {
				// a key that has lived for a while is one whose configured
				// life was shorter
				p.kp.Generator.ExpireTime = rapid.SampledFrom([]int64{-1000, -10, 100, 150, 400, 1000, 2500, 100000, signkeys.DefaultExpireTime}).Draw(rt, "expire time")
			},
			"trust self": func(rt *rapid.T) {
				if p.gen != nil {
					p.kp.AddVerifyKey(&p.gen.Pub)
					p.trust[p.gen.Pub] = true
				}
			},
		})
		if refused > 0 && reloads > 0 {
			c.NonTrivial(p.usage, len(p.stores), reloads, stored, len(all))
		}
		c.Sample("usage %q, %d stores, %d keys, %d reloads, %d refused", p.usage, len(p.stores), len(all), reloads, refused)
	})
}

func marshal(rt *rapid.T, k *signkeys.PublicKey) []byte {
	enc, err := k.Marshal()
	if err != nil {
		rt.Fatalf("Marshal: %v", err)
	}
	return enc
}

// TestExpiry lets keys expire in the pool.
func TestExpiry(t *testing.T) {
	vt.Check(t, "keys that expire while in the pool", 1, 4, func(rt *rapid.T, c *vt.Case) {
		is := guardkit.NewIssuer()
		s := newStore("db")
		defer s.close()
		p := &pool{stores: []*store{s}, trust: map[[32]byte]bool{is.Pub: true}}
		p.open(rt, true)
		var keys []*guardkit.Key
		var first []int64
		for i := 0; i < 12; i++ {
			k := is.NewKey("u", int64(2+i%4*40))
			keys, first = append(keys, k), append(first, k.Expire)
			if _, err := p.kp.LoadKey(k.Usable()); err != nil {
				rt.Fatalf("LoadKey: %v", err)
			}
			if err := p.kp.SaveKey(k.ID()); err != nil {
				rt.Fatalf("SaveKey: %v", err)
			}
		}
		time.Sleep(4 * time.Second)
		now := time.Now().Unix()
		for round := 0; round < 2; round++ {
			for i, k := range keys {
				got, err := p.kp.Lookup(k.ID())
				expired := first[i] <= now
				if expired != (err != nil) || !expired && !isKey(got, k.RawKey) {
					rt.Fatalf("key expired %v: Lookup gives %v, %v", expired, got, err)
				}
				if expired && round == 0 && err != keypool.ErrExpired {
					rt.Fatalf("expired key reported as %v", err)
				}
				if err := p.kp.SaveKey(k.ID()); expired != (err != nil) {
					rt.Fatalf("key expired %v: SaveKey gives %v", expired, err)
				}
			}
			p.open(rt, true)
			if err := p.kp.Load(); err != nil {
				rt.Fatalf("Load: %v", err)
			}
		}
		c.NonTrivial("expired")
		c.Sample("12 keys, 3 expired")
	})
}

// TestFaults makes the storage fail.
func TestFaults(t *testing.T) {
	vt.Check(t, "a storage that fails or is corrupt", 300, 6000, func(rt *rapid.T, c *vt.Case) {
		is := guardkit.NewIssuer()
		kinds := rapid.SampledFrom([][]string{{"dir"}, {"db"}, {"dir", "db"}, {"db", "dir"}}).Draw(rt, "stores")
		p := &pool{trust: map[[32]byte]bool{is.Pub: true}, gen: is}
		for _, k := range kinds {
			s := newStore(k)
			defer s.close()
			p.stores = append(p.stores, s)
		}
		p.open(rt, true)
		n := rapid.IntRange(1, 4).Draw(rt, "keys")
		var keys []*guardkit.Key
		for i := 0; i < n; i++ {
			k := is.NewKey("u", 1000)
			keys = append(keys, k)
			if _, err := p.kp.LoadKey(k.Usable()); err != nil {
				rt.Fatalf("LoadKey: %v", err)
			}
			if i < n-1 {
				if err := p.kp.SaveKey(k.ID()); err != nil {
					rt.Fatalf("SaveKey: %v", err)
				}
			}
		}
		bad := p.stores[rapid.IntRange(0, len(p.stores)-1).Draw(rt, "failing")]
		what := rapid.SampledFrom([]string{"gone", "corrupt", "occupied"}).Draw(rt, "fault")
		c.Label("%s %s", bad.kind, what)
		if what == "gone" {
			if bad.kind == "db" {
				switch rapid.IntRange(0, 1).Draw(rt, "how") {
				case 0:
					bad.db.Close()
				case 1:
					_, err := bad.db.Exec("DROP TABLE keypool")
					vt.InfraIf(err)
				}
			} else {
				vt.InfraIf(os.RemoveAll(bad.dir))
			}
			// a key that cannot be stored is reported
			if err := p.kp.SaveKey(keys[n-1].ID()); err == nil {
				rt.Fatalf("SaveKey succeeds without storage")
			}
			for i := 0; i < 2; i++ {
				// as often as asked
				if cur, _, err := p.kp.Current(); err == nil {
					rt.Fatalf("current key %x made without storage", cur.PublicKey.KeyID)
				}
			}
			if err := p.kp.Load(); err == nil {
				rt.Fatalf("Load succeeds without storage")
			}
		} else if what == "occupied" {
			// something else is stored under the ID of a key
			last := keys[n-1]
			data := append([]byte(nil), last.Enc...)
			data[vt.Uniform(rt, len(data), "at")] ^= 1 << uint(vt.Uniform(rt, 8, "bit"))
			if rapid.Bool().Draw(rt, "other key") {
				data = is.NewKey("u", 1000).Enc
			}
			if bad.kind == "db" {
				_, err := bad.db.Exec("INSERT INTO keypool (KeyID, KeyUsage, KeyData) VALUES (?,?,?)", hex.EncodeToString(last.KeyID), "u", base64.StdEncoding.EncodeToString(data))
				vt.InfraIf(err)
			} else {
				vt.InfraIf(os.WriteFile(filepath.Join(bad.dir, hex.EncodeToString(last.KeyID)+".pubkey"), data, 0600))
			}
			if err := p.kp.SaveKey(last.ID()); err == nil {
				// then it is really stored
				p.stores = []*store{bad}
				p.open(rt, true)
				p.kp.Load()
				if got, err := p.kp.Lookup(last.ID()); err != nil || !isKey(got, last.RawKey) {
					rt.Fatalf("key was saved, but is not stored: %v", err)
				}
			}
		} else {
			enc := guardkit.DER(keys[0].RawKey)
			mut, desc := vt.Mutation(rt, enc, "file")
			as := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "as")
			if bad.kind == "db" {
				data := base64.StdEncoding.EncodeToString(mut)
				if rapid.Bool().Draw(rt, "text") {
					data, desc = string(mut), "not base64"
				}
				_, err := bad.db.Exec("INSERT INTO keypool (KeyID, KeyUsage, KeyData) VALUES (?,?,?)", hex.EncodeToString(as), "u", data)
				vt.InfraIf(err)
			} else {
				vt.InfraIf(os.WriteFile(filepath.Join(bad.dir, hex.EncodeToString(as)+".pubkey"), mut, 0600))
			}
			p.open(rt, true)
			done := make(chan error, 1)
			go func() {
				for i := 0; i < 3; i++ {
					p.kp.Load()
				}
				_, err := p.kp.Lookup(id(as))
				done <- err
			}()
			select {
			case err := <-done:
				if err == nil {
					rt.Fatalf("corrupt key (%s) found", desc)
				}
			case <-time.After(60 * time.Second):
				rt.Fatalf("loading after a corrupt key (%s) hangs", desc)
			}
			for _, k := range keys[:n-1] {
				got, err := p.kp.Lookup(k.ID())
				if err == nil && !isKey(got, k.RawKey) {
					rt.Fatalf("other key")
				}
			}
		}
		// what is in the pool is not lost
		if what == "gone" {
			for _, k := range keys {
				if got, err := p.kp.Lookup(k.ID()); err != nil || !isKey(got, k.RawKey) {
					rt.Fatalf("key lost from the pool: %v", err)
				}
			}
		}
		c.NonTrivial(bad.kind, what, len(kinds), n)
		c.Sample("%s of %v is %s", bad.kind, kinds, what)
	})
}

// TestConcurrent uses one pool from several goroutines; the race detector
// watches.
func TestConcurrent(t *testing.T) {
	vt.Check(t, "at least two goroutines use the pool", 60, 2000, func(rt *rapid.T, c *vt.Case) {
		is := guardkit.NewIssuer()
		g := generator()
		g.PublicKey = &is.Pub
		var priv [64]byte
		copy(priv[:], is.Priv)
		g.PrivateKey = &priv
		kp := keypool.New(g)
		kp.AddVerifyKey(&is.Pub)
		var mu sync.Mutex
		backing := map[[32]byte][]byte{}
		kp.RegisterStorage(func(keyid []byte) ([]byte, error) {
			mu.Lock()
			defer mu.Unlock()
			if d, ok := backing[id(keyid)]; ok {
				return d, nil
			}
			return nil, keypool.ErrNotFound
		}, func(keyid []byte, usage string, data []byte) error {
			mu.Lock()
			defer mu.Unlock()
			if len(data) == 0 {
				return errors.New("no data")
			}
			backing[id(keyid)] = data
			return nil
		}, nil)
		n := rapid.IntRange(2, 12).Draw(rt, "keys")
		var keys []*guardkit.Key
		for i := 0; i < n; i++ {
			k := is.NewKey("", 1000)
			keys = append(keys, k)
			if i%2 == 0 {
				backing[k.ID()] = k.Enc
			}
		}
		workers := rapid.IntRange(2, 8).Draw(rt, "workers")
		plan := rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 5), 1, 8), workers, workers).Draw(rt, "plan")
		errs := make(chan string, 1000)
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := range plan {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for s, op := range plan[w] {
					k := keys[(w+s)%n]
					switch op {
					case 0, 1:
						got, err := kp.Lookup(k.ID())
						if err == nil && !isKey(got, k.RawKey) {
							errs <- "Lookup gives another key"
						}
						if err != nil && (w+s)%n%2 == 0 {
							errs <- fmt.Sprintf("stored key not found: %v", err)
						}
					case 2:
						if _, err := kp.LoadKey(k.Usable()); err != nil && err != keypool.ErrExists {
							errs <- fmt.Sprintf("LoadKey: %v", err)
						}
					case 3:
						if _, _, err := kp.Current(); err != nil {
							errs <- fmt.Sprintf("Current: %v", err)
						}
					case 4:
						kp.SaveKey(k.ID())
					case 5:
						o := guardkit.NewIssuer()
						kp.AddVerifyKey(&o.Pub)
						kp.ListVerifyKeys()
						kp.HasVerifyKey(&o.Pub, false)
					}
				}
			}()
		}
		close(start)
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			rt.Fatalf("deadlock")
		}
		select {
		case e := <-errs:
			rt.Fatalf("%s", e)
		default:
		}
		cur, prev, err := kp.Current()
		if err != nil || prev != nil {
			rt.Fatalf("several current keys were made: %v", err)
		}
		if _, err := kp.Lookup(cur.PublicKey.KeyID); err != nil {
			rt.Fatalf("current key is not in the pool: %v", err)
		}
		c.NonTrivial(fmt.Sprint(plan))
		c.Sample("%d workers on %d keys", workers, n)
	})
}
