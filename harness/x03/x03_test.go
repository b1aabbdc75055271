// Package x03 decides property X03: mix address statements are authentic,
// current and consistent.
package x03

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"

	"verif/mixkit"
	"verif/vt"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// offsets from now that cannot change side while a case runs.
var offsets = []int64{-100000, -1000, -60, -20, 20, 60, 1000, 100000}

type entry struct {
	pub, priv []byte
	expire    int64
}

func key32(b []byte) *[32]byte { k := new([32]byte); copy(k[:], b); return k }

// TestKeyList compares the key list of a mix with a map.
func TestKeyList(t *testing.T) {
	vt.CheckSteps(t, "a history with additions and expiries, or a reload", 1000, 15000, 25, func(rt *rapid.T, c *vt.Case) {
		dir := vt.TempDir()
		priv := mixkit.SigKey()
		kl := mixaddr.New(priv, "mix@mix.mute.one", 0, 0, dir)
		model := map[string]*entry{} // entries not yet removed
		var all []*entry             // every entry ever made
		adds, expired, reloads := 0, 0, 0
		live := func(e *entry) bool { return e.expire > times.Now() }
		find := func(pub []byte) *entry {
			for _, e := range all {
				if bytes.Equal(e.pub, pub) {
					return e
				}
			}
			return nil
		}
		check := func(where string) {
			for _, e := range all {
				got, ke := kl.GetPrivateKey(key32(e.pub)), kl.GetKeyEntry(key32(e.pub))
				if model[string(e.pub)] == nil || !live(e) {
					if got != nil || ke != nil {
						rt.Fatalf("%s: private key of expired key (%d) is handed out", where, e.expire-times.Now())
					}
					continue
				}
				if got == nil || ke == nil || !bytes.Equal(got[:], e.priv) {
					rt.Fatalf("%s: private key of a valid key is not handed out", where)
				}
				if !bytes.Equal(ke.Pubkey, e.pub) || !bytes.Equal(ke.Privkey, e.priv) || ke.Expire != e.expire || ke.Address != "mix@mix.mute.one" || !bytes.Equal(ke.TokenKey, priv[32:]) {
					rt.Fatalf("%s: key entry %+v", where, ke)
				}
			}
			if kl.GetPrivateKey(key32(vt.Expand(32, 99, 0))) != nil {
				rt.Fatal("private key for unknown key")
			}
			var first, last int64
			for _, e := range model {
				if first == 0 || e.expire < first {
					first = e.expire
				}
				if last == 0 || e.expire > last {
					last = e.expire
				}
			}
			if f, l := kl.GetBoundaryTime(); f != first || l != last {
				rt.Fatalf("%s: boundary times %d %d, want %d %d", where, f, l, first, last)
			}
			st := kl.GetStatement()
			if st == nil {
				if adds+reloads > 0 {
					rt.Fatalf("%s: no statement", where)
				}
				return
			}
			if !st.Verify() || !bytes.Equal(st.PublicKey, priv[32:]) {
				rt.Fatalf("%s: statement does not verify", where)
			}
			seen := map[string]bool{}
			for _, a := range st.Addresses {
				e := find(a.Pubkey)
				if e == nil || a.Expire != e.expire || a.Address != "mix@mix.mute.one" || !bytes.Equal(a.TokenKey, priv[32:]) || seen[string(a.Pubkey)] {
					rt.Fatalf("%s: statement has entry %+v", where, a)
				}
				seen[string(a.Pubkey)] = true
				if model[string(e.pub)] == nil {
					rt.Fatalf("%s: statement advertises a key that is gone (expired %d s ago)", where, times.Now()-e.expire)
				}
			}
			for p, e := range model {
				if live(e) && !seen[p] {
					rt.Fatalf("%s: valid key is not advertised", where)
				}
			}
			// what a client makes of the statement
			al := mixaddr.AddressList(nil).AddStatement(*st)
			for _, a := range al {
				if kl.GetPrivateKey(key32(a.Pubkey)) == nil {
					rt.Fatalf("%s: usable address without private key", where)
				}
			}
			n := 0
			for _, e := range model {
				if live(e) {
					n++
				}
			}
			if len(al) != n {
				rt.Fatalf("%s: %d usable addresses for %d keys", where, len(al), n)
			}
		}
		expireModel := func() {
			for p, e := range model {
				if !live(e) {
					delete(model, p)
					expired++
				}
			}
		}
		learn := func(k *mixaddr.KeyList) {
			for p, ke := range k.Keys {
				if find(p[:]) == nil {
					e := &entry{append([]byte{}, p[:]...), append([]byte{}, ke.Privkey...), ke.Expire}
					all = append(all, e)
					model[string(e.pub)] = e
				}
			}
		}
		rt.Repeat(map[string]func(*rapid.T){
			"add": func(rt *rapid.T) {
				kl.Duration = rapid.SampledFrom(offsets).Draw(rt, "duration")
				t0 := times.Now()
				n := len(kl.Keys)
				kl.AddKey()
				t1 := times.Now()
				known := len(all)
				if len(kl.Keys) != n+1 {
					rt.Fatalf("%d keys after adding one to %d", len(kl.Keys), n)
				}
				learn(kl)
				if len(all) != known+1 {
					rt.Fatal("added key is not new")
				}
				e := all[known]
				if e.expire < t0+kl.Duration || e.expire > t1+kl.Duration {
					rt.Fatalf("new key lives %d s, not %d", e.expire-t0, kl.Duration)
				}
				if !bytes.Equal(mixkit.Pub(e.priv), e.pub) {
					rt.Fatal("private and public key differ")
				}
				adds++
				check("add")
			},
			"expire": func(rt *rapid.T) {
				kl.Expire()
				expireModel()
				if len(kl.Keys) != len(model) {
					rt.Fatalf("%d keys after expiry, want %d", len(kl.Keys), len(model))
				}
				check("expire")
			},
			"reload": func(rt *rapid.T) {
				var b []byte
				if rapid.Bool().Draw(rt, "file") {
					fs, _ := filepath.Glob(filepath.Join(dir, "keys.*"))
					if len(fs) == 0 {
						return
					}
					sort.Strings(fs)
					f := fs[len(fs)-1]
					b, _ = os.ReadFile(f)
					if fi, err := os.Stat(f); err != nil || fi.Mode().Perm()&077 != 0 {
						rt.Fatalf("private keys are readable by others: %v %v", fi.Mode(), err)
					}
					c.Label("reload file")
				} else {
					b = kl.Marshal()
				}
				n := mixaddr.New(priv, "mix@mix.mute.one", 0, 0, dir)
				if rapid.Bool().Draw(rt, "used") { // a list that has other keys
					other := mixaddr.New(priv, "mix@mix.mute.one", 0, 0, vt.TempDir())
					other.AddKey()
					vt.InfraIf(n.Unmarshal(other.Marshal()))
				}
				if err := n.Unmarshal(b); err != nil {
					rt.Fatalf("Unmarshal: %v", err)
				}
				before := kl.Keys
				kl = n
				reloads++
				expireModel()
				for p := range kl.Keys {
					if model[string(p[:])] == nil {
						rt.Fatalf("reloading brought a key that was not stored")
					}
				}
				for p, e := range model {
					if live(e) && kl.Keys[*key32([]byte(p))].Expire == 0 {
						rt.Fatalf("reloading lost a valid key (%d before, %d after)", len(before), len(kl.Keys))
					}
				}
				check("reload")
			},
			"damaged": func(rt *rapid.T) {
				b, _ := vt.Mutation(rt, kl.Marshal(), "list")
				n := mixaddr.New(priv, "mix@mix.mute.one", 0, 0, dir)
				if p := vt.Try(func() { n.Unmarshal(b) }); p != "" {
					rt.Fatalf("damaged list crashes: %s", p)
				}
				check("damaged")
			},
			"": func(rt *rapid.T) { check("always") },
		})
		if adds > 1 && (expired > 0 || reloads > 0) {
			c.NonTrivial(adds, expired, reloads, len(model))
		}
		if expired > 0 {
			c.Label("expired")
		}
		if reloads > 0 {
			c.Label("reloaded")
		}
		c.Sample("%d keys added, %d expired, %d reloads, %d left", adds, expired, reloads, len(model))
	})
}

// TestConcurrent uses one list from several routines at once.
func TestConcurrent(t *testing.T) {
	vt.Check(t, "keys were added, expired and looked up at the same time", 40, 400, func(rt *rapid.T, c *vt.Case) {
		kl := mixaddr.New(mixkit.SigKey(), "mix@mix.mute.one", 100, 0, vt.TempDir())
		n := rapid.IntRange(2, 6).Draw(rt, "writers")
		var wg sync.WaitGroup
		bad := make(chan string, 100)
		for i := 0; i < n; i++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				for j := 0; j < 10; j++ {
					kl.AddKey()
				}
			}()
			go func() {
				defer wg.Done()
				for j := 0; j < 20; j++ {
					if st := kl.GetStatement(); st != nil {
						if !st.Verify() {
							bad <- "statement does not verify"
						}
						for _, a := range st.Addresses {
							if kl.GetPrivateKey(key32(a.Pubkey)) == nil {
								bad <- "advertised key without private key"
							}
						}
					}
					kl.Expire()
					kl.GetBoundaryTime()
				}
			}()
		}
		wg.Wait()
		select {
		case s := <-bad:
			rt.Fatal(s)
		default:
		}
		if len(kl.Keys) != 10*n || len(kl.GetStatement().Addresses) != 10*n {
			rt.Fatalf("%d keys, %d addresses, want %d", len(kl.Keys), len(kl.GetStatement().Addresses), 10*n)
		}
		c.NonTrivial(n)
	})
}

func genList(rt *rapid.T, label string) mixaddr.AddressList {
	var al mixaddr.AddressList
	for i, n := 0, rapid.IntRange(0, 4).Draw(rt, label+"n"); i < n; i++ {
		al = append(al, mixaddr.Address{
			Pubkey: vt.Expand(32, rapid.Uint32().Draw(rt, label+"p"), 0), Expire: times.Now() + rapid.SampledFrom(offsets).Draw(rt, label+"e"),
			Address: rapid.SampledFrom([]string{"mix@a.mute.one", "mix@b.mute.one", "", "x"}).Draw(rt, label+"a"), TokenKey: vt.Expand(rapid.SampledFrom([]int{32, 32, 32, 0, 1, 20, 33}).Draw(rt, label+"tl"), rapid.Uint32().Draw(rt, label+"t"), 0),
		})
	}
	return al
}

func eq(a, b mixaddr.AddressList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].Pubkey, b[i].Pubkey) || a[i].Expire != b[i].Expire || a[i].Address != b[i].Address || !bytes.Equal(a[i].TokenKey, b[i].TokenKey) {
			return false
		}
	}
	return true
}

func filter(al mixaddr.AddressList, t int64) (out mixaddr.AddressList) {
	for _, a := range al {
		if a.Expire > t {
			out = append(out, a)
		}
	}
	return out
}

// TestList checks the operations on lists against their definition.
func TestList(t *testing.T) {
	vt.Check(t, "the list has valid and expired entries", 4000, 60000, func(rt *rapid.T, c *vt.Case) {
		al := genList(rt, "l")
		orig := append(mixaddr.AddressList{}, al...)
		more := genList(rt, "m")
		now := times.Now()
		if got := al.Expire(0); !eq(got, filter(al, now)) {
			rt.Fatalf("Expire(0) keeps %d of %d", len(got), len(al))
		}
		at := now + rapid.SampledFrom(append([]int64{0, 19, 21}, offsets...)).Draw(rt, "at")
		if rapid.Bool().Draw(rt, "exact") && len(al) > 0 {
			at = al[rapid.IntRange(0, len(al)-1).Draw(rt, "which")].Expire
		}
		if at != 0 {
			if got := al.Expire(at); !eq(got, filter(al, at)) {
				rt.Fatalf("Expire(%d) keeps %d of %d", at-now, len(got), len(al))
			}
		}
		if got := al.Append(more...); !eq(got, append(append(mixaddr.AddressList{}, al...), filter(more, now)...)) {
			rt.Fatalf("Append gives %d of %d+%d", len(got), len(al), len(more))
		}
		key := mixkit.SigKey()
		st := more.Statement(key)
		if !st.Verify() || !bytes.Equal(st.PublicKey, key[32:]) || !eq(st.Addresses, more) {
			rt.Fatal("fresh statement does not verify")
		}
		if got := al.AddStatement(st); !eq(got, append(append(mixaddr.AddressList{}, al...), filter(more, now)...)) {
			rt.Fatal("AddStatement of a good statement")
		}
		if len(more) > 0 {
			bad := st
			bad.Signature, _ = vt.Mutation(rt, st.Signature, "sig")
			if !bytes.Equal(bad.Signature, st.Signature) {
				if got := al.AddStatement(bad); !eq(got, al) {
					rt.Fatal("AddStatement of a bad statement")
				}
			}
		}
		a := al.Rand()
		if (a == nil) != (len(al) == 0) {
			rt.Fatalf("Rand gives %v of %d", a, len(al))
		}
		if a != nil {
			ok := false
			for i := range al {
				ok = ok || eq(mixaddr.AddressList{*a}, al[i:i+1])
			}
			if !ok {
				rt.Fatal("Rand gives a foreign entry")
			}
		}
		var zero mixaddr.AddressList
		got, err := zero.Unmarshal(al.Marshal())
		if err != nil || !eq(got, filter(al, now)) {
			rt.Fatalf("Unmarshal gives %d of %d (%v)", len(got), len(al), err)
		}
		if !eq(al, orig) {
			rt.Fatal("list changed")
		}
		if n := len(filter(al, now)); n > 0 && n < len(al) {
			c.NonTrivial(len(al), n, len(more), at-now)
		}
		c.Sample("%d entries, %d valid, %d appended", len(al), len(filter(al, now)), len(more))
	})
}

// TestChoice: any entry of a list may be chosen.
func TestChoice(t *testing.T) {
	vt.Check(t, "every list", 60, 1000, func(rt *rapid.T, c *vt.Case) {
		n := rapid.IntRange(1, 12).Draw(rt, "n")
		var al mixaddr.AddressList
		for i := 0; i < n; i++ {
			al = append(al, mixaddr.Address{Pubkey: vt.Expand(32, uint32(i), 0), Expire: times.Now() + 1000, Address: "mix@mute.one"})
		}
		seen := map[string]bool{}
		// an entry of a fair choice is missing with a probability below n*e^-50
		for i := 0; i < 50*n; i++ {
			seen[string(al.Rand().Pubkey)] = true
		}
		if len(seen) != n {
			rt.Fatalf("of %d entries only %d are ever chosen", n, len(seen))
		}
		c.NonTrivial(n)
	})
}

// image is what the signature covers, by definition.
func image(al mixaddr.AddressList) (out []byte) {
	for _, a := range al {
		var d [8]byte
		binary.BigEndian.PutUint64(d[:], uint64(a.Expire))
		out = append(append(append(append(out, a.Pubkey...), d[:]...), a.Address...), a.TokenKey...)
	}
	return out
}

// TestStatement: a statement verifies only unchanged.
func TestStatement(t *testing.T) {
	vt.Check(t, "a changed statement was refused", 4000, 80000, func(rt *rapid.T, c *vt.Case) {
		al := genList(rt, "l")
		key, other := mixkit.SigKey(), mixkit.SigKey()
		st := al.Statement(key)
		j, err := json.Marshal(st)
		vt.InfraIf(err)
		var back mixaddr.AddressStatement
		if err := json.Unmarshal(j, &back); err != nil || !back.Verify() || !eq(back.Addresses, al) {
			rt.Fatalf("statement does not survive encoding: %v", err)
		}
		var pub [32]byte
		var sig [64]byte
		copy(pub[:], key[32:])
		copy(sig[:], al.Sign(key))
		if !al.Verify(&pub, &sig) || !ed25519.Verify(pub[:], sum(al), sig[:]) {
			rt.Fatal("signature is not over the list")
		}
		for i := 0; i < 10; i++ {
			m := mixaddr.AddressStatement{Addresses: append(mixaddr.AddressList{}, al...), Signature: st.Signature, PublicKey: st.PublicKey}
			desc := ""
			k := rapid.IntRange(0, 11).Draw(rt, "kind")
			if len(al) == 0 && k < 8 {
				k = 8 + k%4
			}
			var e *mixaddr.Address
			if k < 8 {
				e = &m.Addresses[rapid.IntRange(0, len(al)-1).Draw(rt, "entry")]
			}
			switch k {
			case 0:
				e.Pubkey, desc = vt.Mutation(rt, e.Pubkey, "pub")
			case 1:
				e.Expire += rapid.SampledFrom([]int64{1, -1, 256, 1000, 1 << 40}).Draw(rt, "later")
			case 2:
				var b []byte
				b, desc = vt.Mutation(rt, []byte(e.Address+"x"), "addr")
				e.Address = string(b)
			case 3:
				e.TokenKey, desc = vt.Mutation(rt, e.TokenKey, "token")
			case 4: // drop an entry
				x := rapid.IntRange(0, len(al)-1).Draw(rt, "drop")
				m.Addresses = append(append(mixaddr.AddressList{}, al[:x]...), al[x+1:]...)
			case 5: // repeat
				m.Addresses = append(m.Addresses, *e)
			case 6: // swap
				x, y := rapid.IntRange(0, len(al)-1).Draw(rt, "x"), rapid.IntRange(0, len(al)-1).Draw(rt, "y")
				m.Addresses[x], m.Addresses[y] = m.Addresses[y], m.Addresses[x]
			case 7: // move bytes between neighbouring fields
				n := rapid.IntRange(1, 32).Draw(rt, "n")
				if n > len(e.TokenKey) {
					n = len(e.TokenKey)
				}
				e.Address, e.TokenKey = e.Address+string(e.TokenKey[:n]), e.TokenKey[n:]
			case 8:
				m.Signature, desc = vt.Mutation(rt, st.Signature, "sig")
			case 9:
				m.PublicKey, desc = vt.Mutation(rt, st.PublicKey, "key")
			case 10:
				m.PublicKey = other[32:]
			case 11:
				m.Addresses = append(m.Addresses, genList(rt, "more")...)
			}
			if eq(m.Addresses, al) && bytes.Equal(m.Signature, st.Signature) && bytes.Equal(m.PublicKey, st.PublicKey) {
				continue
			}
			c.Eval(1)
			var ok bool
			if p := vt.Try(func() { ok = m.Verify() }); p != "" {
				rt.Fatalf("kind %d %s crashes: %s", k, desc, p)
			}
			if ok && k <= 7 && bytes.Equal(image(m.Addresses), image(al)) && vt.IsKnown("KF-001") {
				c.Known("KF-001")
				c.Label("KF-001")
				continue
			}
			if ok {
				rt.Fatalf("kind %d %s: changed statement verifies (%d bytes of signature, %d of key)", k, desc, len(m.Signature), len(m.PublicKey))
			}
			c.Label("kind %d", k)
			c.NonTrivial(k, desc, len(al))
		}
	})
}

func sum(al mixaddr.AddressList) []byte { h := sha256.Sum256(image(al)); return h[:] }

// TestArbitraryStatement: statements from the network.
func TestArbitraryStatement(t *testing.T) {
	vt.Check(t, "a statement decoded from changed JSON did not verify", 3000, 60000, func(rt *rapid.T, c *vt.Case) {
		al := genList(rt, "l")
		st := al.Statement(mixkit.SigKey())
		j, err := json.Marshal(st)
		vt.InfraIf(err)
		m, desc := vt.MutateJSON(rt, j, "st")
		if rapid.Bool().Draw(rt, "raw") {
			m, desc = vt.Mutation(rt, j, "raw")
		}
		var back mixaddr.AddressStatement
		if json.Unmarshal(m, &back) != nil {
			c.Label("not JSON")
			return
		}
		var ok bool
		if p := vt.Try(func() { ok = back.Verify(); mixaddr.AddressList(nil).AddStatement(back).Rand() }); p != "" {
			rt.Fatalf("%s crashes: %s", desc, p)
		}
		same := eq(back.Addresses, al) && bytes.Equal(back.PublicKey, st.PublicKey) && bytes.Equal(back.Signature, st.Signature)
		if ok != same && !(ok && bytes.Equal(image(back.Addresses), image(al)) && !eq(back.Addresses, al) && vt.IsKnown("KF-001")) {
			rt.Fatalf("%s: verifies %v, unchanged %v", desc, ok, same)
		}
		c.Label("verifies %v", ok)
		c.NonTrivial(fmt.Sprint(desc))
	})
}
