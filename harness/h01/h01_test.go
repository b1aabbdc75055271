// Package h01 decides property H01: the local key hash chain grows only by
// what the server appended, and validation detects any break.
package h01

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"testing"

	"verif/cekit"
	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var b64 = base64.StdEncoding

type own struct {
	pos   uint64
	entry string
}

type domain struct {
	name  string
	srv   *cekit.Server
	rpc   *cekit.RPC
	local []string
	owns  map[string]own
}

type model struct {
	rt   *rapid.T
	c    *vt.Case
	u    *cekit.User
	d    []*domain
	hist []string
}

func (m *model) fail(format string, a ...interface{}) {
	m.rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(m.hist, "\n"))
}
func (m *model) log(format string, a ...interface{}) {
	m.hist = append(m.hist, fmt.Sprintf(format, a...))
}
func (m *model) n(n int, l string) int { return vt.Uniform(m.rt, n, l) }

// entry is a random, correctly linked entry.
func entry(prev []byte) string {
	f := make([]byte, 121)
	_, err := rand.Read(f)
	vt.InfraIf(err)
	f[0] = 1
	return b64.EncodeToString(append(cekit.Hash(f, prev), f...))
}

// valid is the reference validation of a chain.
func valid(chain []string) bool {
	prev := make([]byte, 32)
	for _, e := range chain {
		raw, err := b64.DecodeString(e)
		if err != nil || len(raw) != 153 || raw[32] != 1 || !bytes.Equal(cekit.Hash(raw[32:], prev), raw[:32]) {
			return false
		}
		prev = raw[:32]
	}
	return len(chain) > 0
}

func (d *domain) grow(n int) {
	for i := 0; i < n; i++ {
		d.srv.Chain = append(d.srv.Chain, entry(cekit.Prev(d.srv.Chain, len(d.srv.Chain))))
	}
}

// size is how many entries a server appends.
func (m *model) size(d *domain) int {
	if m.n(5, "round") == 0 { // to a round number of entries
		k := []int{4, 8, 16, 32, 10, 20}[m.n(6, "multiple")]
		return k - len(d.srv.Chain)%k
	}
	if m.n(6, "long") == 0 {
		return 1 + m.n(70, "grow")
	}
	return 1 + m.n(6, "grow")
}

func (m *model) stored(d *domain) []string {
	r := m.u.Run("hashchain", "show", "--domain", d.name)
	if r.Panic != "" {
		m.fail("show: %s", r.Panic)
	}
	if r.Err != nil {
		if len(r.Out) != 0 {
			m.fail("show: %v with output %s", r.Err, r.Out)
		}
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(r.Out), "\n"), "\n")
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *model) check() {
	for _, d := range m.d {
		if got := m.stored(d); !same(got, d.local) {
			m.fail("domain %s: stored %d entries, want %d:\n%s\nwant:\n%s", d.name, len(got), len(d.local), strings.Join(got, "\n"), strings.Join(d.local, "\n"))
		}
	}
}

func (m *model) sync(d *domain) error {
	r := m.u.Run("hashchain", "sync", "--domain", d.name)
	if r.Panic != "" {
		m.fail("sync panicked: %s", r.Panic)
	}
	return r.Err
}

var bogus = []interface{}{nil, true, 7, "x", []interface{}{}, cekit.M{}, -1, 1.5, "0"}

// malformed applies one change that makes a reply malformed or incomplete; it
// returns what was done, or "" if not applicable.
func (m *model) malformed(d *domain) (string, bool) {
	h := d.srv.Handle
	n := len(d.srv.Chain) - len(d.local) // missing entries
	last, chain, caps := "KeyHashchain.FetchLastHashChain", "KeyHashchain.FetchHashChain", "KeyRepository.Capabilities"
	at := func(method string, f func(cekit.M) (cekit.M, error)) {
		d.rpc.Handle(func(me string, p cekit.M) (cekit.M, error) {
			r, err := h(me, p)
			if me == method && err == nil {
				js, _ := json.Marshal(r)
				r = nil
				vt.InfraIf(json.Unmarshal(js, &r))
				return f(r)
			}
			return r, err
		})
	}
	methods := []string{last, chain, caps}
	me := methods[m.n(3, "method")]
	switch m.n(9, "malformed") {
	case 0: // failing call
		at(me, func(cekit.M) (cekit.M, error) { return nil, fmt.Errorf("refused") })
		return me + " fails", true
	case 1: // HTTP level
		k := m.n(6, "http")
		d.rpc.Handle(h)
		d.rpc.Raw(func(x string, w http.ResponseWriter) bool {
			if x != me {
				return false
			}
			switch k {
			case 0:
				w.WriteHeader(500)
			case 1:
				w.Write([]byte("not json"))
			case 2:
				w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":null}`))
			case 3:
				w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":[1]}`))
			case 4:
				w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":{"HCEntries":["`))
			case 5:
				if hj, ok := w.(http.Hijacker); ok {
					if c, _, err := hj.Hijack(); err == nil {
						c.Close()
					}
				}
			}
			return true
		})
		return fmt.Sprintf("%s HTTP %d", me, k), true
	case 2: // part missing
		key := []string{"HCEntry", "HCPos", "HCEntries", "HCFirstPos", "CAPABILITIES"}[m.n(5, "part")]
		me := map[string]string{"HCEntry": last, "HCPos": last, "HCEntries": chain, "HCFirstPos": chain, "CAPABILITIES": caps}[key]
		at(me, func(r cekit.M) (cekit.M, error) { delete(r, key); return r, nil })
		return key + " missing", true
	case 3: // wrong type
		key := []string{"HCEntry", "HCPos", "HCEntries", "HCFirstPos", "CAPABILITIES"}[m.n(5, "part")]
		me := map[string]string{"HCEntry": last, "HCPos": last, "HCEntries": chain, "HCFirstPos": chain, "CAPABILITIES": caps}[key]
		good := map[string]string{"HCEntry": "string", "HCPos": "float64", "HCEntries": "[]interface {}", "HCFirstPos": "float64", "CAPABILITIES": "map[string]interface {}"}[key]
		v := bogus[m.n(len(bogus), "bogus")]
		js, _ := json.Marshal(v)
		var w interface{}
		vt.InfraIf(json.Unmarshal(js, &w))
		if fmt.Sprintf("%T", w) == good && key != "CAPABILITIES" {
			return "", false
		}
		if _, ok := w.(map[string]interface{}); ok && key == "CAPABILITIES" {
			// no methods
		}
		at(me, func(r cekit.M) (cekit.M, error) { r[key] = v; return r, nil })
		return fmt.Sprintf("%s = %s", key, js), true
	case 4: // short
		k := 1 + m.n(n, "drop")
		front := m.n(2, "front") == 0
		at(chain, func(r cekit.M) (cekit.M, error) {
			e := r["HCEntries"].([]interface{})
			if front {
				r["HCEntries"] = e[k:]
			} else {
				r["HCEntries"] = e[:len(e)-k]
			}
			return r, nil
		})
		return fmt.Sprintf("%d of %d entries dropped, front %v", k, n, front), true
	case 5: // not starting right after the stored ones
		cand := []float64{float64(len(d.local)) + 1, float64(len(d.srv.Chain)), 1e6, 1e19, 1e300, -1, float64(len(d.local)) - 1, 0}
		f := cand[m.n(len(cand), "first")]
		if f == float64(len(d.local)) {
			return "", false
		}
		full := m.n(2, "full") == 0
		at(chain, func(r cekit.M) (cekit.M, error) {
			r["HCFirstPos"] = f
			if full { // as many entries as that range would have
				var e []interface{}
				for _, x := range d.srv.Chain {
					e = append(e, x)
				}
				for len(e) < 8 {
					e = append(e, entry(make([]byte, 32)))
				}
				r["HCEntries"] = e
			}
			return r, nil
		})
		return fmt.Sprintf("HCFirstPos %v, full %v", f, full), true
	case 6: // an entry of wrong type
		i := m.n(n, "at")
		v := []interface{}{nil, 1, true, []string{"x"}, cekit.M{"a": 1}}[m.n(5, "entry")]
		at(chain, func(r cekit.M) (cekit.M, error) { r["HCEntries"].([]interface{})[i] = v; return r, nil })
		return fmt.Sprintf("entry %d = %v", i, v), true
	case 7: // last position that the server cannot back
		cand := []float64{float64(len(d.srv.Chain)), float64(len(d.srv.Chain)) + 5, 1e6, 1e9, 1e18, 1e300, -1}
		f := cand[m.n(len(cand), "last")]
		at(last, func(r cekit.M) (cekit.M, error) { r["HCPos"] = f; return r, nil })
		d2 := d.rpc
		k := m.n(2, "how")
		prev := d.srv.Handle
		d2.Handle(func(x string, p cekit.M) (cekit.M, error) {
			r, err := prev(x, p)
			if x == last && err == nil {
				r["HCPos"] = f
			}
			if x == chain && k == 0 { // what it has
				return cekit.M{"HCEntries": d.srv.Chain[len(d.local):], "HCFirstPos": len(d.local)}, nil
			}
			return r, err
		})
		return fmt.Sprintf("HCPos %v", f), true
	default: // unsupported method
		drop := []string{last, chain}[m.n(2, "drop")]
		at(caps, func(r cekit.M) (cekit.M, error) {
			var ms []string
			for _, x := range cekit.Methods {
				if x != drop {
					ms = append(ms, x)
				}
			}
			r["CAPABILITIES"].(cekit.M)["METHODS"] = ms
			return r, nil
		})
		return drop + " not supported", true
	}
}

// tamper returns entries to deliver instead of the missing ones.
func (m *model) tamper(d *domain) ([]string, string) {
	miss := append([]string(nil), d.srv.Chain[len(d.local):]...)
	i := m.n(len(miss), "at")
	flip := func(e string, at int) string {
		raw, err := b64.DecodeString(e)
		vt.InfraIf(err)
		raw[at] ^= 1 << uint(m.n(8, "bit"))
		return b64.EncodeToString(raw)
	}
	k := m.n(8, "tamper")
	switch k {
	case 0:
		at := m.n(153, "byte")
		miss[i] = flip(miss[i], at)
		return miss, fmt.Sprintf("flip byte %d of entry %d", at, i)
	case 1:
		j := m.n(len(miss), "other")
		miss[i], miss[j] = miss[j], miss[i]
		return miss, fmt.Sprintf("swap %d %d", i, j)
	case 2:
		miss[i] = miss[m.n(len(miss), "other")]
		return miss, "repeat an entry"
	case 3:
		o := m.d[m.n(len(m.d), "domain")]
		if len(o.srv.Chain) > 0 {
			miss[i] = o.srv.Chain[m.n(len(o.srv.Chain), "foreign")]
		}
		return miss, "an entry of domain " + o.name
	case 4: // relink everything from i on after changing one field
		prev := cekit.Prev(append(append([]string(nil), d.local...), miss...), len(d.local)+i)
		for ; i < len(miss); i++ {
			miss[i] = entry(prev)
			raw, _ := b64.DecodeString(miss[i])
			prev = raw[:32]
		}
		return miss, "another branch, correctly linked"
	case 5: // chain starting anew
		prev := make([]byte, 32)
		for i := range miss {
			miss[i] = entry(prev)
			raw, _ := b64.DecodeString(miss[i])
			prev = raw[:32]
		}
		return miss, "a chain starting anew"
	case 6:
		raw, _ := b64.DecodeString(miss[i])
		v := [][]byte{raw[:152], append(raw, 0), {}, raw[:32]}[m.n(4, "len")]
		miss[i] = b64.EncodeToString(v)
		return miss, fmt.Sprintf("entry of length %d", len(v))
	default:
		raw, _ := b64.DecodeString(miss[i])
		f := raw[32:]
		f[0] = byte(m.n(255, "type") + 2)
		p := cekit.Prev(append(append([]string(nil), d.local...), miss...), len(d.local)+i)
		miss[i] = b64.EncodeToString(append(cekit.Hash(f, p), f...))
		return miss, fmt.Sprintf("type %d", f[0])
	}
}

func (m *model) honest(d *domain) { d.rpc.Handle(d.srv.Handle) }

func (m *model) validate(d *domain) {
	want := valid(d.local)
	why := "chain"
	for id, o := range d.owns {
		if o.pos < uint64(len(d.local)) && d.local[o.pos] != o.entry {
			want = false
			why = "own " + id
		}
	}
	r := m.u.Run("hashchain", "validate", "--domain", d.name)
	if r.Panic != "" {
		m.fail("validate: %s", r.Panic)
	}
	if (r.Err == nil) != want {
		m.fail("validate %s: got %v, want valid %v (%s)", d.name, r.Err, want, why)
	}
	m.c.Eval(1)
	m.c.Label("validate:%v", want)
}

// inject makes storing the entry at a position fail.
func (m *model) inject(on bool, dom string, pos int) {
	db, err := encdb.Open(m.u.DB(), []byte(m.u.Pass))
	vt.InfraIf(err)
	defer db.Close()
	q := "DROP TRIGGER verif_fault;"
	if on {
		q = fmt.Sprintf("CREATE TRIGGER verif_fault BEFORE INSERT ON Hashchains WHEN NEW.Position=%d AND NEW.Domain='%s' BEGIN SELECT RAISE(ABORT,'injected'); END;", pos, dom)
	}
	_, err = db.Exec(q)
	vt.InfraIf(err)
}

func TestChain(t *testing.T) {
	rpcs := []*cekit.RPC{cekit.NewRPC(false), cekit.NewRPC(false), cekit.NewRPC(true)}
	rule := "histories of 10 to 25 steps over three domains: growing server chains, honest syncs, syncs with malformed, incomplete or tampered replies, storage failures, rewound and rewritten servers, own user IDs, validation and deletion; after every step all stored chains are compared with the model; non-trivial: distinct (step kind, detail) pairs"
	vt.CheckSteps(t, rule, 60, 1500, 10, func(rt *rapid.T, c *vt.Case) {
		m := &model{rt: rt, c: c}
		names := []string{"mute.berlin", "mute.one", "xmute.berlin"}
		cfg := map[string]string{}
		for i, n := range names {
			d := &domain{name: n, srv: cekit.NewServer(n), rpc: rpcs[i], owns: map[string]own{}}
			m.honest(d)
			m.d = append(m.d, d)
			cfg["keyserver."+n] = rpcs[i].URL() + "/"
		}
		m.u = cekit.NewUser(vt.TempDir(), "pass", cfg, rpcs[2].Cert())
		steps := 10 + m.n(16, "steps")
		for s := 0; s < steps; s++ {
			d := m.d[m.n(3, "domain")]
			op := m.n(12, "op")
			if len(d.srv.Chain) == len(d.local) && op >= 2 && op <= 7 {
				d.grow(m.size(d))
				m.log("%s: server has %d entries", d.name, len(d.srv.Chain))
			}
			switch op {
			case 0, 1: // honest
				if n := m.size(d); n > 1 && m.n(3, "less") == 0 {
					d.grow(n - 1)
				} else {
					d.grow(n)
				}
				m.honest(d)
				err := m.sync(d)
				m.log("%s: honest sync to %d: %v", d.name, len(d.srv.Chain), err)
				if len(d.srv.Chain) == 0 {
					if err == nil {
						m.fail("sync with a server without entries succeeded")
					}
					break
				}
				if err != nil {
					m.fail("honest sync failed: %v", err)
				}
				c.NonTrivial("honest", len(d.srv.Chain)-len(d.local), len(d.local))
				d.local = append([]string(nil), d.srv.Chain...)
			case 2, 3, 4:
				what, ok := m.malformed(d)
				if !ok {
					m.honest(d)
					continue
				}
				err := m.sync(d)
				m.log("%s: malformed (%s): %v", d.name, what, err)
				m.honest(d)
				if err == nil {
					m.fail("malformed reply accepted: %s", what)
				}
				c.NonTrivial("malformed", what)
				c.Label("malformed")
			case 5, 6: // tampered content
				l, what := m.tamper(d)
				srv := *d.srv
				d.rpc.Handle(func(me string, p cekit.M) (cekit.M, error) {
					if me == "KeyHashchain.FetchHashChain" {
						return cekit.M{"HCEntries": l, "HCFirstPos": len(d.local)}, nil
					}
					return srv.Handle(me, p)
				})
				err := m.sync(d)
				m.log("%s: tampered (%s): %v", d.name, what, err)
				m.honest(d)
				if err == nil {
					d.local = append(append([]string(nil), d.local...), l...)
				}
				m.validate(d)
				if !valid(d.local) && len(d.local) > 0 { // start over
					m.check()
					m.log("%s: delete", d.name)
					r := m.u.Run("hashchain", "delete", "--domain", d.name)
					if r.Err != nil || r.Panic != "" {
						m.fail("delete: %v %s", r.Err, r.Panic)
					}
					d.local = nil
				} else {
					d.srv.Chain = append([]string(nil), d.local...)
				}
				c.NonTrivial("tampered", what)
				c.Label("tampered")
			case 7: // storage failure
				at := len(d.local) + m.n(len(d.srv.Chain)-len(d.local), "fault")
				m.honest(d)
				m.inject(true, d.name, at)
				err := m.sync(d)
				m.inject(false, "", 0)
				m.log("%s: sync with failing position %d: %v", d.name, at, err)
				if err == nil {
					m.fail("failure to store position %d not reported", at)
				}
				got := m.stored(d)
				if len(got) > at || len(got) < len(d.local) || !same(got, d.srv.Chain[:len(got)]) {
					m.fail("after a failure to store position %d: %d entries of %d", at, len(got), len(d.srv.Chain))
				}
				d.local = append([]string(nil), d.srv.Chain[:len(got)]...)
				c.NonTrivial("fault", at, len(got))
				c.Label("fault")
			case 8: // rewound or equal server
				if len(d.local) == 0 {
					continue
				}
				k := 1 + m.n(len(d.local), "rewind")
				srv := *d.srv
				srv.Chain = srv.Chain[:k]
				d.rpc.Handle(srv.Handle)
				err := m.sync(d)
				m.log("%s: rewound to %d: %v", d.name, k, err)
				m.honest(d)
				c.NonTrivial("rewound", k)
			case 9: // own user ID
				id := fmt.Sprintf("user%c@%s", "abc"[len(d.owns)%3], d.name)
				if len(d.owns) >= 3 {
					continue
				}
				um, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
				vt.InfraIf(err)
				o := own{pos: uint64(m.n(len(d.local)+4, "pos"))}
				ok := m.n(3, "match") > 0
				for uint64(len(d.srv.Chain)) <= o.pos {
					d.grow(1)
				}
				o.entry = d.srv.Chain[o.pos]
				if !ok {
					o.entry = entry(make([]byte, 32))
				}
				k, err := cipher.Ed25519Generate(cipher.RandReader)
				vt.InfraIf(err)
				_, _, enc := um.Encrypt()
				db := m.u.Open()
				vt.InfraIf(db.AddPrivateUID(um))
				vt.InfraIf(db.AddPrivateUIDReply(um, uid.CreateReply(enc, o.entry, o.pos, k)))
				vt.InfraIf(db.Close())
				d.owns[id] = o
				m.log("%s: own %s at %d, genuine %v", d.name, id, o.pos, ok)
				m.validate(d)
				if !ok {
					db := m.u.Open()
					vt.InfraIf(db.DelPrivateUID(um))
					vt.InfraIf(db.Close())
					delete(d.owns, id)
				}
				c.NonTrivial("own", o.pos, ok, len(d.local))
				c.Label("own")
			case 10:
				m.log("%s: validate", d.name)
				m.validate(d)
			default:
				if m.n(2, "really") == 0 {
					continue
				}
				r := m.u.Run("hashchain", "delete", "--domain", d.name)
				m.log("%s: delete: %v", d.name, r.Err)
				if r.Panic != "" {
					m.fail("delete: %s", r.Panic)
				}
				d.local = nil
			}
			m.check()
		}
		var l []int
		for _, d := range m.d {
			l = append(l, len(d.local))
		}
		sort.Ints(l)
		c.Sample("%s", strings.Join(m.hist, "; "))
	})
}
