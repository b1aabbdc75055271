// Package h02 decides property H02: key lookup accepts only chain-backed,
// server-signed keys of exactly that identity.
package h02

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"

	"verif/cekit"
	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var b64 = base64.StdEncoding

const dom = "mute.berlin"

type row struct {
	id  string
	pos int
}

type model struct {
	rt    *rapid.T
	c     *vt.Case
	u     *cekit.User
	s     *cekit.Server
	rpc   *cekit.RPC
	users map[string][]*uid.Message // genuine versions by identity
	at    map[int]*uid.Message      // genuine message by position
	bad   map[int]string            // dishonest entries
	by    map[int]string            // server key that signed a position
	keys  []*cipher.Ed25519Key      // server keys over time
	ks    int                       // position of the key server's first user ID
	local int
	rows  map[row]string // stored: JSON
	hist  []string
}

func (m *model) fail(format string, a ...interface{}) {
	m.rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(m.hist, "\n"))
}
func (m *model) log(format string, a ...interface{}) {
	m.hist = append(m.hist, fmt.Sprintf(format, a...))
}
func (m *model) n(n int, l string) int { return vt.Uniform(m.rt, n, l) }

func mk(id string) *uid.Message {
	last := hashchain.TestEntry
	if strings.HasPrefix(id, "keyserver@") {
		last = ""
	}
	um, err := uid.Create(id, false, "", "", uid.Strict, last, cipher.RandReader)
	vt.InfraIf(err)
	return um
}

func (m *model) id(pos int) string {
	if um := m.at[pos]; um != nil {
		return um.Identity()
	}
	return ""
}

// stored reads all stored public user IDs.
func (m *model) stored() map[row]string {
	db, err := encdb.Open(m.u.DB(), []byte(m.u.Pass))
	vt.InfraIf(err)
	defer db.Close()
	rs, err := db.Query("SELECT IDENTITY, POSITION, UIDMessage FROM PublicUIDs;")
	vt.InfraIf(err)
	defer rs.Close()
	out := map[row]string{}
	for rs.Next() {
		var r row
		var js string
		vt.InfraIf(rs.Scan(&r.id, &r.pos, &js))
		if _, dup := out[r]; dup {
			m.fail("%v stored twice", r)
		}
		out[r] = js
	}
	vt.InfraIf(rs.Err())
	return out
}

// accept checks that everything stored since the last call is genuine and
// allowed.
func (m *model) accept(id string, allowed func(pos int) bool) {
	now := m.stored()
	for r, js := range m.rows {
		if now[r] != js {
			m.fail("stored user ID of %v changed or vanished", r)
		}
	}
	for r, js := range now {
		if m.rows[r] != "" {
			continue
		}
		um := m.at[r.pos]
		switch {
		case r.pos >= m.local:
			m.fail("stored %v beyond the chain (%d)", r, m.local)
		case um == nil || um.Identity() != r.id || r.id != id:
			m.fail("stored %v while looking for %s: chain entry is for %q (%s)", r, id, m.id(r.pos), m.bad[r.pos])
		case string(um.JSON()) != js:
			m.fail("stored a user ID message for %v that is not the one of the chain", r)
		case !allowed(r.pos):
			m.fail("stored %v from a bad reply", r)
		}
	}
	m.rows = now
}

// want returns the genuine positions of an identity in the local chain.
func (m *model) want(id string) (pos []int) {
	for p := 0; p < m.local; p++ {
		if m.at[p] != nil && m.at[p].Identity() == id {
			pos = append(pos, p)
		}
	}
	return
}

// anyEntry tells whether the local chain has an entry for the identity.
func (m *model) badEntries(id string) (pos []int) {
	for p, w := range m.bad {
		if p < m.local && strings.HasPrefix(w, id+" ") {
			pos = append(pos, p)
		}
	}
	return
}

// add appends a genuine or dishonest entry.
func (m *model) add(um *uid.Message, key *cipher.Ed25519Key) int {
	old := m.s.Key
	m.s.Key = key
	p := m.s.Add(um)
	m.by[p] = m.s.PubKey()
	m.s.Key = old
	return p
}

var idents = []string{"alice@" + dom, "bob@" + dom, "aloce@" + dom, "keyserver@" + dom}

func variant(rt *rapid.T, id string) string {
	switch vt.Uniform(rt, 4, "variant") {
	case 0:
		return strings.ToUpper(id)
	case 1:
		return strings.Replace(id, "o", "0", 1)
	default:
		return id
	}
}

func (m *model) grow() {
	k := m.n(13, "grow")
	last := m.s.Key
	if m.n(20, "second") == 0 {
		// a key server cannot get a new key without using its old one
		id := "keyserver@" + dom
		um := mk(id)
		key := cekit.UIDKey(um)
		if m.n(2, "foreign") == 0 {
			o, err := cipher.Ed25519Generate(cipher.RandReader)
			vt.InfraIf(err)
			key = o
		}
		p := m.add(um, key)
		m.bad[p] = id + " second first user ID"
		m.log("%d: dishonest, %s", p, m.bad[p])
		return
	}
	switch {
	case k < 7: // a user's first or next version
		id := idents[m.n(3, "user")]
		v := m.users[id]
		var um *uid.Message
		if len(v) == 0 {
			um = mk(id)
		} else {
			var err error
			um, err = v[len(v)-1].Update(cipher.RandReader)
			vt.InfraIf(err)
		}
		m.users[id] = append(v, um)
		p := m.add(um, last)
		m.at[p] = um
		m.log("%d: %s version %d", p, id, len(v))
	case k == 7: // new server key
		v := m.users["keyserver@"+dom]
		um, err := v[len(v)-1].Update(cipher.RandReader)
		vt.InfraIf(err)
		m.users["keyserver@"+dom] = append(v, um)
		p := m.add(um, last)
		m.at[p] = um
		m.s.Key = cekit.UIDKey(um)
		m.keys = append(m.keys, m.s.Key)
		m.log("%d: new server key", p)
	default: // dishonest entries for alice or bob
		id := idents[m.n(2, "victim")]
		um := mk(id)
		key := last
		var what string
		var p int
		switch k {
		case 8: // somebody else's user ID
			o := []string{"mallory@" + dom, "keyserver@" + dom, strings.Split(id, "@")[0] + "@xmute.berlin", "bob@" + dom + ".de"}[m.n(4, "other")]
			um = mk(o)
			what = "user ID of " + o
			p = m.s.AddAs(id, um)
		case 9: // broken self signature
			js := string(um.JSON())
			var err error
			switch m.n(3, "how") {
			case 0:
				o := mk(id)
				js = strings.Replace(js, um.SELFSIGNATURE, o.SELFSIGNATURE, 1)
			case 1:
				o := mk(id)
				js = strings.Replace(js, um.UIDContent.PUBKEYS[0].PUBKEY, o.UIDContent.PUBKEYS[0].PUBKEY, 1)
			default:
				js = strings.Replace(js, "\"SELFSIGNATURE\":\"", "\"SELFSIGNATURE\":\"AA", 1)
			}
			um, err = uid.NewJSON(js)
			vt.InfraIf(err)
			what = "bad self signature"
			p = m.s.AddAs(id, um)
		case 10: // wrong server key
			if len(m.keys) > 1 && m.n(2, "old") == 0 {
				// accepted as long as the newer key is not known
				key = m.keys[m.n(len(m.keys)-1, "which")]
				p = m.add(um, key)
				m.at[p] = um
				m.log("%d: %s signed with an old server key", p, id)
				return
			} else {
				o, err := cipher.Ed25519Generate(cipher.RandReader)
				vt.InfraIf(err)
				key = o
				what = "signed with a foreign key"
			}
			p = m.add(um, key)
		case 11: // the hash in the entry does not belong to the message
			o := mk(id)
			hash, _, _ := o.Encrypt()
			_, idx, _ := um.Encrypt()
			p = m.s.AddAs(id, um)
			m.s.Chain[p] = cekit.Entry(cekit.Prev(m.s.Chain, p), id, hash, idx)
			what = "hash of another message"
		default: // the index in the entry does not belong to the message
			hash, idx, enc := um.Encrypt()
			p = m.s.AddAs(id, um)
			idx = append([]byte(nil), idx...)
			idx[m.n(32, "byte")] ^= 1
			m.s.Chain[p] = cekit.Entry(cekit.Prev(m.s.Chain, p), id, hash, idx)
			i := b64.EncodeToString(idx)
			m.s.Index[p] = i
			m.s.Replies[i] = uid.CreateReply(enc, m.s.Chain[p], uint64(p), m.s.Key)
			m.s.UIDs[i] = um
			what = "another index"
		}
		m.bad[p] = id + " " + what
		m.log("%d: dishonest, %s: %s", p, id, what)
	}
}

func (m *model) sync() {
	r := m.u.Run("hashchain", "sync", "--domain", dom)
	if r.Err != nil || r.Panic != "" {
		m.fail("sync: %v %s", r.Err, r.Panic)
	}
	m.local = len(m.s.Chain)
	m.log("synced to %d", m.local)
}

// lookups make the server answer LookupUID by the chain, including dishonest
// entries.
func (m *model) positions(id string) []int {
	p := append(m.want(id), m.badEntries(id)...)
	sort.Ints(p)
	return p
}

func (m *model) handle(method string, p cekit.M) (cekit.M, error) {
	if method == "KeyHashchain.LookupUID" {
		id, _ := p["Identity"].(string)
		if id != strings.ToLower(id) {
			return nil, fmt.Errorf("identity not mapped: %s", id)
		}
		ps := m.positions(id)
		if len(ps) == 0 {
			return cekit.M{"HCPositions": nil}, nil
		}
		return cekit.M{"HCPositions": ps}, nil
	}
	return m.s.Handle(method, p)
}

func (m *model) command(id string) ([]string, bool) {
	cmd := []string{"lookup", "search"}[m.n(2, "cmd")]
	return []string{"hashchain", cmd, "--id", variant(m.rt, id)}, cmd == "search"
}

// needsServerKey: everything but the first user ID of the key server needs its
// key at or before the position.
func (m *model) haveKey(pos int) bool {
	for r := range m.rows {
		if r.id == "keyserver@"+dom && r.pos <= pos {
			return true
		}
	}
	return false
}

// rightKey: the reply is signed with the newest server key known at that
// position.
func (m *model) rightKey(pos int) bool {
	best := -1
	for r := range m.rows {
		if r.id == "keyserver@"+dom && r.pos <= pos && r.pos > best {
			best = r.pos
		}
	}
	return best >= 0 && m.at[best].UIDContent.SIGKEY.PUBKEY == m.by[pos]
}

// honest runs a lookup or search with a server that answers as its chain says.
func (m *model) honest(id string) {
	args, _ := m.command(id)
	m.rpc.Handle(m.handle)
	r := m.u.Run(args...)
	m.log("%s: %v", strings.Join(args, " "), r.Err)
	if r.Panic != "" {
		m.fail("%s: %s", args, r.Panic)
	}
	// expected: positions in order until the first that must be refused
	ok := len(m.positions(id)) > 0
	var good []int
	for _, p := range m.positions(id) {
		if m.rows[row{id, p}] != "" {
			good = append(good, p)
			continue
		}
		first := id == "keyserver@"+dom && p == m.ks
		if m.bad[p] != "" || !first && (!m.haveKey(p) || !m.rightKey(p)) {
			ok = false
			break
		}
		m.rows[row{id, p}] = string(m.at[p].JSON())
		good = append(good, p)
	}
	want := m.rows
	now := m.stored()
	m.rows = map[row]string{}
	for r, js := range now {
		if want[r] == js {
			m.rows[r] = js
		}
	}
	m.accept(id, func(int) bool { return true })
	if len(now) != len(want) {
		m.fail("%s stored %d user IDs in total, want %d: %v", args, len(now), len(want), want)
	}
	if ok != (r.Err == nil) {
		m.fail("%s: %v, want success %v", args, r.Err, ok)
	}
	if ok {
		db := m.u.Open()
		um, pos, found, err := db.GetPublicUID(id, 1<<62)
		vt.InfraIf(db.Close())
		l := good[len(good)-1]
		if err != nil || !found || int(pos) != l || !bytes.Equal(um.JSON(), m.at[l].JSON()) {
			m.fail("latest user ID of %s at %d (%v %v), want %d", id, pos, found, err, l)
		}
	}
	so := m.u.Run("hashchain", "search", "--search-only", "--id", id)
	if so.Panic != "" || (so.Err == nil) != (len(m.positions(id)) > 0) {
		m.fail("search-only %s: %v %s", id, so.Err, so.Panic)
	}
	m.c.Eval(1)
	m.c.Label("honest:%v", ok)
	m.c.NonTrivial("honest", id, ok, len(good), m.local)
}

// tampered runs a lookup or search whose replies for the first not yet stored
// position are tampered with.
func (m *model) tampered(id string) {
	args, search := m.command(id)
	var missing []int
	for _, p := range m.positions(id) {
		if m.rows[row{id, p}] == "" {
			missing = append(missing, p)
		}
	}
	if len(missing) == 0 {
		return
	}
	target := m.s.Index[missing[0]]
	what := ""
	set := func(method string, f func(cekit.M) (cekit.M, error)) {
		m.rpc.Handle(func(me string, p cekit.M) (cekit.M, error) {
			r, err := m.handle(me, p)
			if me == method && err == nil && (me != "KeyRepository.FetchUID" || p["UIDIndex"] == target) {
				js, _ := json.Marshal(r)
				r = nil
				vt.InfraIf(json.Unmarshal(js, &r))
				return f(r)
			}
			return r, err
		})
	}
	rep := func(f func(rep, entry cekit.M)) {
		set("KeyRepository.FetchUID", func(r cekit.M) (cekit.M, error) {
			x := r["UIDMessageReply"].(cekit.M)
			f(x, x["ENTRY"].(cekit.M))
			return r, nil
		})
	}
	flip := func(s string, l string) string {
		raw, err := b64.DecodeString(s)
		vt.InfraIf(err)
		raw[m.n(len(raw), l)] ^= 1 << uint(m.n(8, l+" bit"))
		return b64.EncodeToString(raw)
	}
	exempt := id == "keyserver@"+dom && missing[0] == m.ks
	k := m.n(12, "tamper")
	if search && (k == 9 || k == 10) {
		k -= 3
	}
	bogus := []interface{}{nil, 1, true, "x", "", []interface{}{1}, cekit.M{}}
	switch k {
	case 0, 1: // the reply for another entry
		var o []string
		for i := range m.s.Replies {
			if i != target {
				o = append(o, i)
			}
		}
		sort.Strings(o)
		if len(o) == 0 {
			return
		}
		other := m.s.Replies[o[m.n(len(o), "other")]]
		part := m.n(3, "part")
		if part == 2 && exempt {
			part = 0
		}
		rep(func(r, e cekit.M) {
			switch part {
			case 0:
				var x cekit.M
				vt.InfraIf(json.Unmarshal(other.JSON(), &x))
				r["ENTRY"], r["SERVERSIGNATURE"] = x["ENTRY"], x["SERVERSIGNATURE"]
			case 1:
				e["UIDMESSAGEENCRYPTED"] = other.ENTRY.UIDMESSAGEENCRYPTED
			default:
				r["SERVERSIGNATURE"] = other.SERVERSIGNATURE
			}
		})
		what = fmt.Sprintf("reply part %d of another entry", part)
	case 2: // altered message
		orig := m.s.Replies[target].ENTRY.UIDMESSAGEENCRYPTED
		v := flip(orig, "enc")
		if m.n(4, "cut") == 0 {
			raw, _ := b64.DecodeString(orig)
			v = b64.EncodeToString(raw[:m.n(len(raw), "len")])
		}
		rep(func(r, e cekit.M) { e["UIDMESSAGEENCRYPTED"] = v })
		what = "altered message"
	case 3: // altered entry data
		if exempt {
			return
		}
		if m.n(2, "field") == 0 {
			rep(func(r, e cekit.M) { e["HASHCHAINPOS"] = e["HASHCHAINPOS"].(float64) + 1 })
			what = "altered position"
		} else {
			v := m.s.Chain[m.n(len(m.s.Chain), "entry")]
			if v == m.s.Replies[target].ENTRY.HASHCHAINENTRY {
				return
			}
			rep(func(r, e cekit.M) { e["HASHCHAINENTRY"] = v })
			what = "altered chain entry"
		}
	case 4: // altered signature
		if exempt {
			return
		}
		v := flip(m.s.Replies[target].SERVERSIGNATURE, "sig")
		rep(func(r, e cekit.M) { r["SERVERSIGNATURE"] = v })
		what = "altered signature"
	case 5: // resigned by somebody else
		if exempt {
			return
		}
		var key *cipher.Ed25519Key
		if m.n(2, "uidkey") == 0 && m.at[missing[0]] != nil {
			key = cekit.UIDKey(m.at[missing[0]])
			what = "signed by the user's own key"
		} else {
			var err error
			key, err = cipher.Ed25519Generate(cipher.RandReader)
			vt.InfraIf(err)
			what = "signed by a foreign key"
		}
		en := m.s.Replies[target].ENTRY
		v := uid.CreateReply(en.UIDMESSAGEENCRYPTED, en.HASHCHAINENTRY, en.HASHCHAINPOS, key).SERVERSIGNATURE
		rep(func(r, e cekit.M) { r["SERVERSIGNATURE"] = v })
	case 6: // wrong types
		part := []string{"UIDMessageReply", "ENTRY", "SERVERSIGNATURE", "UIDMESSAGEENCRYPTED", "HASHCHAINENTRY", "HASHCHAINPOS"}[m.n(6, "part")]
		v := bogus[m.n(len(bogus), "bogus")]
		_, isS := v.(string)
		_, isN := v.(int)
		if exempt && (isS && (part == "SERVERSIGNATURE" || part == "HASHCHAINENTRY") || isN && part == "HASHCHAINPOS") {
			return
		}
		if isN && part == "HASHCHAINPOS" && missing[0] == 1 {
			return
		}
		set("KeyRepository.FetchUID", func(r cekit.M) (cekit.M, error) {
			x := r["UIDMessageReply"].(cekit.M)
			e := x["ENTRY"].(cekit.M)
			switch part {
			case "UIDMessageReply":
				r[part] = v
			case "ENTRY", "SERVERSIGNATURE":
				x[part] = v
			default:
				e[part] = v
			}
			return r, nil
		})
		what = fmt.Sprintf("%s = %v", part, v)
	case 7: // failing call
		set("KeyRepository.FetchUID", func(cekit.M) (cekit.M, error) { return nil, fmt.Errorf("refused") })
		what = "FetchUID refused"
	case 8:
		h := m.n(3, "http")
		m.rpc.Handle(m.handle)
		m.rpc.Raw(func(me string, w http.ResponseWriter) bool {
			if me != "KeyRepository.FetchUID" {
				return false
			}
			switch h {
			case 0:
				w.WriteHeader(500)
			case 1:
				w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":null}`))
			default:
				w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":{"UIDMessageReply":{"ENTRY":`))
			}
			return true
		})
		what = fmt.Sprintf("FetchUID HTTP %d", h)
	case 9: // positions that do not match
		var cand []interface{}
		for p := 0; p < m.local; p++ {
			if m.id(p) != id && !strings.HasPrefix(m.bad[p], id+" ") {
				cand = append(cand, p)
			}
		}
		cand = append(cand, m.local, m.local+7, 1e18, 1e300, -1)
		v := cand[m.n(len(cand), "pos")]
		keep := m.n(2, "keep") == 0
		set("KeyHashchain.LookupUID", func(r cekit.M) (cekit.M, error) {
			if keep {
				r["HCPositions"] = append([]interface{}{v}, r["HCPositions"].([]interface{})...)
			} else {
				r["HCPositions"] = []interface{}{v}
			}
			return r, nil
		})
		what = fmt.Sprintf("bogus position %v, others kept %v", v, keep)
	case 11: // another user ID under the key of the entry, properly signed
		old := m.s.UIDs[target]
		hash, idx, _ := old.Encrypt()
		o := mk(id)
		enc := b64.EncodeToString(append(append([]byte(nil), idx...), aes256.CTREncrypt(hash, o.JSON(), cipher.RandReader)...))
		en := m.s.Replies[target].ENTRY
		key := m.s.Key
		v := uid.CreateReply(enc, en.HASHCHAINENTRY, en.HASHCHAINPOS, key)
		if exempt && m.n(2, "unsigned") == 0 {
			v.SERVERSIGNATURE = "AA=="
		}
		rep(func(r, e cekit.M) { e["UIDMESSAGEENCRYPTED"], r["SERVERSIGNATURE"] = enc, v.SERVERSIGNATURE })
		what = "another user ID"
	default:
		v := []interface{}{nil, 1, "x", []interface{}{}, []interface{}{"0"}, []interface{}{nil}, []interface{}{cekit.M{}}, cekit.M{}}[m.n(8, "bogus")]
		set("KeyHashchain.LookupUID", func(r cekit.M) (cekit.M, error) { r["HCPositions"] = v; return r, nil })
		what = fmt.Sprintf("HCPositions = %v", v)
	}
	r := m.u.Run(args...)
	m.log("%s with %s for position %d: %v", strings.Join(args, " "), what, missing[0], r.Err)
	m.rpc.Handle(m.handle)
	if r.Panic != "" {
		m.fail("%s: %s", args, r.Panic)
	}
	// without a server signature, changes that JSON decoding ignores remain
	// unnoticed; what is stored must be the genuine message nevertheless
	same := exempt && what == "altered message" && r.Err == nil
	if r.Err == nil && !same {
		m.fail("%s succeeded with %s", args, what)
	}
	m.accept(id, func(p int) bool { return p != missing[0] || k == 10 || same })
	m.c.Eval(1)
	m.c.Label("tampered")
	m.c.NonTrivial("tampered", id, what, missing[0], search)
}

func TestLookup(t *testing.T) {
	rpc := cekit.NewRPC(false)
	rule := "chains with up to four identities (two of them look-alike), their updates, server key changes and dishonest entries (foreign user ID, bad self signature, wrong server key, wrong hash or index), grown and synced in steps; lookups and searches with honest and tampered replies; all stored public user IDs compared with the genuine ones after each; non-trivial: distinct (kind, identity, tampering, position)"
	vt.CheckSteps(t, rule, 90, 2000, 10, func(rt *rapid.T, c *vt.Case) {
		m := &model{rt: rt, c: c, s: cekit.NewServer(dom), rpc: rpc, users: map[string][]*uid.Message{}, at: map[int]*uid.Message{},
			bad: map[int]string{}, by: map[int]string{}, rows: map[row]string{}}
		ks := mk("keyserver@" + dom)
		m.s.Key = cekit.UIDKey(ks)
		m.keys = append(m.keys, m.s.Key)
		if m.n(4, "filled") == 0 {
			// entries before the key server's own cannot be verified
			for f := 1 + m.n(2, "fill"); f > 0; f-- {
				id := []string{"alice@" + dom, "carol@" + dom, "dave@" + dom}[m.n(3, "filler")]
				if len(m.users[id]) > 0 {
					continue
				}
				um := mk(id)
				m.users[id] = []*uid.Message{um}
				p := m.add(um, m.s.Key)
				m.at[p] = um
				m.log("%d: %s before the key server", p, id)
			}
		}
		m.users["keyserver@"+dom] = []*uid.Message{ks}
		m.ks = m.add(ks, m.s.Key)
		m.at[m.ks] = ks
		rpc.Handle(m.handle)
		m.u = cekit.NewUser(vt.TempDir(), "pass", map[string]string{"keyserver." + dom: rpc.URL() + "/"}, nil)
		rounds := 1 + m.n(3, "rounds")
		for i := 0; i < rounds; i++ {
			for g := 1 + m.n(5, "entries"); g > 0; g-- {
				m.grow()
			}
			m.sync()
			if m.n(4, "key first") > 0 {
				m.honest("keyserver@" + dom)
			}
			for o := 2 + m.n(5, "ops"); o > 0; o-- {
				id := idents[m.n(4, "id")]
				if m.n(2, "tampered") == 0 {
					m.honest(id)
				} else {
					m.tampered(id)
				}
			}
		}
		c.Sample("%s", strings.Join(m.hist, "; "))
	})
}

var kinds = []int{0, 1, 2, 3, 4, 4, 4, 4, 5, 6, 7}

// resign signs a changed key-init message.
func resign(k *uid.KeyInit, um *uid.Message) string {
	js, err := json.Marshal(k.Contents)
	vt.InfraIf(err)
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	var x interface{}
	vt.InfraIf(d.Decode(&x))
	js, err = json.Marshal(x)
	vt.InfraIf(err)
	k.SIGNATURE = b64.EncodeToString(cekit.UIDKey(um).Sign(js))
	return string(k.JSON())
}

// TestKeyInit: a fetched key-init message is stored only if it is genuine and
// valid for the newest user ID.
func TestKeyInit(t *testing.T) {
	rpc := cekit.NewRPC(false)
	rule := "fetching a key-init message from an honest server, and replies with another user's or version's message, every JSON mutation of a genuine one, expired and empty validity periods, foreign repositories and malformed replies; non-trivial: distinct replies"
	vt.Check(t, rule, 80, 2500, func(rt *rapid.T, c *vt.Case) {
		s := cekit.NewServer(dom)
		alice, other := mk("alice@"+dom), mk("bob@"+dom)
		alice2, err := alice.Update(cipher.RandReader)
		vt.InfraIf(err)
		u := cekit.NewUser(vt.TempDir(), "pass", map[string]string{"keyserver." + dom: rpc.URL() + "/"}, nil)
		db := u.Open()
		newest := alice
		vt.InfraIf(db.AddPublicUID(alice, 3))
		if vt.Uniform(rt, 2, "updated") == 0 {
			vt.InfraIf(db.AddPublicUID(alice2, 5))
			newest = alice2
		} else {
			alice, alice2 = alice2, alice
		}
		vt.InfraIf(db.AddPublicUID(other, 4))
		vt.InfraIf(db.Close())
		now := uint64(time.Now().Unix())
		ki := func(um *uid.Message, from, to uint64, repo string) *uid.KeyInit {
			k, _, _, err := um.KeyInit(1, to, from, true, repo, "mix", "nym", cipher.RandReader)
			vt.InfraIf(err)
			return k
		}
		good := ki(newest, 0, now+3600, dom)
		var reply interface{} = string(good.JSON())
		what := "genuine"
		ok := true
		switch kinds[vt.Uniform(rt, len(kinds), "kind")] {
		case 0:
		case 1:
			reply = string(ki(other, 0, now+3600, dom).JSON())
			what, ok = "another user's", false
		case 2:
			o := alice
			if newest == alice {
				o = alice2
			}
			reply = string(ki(o, 0, now+3600, dom).JSON())
			what, ok = "another version's", false
		case 3:
			good.Contents.REPOURI = "xmute.berlin"
			reply = resign(good, newest)
			what, ok = "foreign repository", false
		case 4:
			js, d := vt.MutateJSON(rt, good.JSON(), "mut")
			if k, err := uid.NewJSONKeyInit(js); err == nil && bytes.Equal(k.JSON(), good.JSON()) {
				return
			}
			reply = string(js)
			what, ok = d, false
		case 5:
			v := []interface{}{nil, 1, cekit.M{}, []interface{}{}, "", "null", "{}", "[]", "\"x\""}[vt.Uniform(rt, 9, "bogus")]
			reply = v
			what, ok = fmt.Sprintf("KeyInit = %v", v), false
		case 6: // re-signed with wrong period
			k := ki(newest, 0, now+3600, dom)
			switch vt.Uniform(rt, 2, "period") {
			case 0:
				k.Contents.NOTAFTER = now - 10
				what = "expired"
			default:
				k.Contents.NOTBEFORE = k.Contents.NOTAFTER
				what = "empty period"
			}
			ok = false
			reply = resign(k, newest)
		default:
			what, ok = "refused", false
			reply = nil
		}
		rpc.Handle(func(me string, p cekit.M) (cekit.M, error) {
			if me == "KeyInitRepository.FetchKeyInit" {
				h, _ := newest.SigKeyHash()
				if p["SigKeyHash"] != h {
					return nil, fmt.Errorf("asked for %v", p)
				}
				if what == "refused" {
					return nil, fmt.Errorf("refused")
				}
				return cekit.M{"KeyInit": reply}, nil
			}
			return s.Handle(me, p)
		})
		r := u.Run("keyinit", "fetch", "--id", "alice@"+dom)
		if r.Panic != "" {
			rt.Fatalf("%s: %s", what, r.Panic)
		}
		if (r.Err == nil) != ok {
			rt.Fatalf("key-init message (%s): got %v, want success %v\n%v", what, r.Err, ok, reply)
		}
		e, err := encdb.Open(u.DB(), []byte(u.Pass))
		vt.InfraIf(err)
		defer e.Close()
		var n int
		vt.InfraIf(e.QueryRow("SELECT COUNT(*) FROM PublicKeyInits;").Scan(&n))
		if (n == 1) != ok || n > 1 {
			rt.Fatalf("key-init message (%s): %d stored", what, n)
		}
		c.Label("keyinit:%v", ok)
		c.NonTrivial(what, newest == alice2)
		c.Sample("%s: %v", what, r.Err)
	})
}
