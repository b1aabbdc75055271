// Package d03 decides property D03: the key database returns exactly what was
// stored, per key.
package d03

import (
	"database/sql"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// pool holds the messages the histories store; making them is slow.
type owner struct {
	id    string
	uids  []*uid.Message // by MSGCOUNT
	reply []*uid.MessageReply
	kis   []ki // of the first uid
}
type ki struct {
	ki         *uid.KeyInit
	hash, priv string
}

var (
	owners   []*owner
	keys     []*uid.KeyEntry
	identies = []string{"alice@mute.berlin", "alice@mute.ber", "bob@mute.berlin", "bob@gmail.com", "alice@mute_berlin"}
)

func init() {
	srv, err := cipher.Ed25519Generate(cipher.RandReader)
	vt.InfraIf(err)
	now := uint64(times.Now())
	for _, id := range identies {
		o := &owner{id: id}
		m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
		vt.InfraIf(err)
		for i := 0; i < 4; i++ {
			o.uids = append(o.uids, m)
			_, _, enc := m.Encrypt()
			o.reply = append(o.reply, uid.CreateReply(enc, hashchain.TestEntry, uint64(i), srv), uid.CreateReply(enc, "other", uint64(i), srv))
			k, h, p, err := o.uids[0].KeyInit(uint64(i), now+times.Day, now-times.Day, false, m.UIDContent.REPOURIS[0], "mix@mute.berlin", "nym", cipher.RandReader)
			vt.InfraIf(err)
			o.kis = append(o.kis, ki{k, h, p})
			m, err = m.Update(cipher.RandReader)
			vt.InfraIf(err)
		}
		owners = append(owners, o)
	}
	for i := 0; i < 6; i++ {
		var ke uid.KeyEntry
		vt.InfraIf(ke.InitDHKey(cipher.RandReader))
		keys = append(keys, &ke)
	}
}

type privUID struct {
	o     *owner
	n     int
	reply *uid.MessageReply
}
type pubUID struct {
	o   *owner
	n   int
	pos uint64
}
type sess struct {
	root, chain string
	num         uint64
	keys        map[string]string // "direction index"
}
type skey struct{ json, priv string }

type model struct {
	rt     *rapid.T
	c      *vt.Case
	path   string
	pass   []byte
	db     *keydb.KeyDB
	hist   []string
	seq    int
	faulty bool
	done   map[string]int
	kv     map[string]string
	priv   []*privUID
	pub    []*pubUID
	privKI map[string]ki
	sigs   map[string]string // server signatures of privKI
	pubKI  map[int][]ki
	sess   map[string]*sess
	states map[string]*session.State
	skeys  map[string]*skey
	chains map[string][]string
}

const faultText = "injected fault"

var errFault = errors.New(faultText)

func (m *model) open() {
	var err error
	if m.db, err = keydb.Open(m.path, m.pass); err != nil {
		m.fail("Open: %v", err)
	}
}

func (m *model) fail(format string, a ...interface{}) {
	m.rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(m.hist, "\n"))
}

func (m *model) log(format string, a ...interface{}) {
	m.hist = append(m.hist, fmt.Sprintf(format, a...))
}

func (m *model) must(err error, what string) {
	if err != nil {
		if m.faulty && strings.Contains(err.Error(), faultText) {
			panic(errFault)
		}
		m.fail("%s: %v", what, err)
	}
}

func (m *model) mustNot(err error, what string) {
	if err == nil {
		m.fail("%s succeeded", what)
	}
}

func (m *model) u(n int, label string) int { return vt.Uniform(m.rt, n, label) }

func (m *model) text(label string) string {
	m.seq++
	s := []string{"v", "{\"a\":1}", "a\x00b", "ü\xff", "'; DROP TABLE Sessions; --", strings.Repeat("long", 3000), "%_", " x "}[m.u(8, label)]
	return s + fmt.Sprint(m.seq)
}

var sessKeys = []string{"s1", "s2", "S1", "s%", "s1\x00x"}
var domains = []string{"mute.berlin", "MUTE.berlin", "mute.ber", "gmail.com", "GMAIL.COM", "mute_berlin", "%"}
var values = []string{"k", "K", "k%", "Version2"}

func (m *model) apply(op string) bool {
	db := m.db
	switch op {
	case "value":
		k, v := values[m.u(len(values), "key")], m.text("value")
		m.log("AddValue %q %.20q", k, v)
		m.must(db.AddValue(k, v), "AddValue")
		m.kv[k] = v
	case "addUID":
		o := owners[m.u(len(owners), "owner")]
		n := m.u(len(o.uids), "n")
		for _, p := range m.priv {
			if p.o == o && p.n == n {
				return false
			}
		}
		m.log("AddPrivateUID %s count %d", o.id, n)
		m.must(db.AddPrivateUID(o.uids[n]), "AddPrivateUID")
		m.priv = append(m.priv, &privUID{o: o, n: n})
	case "reply":
		o := owners[m.u(len(owners), "owner")]
		n := m.u(len(o.uids), "n")
		r := o.reply[2*n+m.u(2, "which")]
		m.log("AddPrivateUIDReply %s count %d", o.id, n)
		m.must(db.AddPrivateUIDReply(o.uids[n], r), "AddPrivateUIDReply")
		eff := false
		for _, p := range m.priv {
			if p.o == o && p.n == n {
				p.reply = r
				eff = true
			}
		}
		return eff
	case "delUID":
		o := owners[m.u(len(owners), "owner")]
		n := m.u(len(o.uids), "n")
		if len(m.priv) > 0 && m.u(3, "own") > 0 {
			p := m.priv[m.u(len(m.priv), "which")]
			o, n = p.o, p.n
		}
		m.log("DelPrivateUID %s count %d", o.id, n)
		m.must(db.DelPrivateUID(o.uids[n]), "DelPrivateUID")
		for i, p := range m.priv {
			if p.o == o && p.n == n {
				m.priv = append(m.priv[:i:i], m.priv[i+1:]...)
				return true
			}
		}
		return false
	case "delID":
		o := owners[m.u(len(owners), "owner")]
		m.log("DelPrivateIdentity %s", o.id)
		m.must(db.DelPrivateIdentity(o.id), "DelPrivateIdentity")
		var keep []*privUID
		for _, p := range m.priv {
			if p.o != o {
				keep = append(keep, p)
			}
		}
		eff := len(keep) < len(m.priv)
		m.priv = keep
		return eff
	case "pubUID":
		o := owners[m.u(len(owners), "owner")]
		n := m.u(len(o.uids), "n")
		pos := []uint64{0, 1, 2, 3, 4, 5, 10, 100, 1 << 40, math.MaxInt64}[m.u(10, "pos")]
		for _, p := range m.pub {
			if p.o == o && p.pos == pos {
				return false
			}
		}
		m.log("AddPublicUID %s count %d position %d", o.id, n, pos)
		m.must(db.AddPublicUID(o.uids[n], pos), "AddPublicUID")
		m.pub = append(m.pub, &pubUID{o, n, pos})
	case "privKI":
		o := owners[m.u(len(owners), "owner")]
		k := o.kis[m.u(len(o.kis), "n")]
		if _, ok := m.privKI[k.hash]; ok {
			return false
		}
		m.log("AddPrivateKeyInit %s %d", o.id, k.ki.MsgCount())
		m.must(db.AddPrivateKeyInit(k.ki, k.hash, o.uids[0].SigPubKey(), k.priv, "sig"), "AddPrivateKeyInit")
		m.privKI[k.hash] = k
		m.sigs[k.hash] = "sig"
	case "kiSig":
		o := owners[m.u(len(owners), "owner")]
		k := o.kis[m.u(len(o.kis), "n")]
		sig := fmt.Sprint("sig", m.seqn())
		m.log("SetPrivateKeyInitSig %s %d", o.id, k.ki.MsgCount())
		m.must(db.SetPrivateKeyInitSig(k.hash, sig), "SetPrivateKeyInitSig")
		if _, ok := m.privKI[k.hash]; !ok {
			return false
		}
		m.sigs[k.hash] = sig
	case "pubKI":
		oi := m.u(len(owners), "owner")
		o := owners[oi]
		k := o.kis[m.u(len(o.kis), "n")]
		m.log("AddPublicKeyInit %s %d", o.id, k.ki.MsgCount())
		m.must(db.AddPublicKeyInit(k.ki), "AddPublicKeyInit")
		m.pubKI[oi] = append(m.pubKI[oi], k)
	case "session":
		key := sessKeys[m.u(len(sessKeys), "key")]
		root, chain := m.text("root"), m.text("chain")
		n := []int{0, 1, 2, 5, 12, 50}[m.u(6, "num")]
		var send, recv []string
		for i := 0; i < n; i++ {
			m.seq++
			send = append(send, fmt.Sprintf("send%d", m.seq))
			recv = append(recv, fmt.Sprintf("recv%d", m.seq))
		}
		m.log("AddSession %q +%d", key, n)
		m.must(db.AddSession(key, root, chain, send, recv), "AddSession")
		s := m.sess[key]
		if s == nil {
			s = &sess{root: root, keys: map[string]string{}}
			m.sess[key] = s
		}
		s.chain = chain
		for i := range send {
			s.keys[fmt.Sprint(true, s.num)] = send[i]
			s.keys[fmt.Sprint(false, s.num)] = recv[i]
			s.num++
		}
	case "delKey":
		key := sessKeys[m.u(len(sessKeys), "key")]
		s := m.sess[key]
		dir := m.u(2, "dir") == 1
		idx := uint64(m.u(14, "idx"))
		if s != nil && m.u(4, "far") == 0 && s.num > 0 {
			idx = s.num - 1
		}
		m.log("DelMessageKey %q %v %d", key, dir, idx)
		err := db.DelMessageKey(key, dir, idx)
		if s == nil {
			m.mustNot(err, "DelMessageKey of an unknown session")
			return false
		}
		m.must(err, "DelMessageKey")
		k := fmt.Sprint(dir, idx)
		_, ok := s.keys[k]
		delete(s.keys, k)
		return ok
	case "state":
		key := sessKeys[m.u(len(sessKeys), "key")]
		st := &session.State{SenderSessionCount: uint64(m.u(100, "ssc")), SenderMessageCount: m.seqn(), MaxRecipientCount: []uint64{0, 5, math.MaxInt64}[m.u(3, "mrc")],
			RecipientTemp: *keys[m.u(6, "rt")], SenderSessionPub: *keys[m.u(6, "ssp")], NymAddress: m.text("nym"), KeyInitSession: m.u(2, "kis") == 1}
		if m.u(2, "nssp") == 1 {
			st.NextSenderSessionPub = keys[m.u(6, "n1")]
		}
		if m.u(2, "nrsp") == 1 {
			st.NextRecipientSessionPubSeen = keys[m.u(6, "n2")]
		}
		m.log("SetSessionState %q %d", key, st.SenderMessageCount)
		m.must(db.SetSessionState(key, st), "SetSessionState")
		m.states[key] = st
	case "skey":
		h := sessKeys[m.u(len(sessKeys), "hash")]
		if m.skeys[h] != nil {
			return false
		}
		k := &skey{m.text("json"), m.text("priv")}
		m.log("AddSessionKey %q", h)
		m.must(db.AddSessionKey(h, k.json, k.priv, 7), "AddSessionKey")
		m.skeys[h] = k
	case "delSkey":
		h := sessKeys[m.u(len(sessKeys), "hash")]
		m.log("DelPrivSessionKey %q", h)
		m.must(db.DelPrivSessionKey(h), "DelPrivSessionKey")
		if k := m.skeys[h]; k != nil {
			k.priv = ""
			return true
		}
		return false
	case "chain":
		d := domains[m.u(len(domains), "dom")]
		l := m.chains[strings.ToLower(d)]
		e := m.text("entry")
		if m.u(4, "gap") == 0 { // the entry after next comes first
			e2 := m.text("entry")
			m.log("AddHashChainEntry %s %d", d, len(l)+1)
			m.must(db.AddHashChainEntry(d, uint64(len(l)+1), e2), "AddHashChainEntry")
			m.log("AddHashChainEntry %s %d", d, len(l))
			m.must(db.AddHashChainEntry(d, uint64(len(l)), e), "AddHashChainEntry")
			m.chains[strings.ToLower(d)] = append(l, e, e2)
			return true
		}
		m.log("AddHashChainEntry %s %d", d, len(l))
		m.must(db.AddHashChainEntry(d, uint64(len(l)), e), "AddHashChainEntry")
		m.chains[strings.ToLower(d)] = append(l, e)
	case "delChain":
		d := domains[m.u(len(domains), "dom")]
		m.log("DelHashChain %s", d)
		m.must(db.DelHashChain(d), "DelHashChain")
		l := m.chains[strings.ToLower(d)]
		delete(m.chains, strings.ToLower(d))
		return len(l) > 0
	case "reopen":
		m.log("reopen")
		m.must(db.Close(), "Close")
		m.open()
	case "rekey":
		m.log("rekey")
		m.seq++
		np := []byte(fmt.Sprint("pass", m.seq))
		m.must(db.Close(), "Close")
		m.must(keydb.Rekey(m.path, m.pass, np, 1), "Rekey")
		m.pass = np
		m.open()
	case "vacuum":
		mode := []string{"", "NONE", "FULL", "INCREMENTAL"}[m.u(4, "mode")]
		m.log("vacuum %s", mode)
		m.must(db.Vacuum(mode), "Vacuum")
		if mode == "INCREMENTAL" {
			m.must(db.Incremental(int64(m.u(4, "pages"))), "Incremental")
		}
	case "bad":
		k := m.u(14, "badop")
		m.log("refused operation %d", k)
		var err error
		switch k {
		case 0:
			err = db.AddValue("", "x")
		case 1:
			err = db.AddValue("x", "")
		case 2:
			err = db.AddSession("", "r", "c", []string{"a"}, []string{"b"})
		case 3:
			err = db.AddSession("s1", "", "c", []string{"a"}, []string{"b"})
		case 4:
			err = db.AddSession("s1", "r", "", []string{"a"}, []string{"b"})
		case 5:
			err = db.AddSession("s1", "r", "c", []string{"a", "b"}, []string{"b"})
		case 6:
			err = db.AddSession("s1", "r", "c", []string{"a"}, nil)
		case 7:
			err = db.SetSessionState("", &session.State{})
		case 8:
			err = db.SetSessionState("s1", nil)
		case 9:
			err = db.AddSessionKey("", "j", "p", 1)
		case 10:
			err = db.AddSessionKey("s9", "", "p", 1)
		case 11:
			err = db.AddSessionKey("s9", "j", "", 1)
		case 12:
			err = db.DelPrivSessionKey("")
		case 13:
			err = db.Vacuum("SOMETIMES")
		}
		m.mustNot(err, fmt.Sprintf("refused operation %d", k))
	case "fault":
		return m.fault()
	default:
		panic(op)
	}
	return true
}

func (m *model) seqn() uint64 { m.seq++; return uint64(m.seq) }

// fault makes one kind of change of one table fail during an operation.
func (m *model) fault() bool {
	targets := map[string][]string{"value": {"KeyValueStore"}, "addUID": {"PrivateUIDs"}, "reply": {"PrivateUIDs"}, "delUID": {"PrivateUIDs"},
		"pubUID": {"PublicUIDs"}, "session": {"Sessions", "MessageKeys", "MessageKeys"}, "delKey": {"MessageKeys"}, "state": {"SessionStates"}, "chain": {"Hashchains"}, "delChain": {"Hashchains"}}
	ops := []string{"session", "session", "session", "session", "value", "addUID", "reply", "delUID", "pubUID", "delKey", "state", "chain", "delChain"}
	op := ops[m.u(len(ops), "faultop")]
	table := targets[op][m.u(len(targets[op]), "table")]
	event := []string{"INSERT", "UPDATE", "DELETE"}[m.u(3, "event")]
	cond := ""
	if table == "MessageKeys" && event == "INSERT" { // fail in the middle
		cond = fmt.Sprintf("WHEN NEW.Number %% 7 = %d AND NEW.Direction = %d", m.u(7, "mod"), m.u(2, "dir"))
	}
	raw, err := encdb.Open(m.path, m.pass)
	vt.InfraIf(err)
	defer raw.Close()
	if _, err = raw.Exec("CREATE TRIGGER verif_fault AFTER " + event + " ON " + table + " " + cond + " BEGIN SELECT RAISE(ABORT, '" + faultText + "'); END;"); err != nil {
		return false // no such table or column
	}
	m.log("next operation: %s on %s fails %s", event, table, cond)
	m.faulty = true
	fired := func() (fired bool) {
		defer func() {
			if r := recover(); r == interface{}(errFault) {
				fired = true
			} else if r != nil {
				panic(r)
			}
		}()
		m.apply(op)
		return
	}()
	m.faulty = false
	_, err = raw.Exec("DROP TRIGGER verif_fault;")
	vt.InfraIf(err)
	if fired {
		m.log("failed")
		m.c.Label("fault in %s", op)
	}
	return fired
}

// checkSigs compares the stored server signatures of key-init messages.
func (m *model) checkSigs() {
	raw, err := encdb.Open(m.path, m.pass)
	vt.InfraIf(err)
	defer raw.Close()
	for h, want := range m.sigs {
		var got string
		if err := raw.QueryRow("SELECT ServerSignature FROM PrivateKeyInits WHERE PUBKEYHASH=?;", h).Scan(&got); err != nil || got != want {
			m.fail("server signature of key-init message %s is %q (%v), want %q", h, got, err, want)
		}
	}
}

func (m *model) verify() {
	db := m.db
	for _, k := range append([]string{keydb.DBVersion}, values...) {
		v, err := db.GetValue(k)
		m.must(err, "GetValue")
		if v != m.kv[k] {
			m.fail("GetValue(%q) = %.40q, want %.40q", k, v, m.kv[k])
		}
	}
	var ids []string
	for oi, o := range owners {
		var best *privUID
		for _, p := range m.priv {
			if p.o == o && (best == nil || p.n > best.n) {
				best = p
			}
		}
		for _, withKeys := range []bool{false, true} {
			msg, r, err := db.GetPrivateUID(o.id, withKeys)
			if best == nil {
				if err == nil {
					m.fail("GetPrivateUID(%s) found %d", o.id, msg.UIDContent.MSGCOUNT)
				}
				continue
			}
			m.must(err, "GetPrivateUID")
			want := o.uids[best.n]
			if string(msg.JSON()) != string(want.JSON()) {
				m.fail("GetPrivateUID(%s) has count %d, want %d", o.id, msg.UIDContent.MSGCOUNT, want.UIDContent.MSGCOUNT)
			}
			if (r == nil) != (best.reply == nil) || r != nil && string(r.JSON()) != string(best.reply.JSON()) {
				m.fail("GetPrivateUID(%s): wrong reply", o.id)
			}
			if withKeys && (msg.PrivateSigKey() != want.PrivateSigKey() || msg.PrivateEncKey() != want.PrivateEncKey()) {
				m.fail("GetPrivateUID(%s): wrong private keys", o.id)
			}
		}
		if best != nil {
			ids = append(ids, o.id)
		}
		for _, max := range []uint64{0, 1, 2, 3, 4, 5, 9, 10, 99, 1 << 40, math.MaxInt64} {
			var want *pubUID
			for _, p := range m.pub {
				if p.o == o && p.pos <= max && (want == nil || p.pos > want.pos) {
					want = p
				}
			}
			msg, pos, found, err := db.GetPublicUID(o.id, max)
			m.must(err, "GetPublicUID")
			if found != (want != nil) || found && (pos != want.pos || string(msg.JSON()) != string(o.uids[want.n].JSON())) {
				m.fail("GetPublicUID(%s, %d) = found %v position %d, want %+v", o.id, max, found, pos, want)
			}
		}
		l := m.pubKI[oi]
		k, err := db.GetPublicKeyInit(o.kis[0].ki.SigKeyHash())
		if len(l) == 0 {
			if err != sql.ErrNoRows {
				m.fail("GetPublicKeyInit(%s) without one: %v", o.id, err)
			}
		} else {
			m.must(err, "GetPublicKeyInit")
			if string(k.JSON()) != string(l[len(l)-1].ki.JSON()) {
				m.fail("GetPublicKeyInit(%s) has count %d, want the last stored one, %d", o.id, k.MsgCount(), l[len(l)-1].ki.MsgCount())
			}
		}
		for _, k := range o.kis {
			_, have := m.privKI[k.hash]
			g, sig, priv, err := db.GetPrivateKeyInit(k.hash)
			if !have {
				m.mustNot(err, "GetPrivateKeyInit of an unknown key")
				continue
			}
			m.must(err, "GetPrivateKeyInit")
			if string(g.JSON()) != string(k.ki.JSON()) || sig != o.uids[0].SigPubKey() || priv != k.priv {
				m.fail("GetPrivateKeyInit(%s): wrong entry", o.id)
			}
		}
	}
	l, err := db.GetPrivateIdentities()
	m.must(err, "GetPrivateIdentities")
	sort.Strings(l)
	sort.Strings(ids)
	if strings.Join(l, " ") != strings.Join(ids, " ") {
		m.fail("GetPrivateIdentities = %q, want %q", l, ids)
	}
	for _, d := range domains {
		var want []string
		for _, id := range ids {
			if strings.HasSuffix(id, "@"+strings.ToLower(d)) {
				want = append(want, id)
			}
		}
		l, err := db.GetPrivateIdentitiesForDomain(d)
		m.must(err, "GetPrivateIdentitiesForDomain")
		sort.Strings(l)
		if strings.Join(l, " ") != strings.Join(want, " ") {
			m.fail("GetPrivateIdentitiesForDomain(%s) = %q, want %q", d, l, want)
		}
		ch := m.chains[strings.ToLower(d)]
		pos, found, err := db.GetLastHashChainPos(d)
		m.must(err, "GetLastHashChainPos")
		last, err := db.GetLastHashChainEntry(d)
		if found != (len(ch) > 0) || (err == nil) != found || found && (pos != uint64(len(ch)-1) || last != ch[pos]) {
			m.fail("last hash chain entry of %s = %v %d %.20q (%v), want %d entries", d, found, pos, last, err, len(ch))
		}
		for i := 0; i <= len(ch); i++ {
			e, err := db.GetHashChainEntry(d, uint64(i))
			if i == len(ch) {
				m.mustNot(err, "GetHashChainEntry beyond the end")
			} else if err != nil || e != ch[i] {
				m.fail("GetHashChainEntry(%s, %d) = %.20q (%v), want %.20q", d, i, e, err, ch[i])
			}
		}
	}
	for _, key := range sessKeys {
		s := m.sess[key]
		root, chain, num, err := db.GetSession(key)
		if s == nil {
			if err != sql.ErrNoRows {
				m.fail("GetSession(%q) of unknown session: %v", key, err)
			}
			if _, err := db.GetMessageKey(key, true, 0); err == nil {
				m.fail("GetMessageKey(%q) of unknown session succeeded", key)
			}
		} else {
			m.must(err, "GetSession")
			if root != s.root || chain != s.chain || num != s.num {
				m.fail("GetSession(%q) = %.20q %.20q %d, want %.20q %.20q %d", key, root, chain, num, s.root, s.chain, s.num)
			}
			step := uint64(1)
			if s.num > 20 {
				step = 5
			}
			for i := uint64(0); i <= s.num; i += step {
				for _, dir := range []bool{false, true} {
					want, ok := s.keys[fmt.Sprint(dir, i)]
					got, err := db.GetMessageKey(key, dir, i)
					if (err == nil) != ok || got != want {
						m.fail("GetMessageKey(%q, %v, %d) = %q (%v), want %q", key, dir, i, got, err, want)
					}
				}
			}
		}
		st, err := db.GetSessionState(key)
		m.must(err, "GetSessionState")
		if want := m.states[key]; want == nil {
			if st != nil {
				m.fail("GetSessionState(%q) found one", key)
			}
		} else if st == nil || !session.StateEqual(st, want) || st.NymAddress != want.NymAddress || st.SenderMessageCount != want.SenderMessageCount || st.KeyInitSession != want.KeyInitSession {
			m.fail("GetSessionState(%q) = %+v, want %+v", key, st, want)
		}
		j, p, err := db.GetSessionKey(key)
		if k := m.skeys[key]; k == nil {
			if err != sql.ErrNoRows {
				m.fail("GetSessionKey(%q) of unknown key: %v", key, err)
			}
		} else if err != nil || j != k.json || p != k.priv {
			m.fail("GetSessionKey(%q) = %.20q %.20q (%v), want %.20q %.20q", key, j, p, err, k.json, k.priv)
		}
	}
}

var ops = []string{"value", "addUID", "addUID", "addUID", "addUID", "reply", "reply", "delUID", "delID", "pubUID", "pubUID", "pubUID", "privKI", "privKI", "kiSig", "pubKI", "pubKI",
	"session", "session", "session", "session", "delKey", "delKey", "delKey", "delKey", "state", "state", "skey", "delSkey", "chain", "chain", "chain", "chain", "delChain",
	"reopen", "rekey", "vacuum", "bad", "fault", "fault", "fault", "fault"}

func TestModel(t *testing.T) {
	vt.Check(t, "random histories of key database operations (with injected failures of single SQL changes, reopening and rekeying) over 4 identities, 5 sessions and 3 domains whose names resemble each other; after every operation every query is compared with maps; non-trivial: a session extended, a user ID changed, and a deletion of each kind of entry", 40, 1500, func(rt *rapid.T, c *vt.Case) {
		dir := vt.TempDir()
		defer os.RemoveAll(dir)
		m := &model{rt: rt, c: c, path: filepath.Join(dir, "keys"), pass: []byte("pass"), done: map[string]int{}, kv: map[string]string{keydb.DBVersion: keydb.Version},
			privKI: map[string]ki{}, sigs: map[string]string{}, pubKI: map[int][]ki{}, sess: map[string]*sess{}, states: map[string]*session.State{}, skeys: map[string]*skey{}, chains: map[string][]string{}}
		m.must(keydb.Create(m.path, m.pass, 1), "Create")
		m.open()
		defer func() { m.db.Close() }()
		n := 20 + vt.Uniform(rt, 50, "ops")
		for i := 0; i < n; i++ {
			op := ops[vt.Uniform(rt, len(ops), "op")]
			if m.apply(op) {
				m.done[op]++
				c.Label("%s", op)
			}
			if !strings.HasPrefix(op, "del") || m.done[op] > 0 {
				m.verify()
			}
		}
		m.checkSigs()
		if m.done["session"] > 2 && m.done["addUID"] > 2 && m.done["delUID"]+m.done["delKey"]+m.done["delChain"]+m.done["delSkey"] > 1 {
			c.NonTrivial(strings.Join(m.hist, ";"))
		}
		c.Sample("%s", strings.Join(m.hist, "; "))
	})
}
