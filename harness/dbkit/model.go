// Package dbkit is a reference model of the message database and a random
// driver that compares the two after every operation.
package dbkit

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/vt"

	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/msgdb"
	"pgregory.net/rapid"
)

type contact struct {
	unmapped, full string
	typ            msgdb.ContactType
}

type account struct {
	priv     [64]byte
	server   string
	secret   [64]byte
	min, max int32
	load     int64
	last     int64
}

type message struct {
	id       int64
	peer     string
	incoming bool
	toSend   bool
	sent     bool
	read     bool
	date     int64
	body     string
	sign     bool
	min, max int32
}

type outEntry struct {
	idx      int64 // 0 if not learned yet
	msg      *message
	enc, nym string
	min, max int32
	env      bool
	resend   bool
}

type inEntry struct {
	idx         int64
	my, contact string
	date        int64
	msg         string
	env         bool
}

type nym struct {
	mapped, unmapped, full string
	upAll, upAcc           int64
	contacts               map[string]*contact
	accounts               map[string]*account
	cache                  map[string][]string
	msgs                   []*message
	out                    []*outEntry
}

// Model drives one database.
type Model struct {
	rt   *rapid.T
	c    *vt.Case
	path string
	pass []byte
	db   *msgdb.MsgDB
	nyms map[string]*nym
	in   []*inEntry
	kv   map[string]string
	step int
	hist []string
	seq  int
	done map[string]int

	faulty  bool
	weights map[string]int
}

const faultText = "injected fault"

var errFault = errors.New(faultText)

// fault makes every change of one kind to one table fail while a random
// operation is performed, which then has to leave everything as it was.
func (m *Model) fault(weights map[string]int) bool {
	var ops []string
	for o := range weights {
		switch o {
		case "fault", "rekey", "reopen", "vacuum", "bad":
		default:
			ops = append(ops, o)
		}
	}
	sort.Strings(ops)
	tables := []string{"Messages", "OutQueue", "InQueue", "Nyms", "Contacts", "Accounts", "MessageIDCache", "KeyValueStore"}
	op := ops[vt.Uniform(m.rt, len(ops), "faultop")]
	if l := twoSteps[op]; l != nil && vt.Uniform(m.rt, 4, "two") > 0 {
		tables = l
	}
	table := tables[vt.Uniform(m.rt, len(tables), "table")]
	event := []string{"INSERT", "UPDATE", "DELETE"}[vt.Uniform(m.rt, 3, "event")]
	when := []string{"BEFORE", "AFTER"}[vt.Uniform(m.rt, 2, "when")]
	raw, err := encdb.Open(m.path, m.pass)
	vt.InfraIf(err)
	defer raw.Close()
	_, err = raw.Exec("CREATE TRIGGER verif_fault " + when + " " + event + " ON " + table + " BEGIN SELECT RAISE(ABORT, '" + faultText + "'); END;")
	if err != nil {
		return false // no such table: nothing to inject here
	}
	m.log("next operation: %s %s on %s fails", when, event, table)
	m.faulty = true
	fired := func() (fired bool) {
		defer func() {
			if r := recover(); r == interface{}(errFault) {
				fired = true
			} else if r != nil {
				panic(r)
			}
		}()
		m.apply(op)
		return false
	}()
	m.faulty = false
	_, err = raw.Exec("DROP TRIGGER verif_fault;")
	vt.InfraIf(err)
	if fired {
		m.log("failed")
		m.c.Label("fault in %s", op)
	}
	return fired
}

var twoSteps = map[string][]string{
	"queue": {"Messages", "OutQueue"}, "retract": {"Messages", "OutQueue"}, "send": {"Messages", "OutQueue"},
	"deliver": {"Messages", "InQueue"}, "delMessage": {"Messages", "OutQueue"},
	"delNym": {"Messages", "OutQueue", "InQueue", "Nyms", "Contacts", "Accounts", "MessageIDCache"}, "removeContact": {"Contacts"},
}

// New creates a database.
func New(rt *rapid.T, c *vt.Case) *Model {
	m := &Model{rt: rt, c: c, path: filepath.Join(vt.TempDir(), "msgs"), pass: []byte("pass"),
		nyms: map[string]*nym{}, kv: map[string]string{}, done: map[string]int{}}
	if err := msgdb.Create(m.path, m.pass, 1); err != nil {
		rt.Fatalf("Create: %v", err)
	}
	m.kv[msgdb.DBVersion] = msgdb.Version
	m.open()
	return m
}

func (m *Model) open() {
	var err error
	m.db, err = msgdb.Open(m.path, m.pass)
	if err != nil {
		m.fail("Open: %v", err)
	}
}

// Close the database.
func (m *Model) Close() {
	m.db.Close()
	os.RemoveAll(filepath.Dir(m.path))
}

func (m *Model) fail(format string, a ...interface{}) {
	m.rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(m.hist, "\n"))
}

func (m *Model) log(format string, a ...interface{}) {
	m.hist = append(m.hist, fmt.Sprintf(format, a...))
}

func (m *Model) must(err error, what string) {
	if err != nil {
		if m.faulty && strings.Contains(err.Error(), faultText) {
			panic(errFault)
		}
		m.fail("%s: %v", what, err)
	}
}

func (m *Model) mustNot(err error, what string) {
	if err == nil {
		m.fail("%s succeeded", what)
	}
}

// identities share prefixes; the unmapped forms differ from the mapped ones.
var ids = []struct {
	mapped string
	forms  []string
}{
	{"alice@mute.berlin", []string{"alice@mute.berlin", "Alice@MUTE.berlin", "a1ice@mute.berlin"}},
	{"bob@mute.berlin", []string{"bob@mute.berlin", "B0B@mute.berlin"}},
	{"bob@gmail.com", []string{"bob@gmail.com", "Bob@GMAIL.com"}},
	{"iohn@mute.berlin", []string{"john@mute.berlin", "John@mute.berlin"}},
	{"alice@mute.berli", []string{"alice@mute.berli"}},
}

func (m *Model) id(label string) (string, string) {
	x := rapid.SampledFrom(ids).Draw(m.rt, label)
	return x.mapped, rapid.SampledFrom(x.forms).Draw(m.rt, label+"form")
}

func (m *Model) text(label string) string {
	m.seq++
	s := rapid.SampledFrom([]string{"hello", "", "subject\nbody\nmore", "\n\nbody", "trailing\n", "a\x00b\nc", "üñ\n\xff\xfe", "'; DROP TABLE Messages; --", "one line", "crlf\r\nx"}).Draw(m.rt, label)
	switch rapid.IntRange(0, 8).Draw(m.rt, label+"k") {
	case 0:
		return s
	case 1:
		return string(vt.Bytes(20000, 4096, 8192).Draw(m.rt, label+"b")) + fmt.Sprint(m.seq)
	}
	return s + fmt.Sprint(m.seq)
}

func (m *Model) num(label string) int64 {
	return rapid.SampledFrom([]int64{0, 1, 2, 1447881234, 1 << 40, -1, 1<<63 - 1}).Draw(m.rt, label)
}

func (m *Model) delay(label string) int32 {
	return rapid.SampledFrom([]int32{0, 1, 60, 86400, 1<<31 - 1, -5}).Draw(m.rt, label)
}

func (m *Model) sortedNyms() []*nym {
	var l []*nym
	for _, n := range m.nyms {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].mapped < l[j].mapped })
	return l
}

// pickNymWith prefers user IDs that satisfy pred.
func (m *Model) pickNymWith(label string, pred func(n *nym) bool) *nym {
	var l []*nym
	for _, n := range m.sortedNyms() {
		if pred(n) {
			l = append(l, n)
		}
	}
	if len(l) == 0 || vt.Uniform(m.rt, 8, label+"any") == 1 {
		return m.pickNym(label)
	}
	return l[vt.Uniform(m.rt, len(l), label)]
}

func (m *Model) pickNym(label string) *nym {
	l := m.sortedNyms()
	if len(l) == 0 {
		return nil
	}
	return l[vt.Uniform(m.rt, len(l), label)]
}

func (n *nym) canSend() bool {
	for _, x := range n.msgs {
		if x.toSend {
			return true
		}
	}
	return false
}

func (n *nym) cached() (l []string) {
	for k := range n.cache {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func (n *nym) withAccount() (l []string) {
	for k := range n.accounts {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func (n *nym) resending() bool {
	for _, e := range n.out {
		if e.resend {
			return true
		}
	}
	return false
}

func (n *nym) pickContact(rt *rapid.T, label string, orNone bool) (string, bool) {
	var l []string
	for k := range n.contacts {
		l = append(l, k)
	}
	sort.Strings(l)
	if orNone {
		l = append(l, "")
	}
	if len(l) == 0 {
		return "", false
	}
	return l[vt.Uniform(rt, len(l), label)], true
}

// Step performs one random operation out of weights and compares everything.
func (m *Model) Step(weights map[string]int) {
	var ops []string
	for o, w := range weights {
		for i := 0; i < w; i++ {
			ops = append(ops, o)
		}
	}
	sort.Strings(ops)
	m.weights = weights
	op := ops[vt.Uniform(m.rt, len(ops), "op")]
	m.step++
	if m.apply(op) {
		m.done[op]++
		m.c.Label(op)
	}
	m.Verify()
}

// Done returns how often op had an effect.
func (m *Model) Done(op string) int { return m.done[op] }

// History returns the operations so far.
func (m *Model) History() string { return strings.Join(m.hist, "; ") }

func (m *Model) apply(op string) bool {
	rt := m.rt
	switch op {
	case "addNym":
		mapped, form := m.id("nym")
		full := rapid.SampledFrom([]string{"", "Full Name", "Ünï <x>"}).Draw(rt, "full")
		m.log("AddNym %s %s %q", mapped, form, full)
		m.must(m.db.AddNym(mapped, form, full), "AddNym")
		n := m.nyms[mapped]
		if n == nil {
			n = &nym{mapped: mapped, contacts: map[string]*contact{}, accounts: map[string]*account{}, cache: map[string][]string{}}
			m.nyms[mapped] = n
		}
		n.unmapped, n.full = form, full
		return true
	case "delNym":
		mapped, _ := m.id("nym")
		n := m.nyms[mapped]
		m.log("DelNym %s", mapped)
		err := m.db.DelNym(mapped)
		if n == nil {
			m.mustNot(err, "DelNym of unknown nym")
			return false
		}
		m.must(err, "DelNym")
		delete(m.nyms, mapped)
		var in []*inEntry
		for _, e := range m.in {
			if e.my != mapped {
				in = append(in, e)
			}
		}
		m.in = in
		return true
	case "upkeep":
		n := m.pickNym("nym")
		if n == nil {
			return false
		}
		t := m.num("t")
		m.log("upkeep %s %d", n.mapped, t)
		if rapid.Bool().Draw(rt, "all") {
			m.must(m.db.SetUpkeepAll(n.mapped, t), "SetUpkeepAll")
			n.upAll = t
		} else {
			m.must(m.db.SetUpkeepAccounts(n.mapped, t), "SetUpkeepAccounts")
			n.upAcc = t
		}
		return true
	case "addContact":
		n := m.pickNym("nym")
		if n == nil {
			return false
		}
		mapped, form := m.id("contact")
		full := rapid.SampledFrom([]string{"", "Contact Name", "Other"}).Draw(rt, "full")
		typ := rapid.SampledFrom([]msgdb.ContactType{msgdb.WhiteList, msgdb.WhiteList, msgdb.GrayList, msgdb.BlackList}).Draw(rt, "typ")
		m.log("AddContact %s %s %s %q %d", n.mapped, mapped, form, full, typ)
		m.must(m.db.AddContact(n.mapped, mapped, form, full, typ), "AddContact")
		n.contacts[mapped] = &contact{form, full, typ}
		return true
	case "removeContact":
		n := m.pickNym("nym")
		if n == nil {
			return false
		}
		mapped, _ := m.id("contact")
		m.log("RemoveContact %s %s", n.mapped, mapped)
		m.must(m.db.RemoveContact(n.mapped, mapped), "RemoveContact")
		if c := n.contacts[mapped]; c != nil {
			c.typ = msgdb.GrayList
			return true
		}
		return false
	case "addAccount":
		n := m.pickNym("nym")
		if n == nil {
			return false
		}
		cid, _ := n.pickContact(rt, "contact", true)
		a := &account{server: rapid.SampledFrom([]string{"", "accounts001.mute.berlin", "x:1"}).Draw(rt, "srv"), min: m.delay("min"), max: m.delay("max")}
		m.seq++
		copy(a.priv[:], vt.Expand(64, uint32(m.seq), 0))
		copy(a.secret[:], vt.Expand(64, uint32(m.seq)+1<<20, 0))
		m.log("AddAccount %s %q", n.mapped, cid)
		err := m.db.AddAccount(n.mapped, cid, &a.priv, a.server, &a.secret, a.min, a.max)
		if n.accounts[cid] != nil {
			m.mustNot(err, "second AddAccount for a pair")
			return false
		}
		m.must(err, "AddAccount")
		n.accounts[cid] = a
		return true
	case "accountTime":
		n := m.pickNymWith("nym", func(n *nym) bool { return len(n.accounts) > 0 })
		if n == nil {
			return false
		}
		cid, _ := n.pickContact(rt, "contact", true)
		if l := n.withAccount(); len(l) > 0 && vt.Uniform(rt, 4, "with") > 0 {
			cid = l[vt.Uniform(rt, len(l), "cid")]
		}
		t := m.num("t")
		a := n.accounts[cid]
		m.log("SetAccountTime/LastMsg %s %q %d", n.mapped, cid, t)
		if rapid.Bool().Draw(rt, "load") {
			m.must(m.db.SetAccountTime(n.mapped, cid, t), "SetAccountTime")
			if a != nil {
				a.load = t
			}
		} else {
			m.must(m.db.SetAccountLastMsg(n.mapped, cid, t), "SetAccountLastMsg")
			if a != nil {
				a.last = t
			}
		}
		return a != nil
	case "addCache":
		n := m.pickNym("nym")
		if n == nil {
			return false
		}
		added := false
	next:
		for i := rapid.SampledFrom([]int{1, 1, 2, 4, 8}).Draw(rt, "ids"); i > 0; i-- {
			cid, _ := n.pickContact(rt, "contact", true)
			id := fmt.Sprintf("id%d", rapid.IntRange(0, 12).Draw(rt, "id"))
			for _, x := range n.cache[cid] {
				if x == id {
					continue next // never cached twice by the callers
				}
			}
			m.log("AddMessageIDCache %s %q %s", n.mapped, cid, id)
			m.must(m.db.AddMessageIDCache(n.mapped, cid, id), "AddMessageIDCache")
			n.cache[cid] = append(n.cache[cid], id)
			added = true
		}
		return added
	case "removeCache":
		n := m.pickNymWith("nym", func(n *nym) bool { return len(n.cache) > 0 })
		if n == nil {
			return false
		}
		cid, _ := n.pickContact(rt, "contact", true)
		if l := n.cached(); len(l) > 0 && vt.Uniform(rt, 4, "cached") > 0 {
			cid = l[vt.Uniform(rt, len(l), "cid")]
		}
		id := fmt.Sprintf("id%d", rapid.IntRange(0, 12).Draw(rt, "id"))
		if l := n.cache[cid]; len(l) > 0 && rapid.Bool().Draw(rt, "existing") {
			id = l[vt.Uniform(rt, len(l), "which")]
		}
		m.log("RemoveMessageIDCache %s %q %s", n.mapped, cid, id)
		err := m.db.RemoveMessageIDCache(n.mapped, cid, id)
		for i, x := range n.cache[cid] {
			if x == id {
				m.must(err, "RemoveMessageIDCache")
				n.cache[cid] = n.cache[cid][i:]
				return i > 0
			}
		}
		m.mustNot(err, "RemoveMessageIDCache of an unknown message ID")
		return false
	case "addMessage":
		n := m.pickNymWith("nym", func(n *nym) bool { return len(n.contacts) > 0 })
		if n == nil {
			return false
		}
		cid, ok := n.pickContact(rt, "contact", false)
		if !ok {
			return false
		}
		msg := &message{peer: cid, date: m.num("date"), body: m.text("body"), sign: rapid.Bool().Draw(rt, "sign"), min: m.delay("min"), max: m.delay("max")}
		out := vt.Uniform(rt, 4, "out") > 0
		msg.toSend, msg.incoming = out, !out
		m.log("AddMessage %s %s sent=%v date=%d %.30q", n.mapped, cid, out, msg.date, msg.body)
		m.must(m.db.AddMessage(n.mapped, cid, msg.date, out, msg.body, msg.sign, msg.min, msg.max), "AddMessage")
		m.learn(n, msg)
		return true
	case "readMessage":
		n := m.pickNymWith("nym", func(n *nym) bool { return len(n.msgs) > 0 })
		if n == nil || len(n.msgs) == 0 {
			return false
		}
		msg := n.msgs[vt.Uniform(rt, len(n.msgs), "msg")]
		m.log("ReadMessage %d", msg.id)
		m.must(m.db.ReadMessage(msg.id), "ReadMessage")
		msg.read = true
		return true
	case "delMessage":
		n := m.pickNymWith("nym", func(n *nym) bool { return len(n.msgs) > 0 })
		if n == nil {
			return false
		}
		id := int64(rapid.IntRange(0, 12).Draw(rt, "id"))
		if len(n.msgs) > 0 && rapid.Bool().Draw(rt, "own") {
			id = n.msgs[vt.Uniform(rt, len(n.msgs), "msg")].id
		}
		m.log("DelMessage %s %d", n.mapped, id)
		err := m.db.DelMessage(n.mapped, id)
		for i, x := range n.msgs {
			if x.id == id {
				m.must(err, "DelMessage")
				n.msgs = append(n.msgs[:i:i], n.msgs[i+1:]...)
				for j, e := range n.out {
					if e.msg == x {
						n.out = append(n.out[:j:j], n.out[j+1:]...)
						break
					}
				}
				return true
			}
		}
		m.mustNot(err, "DelMessage of a message that is not the user's")
		return false
	case "queue":
		n := m.pickNymWith("nym", func(n *nym) bool { return n.canSend() })
		if n == nil {
			return false
		}
		var l []*message
		for _, x := range n.msgs {
			if x.toSend {
				l = append(l, x)
			}
		}
		e := &outEntry{enc: m.text("enc"), nym: m.text("nymaddr"), min: m.delay("min"), max: m.delay("max")}
		if len(l) == 0 || vt.Uniform(rt, 10, "bogus") == 1 {
			// the message does not exist: nothing may change
			m.log("AddOutQueue %s unknown message", n.mapped)
			m.mustNot(m.db.AddOutQueue(n.mapped, 1<<40, e.enc, e.nym, e.min, e.max), "AddOutQueue of an unknown message")
			return false
		}
		e.msg = l[0]
		if vt.Uniform(rt, 5, "any") == 1 {
			e.msg = l[vt.Uniform(rt, len(l), "which")]
		}
		m.log("AddOutQueue %s %d %.20q %.20q", n.mapped, e.msg.id, e.enc, e.nym)
		m.must(m.db.AddOutQueue(n.mapped, e.msg.id, e.enc, e.nym, e.min, e.max), "AddOutQueue")
		e.msg.toSend = false
		n.out = append(n.out, e)
		return true
	case "envelope", "resend", "retract", "send":
		n := m.pickNymWith("nym", func(n *nym) bool { return len(n.out) > 0 })
		if n == nil {
			return false
		}
		var l []*outEntry
		for _, e := range n.out {
			if e.idx != 0 {
				l = append(l, e)
			}
		}
		if len(l) == 0 {
			if op == "retract" {
				m.mustNot(m.db.RetractOutQueue(1<<40), "RetractOutQueue of an unknown index")
			}
			if op == "send" {
				m.mustNot(m.db.RemoveOutQueue(1<<40, 1), "RemoveOutQueue of an unknown index")
			}
			return false
		}
		e := l[vt.Uniform(rt, len(l), "which")]
		pos := 0
		for i := range n.out {
			if n.out[i] == e {
				pos = i
			}
		}
		switch op {
		case "envelope":
			t := m.text("env")
			m.log("SetOutQueue %d %.20q", e.idx, t)
			m.must(m.db.SetOutQueue(e.idx, t), "SetOutQueue")
			e.enc, e.env = t, true
		case "resend":
			m.log("SetResendOutQueue %d", e.idx)
			m.must(m.db.SetResendOutQueue(e.idx), "SetResendOutQueue")
			e.resend = true
		case "retract":
			m.log("RetractOutQueue %d", e.idx)
			m.must(m.db.RetractOutQueue(e.idx), "RetractOutQueue")
			e.msg.toSend = true
			n.out = append(n.out[:pos:pos], n.out[pos+1:]...)
		case "send":
			d := m.num("date")
			m.log("RemoveOutQueue %d %d", e.idx, d)
			m.must(m.db.RemoveOutQueue(e.idx, d), "RemoveOutQueue")
			e.msg.sent, e.msg.date = true, d
			n.out = append(n.out[:pos:pos], n.out[pos+1:]...)
		}
		return true
	case "clearResend":
		n := m.pickNymWith("nym", func(n *nym) bool { return n.resending() })
		if n == nil {
			return false
		}
		m.log("ClearResendOutQueue %s", n.mapped)
		m.must(m.db.ClearResendOutQueue(n.mapped), "ClearResendOutQueue")
		eff := false
		for _, e := range n.out {
			eff = eff || e.resend
			e.resend = false
		}
		return eff
	case "addIn":
		n := m.pickNym("nym")
		if n == nil {
			return false
		}
		cid, _ := n.pickContact(rt, "contact", true)
		e := &inEntry{my: n.mapped, contact: cid, date: m.num("date"), msg: m.text("in"), env: true}
		m.log("AddInQueue %s %q %.20q", n.mapped, cid, e.msg)
		m.must(m.db.AddInQueue(n.mapped, cid, e.date, e.msg), "AddInQueue")
		m.in = append(m.in, e)
		return true
	case "setIn", "delIn", "deliver":
		var l []*inEntry
		for _, e := range m.in {
			if e.idx != 0 {
				l = append(l, e)
			}
		}
		if len(l) == 0 {
			return false
		}
		e := l[vt.Uniform(rt, len(l), "which")]
		pos := 0
		for i := range m.in {
			if m.in[i] == e {
				pos = i
			}
		}
		switch op {
		case "setIn":
			t := m.text("msg")
			m.log("SetInQueue %d %.20q", e.idx, t)
			m.must(m.db.SetInQueue(e.idx, t), "SetInQueue")
			e.msg, e.env = t, false
		case "delIn":
			m.log("DelInQueue %d", e.idx)
			m.must(m.db.DelInQueue(e.idx), "DelInQueue")
			m.in = append(m.in[:pos:pos], m.in[pos+1:]...)
		case "deliver":
			n := m.nyms[e.my]
			from, ok := n.pickContact(rt, "from", false)
			if !ok {
				m.log("RemoveInQueue %d from unknown", e.idx)
				m.mustNot(m.db.RemoveInQueue(e.idx, "x", "alice@mute.berlin", false), "RemoveInQueue from an unknown contact")
				return false
			}
			drop := vt.Uniform(rt, 4, "drop") == 1
			body := m.text("plain")
			m.log("RemoveInQueue %d from %s drop %v %.20q", e.idx, from, drop, body)
			m.must(m.db.RemoveInQueue(e.idx, body, from, drop), "RemoveInQueue")
			m.in = append(m.in[:pos:pos], m.in[pos+1:]...)
			if !drop {
				m.learn(n, &message{peer: from, incoming: true, date: e.date, body: body})
			}
		}
		return true
	case "value":
		k := rapid.SampledFrom([]string{msgdb.WalletKey, msgdb.ActiveUID, "k", "K", "time.accounts"}).Draw(rt, "key")
		v := m.text("value")
		m.log("AddValue %s %.20q", k, v)
		err := m.db.AddValue(k, v)
		if v == "" {
			m.mustNot(err, "AddValue of an empty value")
			return false
		}
		m.must(err, "AddValue")
		m.kv[k] = v
		return true
	case "reopen":
		m.log("reopen")
		m.must(m.db.Close(), "Close")
		m.open()
		return true
	case "rekey":
		m.seq++
		np := []byte(fmt.Sprintf("pass%d", m.seq))
		m.log("rekey")
		m.must(m.db.Close(), "Close")
		m.must(msgdb.Rekey(m.path, m.pass, np, 1), "Rekey")
		m.pass = np
		m.open()
		return true
	case "vacuum":
		mode := rapid.SampledFrom([]string{"", "NONE", "FULL", "INCREMENTAL"}).Draw(rt, "mode")
		m.log("vacuum %s", mode)
		m.must(m.db.Vacuum(mode), "Vacuum")
		if mode == "INCREMENTAL" {
			m.must(m.db.Incremental(int64(rapid.IntRange(0, 3).Draw(rt, "pages"))), "Incremental")
		}
		return true
	case "fault":
		return m.fault(m.weights)
	case "bad":
		m.bad()
		return true
	}
	panic("unknown op " + op)
}

// bad performs one operation that has to be refused without any effect.
func (m *Model) bad() {
	db := m.db
	unknown := "nobody@mute.berlin"
	n := m.pickNym("nym")
	my := unknown
	if n != nil {
		my = n.mapped
	}
	k := vt.Uniform(m.rt, 18, "badop")
	m.log("refused operation %d", k)
	var p64 [64]byte
	var err error
	switch k {
	case 0:
		err = db.AddNym("John@mute.berlin", "John@mute.berlin", "")
	case 1:
		err = db.AddNym("alice@mute.berlin", "bob@mute.berlin", "")
	case 2:
		err = db.AddContact(unknown, "bob@mute.berlin", "bob@mute.berlin", "", msgdb.WhiteList)
	case 3:
		err = db.AddContact(my, "alice@mute.berlin", "bob@mute.berlin", "", msgdb.WhiteList)
	case 4:
		err = db.AddContact(my, "John@mute.berlin", "John@mute.berlin", "", msgdb.WhiteList)
	case 5:
		err = db.AddAccount(my, unknown, &p64, "", &p64, 0, 0)
	case 6:
		err = db.AddAccount(unknown, "", &p64, "", &p64, 0, 0)
	case 7:
		err = db.AddMessage(my, unknown, 0, true, "x", false, 0, 0)
	case 8:
		err = db.AddMessage(unknown, my, 0, true, "x", false, 0, 0)
	case 9:
		err = db.AddInQueue(unknown, "", 0, "x")
	case 10:
		err = db.AddInQueue(my, unknown, 0, "x")
	case 11:
		err = db.AddMessageIDCache(my, "", "")
	case 12:
		err = db.AddMessageIDCache(my, unknown, "x")
	case 13:
		err = db.RemoveInQueue(1<<40, "x", my, false)
	case 14:
		err = db.AddValue("", "x")
	case 15:
		err = db.SetAccountTime(my, unknown, 1)
	case 16:
		err = db.DelNym(unknown)
	case 17:
		err = db.AddNym("", "", "")
	}
	if err == nil {
		m.fail("refused operation %d succeeded", k)
	}
}

// learn finds the number of a message just added to n.
func (m *Model) learn(n *nym, msg *message) {
	l, err := m.db.GetMsgIDs(n.mapped)
	m.must(err, "GetMsgIDs")
	old := map[int64]bool{}
	for _, x := range n.msgs {
		old[x.id] = true
	}
	for _, x := range l {
		if !old[x.MsgID] {
			if msg.id != 0 {
				m.fail("two new messages appeared")
			}
			msg.id = x.MsgID
		}
	}
	if msg.id == 0 {
		m.fail("message not listed")
	}
	for _, o := range m.nyms {
		for _, x := range o.msgs {
			if x.id == msg.id {
				m.fail("message number %d used twice", msg.id)
			}
		}
	}
	n.msgs = append(n.msgs, msg)
	sort.Slice(n.msgs, func(i, j int) bool { return n.msgs[i].id < n.msgs[j].id })
}

func show(unmapped, full string) string {
	if full == "" {
		return unmapped
	}
	return full + " <" + unmapped + ">"
}

func sortS(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

// Verify compares every query with the model.
func (m *Model) Verify() {
	db := m.db
	// values
	for _, k := range []string{msgdb.DBVersion, msgdb.WalletKey, msgdb.ActiveUID, "k", "K", "time.accounts", "none"} {
		v, err := db.GetValue(k)
		m.must(err, "GetValue")
		if v != m.kv[k] {
			m.fail("GetValue(%q) = %.60q, want %.60q", k, v, m.kv[k])
		}
	}
	// nyms
	var mapped, shown []string
	for _, n := range m.sortedNyms() {
		mapped = append(mapped, n.mapped)
		shown = append(shown, show(n.unmapped, n.full))
	}
	l, err := db.GetNyms(true)
	m.must(err, "GetNyms")
	if fmt.Sprintf("%q", sortS(l)) != fmt.Sprintf("%q", sortS(mapped)) {
		m.fail("GetNyms(true) = %q, want %q", l, mapped)
	}
	l, err = db.GetNyms(false)
	m.must(err, "GetNyms")
	if fmt.Sprintf("%q", sortS(l)) != fmt.Sprintf("%q", sortS(shown)) {
		m.fail("GetNyms(false) = %q, want %q", l, shown)
	}
	for _, id := range ids {
		n := m.nyms[id.mapped]
		u, f, err := db.GetNym(id.mapped)
		m.must(err, "GetNym")
		if n == nil {
			if u != "" || f != "" {
				m.fail("GetNym(%s) = %q, %q for unknown nym", id.mapped, u, f)
			}
			if l, err := db.GetContacts(id.mapped, false); err == nil {
				m.fail("GetContacts of unknown nym = %q", l)
			}
			if l, err := db.GetMsgIDs(id.mapped); err == nil {
				m.fail("GetMsgIDs of unknown nym = %v", l)
			}
			if l, err := db.GetAccounts(id.mapped); err == nil {
				m.fail("GetAccounts of unknown nym = %v", l)
			}
			continue
		}
		if u != n.unmapped || f != n.full {
			m.fail("GetNym(%s) = %q, %q, want %q, %q", id.mapped, u, f, n.unmapped, n.full)
		}
		m.verifyNym(n)
	}
	// inqueue: the first entry
	idx, my, cid, msg, env, err := db.GetInQueue()
	m.must(err, "GetInQueue")
	if len(m.in) == 0 {
		if idx != 0 || my != "" || msg != "" {
			m.fail("GetInQueue of empty queue = %d %s %.40q", idx, my, msg)
		}
	} else {
		e := m.in[0]
		if e.idx == 0 {
			for _, x := range m.in {
				if x.idx == idx {
					m.fail("GetInQueue returns index %d of another entry", idx)
				}
			}
			e.idx = idx
		}
		if idx != e.idx || my != e.my || cid != e.contact || msg != e.msg || env != e.env {
			m.fail("GetInQueue = %d %s %q %.40q %v, want %+v", idx, my, cid, msg, env, *e)
		}
	}
}

func (m *Model) verifyNym(n *nym) {
	db := m.db
	t, err := db.GetUpkeepAll(n.mapped)
	m.must(err, "GetUpkeepAll")
	t2, err := db.GetUpkeepAccounts(n.mapped)
	m.must(err, "GetUpkeepAccounts")
	if t != n.upAll || t2 != n.upAcc {
		m.fail("upkeep times of %s: %d %d, want %d %d", n.mapped, t, t2, n.upAll, n.upAcc)
	}
	var white, black, accs []string
	for _, id := range ids {
		c := n.contacts[id.mapped]
		u, f, typ, err := db.GetContact(n.mapped, id.mapped)
		m.must(err, "GetContact")
		if c == nil {
			if u != "" || f != "" {
				m.fail("GetContact(%s, %s) = %q, %q for unknown contact", n.mapped, id.mapped, u, f)
			}
			continue
		}
		if u != c.unmapped || f != c.full || typ != c.typ {
			m.fail("GetContact(%s, %s) = %q, %q, %d, want %+v", n.mapped, id.mapped, u, f, typ, *c)
		}
		switch c.typ {
		case msgdb.WhiteList:
			white = append(white, show(c.unmapped, c.full))
		case msgdb.BlackList:
			black = append(black, show(c.unmapped, c.full))
		}
	}
	for i, want := range [][]string{white, black} {
		l, err := db.GetContacts(n.mapped, i == 1)
		m.must(err, "GetContacts")
		if fmt.Sprintf("%q", sortS(l)) != fmt.Sprintf("%q", sortS(want)) {
			m.fail("GetContacts(%s, %v) = %q, want %q", n.mapped, i == 1, l, want)
		}
	}
	// accounts and caches
	pairs := []string{""}
	for k := range n.contacts {
		pairs = append(pairs, k)
	}
	sort.Strings(pairs)
	for _, cid := range pairs {
		a := n.accounts[cid]
		p, srv, sec, min, max, last, err := db.GetAccount(n.mapped, cid)
		load, err2 := db.GetAccountTime(n.mapped, cid)
		if a == nil {
			if err == nil || err2 == nil {
				m.fail("account of %s %q exists", n.mapped, cid)
			}
		} else {
			accs = append(accs, cid)
			m.must(err, "GetAccount")
			m.must(err2, "GetAccountTime")
			if *p != a.priv || *sec != a.secret || srv != a.server || min != a.min || max != a.max || last != a.last || load != a.load {
				m.fail("account of %s %q differs: %s %d %d %d %d, want %s %d %d %d %d", n.mapped, cid, srv, min, max, last, load, a.server, a.min, a.max, a.last, a.load)
			}
		}
		cache, err := db.GetMessageIDCache(n.mapped, cid)
		m.must(err, "GetMessageIDCache")
		var got []string
		for k, v := range cache {
			if v {
				got = append(got, k)
			}
		}
		if fmt.Sprintf("%q", sortS(got)) != fmt.Sprintf("%q", sortS(n.cache[cid])) {
			m.fail("message ID cache of %s %q = %q, want %q", n.mapped, cid, got, n.cache[cid])
		}
	}
	l, err := db.GetAccounts(n.mapped)
	m.must(err, "GetAccounts")
	if fmt.Sprintf("%q", sortS(l)) != fmt.Sprintf("%q", sortS(accs)) {
		m.fail("GetAccounts(%s) = %q, want %q", n.mapped, l, accs)
	}
	// messages
	ml, err := db.GetMsgIDs(n.mapped)
	m.must(err, "GetMsgIDs")
	if len(ml) != len(n.msgs) {
		m.fail("GetMsgIDs(%s): %d messages, want %d", n.mapped, len(ml), len(n.msgs))
	}
	sort.Slice(ml, func(i, j int) bool { return ml[i].MsgID < ml[j].MsgID })
	var undelivered *message
	for i, x := range n.msgs {
		g := ml[i]
		from, to := n.mapped, x.peer
		if x.incoming {
			from, to = x.peer, n.mapped
		}
		subj := strings.SplitN(x.body, "\n", 2)[0]
		want := msgdb.MsgID{MsgID: x.id, From: from, To: to, Incoming: x.incoming, Sent: x.sent, Date: x.date, Subject: subj, Read: x.read}
		if *g != want {
			m.fail("GetMsgIDs(%s) has %+v, want %+v", n.mapped, *g, want)
		}
		c := n.contacts[x.peer]
		wf, wt := show(n.unmapped, n.full), show(c.unmapped, c.full)
		if x.incoming {
			wf, wt = wt, wf
		}
		f, t, b, d, err := db.GetMessage(n.mapped, x.id)
		m.must(err, "GetMessage")
		if f != wf || t != wt || b != x.body || d != x.date {
			m.fail("GetMessage(%s, %d) = %q %q %.60q %d, want %q %q %.60q %d", n.mapped, x.id, f, t, b, d, wf, wt, x.body, x.date)
		}
		for _, o := range m.sortedNyms() {
			if o != n {
				if _, _, _, _, err := db.GetMessage(o.mapped, x.id); err == nil {
					m.fail("message %d of %s readable by %s", x.id, n.mapped, o.mapped)
				}
				break
			}
		}
		if x.toSend && undelivered == nil {
			undelivered = x
		}
	}
	num, peer, body, sign, min, max, err := db.GetUndeliveredMessage(n.mapped)
	m.must(err, "GetUndeliveredMessage")
	if undelivered == nil {
		if num != 0 {
			m.fail("GetUndeliveredMessage(%s) = %d, want none", n.mapped, num)
		}
	} else if x := undelivered; num != x.id || peer != x.peer || string(body) != x.body || sign != x.sign || min != x.min || max != x.max {
		m.fail("GetUndeliveredMessage(%s) = %d %s %.60q %v %d %d, want %+v", n.mapped, num, peer, body, sign, min, max, *x)
	}
	// outqueue: the first entry that needs no resend
	var first *outEntry
	for _, e := range n.out {
		if !e.resend {
			first = e
			break
		}
	}
	idx, enc, na, omin, omax, env, err := db.GetOutQueue(n.mapped)
	m.must(err, "GetOutQueue")
	if first == nil {
		if idx != 0 {
			m.fail("GetOutQueue(%s) = %d, want none", n.mapped, idx)
		}
		return
	}
	if first.idx == 0 {
		for _, o := range m.nyms {
			for _, e := range o.out {
				if e.idx == idx {
					m.fail("GetOutQueue(%s) returns index %d of another entry", n.mapped, idx)
				}
			}
		}
		first.idx = idx
	}
	if idx != first.idx || enc != first.enc || na != first.nym || omin != first.min || omax != first.max || env != first.env {
		m.fail("GetOutQueue(%s) = %d %.40q %.40q %d %d %v, want %+v", n.mapped, idx, enc, na, omin, omax, env, *first)
	}
}

// Drain works all queues to the end, which shows their complete order.
func (m *Model) Drain() {
	for _, n := range m.sortedNyms() {
		m.log("ClearResendOutQueue %s (drain)", n.mapped)
		m.must(m.db.ClearResendOutQueue(n.mapped), "ClearResendOutQueue")
		for _, e := range n.out {
			e.resend = false
		}
		for len(n.out) > 0 {
			m.verifyNym(n) // learns the index
			e := n.out[0]
			m.log("RemoveOutQueue %d (drain)", e.idx)
			m.must(m.db.RemoveOutQueue(e.idx, 7), "RemoveOutQueue")
			e.msg.sent, e.msg.date = true, 7
			n.out = n.out[1:]
		}
	}
	for len(m.in) > 0 {
		m.Verify()
		e := m.in[0]
		m.log("DelInQueue %d (drain)", e.idx)
		m.must(m.db.DelInQueue(e.idx), "DelInQueue")
		m.in = m.in[1:]
	}
	m.Verify()
}
