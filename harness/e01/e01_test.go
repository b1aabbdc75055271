// Package e01 decides property E01: messages given to mutectrl are delivered
// once, unchanged, to the right recipient, whatever fails in between.
package e01

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"verif/ctlkit"
	"verif/netkit"
	"verif/vt"

	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msgdb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ctlkit.Role(); vt.Main(m) }

// record is a message the user has added.
type record struct {
	text, to  string
	from      *ctlkit.Person
	min, max  int32
	mails     int  // deliveries
	envelopes int  // different deliveries
	ambiguous bool // the sender could not know that it was delivered
	num       int64
}

type world struct {
	*ctlkit.World
	rt       *rapid.T
	c        *vt.Case
	alice    *ctlkit.Person
	al       *ctlkit.Person // her other user ID
	recs     []*record
	contact  map[string]msgdb.ContactType
	names    map[string]string // full names
	tokens   map[string]bool
	initial  int
	used     map[string]*record
	seen     map[string]*record // by mail
	spare    bool               // tokens may be lost
	faulty   int
	retracts int
	hist     []string
}

var people = []string{"alice", "bob", "carol", "dan", "erin", "ally@alice"}

func (w *world) fatalf(f string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf("%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.hist, "\n  "))
}

func (w *world) log(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	w.hist = append(w.hist, s)
}

func (w *world) run(in []byte, args ...string) ctlkit.Result {
	r := w.Run(w.alice, in, args...)
	if r.Hung {
		w.fatalf("mutectrl %v hangs", args)
	}
	if r.Crash != "" {
		w.fatalf("mutectrl %v crashes: %s", args, r.Crash)
	}
	return r
}

func text(rt *rapid.T, n int) string {
	s := fmt.Sprintf("%d ", n)
	switch vt.Uniform(rt, 6, "textkind") {
	case 0:
		return s + rapid.StringMatching(`[a-z \n]{0,40}`).Draw(rt, "text")
	case 1:
		return s + rapid.String().Draw(rt, "utext")
	case 2:
		return s + string(vt.Expand(rapid.SampledFrom([]int{100, 4096, 16000, 40000}).Draw(rt, "len"), rapid.Uint32().Draw(rt, "seed"), 1))
	case 3: // around the maximum
		l := msg.MaxContentLength + rapid.IntRange(-2, 2).Draw(rt, "len") - len(s)
		if rapid.Bool().Draw(rt, "wide") { // characters of more than one byte
			return s + strings.Repeat("é", l/2) + strings.Repeat("x", l%2)
		}
		return s + string(vt.Expand(l, rapid.Uint32().Draw(rt, "seed"), 1))
	case 4:
		return s + string(vt.Expand(rapid.IntRange(0, 300).Draw(rt, "len"), rapid.Uint32().Draw(rt, "seed"), 2))
	}
	return s + "hello\nworld\n"
}

func (w *world) add() {
	rt := w.rt
	to := rapid.SampledFrom([]string{"bob", "bob", "carol", "carol", "dan", "erin"}).Draw(rt, "to")
	id := to + "@" + ctlkit.Domain
	from := w.alice
	if vt.Uniform(rt, 4, "from") == 0 {
		from = w.al
		if to == "dan" || to == "erin" {
			to, id = "bob", "bob@"+ctlkit.Domain
		}
	}
	r := &record{from: from, to: to, text: text(rt, len(w.hist)), min: 60, max: 61}
	if rapid.Bool().Draw(rt, "delays") {
		r.min = 60 + rapid.Int32Range(0, 4000).Draw(rt, "min")
		r.max = r.min + 1 + rapid.Int32Range(0, 4000).Draw(rt, "spread")
	}
	bad := vt.Uniform(rt, 12, "bad")
	min, max := fmt.Sprint(r.min), fmt.Sprint(r.max)
	refuse := ""
	switch bad {
	case 0:
		max, refuse = min, "delays"
	case 1:
		min, refuse = rapid.SampledFrom([]string{"59", "0", "-5", "4294967400"}).Draw(rt, "badmin"), "delays"
		max = rapid.SampledFrom([]string{max, "4294969999"}).Draw(rt, "badmax")
	}
	args := []string{"msg", "add", "--from", from.ID, "--mindelay", min, "--maxdelay", max}
	in := []byte(r.text)
	how := vt.Uniform(rt, 4, "how")
	switch how {
	case 0, 1:
		args = append(args, "--to", id)
	case 2:
		f := filepath.Join(w.Dir, "message")
		vt.InfraIf(os.WriteFile(f, in, 0600))
		args, in = append(args, "--to", id, "--file", f), nil
	case 3:
		sub := rapid.StringMatching(`[A-Za-z0-9]{1,30}`).Draw(rt, "subject")
		in = []byte(fmt.Sprintf("From: x@example.com\r\nTo: %s\r\nSubject: %s\r\n\r\n%s", id, sub, r.text))
		r.text = sub + "\n" + r.text
		args = append(args, "--mail-input")
	}
	if len(r.text) > msg.MaxContentLength {
		refuse = "too long"
	}
	if ct, ok := w.contact[to]; from == w.alice && (!ok || ct != msgdb.WhiteList) {
		refuse = "contact"
	}
	res := w.run(in, args...)
	w.log("add (%d) %s %s %d bytes %.20q min %s max %s -> %d", how, from.Name, to, len(r.text), r.text, min, max, res.Code)
	if refuse != "" {
		if res.Code == 0 {
			w.fatalf("message accepted (%s)", refuse)
		}
		w.c.Label("refused %s", refuse)
		return
	}
	if res.Code != 0 {
		w.fatalf("message not accepted: %s", res.Err)
	}
	w.recs = append(w.recs, r)
}

var faults = map[string][]string{
	"mutecrypt-encrypt": {"before", "after", "partial", "partials", "late", "garbage", "selfb", "selfa", "killb", "killa"},
	"muteproto-create":  {"before", "after", "partial", "late", "selfb", "selfa", "killb", "killa"},
	"muteproto-deliver": {"before", "after", "junk", "garbage", "selfb", "selfa", "killb", "killa"},
}

var dbFaults = []string{"msgs OutQueue INSERT", "msgs OutQueue UPDATE", "msgs OutQueue UPDATE", "msgs OutQueue DELETE", "msgs Messages UPDATE",
	"keys Sessions INSERT", "keys Sessions UPDATE", "keys MessageKeys INSERT", "keys MessageKeys DELETE", "keys SessionStates INSERT", "keys SessionStates UPDATE", "keys SessionKeys INSERT"}

const final = "client: final serviceguard error"

func (w *world) send() {
	rt := w.rt
	plan := map[string][]string{}
	ambiguous, tool := false, false
	for _, t := range []string{"mutecrypt-encrypt", "muteproto-create", "muteproto-deliver"} {
		if vt.Uniform(rt, 3, "fault "+t) > 0 {
			continue
		}
		n := rapid.IntRange(0, 3).Draw(rt, "skip")
		for i := 0; i < n; i++ {
			plan[t] = append(plan[t], "ok")
		}
		f := rapid.SampledFrom(faults[t]).Draw(rt, "mode")
		plan[t] = append(plan[t], f)
		tool = true
		if t == "muteproto-deliver" && (f == "after" || f == "garbage" || f == "killa" || f == "selfa") {
			ambiguous = true
		}
		if f[0] == 'k' {
			w.spare = true
		}
	}
	var seq []map[string]netkit.Action
	temp, perm := false, false
	for n := rapid.IntRange(0, 4).Draw(rt, "connections"); n > 0; n-- {
		at := map[string]netkit.Action{}
		if vt.Uniform(rt, 3, "smtp fault") == 0 {
			step := rapid.SampledFrom([]string{"connect", "ehlo", "starttls", "handshake", "mail", "rcpt", "data", "body"}).Draw(rt, "step")
			switch k := vt.Uniform(rt, 5, "kind"); {
			case k == 0 && step != "body": // a lost reply to the body is ambiguous
				at[step] = netkit.Action{Drop: true}
				temp = true
			case k == 1 && (step == "mail" || step == "rcpt" || step == "body"):
				at[step] = netkit.Action{Code: 554, Text: []string{final}}
				w.retracts++
				w.spare = true
				perm = true
			case k == 2 && step != "handshake":
				at[step] = netkit.Action{Code: 550, Text: []string{"no"}}
				perm = true
			case step != "handshake":
				at[step] = netkit.Action{Code: 451, Text: []string{"later"}}
				if temp = true; step == "ehlo" || step == "starttls" {
					perm = true // without extensions or encryption nothing is sent
				}
			}
		}
		seq = append(seq, at)
	}
	who := w.alice
	if vt.Uniform(rt, 5, "who") == 0 {
		who = w.al
	}
	args := []string{"msg", "send", "--id", who.ID}
	all := false
	if vt.Uniform(rt, 4, "all") == 0 {
		args, all = []string{"msg", "send", "--all"}, true
	}
	fd := vt.Uniform(rt, 8, "fail-delivery") == 0
	if fd {
		args = append(args, "--fail-delivery")
	}
	if tool || temp || perm || fd {
		w.faulty++
	}
	endFault, dbf := func() {}, ""
	if vt.Uniform(rt, 4, "db fault") == 0 {
		f := strings.Fields(rapid.SampledFrom(dbFaults).Draw(rt, "where"))
		n := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(rt, "after")
		if f[1] == "MessageKeys" && n > 0 {
			n += rapid.SampledFrom([]int{0, 0, 49, 50, 99}).Draw(rt, "more")
		}
		endFault, dbf = w.alice.DBFault(f[0], f[1], f[2], n), fmt.Sprint(f, n)
		// what happened to a delivered message is not stored
		ambiguous = ambiguous || f[2] == "DELETE" && f[1] == "OutQueue" || f[1] == "Messages"
		tool = true
		w.c.Label("db %s %s", f[1], f[2])
	}
	w.Plan(plan)
	w.Mail(seq)
	res := w.run(nil, args...)
	w.Mail(nil)
	endFault()
	w.log("send %v %v db %s smtp %v -> %d %s", args[2:], plan, dbf, seq, res.Code, strings.TrimSpace(res.Err))
	if res.Killed {
		w.c.Label("killed")
	}
	w.collect(ambiguous, tool || temp || perm || fd)
	if !tool && !perm && !fd {
		if res.Code != 0 {
			w.fatalf("send fails: %s", res.Err)
		}
		undelivered := 0
		for _, r := range w.recs {
			if r.mails == 0 && (all || r.from == who) {
				undelivered++
			}
		}
		if n := failed(seq); undelivered > n {
			w.fatalf("%d messages not delivered with %d failed connections", undelivered, n)
		}
	}
}

func failed(seq []map[string]netkit.Action) (n int) {
	for _, a := range seq {
		if len(a) > 0 {
			n++
		}
	}
	return
}

// collect checks the mails that have arrived.
func (w *world) collect(ambiguous, faulty bool) {
	mails, bad := w.TakeMails()
	if bad != "" {
		w.fatalf("%s", bad)
	}
	for _, m := range mails {
		if r := w.seen[string(m.Data)]; r != nil {
			if !r.ambiguous {
				w.fatalf("message %.20q delivered again", r.text)
			}
			r.mails++
			r.ambiguous = r.ambiguous && ambiguous
			w.c.Label("delivered again after an ambiguous failure")
			continue
		}
		if !w.tokens[m.Token] {
			w.fatalf("mail with token %q, which is none of the wallet's", m.Token)
		}
		if w.used[m.Token] != nil {
			w.fatalf("token %s used twice", m.Token)
		}
		var p *ctlkit.Person
		for _, q := range w.People {
			if strings.HasPrefix(m.Box, string(q.Mailbox())) {
				p = q
			}
		}
		if p == nil {
			w.fatalf("mail for unknown mailbox %s", m.Box)
		}
		enc, err := p.Open(m.Body)
		if err != nil {
			w.fatalf("%s cannot open the mail: %v", p.Name, err)
		}
		res := p.CE.RunWith(p.CE.Pass+"\n", []byte(base64.StdEncoding.EncodeToString(enc)), "decrypt")
		if res.Err != nil || res.Panic != "" {
			w.fatalf("%s cannot decrypt the message: %v %s", p.Name, res.Err, res.Panic)
		}
		var r *record
		for _, x := range w.recs {
			if x.text == string(res.Out) && bytes.HasPrefix(res.Status, []byte("SENDERIDENTITY:\t"+x.from.ID+"\n")) && x.to == p.Name && x.min == m.Min && x.max == m.Max {
				r = x
			}
		}
		if r == nil {
			w.fatalf("%s received a message that was not sent: %q %.80q (%d to %d seconds)", p.Name, res.Status, res.Out, m.Min, m.Max)
		}
		if r.mails > 0 && !r.ambiguous {
			w.fatalf("message %.20q delivered again in another envelope", r.text)
		}
		r.mails++
		r.envelopes++
		r.ambiguous = ambiguous
		w.used[m.Token] = r
		if p.Name == "bob" || p.Name == "carol" {
			w.reply(p, r.from)
		}
		w.seen[string(m.Data)] = r
	}
	// status
	db := w.alice.DB()
	ids, err := db.GetMsgIDs(w.alice.ID)
	vt.InfraIf(err)
	ids2, err := db.GetMsgIDs(w.al.ID)
	vt.InfraIf(err)
	ids = append(ids, ids2...)
	vt.InfraIf(db.Close())
	if len(ids) != len(w.recs) {
		w.fatalf("%d messages listed, %d added", len(ids), len(w.recs))
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].MsgID < ids[j].MsgID })
	for i, id := range ids {
		r := w.recs[i]
		r.num = id.MsgID
		if id.Incoming || id.To != r.to+"@"+ctlkit.Domain || id.From != r.from.ID {
			w.fatalf("message %.20q to %s listed as %+v", r.text, r.to, id)
		}
		if id.Sent && r.mails == 0 {
			w.fatalf("message %.20q is listed as sent, but was not delivered", r.text)
		}
		if !id.Sent && r.mails > 0 && !r.ambiguous {
			w.fatalf("message %.20q was delivered, but is not listed as sent", r.text)
		}
	}
}

// reply checks that an answer of the recipient reaches the sender.
func (w *world) reply(p, to *ctlkit.Person) {
	res := p.CE.RunWith(p.CE.Pass+"\n", []byte("reply"), "encrypt", "--from", p.ID, "--to", to.ID, "--nymaddress",
		base64.StdEncoding.EncodeToString(p.Nym(p.ID)))
	if res.Err != nil || res.Panic != "" {
		w.fatalf("%s cannot answer %s: %v %s", p.Name, to.Name, res.Err, res.Panic)
	}
	enc, err := base64.StdEncoding.DecodeString(string(res.Out))
	vt.InfraIf(err)
	nym, err := base64.StdEncoding.DecodeString(strings.TrimSpace(strings.TrimPrefix(string(res.Status), "NYMADDRESS:\t")))
	if err != nil {
		w.fatalf("answer of %s to %s goes to %q", p.Name, to.Name, res.Status)
	}
	body, box, err := w.TryEnvelope(nym, enc)
	if err != nil {
		w.fatalf("answer of %s to %s cannot be sent: %v", p.Name, to.Name, err)
	}
	if got, err := to.Open(body); err != nil || !bytes.Equal(got, enc) || !strings.HasPrefix(box, string(to.Mailbox())) {
		w.fatalf("answer of %s to %s does not reach it (mailbox %s): %v", p.Name, to.Name, box, err)
	}
}

func (w *world) setContact(name string) {
	rt := w.rt
	id := name + "@" + ctlkit.Domain
	ct, known := w.contact[name]
	switch vt.Uniform(rt, 6, "contact op") {
	case 5: // remove
		res := w.run(nil, "contact", "remove", "--id", w.alice.ID, "--contact", id)
		w.log("contact remove %s -> %d", name, res.Code)
		if res.Code != 0 {
			w.fatalf("contact remove fails: %s", res.Err)
		}
		if known {
			w.contact[name] = msgdb.GrayList
		}
	case 0: // add
		full := rapid.SampledFrom([]string{"", "Full Name", "Ürs"}).Draw(rt, "fullname")
		args := []string{"contact", "add", "--id", w.alice.ID, "--contact", id}
		if full != "" {
			args = append(args, "--full-name", full)
		}
		down, f := vt.Uniform(rt, 4, "down") == 0, ""
		if vt.Uniform(rt, 4, "loopfault") == 0 {
			f = rapid.SampledFrom([]string{"before", "killb"}).Draw(rt, "mode")
			w.Plan(map[string][]string{"mutecrypt-loop": {f}})
		}
		w.KeyServer(!down)
		res := w.run(nil, args...)
		w.KeyServer(true)
		w.log("contact add %s %q down %v fault %s -> %d %s", name, full, down, f, res.Code, strings.TrimSpace(res.Err))
		white := known && ct == msgdb.WhiteList
		if white || !(down || f != "") {
			if res.Code != 0 && !res.Killed {
				w.fatalf("contact add fails: %s", res.Err)
			}
		} else if res.Code == 0 && !known {
			w.fatalf("contact added without its keys")
		}
		if res.Code == 0 {
			w.contact[name] = msgdb.WhiteList
			if !known {
				w.names[name] = full
			} else if full != "" { // may be given again
				db := w.alice.DB()
				if _, f, _, err := db.GetContact(w.alice.ID, id); err == nil && f == full {
					w.names[name] = full
				}
				vt.InfraIf(db.Close())
			}
		}
	case 1: // block
		res := w.run(nil, "contact", "block", "--id", w.alice.ID, "--contact", id)
		w.log("contact block %s -> %d", name, res.Code)
		if res.Code != 0 {
			w.fatalf("contact block fails: %s", res.Err)
		}
		w.contact[name] = msgdb.BlackList
	case 2: // unblock
		res := w.run(nil, "contact", "unblock", "--id", w.alice.ID, "--contact", id)
		w.log("contact unblock %s -> %d", name, res.Code)
		if ok := known && ct == msgdb.BlackList; ok != (res.Code == 0) {
			w.fatalf("contact unblock: %s", res.Err)
		} else if ok {
			w.contact[name] = msgdb.WhiteList
		}
	case 3: // edit
		full := rapid.SampledFrom([]string{"A", "Other Name"}).Draw(rt, "fullname")
		res := w.run(nil, "contact", "edit", "--id", w.alice.ID, "--contact", id, "--full-name", full)
		w.log("contact edit %s %q -> %d", name, full, res.Code)
		if known != (res.Code == 0) {
			w.fatalf("contact edit: %s", res.Err)
		}
		if known {
			w.names[name] = full
		}
	case 4: // list
		for _, bl := range []bool{false, true} {
			cmd := "list"
			if bl {
				cmd = "blacklist"
			}
			res := w.run(nil, "contact", cmd, "--id", w.alice.ID)
			var want []string
			for n, t := range w.contact {
				if (t == msgdb.BlackList) == bl && t != msgdb.GrayList {
					id := n + "@" + ctlkit.Domain
					if full := w.names[n]; full != "" {
						id = full + " <" + id + ">"
					}
					want = append(want, id)
				}
			}
			var got []string
			for _, l := range strings.Split(strings.TrimSpace(res.Out), "\n") {
				if l != "" {
					got = append(got, strings.TrimSpace(l))
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			if res.Code != 0 || fmt.Sprint(got) != fmt.Sprint(want) {
				w.fatalf("contact %s: %q %s, want %q", cmd, res.Out, res.Err, want)
			}
		}
	}
	db := w.alice.DB()
	defer db.Close()
	for _, n := range people[1:5] {
		un, full, t, err := db.GetContact(w.alice.ID, n+"@"+ctlkit.Domain)
		vt.InfraIf(err)
		ct, known := w.contact[n]
		if known != (un != "") || known && (t != ct || full != w.names[n]) {
			w.fatalf("contact %s is %q %q %v, want %v %v %q", n, un, full, t, known, ct, w.names[n])
		}
	}
}

func TestSending(t *testing.T) {
	vt.Check(t, "random sequences of adding and sending messages and changing contacts with failing, dying and killing tools and failing mail servers; non-trivial: at least 2 messages were delivered and at least one sending was disturbed", 30, 400, func(rt *rapid.T, c *vt.Case) {
		w := &world{World: ctlkit.New(people, []string{"alice:bob,carol", "bob:alice,ally", "carol:alice,ally"}), rt: rt, c: c, contact: map[string]msgdb.ContactType{}, names: map[string]string{},
			tokens: map[string]bool{}, used: map[string]*record{}, seen: map[string]*record{}}
		defer w.Close()
		w.alice = w.People["alice"]
		db := w.alice.DB()
		for _, n := range []string{"bob", "carol"} {
			vt.InfraIf(db.AddContact(w.alice.ID, n+"@"+ctlkit.Domain, n+"@"+ctlkit.Domain, "", msgdb.WhiteList))
			w.contact[n] = msgdb.WhiteList
		}
		w.al = w.People["ally"]
		for _, n := range []string{"bob", "carol"} {
			vt.InfraIf(db.AddContact(w.al.ID, n+"@"+ctlkit.Domain, n+"@"+ctlkit.Domain, "", msgdb.WhiteList))
		}
		vt.InfraIf(db.AddContact(w.alice.ID, "erin@"+ctlkit.Domain, "erin@"+ctlkit.Domain, "E", msgdb.GrayList))
		w.contact["erin"], w.names["erin"] = msgdb.GrayList, "E"
		vt.InfraIf(db.Close())
		n := 4 + vt.Uniform(rt, 8, "ops")
		for i := 0; i < n; i++ {
			switch vt.Uniform(rt, 10, "op") {
			case 0, 1, 2, 3, 4:
				if i == 0 || len(w.recs) < 8 {
					w.add()
				}
			case 5, 6, 7:
				w.topUp()
				w.send()
			case 8, 9:
				w.setContact(rapid.SampledFrom(people[1:5]).Draw(rt, "name"))
			}
		}
		w.topUp()
		res := w.run(nil, "msg", "send", "--all")
		w.log("last send -> %d %s", res.Code, strings.TrimSpace(res.Err))
		w.collect(false, false)
		if res.Code != 0 {
			w.fatalf("undisturbed send fails: %s", res.Err)
		}
		for _, r := range w.recs {
			if r.mails == 0 {
				w.fatalf("message %.20q not delivered", r.text)
			}
		}
		if !w.spare {
			if b := int(w.alice.Balance()); b != w.initial-len(w.used) {
				w.fatalf("%d of %d tokens left after %d uses", b, w.initial, len(w.used))
			}
		}
		if len(w.recs) > 0 && vt.Uniform(rt, 3, "list") == 0 {
			w.list()
		}
		if len(w.used) >= 2 && w.faulty > 0 {
			c.NonTrivial(strings.Join(w.hist, "\n"))
		}
		c.Sample("%s", strings.Join(w.hist, "; "))
	})
}

// topUp makes sure that there are as many tokens as messages to send and more
// if some may get lost.
func (w *world) topUp() {
	need := 0
	for _, r := range w.recs {
		if r.mails == 0 {
			need++
		}
	}
	have := w.initial - len(w.used)
	if w.spare || w.retracts > 0 {
		need, have = 2*need+8, 0
	}
	for _, t := range w.alice.AddTokens(need-have, fmt.Sprintf("token%d", w.initial)) {
		w.tokens[string(t)] = true
		w.initial++
	}
}

func (w *world) list() {
	res := w.run(nil, "msg", "list", "--id", w.alice.ID)
	lines := strings.Split(strings.TrimSuffix(res.Out, "\n"), "\n")
	for _, r := range w.recs {
		if r.from != w.alice {
			continue
		}
		sub := strings.SplitN(r.text, "\n", 2)[0]
		want := []string{fmt.Sprintf("<S %d\t", r.num), "\t" + w.alice.ID + "\t" + r.to + "@" + ctlkit.Domain + "\t" + sub}
		ok := false
		for _, l := range lines {
			ok = ok || strings.HasPrefix(l, want[0]) && strings.HasSuffix(l, want[1])
		}
		if !ok {
			w.fatalf("message %.20q is not listed with %q: %.300q", r.text, want, res.Out)
		}
	}
}
