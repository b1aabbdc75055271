// Package e02 decides property E02: all genuine messages in a user's mailbox
// are shown once, unchanged and with their sender, whatever else is in the
// mailbox and whatever fails while they are fetched.
package e02

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"testing"

	"verif/ctlkit"
	"verif/vt"

	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msgdb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ctlkit.Role(); vt.Main(m) }

// genuine is a message a person has sent to alice.
type genuine struct {
	from, text string
	times      map[int64]bool // of it and its replays
	enc, body  []byte
	must, may  bool // be shown
	shown      bool
	deleted    bool
	num        int64
	read       bool
}

type world struct {
	*ctlkit.World
	rt      *rapid.T
	c       *vt.Case
	alice   *ctlkit.Person
	all     []*genuine
	contact map[string]msgdb.ContactType
	now     int64
	poison  int
	stuck   int
	faulty  int
	last    int64
	kinds   map[string]bool
	failing []*ctlkit.Entry
	size    int
	hist    []string
}

var senders = []string{"bob", "carol", "dan", "erin"}

func (w *world) fatalf(f string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf("%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.hist, "\n  "))
}

func (w *world) log(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	w.hist = append(w.hist, s)
}

func (w *world) run(args ...string) ctlkit.Result {
	r := w.Run(w.alice, nil, args...)
	if r.Hung {
		w.fatalf("mutectrl %v hangs", args)
	}
	if r.Crash != "" {
		w.fatalf("mutectrl %v crashes: %s", args, r.Crash)
	}
	return r
}

// encrypt encrypts a message of one person to another.
func encrypt(from, to *ctlkit.Person, text string) []byte {
	r := from.CE.RunWith(from.CE.Pass+"\n", []byte(text), "encrypt", "--from", from.ID, "--to", to.ID,
		"--nymaddress", base64.StdEncoding.EncodeToString(from.Nym(from.ID)))
	if r.Err != nil || r.Panic != "" {
		vt.Infra(fmt.Errorf("encrypt %s to %s: %v %s", from.ID, to.ID, r.Err, r.Panic))
	}
	b, err := base64.StdEncoding.DecodeString(string(r.Out))
	vt.InfraIf(err)
	return b
}

func (w *world) tick() int64 {
	w.now += rapid.SampledFrom([]int64{0, 0, 1, 50}).Draw(w.rt, "seconds")
	return w.now
}

func (w *world) text() string {
	s := fmt.Sprintf("%d", len(w.all))
	switch vt.Uniform(w.rt, 5, "textkind") {
	case 0:
		return s + "\n"
	case 1:
		return s + rapid.String().Draw(w.rt, "utext")
	case 2:
		return s + string(vt.Expand(rapid.SampledFrom([]int{4096, 16000, msg.MaxContentLength - len(s)}).Draw(w.rt, "len"), rapid.Uint32().Draw(w.rt, "seed"), 1))
	case 3:
		return s + string(vt.Expand(rapid.IntRange(0, 300).Draw(w.rt, "len"), rapid.Uint32().Draw(w.rt, "seed"), 2))
	}
	return s + " subject\r\nhello\nworld\n"
}

func (w *world) put() {
	from := rapid.SampledFrom([]string{"bob", "bob", "carol", "dan", "erin"}).Draw(w.rt, "from")
	g := &genuine{from: from, text: w.text(), times: map[int64]bool{}}
	ct, known := w.contact[from]
	g.must = !known || ct != msgdb.BlackList
	g.may = g.must
	g.enc = encrypt(w.People[from], w.alice, g.text)
	g.body = w.Envelope(w.alice.Nym(w.alice.ID), g.enc)
	w.size = len(base64.StdEncoding.EncodeToString(g.body))
	t := w.tick()
	w.Put(w.alice, t, g.body)
	g.times[t] = true
	w.all = append(w.all, g)
	w.log("at %d message from %s, %d bytes %.20q", t, from, len(g.text), g.text)
}

func (w *world) putPoison() {
	rt := w.rt
	t := w.tick()
	kind := vt.Uniform(rt, 7, "poison")
	var g *genuine
	if kind < 3 || kind == 6 {
		if len(w.all) == 0 {
			kind = 3
		} else {
			g = rapid.SampledFrom(w.all).Draw(rt, "message")
		}
	}
	nym := w.alice.Nym(w.alice.ID)
	var body []byte
	what := ""
	switch kind {
	case 0, 1:
		g.times[t] = true
		body, what = g.body, "replay"
	case 2:
		g.times[t] = true
		body, what = vt.Mutation(rt, g.body, "mutation")
		what = "mutated envelope: " + what
	case 3:
		body, what = vt.Expand(rapid.SampledFrom([]int{0, 1, 10, 300, 50000}).Draw(rt, "len"), rapid.Uint32().Draw(rt, "seed"), 0), "garbage"
	case 4:
		body, what = w.Envelope(w.alice.Nym("other@"+ctlkit.Domain), encrypt(w.People["bob"], w.alice, "to other nym")), "for another nym"
	case 5:
		switch vt.Uniform(rt, 3, "inner") {
		case 0:
			body, what = w.Envelope(nym, encrypt(w.People["bob"], w.People["carol"], "to carol")), "encrypted for somebody else"
		case 1:
			body, what = w.Envelope(nym, vt.Expand(rapid.SampledFrom([]int{4096, 9000, 40000}).Draw(rt, "len"), rapid.Uint32().Draw(rt, "seed"), 0)), "garbage in envelope"
		case 2:
			body, what = w.Envelope(w.People["bob"].Nym("bob@"+ctlkit.Domain), encrypt(w.People["carol"], w.alice, "wrong mailbox")), "envelope of another mailbox"
		}
	case 6:
		g.times[t] = true
		enc, d := vt.Mutation(rt, g.enc, "mutation")
		if len(enc) > 4100 && len(enc) < 50000 {
			body = w.Envelope(nym, enc)
		}
		what = "mutated message: " + d
	}
	w.Put(w.alice, t, body)
	w.poison++
	if strings.HasPrefix(what, "garbage in") || strings.HasPrefix(what, "mutated message") {
		w.stuck++ // may be kept for ever
	}
	w.kinds[what[:6]] = true
	w.log("at %d poison: %s", t, what)
}

// dbFaults are those after which nothing is lost: A decrypted message can be
// lost when it cannot be stored.
var dbFaults = []string{"msgs InQueue INSERT", "msgs InQueue INSERT", "msgs InQueue UPDATE", "msgs MessageIDCache INSERT", "msgs MessageIDCache DELETE", "msgs Accounts UPDATE",
	"keys Sessions INSERT", "keys Sessions UPDATE", "keys MessageKeys INSERT", "keys MessageKeys DELETE", "keys SessionStates INSERT", "keys SessionStates UPDATE",
	"keys SessionKeys INSERT", "keys SessionKeys UPDATE", "keys Hashchains INSERT", "keys PublicUIDs INSERT"}

func (w *world) fetch(disturb bool) {
	rt := w.rt
	plan := map[string][]string{}
	what := ""
	endFault := func() {}
	if disturb {
		skip := func(n int, f string) (l []string) {
			for n = rapid.IntRange(0, n).Draw(rt, "skip"); n > 0; n-- {
				l = append(l, "ok")
			}
			return append(l, f)
		}
		for k := rapid.IntRange(1, 2).Draw(rt, "faults"); k > 0; k-- {
			switch vt.Uniform(rt, 11, "fault") {
			case 0, 1, 2:
				f := rapid.SampledFrom([]string{"die", "die", "kill", "kill", "before", "killb"}).Draw(rt, "mode")
				if len(f) < 5 && f != "killb" {
					f = fmt.Sprintf("%s:%d", f, vt.Uniform(rt, 5, "whole")*(w.size+100)+rapid.SampledFrom([]int{0, 1, 30, 60, 80, 90, 95, 97, 100, 120, 200, w.size / 2, w.size, w.size + 70}).Draw(rt, "part"))
				}
				plan["muteproto-fetch"] = []string{f}
			case 3:
				plan["mutecrypt-decrypt"] = skip(3, rapid.SampledFrom([]string{"before", "selfb", "selfb", "killb"}).Draw(rt, "mode"))
			case 4:
				plan["mutecrypt-loop"] = skip(1, rapid.SampledFrom([]string{"before", "selfb", "killb"}).Draw(rt, "mode"))
			case 5:
				w.ListError(rapid.SampledFrom([]string{"internal error", ""}).Draw(rt, "text"))
				what += " list error"
			case 6:
				if es := w.Entries(w.alice); len(es) > 0 {
					e := rapid.SampledFrom(es).Draw(rt, "entry")
					w.SetFail(e, "internal error")
					w.failing = append(w.failing, e)
					what += " message error"
				}
			case 8, 9, 10:
				if strings.Contains(what, "db") {
					continue
				}
				f := strings.Fields(rapid.SampledFrom(dbFaults).Draw(rt, "where"))
				n := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(rt, "after")
				if f[1] == "MessageKeys" && n > 0 {
					n += rapid.SampledFrom([]int{0, 0, 49, 50, 99}).Draw(rt, "more")
				}
				endFault = w.alice.DBFault(f[0], f[1], f[2], n)
				what += fmt.Sprint(" db ", f, n)
				w.c.Label("db %s %s", f[1], f[2])
			case 7:
				w.KeyServer(false)
				what += " key server down"
			}
		}
		w.faulty++
	}
	args := []string{"msg", "fetch", "--id", w.alice.ID}
	if vt.Uniform(rt, 4, "all") == 0 {
		args = []string{"msg", "fetch", "--all"}
	}
	w.Plan(plan)
	res := w.run(args...)
	endFault()
	w.ListError("")
	w.KeyServer(true)
	for _, e := range w.failing {
		w.SetFail(e, "")
	}
	w.failing = nil
	w.log("fetch %v%s -> %d %s", plan, what, res.Code, strings.TrimSpace(res.Err))
	if !disturb && w.stuck == 0 && res.Code != 0 {
		w.fatalf("fetch fails: %s", res.Err)
	}
	if res.Killed {
		w.c.Label("killed")
	}
	w.check()
}

// check compares what is stored.
func (w *world) check() {
	db := w.alice.DB()
	defer db.Close()
	ids, err := db.GetMsgIDs(w.alice.ID)
	vt.InfraIf(err)
	sort.Slice(ids, func(i, j int) bool { return ids[i].MsgID < ids[j].MsgID })
	here := map[*genuine]bool{}
	for _, id := range ids {
		_, _, text, date, err := db.GetMessage(w.alice.ID, id.MsgID)
		vt.InfraIf(err)
		var g *genuine
		for _, x := range w.all {
			if x.text == text && id.From == x.from+"@"+ctlkit.Domain {
				g = x
			}
		}
		switch {
		case g == nil:
			w.fatalf("message shown that nobody has sent: from %s %.80q", id.From, text)
		case here[g]:
			w.fatalf("message %.20q is shown twice", text)
		case !g.may:
			w.fatalf("message %.20q from a blocked contact is shown", text)
		case g.deleted:
			w.fatalf("deleted message %.20q is shown again", text)
		case g.shown && g.num != id.MsgID:
			w.fatalf("message %.20q has got another number", text)
		case !id.Incoming || id.To != w.alice.ID || !g.times[date] || date != id.Date:
			w.fatalf("message %.20q is shown as %+v, date %d", text, id, date)
		case id.Subject != strings.SplitN(text, "\n", 2)[0]:
			w.fatalf("message %.20q has subject %q", text, id.Subject)
		case id.Read != g.read:
			w.fatalf("message %.20q is marked read: %v", text, id.Read)
		}
		here[g] = true
		g.shown, g.num = true, id.MsgID
	}
	for _, g := range w.all {
		if g.shown && !g.deleted && !here[g] {
			w.fatalf("message %.20q has vanished", g.text)
		}
	}
	for _, n := range senders {
		un, _, t, err := db.GetContact(w.alice.ID, n+"@"+ctlkit.Domain)
		vt.InfraIf(err)
		ct, known := w.contact[n]
		switch {
		case !known && un != "":
			if t != msgdb.GrayList {
				w.fatalf("unknown sender %s became a contact of type %v", n, t)
			}
			w.contact[n] = t
		case known && (un == "" || t != ct):
			w.fatalf("contact %s is %q %v, want %v", n, un, t, ct)
		}
		if un != "" && un != n+"@"+ctlkit.Domain {
			w.fatalf("contact %s has name %q", n, un)
		}
	}
}

// use reads or deletes a message or lists all.
func (w *world) use() {
	var l []*genuine
	for _, g := range w.all {
		if g.shown && !g.deleted {
			l = append(l, g)
		}
	}
	if len(l) == 0 {
		return
	}
	g := rapid.SampledFrom(l).Draw(w.rt, "shown")
	num := fmt.Sprint(g.num)
	switch vt.Uniform(w.rt, 3, "use") {
	case 0:
		res := w.run("msg", "delete", "--id", w.alice.ID, "--msgnum", num)
		w.log("delete %.20q -> %d", g.text, res.Code)
		if res.Code != 0 {
			w.fatalf("delete fails: %s", res.Err)
		}
		g.deleted = true
	case 1:
		res := w.run("msg", "read", "--id", w.alice.ID, "--msgnum", num)
		w.log("read %.20q -> %d", g.text, res.Code)
		parts := append(strings.SplitN(g.text, "\n", 2), "")
		i := strings.Index(res.Out, "\r\n\r\n")
		if res.Code != 0 || i < 0 || res.Out[i+4:] != parts[1] {
			w.fatalf("message %.80q is read as %.200q %s", g.text, res.Out, res.Err)
		}
		if h := res.Out[:i]; !strings.Contains(h, "\r\nFrom: "+g.from+"@"+ctlkit.Domain+"\r\n") || !strings.Contains(h, "\r\nTo: "+w.alice.ID+"\r\n") {
			w.fatalf("message from %s is read as %q", g.from, h)
		}
		g.read = true
	case 2:
		res := w.run("msg", "list", "--id", w.alice.ID)
		if res.Code != 0 {
			w.fatalf("list fails: %s", res.Err)
		}
		for _, g := range l {
			st := "N"
			if g.read {
				st = "R"
			}
			want := []string{fmt.Sprintf(">%s %d\t", st, g.num), fmt.Sprintf("\t%s@%s\t%s\t%s", g.from, ctlkit.Domain, w.alice.ID, strings.SplitN(g.text, "\n", 2)[0])}
			ok := false
			for _, s := range strings.Split(res.Out, "\n") {
				ok = ok || strings.HasPrefix(s, want[0]) && strings.HasSuffix(s, want[1])
			}
			if !ok {
				w.fatalf("message %.20q is not listed with %q: %.300q", g.text, want, res.Out)
			}
		}
	}
	w.check()
}

func (w *world) setContact() {
	n := rapid.SampledFrom(senders).Draw(w.rt, "name")
	op := rapid.SampledFrom([]string{"block", "unblock", "add", "add", "remove"}).Draw(w.rt, "contact op")
	ct, known := w.contact[n]
	res := w.run("contact", op, "--id", w.alice.ID, "--contact", n+"@"+ctlkit.Domain)
	w.log("contact %s %s -> %d %s", op, n, res.Code, strings.TrimSpace(res.Err))
	if ok := op != "unblock" || known && ct == msgdb.BlackList; ok != (res.Code == 0) {
		w.fatalf("contact %s %s: %d %s", op, n, res.Code, res.Err)
	} else if !ok {
		return
	}
	switch op {
	case "block":
		w.contact[n] = msgdb.BlackList
	case "remove":
		if known {
			w.contact[n] = msgdb.GrayList
		}
	default:
		w.contact[n] = msgdb.WhiteList
	}
	black := w.contact[n] == msgdb.BlackList
	for _, g := range w.all {
		if g.from == n && !g.shown {
			if black {
				g.must = false
			} else {
				g.may = true
			}
		}
	}
	w.check()
}

// answer sends a message from alice to a contact, who reads it: the following
// messages belong to another session.
func (w *world) answer() {
	p := w.People[rapid.SampledFrom([]string{"bob", "carol"}).Draw(w.rt, "to")]
	text := fmt.Sprintf("answer %d", len(w.hist))
	enc := encrypt(w.alice, p, text)
	res := p.CE.RunWith(p.CE.Pass+"\n", []byte(base64.StdEncoding.EncodeToString(enc)), "decrypt")
	w.log("answer to %s", p.Name)
	if res.Err != nil || res.Panic != "" || string(res.Out) != text {
		w.fatalf("%s cannot decrypt the answer: %v %s", p.Name, res.Err, res.Panic)
	}
}

func TestFetching(t *testing.T) {
	vt.Check(t, "random histories of messages from known, unknown and blocked senders, replays, garbage and messages for others arriving while they are fetched with failing, dying and killing tools and failing servers, answered, read and deleted; non-trivial: at least 3 messages shown, at least one disturbed fetch and one thing that is not shown", 50, 400, func(rt *rapid.T, c *vt.Case) {
		w := &world{World: ctlkit.New(append([]string{"alice"}, senders...), []string{"alice:bob,carol", "bob:alice,carol", "carol:alice", "dan:alice", "erin:alice"}), rt: rt, c: c,
			contact: map[string]msgdb.ContactType{}, now: 1700000000, kinds: map[string]bool{}, size: 90000}
		defer w.Close()
		w.alice = w.People["alice"]
		db := w.alice.DB()
		for _, n := range []string{"bob", "carol"} {
			vt.InfraIf(db.AddContact(w.alice.ID, n+"@"+ctlkit.Domain, n+"@"+ctlkit.Domain, "", msgdb.WhiteList))
			w.contact[n] = msgdb.WhiteList
		}
		vt.InfraIf(db.AddContact(w.alice.ID, "erin@"+ctlkit.Domain, "erin@"+ctlkit.Domain, "", msgdb.BlackList))
		w.contact["erin"] = msgdb.BlackList
		vt.InfraIf(db.Close())
		n := 4 + vt.Uniform(rt, 14, "ops")
		for i := 0; i < n; i++ {
			switch vt.Uniform(rt, 16, "op") {
			case 0, 1, 2, 3, 4, 5:
				w.put()
			case 6, 7:
				w.putPoison()
			case 8, 9, 10:
				w.fetch(true)
			case 11:
				w.fetch(false)
			case 12, 13:
				w.use()
			case 14:
				w.setContact()
			case 15:
				w.answer()
			}
		}
		missing := func() *genuine {
			for _, g := range w.all {
				if g.must && !g.shown {
					return g
				}
			}
			return nil
		}
		for i := 0; i < 3 && (i == 0 || missing() != nil); i++ {
			w.fetch(false)
		}
		if g := missing(); g != nil {
			w.fatalf("message %.20q is not shown", g.text)
		}
		w.use()
		shown := 0
		for _, g := range w.all {
			if g.shown {
				shown++
			}
		}
		for k := range w.kinds {
			c.Label("poison %s", k)
		}
		if shown >= 3 && w.faulty > 0 && (w.poison > 0 || shown < len(w.all)) {
			c.NonTrivial(strings.Join(w.hist, "\n"))
		}
		c.Sample("%s", strings.Join(w.hist, "; "))
	})
}
