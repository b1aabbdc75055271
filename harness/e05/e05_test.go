// Package e05 decides property E05: contacts, messages and databases
// administered with mutectrl.
package e05

import (
	"bytes"
	"fmt"
	"io"
	"mime"
	"net/mail"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/ctlkit"
	"verif/vt"

	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/uid/identity"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ctlkit.Role(); vt.Main(m) }

type contact struct {
	unmapped, full string
	typ            msgdb.ContactType
}

type message struct {
	id       int64
	peer     string
	incoming bool
	read     bool
	text     string
	date     int64
}

type nym struct {
	mapped, unmapped, full string
	contacts               map[string]*contact
	msgs                   []*message
}

type world struct {
	*ctlkit.World
	rt       *rapid.T
	c        *vt.Case
	alice    *ctlkit.Person
	nyms     map[string]*nym
	active   string // mapped
	sess     *ctlkit.Session
	endFault func()
	ops      int    // in the session
	shown    string // last status of the session
	hist     []string
	n        int
	kinds    map[string]bool
}

func (w *world) fatalf(f string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf("%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.hist, "\n  "))
}

func (w *world) log(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	w.hist = append(w.hist, s)
}

func short(s string) string {
	if len(s) > 150 {
		s = s[:150] + "..."
	}
	return fmt.Sprintf("%q", s)
}

// plain: can the arguments be given to an interactive mutectrl?
func plain(args []string) bool {
	for _, a := range args {
		if a == "" || strings.IndexFunc(a, unicode.IsSpace) >= 0 || strings.IndexFunc(a, unicode.IsControl) >= 0 {
			return false
		}
	}
	return true
}

// run runs a command, in the session if there is one.
func (w *world) run(in []byte, args ...string) (r ctlkit.Result) {
	mode := ""
	if w.sess != nil && in == nil && plain(args) {
		r = w.sess.Command(strings.Join(args, " "))
		mode = "session: "
		if !strings.HasSuffix(r.Err, "READY.\n") {
			w.fatalf("interactive mutectrl stops with %v: %+v", args, r)
		}
		w.shown = r.Err
		status := strings.TrimSuffix(r.Err, "READY.\n")
		status = status[:strings.LastIndex(status, "active user ID: ")]
		status = strings.TrimPrefix(status, "message added\n")
		if status != "" {
			r.Code, r.Err = 1, status
		}
	} else {
		w.end()
		r = w.Run(w.alice, in, args...)
	}
	if r.Hung {
		w.fatalf("mutectrl %v hangs", args)
	}
	if r.Crash != "" {
		w.fatalf("mutectrl %v crashes: %s", args, r.Crash)
	}
	w.log("%s%.200q %s -> %d killed=%v %s %s", mode, args, short(string(in)), r.Code, r.Killed, short(r.Out), short(r.Err))
	return r
}

// prompt checks the user ID shown before a command.
func (w *world) prompt(status string) {
	i := strings.LastIndex(status, "active user ID: ")
	if i < 0 {
		w.fatalf("no prompt in %q", status)
	}
	got := strings.TrimSuffix(status[i+len("active user ID: "):], "\nREADY.\n")
	if w.active == "" {
		if got != "none" {
			w.fatalf("active user ID is %q, should be none", got)
		}
		return
	}
	if m, err := identity.Map(got); err != nil || m != w.active {
		w.fatalf("active user ID is %q, should be %q", got, w.active)
	}
}

func (w *world) begin() {
	if w.sess != nil {
		return
	}
	s, r := w.Interactive(w.alice)
	w.log("session begins")
	if !strings.HasSuffix(r.Err, "READY.\n") {
		w.fatalf("interactive mutectrl does not start: %+v", r)
	}
	w.sess = s
	w.prompt(r.Err)
	w.c.Label("session")
}

func (w *world) end() {
	if w.sess == nil {
		return
	}
	var r ctlkit.Result
	if vt.Uniform(w.rt, 2, "quit") == 0 {
		w.sess.Command("quit")
	}
	r = w.sess.End()
	w.sess = nil
	if r.Hung || r.Crash != "" || r.Code != 0 {
		w.fatalf("session ends with %d %s", r.Code, r.Err)
	}
	w.log("session ends")
}

// disturb plans a fault of the next command, outside of sessions.
func (w *world) disturb(faults ...string) string {
	if w.sess != nil || vt.Uniform(w.rt, 3, "disturbed") > 0 {
		return ""
	}
	f := rapid.SampledFrom(faults).Draw(w.rt, "fault")
	if f == "server" {
		w.KeyServer(false)
		return f
	}
	i := strings.Index(f, ":")
	if f[:i] == "db" {
		l := strings.Fields(f[i+1:])
		w.endFault = w.alice.DBFault(l[0], l[1], l[2], 0)
		return f
	}
	w.Plan(map[string][]string{f[:i]: {f[i+1:]}})
	return f
}

func (w *world) settle() {
	w.KeyServer(true)
	w.Plan(nil)
	if w.endFault != nil {
		w.endFault()
		w.endFault = nil
	}
}

var dbContacts = []string{"db:msgs Contacts INSERT", "db:msgs Contacts UPDATE", "db:msgs Contacts DELETE"}

var spellings = map[string][]string{"alice": {"alice", "Alice"}, "anna": {"anna", "ANNA"}, "bob": {"bob", "B0B", "Bob"}, "carol": {"carol", "caro1"}, "dan": {"dan", "Dan"},
	"ghost": {"ghost", "gh0st"}, "nobody": {"nobody", "N0body"}}

func (w *world) spell(n string) string {
	return rapid.SampledFrom(spellings[n]).Draw(w.rt, "spelling") + "@" + rapid.SampledFrom([]string{"mute.one", "mute.one", "MUTE.one"}).Draw(w.rt, "domain")
}

// me draws a user ID and the arguments to select it.
func (w *world) me(flag string) (*nym, []string) {
	if w.sess != nil && rapid.Bool().Draw(w.rt, "implicit") {
		return w.nyms[w.active], nil
	}
	un := w.spell(rapid.SampledFrom([]string{"alice", "alice", "alice", "anna", "anna", "nobody"}).Draw(w.rt, "id"))
	if vt.Uniform(w.rt, 25, "malformed") == 0 {
		return nil, []string{flag, rapid.SampledFrom([]string{"alice", "@mute.one", "a@b@mute.one"}).Draw(w.rt, "bad")}
	}
	m, err := identity.Map(un)
	vt.InfraIf(err)
	return w.nyms[m], []string{flag, un}
}

func (w *world) other() (unmapped, mapped string) {
	if vt.Uniform(w.rt, 25, "malformed") == 0 {
		return rapid.SampledFrom([]string{"bob", "@mute.one", "b@b@mute.one"}).Draw(w.rt, "badcontact"), ""
	}
	un := w.spell(rapid.SampledFrom([]string{"bob", "bob", "carol", "carol", "dan", "ghost"}).Draw(w.rt, "contact"))
	m, err := identity.Map(un)
	vt.InfraIf(err)
	return un, m
}

var loops = []string{"mutecrypt-loop:before", "mutecrypt-loop:killb", "mutecrypt-loop:cmd:1", "mutecrypt-loop:cmd:2",
	"mutecrypt-loop:cmd:3", "mutecrypt-loop:cmd:4", "mutecrypt-loop:killcmd:2", "mutecrypt-loop:killcmd:4", "server"}

func (w *world) full() string {
	s := rapid.SampledFrom([]string{"", "", "Bob", "Bob B.", "Röbert", "a<b>\"c"}).Draw(w.rt, "full")
	if w.sess != nil {
		s = strings.ReplaceAll(s, " ", "_")
	}
	return s
}

// done checks the exit status against the model's.
func (w *world) done(r ctlkit.Result, ok bool, disturbed string, what string) bool {
	good := r.Code == 0 && !r.Killed
	switch {
	case good && !ok:
		w.fatalf("%s succeeds", what)
	case !good && ok && disturbed == "":
		w.fatalf("%s fails: %s", what, r.Err)
	}
	if disturbed == "" {
		w.kinds[fmt.Sprintf("%s %v", what, good)] = true
	} else {
		w.kinds["disturbed"] = true
	}
	return good
}

func (w *world) contactOp() {
	n, args := w.me("--id")
	un, id := w.other()
	op := rapid.SampledFrom([]string{"add", "add", "edit", "remove", "block", "block", "unblock", "unblock"}).Draw(w.rt, "op")
	if n != nil && op == "unblock" && vt.Uniform(w.rt, 4, "blocked") > 0 {
		var l []string
		for k, c := range n.contacts {
			if c.typ == msgdb.BlackList {
				l = append(l, k)
			}
		}
		if sort.Strings(l); len(l) > 0 {
			id = rapid.SampledFrom(l).Draw(w.rt, "of")
			un = w.spell(id[:strings.Index(id, "@")])
		}
	}
	args = append(args, "--contact", un)
	var c *contact
	if n != nil {
		c = n.contacts[id]
	}
	online := id != "" && !strings.HasPrefix(id, "gh")
	switch op {
	case "add":
		full := w.full()
		if full != "" {
			args = append(args, "--full-name", full)
		}
		d := w.disturb(append(append([]string{}, loops...), dbContacts...)...)
		white := c != nil && c.typ == msgdb.WhiteList
		r := w.run(nil, append([]string{"contact", "add"}, args...)...)
		w.settle()
		good := w.done(r, n != nil && id != "" && (white || online), d, "contact add")
		switch {
		case !good || white:
		case c != nil:
			c.typ = msgdb.WhiteList
		default:
			n.contacts[id] = &contact{w.spelled(n, id), full, msgdb.WhiteList}
		}
		if r.Killed || d != "" && !good {
			w.adopt(n, id, msgdb.WhiteList)
		}
	case "edit":
		full := w.full()
		if full != "" {
			args = append(args, "--full-name", full)
		}
		d := w.disturb(dbContacts...)
		r := w.run(nil, append([]string{"contact", "edit"}, args...)...)
		w.settle()
		if w.done(r, c != nil, d, "contact edit") {
			c.unmapped, c.full = un, full
		}
	case "remove":
		d := w.disturb(dbContacts...)
		r := w.run(nil, append([]string{"contact", "remove"}, args...)...)
		w.settle()
		if r.Code != 0 && d != "" {
			return // as before
		}
		if r.Code != 0 && c != nil || r.Code == 0 && (n == nil || id == "") {
			w.fatalf("contact remove: %d %s", r.Code, r.Err)
		}
		if c != nil {
			c.typ = msgdb.GrayList
		}
	case "block":
		d := w.disturb(dbContacts...)
		r := w.run(nil, append([]string{"contact", "block"}, args...)...)
		w.settle()
		if w.done(r, n != nil && id != "", d, "contact block") {
			full := ""
			if c != nil {
				full = c.full
			}
			n.contacts[id] = &contact{w.spelled(n, id), full, msgdb.BlackList}
		}
	case "unblock":
		d := w.disturb(append(append([]string{}, loops...), dbContacts...)...)
		r := w.run(nil, append([]string{"contact", "unblock"}, args...)...)
		w.settle()
		if w.done(r, c != nil && c.typ == msgdb.BlackList && online, d, "contact unblock") {
			c.typ = msgdb.WhiteList
		} else if d != "" && c != nil && c.typ == msgdb.BlackList {
			w.adopt(n, id, msgdb.WhiteList)
		}
	}
}

// spelled returns the spelling of a new contact, which is not specified.
func (w *world) spelled(n *nym, id string) string {
	db := w.alice.DB()
	defer db.Close()
	got, _, _, err := db.GetContact(n.mapped, id)
	if m, e := identity.Map(got); err != nil || e != nil || m != id {
		w.fatalf("contact %s is called %q (%v)", id, got, err)
	}
	return got
}

// adopt: a failing command must not have changed the contact.
func (w *world) adopt(n *nym, id string, typ msgdb.ContactType) { w.look() }

func (w *world) lists() {
	n, args := w.me("--id")
	if n == nil {
		return
	}
	for i, cmd := range []string{"list", "blacklist"} {
		r := w.run(nil, append([]string{"contact", cmd}, args...)...)
		want := []string{}
		for _, c := range n.contacts {
			if i == 0 && c.typ == msgdb.WhiteList || i == 1 && c.typ == msgdb.BlackList {
				want = append(want, show(c.unmapped, c.full))
			}
		}
		got := strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
		if r.Out == "" {
			got = []string{}
		}
		sort.Strings(got)
		sort.Strings(want)
		if r.Code != 0 || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			w.fatalf("contact %s of %s: %d %q, should be %q", cmd, n.mapped, r.Code, got, want)
		}
	}
	w.kinds["contact list"] = true
}

func show(unmapped, full string) string {
	if full == "" {
		return unmapped
	}
	return full + " <" + unmapped + ">"
}

func (w *world) text() string {
	w.n++
	s := fmt.Sprintf("%d", w.n)
	switch vt.Uniform(w.rt, 7, "textkind") {
	case 0:
		return s + "\n"
	case 1:
		return s + rapid.String().Draw(w.rt, "utext")
	case 2:
		k := msg.MaxContentLength + rapid.IntRange(-1, 1).Draw(w.rt, "over") - len(s)
		return s + string(vt.Expand(k, rapid.Uint32().Draw(w.rt, "seed"), 1))
	case 3:
		return s + "\r\n\r\nbody\r\n.\r\nFrom x\r\n"
	case 4:
		return rapid.SampledFrom([]string{"", "\n", "\n\n", "\nbody"}).Draw(w.rt, "no subject")
	case 5:
		return s + "\tsubject with tab\nzweite Zeile äöü\n"
	}
	return s + " subject\nhello\nworld\n"
}

func (w *world) addMsg() {
	n, args := w.me("--from")
	un, id := w.other()
	if n != nil && vt.Uniform(w.rt, 3, "known") > 0 {
		var l []string
		for id, c := range n.contacts {
			if c.typ == msgdb.WhiteList {
				l = append(l, id)
			}
		}
		if sort.Strings(l); len(l) > 0 {
			id = rapid.SampledFrom(l).Draw(w.rt, "to")
			un = w.spell(id[:strings.Index(id, "@")])
		}
	}
	var c *contact
	if n != nil {
		c = n.contacts[id]
	}
	text := w.text()
	in := []byte(text)
	kind := vt.Uniform(w.rt, 3, "input")
	if w.sess != nil {
		kind = 1
	}
	stored := text
	args = append([]string{"msg", "add"}, args...)
	if kind == 2 {
		subj, body := "", text
		if i := strings.Index(text, "\n"); i >= 0 {
			subj, body = text[:i], text[i+1:]
		}
		if strings.ContainsAny(subj, "\r\n") || len(subj) > 900 || !utf8.ValidString(subj) || strings.TrimSpace(subj) != subj || strings.IndexFunc(subj, unicode.IsControl) >= 0 || strings.Contains(subj, "=?") || strings.ContainsAny(subj, "  ") {
			subj = "plain"
		}
		hdr := "To: " + un + "\r\n"
		if subj != "" {
			hdr += "Subject: " + mime.QEncoding.Encode("utf-8", subj) + "\r\n"
		}
		if rapid.Bool().Draw(w.rt, "more") {
			hdr = "From: x@y\r\n" + hdr + "X-Other: to\r\n"
		}
		in = []byte(hdr + "\r\n" + body)
		stored = subj + "\n" + body
		args = append(args, "--mail-input")
	} else {
		args = append(args, "--to", un)
	}
	if kind == 1 || kind == 2 && rapid.Bool().Draw(w.rt, "file") {
		f := filepath.Join(w.Dir, fmt.Sprintf("text%d", w.n))
		vt.InfraIf(os.WriteFile(f, in, 0600))
		args = append(args, "--file", f)
		in = nil
		if w.sess == nil {
			in = []byte("not this")
		}
	}
	delays := true
	if vt.Uniform(w.rt, 3, "delays") == 0 {
		min, max := rapid.SampledFrom([]int64{0, 59, 60, 100, 1 << 33}).Draw(w.rt, "min"), rapid.SampledFrom([]int64{59, 60, 61, 100, 4000}).Draw(w.rt, "max")
		delays = min >= 60 && max >= 61 && min < max && min < 1<<31
		args = append(args, "--mindelay", fmt.Sprint(min), "--maxdelay", fmt.Sprint(max))
	}
	size := len(stored)
	ok := delays && c != nil && c.typ == msgdb.WhiteList && size <= msg.MaxContentLength
	t0 := time.Now().Unix()
	d := w.disturb("db:msgs Messages INSERT", "db:msgs Messages UPDATE")
	r := w.run(in, args...)
	w.settle()
	if w.done(r, ok, d, "msg add") {
		w.learn(n, &message{peer: id, text: stored, date: t0})
		w.kinds[fmt.Sprintf("msg add %d", kind)] = true
	}
}

// learn finds the number of a new message.
func (w *world) learn(n *nym, m *message) {
	db := w.alice.DB()
	defer db.Close()
	l, err := db.GetMsgIDs(n.mapped)
	if err != nil {
		w.fatalf("GetMsgIDs: %v", err)
	}
	old := map[int64]bool{}
	for _, x := range n.msgs {
		old[x.id] = true
	}
	for _, x := range l {
		if !old[x.MsgID] {
			if m.id != 0 {
				w.fatalf("more than one new message")
			}
			m.id = x.MsgID
			if !m.incoming {
				if x.Date < m.date || x.Date > time.Now().Unix() {
					w.fatalf("new message has date %d", x.Date)
				}
				m.date = x.Date
			}
		}
	}
	if m.id == 0 {
		w.fatalf("the message was not added")
	}
	n.msgs = append(n.msgs, m)
}

// receive stores an incoming message.
func (w *world) receive() {
	w.end()
	n := w.nyms[rapid.SampledFrom([]string{"alice@mute.one", "anna@mute.one"}).Draw(w.rt, "to")]
	var l []string
	for id := range n.contacts {
		l = append(l, id)
	}
	if len(l) == 0 {
		return
	}
	sort.Strings(l)
	m := &message{peer: rapid.SampledFrom(l).Draw(w.rt, "from"), incoming: true, text: w.text(), date: rapid.Int64Range(1400000000, 1900000000).Draw(w.rt, "date")}
	db := w.alice.DB()
	vt.InfraIf(db.AddMessage(n.mapped, m.peer, m.date, false, m.text, false, 0, 0))
	db.Close()
	w.learn(n, m)
	w.log("message %d from %s to %s %.20q", m.id, m.peer, n.mapped, m.text)
}

func (w *world) listMsgs() {
	n, args := w.me("--id")
	r := w.run(nil, append([]string{"msg", "list"}, args...)...)
	if !w.done(r, n != nil, "", "msg list") {
		return
	}
	var want []string
	for _, m := range n.msgs {
		dir, status, from, to := "<", "P", n.mapped, m.peer
		if m.incoming {
			dir, status, from, to = ">", "N", m.peer, n.mapped
			if m.read {
				status = "R"
			}
		}
		subj := strings.SplitN(m.text, "\n", 2)[0]
		want = append(want, fmt.Sprintf("%s%s %d\t%s\t%s\t%s\t%s\n", dir, status, m.id, time.Unix(m.date, 0).Format(time.RFC3339), from, to, subj))
	}
	sort.Strings(want)
	// subjects do not contain newlines
	got := strings.SplitAfter(r.Out, "\n")
	got = got[:len(got)-1]
	sort.Strings(got)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		w.fatalf("msg list: %.3000q, should be %.3000q", got, want)
	}
}

// number draws a message number.
func (w *world) number(n *nym) (int64, *message) {
	var l []int64
	for _, x := range w.nyms {
		for _, m := range x.msgs {
			l = append(l, m.id)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	l = append(l, int64(len(l))+1000, 0, -1)
	id := rapid.SampledFrom(l).Draw(w.rt, "msgnum")
	if n != nil && len(n.msgs) > 0 && vt.Uniform(w.rt, 3, "own") > 0 {
		id = n.msgs[vt.Uniform(w.rt, len(n.msgs), "which")].id
	}
	if n != nil {
		for _, m := range n.msgs {
			if m.id == id {
				return id, m
			}
		}
	}
	return id, nil
}

func (w *world) readMsg() {
	n, args := w.me("--id")
	id, m := w.number(n)
	d := w.disturb("db:msgs Messages UPDATE")
	r := w.run(nil, append([]string{"msg", "read", "--msgnum", fmt.Sprint(id)}, args...)...)
	w.settle()
	if !w.done(r, m != nil, d, "msg read") {
		if r.Out != "" && d == "" {
			w.fatalf("failing msg read shows %q", r.Out)
		}
		return
	}
	if m.incoming {
		m.read = true
	}
	c := n.contacts[m.peer]
	from, to := show(n.unmapped, n.full), show(c.unmapped, c.full)
	if m.incoming {
		from, to = to, from
	}
	h, err := mail.ReadMessage(strings.NewReader(r.Out))
	if err != nil {
		w.fatalf("msg read %d does not show a mail: %v", id, err)
	}
	body, err := io.ReadAll(h.Body)
	vt.InfraIf(err)
	wantSubj, wantBody := m.text, ""
	if i := strings.Index(m.text, "\n"); i >= 0 {
		wantSubj, wantBody = m.text[:i], m.text[i+1:]
	}
	wantSubj = strings.TrimRight(wantSubj, "\r")
	subj, err := new(mime.WordDecoder).DecodeHeader(h.Header.Get("Subject"))
	odd := strings.TrimSpace(wantSubj) != wantSubj || strings.Contains(wantSubj, "=?") || !utf8.ValidString(wantSubj) || strings.Contains(wantSubj, "  ") || strings.IndexFunc(wantSubj, unicode.IsControl) >= 0 || len(wantSubj) > 4000
	if err != nil && !odd {
		w.fatalf("msg read %d: subject %q: %v", id, h.Header.Get("Subject"), err)
	}
	if !odd && subj != wantSubj || !bytes.Equal(body, []byte(wantBody)) {
		w.fatalf("msg read %d shows %q, %.300q instead of %q, %.300q", id, subj, body, wantSubj, wantBody)
	}
	date, err := h.Header.Date()
	if err != nil || date.Unix() != m.date || h.Header.Get("From") != from || h.Header.Get("To") != to {
		w.fatalf("msg read %d shows %v, %q, %q instead of %d, %q, %q", id, date, h.Header.Get("From"), h.Header.Get("To"), m.date, from, to)
	}
}

func (w *world) deleteMsg() {
	n, args := w.me("--id")
	id, m := w.number(n)
	d := w.disturb("db:msgs Messages DELETE")
	r := w.run(nil, append([]string{"msg", "delete", "--msgnum", fmt.Sprint(id)}, args...)...)
	w.settle()
	if w.done(r, m != nil, d, "msg delete") {
		for i, x := range n.msgs {
			if x == m {
				n.msgs = append(n.msgs[:i:i], n.msgs[i+1:]...)
			}
		}
	}
}

func (w *world) switchID() {
	n, args := w.me("--id")
	if len(args) == 0 {
		return
	}
	d := w.disturb("db:msgs KeyValueStore INSERT", "db:msgs KeyValueStore UPDATE")
	r := w.run(nil, append([]string{"uid", "switch"}, args...)...)
	w.settle()
	if w.done(r, n != nil, d, "uid switch") {
		w.active = n.mapped
	}
}

var passes = []string{"another", "with spaces  in it ", "päss wörd", "passphrase", "!\"#$%&'()"}

// works: does the passphrase open both databases?
func (w *world) works(pass string) bool {
	r := w.RunPass(w.alice, nil, pass+"\n", "db", "version")
	if r.Hung || r.Crash != "" {
		w.fatalf("db version: %+v", r)
	}
	if r.Code == 0 && (strings.Count(r.Out, "version=") != 2 || !strings.HasPrefix(r.Out, "msgdb:\n") || !strings.Contains(r.Out, "\nkeydb:\n")) {
		w.fatalf("db version shows %q", r.Out)
	}
	return r.Code == 0
}

func (w *world) rekey() {
	old := w.alice.Pass
	give := old
	if vt.Uniform(w.rt, 5, "wrong") == 0 {
		give = rapid.SampledFrom(append([]string{old + "x", "", strings.ToUpper(old), old[:len(old)-1]}, passes...)).Draw(w.rt, "old")
	}
	next := rapid.SampledFrom(passes).Draw(w.rt, "new")
	if vt.Uniform(w.rt, 4, "long") == 0 {
		next = strings.Repeat(next, rapid.SampledFrom([]int{1, 30, 60, 150, 230, 300, 700, 1500}).Draw(w.rt, "times"))
		next = next + strings.Repeat("z", rapid.IntRange(0, 3).Draw(w.rt, "tail"))
	}
	again := next
	if vt.Uniform(w.rt, 5, "differs") == 0 {
		again = rapid.SampledFrom([]string{next + "x", next[:len(next)-1], strings.Repeat("y", len(next)), ""}).Draw(w.rt, "again")
	}
	input := give + "\n" + next + "\n" + again + "\n"
	iter := rapid.SampledFrom([]string{"1", "2", "100"}).Draw(w.rt, "iterations")
	d := w.disturb("mutecrypt-db:before", "mutecrypt-db:killb", "mutecrypt-db:after", "mutecrypt-db:killa")
	w.end()
	run := func() ctlkit.Result {
		r := w.RunPass(w.alice, nil, input, "db", "rekey", "--iterations", iter)
		if r.Hung || r.Crash != "" {
			w.fatalf("db rekey: %+v", r)
		}
		w.log("db rekey %s %s %s fault=%q -> %d killed=%v %s", short(give), short(next), short(again), d, r.Code, r.Killed, short(r.Err))
		return r
	}
	r := run()
	w.settle()
	valid := give == old && again == next
	good := w.done(r, valid, d, "db rekey")
	switch {
	case good:
		w.alice.Pass = next
	case !valid:
	default:
		// it can be repeated, unless it is done
		d = ""
		r := run()
		w.alice.Pass = next
		if r.Code != 0 && !w.works(next) {
			w.fatalf("an interrupted rekey of the databases cannot be repeated: %s", r.Err)
		}
		w.c.Label("rekey repeated")
	}
	if !w.works(w.alice.Pass) {
		w.fatalf("the databases cannot be opened with the passphrase %s", short(w.alice.Pass))
	}
	for _, p := range []string{old, next, give, again} {
		if p != w.alice.Pass && w.works(p) {
			w.fatalf("the passphrase %s opens the databases, set is %s", short(p), short(w.alice.Pass))
		}
	}
}

func (w *world) vacuum() {
	d := w.disturb("mutecrypt-db:before", "mutecrypt-db:killb", "mutecrypt-db:after", "mutecrypt-db:killa")
	r := w.run(nil, "db", "vacuum")
	w.settle()
	w.done(r, true, d, "db vacuum")
}

// odd gives wrong commands.
func (w *world) odd() {
	args := rapid.SampledFrom([][]string{
		{"contact", "add"}, {"msg", "read"}, {"msg", "list", "superfluous"}, {"msg", "add", "--to"}, {"uid", "switch"}, {"frobnicate"},
		{"contact", "list", "--bogus", "x"}, {"msg", "delete", "--msgnum", "x"}, {"msg", "add", "--to", "bob@mute.one", "--mail-input"},
		{"db", "rekey", "now"}, {"msg", "add", "--to", "bob@mute.one", "--file", "/nonexistent/file"},
	}).Draw(w.rt, "odd")
	w.run(nil, args...)
}

// look compares the databases with the model.
func (w *world) look() {
	db := w.alice.DB()
	defer db.Close()
	for id, n := range w.nyms {
		var l, want []string
		for _, b := range []bool{false, true} {
			k, err := db.GetContacts(id, b)
			if err != nil {
				w.fatalf("GetContacts: %v", err)
			}
			l = append(l, k...)
		}
		for cid, c := range n.contacts {
			un, full, typ, err := db.GetContact(id, cid)
			if err != nil || un != c.unmapped || full != c.full || typ != c.typ {
				w.fatalf("contact %s of %s is %q, %q, %d (%v), should be %+v", cid, id, un, full, typ, err, *c)
			}
			if c.typ != msgdb.GrayList {
				want = append(want, show(c.unmapped, c.full))
			}
		}
		sort.Strings(l)
		sort.Strings(want)
		if fmt.Sprintf("%q", l) != fmt.Sprintf("%q", want) {
			w.fatalf("contacts of %s are %q, should be %q", id, l, want)
		}
		for _, m := range n.msgs {
			_, _, text, date, err := db.GetMessage(id, m.id)
			if err != nil || text != m.text || date != m.date {
				w.fatalf("message %d of %s is %.100q, %d (%v), should be %.100q, %d", m.id, id, text, date, err, m.text, m.date)
			}
		}
		ids, err := db.GetMsgIDs(id)
		if err != nil || len(ids) != len(n.msgs) {
			w.fatalf("%s has %d messages (%v), should have %d", id, len(ids), err, len(n.msgs))
		}
	}
}

func TestLocal(t *testing.T) {
	vt.CheckSteps(t, "at least three kinds of commands succeeded, one was refused or disturbed; by kinds", 72, 800, 30, func(rt *rapid.T, c *vt.Case) {
		cw := ctlkit.New([]string{"alice", "bob", "carol", "dan"}, nil)
		defer cw.Close()
		w := &world{World: cw, rt: rt, c: c, alice: cw.People["alice"], nyms: map[string]*nym{}, kinds: map[string]bool{}}
		defer func() {
			if w.sess != nil {
				w.sess.End()
			}
		}()
		db := w.alice.DB()
		vt.InfraIf(db.AddNym("anna@mute.one", "Anna@mute.one", "Anna A."))
		db.Close()
		w.nyms["alice@mute.one"] = &nym{mapped: "alice@mute.one", unmapped: "alice@mute.one", contacts: map[string]*contact{}}
		w.nyms["anna@mute.one"] = &nym{mapped: "anna@mute.one", unmapped: "Anna@mute.one", full: "Anna A.", contacts: map[string]*contact{}}
		db = w.alice.DB()
		for _, x := range []struct{ me, id, un, full string }{{"alice", "bob", "Bob", "Bob"}, {"alice", "carol", "carol", ""}, {"anna", "carol", "CAROL", "C"}} {
			typ := rapid.SampledFrom([]msgdb.ContactType{msgdb.WhiteList, msgdb.WhiteList, msgdb.WhiteList, msgdb.GrayList, msgdb.BlackList}).Draw(rt, "type")
			n := w.nyms[x.me+"@mute.one"]
			n.contacts[x.id+"@mute.one"] = &contact{x.un + "@mute.one", x.full, typ}
			vt.InfraIf(db.AddContact(n.mapped, x.id+"@mute.one", x.un+"@mute.one", x.full, typ))
		}
		if rapid.Bool().Draw(rt, "active") {
			w.active = "alice@mute.one"
			vt.InfraIf(db.AddValue(msgdb.ActiveUID, w.active))
		}
		db.Close()
		for i := vt.Uniform(rt, 5, "messages"); i > 0; i-- {
			w.receive()
		}
		steps := 3 + vt.Uniform(rt, 18, "steps")
		for i := 0; i < steps; i++ {
			c.Eval(1)
			if w.sess != nil {
				if w.ops--; w.ops < 0 {
					w.end()
				}
			} else if vt.Uniform(rt, 6, "interactive") == 0 {
				w.ops = rapid.IntRange(1, 6).Draw(rt, "ops")
				w.begin()
			}
			switch k := vt.Uniform(rt, 20, "kind"); {
			case k < 5:
				w.contactOp()
			case k < 6:
				w.lists()
			case k < 10:
				w.addMsg()
			case k < 12:
				w.receive()
			case k < 13:
				w.listMsgs()
			case k < 15:
				w.readMsg()
			case k < 16:
				w.deleteMsg()
			case k < 17:
				w.switchID()
			case k < 18:
				w.rekey()
			case k < 19:
				w.vacuum()
			default:
				w.odd()
			}
			w.look()
			if w.shown != "" {
				w.prompt(w.shown)
				w.shown = ""
			}
		}
		w.end()
		good, bad := 0, 0
		var kinds []string
		for k := range w.kinds {
			kinds = append(kinds, k)
			if strings.HasSuffix(k, " true") {
				good++
			} else if strings.HasSuffix(k, " false") || k == "disturbed" {
				bad++
			}
		}
		sort.Strings(kinds)
		for _, k := range kinds {
			c.Label(k)
		}
		if good >= 3 && bad > 0 {
			c.NonTrivial(strings.Join(kinds, ","))
		}
		c.Sample(strings.Join(w.hist, "\n"))
	})
}
