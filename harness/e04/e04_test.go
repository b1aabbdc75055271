// Package e04 decides property E04: user IDs and accounts administered with
// mutectrl.
package e04

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	"verif/ctlkit"
	"verif/vt"

	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ctlkit.Role(); vt.Main(m) }

// nym is a user ID of alice.
type nym struct {
	id, unmapped, full string
	min, max           int32
	account            string // hex key
	known              int64  // account time known to mutectrl
	upAll, upAcc       bool   // upkeep executed
	contacts           map[string]bool
	fresh              bool // made by uid new
}

// pool is a kind of token.
type pool struct {
	usage  string
	owner  []byte
	tokens []string
	maybe  map[string]bool // spent, and mutectrl may not know
	locked int             // may be locked by a killed mutectrl
}

type world struct {
	*ctlkit.World
	rt       *rapid.T
	c        *vt.Case
	alice    *ctlkit.Person
	nyms     map[string]*nym
	active   string
	pools    map[string]*pool
	hit      string // fault that happened
	endFault func()
	lost     bool // a reply was lost
	hist     []string
	want     map[string]string // user IDs asked for, and not taken by others
	now      int64
	n        int
	gone     map[string]bool // user IDs whose keys were deleted
}

const day = 24 * 3600

func (w *world) fatalf(f string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf("%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.hist, "\n  "))
}

func (w *world) log(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	w.hist = append(w.hist, s)
}

func (w *world) run(args ...string) ctlkit.Result {
	r := w.Run(w.alice, nil, args...)
	if r.Hung {
		w.fatalf("mutectrl %v hangs", args)
	}
	if r.Crash != "" {
		w.fatalf("mutectrl %v crashes: %s", args, r.Crash)
	}
	w.log("%v -> %d killed=%v hit=%q %s %s", args, r.Code, r.Killed, w.hit, short(r.Out), short(r.Err))
	return r
}

func short(s string) string {
	if len(s) > 150 {
		s = s[:150] + "..."
	}
	return fmt.Sprintf("%q", s)
}

// disturb plans at most one fault for the next command.
func (w *world) disturb(methods, plans []string) {
	w.hit, w.lost = "", false
	w.Hook(nil)
	if vt.Uniform(w.rt, 10, "disturbed") < 5 {
		return
	}
	if i := vt.Uniform(w.rt, len(methods)+len(plans), "fault"); i < len(methods) {
		mode := rapid.SampledFrom([]string{"refuse", "lost"}).Draw(w.rt, "mode")
		skip := 0
		if vt.Uniform(w.rt, 4, "later") == 0 {
			skip = 1
		}
		w.Hook(func(m string) string {
			if m != methods[i] || w.hit != "" {
				return ""
			}
			if skip > 0 {
				skip--
				return ""
			}
			w.hit = mode + " " + m
			w.lost = mode == "lost"
			return mode
		})
	} else {
		p := plans[i-len(methods)]
		j := strings.Index(p, ":")
		tool, mode := p[:j], p[j+1:]
		if tool == "db" {
			f := strings.Fields(mode)
			n := 0
			if vt.Uniform(w.rt, 3, "later") == 0 {
				n = 1
			}
			w.endFault = w.alice.DBFault(f[0], f[1], f[2], n)
			w.hit = "maybe " + p
			w.lost = f[0] == "keys"
			return
		}
		seq := []string{mode}
		if vt.Uniform(w.rt, 3, "later") == 0 {
			seq = []string{"ok", mode}
		}
		w.Plan(map[string][]string{tool: seq})
		w.hit = "maybe " + p
	}
}

// settle finds out about the fault after a command.
func (w *world) settle(r ctlkit.Result) {
	w.Hook(nil)
	w.Plan(nil)
	if w.endFault != nil {
		w.endFault()
		w.endFault = nil
	}
	if r.Killed {
		for _, p := range w.pools {
			p.locked++
		}
	}
}

var variants = map[string][]string{
	"xena": {"xena", "Xena", "XENA"}, "yuri": {"yuri", "Yuri"}, "zoe1": {"zoe1", "ZOE1", "zoei", "ZOEl"}, "uma": {"uma", "umA"}, "alice": {"alice", "Alice", "aIice"},
	"bob": {"bob", "B0b", "Bob"},
}

func (w *world) draw(names []string) string {
	n := rapid.SampledFrom(names).Draw(w.rt, "name")
	return rapid.SampledFrom(variants[n]).Draw(w.rt, "spelling") + "@" + rapid.SampledFrom([]string{"mute.one", "mute.one", "mute.one", "Mute.One"}).Draw(w.rt, "domain")
}

func (w *world) expected(usage string, owner []byte) (min, max int64) {
	p := w.pools[usage+hex.EncodeToString(owner)]
	for _, t := range p.tokens {
		switch {
		case w.Spent[t] == "":
			min++
			max++
		case p.maybe[t]:
			max++
		}
	}
	min -= int64(p.locked)
	if min < 0 {
		min = 0
	}
	return
}

// tokens compares the wallet with what the servers have taken.
func (w *world) tokens(before map[string]string) {
	for t, what := range w.Spent {
		if before[t] == "" && w.lost {
			for _, p := range w.pools {
				for _, u := range p.tokens {
					if u == t {
						p.maybe[t] = true
					}
				}
			}
		}
		_ = what
	}
	for _, p := range w.pools {
		min, max := w.expected(p.usage, p.owner)
		if b := w.alice.BalanceFor(p.usage, p.owner); b < min || b > max {
			w.fatalf("%d usable tokens for %s of owner %x.. in the wallet, but %d to %d are not spent", b, p.usage, p.owner[:2], min, max)
		}
	}
}

func (w *world) spent() map[string]string {
	m := map[string]string{}
	for k, v := range w.Spent {
		m[k] = v
	}
	return m
}

func (w *world) give(n int) {
	for _, p := range w.pools {
		w.n++
		for _, t := range w.alice.AddTokensFor(n, fmt.Sprintf("%s%x-%d", p.usage, p.owner[0], w.n), p.usage, p.owner) {
			p.tokens = append(p.tokens, string(t))
		}
	}
}

func (w *world) sure(usage string, owner []byte) int64 {
	min, _ := w.expected(usage, owner)
	return min
}

// newID tries to make a user ID.
func (w *world) newID() {
	un := w.draw([]string{"xena", "yuri", "zoe1", "uma", "xena", "yuri", "alice", "bob"})
	bad := vt.Uniform(w.rt, 15, "bad")
	switch bad {
	case 0:
		un = rapid.SampledFrom([]string{"xena", "@mute.one", "x@y@mute.one", "x y@mute.one", "xena@", "xena@nowhere.test", ".xena@mute.one"}).Draw(w.rt, "badid")
	}
	min := 60 + rapid.Int32Range(0, 4000).Draw(w.rt, "min")
	max := min + 1 + rapid.Int32Range(0, 4000).Draw(w.rt, "spread")
	full := rapid.SampledFrom([]string{"", "", "Jane Doe", "Ümläut  "}).Draw(w.rt, "full")
	w.disturb([]string{"KeyRepository.Capabilities", "KeyHashchain.FetchLastHashChain", "KeyHashchain.FetchHashChain", "KeyRepository.CreateUID", "KeyRepository.CreateUID",
		"KeyInitRepository.AddKeyInit", "KeyInitRepository.AddKeyInit", "AccountServer.LoadAccount", "AccountServer.LoadAccount", "keys"},
		[]string{"mutecrypt-hashchain:before", "mutecrypt-hashchain:killb", "mutecrypt-loop:before", "mutecrypt-loop:killb", "mutecrypt-loop:cmd:1", "mutecrypt-loop:cmd:2",
			"mutecrypt-loop:cmd:3", "mutecrypt-loop:cmd:4", "mutecrypt-loop:killcmd:1", "mutecrypt-loop:killcmd:2", "mutecrypt-loop:killcmd:3", "mutecrypt-loop:killcmd:4", "mutecrypt-loop:selfb", "mutecrypt-hashchain:selfb",
			"db:msgs Nyms INSERT", "db:msgs Accounts INSERT", "db:msgs Accounts UPDATE", "db:msgs KeyValueStore INSERT", "db:msgs KeyValueStore UPDATE", "db:keys PrivateUIDs INSERT", "db:keys PrivateUIDs UPDATE",
			"db:keys PrivateKeyInits INSERT", "db:keys PrivateKeyInits UPDATE", "db:keys SessionKeys INSERT", "db:keys Hashchains INSERT", "db:keys PublicUIDs INSERT"})
	w.create(un, full, min, max, bad == 0)
}

func (w *world) create(un, full string, min, max int32, bad bool) bool {
	before := w.spent()
	enough := w.sure("Account", ctlkit.AccountKey) > 0 && w.sure("UID", ctlkit.TokenKey) > 0 && w.sure("Message", ctlkit.TokenKey) > 0
	args := []string{"uid", "new", "--id", un, "--mindelay", fmt.Sprint(min), "--maxdelay", fmt.Sprint(max)}
	if full != "" {
		args = append(args, "--full-name", full)
	}
	planned := w.hit
	mid, _ := identity.Map(un)
	registered := w.registered(mid)
	r := w.run(args...)
	w.settle(r)
	id, err := identity.Map(un)
	taken := err == nil && (w.others(id) || w.gone[id] && registered)
	ok := r.Code == 0 && !r.Killed
	switch {
	case ok && (bad || taken || w.nyms[id] != nil):
		w.fatalf("uid new --id %s succeeds", un)
	case !ok && !bad && !taken && w.nyms[id] == nil && enough && w.hit == "" && !w.doubtful():
		w.fatalf("uid new --id %s fails: %s", un, r.Err)
	}
	if !ok && !bad && !taken && w.nyms[id] == nil {
		w.want[id] = un
		w.c.Label("uid new failed: " + planned)
	}
	made := ok
	if !ok && strings.HasPrefix(w.hit, "maybe db:msgs KeyValueStore") && !bad && !taken && w.nyms[id] == nil {
		// only the user ID is not the active one
		db := w.alice.DB()
		un, _, err := db.GetNym(id)
		db.Close()
		if made = err == nil && un != ""; made && w.active != "" {
			w.fatalf("user ID %s was made with an error", id)
		}
	}
	if made {
		w.c.Label("uid new")
		delete(w.want, id)
		n := &nym{id: id, unmapped: un, full: full, min: min, max: max, contacts: map[string]bool{}, fresh: true}
		w.nyms[id] = n
		if w.active == "" && ok {
			w.active = un
		}
		db := w.alice.DB()
		pk, server, _, mi, ma, _, err := db.GetAccount(id, "")
		db.Close()
		if err != nil {
			w.fatalf("user ID %s has no account: %v", id, err)
		}
		n.account = hex.EncodeToString(pk[32:])
		if w.Accounts[n.account] == nil || server != "127.0.0.1" {
			w.fatalf("the account of %s is not one of the server %s", id, server)
		}
		if mi != min || ma != max {
			w.fatalf("the account of %s has delays %d and %d instead of %d and %d", id, mi, ma, min, max)
		}
	}
	w.tokens(before)
	w.look()
	return ok
}

// doubtful: tokens the wallet holds may already be spent.
func (w *world) doubtful() bool {
	for _, p := range w.pools {
		for t := range p.maybe {
			if p.maybe[t] {
				return true
			}
		}
	}
	return false
}

// others: is the user ID registered for somebody else?
func (w *world) others(id string) bool {
	for _, p := range w.People {
		if p != w.alice && p.ID == id {
			return true
		}
	}
	return false
}

// look compares lists and database with the model.
func (w *world) look() {
	db := w.alice.DB()
	defer db.Close()
	l, err := db.GetNyms(true)
	if err != nil {
		w.fatalf("list of user IDs: %v", err)
	}
	var want []string
	for id := range w.nyms {
		want = append(want, id)
	}
	sort.Strings(l)
	sort.Strings(want)
	if fmt.Sprint(l) != fmt.Sprint(want) {
		w.fatalf("user IDs %v, should be %v", l, want)
	}
	for id, n := range w.nyms {
		un, full, err := db.GetNym(id)
		if err != nil || un != n.unmapped || full != n.full {
			w.fatalf("user ID %s is %q, %q (%v), should be %q, %q", id, un, full, err, n.unmapped, n.full)
		}
		pk, _, _, min, max, _, err := db.GetAccount(id, "")
		if err != nil || hex.EncodeToString(pk[32:]) != n.account || min != n.min || max != n.max {
			w.fatalf("account of %s: %v, delays %d, %d, should be %d, %d", id, err, min, max, n.min, n.max)
		}
		cs, err := db.GetContacts(id, false)
		if err != nil {
			w.fatalf("contacts of %s: %v", id, err)
		}
		var wc []string
		for c := range n.contacts {
			wc = append(wc, c)
		}
		sort.Strings(cs)
		sort.Strings(wc)
		if fmt.Sprint(cs) != fmt.Sprint(wc) {
			w.fatalf("contacts of %s are %v, should be %v", id, cs, wc)
		}
	}
	a, err := db.GetValue(msgdb.ActiveUID)
	if err != nil {
		w.fatalf("active user ID: %v", err)
	}
	ma, _ := identity.Map(a)
	mw, _ := identity.Map(w.active)
	if ma != mw {
		w.fatalf("active user ID is %q, should be %q", a, w.active)
	}
}

func (w *world) ids() (l []string) {
	for id := range w.nyms {
		l = append(l, id)
	}
	sort.Strings(l)
	return
}

// pick returns one of alice's user IDs, spelled in any way, or an unknown one.
func (w *world) pick() (string, *nym) {
	l := w.ids()
	if len(l) == 0 || vt.Uniform(w.rt, 8, "unknown") == 0 {
		un := w.draw([]string{"uma", "bob", "yuri"})
		id, _ := identity.Map(un)
		return un, w.nyms[id]
	}
	id := rapid.SampledFrom(l).Draw(w.rt, "id")
	un := rapid.SampledFrom(append([]string{strings.ToUpper(id[:1]) + id[1:]}, id, w.nyms[id].unmapped)).Draw(w.rt, "as")
	return un, w.nyms[id]
}

func (w *world) simple() {
	un, n := w.pick()
	switch vt.Uniform(w.rt, 5, "command") {
	case 0:
		full := rapid.SampledFrom([]string{"", "Alice A.", "Bülent\tX"}).Draw(w.rt, "full")
		r := w.run("uid", "edit", "--id", un, "--full-name", full)
		if (r.Code == 0) != (n != nil) {
			w.fatalf("uid edit --id %s: %d %s", un, r.Code, r.Err)
		}
		if n != nil {
			n.unmapped, n.full = un, full
		}
	case 1:
		r := w.run("uid", "switch", "--id", un)
		if (r.Code == 0) != (n != nil) {
			w.fatalf("uid switch --id %s: %d %s", un, r.Code, r.Err)
		}
		if n != nil {
			w.active = n.id
		}
	case 2:
		r := w.run("uid", "active")
		a, _ := identity.Map(strings.TrimSpace(r.Out))
		m, _ := identity.Map(w.active)
		if (r.Code == 0) != (w.active != "") || a != m {
			w.fatalf("uid active: %d %q, should be %q", r.Code, r.Out, w.active)
		}
	case 3:
		r := w.run("uid", "list")
		var want []string
		for _, n := range w.nyms {
			u := n.unmapped
			if n.full != "" {
				u = n.full + " <" + u + ">"
			}
			want = append(want, u)
		}
		got := strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
		if r.Out == "" {
			got = nil
		}
		sort.Strings(got)
		sort.Strings(want)
		if r.Code != 0 || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			w.fatalf("uid list: %d %q, should be %q", r.Code, got, want)
		}
	case 4:
		r := w.run("wallet", "balance")
		if r.Code != 0 {
			w.fatalf("wallet balance fails: %s", r.Err)
		}
		for _, u := range []string{"Message", "UID", "Account"} {
			m := regexp.MustCompile(`(?m)^` + u + `: +self: *(\d+); non-self: *(\d+); total= *(\d+)$`).FindStringSubmatch(r.Out)
			var b int64
			for _, p := range w.pools {
				if p.usage == u {
					b += w.alice.BalanceFor(p.usage, p.owner)
				}
			}
			if m == nil || m[1] != "0" || m[2] != fmt.Sprint(b) || m[3] != m[2] {
				w.fatalf("wallet balance of %s is %d:\n%s", u, b, r.Out)
			}
		}
	}
	w.look()
}

// contact adds a contact to one of alice's user IDs.
func (w *world) contact() {
	un, n := w.pick()
	to := rapid.SampledFrom([]string{"bob", "carol"}).Draw(w.rt, "contact") + "@" + ctlkit.Domain
	r := w.run("contact", "add", "--id", un, "--contact", to)
	if r.Code == 0 && n == nil {
		w.fatalf("contact add --id %s succeeds", un)
	}
	if r.Code != 0 && n != nil {
		w.fatalf("contact add --id %s fails: %s", un, r.Err)
	}
	if n != nil {
		n.contacts[to] = true
	}
	w.look()
}

func (w *world) delete() {
	un, n := w.pick()
	w.disturb([]string{"AccountServer.DeleteAccount"}, []string{"mutecrypt-uid:before", "mutecrypt-uid:after", "mutecrypt-uid:killb", "mutecrypt-uid:killa", "mutecrypt-uid:selfb", "mutecrypt-uid:selfa",
		"db:msgs Nyms DELETE", "db:msgs Accounts DELETE", "db:msgs KeyValueStore UPDATE", "db:msgs KeyValueStore INSERT", "db:keys PrivateUIDs DELETE"})
	r := w.run("uid", "delete", "--force", "--id", un)
	w.settle(r)
	if n == nil {
		if r.Code == 0 {
			w.fatalf("uid delete --id %s succeeds", un)
		}
		w.look()
		return
	}
	ok := r.Code == 0 && !r.Killed
	if !ok && w.hit == "" {
		w.fatalf("uid delete --id %s fails: %s", un, r.Err)
	}
	db := w.alice.DB()
	left, _, err := db.GetNym(n.id)
	db.Close()
	if err != nil {
		w.fatalf("GetNym: %v", err)
	}
	if ok && left != "" {
		w.fatalf("user ID %s is there after uid delete", n.id)
	}
	if ok {
		if w.Accounts[n.account] != nil {
			w.fatalf("the account of %s is there after uid delete", n.id)
		}
		if l := w.alice.CE.Run("uid", "list"); strings.Contains(string(l.Out), n.id) {
			w.fatalf("user ID %s is in the key database after uid delete", n.id)
		}
		w.c.Label("uid delete")
	}
	if left == "" {
		delete(w.nyms, n.id)
		if l := w.alice.CE.Run("uid", "list"); !strings.Contains(string(l.Out), n.id) {
			w.gone[n.id] = true
		}
	}
	w.look()
}

func (w *world) upkeep() {
	un, n := w.pick()
	if n != nil && rapid.Bool().Draw(w.rt, "age") {
		// time passes
		a := w.Accounts[n.account]
		if a != nil {
			a.Load = times.Now() + rapid.SampledFrom([]int64{-5, 10, 89, 91, 200, 400}).Draw(w.rt, "days")*day
			db := w.alice.DB()
			n.known = rapid.SampledFrom([]int64{0, a.Load}).Draw(w.rt, "known")
			if err := db.SetAccountTime(n.id, "", n.known); err != nil {
				w.fatalf("SetAccountTime: %v", err)
			}
			db.Close()
		}
	}
	all := rapid.Bool().Draw(w.rt, "all")
	period := rapid.SampledFrom([]string{"0s", "0s", "500h"}).Draw(w.rt, "period")
	remain := int64(90)
	args := []string{"upkeep", "accounts", "--period", period, "--id", un}
	if all {
		args = []string{"upkeep", "all", "--period", period, "--id", un}
	} else if rapid.Bool().Draw(w.rt, "remaining") {
		remain = rapid.SampledFrom([]int64{0, 30, 150, 300}).Draw(w.rt, "remain")
		args = append(args, "--remaining", fmt.Sprintf("%dh", remain*24))
	}
	bad := vt.Uniform(w.rt, 15, "bad") == 0
	if bad {
		args[3] = rapid.SampledFrom([]string{"1", "x", "", "5d"}).Draw(w.rt, "badperiod")
	}
	w.disturb([]string{"AccountServer.LoadAccount", "AccountServer.AccountStat"}, []string{"none:before", "db:msgs Accounts UPDATE", "db:msgs Nyms UPDATE"})
	if strings.HasPrefix(w.hit, "maybe none") {
		w.hit = ""
	}
	before := w.spent()
	type state struct {
		load int64
		paid int
	}
	old := map[string]state{}
	for k, a := range w.Accounts {
		old[k] = state{a.Load, a.Paid}
	}
	r := w.run(args...)
	w.settle(r)
	ok := r.Code == 0
	due, skip := false, false
	if n != nil && !bad {
		skip = period != "0s" && (n.upAcc || all && n.upAll)
		if t := n.known; !skip {
			if t == 0 && w.Accounts[n.account] != nil {
				t = old[n.account].load
			}
			due = t <= times.Now()+remain*day
		}
	}
	enough := w.sure("Account", ctlkit.AccountKey) > 0
	spentNow := len(w.Spent) - len(before)
	can := n != nil && !bad && (skip || w.Accounts[n.account] != nil && (!due || enough || spentNow > 0))
	switch {
	case ok && n == nil:
		w.fatalf("upkeep of an unknown user ID succeeds")
	case ok && !can:
		w.fatalf("upkeep succeeds without being able to")
	case !ok && can && w.hit == "" && !w.doubtful():
		w.fatalf("upkeep fails: %s", r.Err)
	}
	for k, a := range w.Accounts {
		paid := a.Paid - old[k].paid
		switch {
		case paid > 0 && (n == nil || k != n.account || !due):
			w.fatalf("an account was paid that is not due (%v)", n != nil && k == n.account)
		case paid > 1:
			w.fatalf("an account was paid %d times", paid)
		case paid == 0 && ok && due && n != nil && k == n.account:
			w.fatalf("the account of %s is due, and was not paid", n.id)
		}
	}
	if n != nil {
		db := w.alice.DB()
		t, err := db.GetAccountTime(n.id, "")
		db.Close()
		if err != nil {
			w.fatalf("GetAccountTime: %v", err)
		}
		// a payment with a lost reply may not be known yet
		a := w.Accounts[n.account]
		if ok && !skip && (due || n.known == 0) && t != a.Load || a != nil && t > a.Load {
			w.fatalf("account of %s is paid until %d, stored is %d", n.id, a.Load, t)
		}
		n.known = t
		if ok && !skip {
			n.upAcc = true
		}
		if ok && all && !(period != "0s" && n.upAll) {
			n.upAll = true
		}
		if ok {
			w.c.Label(fmt.Sprintf("upkeep skip=%v due=%v", skip, due))
		}
	}
	w.tokens(before)
	w.look()
}

var nymLine = regexp.MustCompile(`(?m)^NYMADDRESS:\t(\S+)$`)

// reach sends a message to one of alice's user IDs and fetches it.
func (w *world) reach(n *nym) {
	bob := w.People["bob"]
	bob.Learn(n.id)
	w.n++
	text := fmt.Sprintf("message %d", w.n)
	r := bob.CE.RunWith(bob.CE.Pass+"\n", []byte(text), "encrypt", "--from", bob.ID, "--to", n.id,
		"--nymaddress", base64.StdEncoding.EncodeToString(bob.Nym(bob.ID)))
	if r.Err != nil || r.Panic != "" {
		w.fatalf("cannot encrypt for %s: %v %s", n.id, r.Err, r.Panic)
	}
	m := nymLine.FindSubmatch(r.Status)
	if m == nil {
		w.fatalf("no nym address of %s: %q", n.id, r.Status)
	}
	addr, err := base64.StdEncoding.DecodeString(string(m[1]))
	if err != nil {
		w.fatalf("nym address of %s: %v", n.id, err)
	}
	enc, err := base64.StdEncoding.DecodeString(string(r.Out))
	vt.InfraIf(err)
	body, box := w.EnvelopeTo(addr, enc)
	if want := n.account + "@127.0.0.1"; box != want && box != want+"mute.one" {
		w.fatalf("messages to %s go to mailbox %s instead of %s", n.id, box, want)
	}
	w.PutBox(box, times.Now()+int64(w.n), body)
	f := w.run("msg", "fetch", "--id", n.id)
	if f.Code != 0 {
		w.fatalf("msg fetch --id %s fails: %s", n.id, f.Err)
	}
	l := w.run("msg", "list", "--id", n.id)
	if l.Code != 0 || !strings.Contains(l.Out, text) {
		w.fatalf("message to %s did not arrive: %s", n.id, l.Out)
	}
	w.c.Label("message arrived")
}

func (w *world) registered(id string) bool {
	for _, m := range w.KS.UIDs {
		if m.Identity() == id {
			return true
		}
	}
	return false
}

func TestAdmin(t *testing.T) {
	vt.CheckSteps(t, "at least two user IDs made and one disturbed command, distinct outcomes", 56, 600, 12, func(rt *rapid.T, c *vt.Case) {
		cw := ctlkit.New([]string{"alice", "bob", "carol"}, []string{"alice:bob,carol"})
		defer cw.Close()
		cw.Strict = true
		w := &world{World: cw, rt: rt, c: c, alice: cw.People["alice"], nyms: map[string]*nym{}, pools: map[string]*pool{}, want: map[string]string{}, gone: map[string]bool{}}
		for _, p := range []*pool{{usage: "Account", owner: ctlkit.AccountKey}, {usage: "UID", owner: ctlkit.TokenKey}, {usage: "Message", owner: ctlkit.TokenKey}} {
			p.maybe = map[string]bool{}
			w.pools[p.usage+hex.EncodeToString(p.owner)] = p
		}
		w.nyms[w.alice.ID] = &nym{id: w.alice.ID, unmapped: w.alice.ID, min: 60, max: 120, account: hex.EncodeToString(w.alice.Acc[32:]), contacts: map[string]bool{}}
		w.give(rapid.SampledFrom([]int{0, 1, 2, 3, 3, 3}).Draw(rt, "tokens"))
		steps := rapid.IntRange(2, 7).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			c.Eval(1)
			switch k := vt.Uniform(rt, 12, "op"); {
			case k < 5:
				w.newID()
			case k < 6:
				w.simple()
			case k < 7:
				w.contact()
			case k < 8:
				w.delete()
			case k < 11:
				w.upkeep()
			default:
				w.give(1)
			}
		}
		// what failed can be repeated
		made := 0
		for _, id := range sortedKeys(w.want) {
			w.disturbNot()
			for _, p := range w.pools {
				for t := range p.maybe {
					w.alice.DropToken(t)
				}
				p.maybe = map[string]bool{}
			}
			w.give(2)
			w.c.Label(fmt.Sprintf("repeated, registered=%v", w.registered(id)))
			ok := w.create(w.want[id], "", 60, 120, false)
			if !ok {
				w.fatalf("user ID %s cannot be made any more", id)
			}
		}
		for _, id := range w.ids() {
			if n := w.nyms[id]; n.fresh {
				made++
				w.reach(n)
			}
		}
		if made > 1 {
			c.NonTrivial(fmt.Sprint(len(w.nyms)), fmt.Sprint(len(w.hist)), fmt.Sprint(len(w.Spent)))
		}
		c.Sample(strings.Join(w.hist, "\n"))
	})
}

func (w *world) disturbNot() { w.hit, w.lost = "", false; w.Hook(nil); w.Plan(nil) }

func sortedKeys(m map[string]string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
