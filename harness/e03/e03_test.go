// Package e03 decides property E03: the crypto command line keeps users' keys
// and messages consistent end to end.
package e03

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"verif/cekit"
	"verif/vt"

	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/uid/identity"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

const dom = "mute.one"

// row is a stored private user ID.
type row struct{ id, js, sig, enc, reply string }

// ki is a stored private key-init message.
type ki struct{ sigHash, pubHash, priv string }

// pub is a stored public user ID.
type pub struct {
	id, js string
	pos    int
}

// snap is the content of a key database.
type snap struct {
	rows  []row
	kis   []ki
	pubs  []pub
	pkis  map[string]bool // SigKeyHash of the stored public key-init messages
	chain []string
}

func (s *snap) ids() (l []string) {
	seen := map[string]bool{}
	for _, r := range s.rows {
		if !seen[r.id] {
			l = append(l, r.id)
		}
		seen[r.id] = true
	}
	sort.Strings(l)
	return
}

func parse(js string) *uid.Message {
	m, err := uid.NewJSON(js)
	vt.InfraIf(err)
	return m
}

// newest returns the newest stored version of an identity.
func (s *snap) newest(id string) (n *row) {
	for i := range s.rows {
		r := &s.rows[i]
		if r.id == id && (n == nil || parse(r.js).UIDContent.MSGCOUNT > parse(n.js).UIDContent.MSGCOUNT) {
			n = r
		}
	}
	return
}

// public returns the newest known public version of an identity.
func (s *snap) public(id string) (n *pub) {
	for i := range s.pubs {
		if p := &s.pubs[i]; p.id == id && (n == nil || p.pos > n.pos) {
			n = p
		}
	}
	return
}

func (s *snap) hasKey(pubHash string) bool {
	for _, r := range s.rows {
		if parse(r.js).PubHash() == pubHash {
			return true
		}
	}
	return false
}

type mail struct {
	enc, content       []byte
	from, fromH, toH   string
	signed             bool
	to                 string
	tried              bool
	undeliverableSince string
}

type user struct {
	*cekit.User
	n     int
	ids   []string
	loop  *cekit.Loop
	taint bool // the loop has changed capabilities cached
	bogus map[string]bool
}

type world struct {
	rt    *rapid.T
	c     *vt.Case
	dir   string
	mu    sync.Mutex
	s     *cekit.Server
	rpc   *cekit.RPC
	users []*user
	est   map[[2]string]bool // sessions by public key hashes
	box   map[[2]string][]*mail
	old   []*mail
	sent  map[string]bool // nym addresses given
	hist  []string
	fault *fault
	hit   bool
	nUser int
	nMail int
	nNym  int
	okAft bool
	dist  bool
	calm  bool
}

type fault struct {
	kind string
	nth  int
	seed int64
	db   int // number of successful changes before all fail
}

func (w *world) n(n int, l string) int { return vt.Uniform(w.rt, n, l) }
func (w *world) fail(format string, a ...interface{}) {
	w.rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(w.hist, "\n"))
}
func (w *world) log(format string, a ...interface{}) {
	w.hist = append(w.hist, fmt.Sprintf(format, a...))
}

// handle is a key server that refuses what it must refuse.
func (w *world) handle(method string, p cekit.M) (cekit.M, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	f := w.fault
	act := false
	if f != nil && f.kind != "db" && !w.hit {
		if f.nth == 0 {
			w.hit, act = true, true
		}
		f.nth--
	}
	if act && f.kind == "refuse" {
		return nil, fmt.Errorf("refused")
	}
	res, err := w.honest(method, p)
	if act {
		switch f.kind {
		case "lost":
			return nil, fmt.Errorf("database is locked")
		case "mutate":
			if err != nil || strings.HasPrefix(method, "KeyHashchain") {
				return res, err
			}
			js, e := json.Marshal(res)
			vt.InfraIf(e)
			var v interface{}
			vt.InfraIf(json.Unmarshal(js, &v))
			return change(v, rand.New(rand.NewSource(f.seed))).(map[string]interface{}), nil
		}
	}
	return res, err
}

// change makes one random change below the top level of a JSON object.
func change(v interface{}, r *rand.Rand) interface{} {
	var set []func(interface{})
	var get []interface{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch v := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				set = append(set, func(x interface{}) { v[k] = x })
				get = append(get, v[k])
				walk(v[k])
			}
		case []interface{}:
			for i := range v {
				i := i
				set = append(set, func(x interface{}) { v[i] = x })
				get = append(get, v[i])
				walk(v[i])
			}
		}
	}
	walk(v)
	if len(set) == 0 {
		v.(map[string]interface{})["x"] = "y"
		return v
	}
	i := r.Intn(len(set))
	var x interface{}
	switch s := get[i].(type) {
	case string:
		switch r.Intn(4) {
		case 0:
			x = ""
		case 1:
			x = s[:r.Intn(len(s)+1)]
		case 2:
			b := []byte(s)
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(6)))
			}
			x = strings.ToValidUTF8(string(b), "?")
		default:
			x = 7
		}
	case []interface{}:
		switch r.Intn(3) {
		case 0:
			x = []interface{}{}
		case 1:
			x = append(append([]interface{}{}, s...), s...)
		default:
			x = nil
		}
	default:
		x = []interface{}{nil, "x", -1, 1e300, map[string]interface{}{}, []interface{}{}}[r.Intn(6)]
	}
	set[i](x)
	return v
}

func (w *world) last(id string) *uid.Message {
	for i := len(w.s.Index) - 1; i >= 0; i-- {
		if m := w.s.UIDs[w.s.Index[i]]; m.Identity() == id {
			return m
		}
	}
	return nil
}

func (w *world) honest(method string, p cekit.M) (cekit.M, error) {
	switch method {
	case "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		js, err := json.Marshal(p["UIDMessage"])
		vt.InfraIf(err)
		m, err := uid.NewJSON(string(js))
		if err != nil {
			return nil, err
		}
		prev := w.last(m.Identity())
		if method == "KeyRepository.CreateUID" {
			if prev != nil {
				return nil, fmt.Errorf("user ID %s exists already", m.Identity())
			}
			if m.UIDContent.MSGCOUNT != 0 {
				return nil, fmt.Errorf("counter of new user ID is not 0")
			}
		} else {
			if prev == nil {
				return nil, fmt.Errorf("no user ID %s", m.Identity())
			}
			if err := m.VerifyUserSig(prev); err != nil {
				return nil, err
			}
		}
	}
	return w.s.Handle(method, p)
}

func (w *world) raw(method string, rw http.ResponseWriter) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	f := w.fault
	if f == nil || w.hit || f.nth != 0 || (f.kind != "http" && f.kind != "hangup") {
		return false
	}
	w.hit = true
	if f.kind == "http" {
		rw.WriteHeader(502)
		rw.Write([]byte("<html>bad gateway</html>"))
		return true
	}
	panic(http.ErrAbortHandler)
}

// snap reads a user's database.
func (w *world) snap(u *user) *snap {
	db, err := encdb.Open(u.DB(), []byte(u.Pass))
	if err != nil {
		w.fail("user %d: the key database does not open any more: %v", u.n, err)
	}
	defer db.Close()
	s := &snap{pkis: map[string]bool{}}
	q := func(query string, n int, f func(c []string)) {
		rs, err := db.Query(query)
		vt.InfraIf(err)
		defer rs.Close()
		c := make([]string, n)
		p := make([]interface{}, n)
		for i := range c {
			p[i] = &c[i]
		}
		for rs.Next() {
			vt.InfraIf(rs.Scan(p...))
			f(c)
		}
		vt.InfraIf(rs.Err())
	}
	q("SELECT IDENTITY, UIDMessage, SIGPRIVKEY, ENCPRIVKEY, UIDMessageReply FROM PrivateUIDs ORDER BY ID;", 5, func(c []string) {
		s.rows = append(s.rows, row{c[0], c[1], c[2], c[3], c[4]})
	})
	q("SELECT SIGKEYHASH, PUBKEYHASH, PRIVKEY FROM PrivateKeyInits;", 3, func(c []string) { s.kis = append(s.kis, ki{c[0], c[1], c[2]}) })
	q("SELECT IDENTITY, UIDMessage, POSITION FROM PublicUIDs;", 3, func(c []string) {
		p := pub{id: c[0], js: c[1]}
		fmt.Sscan(c[2], &p.pos)
		s.pubs = append(s.pubs, p)
	})
	q("SELECT SIGKEYHASH, KeyInit FROM PublicKeyInits;", 2, func(c []string) { s.pkis[c[0]] = true })
	q("SELECT Entry FROM Hashchains ORDER BY Position;", 1, func(c []string) { s.chain = append(s.chain, c[0]) })
	return s
}

// breakDB makes all changes after the first n fail.
func (w *world) breakDB(u *user, n int) (repair func() bool) {
	db, err := encdb.Open(u.DB(), []byte(u.Pass))
	vt.InfraIf(err)
	rs, err := db.Query("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite%';")
	vt.InfraIf(err)
	var tables []string
	for rs.Next() {
		var t string
		vt.InfraIf(rs.Scan(&t))
		tables = append(tables, t)
	}
	rs.Close()
	ex := func(s string) { _, err := db.Exec(s); vt.InfraIf(err) }
	ex("CREATE TABLE verif_left (n INTEGER);")
	ex(fmt.Sprintf("INSERT INTO verif_left VALUES (%d);", n))
	for _, t := range tables {
		for _, e := range []string{"INSERT", "UPDATE", "DELETE"} {
			ex("CREATE TRIGGER verif_" + t + e + " AFTER " + e + " ON " + t + " BEGIN UPDATE verif_left SET n=n-1; SELECT RAISE(ABORT, 'injected failure') WHERE (SELECT n FROM verif_left) < 0; END;")
		}
	}
	db.Close()
	return func() bool {
		db, err := encdb.Open(u.DB(), []byte(u.Pass))
		vt.InfraIf(err)
		defer db.Close()
		var left int
		vt.InfraIf(db.QueryRow("SELECT n FROM verif_left;").Scan(&left))
		for _, t := range tables {
			for _, e := range []string{"INSERT", "UPDATE", "DELETE"} {
				_, err := db.Exec("DROP TRIGGER verif_" + t + e + ";")
				vt.InfraIf(err)
			}
		}
		_, err = db.Exec("DROP TABLE verif_left;")
		vt.InfraIf(err)
		return left == 0
	}
}

// run runs a command in the user's loop, if there is one, or else in a new
// engine.
func (w *world) run(u *user, in []byte, args ...string) cekit.Result {
	if u.loop != nil && in == nil && args[0] != "encrypt" && args[0] != "decrypt" {
		return u.loop.Do(args...)
	}
	return u.RunWith(u.Pass+"\n", in, args...)
}

func (w *world) drawFault() *fault {
	if w.calm || w.n(100, "fault") >= 35 {
		return nil
	}
	f := &fault{kind: []string{"refuse", "lost", "mutate", "mutate", "http", "hangup", "db", "db", "db", "db"}[w.n(10, "kind")]}
	f.nth = w.n(3, "nth")
	if f.kind == "mutate" {
		f.seed = rapid.Int64().Draw(w.rt, "seed")
	}
	if f.kind == "db" {
		f.nth = 0
		if f.db = w.n(10, "left"); f.db == 9 {
			f.db = w.n(240, "manyLeft")
		}
	}
	return f
}

// do runs one command and judges everything that holds for every command.
// must: the command must succeed (1), fail (-1) or may do either (0) if it is
// not disturbed.
func (w *world) do(u *user, must int, in []byte, args ...string) (ok, disturbed bool, r cekit.Result, before, after *snap) {
	before = w.snap(u)
	f := w.drawFault()
	inLoop := u.loop != nil && args[0] != "encrypt" && args[0] != "decrypt"
	w.mu.Lock()
	w.fault, w.hit = f, false
	w.mu.Unlock()
	repair := func() bool { return false }
	if f != nil && f.kind == "db" {
		repair = w.breakDB(u, f.db)
	}
	r = w.run(u, in, args...)
	reached := repair()
	w.mu.Lock()
	hit := w.hit
	w.fault = nil
	w.mu.Unlock()
	disturbed = hit || (f != nil && f.kind == "db" && (reached || r.Err != nil))
	desc := fmt.Sprintf("user %d: %s", u.n, strings.Join(args, " "))
	if len(desc) > 160 {
		desc = desc[:160]
	}
	if inLoop {
		desc += " (loop)"
	}
	if f != nil {
		desc += fmt.Sprintf(" [%s after %d, hit %v]", f.kind, f.nth+f.db, disturbed)
	}
	w.log("%s -> %v", desc, r.Err)
	if r.Panic != "" {
		w.fail("crash: %s", r.Panic)
	}
	ok = r.Err == nil
	if inLoop && hit && f.kind == "mutate" {
		u.taint = true
	}
	if disturbed {
		w.dist = true
		w.c.Label("disturbed %s %s", args[0], f.kind)
	}
	if !disturbed && !(inLoop && u.taint) {
		if must > 0 && !ok {
			w.fail("undisturbed command failed: %v", r.Err)
		}
		if must < 0 && ok {
			w.fail("command succeeded")
		}
	}
	if ok {
		w.c.Label("ok %s", strings.Join(args[:min(2, len(args))], " "))
	}
	after = w.snap(u)
	// nothing is lost
	deleted := ""
	if args[0] == "uid" && args[1] == "delete" {
		deleted = args[len(args)-1]
	}
	for _, b := range before.rows {
		found := false
		for _, a := range after.rows {
			if a.js == b.js && a.sig == b.sig && a.enc == b.enc {
				found = true
				if a.reply != b.reply && (b.reply != "" || (args[1] != "register" && args[1] != "update")) {
					w.fail("the server reply of %s changed", b.id)
				}
			}
		}
		if !found && b.id != deleted {
			w.fail("private user ID %s vanished or changed", b.id)
		}
	}
	for _, a := range after.rows {
		m := parse(a.js)
		if err := m.SetPrivateSigKey(a.sig); err != nil {
			w.fail("unusable key of %s: %v", a.id, err)
		}
		if err := m.SetPrivateEncKey(a.enc); err != nil {
			w.fail("unusable key of %s: %v", a.id, err)
		}
		if m.Identity() != a.id {
			w.fail("user ID %s stored as %s", m.Identity(), a.id)
		}
	}
	for _, b := range before.kis {
		found := false
		for _, a := range after.kis {
			found = found || a == b
		}
		if !found && deleted == "" {
			w.fail("a private key-init key vanished")
		}
	}
	for _, b := range before.pubs {
		found := false
		for _, a := range after.pubs {
			found = found || a == b
		}
		if !found {
			w.fail("public user ID %s vanished or changed", b.id)
		}
	}
	for h := range before.pkis {
		if !after.pkis[h] {
			w.fail("a public key-init message vanished")
		}
	}
	if len(after.chain) < len(before.chain) {
		w.fail("the hash chain got shorter")
	}
	for i, e := range after.chain {
		if i >= len(w.s.Chain) || w.s.Chain[i] != e {
			w.fail("local hash chain entry %d is not the server's", i)
		}
	}
	// every published key-init message can be used
	for _, r := range after.rows {
		h, err := parse(r.js).SigKeyHash()
		vt.InfraIf(err)
		for _, js := range w.s.KeyInits[h] {
			k, err := uid.NewJSONKeyInit([]byte(js))
			vt.InfraIf(err)
			ke, err := k.KeyEntryECDHE25519(parse(r.js).SigPubKey())
			vt.InfraIf(err)
			found := false
			for _, p := range after.kis {
				found = found || p.pubHash == ke.HASH
			}
			if !found {
				w.fail("the private key of a published key-init message of %s is not stored", r.id)
			}
		}
	}
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (w *world) owner(id string) *user {
	for _, u := range w.users {
		for _, i := range u.ids {
			if i == id {
				return u
			}
		}
	}
	return nil
}

func sgn(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (w *world) allIDs() (l []string) {
	for _, u := range w.users {
		l = append(l, u.ids...)
	}
	return
}

// variant returns another spelling of an identity.
func (w *world) variant(id string) string {
	switch w.n(6, "spelling") {
	case 0:
		return strings.ToUpper(id)
	case 1:
		return strings.Replace(id, "l", "1", 1)
	}
	return id
}

func (w *world) generate(u *user, id string) {
	b := w.snap(u)
	exists := b.newest(id) != nil
	must := sgn(len(b.chain) > 0)
	if exists && must > 0 {
		must = 0
	}
	ok, dis, _, b, a := w.do(u, must, nil, "uid", "generate", "--id", w.variant(id))
	_ = dis
	n := a.newest(id)
	if ok && n == nil {
		w.fail("no keys were stored")
	}
	if !ok && !exists && n != nil {
		// not stored completely would be seen in do
		w.c.Label("failed generate stored")
	}
	if exists && *b.newest(id) != *n {
		w.fail("generating %s again replaced its keys", id)
	}
}

func (w *world) server(id, js string) bool {
	m := w.last(id)
	return m != nil && string(m.JSON()) == js
}

func (w *world) register(u *user, id, cmd string) {
	b := w.snap(u)
	r := b.newest(id)
	must := -1
	if r != nil && r.reply == "" {
		m := parse(r.js)
		prev := w.last(id)
		if cmd == "register" && m.UIDContent.MSGCOUNT == 0 && prev == nil {
			must = 1
		}
		if cmd == "update" && prev != nil && m.VerifyUserSig(prev) == nil {
			must = 1
		}
	}
	ok, dis, _, _, a := w.do(u, must, nil, "uid", cmd, "--id", w.variant(id), "--token", "dG9rZW4=")
	n := a.newest(id)
	if n != nil && r != nil && n.reply != r.reply && dis {
		u.bogus[id] = true
	}
	if ok && (n == nil || n.reply == "" || !w.server(id, n.js)) {
		w.fail("%s of %s succeeded, but it is not registered with its reply stored", cmd, id)
	}
}

func (w *world) genupdate(u *user, id string) {
	b := w.snap(u)
	r := b.newest(id)
	ok, _, _, _, a := w.do(u, sgn(r != nil), nil, "uid", "genupdate", "--id", w.variant(id))
	n := a.newest(id)
	if ok && (n == nil || parse(n.js).VerifyUserSig(parse(r.js)) != nil) {
		w.fail("no update of %s", id)
	}
	if !ok && r != nil && *n != *r {
		w.fail("failed update changed %s", id)
	}
}

func (w *world) delete(u *user, id string) {
	b := w.snap(u)
	ok, _, _, _, a := w.do(u, sgn(b.newest(id) != nil), nil, "uid", "delete", "--force", "--id", id)
	if ok && a.newest(id) != nil {
		w.fail("%s still exists after its deletion", id)
	}
	if !ok && b.newest(id) != nil && a.newest(id) == nil {
		w.c.Label("failed delete deleted")
	}
}

func (w *world) list(u *user) {
	ok, _, r, _, a := w.do(u, 1, nil, "uid", "list")
	if !ok {
		return
	}
	got := strings.Fields(string(r.Out))
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(a.ids()) {
		w.fail("listed %q, stored %q", got, a.ids())
	}
}

func sigHash(m *uid.Message) string {
	h, err := m.SigKeyHash()
	vt.InfraIf(err)
	return h
}

func (w *world) keyinit(u *user, id string) {
	b := w.snap(u)
	r := b.newest(id)
	w.nNym++
	nym := fmt.Sprintf("nym%d", w.nNym)
	w.sent[nym+" "+id] = true
	var before int
	if r != nil {
		before = len(w.s.KeyInits[sigHash(parse(r.js))])
	}
	ok, _, _, _, a := w.do(u, sgn(r != nil), nil, "keyinit", "add", "--id", w.variant(id), "--mixaddress", "mix", "--nymaddress", nym, "--token", "dG9rZW4=")
	if ok {
		if n := len(w.s.KeyInits[sigHash(parse(r.js))]); n != before+1 {
			w.fail("%d key-init messages published, before %d", n, before)
		}
		if len(a.kis) <= len(b.kis) {
			w.fail("private key not stored")
		}
	}
}

func (w *world) fetch(u *user, id string) {
	b := w.snap(u)
	p := b.public(id)
	ok, _, _, _, a := w.do(u, sgn(p != nil && len(w.s.KeyInits[sigHash(parse(p.js))]) > 0), nil, "keyinit", "fetch", "--id", w.variant(id))
	if ok && !a.pkis[sigHash(parse(p.js))] {
		w.fail("key-init message of %s not stored", id)
	}
}

func (w *world) flush(u *user, id string) {
	r := w.snap(u).newest(id)
	ok, _, _, _, _ := w.do(u, sgn(r != nil), nil, "keyinit", "flush", "--id", w.variant(id))
	if ok && len(w.s.KeyInits[sigHash(parse(r.js))]) > 0 {
		w.fail("key-init messages not flushed")
	}
}

func (w *world) sync(u *user) {
	ok, _, _, _, a := w.do(u, 1, nil, "hashchain", "sync", "--domain", dom)
	if ok && len(a.chain) != len(w.s.Chain) {
		w.fail("synchronised to %d of %d entries", len(a.chain), len(w.s.Chain))
	}
}

func (w *world) validate(u *user) {
	b := w.snap(u)
	must := sgn(len(b.chain) > 0)
	if len(u.bogus) > 0 && must > 0 {
		must = 0
	}
	w.do(u, must, nil, "hashchain", "validate", "--domain", dom)
}

func (w *world) search(u *user, id, cmd string) {
	b := w.snap(u)
	last := -1
	for i := range b.chain {
		if w.s.UIDs[w.s.Index[i]].Identity() == id {
			last = i
		}
	}
	must := sgn(last >= 0)
	if must > 0 && b.public("keyserver@"+dom) == nil && id != "keyserver@"+dom {
		must = -1
		if p := b.public(id); p != nil && p.pos == last {
			must = 0
		}
	}
	if cmd == "lookup" && must < 0 {
		must = 0 // depends on the server alone
	}
	if cmd == "lookup" && len(b.chain) != len(w.s.Chain) {
		must = 0
	}
	ok, _, _, _, a := w.do(u, must, nil, "hashchain", cmd, "--id", w.variant(id))
	if ok && cmd == "search" {
		if p := a.public(id); p == nil || p.pos != last {
			w.fail("the user ID message of %s at %d was not stored", id, last)
		}
	}
	for _, p := range a.pubs {
		if p.pos >= len(a.chain) || string(w.s.UIDs[w.s.Index[p.pos]].JSON()) != p.js {
			w.fail("stored user ID message of %s at %d is not the registered one", p.id, p.pos)
		}
	}
}

func (w *world) encrypt(u *user, from, to string) {
	b := w.snap(u)
	r, p := b.newest(from), b.public(to)
	must := -1
	var key [2]string
	if r != nil && p != nil {
		key = [2]string{parse(r.js).PubHash(), parse(p.js).PubHash()}
		if w.est[key] || b.pkis[sigHash(parse(p.js))] {
			must = 1
		}
	}
	kind := w.n(4, "kind")
	size := w.n(2000, "size")
	if w.n(8, "big") == 0 {
		size = msg.MaxContentLength - w.n(2, "less")
	} else if w.n(30, "tooBig") == 0 {
		size = msg.MaxContentLength + 1 + w.n(1000, "more")
		if must > 0 {
			must = -1
		}
	}
	content := vt.Expand(size, rapid.Uint32().Draw(w.rt, "content"), kind)
	w.nNym++
	nym := fmt.Sprintf("nym%d", w.nNym)
	args := []string{"encrypt", "--from", w.variant(from), "--to", w.variant(to), "--nymaddress", nym}
	sign := rapid.Bool().Draw(w.rt, "sign")
	if sign {
		args = append(args, "--sign")
	}
	ok, _, res, _, _ := w.do(u, must, content, args...)
	w.sent[nym+" "+from] = true
	if !ok {
		return
	}
	st := string(res.Status)
	if !strings.HasPrefix(st, "NYMADDRESS:\t") || !w.sent[strings.TrimSpace(st[len("NYMADDRESS:\t"):])+" "+to] {
		w.fail("reported nym address %q was never given by %s", st, to)
	}
	w.est[key] = true
	w.box[key] = append(w.box[key], &mail{enc: res.Out, content: content, from: from, fromH: key[0], to: to, toH: key[1], signed: sign})
}

// decrypt delivers the next message of one direction.
func (w *world) decrypt(key [2]string) {
	m := w.box[key][0]
	u := w.owner(m.to)
	b := w.snap(u)
	must := sgn(b.hasKey(m.toH))
	ok, dis, r, _, _ := w.do(u, must, m.enc, "decrypt")
	if ok {
		st := strings.Split(strings.TrimSpace(string(r.Status)), "\n")
		if st[0] != "SENDERIDENTITY:\t"+m.from || (len(st) == 2) != m.signed || len(st) > 2 || !bytes.Equal(r.Out, m.content) {
			w.fail("message %s -> %s of %d bytes (signed %v) decrypts to %d bytes, status %q", m.from, m.to, len(m.content), m.signed, len(r.Out), st)
		}
		w.nMail++
		w.okAft = w.okAft || w.dist
		w.est[[2]string{key[1], key[0]}] = true
		w.old = append(w.old, m)
	} else if dis {
		m.tried = true
		w.c.Label("decryption failed")
		return
	}
	w.box[key] = w.box[key][1:]
	if len(w.box[key]) == 0 {
		delete(w.box, key)
	}
}

func (w *world) boxes() (l [][2]string) {
	for k := range w.box {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		return fmt.Sprint(w.box[l[i]][0].from, w.box[l[i]][0].to, seq(w.box[l[i]][0])) < fmt.Sprint(w.box[l[j]][0].from, w.box[l[j]][0].to, seq(w.box[l[j]][0]))
	})
	return
}

func seq(m *mail) string { return fmt.Sprintf("%d %v %.20x", len(m.content), m.signed, m.content) }

func (w *world) again() {
	if len(w.old) == 0 {
		return
	}
	m := w.old[w.n(len(w.old), "old")]
	w.log("replay of %s -> %s", m.from, m.to)
	w.do(w.owner(m.to), -1, m.enc, "decrypt")
}

func (w *world) misdirect() {
	l := w.boxes()
	if len(l) == 0 {
		return
	}
	m := w.box[l[w.n(len(l), "box")]][0]
	o := w.owner(m.to)
	u := w.users[(o.n+1)%len(w.users)]
	w.log("message %s -> %s offered to user %d", m.from, m.to, u.n)
	w.do(u, -1, m.enc, "decrypt")
}

func (w *world) rekey(u *user) {
	next := rapid.StringMatching(`[a-z]{1,8}`).Draw(w.rt, "pass")
	mode := w.n(4, "mode")
	old, second := u.Pass, next
	switch mode {
	case 1:
		old += "x"
	case 2:
		second += "y"
	}
	b := w.snap(u)
	r := u.RunWith(old+"\n"+next+"\n"+second+"\n", nil, "db", "rekey", "--iterations", "1")
	w.log("user %d: rekey mode %d -> %v", u.n, mode, r.Err)
	if r.Panic != "" {
		w.fail("crash: %s", r.Panic)
	}
	if (r.Err == nil) != (mode == 0 || mode == 3) {
		w.fail("rekey: %v", r.Err)
	}
	if r.Err == nil {
		if u.Pass != next {
			if x := u.RunWith(u.Pass+"\n", nil, "uid", "list"); x.Err == nil {
				w.fail("the old passphrase is still accepted")
			}
		}
		u.Pass = next
	}
	if fmt.Sprint(w.snap(u)) != fmt.Sprint(b) {
		w.fail("rekey changed the database")
	}
}

func (w *world) wrong(u *user) {
	b := w.snap(u)
	var r cekit.Result
	what := w.n(3, "what")
	switch what {
	case 0: // wrong passphrase
		r = u.RunWith(u.Pass+"z\n", nil, "uid", "generate", "--id", u.ids[0])
	case 1: // exists
		r = u.RunWith("new\nnew\n", nil, "db", "create", "--iterations", "1")
	case 2: // no input
		r = u.RunWith("", nil, "uid", "delete", "--force", "--id", u.ids[0])
	}
	w.log("user %d: wrong use %d -> %v", u.n, what, r.Err)
	if r.Panic != "" {
		w.fail("crash: %s", r.Panic)
	}
	if r.Err == nil {
		w.fail("wrong use succeeded")
	}
	if fmt.Sprint(w.snap(u)) != fmt.Sprint(b) {
		w.fail("refused command changed the database")
	}
}

func (w *world) toggle(u *user) {
	if u.loop != nil {
		w.quit(u)
		return
	}
	u.loop = u.Loop()
	r := u.loop.Do("uid", "list") // opens the database
	w.log("user %d: loop -> %v", u.n, r.Err)
	if r.Panic != "" || r.Err != nil {
		w.fail("loop: %v %s", r.Err, r.Panic)
	}
	w.c.Label("loop")
}

func (w *world) quit(u *user) {
	if u.loop != nil {
		r := u.loop.Quit()
		w.log("user %d: quit -> %v", u.n, r.Err)
		if r.Panic != "" || r.Err != nil {
			w.fail("quit: %v %s", r.Err, r.Panic)
		}
		u.loop, u.taint = nil, false
	}
}

func TestCommands(t *testing.T) {
	vt.Check(t, "random sequences of all commands of the crypto engine (single and loop mode) of two or three users with one or two identities each, against a key server that fails, loses or changes replies, with databases that fail after a number of changes; non-trivial: at least two messages were decrypted, one of them after a disturbed command", 24, 500, func(rt *rapid.T, c *vt.Case) {
		w := &world{rt: rt, c: c, dir: vt.TempDir(), s: cekit.NewServer(dom), est: map[[2]string]bool{}, box: map[[2]string][]*mail{}, sent: map[string]bool{}}
		w.s.ServerUID()
		w.rpc = cekit.NewRPC(false)
		defer w.rpc.Close()
		w.rpc.Handle(w.handle)
		w.rpc.Raw(w.raw)
		nu := 2 + w.n(2, "users")
		names := []string{"alice", "bob", "carol", "dave", "will", "lola"}
		for i := 0; i < nu; i++ {
			u := &user{n: i, bogus: map[string]bool{}}
			u.User = cekit.NewUser(filepath.Join(w.dir, fmt.Sprint(i)), "", map[string]string{"keyserver." + dom: w.rpc.URL() + "/"}, nil)
			u.Pass = fmt.Sprintf("pass%d", i)
			if r := u.RunWith(u.Pass+"\n"+u.Pass+"x\n", nil, "db", "create", "--iterations", "1"); r.Err == nil {
				w.fail("created a database with differing passphrases")
			}
			if r := u.RunWith(u.Pass+"\n"+u.Pass+"\n", nil, "db", "create", "--iterations", "1"); r.Err != nil || r.Panic != "" {
				w.fail("db create: %v %s", r.Err, r.Panic)
			}
			for k := 0; k < 2; k++ {
				u.ids = append(u.ids, mapped(names[2*i+k]+"@"+dom))
			}
			w.users = append(w.users, u)
		}
		defer func() {
			for _, u := range w.users {
				if u.loop != nil {
					u.loop.Quit()
				}
			}
		}()
		// most histories begin with users who know each other
		if w.n(5, "setup") > 0 {
			w.calm = w.n(4, "calm") > 0
			for _, u := range w.users {
				w.sync(u)
				w.search(u, "keyserver@"+dom, "search")
				w.generate(u, u.ids[0])
				w.register(u, u.ids[0], "register")
				w.keyinit(u, u.ids[0])
			}
			for _, u := range w.users {
				w.sync(u)
				for _, o := range w.users {
					if o != u {
						w.search(u, o.ids[0], "search")
						w.fetch(u, o.ids[0])
					}
				}
			}
		}
		w.calm = false
		steps := 20 + w.n(40, "steps")
		for i := 0; i < steps; i++ {
			u := w.users[w.n(len(w.users), "user")]
			own := u.ids[min(w.n(4, "own"), 1)^1]
			if w.n(4, "first") > 0 {
				own = u.ids[0]
			}
			all := w.allIDs()
			any := all[w.n(len(all), "any")]
			if w.n(3, "other") > 0 {
				o := w.users[(u.n+1+w.n(len(w.users)-1, "peer"))%len(w.users)]
				any = o.ids[0]
			}
			if any == own && w.n(10, "self") > 0 {
				continue
			}
			l := w.boxes()
			switch k := w.n(100, "op"); {
			case k < 30:
				if len(l) > 0 {
					w.decrypt(l[w.n(len(l), "box")])
				}
			case k < 50:
				w.encrypt(u, own, any)
			case k < 54:
				w.sync(u)
			case k < 59:
				if w.n(6, "keyserver") == 0 {
					any = "keyserver@" + dom
				}
				w.search(u, any, []string{"search", "search", "lookup"}[w.n(3, "cmd")])
			case k < 62:
				w.generate(u, own)
			case k < 65:
				w.register(u, own, "register")
			case k < 68:
				w.genupdate(u, own)
			case k < 71:
				w.register(u, own, "update")
			case k < 72:
				w.delete(u, own)
			case k < 74:
				w.list(u)
			case k < 78:
				w.keyinit(u, own)
			case k < 82:
				w.fetch(u, any)
			case k < 83:
				w.flush(u, own)
			case k < 86:
				w.validate(u)
			case k < 88:
				w.rekey(u)
			case k < 90:
				w.wrong(u)
			case k < 94:
				w.again()
			case k < 97:
				w.misdirect()
			default:
				w.toggle(u)
			}
		}
		for _, u := range w.users {
			w.quit(u)
		}
		// everything sent arrives
		for n := 0; len(w.box) > 0; n++ {
			w.decrypt(w.boxes()[0])
			if n > 1000 {
				w.fail("messages do not arrive")
			}
		}
		c.Label("messages %d", (w.nMail+4)/5*5)
		if w.nMail >= 2 && w.okAft {
			c.NonTrivial(w.hist)
		}
		c.Sample("%s", strings.Join(w.hist[:min(len(w.hist), 40)], "; "))
		c.Eval(len(w.hist) - 1)
	})
}

func mapped(id string) string {
	m, err := identity.Map(id)
	vt.InfraIf(err)
	return m
}
