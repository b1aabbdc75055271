// Package s06 decides property S06: the token client never loses or gives
// away tokens when servers misbehave.
package s06

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"database/sql"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/guardkit"
	"verif/vt"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/util/jsonclient"
	"pgregory.net/rapid"
)

type m = map[string]interface{}

var (
	b64    = base64.StdEncoding
	usages = []string{"Message", "UID"}
)

// fault is what happens to one request.
type fault struct {
	at   string // the method, if only that
	kind string
	n    int
	text string
	seed int
}

var serverErrors = []string{"walletserver: server error", "walletserver: no such user", "walletserver: bad token", "walletserver: insufficient funds",
	"keylookup: server error", "keylookup: key not found", "issuer: parameter and Token usage mismatch", "issuer: parameters have expired", "issuer: wrong calltype",
	"issuer: server errror", "issuer: token double spend", "issuer: parameter double spend", "issuer: bad package", "issuer: owner signature verification failed",
	"issuer: wrong issuer", "issuer: token expired", "issuer: bad signature in token", "issuer: parameters were mixed", "other", "", "ErrReplay: 0", "ErrReplay: x", "ErrReplay: 99"}

// refusesParams are answers after which the client makes a new request: an
// issuer that gives one did not reissue.
var refusesParams = map[string]bool{"issuer: parameter and Token usage mismatch": true, "issuer: parameters have expired": true,
	"issuer: parameters were mixed": true, "issuer: parameter double spend": true}

func drawFault(t *rapid.T) (f fault) {
	f.kind = rapid.SampledFrom([]string{"", "", "before", "after", "after", "error", "error after", "json", "json", "wrong", "wrong", "wrong", "status", "junk"}).Draw(t, "fault")
	f.at = rapid.SampledFrom([]string{"", "", "ServiceGuard.Reissue", "ServiceGuard.Reissue", "WalletServer.GetToken", "ServiceGuard.GetParams"}).Draw(t, "at")
	switch f.kind {
	case "error", "error after":
		f.text = rapid.SampledFrom(serverErrors).Draw(t, "error")
	case "json", "wrong":
		f.n = rapid.IntRange(0, 15).Draw(t, "how")
		f.seed = rapid.IntRange(0, 1<<20).Draw(t, "seed")
	case "junk":
		f.text = rapid.SampledFrom([]string{"", "[1,", "null", "{}", `{"jsonrpc":"2.0","result":null,"id":1}`, `{"jsonrpc":"2.0","result":[],"id":1}`, `{"jsonrpc":"2.0","error":{},"id":1}`, `{"jsonrpc":"2.0","error":3,"id":1}`}).Draw(t, "text")
	}
	return
}

// server is all the servers.
type server struct {
	mu       sync.Mutex
	root     ed25519.PrivateKey
	issuers  []*guardkit.Issuer // serve usages 0, 0, 1
	keys     []*guardkit.Key    // their current keys
	all      []*guardkit.Key
	stranger *guardkit.Issuer
	old      *guardkit.Key // an expired key of issuer 0
	account  [32]byte
	other    *[32]byte // an owner
	funds    int

	time, counter uint64
	cache         map[string]answer

	mode     int // what the wallet server adds to a token
	pick     int // which issuer it takes
	faults   []fault
	requests int
	faulted  int
	event    func() bool // called before and after requests are processed; true: the client dies
	reissues int
	known    [][]byte // issued tokens the client holds

	sent      map[string]int // times an authentication token was used
	lost      string         // the one of a wallet token that was lost on its way to the client
	abandoned bool           // the client did not ask for it again
	again     int            // times it did
}

type answer struct {
	r   m
	err error
}

func usageOf(issuer int) string { return usages[issuer/2] }

func newServer(account [32]byte, other *[32]byte) *server {
	_, root, err := ed25519.GenerateKey(rand.Reader)
	vt.InfraIf(err)
	s := &server{root: root, account: account, other: other, funds: 1 << 30, cache: map[string]answer{}, sent: map[string]int{}, event: func() bool { return false }}
	for i := 0; i < 3; i++ {
		s.issuers = append(s.issuers, guardkit.NewIssuer())
		s.keys = append(s.keys, nil)
		s.rotate(i)
	}
	s.stranger = guardkit.NewIssuer()
	s.old = s.issuers[0].NewKey(usages[0], -100)
	return s
}

func (s *server) rotate(i int) {
	s.keys[i] = s.issuers[i].NewKey(usageOf(i), 60*86400)
	s.all = append(s.all, s.keys[i])
}

// issuerOf finds the issuer of a token.
func (s *server) issuerOf(enc []byte) (raw guardkit.RawToken, is *guardkit.Issuer, k *guardkit.Key) {
	raw, ok := guardkit.ParseToken(enc)
	if !ok {
		return
	}
	for _, i := range s.issuers {
		if k := i.Key(raw.KeyID); k != nil {
			return raw, i, k
		}
	}
	return
}

func (s *server) issued(hash []byte) bool {
	for _, i := range s.issuers {
		if i.Issued[string(hash)] {
			return true
		}
	}
	return false
}

func (s *server) spent(hash []byte) bool {
	for _, i := range s.issuers {
		if i.Spent[string(hash)] {
			return true
		}
	}
	return false
}

// processed reports whether the token of a request is spent.
func (s *server) processed(packet []byte) bool {
	var p guardkit.RawReissue
	if _, err := asn1.Unmarshal(packet, &p); err != nil {
		return false
	}
	t, _ := guardkit.ParseToken(p.Token)
	return s.spent(t.Hash())
}

func e(b []byte) string { return b64.EncodeToString(b) }

func str(p m, name string) []byte {
	v, _ := p[name].(string)
	b, err := b64.DecodeString(v)
	if err != nil {
		return nil
	}
	return b
}

func (s *server) verifyList(signer ed25519.PrivateKey, keys ...[]byte) m {
	var l []string
	for _, k := range keys {
		l = append(l, hex.EncodeToString(k))
	}
	list := strings.Join(l, ", ")
	return m{"PublicKey": hex.EncodeToString(signer[32:]), "KeyList": list, "Signature": hex.EncodeToString(ed25519.Sign(signer, []byte(list)))}
}

func (s *server) wallet(p m) (m, error) {
	tok := str(p, "AuthToken")
	pub, lt, lc, err := walletauth.AuthToken(tok).CheckToken()
	if err != nil || *pub != s.account {
		return nil, errors.New("walletserver: bad token")
	}
	if a, ok := s.cache[string(tok)]; ok {
		return a.r, a.err
	}
	if lt < s.time || lt == s.time && lc <= s.counter {
		return nil, fmt.Errorf("ErrReplay: %d", s.counter)
	}
	s.time, s.counter = lt, lc
	var a answer
	usage, _ := p["Usage"].(string)
	if s.funds == 0 {
		a.err = errors.New("walletserver: insufficient funds")
	} else {
		s.funds--
		i := s.pick % 2
		if usage == usages[1] {
			i = 2
		}
		var params []byte
		if s.mode > 0 {
			params = s.issuers[i].Params(s.keys[i], s.mode == 1)
		}
		a.r = m{"Token": e(s.issuers[i].Issue(s.keys[i], &s.account)), "Params": e(params), "PubKeyUsed": e(s.keys[i].Enc)}
	}
	s.cache[string(tok)] = a
	return a.r, a.err
}

// answer is what an honest server answers.
func (s *server) answer(where, method string, p m) (m, error) {
	if where == "wallet" && method == "WalletServer.GetToken" {
		return s.wallet(p)
	}
	if where == "lookup" && method == "PublicService.VerifyKeys" {
		var l [][]byte
		for _, i := range s.issuers {
			l = append(l, i.Pub[:])
		}
		return s.verifyList(s.root, l...), nil
	}
	if where == "lookup" && method == "PublicService.LookupKey" {
		id, _ := p["KeyID"].(string)
		for _, k := range s.all {
			if hex.EncodeToString(k.KeyID) == id {
				return m{"Key": e(k.Enc)}, nil
			}
		}
		return nil, errors.New("keylookup: key not found")
	}
	for n, i := range s.issuers {
		if where != hex.EncodeToString(i.Pub[:]) {
			continue
		}
		switch method {
		case "ServiceGuard.GetParams":
			return m{"Packet": e(i.Params(s.keys[n], s.requests%2 == 0))}, nil
		case "ServiceGuard.Reissue":
			reply, k, err := i.Reissue(str(p, "Packet"))
			if err != nil {
				return nil, err
			}
			s.reissues++
			return m{"Packet": e(reply), "PubkeyUsed": e(k.Enc)}, nil
		}
	}
	return nil, errors.New("no such method")
}

// wrong makes a well-formed answer that is wrong.
func (s *server) wrong(f fault, where, method string, p, r m) {
	is := s.issuers[0]
	k := s.keys[0]
	rnd := vt.Expand(32, uint32(f.seed), 0)
	flip := func(name string) {
		b := str(r, name)
		if len(b) > 0 {
			b[f.seed%len(b)] ^= 1 << uint(f.seed/7%8)
		}
		r[name] = e(b)
	}
	strangers := s.stranger.NewKey(usages[f.n%2], 86400)
	switch method {
	case "WalletServer.GetToken":
		switch f.n {
		case 0: // for another owner
			r["Token"], r["PubKeyUsed"] = e(is.Issue(k, s.other)), e(k.Enc)
		case 1, 2: // for another usage
			n := 2
			if p["Usage"] == usages[1] {
				n = 0
			}
			r["Token"], r["PubKeyUsed"], r["Params"] = e(s.issuers[n].Issue(s.keys[n], &s.account)), e(s.keys[n].Enc), ""
		case 3: // of a key nobody trusts
			r["Token"], r["PubKeyUsed"] = e(s.stranger.Issue(strangers, &s.account)), e(strangers.Enc)
		case 4: // says another key
			r["PubKeyUsed"] = e(s.all[f.seed%len(s.all)].Enc)
		case 5:
			r["Params"] = e(s.issuers[f.seed%3].Params(s.keys[f.seed%3], f.seed%2 == 0))
		case 6:
			r["Params"] = e(rnd[:f.seed%32])
		case 7:
			flip("Params")
		case 8, 9:
			flip("Token")
		case 10: // expired
			r["Token"], r["PubKeyUsed"], r["Params"] = e(is.Issue(s.old, &s.account)), e(s.old.Enc), ""
		case 11:
			flip("PubKeyUsed")
		case 12, 13, 14, 15: // a token it gave before
			if len(s.known) > 0 {
				t := s.known[f.seed%len(s.known)]
				_, _, k := s.issuerOf(t)
				r["Token"], r["PubKeyUsed"] = e(t), e(k.Enc)
			}
		}
	case "PublicService.VerifyKeys":
		own := []string{}
		for _, i := range s.issuers {
			own = append(own, hex.EncodeToString(i.Pub[:]))
		}
		switch f.n % 6 {
		case 0: // by a stranger
			for n, v := range s.verifyList(s.stranger.Priv, s.stranger.Pub[:]) {
				r[n] = v
			}
		case 1: // by a stranger who says he is root
			for n, v := range s.verifyList(s.stranger.Priv, s.stranger.Pub[:]) {
				r[n] = v
			}
			r["PublicKey"] = hex.EncodeToString(s.root[32:])
		case 2: // with a stranger
			r["KeyList"] = strings.Join(append(own, hex.EncodeToString(s.stranger.Pub[:])), ", ")
		case 3:
			r["KeyList"] = hex.EncodeToString(s.stranger.Pub[:])
		case 4:
			r["Signature"] = hex.EncodeToString(rnd)
		case 5:
			r["PublicKey"] = hex.EncodeToString(s.stranger.Pub[:])
		}
	case "PublicService.LookupKey":
		switch f.n % 3 {
		case 0:
			r["Key"] = e(s.all[f.seed%len(s.all)].Enc)
		case 1:
			r["Key"] = e(strangers.Enc)
		case 2:
			flip("Key")
		}
	case "ServiceGuard.GetParams":
		switch f.n % 6 {
		case 0, 1:
			r["Packet"] = e(s.issuers[f.seed%3].Params(s.keys[f.seed%3], true))
		case 2:
			r["Packet"] = e(s.issuers[0].Params(s.old, true))
		case 3:
			r["Packet"] = e(s.stranger.Params(strangers, true))
		case 4:
			r["Packet"] = e(rnd[:f.seed%32])
		case 5:
			flip("Packet")
		}
	case "ServiceGuard.Reissue":
		switch f.n % 6 {
		case 0:
			r["Packet"] = e(rnd[:f.seed%32])
		case 1, 2:
			flip("Packet")
		case 3:
			r["PubkeyUsed"] = e(s.all[f.seed%len(s.all)].Enc)
		case 4:
			r["PubkeyUsed"] = e(strangers.Enc)
		case 5:
			flip("PubkeyUsed")
		}
	}
}

func hang(w http.ResponseWriter) {
	if h, ok := w.(http.Hijacker); ok {
		conn, _, err := h.Hijack()
		if err == nil {
			conn.Close()
		}
	}
}

func (s *server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var in struct {
		Method string
		Params m
		ID     interface{}
	}
	if err := json.NewDecoder(req.Body).Decode(&in); err != nil {
		w.WriteHeader(400)
		return
	}
	s.requests++
	var f fault
	if len(s.faults) > 0 && (s.faults[0].at == "" || s.faults[0].at == in.Method) {
		f, s.faults = s.faults[0], s.faults[1:]
		if f.kind != "" {
			s.faulted++
		}
	}
	where := path.Base(req.URL.Path)
	var auth string
	if in.Method == "WalletServer.GetToken" {
		auth = string(str(in.Params, "AuthToken"))
		s.sent[auth]++
		if s.lost != "" && auth != s.lost && s.sent[s.lost] < 3 {
			s.abandoned = true
		}
		if s.lost != "" && auth == s.lost {
			s.again++
		}
		s.lost = ""
	}
	if s.event() {
		hang(w)
		return
	}
	switch f.kind {
	case "before":
		hang(w)
		return
	case "status":
		w.WriteHeader(500)
		return
	case "junk":
		w.Write([]byte(f.text))
		return
	}
	var r m
	err := errors.New(f.text)
	if refusesParams[f.text] && in.Method == "ServiceGuard.Reissue" && s.processed(str(in.Params, "Packet")) {
		f = fault{} // an issuer does not refuse what it did
	}
	if f.kind != "error" {
		r, err = s.answer(where, in.Method, in.Params)
	}
	if s.event() || f.kind == "after" {
		if err == nil {
			s.lost = auth
		}
		hang(w)
		return
	}
	if f.kind == "error after" && !refusesParams[f.text] {
		err = errors.New(f.text)
	}
	if err == nil && f.kind == "wrong" {
		q := m{}
		for n, v := range r {
			q[n] = v
		}
		r = q
		s.wrong(f, where, in.Method, in.Params, r)
	}
	reply := m{"jsonrpc": "2.0", "id": in.ID}
	if err != nil {
		reply["error"] = m{"code": -32000, "message": err.Error()}
	} else {
		reply["result"] = r
	}
	out, jerr := json.Marshal(reply)
	vt.InfraIf(jerr)
	if f.kind == "json" {
		out = rapid.Custom(func(t *rapid.T) []byte {
			o, _ := vt.MutateJSON(t, out, "reply", "/result")
			return o
		}).Example(f.seed)
	}
	w.Write(out)
}

var front struct {
	mu  sync.Mutex
	s   *server
	srv *httptest.Server
}

func TestMain(mm *testing.M) {
	front.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		front.mu.Lock()
		s := front.s
		front.mu.Unlock()
		s.ServeHTTP(w, req)
	}))
	front.srv.Config.SetKeepAlivesEnabled(false)
	front.srv.Start()
	to := func(where string) func(string, []byte) (*jsonclient.URLClient, error) {
		return func(url string, cert []byte) (*jsonclient.URLClient, error) {
			w := where
			if w == "" {
				w = path.Base(url)
			}
			return jsonclient.New(front.srv.URL+"/"+w, nil)
		}
	}
	walletrpc.DefaultClientFactory = to("wallet")
	keylookup.DefaultClientFactory = to("lookup")
	guardrpc.DefaultClientFactory = to("")
	vt.Main(mm)
}

// store is the wallet store with failures. It notes what is stored.
type store struct {
	*walletstore.Storage
	w *world
}

var errCrash = errors.New("crash of the client")
var errStore = errors.New("store failed")

// step is called before each call of the store.
func (s *store) step(name string) error {
	w := s.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.crashing() {
		panic(errCrash)
	}
	if w.failStore == name && w.failSkip > 0 {
		w.failSkip--
	} else if w.failStore == name {
		w.failStore = ""
		w.storeFailed = true
		w.resets = true
		return errStore
	}
	return nil
}

func (s *store) SetAuthToken(t []byte, tries int) error {
	if err := s.step("SetAuthToken"); err != nil {
		return err
	}
	return s.Storage.SetAuthToken(t, tries)
}

func (s *store) SetToken(t client.TokenEntry) error {
	if err := s.step("SetToken"); err != nil {
		return err
	}
	err := s.Storage.SetToken(t)
	if err == nil {
		s.w.stored(t)
	}
	return err
}

func (s *store) GetToken(hash []byte, lock int64) (*client.TokenEntry, error) {
	if err := s.step("GetToken"); err != nil {
		return nil, err
	}
	return s.Storage.GetToken(hash, lock)
}

func (s *store) GetAndLockToken(usage string, owner *[32]byte) (*client.TokenEntry, error) {
	if err := s.step("GetAndLockToken"); err != nil {
		return nil, err
	}
	return s.Storage.GetAndLockToken(usage, owner)
}

func (s *store) FindToken(usage string) (*client.TokenEntry, error) {
	if err := s.step("FindToken"); err != nil {
		return nil, client.ErrNoToken
	}
	return s.Storage.FindToken(usage)
}

func (s *store) LockToken(hash []byte) int64 {
	if err := s.step("LockToken"); err != nil {
		return -1
	}
	return s.Storage.LockToken(hash)
}

func (s *store) UnlockToken(hash []byte) {
	if s.w.isDead() {
		return
	}
	s.Storage.UnlockToken(hash)
}

func (s *store) DelToken(hash []byte) {
	if s.w.isDead() {
		return
	}
	s.Storage.DelToken(hash)
}

// held is a token in the wallet.
type held struct {
	raw   guardkit.RawToken
	first client.TokenEntry
	last  client.TokenEntry
	n     int // age
}

// world is a client and its servers.
type world struct {
	rt      *rapid.T
	s       *server
	wallet  guardkit.Owner
	owners  []guardkit.Owner
	db      *sql.DB
	file    string
	store   *store
	c       *client.Client
	tokens  map[string]*held // live tokens
	deleted map[string]bool
	out     map[string]bool // handed out or locked

	mu          sync.Mutex
	crashIn     int // events until the client dies, 0: never
	dead        bool
	failStore   string
	failSkip    int // calls that succeed before
	storeFailed bool
	resets      bool // a failure may have cost the client the state of its wallet call
	fresh       []client.TokenEntry // stored in this operation
	target      *[32]byte           // owner asked for in this operation
	count       int
	anyOwner    bool // the operation is for several owners
}

// crashing counts an event; mu is held.
func (w *world) crashing() bool {
	if !w.dead && w.crashIn > 0 {
		w.crashIn--
		w.dead = w.crashIn == 0
	}
	return w.dead
}

func (w *world) isDead() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.dead }

func keyOf(p *[32]byte) string {
	if p == nil {
		return "nobody"
	}
	return fmt.Sprintf("%x", p[:6])
}

func samePub(a, b *[32]byte) bool { return a == nil && b == nil || a != nil && b != nil && *a == *b }

func samePriv(a, b *[64]byte) bool { return a == nil && b == nil || a != nil && b != nil && *a == *b }

// stored notes a stored token.
func (w *world) stored(t client.TokenEntry) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.fresh = append(w.fresh, t)
}

func newWorld(rt *rapid.T) *world {
	w := &world{rt: rt, wallet: guardkit.NewOwner(), tokens: map[string]*held{}, deleted: map[string]bool{}, out: map[string]bool{}}
	w.owners = []guardkit.Owner{guardkit.NewOwner(), guardkit.NewOwner()}
	w.s = newServer(*w.wallet.Pub, w.owners[0].Pub)
	w.s.event = func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.crashing()
	}
	front.mu.Lock()
	front.s = w.s
	front.mu.Unlock()
	root := new([32]byte)
	copy(root[:], w.s.root[32:])
	client.TrustRoot = root
	w.file = filepath.Join(vt.TempDir(), "wallet")
	w.open()
	if err := w.c.GetVerifyKeys(); err != nil {
		vt.Infra(err)
	}
	return w
}

func (w *world) open() {
	var err error
	w.db, err = sql.Open("sqlite3", w.file)
	vt.InfraIf(err)
	w.db.SetMaxOpenConns(1)
	ws, err := walletstore.New(w.db)
	vt.InfraIf(err)
	w.store = &store{ws, w}
	w.c, err = client.New([]types.Backend{{Type: "database", Value: w.db}}, w.store, w.wallet.Priv, nil)
	vt.InfraIf(err)
	w.c.GoOnline()
}

func (w *world) close() { w.db.Close() }

// run runs one operation of the client.
func (w *world) run(name string, f func()) (crashed bool) {
	w.c.LastError = nil
	w.mu.Lock()
	w.fresh = nil
	w.storeFailed = false
	w.mu.Unlock()
	w.s.mu.Lock()
	w.s.requests = 0
	w.s.mu.Unlock()
	done := make(chan string, 1)
	go func() { done <- vt.Try(f) }()
	select {
	case p := <-done:
		if p != "" && !w.isDead() {
			w.rt.Fatalf("%s: %s", name, p)
		}
	case <-time.After(60 * time.Second):
		w.rt.Fatalf("%s does not end", name)
	}
	return w.isDead()
}

// restart starts the client again, after a crash without the locks of the
// dead one.
func (w *world) restart(crashed bool) {
	w.mu.Lock()
	w.dead, w.crashIn, w.failStore = false, 0, ""
	w.mu.Unlock()
	w.s.mu.Lock()
	w.s.faults = nil
	if crashed {
		w.s.lost, w.s.abandoned = "", false
	}
	w.s.mu.Unlock()
	fresh := w.fresh
	w.close()
	w.open()
	if crashed {
		w.store.Storage.CleanLocks(true)
		w.out = map[string]bool{}
	}
	if err := w.c.GetVerifyKeys(); err != nil {
		w.rt.Fatalf("GetVerifyKeys: %v (%v)", err, w.c.LastError)
	}
	w.fresh = fresh
}

// audit compares the wallet with what it should hold after an operation
// that asked for tokens of an owner.
func (w *world) audit(op string, reissues bool, owner *[32]byte) {
	s := w.s
	s.mu.Lock()
	defer s.mu.Unlock()
	fatal := func(format string, a ...interface{}) {
		w.rt.Helper()
		w.rt.Fatalf("after "+op+": "+format, a...)
	}
	var dead []*held
	successors := map[string]*held{}
	for _, t := range w.fresh {
		h := w.tokens[string(t.Hash)]
		if h == nil {
			raw, is, k := s.issuerOf(t.Token)
			if is == nil {
				fatal("stored a token of no issuer: %x", t.Token)
			}
			if _, _, err := is.CheckToken(t.Token); err != nil {
				fatal("stored a token that is not genuine: %v (%v)", err, raw)
			}
			w.count++
			h = &held{raw: raw, first: t, last: t, n: w.count}
			if !bytes.Equal(raw.Hash(), t.Hash) || t.Usage != k.Usage || t.Expire != k.Expire || !raw.Flag || !bytes.Equal(raw.Owner, t.OwnerPubKey[:]) {
				fatal("token %v is stored as %x, usage %q (%q), expire %d (%d), owner %x", raw, t.Hash, t.Usage, k.Usage, t.Expire, k.Expire, *t.OwnerPubKey)
			}
			if t.OwnerPrivKey != nil && !bytes.Equal(t.OwnerPrivKey[32:], t.OwnerPubKey[:]) {
				fatal("the private key stored with %v is not the owner's", raw)
			}
			if w.deleted[string(t.Hash)] {
				fatal("deleted %v is back", raw)
			}
			w.tokens[string(t.Hash)] = h
			if !s.issued(t.Hash) {
				successors[string(t.Hash)] = h
			} else if *t.OwnerPubKey != *w.wallet.Pub {
				fatal("wallet accepted the token of another owner: %v", raw)
			}
			continue
		}
		// a change of a known token
		if len(t.ServerPacket) > 0 {
			if len(t.BlindingFactors) == 0 || t.NewOwnerPubKey == nil {
				fatal("request for %v is stored without what is needed to complete it", h.raw)
			}
			if len(h.last.ServerPacket) == 0 {
				if !w.anyOwner && owner != nil && !samePub(owner, t.NewOwnerPubKey) {
					fatal("reissue of %v asks for owner %s, not %s", h.raw, keyOf(t.NewOwnerPubKey), keyOf(owner))
				}
				if !w.anyOwner && owner == nil && (t.NewOwnerPrivKey == nil || !bytes.Equal(t.NewOwnerPrivKey[32:], t.NewOwnerPubKey[:])) {
					fatal("reissue of %v has no private key for its new owner", h.raw)
				}
			} else if !bytes.Equal(t.ServerPacket, h.last.ServerPacket) || !bytes.Equal(t.BlindingFactors, h.last.BlindingFactors) ||
				!samePub(t.NewOwnerPubKey, h.last.NewOwnerPubKey) || !samePriv(t.NewOwnerPrivKey, h.last.NewOwnerPrivKey) {
				fatal("the request for %v was changed while under way", h.raw)
			}
		}
		h.last = t
	}
	for hash, h := range w.tokens {
		e, err := w.store.Storage.GetToken([]byte(hash), -1)
		if err != nil {
			dead = append(dead, h)
			delete(w.tokens, hash)
			if w.out[hash] {
				fatal("handed out %v is lost: %v", h.raw, err)
			}
			continue
		}
		f := &h.first
		if !bytes.Equal(e.Hash, f.Hash) || !bytes.Equal(e.Token, f.Token) || e.Usage != f.Usage || e.Expire != f.Expire || e.Renewable != f.Renewable || e.CanReissue != f.CanReissue ||
			!samePub(e.OwnerPubKey, f.OwnerPubKey) || !samePriv(e.OwnerPrivKey, f.OwnerPrivKey) {
			fatal("%v has changed: %+v, was %+v", h.raw, e, f)
		}
		l := &h.last
		if !bytes.Equal(e.ServerPacket, l.ServerPacket) || !bytes.Equal(e.BlindingFactors, l.BlindingFactors) ||
			!samePriv(e.NewOwnerPrivKey, l.NewOwnerPrivKey) || len(l.ServerPacket) > 0 && !samePub(e.NewOwnerPubKey, l.NewOwnerPubKey) {
			fatal("state of %v is not what was stored", h.raw)
		}
		if s.spent(f.Hash) && len(e.ServerPacket) == 0 {
			fatal("%v was reissued but its request is forgotten", h.raw)
		}
		lock := w.store.Storage.LockToken([]byte(hash))
		if lock > 0 {
			w.store.Storage.UnlockToken([]byte(hash))
		}
		if (lock <= 0) != w.out[hash] {
			fatal("%v: locked %v, handed out %v", h.raw, lock <= 0, w.out[hash])
		}
	}
	if len(dead) > 0 && !reissues {
		fatal("%v is lost", dead[0].raw)
	}
	// every token that is gone has a successor
	for _, d := range dead {
		found := ""
		for hash, n := range successors {
			if w.tokens[hash] == nil {
				fatal("new token %v is not stored", n.raw)
			}
			if n.first.Usage == d.first.Usage && samePub(n.first.OwnerPubKey, d.last.NewOwnerPubKey) && samePriv(n.first.OwnerPrivKey, d.last.NewOwnerPrivKey) {
				found = hash
			}
		}
		if found == "" {
			fatal("%v is lost: it has no successor", d.raw)
		}
		if s.spent([]byte(found)) || len(successors[found].first.ServerPacket)+len(successors[found].first.Params) > 0 {
			fatal("successor of %v is not usable", d.raw)
		}
		delete(successors, found)
	}
	for _, n := range successors {
		fatal("new token %v replaces none", n.raw)
	}
	w.fresh = nil
}

var classes = []error{client.ErrRetry, client.ErrFatal, client.ErrFinal, client.ErrOffline, client.ErrNeedReissue}

// classified checks the error of an operation.
func (w *world) classified(op string, err error) {
	w.s.mu.Lock()
	n := w.s.requests
	if w.resets {
		w.s.lost, w.s.abandoned, w.resets = "", false, false
	}
	abandoned := w.s.abandoned
	w.s.mu.Unlock()
	if abandoned {
		w.rt.Fatalf("%s: a token of the wallet server was lost on its way and the client asks for another one instead", op)
	}
	if n > 12 {
		w.rt.Fatalf("%s: %d requests", op, n)
	}
	if !w.c.IsOnline() && n > 0 {
		w.rt.Fatalf("%s: %d requests while offline", op, n)
	}
	if err == nil {
		return
	}
	for _, k := range classes {
		if err == k {
			if k != client.ErrNeedReissue && w.c.LastError == nil {
				w.rt.Fatalf("%s: %v without details", op, err)
			}
			return
		}
	}
	w.rt.Fatalf("%s: unclassified error %v", op, err)
}
