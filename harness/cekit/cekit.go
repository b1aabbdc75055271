// Package cekit drives mutecrypt's command engine in process against a
// reference key server.
package cekit

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/log"
	"github.com/mutecomm/mute/uid"

	"github.com/cihub/seelog"
)

var b64 = base64.StdEncoding

// Methods of a key server.
var Methods = []string{
	"KeyRepository.Capabilities", "KeyRepository.CreateUID", "KeyRepository.UpdateUID", "KeyRepository.FetchUID",
	"KeyInitRepository.AddKeyInit", "KeyInitRepository.FetchKeyInit", "KeyInitRepository.FlushKeyInit",
	"KeyHashchain.FetchHashChain", "KeyHashchain.FetchLastHashChain", "KeyHashchain.LookupUID",
}

// M is a JSON object.
type M = map[string]interface{}

// Handler answers one call; an error is reported as a JSON-RPC error.
type Handler func(method string, params M) (M, error)

// RPC is a JSON-RPC 2 server whose handler can be exchanged.
type RPC struct {
	srv   *httptest.Server
	mu    sync.Mutex
	h     Handler
	raw   func(method string, w http.ResponseWriter) bool
	Calls []string
}

// NewRPC starts a server on the loopback network.
func NewRPC(tls bool) *RPC {
	r := new(RPC)
	s := httptest.NewUnstartedServer(http.HandlerFunc(r.serve))
	s.Config.SetKeepAlivesEnabled(false)
	s.Config.ErrorLog = nil
	s.Config.ErrorLog = quiet
	if tls {
		s.StartTLS()
	} else {
		s.Start()
	}
	r.srv = s
	return r
}

// Handle sets the handler.
func (r *RPC) Handle(h Handler) { r.mu.Lock(); r.h = h; r.raw = nil; r.mu.Unlock() }

// Raw sets a function that may answer a call on the HTTP level.
func (r *RPC) Raw(f func(method string, w http.ResponseWriter) bool) {
	r.mu.Lock()
	r.raw = f
	r.mu.Unlock()
}

// URL of the server.
func (r *RPC) URL() string { return r.srv.URL }

// HostPort returns the host and port of the server.
func (r *RPC) HostPort() (string, string) {
	h, p, err := net.SplitHostPort(r.srv.Listener.Addr().String())
	vt.InfraIf(err)
	return h, p
}

// Cert returns the PEM certificate of a TLS server.
func (r *RPC) Cert() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: r.srv.Certificate().Raw})
}

// Close stops the server.
func (r *RPC) Close() { r.srv.CloseClientConnections(); r.srv.Close() }

// TakeCalls returns the methods called since the last TakeCalls.
func (r *RPC) TakeCalls() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.Calls
	r.Calls = nil
	return c
}

func (r *RPC) serve(w http.ResponseWriter, req *http.Request) {
	body, _ := io.ReadAll(req.Body)
	var call struct {
		Method string
		Params M
		ID     json.RawMessage
	}
	if err := json.Unmarshal(body, &call); err != nil {
		w.WriteHeader(400)
		return
	}
	r.mu.Lock()
	h, raw := r.h, r.raw
	r.Calls = append(r.Calls, call.Method)
	r.mu.Unlock()
	if raw != nil && raw(call.Method, w) {
		return
	}
	out := M{"jsonrpc": "2.0", "id": call.ID}
	res, err := h(call.Method, call.Params)
	if err != nil {
		out["error"] = M{"code": -32000, "message": err.Error()}
	} else {
		out["result"] = res
	}
	w.Header().Set("Content-Type", "application/json")
	json.NewEncoder(w).Encode(out)
}

// Server is a reference key server for one domain.
type Server struct {
	Domain   string
	Chain    []string                     // entries
	Replies  map[string]*uid.MessageReply // by UIDIndex
	UIDs     map[string]*uid.Message      // by UIDIndex
	Index    []string                     // UIDIndex per position
	KeyInits map[string][]string          // by SigKeyHash
	Key      *cipher.Ed25519Key           // current signature key
}

// NewServer creates a server without any entries.
func NewServer(domain string) *Server {
	k, err := cipher.Ed25519Generate(cipher.RandReader)
	vt.InfraIf(err)
	return &Server{Domain: domain, Replies: map[string]*uid.MessageReply{}, UIDs: map[string]*uid.Message{},
		KeyInits: map[string][]string{}, Key: k}
}

// UIDKey returns the signature key of a UID message.
func UIDKey(m *uid.Message) *cipher.Ed25519Key {
	k := new(cipher.Ed25519Key)
	p := m.PrivateSigKey64()
	vt.InfraIf(k.SetPrivateKey(p[:]))
	vt.InfraIf(k.SetPublicKey(p[32:]))
	return k
}

// ServerUID adds the server's own user ID as next entry and makes its key the
// signature key.
func (s *Server) ServerUID() *uid.Message {
	m, err := uid.Create("keyserver@"+s.Domain, false, "", "", uid.Strict, "", cipher.RandReader)
	vt.InfraIf(err)
	s.Key = UIDKey(m)
	s.Add(m)
	return m
}

// PubKey returns the current public signature key.
func (s *Server) PubKey() string { return b64.EncodeToString(s.Key.PublicKey()[:]) }

// Hash computes the hash of an entry's fields (after the hash) and the hash
// before it.
func Hash(fields, prev []byte) []byte {
	h := sha256.Sum256(append(append([]byte(nil), fields...), prev...))
	return h[:]
}

// Prev returns the hash of entry i-1 of a chain.
func Prev(chain []string, i int) []byte {
	if i == 0 {
		return make([]byte, 32)
	}
	e, err := b64.DecodeString(chain[i-1])
	vt.InfraIf(err)
	return e[:32]
}

// Entry makes a chain entry for an identity.
func Entry(prev []byte, id string, uidHash, uidIndex []byte) string {
	nonce := make([]byte, 8)
	_, err := io.ReadFull(cipher.RandReader, nonce)
	vt.InfraIf(err)
	k1, k2 := cipher.CKDF(nonce)
	hid := sha256.Sum256(append(append([]byte(nil), k1...), id...))
	idk := sha256.Sum256(append(append([]byte(nil), k2...), id...))
	cr := aes256.CBCEncrypt(idk[:], uidHash, cipher.RandReader)
	var f []byte
	f = append(f, 1)
	f = append(f, nonce...)
	f = append(f, hid[:]...)
	f = append(f, cr...)
	f = append(f, uidIndex...)
	return b64.EncodeToString(append(Hash(f, prev), f...))
}

// Add appends an entry for m signed with the current key.
func (s *Server) Add(m *uid.Message) int { return s.AddAs(m.Identity(), m) }

// AddAs appends an entry for an identity with a given UID message.
func (s *Server) AddAs(id string, m *uid.Message) int {
	hash, idx, enc := m.Encrypt()
	pos := len(s.Chain)
	entry := Entry(Prev(s.Chain, pos), id, hash, idx)
	s.Chain = append(s.Chain, entry)
	i := b64.EncodeToString(idx)
	s.Index = append(s.Index, i)
	s.Replies[i] = uid.CreateReply(enc, entry, uint64(pos), s.Key)
	s.UIDs[i] = m
	return pos
}

func toM(v []byte) M {
	var m M
	vt.InfraIf(json.Unmarshal(v, &m))
	return m
}

// Handle is an honest handler.
func (s *Server) Handle(method string, p M) (M, error) {
	switch method {
	case "KeyRepository.Capabilities":
		last := ""
		if n := len(s.Chain); n > 0 {
			last = s.Chain[n-1]
		}
		return M{"CAPABILITIES": M{"METHODS": Methods, "DOMAINS": []string{s.Domain}, "KEYHASHCHAINENTRY": last, "SIGPUBKEYS": []string{s.PubKey()}}}, nil
	case "KeyHashchain.FetchLastHashChain":
		if len(s.Chain) == 0 {
			return nil, fmt.Errorf("empty chain")
		}
		return M{"HCEntry": s.Chain[len(s.Chain)-1], "HCPos": len(s.Chain) - 1}, nil
	case "KeyHashchain.FetchHashChain":
		a, aok := p["StartPosition"].(float64)
		b, bok := p["EndPosition"].(float64)
		if !aok || !bok || a > b || a < 0 || int(b) >= len(s.Chain) {
			return nil, fmt.Errorf("bad range %v %v", p["StartPosition"], p["EndPosition"])
		}
		return M{"HCEntries": s.Chain[int(a) : int(b)+1], "HCFirstPos": int(a)}, nil
	case "KeyHashchain.LookupUID":
		id, _ := p["Identity"].(string)
		var pos []int
		for i, ix := range s.Index {
			if s.UIDs[ix] != nil && s.UIDs[ix].Identity() == id {
				pos = append(pos, i)
			}
		}
		return M{"HCPositions": pos}, nil
	case "KeyRepository.FetchUID":
		ix, _ := p["UIDIndex"].(string)
		r := s.Replies[ix]
		if r == nil {
			return nil, fmt.Errorf("not found")
		}
		return M{"UIDMessageReply": toM(r.JSON())}, nil
	case "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		js, err := json.Marshal(p["UIDMessage"])
		vt.InfraIf(err)
		m, err := uid.NewJSON(string(js))
		if err != nil {
			return nil, err
		}
		if err := m.VerifySelfSig(); err != nil {
			return nil, err
		}
		pos := s.Add(m)
		return M{"UIDMessageReply": toM(s.Replies[s.Index[pos]].JSON())}, nil
	case "KeyInitRepository.AddKeyInit":
		kis, _ := p["KeyInits"].([]interface{})
		pub, _ := p["SigPubKey"].(string)
		var sigs []string
		for _, k := range kis {
			js, err := json.Marshal(k)
			vt.InfraIf(err)
			ki, err := uid.NewJSONKeyInit(js)
			if err != nil {
				return nil, err
			}
			if err := ki.Verify([]string{s.Domain}, pub); err != nil {
				return nil, err
			}
			h := ki.SigKeyHash()
			s.KeyInits[h] = append(s.KeyInits[h], string(ki.JSON()))
			sigs = append(sigs, ki.Sign(s.Key))
		}
		return M{"Signatures": sigs}, nil
	case "KeyInitRepository.FetchKeyInit":
		h, _ := p["SigKeyHash"].(string)
		l := s.KeyInits[h]
		if len(l) == 0 {
			return nil, fmt.Errorf("no key init")
		}
		k := l[0]
		if len(l) > 1 {
			s.KeyInits[h] = l[1:]
		}
		return M{"KeyInit": k}, nil
	case "KeyInitRepository.FlushKeyInit":
		pub, _ := p["SigPubKey"].(string)
		nonce, _ := p["Nonce"].(float64)
		sig, _ := p["Signature"].(string)
		if err := uid.VerifyNonce(pub, uint64(nonce), sig); err != nil {
			return nil, err
		}
		raw, err := b64.DecodeString(pub)
		if err != nil {
			return nil, err
		}
		delete(s.KeyInits, b64.EncodeToString(cipher.SHA512(cipher.SHA512(raw))))
		return M{}, nil
	}
	return nil, fmt.Errorf("unknown method %s", method)
}

// User is one user's home directory.
type User struct {
	Dir  string
	Pass string
	Args []string // further global arguments
}

// NewUser creates a home directory with configuration and, if pass is not
// empty, a key database.
func NewUser(dir, pass string, config map[string]string, cacert []byte) *User {
	u := &User{Dir: dir, Pass: pass}
	u.Config(config, cacert)
	if pass != "" {
		vt.InfraIf(keydb.Create(u.DB(), []byte(pass), 1))
	}
	return u
}

// DB is the path of the key database.
func (u *User) DB() string { return filepath.Join(u.Dir, "keys") }

// Config writes the configuration file.
func (u *User) Config(m map[string]string, cacert []byte) {
	cfg := map[string]string{
		"mixclient.MixAddress": "mix@mute.one", "mixclient.AccountServer": "acc.mute.one", "mixclient.Sender": "mute@mute.one",
		"walletrpc.ServiceURL": "http://127.0.0.1:1/", "keylookup.ServiceURL": "http://127.0.0.1:1/", "guardrpc.ServiceURL": "http://127.0.0.1:1/",
		"serviceguard.TrustRoot": strings.Repeat("00", 32), "mix.MaxDelay": "3600", "muteaccd.owner": strings.Repeat("11", 32), "muteaccd.usage": "Message",
	}
	for k, v := range m {
		cfg[k] = v
	}
	js, err := json.Marshal(&configclient.Config{Map: cfg, CACert: cacert})
	vt.InfraIf(err)
	vt.InfraIf(os.MkdirAll(filepath.Join(u.Dir, "config"), 0700))
	vt.InfraIf(os.WriteFile(filepath.Join(u.Dir, "config", "mainnet@mute.one"), js, 0600))
}

// Open opens the key database.
func (u *User) Open() *keydb.KeyDB {
	db, err := keydb.Open(u.DB(), []byte(u.Pass))
	vt.InfraIf(err)
	return db
}

// Result of a command.
type Result struct {
	Out, Status []byte
	Err         error
	Panic       string
}

func dup(f *os.File) string {
	n, err := syscall.Dup(int(f.Fd()))
	vt.InfraIf(err)
	syscall.CloseOnExec(n)
	return fmt.Sprint(n)
}

// PassFD returns a new descriptor that delivers s and is owned by whoever
// opens it.
func PassFD(s string) string {
	var p [2]int
	vt.InfraIf(syscall.Pipe2(p[:], syscall.O_CLOEXEC))
	w := os.NewFile(uintptr(p[1]), "w")
	if len(s) > 60000 {
		vt.Infra(fmt.Errorf("input too long for a pipe"))
	}
	_, err := w.WriteString(s)
	vt.InfraIf(err)
	vt.InfraIf(w.Close())
	return fmt.Sprint(p[0])
}

// Run runs one command with the user's passphrase.
func (u *User) Run(args ...string) Result { return u.RunWith(u.Pass+"\n", nil, args...) }

// RunWith runs one command with given passphrase input and standard input.
func (u *User) RunWith(pass string, in []byte, args ...string) (r Result) {
	return Drive(u.Dir, pass, in, u.Args, args, func(a []string) error { return cryptengine.New().Start(a) })
}

// Drive runs an engine with one command.
func Drive(dir, pass string, in []byte, global, args []string, start func([]string) error) (r Result) {
	mem := func(name string, content []byte) *os.File {
		f, err := os.CreateTemp(dir, name)
		vt.InfraIf(err)
		vt.InfraIf(os.Remove(f.Name()))
		_, err = f.Write(content)
		vt.InfraIf(err)
		_, err = f.Seek(0, 0)
		vt.InfraIf(err)
		return f
	}
	fo, fs, fi, fc := mem("out", nil), mem("status", nil), mem("in", in), mem("cmd", nil)
	defer func() { fo.Close(); fs.Close(); fi.Close(); fc.Close() }()
	a := []string{"engine", "--homedir", dir, "--logdir", filepath.Join(dir, "log"), "--loglevel", "critical",
		"--passphrase-fd", PassFD(pass), "--output-fd", dup(fo), "--status-fd", dup(fs), "--input-fd", dup(fi), "--command-fd", dup(fc)}
	a = append(a, global...)
	a = append(a, args...)
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = devnull, devnull // usage texts
	r.Panic = vt.Try(func() { r.Err = start(a) })
	os.Stdout, os.Stderr = so, se
	log.UseLogger(seelog.Disabled)
	r.Out, r.Status = all(fo), all(fs)
	return
}

var devnull = func() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	vt.InfraIf(err)
	return f
}()

func all(f *os.File) []byte {
	_, err := f.Seek(0, 0)
	vt.InfraIf(err)
	var b bytes.Buffer
	_, err = b.ReadFrom(f)
	vt.InfraIf(err)
	return b.Bytes()
}

// Loop is an engine that reads its commands one by one.
type Loop struct {
	cmd    *os.File
	status *bufio.Scanner
	lines  chan string
	out    *os.File
	done   chan Result
	off    int64
	res    *Result
}

// Loop starts an engine in command mode.
func (u *User) Loop() *Loop {
	l := &Loop{lines: make(chan string, 100), done: make(chan Result, 1)}
	cr, cw, err := os.Pipe()
	vt.InfraIf(err)
	sr, sw, err := os.Pipe()
	vt.InfraIf(err)
	l.out, err = os.CreateTemp(u.Dir, "out")
	vt.InfraIf(err)
	vt.InfraIf(os.Remove(l.out.Name()))
	l.cmd = cw
	null, err := os.Open(os.DevNull)
	vt.InfraIf(err)
	a := []string{"engine", "--homedir", u.Dir, "--logdir", filepath.Join(u.Dir, "log"), "--loglevel", "critical",
		"--passphrase-fd", PassFD(u.Pass + "\n"), "--output-fd", dup(l.out), "--status-fd", dup(sw), "--input-fd", dup(null), "--command-fd", dup(cr)}
	a = append(a, u.Args...)
	sw2 := sw
	null.Close()
	cr.Close()
	go func() {
		s := bufio.NewScanner(sr)
		for s.Scan() {
			l.lines <- s.Text()
		}
		close(l.lines)
		sr.Close()
	}()
	go func() {
		var r Result
		r.Panic = vt.Try(func() { r.Err = cryptengine.New().Start(a) })
		sw2.Close()
		runtime.GC() // closes the engine's copy of the status descriptor
		l.done <- r
	}()
	return l
}

// Do runs a command. A result with neither answer nor end of the engine within
// 30 seconds has Panic "no answer".
func (l *Loop) Do(args ...string) (r Result) {
	if _, err := io.WriteString(l.cmd, strings.Join(args, " ")+"\n"); err != nil {
		return Result{Err: err}
	}
	for {
		select {
		case s, ok := <-l.lines:
			if !ok {
				return Result{Panic: "no answer"}
			}
			if s == "READY." || s == "QUITTING" {
				r.Out = all(l.out)[l.off:]
				l.off += int64(len(r.Out))
				return
			}
			r.Status = append(r.Status, s+"\n"...)
			r.Err = fmt.Errorf("%s", s)
		case e := <-l.done:
			l.res = &e
			if e.Panic == "" {
				e.Panic = "no answer"
			}
			return e
		case <-time.After(30 * time.Second):
			return Result{Panic: "no answer within 30 s; status: " + string(r.Status)}
		}
	}
}

// Quit ends the engine.
func (l *Loop) Quit() (r Result) {
	if l.res == nil {
		if r = l.Do("quit"); r.Panic == "" {
			select {
			case e := <-l.done:
				r.Panic, r.Err = e.Panic, e.Err
			case <-time.After(30 * time.Second):
				r.Panic = "quit did not end the engine"
			}
		}
	}
	l.cmd.Close()
	l.out.Close()
	return
}
