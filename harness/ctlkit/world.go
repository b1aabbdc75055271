package ctlkit

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/cekit"
	"verif/mixkit"
	"verif/netkit"
	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/configclient"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/release"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/util/times"
)

// Domain of all users.
const Domain = "mute.one"

const (
	host    = "127.0.0.1"
	netName = "mainnet@mute.one"
	mixAddr = "mix@mute.one"
	pass    = "secret"
)

// Entry is a message in a mailbox of the account server.
type Entry struct {
	ID   []byte
	Time int64
	Body []byte // what the mix has sent
	Fail string // error text instead of the message
}

// Person is a user with one account.
type Person struct {
	Name, ID string
	Dir      string
	Pass     string // of the databases
	CE       *cekit.User
	Secret   [64]byte
	Acc      *[ed25519.PrivateKeySize]byte
	Of       string // the person who owns this second user ID
}

// Pub is the key of the account.
func (p *Person) Pub() *[ed25519.PublicKeySize]byte {
	k := new([ed25519.PublicKeySize]byte)
	copy(k[:], p.Acc[32:])
	return k
}

// Mailbox is the mailbox address of the account.
func (p *Person) Mailbox() []byte { return util.MailboxAddress(p.Pub(), host) }

// Nym makes a nym address that leads to the person's mailbox.
func (p *Person) Nym(id string) []byte {
	t := nymaddr.AddressTemplate{Secret: p.Secret[:], MixCandidates: env.mix.KL.GetStatement().Addresses,
		Expire: times.ThirtyDaysLater(), MinDelay: 1, MaxDelay: 2}
	n, err := t.NewAddress(p.Mailbox(), cipher.SHA256([]byte(id)))
	vt.InfraIf(err)
	return n
}

// env is what all cases of a process share.
var env struct {
	once      sync.Once
	ca        *netkit.CA
	mail      *netkit.MailServer
	mailPort  int
	https     string // port
	rpc       *cekit.RPC
	mix       *mixkit.Mix
	base      string
	baseKS    *cekit.Server
	persons   []Person
	bin       string
	mu        sync.Mutex
	w         *World
	offline   bool
	serverErr string
}

// Hook plans what a server does with a call: "" (its work), "refuse" (nothing,
// and reports an error) or "lost" (its work, and reports an error).
type Hook func(method string) string

// Account is what the account server knows of an account.
type Account struct {
	Load int64 // end of the paid time
	Paid int   // payments accepted
}

// TokenKey is the key server's token key.
var TokenKey = bytes.Repeat([]byte{0x22}, 32)

// AccountKey is the account server's token key.
var AccountKey = bytes.Repeat([]byte{0x11}, 32)

// World is the environment of one case.
type World struct {
	hook     Hook
	Accounts map[string]*Account // by hex account key
	Spent    map[string]string   // what tokens were spent for
	Again    []string            // tokens offered a second time
	Dir      string
	People   map[string]*Person
	KS       *cekit.Server
	Boxes    map[string][]*Entry // by hex account key
	Listed   int
	plan     map[string][]string
	mails    int // mails already taken
	nextID   int
	Commits  []string
	Strict   bool // the key server takes each token once
}

func pkHex(k []byte) string { return hex.EncodeToString(k) }

func setup(names, knows []string) {
	env.ca = netkit.NewCA()
	ports, ls := netkit.Ports(host)
	fmt.Sscan(ports, &env.mailPort)
	env.mail = netkit.ServeMail(ls[0])
	env.mail.Set(nil, &env.ca.Cert, "")
	p, ls := netkit.Ports(host)
	env.https = p
	env.ca.Serve(ls[0], http.HandlerFunc(serve))
	env.rpc = cekit.NewRPC(false)
	env.base = vt.TempDir()
	env.mix = mixkit.NewMix(mixAddr, filepath.Join(env.base, "mix"), 40*24*3600)
	env.bin = filepath.Join(env.base, "bin")
	vt.InfraIf(os.Mkdir(env.bin, 0700))
	exe, err := os.Executable()
	vt.InfraIf(err)
	for _, t := range []string{"mutectrl", "mutecrypt", "muteproto"} {
		vt.InfraIf(os.Symlink(exe, filepath.Join(env.bin, t)))
	}
	env.baseKS = cekit.NewServer(Domain)
	env.baseKS.ServerUID()
	env.rpc.Handle(func(m string, p cekit.M) (cekit.M, error) {
		env.mu.Lock()
		defer env.mu.Unlock()
		if env.offline {
			return nil, fmt.Errorf("key server is down")
		}
		if env.w == nil {
			return env.baseKS.Handle(m, p)
		}
		return env.w.keyServer(m, p)
	})
	cfg := config()
	for _, n := range names {
		n, of, second := strings.Cut(n, "@")
		pe := Person{Name: n, ID: n + "@" + Domain, Pass: pass, Dir: filepath.Join(env.base, n), Acc: mixkit.SigKey()}
		copy(pe.Secret[:], vt.Expand(64, uint32(len(env.persons)+7), 0))
		if second {
			for _, q := range env.persons {
				if q.Name == of {
					pe.Of, pe.Dir, pe.CE = of, q.Dir, q.CE
				}
			}
		} else {
			pe.CE = cekit.NewUser(pe.Dir, pass, cfg.Map, cfg.CACert)
		}
		nym := base64.StdEncoding.EncodeToString(pe.Nym(pe.ID))
		for i, cmd := range [][]string{
			{"hashchain", "sync", "--domain", Domain},
			{"hashchain", "search", "--id", "keyserver@" + Domain},
			{"uid", "generate", "--id", pe.ID},
			{"uid", "register", "--id", pe.ID, "--token", "t"},
			{"keyinit", "add", "--id", pe.ID, "--mixaddress", mixAddr, "--nymaddress", nym, "--token", "t"},
			{"hashchain", "sync", "--domain", Domain},
			{"hashchain", "search", "--id", pe.ID},
		} {
			if second && i == 1 {
				continue // known
			}
			if r := pe.CE.Run(cmd...); r.Err != nil || r.Panic != "" {
				vt.Infra(fmt.Errorf("%v: %v %s", cmd, r.Err, r.Panic))
			}
		}
		if !second {
			vt.InfraIf(msgdb.Create(filepath.Join(pe.Dir, "msgs"), []byte(pass), 1))
		}
		db := pe.DB()
		vt.InfraIf(db.AddNym(pe.ID, pe.ID, ""))
		vt.InfraIf(db.AddAccount(pe.ID, "", pe.Acc, host, &pe.Secret, 60, 120))
		if second {
			vt.InfraIf(db.Close())
			env.persons = append(env.persons, pe)
			continue
		}
		js, err := json.Marshal(cfg)
		vt.InfraIf(err)
		vt.InfraIf(db.AddValue(netName, string(js)))
		vt.InfraIf(db.AddValue("time."+netName, fmt.Sprint(times.Now()+3600)))
		wk := mixkit.SigKey()
		vt.InfraIf(db.AddValue(msgdb.WalletKey, base64.StdEncoding.EncodeToString(wk[:])))
		vt.InfraIf(db.Close())
		env.persons = append(env.persons, pe)
	}
	for _, k := range knows {
		i := strings.Index(k, ":")
		for _, pe := range env.persons {
			if pe.Name != k[:i] {
				continue
			}
			for _, c := range strings.Split(k[i+1:], ",") {
				pe.Learn(c + "@" + Domain)
			}
		}
	}
}

// Learn fetches the keys of another person.
func (p *Person) Learn(id string) {
	for _, cmd := range [][]string{
		{"hashchain", "sync", "--domain", Domain},
		{"hashchain", "search", "--id", id},
		{"keyinit", "fetch", "--id", id},
	} {
		if r := p.CE.Run(cmd...); r.Err != nil || r.Panic != "" {
			vt.Infra(fmt.Errorf("%v: %v %s", cmd, r.Err, r.Panic))
		}
	}
}

func config() *configclient.Config {
	return &configclient.Config{CACert: env.ca.PEM, Map: map[string]string{
		"mixclient.RPCPort": env.https, "mixclient.MixAddress": mixAddr, "mixclient.AccountServer": host, "mixclient.Sender": "mute@mute.one",
		"walletrpc.ServiceURL": "http://127.0.0.1:1/", "keylookup.ServiceURL": "http://127.0.0.1:1/", "guardrpc.ServiceURL": "http://127.0.0.1:1/",
		"serviceguard.TrustRoot": strings.Repeat("00", 32), "mix.MaxDelay": "3600", "muteaccd.owner": strings.Repeat("11", 32), "muteaccd.usage": "Account",
		"keyserver." + Domain: env.rpc.URL(), "release.Commit": release.Commit, "release.Date": release.Date,
	}}
}

// New makes a world with the given people, of whom some know others' keys
// ("name:name,name"). A name "x@y" is a second user ID of y. The arguments must be the same in all cases of a
// process.
func New(names, knows []string) *World {
	env.once.Do(func() { setup(names, knows) })
	w := &World{Dir: vt.TempDir(), People: map[string]*Person{}, Boxes: map[string][]*Entry{}, Accounts: map[string]*Account{}, Spent: map[string]string{}}
	vt.InfraIf(os.Mkdir(filepath.Join(w.Dir, "calls"), 0700))
	b := env.baseKS
	ks := *b
	ks.Chain, ks.Index = append([]string(nil), b.Chain...), append([]string(nil), b.Index...)
	ks.KeyInits, ks.UIDs, ks.Replies = map[string][]string{}, maps.Clone(b.UIDs), maps.Clone(b.Replies)
	for k, v := range b.KeyInits {
		ks.KeyInits[k] = append([]string(nil), v...)
	}
	w.KS = &ks
	for i := range env.persons {
		p := env.persons[i]
		dir := filepath.Join(w.Dir, p.Name)
		if p.Of != "" {
			dir = filepath.Join(w.Dir, p.Of)
		} else {
			vt.InfraIf(os.CopyFS(dir, os.DirFS(p.Dir)))
		}
		ce := *p.CE
		ce.Dir = dir
		p.Dir, p.CE = dir, &ce
		w.People[p.Name] = &p
		w.Accounts[pkHex(p.Acc[32:])] = &Account{Load: times.Now() + 200*24*3600}
	}
	env.mail.Set(nil, &env.ca.Cert, "")
	env.mu.Lock()
	env.w, env.offline = w, false
	env.mu.Unlock()
	return w
}

// Hook sets what the servers do with the next calls.
func (w *World) Hook(h Hook) {
	env.mu.Lock()
	w.hook = h
	env.mu.Unlock()
}

func (w *World) do(method string, f func() error) error {
	mode := ""
	if w.hook != nil {
		mode = w.hook(method)
	}
	if mode == "refuse" {
		return fmt.Errorf("planned refusal")
	}
	err := f()
	if mode == "lost" {
		return fmt.Errorf("planned loss")
	}
	return err
}

// spend uses a token up.
func (w *World) spend(enc, what string) error {
	t, err := base64.StdEncoding.DecodeString(enc)
	if err != nil || len(t) == 0 {
		return fmt.Errorf("bad token")
	}
	if w.Spent[string(t)] != "" {
		w.Again = append(w.Again, string(t))
		return fmt.Errorf("token already spent")
	}
	w.Spent[string(t)] = what
	return nil
}

// keyServer answers a call like the reference key server, and takes tokens.
func (w *World) keyServer(m string, p cekit.M) (r cekit.M, err error) {
	err = w.do(m, func() error {
		switch m {
		case "KeyRepository.CreateUID":
			um, _ := p["UIDMessage"].(map[string]interface{})
			c, _ := um["UIDCONTENT"].(map[string]interface{})
			id, _ := c["IDENTITY"].(string)
			for _, u := range w.KS.UIDs {
				if u.Identity() == id {
					return fmt.Errorf("user ID taken")
				}
			}
			t, _ := p["Token"].(string)
			if w.Strict {
				if err := w.spend(t, "UID"); err != nil {
					return err
				}
			}
		case "KeyInitRepository.AddKeyInit":
			ts, _ := p["Tokens"].([]interface{})
			if w.Strict {
				for _, t := range ts {
					s, _ := t.(string)
					if err := w.spend(s, "KeyInit"); err != nil {
						return err
					}
				}
			}
		}
		var err error
		r, err = w.KS.Handle(m, p)
		if m == "KeyRepository.Capabilities" && err == nil {
			r["CAPABILITIES"].(cekit.M)["TKNPUBKEY"] = base64.StdEncoding.EncodeToString(TokenKey)
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

// Close removes the world.
func (w *World) Close() {
	env.mu.Lock()
	env.w = nil
	env.mu.Unlock()
	os.RemoveAll(w.Dir)
}

// KeyServer switches the key server on or off.
func (w *World) KeyServer(on bool) {
	env.mu.Lock()
	env.offline = !on
	env.mu.Unlock()
}

// Mail sets the behaviour of the mail server for the next connections.
func (w *World) Mail(seq []map[string]netkit.Action) {
	env.mail.Done.Wait()
	env.mail.SetSeq(seq)
}

// DB opens the message database.
func (p *Person) DB() *msgdb.MsgDB {
	db, err := msgdb.Open(filepath.Join(p.Dir, "msgs"), []byte(p.Pass))
	vt.InfraIf(err)
	return db
}

// AddTokens puts n tokens for the mix into the wallet.
func (p *Person) AddTokens(n int, prefix string) (tokens [][]byte) {
	db := p.DB()
	defer db.Close()
	ws, err := walletstore.New(db.DB())
	vt.InfraIf(err)
	addr, err := nymaddr.ParseAddress(p.Nym(p.ID))
	vt.InfraIf(err)
	return addTokens(ws, n, prefix, "Message", addr.TokenPubKey)
}

func addTokens(ws *walletstore.Storage, n int, prefix, usage string, key []byte) (tokens [][]byte) {
	owner := new([32]byte)
	copy(owner[:], key)
	for i := 0; i < n; i++ {
		t := []byte(fmt.Sprintf("%s-%d", prefix, i))
		vt.InfraIf(ws.SetToken(client.TokenEntry{Hash: cipher.SHA256(t), Token: t, OwnerPubKey: owner, Usage: usage, Expire: times.Now() + 1000000}))
		tokens = append(tokens, t)
	}
	return
}

// AddTokensFor puts n tokens of a usage and owner into the wallet.
func (p *Person) AddTokensFor(n int, prefix, usage string, owner []byte) [][]byte {
	db := p.DB()
	defer db.Close()
	ws, err := walletstore.New(db.DB())
	vt.InfraIf(err)
	return addTokens(ws, n, prefix, usage, owner)
}

// DropToken removes a token from the wallet.
func (p *Person) DropToken(t string) {
	db := p.DB()
	defer db.Close()
	ws, err := walletstore.New(db.DB())
	vt.InfraIf(err)
	ws.DelToken(cipher.SHA256([]byte(t)))
}

// BalanceFor returns the number of usable tokens of a usage and owner.
func (p *Person) BalanceFor(usage string, owner []byte) int64 {
	db := p.DB()
	defer db.Close()
	ws, err := walletstore.New(db.DB())
	vt.InfraIf(err)
	k := new([32]byte)
	copy(k[:], owner)
	return ws.GetBalance(usage, k)
}

// Balance returns the number of usable tokens for the mix.
func (p *Person) Balance() int64 {
	db := p.DB()
	defer db.Close()
	ws, err := walletstore.New(db.DB())
	vt.InfraIf(err)
	return ws.GetBalance("Message", nil)
}

// Plan sets the faults of the next commands.
func (w *World) Plan(plan map[string][]string) { w.plan = plan }

// Result of a command.
type Result struct {
	Out, Err string
	Code     int
	Killed   bool // by a planned fault
	Hung     bool
	Crash    string
}

// process is a running mutectrl.
type process struct {
	cmd         *exec.Cmd
	ctx         context.Context
	cancel      func()
	of, ef, inf *os.File
	calls       string
}

func (w *World) start(p *Person, loop bool, in []byte, pass string, args []string) *process {
	calls, err := os.MkdirTemp(filepath.Join(w.Dir, "calls"), "c")
	vt.InfraIf(err)
	js, err := json.Marshal(roleConfig{MixRPC: host + ":" + env.https, SmartHost: host, SMTPPort: env.mailPort, Calls: calls, Plan: w.plan})
	vt.InfraIf(err)
	w.plan = nil
	role := filepath.Join(calls, "role.json")
	vt.InfraIf(os.WriteFile(role, js, 0600))
	a := append([]string{"--homedir", p.Dir, "--logdir", filepath.Join(p.Dir, "log"), "--loglevel", "critical", "--offline"}, args...)
	q := &process{calls: calls}
	q.ctx, q.cancel = context.WithTimeout(context.Background(), 60*time.Second)
	cmd := exec.CommandContext(q.ctx, filepath.Join(env.bin, "mutectrl"), a...)
	cmd.Env = []string{"PATH=" + env.bin, roleEnv + "=" + role, "HOME=" + p.Dir, "TMPDIR=" + calls, "GOTRACEBACK=all"}
	cmd.Dir = calls
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	// files instead of pipes: processes left behind must not keep Wait from returning
	q.of, err = os.Create(filepath.Join(calls, "out"))
	vt.InfraIf(err)
	q.ef, err = os.Create(filepath.Join(calls, "err"))
	vt.InfraIf(err)
	cmd.Stdout, cmd.Stderr = q.of, q.ef
	if loop {
		r, wr, err := os.Pipe()
		vt.InfraIf(err)
		cmd.Stdin, q.inf = r, wr
		defer r.Close()
	} else {
		q.inf, err = os.Create(filepath.Join(calls, "in"))
		vt.InfraIf(err)
		q.inf.Write(in)
		q.inf.Seek(0, 0)
		cmd.Stdin = q.inf
	}
	pr, pw, err := os.Pipe()
	vt.InfraIf(err)
	pw.WriteString(pass)
	pw.Close()
	null, err := os.Open(os.DevNull)
	vt.InfraIf(err)
	cmd.ExtraFiles = []*os.File{pr, null}
	vt.InfraIf(cmd.Start())
	pr.Close()
	null.Close()
	q.cmd = cmd
	return q
}

// wait waits for the end.
func (q *process) wait() (r Result) {
	pgid := q.cmd.Process.Pid
	q.cmd.Wait()
	r.Hung = q.ctx.Err() != nil
	q.cancel()
	syscall.Kill(-pgid, syscall.SIGKILL) // tools left behind
	r.Code = q.cmd.ProcessState.ExitCode()
	if ws, ok := q.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && !r.Hung {
		r.Killed = true
	}
	r.Out, r.Err = q.read("out", 0), q.read("err", 0)
	if strings.Contains(r.Err, "HARNESS-ERROR") {
		vt.Infra(fmt.Errorf("%s", r.Err))
	}
	if strings.Contains(r.Err, "goroutine ") && strings.Contains(r.Err, "panic") {
		r.Crash = r.Err
	}
	q.of.Close()
	q.ef.Close()
	q.inf.Close()
	return r
}

func (q *process) read(name string, from int) string {
	b, err := os.ReadFile(filepath.Join(q.calls, name))
	vt.InfraIf(err)
	return string(b[from:])
}

// Run runs mutectrl for a person.
func (w *World) Run(p *Person, in []byte, args ...string) (r Result) {
	return w.RunPass(p, in, p.Pass+"\n", args...)
}

// RunPass is Run with given passphrase input.
func (w *World) RunPass(p *Person, in []byte, pass string, args ...string) (r Result) {
	r = w.start(p, false, in, pass, args).wait()
	if os.Getenv("VERIF_CTL_TRACE") != "" {
		fmt.Printf("# %s %v -> %+v\n", p.Name, args, r)
	}
	return r
}

// Session is an interactive mutectrl.
type Session struct {
	q        *process
	out, err int
	done     chan struct{}
	end      Result
}

const ready = "READY.\n"

// Interactive starts mutectrl without command.
func (w *World) Interactive(p *Person) (*Session, Result) {
	s := &Session{q: w.start(p, true, nil, p.Pass+"\n", nil), done: make(chan struct{})}
	go func() {
		r := s.q.wait()
		s.end = r
		close(s.done)
	}()
	return s, s.next()
}

// next waits for the next prompt, and returns what has been written before it.
func (s *Session) next() (r Result) {
	over := false
	for {
		select {
		case <-s.done:
			over = true
		default:
		}
		r.Err = s.q.read("err", s.err)
		if i := strings.Index(r.Err, ready); i >= 0 || over {
			if i >= 0 {
				r.Err = r.Err[:i+len(ready)]
			} else {
				r.Killed, r.Hung, r.Crash, r.Code = s.end.Killed, s.end.Hung, s.end.Crash, s.end.Code
			}
			s.err += len(r.Err)
			r.Out = s.q.read("out", s.out)
			s.out += len(r.Out)
			return r
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// Command runs one command; the status ends with READY. unless mutectrl has
// stopped.
func (s *Session) Command(line string) Result {
	if _, err := s.q.inf.WriteString(line + "\n"); err != nil {
		<-s.done
	}
	r := s.next()
	if os.Getenv("VERIF_CTL_TRACE") != "" {
		fmt.Printf("# loop %s -> %+v\n", line, r)
	}
	return r
}

// End closes the input.
func (s *Session) End() Result {
	s.q.inf.Close()
	<-s.done
	return s.end
}

// Delivered is a mail the mail server has accepted.
type Delivered struct {
	Data  []byte // the mail
	Token string
	Min   int32
	Max   int32
	Box   string // mailbox it is for
	Body  []byte // what is put into the mailbox
}

// TakeMails returns the mails accepted since the last call.
func (w *World) TakeMails() (l []Delivered, bad string) {
	mails, clear, _ := env.mail.Seen()
	if len(clear) > 0 {
		return nil, fmt.Sprintf("sent without TLS: %q", clear)
	}
	for ; w.mails < len(mails); w.mails++ {
		m := mails[w.mails]
		env0, err := mixclient.ReadMail(m.Data)
		if err != nil {
			return l, fmt.Sprintf("mail not readable: %v", err)
		}
		rs, err := mixkit.Receive(env.mix.KL.GetPrivateKey, env0)
		if err != nil {
			return l, fmt.Sprintf("mail not for the mix: %v", err)
		}
		body, to, err := rs.Send()
		if err != nil {
			return l, fmt.Sprintf("mail without next destination: %v", err)
		}
		if m.To != mixAddr {
			return l, fmt.Sprintf("mail to %s", m.To)
		}
		l = append(l, Delivered{m.Data, string(rs.MixHeader.Token), rs.MixHeader.SenderMinDelay, rs.MixHeader.SenderMaxDelay, to, body})
	}
	return l, ""
}

// Put puts a message into a person's mailbox.
func (w *World) Put(p *Person, t int64, body []byte) *Entry {
	env.mu.Lock()
	defer env.mu.Unlock()
	w.nextID++
	e := &Entry{ID: cipher.SHA256([]byte(fmt.Sprintf("%d", w.nextID))), Time: t, Body: body}
	k := pkHex(p.Acc[32:])
	w.Boxes[k] = append(w.Boxes[k], e)
	return e
}

// Entries returns what is in a person's mailbox.
func (w *World) Entries(p *Person) []*Entry {
	env.mu.Lock()
	defer env.mu.Unlock()
	return append([]*Entry(nil), w.Boxes[pkHex(p.Acc[32:])]...)
}

// SetFail makes the server fail for one message.
func (w *World) SetFail(e *Entry, text string) {
	env.mu.Lock()
	e.Fail = text
	env.mu.Unlock()
}

// ListError makes the listing of messages fail.
func (w *World) ListError(text string) {
	env.mu.Lock()
	env.serverErr = text
	env.mu.Unlock()
}

// Envelope makes the mix's message for a person out of an encrypted message.
func (w *World) Envelope(nym, enc []byte) []byte {
	body, _ := w.EnvelopeTo(nym, enc)
	return body
}

// PutBox puts a message into the mailbox with the given address.
func (w *World) PutBox(address string, t int64, body []byte) {
	env.mu.Lock()
	defer env.mu.Unlock()
	w.nextID++
	k := strings.SplitN(address, "@", 2)[0]
	w.Boxes[k] = append(w.Boxes[k], &Entry{ID: cipher.SHA256([]byte(fmt.Sprintf("%d", w.nextID))), Time: t, Body: body})
}

// EnvelopeTo makes the mix's message out of an encrypted message and returns
// the mailbox it goes to.
func (w *World) EnvelopeTo(nym, enc []byte) (body []byte, box string) {
	body, box, err := w.TryEnvelope(nym, enc)
	vt.InfraIf(err)
	return body, box
}

// TryEnvelope is EnvelopeTo for a nym address that may be invalid.
func (w *World) TryEnvelope(nym, enc []byte) (body []byte, box string, err error) {
	mo := mixclient.MessageInput{SenderMinDelay: 1, SenderMaxDelay: 2, Token: []byte("token"), NymAddress: nym, Message: enc, CACert: env.ca.PEM}.Create()
	if mo.Error != nil {
		return nil, "", mo.Error
	}
	e, err := mixclient.ReadMail(mo.Message)
	if err != nil {
		return nil, "", err
	}
	rs, err := mixkit.Receive(env.mix.KL.GetPrivateKey, e)
	if err != nil {
		return nil, "", err
	}
	return rs.Send()
}

// Open opens the mix's message for a person and returns the encrypted message.
func (p *Person) Open(body []byte) ([]byte, error) {
	dec, nym, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: p.Secret[:]}, p.Mailbox(), body)
	if err == nil && !bytes.Equal(nym, cipher.SHA256([]byte(p.ID))) {
		return nil, fmt.Errorf("for another nym")
	}
	return dec, err
}

// serve is the account server and the mix's key server.
func serve(wr http.ResponseWriter, r *http.Request) {
	env.mu.Lock()
	defer env.mu.Unlock()
	w := env.w
	switch r.URL.Path {
	case "/keys":
		if w != nil && w.do("keys", func() error { return nil }) != nil {
			wr.WriteHeader(500)
			return
		}
		json.NewEncoder(wr).Encode(env.mix.KL.GetStatement())
	case "/account":
		var call struct {
			Method string
			ID     interface{}
			Params struct {
				AuthToken       string
				PayToken        string
				LastReceiveTime int64
			}
		}
		out := map[string]interface{}{"jsonrpc": "2.0"}
		fail := func(s string) { out["error"] = map[string]interface{}{"code": -32000, "message": s} }
		b, _ := io.ReadAll(r.Body)
		if err := json.Unmarshal(b, &call); err != nil || w == nil {
			fail("bad call")
		} else if pk, err := authKey(call.Params.AuthToken); err != nil {
			fail(err.Error())
		} else if call.Method != "AccountServer.ListMessages" {
			var res map[string]interface{}
			if err := w.do(call.Method, func() (err error) {
				res, err = w.account(call.Method, pkHex(pk), call.Params.PayToken)
				return
			}); err != nil {
				fail(err.Error())
			} else {
				out["result"] = res
			}
		} else if env.serverErr != "" {
			fail(env.serverErr)
		} else {
			var l []*Entry
			box := w.Boxes[pkHex(pk)]
			for i := len(box) - 1; i >= 0; i-- {
				if box[i].Time >= call.Params.LastReceiveTime {
					l = append(l, box[i])
				}
			}
			sort.SliceStable(l, func(i, j int) bool { return l[i].Time > l[j].Time })
			var ms []map[string]interface{}
			for _, e := range l {
				ms = append(ms, map[string]interface{}{"MessageID": hex.EncodeToString(e.ID), "ReceiveTime": e.Time,
					"ReceiveTimeNano": e.Time * 1000000000, "ReadTime": 0, "UserKey": pkHex(pk)})
			}
			if len(ms) == 0 {
				fail("accountdb: Nothing found")
			} else {
				out["result"] = map[string]interface{}{"Messages": ms}
			}
		}
		out["id"] = call.ID
		wr.Header().Set("Content-Type", "application/json")
		json.NewEncoder(wr).Encode(out)
	case "/message":
		b, _ := io.ReadAll(r.Body)
		v, err := url.ParseQuery(string(b))
		var pk []byte
		if err == nil {
			pk, err = authKey(v.Get("authtoken"))
		}
		if err != nil || w == nil {
			fmt.Fprintf(wr, "ERROR: %v", err)
			return
		}
		for _, e := range w.Boxes[pkHex(pk)] {
			if hex.EncodeToString(e.ID) == v.Get("messageid") {
				if e.Fail != "" {
					fmt.Fprintf(wr, "ERROR: %s", e.Fail)
					return
				}
				wr.Write(mixclient.WriteMail("mix@mute.one", "box@mute.one", e.Body))
				return
			}
		}
		fmt.Fprint(wr, "ERROR: accountdb: Nothing found")
	}
}

// account answers the calls about accounts.
func (w *World) account(method, key, pay string) (map[string]interface{}, error) {
	a := w.Accounts[key]
	switch method {
	case "AccountServer.LoadAccount":
		if err := w.spend(pay, "Account"); err != nil {
			return nil, err
		}
		if a == nil {
			a = &Account{Load: times.Now()}
			w.Accounts[key] = a
		}
		a.Load += 365 * 24 * 3600
		a.Paid++
		return map[string]interface{}{"Server": host}, nil
	case "AccountServer.AccountStat":
		if a == nil {
			return nil, fmt.Errorf("accountdb: Nothing found")
		}
		return map[string]interface{}{"LoadTime": a.Load}, nil
	case "AccountServer.DeleteAccount":
		if a == nil {
			return nil, fmt.Errorf("accountdb: Nothing found")
		}
		delete(w.Accounts, key)
		return map[string]interface{}{"Result": true}, nil
	}
	return nil, fmt.Errorf("unknown method")
}

// authKey returns the key of an authentication token (layout: key, counter,
// signature and more; the token itself is the subject of another check).
func authKey(s string) ([]byte, error) {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil || len(b) != 144 || !ed25519.Verify(b[:32], b[:80], b[80:]) {
		return nil, fmt.Errorf("bad token")
	}
	return b[:32], nil
}
