// Package x05 decides property X05: mailbox account operations act on the
// right server, account and message.
package x05

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/mixkit"
	"verif/netkit"
	"verif/vt"

	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

type message struct {
	id               []byte
	recv, nano, read int64
	body             []byte
}

type account struct {
	load    int64
	counter uint64
	tokens  []string // pay tokens received
	msgs    []message
}

// fault is how a server treats one request.
type fault struct {
	kind string // replay, error, raw, mutate, drop, lost, status, short
	n    uint64
	text string
	mut  func([]byte) []byte
}

// world is a group of account servers.
type world struct {
	mu       sync.Mutex
	accounts map[string]map[[32]byte]*account // by host
	assign   string                           // host the default server puts new accounts on
	faults   []fault
	served   []string // host, method of each request
	problems []string
	tokens   map[string]bool
	last     []byte // last reply sent
}

const notFound = "accountdb: Nothing found"

func (w *world) problem(f string, a ...interface{}) {
	w.problems = append(w.problems, fmt.Sprintf(f, a...))
}

// auth checks a token as a server does; replay is not empty for a token that
// is not new.
func (w *world) auth(host, enc string) (a *account, pub [32]byte, replay string) {
	tok, err := base64.StdEncoding.DecodeString(enc)
	if err != nil || len(tok) != 144 {
		w.problem("token %q is malformed", enc)
		return nil, pub, "bad token"
	}
	copy(pub[:], tok)
	if !ed25519.Verify(tok[:32], tok[:80], tok[80:]) {
		w.problem("token is not signed by its key")
		return nil, pub, "bad token"
	}
	if w.tokens[enc] {
		w.problem("token was used twice")
	}
	w.tokens[enc] = true
	hour := binary.BigEndian.Uint64(tok[64:])
	if now := uint64(time.Now().Unix()) / 3600; hour != now && hour+1 != now {
		w.problem("token of hour %d, it is %d", hour, now)
	}
	cnt := binary.BigEndian.Uint64(tok[72:])
	a = w.accounts[host][pub]
	if a != nil {
		if cnt <= a.counter {
			return a, pub, fmt.Sprintf("ErrReplay: %d", a.counter)
		}
		a.counter = cnt
	}
	return a, pub, ""
}

// bump makes an account's counter at least n and returns it.
func (w *world) bump(a *account, n uint64) uint64 {
	if a == nil {
		return n
	}
	if n > a.counter {
		a.counter = n
	}
	return a.counter
}

func (w *world) handle(host string, rw http.ResponseWriter, r *http.Request) {
	w.mu.Lock()
	defer w.mu.Unlock()
	body, _ := io.ReadAll(r.Body)
	var f fault
	if len(w.faults) > 0 {
		f, w.faults = w.faults[0], w.faults[1:]
	}
	send := func(b []byte) {
		if f.mut != nil {
			b = f.mut(b)
		}
		w.last = b
		switch f.kind {
		case "lost":
			panic(http.ErrAbortHandler)
		case "short":
			rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
			b = b[:len(b)-len(b)/4-1]
		case "status":
			rw.WriteHeader(500)
		}
		rw.Write(b)
	}
	if f.kind == "drop" {
		w.served = append(w.served, host+" dropped")
		panic(http.ErrAbortHandler)
	}
	if f.kind == "raw" {
		w.served = append(w.served, host+" raw")
		w.last = []byte(f.text)
		rw.Write(w.last)
		return
	}
	if r.URL.Path == "/message" {
		w.served = append(w.served, host+" fetch")
		form, err := parseForm(string(body))
		if err != nil {
			w.problem("request %q: %v", body, err)
			return
		}
		a, _, bad := w.auth(host, form["authtoken"])
		switch {
		case f.kind == "replay":
			f.n = w.bump(a, f.n)
			send([]byte(fmt.Sprintf("ERROR: ErrReplay: %d", f.n)))
			return
		case f.kind == "error":
			send([]byte("ERROR: " + f.text))
			return
		case bad != "":
			send([]byte("ERROR: " + bad))
			return
		}
		id, err := hex.DecodeString(form["messageid"])
		if err != nil {
			w.problem("message ID %q", form["messageid"])
		}
		if a != nil {
			for i, m := range a.msgs {
				if bytes.Equal(m.id, id) {
					a.msgs[i].read = 1
					send(client.WriteMail("mix@mute.one", "box@x.mute.one", m.body))
					return
				}
			}
		}
		send([]byte("ERROR: " + notFound))
		return
	}
	if r.URL.Path != "/account" {
		w.problem("request for %s", r.URL.Path)
		return
	}
	var req struct {
		Version string `json:"jsonrpc"`
		Method  string
		Params  struct {
			AuthToken, PayToken string
			LastReceiveTime     int64
		}
		ID json.RawMessage
	}
	if err := json.Unmarshal(body, &req); err != nil {
		w.problem("request %q: %v", body, err)
		return
	}
	w.served = append(w.served, host+" "+req.Method)
	a, pub, bad := w.auth(host, req.Params.AuthToken)
	answer := func(res interface{}, errText *string) {
		o := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
		if errText != nil {
			o["error"] = map[string]interface{}{"code": -32000, "message": *errText, "data": nil}
		} else {
			o["result"] = res
		}
		b, err := json.Marshal(o)
		vt.InfraIf(err)
		send(b)
	}
	fail := func(s string) { answer(nil, &s) }
	switch {
	case f.kind == "replay":
		f.n = w.bump(a, f.n)
		fail(fmt.Sprintf("ErrReplay: %d", f.n))
		return
	case f.kind == "error":
		fail(f.text)
		return
	case bad != "":
		fail(bad)
		return
	}
	switch req.Method {
	case "AccountServer.LoadAccount":
		pt, err := base64.StdEncoding.DecodeString(req.Params.PayToken)
		if err != nil {
			w.problem("pay token %q", req.Params.PayToken)
		}
		on := host
		if host == hosts[0] {
			on = w.assign
			a = w.accounts[on][pub]
		}
		if a == nil {
			a = new(account)
			w.accounts[on][pub] = a
		}
		a.load += 100
		a.tokens = append(a.tokens, string(pt))
		answer(map[string]interface{}{"Server": on}, nil)
	case "AccountServer.DeleteAccount":
		delete(w.accounts[host], pub)
		answer(map[string]interface{}{"Result": a != nil}, nil)
	case "AccountServer.AccountStat":
		if a == nil {
			fail(notFound)
			return
		}
		answer(map[string]interface{}{"LoadTime": a.load}, nil)
	case "AccountServer.ListMessages":
		list := []map[string]interface{}{}
		if a != nil {
			for _, m := range a.msgs {
				if m.recv >= req.Params.LastReceiveTime {
					list = append(list, map[string]interface{}{"MessageID": hex.EncodeToString(m.id), "ReceiveTime": m.recv, "ReceiveTimeNano": m.nano, "ReadTime": m.read, "UserKey": hex.EncodeToString(pub[:])})
				}
			}
		}
		if len(list) == 0 {
			fail(notFound)
			return
		}
		answer(map[string]interface{}{"Messages": list}, nil)
	default:
		w.problem("method %q", req.Method)
	}
}

func parseForm(b string) (map[string]string, error) {
	r := &http.Request{Method: "POST", Header: http.Header{"Content-Type": {"application/x-www-form-urlencoded"}}, Body: io.NopCloser(strings.NewReader(b))}
	if err := r.ParseForm(); err != nil {
		return nil, err
	}
	o := map[string]string{}
	for k, v := range r.PostForm {
		if len(v) != 1 {
			return nil, fmt.Errorf("%d values of %s", len(v), k)
		}
		o[k] = v[0]
	}
	return o, nil
}

var (
	hosts       = []string{"127.0.0.1", "127.0.0.2", "127.0.0.3"}
	ca, otherCA = netkit.NewCA(), netkit.NewCA()
	current     *world
	start       sync.Once
)

func serve() {
	start.Do(func() {
		port, ls := netkit.Ports(hosts...)
		client.RPCPort = port
		client.DefaultAccountServer = hosts[0]
		client.DefaultTimeOut = 20
		for i, l := range ls {
			h := hosts[i]
			ca.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { current.handle(h, rw, r) }))
		}
	})
}

// refResult decodes the result of a JSON-RPC reply strictly.
func refResult(raw []byte) (map[string]interface{}, bool) {
	var o struct {
		Result map[string]interface{}
		Error  interface{}
	}
	if json.NewDecoder(bytes.NewReader(raw)).Decode(&o) != nil || o.Error != nil || o.Result == nil {
		return nil, false
	}
	return o.Result, true
}

func refList(raw []byte) ([]client.MessageMeta, bool) {
	o, ok := refResult(raw)
	if !ok {
		return nil, false
	}
	l, ok := o["Messages"].([]interface{})
	if !ok {
		return nil, false
	}
	var out []client.MessageMeta
	for _, e := range l {
		m, ok := e.(map[string]interface{})
		if !ok {
			return nil, false
		}
		var mm client.MessageMeta
		for k, p := range map[string]*int64{"ReceiveTime": &mm.ReceiveTime, "ReceiveTimeNano": &mm.ReceiveTimeNano, "ReadTime": &mm.ReadTime} {
			f, ok := m[k].(float64)
			if !ok {
				return nil, false
			}
			*p = int64(f)
		}
		id, ok1 := m["MessageID"].(string)
		uk, ok2 := m["UserKey"].(string)
		if !ok1 || !ok2 {
			return nil, false
		}
		b, err := hex.DecodeString(id)
		k, err2 := hex.DecodeString(uk)
		if err != nil || err2 != nil || len(k) != 32 {
			return nil, false
		}
		mm.MessageID = b
		copy(mm.UserKey[:], k)
		out = append(out, mm)
	}
	return out, true
}

func showList(l []client.MessageMeta) string {
	var s []string
	for _, m := range l {
		s = append(s, fmt.Sprintf("%x %d %d %d %x", m.MessageID, m.ReceiveTime, m.ReceiveTimeNano, m.ReadTime, m.UserKey))
	}
	return strings.Join(s, "; ")
}

var texts = []string{"", "x", "EOF", notFound, "ErrReplay", "ErrReplay:", "ErrReplay: ", "ErrReplay: abc", "ErrReplay: 12a", "ErrReplay: 99999999999999999999999", "errreplay: 7", " ErrReplay: 7", "accountdb: expired"}
var raws = []string{"", " ", "{}", "[]", "null", "0", `"x"`, `{"result":null}`, `{"result":[]}`, `{"result":{}}`, `{"result":{"Server":1,"Result":"x","LoadTime":"1","Messages":{}}}`, `{"result":{"Messages":[1]}}`, `{"result":{"Messages":[null,{}]}}`, `{"result":{"Messages":null,"Result":null,"Server":null,"LoadTime":null}}`, `{"error":"x"}`, `{"error":{}}`, `{"error":[1]}`, `{"error":null}`, `{"result":{"Server"`, "<html>", "ERROR", "ERROR:", "ERROR: ", "ERROR:x", "ERROR: ErrReplay", "From: x\r\n", "\r\n\r\n", "\r\n\r\n!", "From: a\r\n\r\nAAA", "\x00\xff"}

func drawFaults(rt *rapid.T) (fs []fault) {
	switch rapid.IntRange(0, 7).Draw(rt, "faults") {
	case 0, 1:
		return nil
	case 2, 3:
		for i, n := 0, rapid.IntRange(1, 5).Draw(rt, "replays"); i < n; i++ {
			v := rapid.SampledFrom([]uint64{0, 1, 5, uint64(time.Now().UnixNano()) + 1e15, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1000}).Draw(rt, "counter")
			fs = append(fs, fault{kind: "replay", n: v + uint64(i)})
		}
		if rapid.IntRange(0, 2).Draw(rt, "then") > 0 {
			return fs
		}
	}
	switch rapid.IntRange(0, 6).Draw(rt, "fault") {
	case 0:
		t := rapid.SampledFrom(texts).Draw(rt, "text")
		if rapid.IntRange(0, 3).Draw(rt, "anytext") == 0 {
			t = rapid.StringN(0, 30, 100).Draw(rt, "text2")
			if strings.HasPrefix(t, "ErrReplay: ") {
				t = "x"
			}
		}
		fs = append(fs, fault{kind: "error", text: t})
	case 1:
		fs = append(fs, fault{kind: "raw", text: rapid.SampledFrom(raws).Draw(rt, "raw")})
	case 2:
		fs = append(fs, fault{kind: rapid.SampledFrom([]string{"drop", "lost", "short"}).Draw(rt, "net")})
	case 3:
		fs = append(fs, fault{kind: "status"})
	default:
		// the handler runs elsewhere: it must not draw from rt
		seed := int(rapid.Int32Range(0, 1<<30).Draw(rt, "mutseed"))
		fs = append(fs, fault{kind: "mutate", mut: func(b []byte) []byte {
			return rapid.Custom(func(rt *rapid.T) []byte {
				if bytes.HasPrefix(b, []byte("{")) {
					o, _ := vt.MutateJSON(rt, b, "mut", "/result")
					return o
				}
				o := append([]byte{}, b...)
				if i := bytes.Index(b, []byte("\r\n\r\n")); i >= 0 && len(b) > i+4 {
					o[i+4+vt.Uniform(rt, len(b)-i-4, "at")] = '!'
				}
				return o
			}).Example(seed)
		}})
	}
	return fs
}

// TestHistory runs operations on accounts of several keys.
func TestHistory(t *testing.T) {
	serve()
	vt.CheckSteps(t, "an operation on an account succeeded with exactly the server's data or failed as the server did", 900, 20000, 15, func(rt *rapid.T, c *vt.Case) {
		w := &world{accounts: map[string]map[[32]byte]*account{}, tokens: map[string]bool{}}
		for _, h := range hosts {
			w.accounts[h] = map[[32]byte]*account{}
		}
		current = w
		type user struct {
			priv   *[ed25519.PrivateKeySize]byte
			pub    [32]byte
			server string // where the account lives
		}
		var us []*user
		for i := 0; i < 2; i++ {
			u := &user{priv: mixkit.SigKey()}
			copy(u.pub[:], u.priv[32:])
			us = append(us, u)
		}
		mid := 0
		for step, n := 0, rapid.IntRange(1, 15).Draw(rt, "steps"); step < n; step++ {
			u := us[rapid.IntRange(0, 1).Draw(rt, "user")]
			w.assign = rapid.SampledFrom(hosts[1:]).Draw(rt, "assign")
			// messages arrive
			for i, k := 0, rapid.IntRange(0, 3).Draw(rt, "arrive"); i < k && u.server != ""; i++ {
				if a := w.accounts[u.server][u.pub]; a != nil {
					mid++
					id := sha256.Sum256([]byte{byte(mid), byte(mid >> 8)})
					nano := time.Now().UnixNano()
					recv := nano / 1e9
					if rapid.Bool().Draw(rt, "oldmsg") {
						recv -= rapid.Int64Range(0, 1000).Draw(rt, "age")
					}
					a.msgs = append(a.msgs, message{id[:], recv, nano, rapid.SampledFrom([]int64{0, recv}).Draw(rt, "read"), vt.Expand(rapid.SampledFrom([]int{0, 1, 100, 5000}).Draw(rt, "len"), uint32(mid), 0)})
					sort.SliceStable(a.msgs, func(x, y int) bool { return a.msgs[x].recv < a.msgs[y].recv })
				}
			}
			server := u.server
			if rapid.IntRange(0, 9).Draw(rt, "elsewhere") == 0 || server == "" {
				server = rapid.SampledFrom(hosts[1:]).Draw(rt, "otherserver")
			}
			op := rapid.SampledFrom([]string{"pay", "pay", "stat", "list", "list", "list", "fetch", "fetch", "fetch", "delete"}).Draw(rt, "op")
			if op == "pay" && u.server == "" && rapid.IntRange(0, 3).Draw(rt, "default") > 0 {
				server = ""
			}
			w.faults = drawFaults(rt)
			if a := w.accounts[server][u.pub]; a != nil && a.counter >= uint64(time.Now().UnixNano()) && (len(w.faults) == 0 || w.faults[0].kind != "replay") {
				// a clock that went backwards: the first token is a replay
				w.faults = append([]fault{{kind: "replay", n: a.counter}}, w.faults...)
			}
			faults := append([]fault{}, w.faults...)
			w.served, w.last = nil, nil
			cert := ca.PEM
			badCert := rapid.IntRange(0, 19).Draw(rt, "badcert") == 0
			if badCert {
				cert = rapid.SampledFrom([][]byte{otherCA.PEM, nil, {}, []byte("no certificate")}).Draw(rt, "cert")
			}
			// how the request is going to end
			replays := 0
			for replays < len(faults) && faults[replays].kind == "replay" {
				replays++
			}
			var end fault
			if replays < len(faults) {
				end = faults[replays]
			}
			requests := replays + 1
			if replays > 3 {
				requests = 4
				end = fault{kind: "gaveup"}
			}
			contacted := server
			var err error
			var check func() // compares the result of a success
			honest := end.kind == "" || end.kind == "status"
			find := func() *account { return w.accounts[server][u.pub] }
			switch op {
			case "pay":
				if server == "" {
					contacted = hosts[0]
				}
				tok := vt.Bytes(200).Draw(rt, "paytoken")
				before := map[string]int64{}
				for _, h := range hosts {
					if a := w.accounts[h][u.pub]; a != nil {
						before[h] = a.load
					}
				}
				var got string
				if p := vt.Try(func() { got, err = client.PayAccount(u.priv, tok, server, cert) }); p != "" {
					rt.Fatalf("%s %v: %s", op, end, p)
				}
				on := server
				if on == "" {
					on = w.assign
				}
				check = func() {
					if honest && got != on {
						rt.Fatalf("account is on %s, the server reported %s", got, on)
					}
					if !honest {
						if o, ok := refResult(w.last); !ok || o["Server"] != interface{}(got) {
							rt.Fatalf("%q read as server %q", w.last, got)
						}
					}
				}
				if a := w.accounts[on][u.pub]; honest && !badCert {
					if a == nil || a.load != before[on]+100 || a.tokens[len(a.tokens)-1] != string(tok) {
						rt.Fatalf("paying for the account on %s left it as %+v", on, a)
					}
				}
				for _, h := range hosts {
					if a := w.accounts[h][u.pub]; h != on && a != nil && a.load != before[h] {
						rt.Fatalf("paying for the account on %s changed that on %s", on, h)
					}
				}
				if a := w.accounts[on][u.pub]; a != nil && u.server == "" {
					u.server = on
				}
			case "stat":
				var got int64
				if p := vt.Try(func() { got, err = client.AccountStat(u.priv, server, cert) }); p != "" {
					rt.Fatalf("%s %v: %s", op, end, p)
				}
				check = func() {
					if honest {
						if a := find(); a == nil || a.load != got {
							rt.Fatalf("account loaded until %d, server has %+v", got, a)
						}
					} else if o, ok := refResult(w.last); !ok || !isNumber(o["LoadTime"], got) {
						rt.Fatalf("%q read as load time %d", w.last, got)
					}
				}
			case "list":
				since := time.Now().Unix() - rapid.SampledFrom([]int64{-5, 0, 1, 100, 500, 2000}).Draw(rt, "since")
				var got []client.MessageMeta
				if p := vt.Try(func() { got, err = client.ListMessages(u.priv, since, server, cert) }); p != "" {
					rt.Fatalf("%s %v: %s", op, end, p)
				}
				check = func() {
					if !honest {
						ref, ok := refList(w.last)
						if !ok {
							rt.Fatalf("malformed reply %q read as %d messages", w.last, len(got))
						}
						if showList(ref) != showList(got) {
							rt.Fatalf("reply %q read as %s", w.last, showList(got))
						}
						return
					}
					var want []client.MessageMeta
					if a := find(); a != nil {
						for _, m := range a.msgs {
							if m.recv >= since {
								want = append(want, client.MessageMeta{MessageID: m.id, ReceiveTime: m.recv, ReceiveTimeNano: m.nano, ReadTime: m.read, UserKey: u.pub})
							}
						}
					}
					if showList(want) != showList(got) {
						for i := range want {
							want[i].ReceiveTimeNano = int64(float64(want[i].ReceiveTimeNano))
						}
						if vt.IsKnown("KF-002") && showList(want) == showList(got) {
							c.Known("KF-002")
						} else {
							rt.Fatalf("messages %s, server has %s", showList(got), showList(want))
						}
					}
				}
			case "fetch":
				id := vt.Expand(32, 999, 0)
				var want []byte
				if a := find(); a != nil && len(a.msgs) > 0 && rapid.IntRange(0, 4).Draw(rt, "unknown") > 0 {
					m := a.msgs[rapid.IntRange(0, len(a.msgs)-1).Draw(rt, "which")]
					id, want = m.id, m.body
				}
				var got []byte
				if p := vt.Try(func() { got, err = client.FetchMessage(u.priv, id, server, cert) }); p != "" {
					rt.Fatalf("%s %v: %s", op, end, p)
				}
				check = func() {
					if honest && !bytes.Equal(got, want) {
						rt.Fatalf("message of %d bytes fetched as %d bytes", len(want), len(got))
					}
					if end.kind == "raw" && len(got) > 0 {
						// headers without a body are an empty mail
						rt.Fatalf("%q read as mail of %d bytes", w.last, len(got))
					}
					if end.kind == "mutate" {
						rt.Fatalf("damaged mail %q read as %d bytes", w.last, len(got))
					}
				}
			case "delete":
				had := find() != nil
				if p := vt.Try(func() { err = client.DeleteAccount(u.priv, server, cert) }); p != "" {
					rt.Fatalf("%s %v: %s", op, end, p)
				}
				check = func() {
					if honest && !had {
						rt.Fatalf("deleting an account that is not there succeeded")
					}
					if !honest {
						if o, ok := refResult(w.last); !ok || o["Result"] != interface{}(true) {
							rt.Fatalf("%q read as deleted", w.last)
						}
					}
				}
				if honest && !badCert && !had && err != client.ErrNoMatch {
					rt.Fatalf("deleting an account that is not there: %v", err)
				}
				if honest && !badCert && find() != nil {
					rt.Fatalf("account was not deleted: %v", err)
				}
				if a := w.accounts[u.server]; u.server != "" && a[u.pub] == nil {
					u.server = ""
				}
			}
			c.Eval(1)
			what := fmt.Sprintf("%s with %d replay replies, then %q %q (%q): error %v", op, replays, end.kind, end.text, w.served, err)
			if len(w.problems) > 0 {
				rt.Fatalf("%s: %s", what, w.problems)
			}
			for _, s := range w.served {
				if !strings.HasPrefix(s, contacted+" ") {
					rt.Fatalf("%s: another server than %s was contacted", what, contacted)
				}
			}
			if badCert {
				if err == nil || len(w.served) > 0 {
					rt.Fatalf("%s: server without valid certificate was used", what)
				}
				c.Label("%s: no certificate", op)
				c.NonTrivial(op, "cert", string(cert))
				continue
			}
			// a reply that got lost may be asked for again, an answer must not be
			if len(w.served) != requests && !(end.kind == "drop" || end.kind == "lost" || end.kind == "short") {
				rt.Fatalf("%s: %d requests, expected %d", what, len(w.served), requests)
			}
			switch end.kind {
			case "gaveup":
				if err != walletauth.ErrReplay {
					rt.Fatalf("%s: expected the replay error", what)
				}
			case "error":
				if err == nil || err.Error() != end.text {
					rt.Fatalf("%s: expected the server's error", what)
				}
			case "drop", "lost", "short":
				if err == nil {
					rt.Fatalf("%s: success although the reply was lost", what)
				}
			case "", "status":
				absent := strings.Contains(string(w.last), notFound) || op == "delete" && strings.Contains(string(w.last), "false")
				if (err == nil) == absent {
					rt.Fatalf("%s: reply %q", what, w.last)
				}
				if absent && op != "delete" && err.Error() != notFound {
					rt.Fatalf("%s: error of server changed", what)
				}
			}
			if err == nil {
				check()
			}
			c.Label("%s: %s, error %t", op, end.kind, err != nil)
			c.NonTrivial(op, replays, end.kind, end.text, string(w.last))
		}
	})
}

func isNumber(v interface{}, n int64) bool {
	f, ok := v.(float64)
	return ok && int64(f) == n
}
