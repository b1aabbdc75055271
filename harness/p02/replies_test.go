package p02

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/guardkit"
	"verif/mixkit"
	"verif/netkit"
	"verif/vt"

	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/util/jsonclient"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

type m = map[string]interface{}

// call is a client function of a service.
type call struct {
	name   string
	result []byte // JSON of a good result (raw: body)
	raw    bool   // no JSON-RPC
	// run calls the service.
	run func() (interface{}, error)
	// want computes what a result means; ok is false for a result that has to
	// be refused.
	want func(r m, body []byte) (v interface{}, ok bool)
}

var (
	calls    []call
	srv      *httptest.Server
	callOnce sync.Once
	ansMu    sync.Mutex
	answer   func(w http.ResponseWriter, id json.RawMessage)
)

func jsonOf(v interface{}) []byte {
	b, err := json.Marshal(v)
	vt.InfraIf(err)
	return b
}

func str(r m, name string, dec func(string) ([]byte, error)) ([]byte, bool) {
	s, ok := r[name].(string)
	if !ok {
		return nil, false
	}
	b, err := dec(s)
	return b, err == nil
}

func serve(w http.ResponseWriter, req *http.Request) {
	var c struct{ ID json.RawMessage }
	body, _ := io.ReadAll(req.Body)
	json.Unmarshal(body, &c)
	ansMu.Lock()
	a := answer
	ansMu.Unlock()
	a(w, c.ID)
}

func setupCalls() {
	srv = httptest.NewUnstartedServer(http.HandlerFunc(serve))
	srv.Config.SetKeepAlivesEnabled(false)
	srv.Config.ErrorLog = netkit.Quiet
	srv.StartTLS()
	cert := pemOf(srv)
	_, port, err := net.SplitHostPort(srv.Listener.Addr().String())
	vt.InfraIf(err)
	client.RPCPort = port
	client.GetMixAddress = func(string) (string, error) { return srv.Listener.Addr().String(), nil }
	factory := func(string, []byte) (*jsonclient.URLClient, error) { return jsonclient.New(srv.URL, cert) }
	b64dec, hexdec := b64.DecodeString, hex.DecodeString
	pub, priv, err := ed25519.GenerateKey(nil)
	vt.InfraIf(err)
	var pk [32]byte
	var sk [64]byte
	copy(pk[:], pub)
	copy(sk[:], priv)

	// service guard
	guardrpc.ServiceURL = "https://issuer"
	g, err := guardrpc.New(cert)
	vt.InfraIf(err)
	g.ClientFactory = factory
	packet := func(r m, _ []byte) (interface{}, bool) { p, ok := str(r, "Packet", b64dec); return p, ok }
	two := func(r m, _ []byte) (interface{}, bool) {
		p, ok := str(r, "Packet", b64dec)
		u, ok2 := str(r, "PubkeyUsed", b64dec)
		return [2][]byte{p, u}, ok && ok2
	}
	good := jsonOf(m{"Packet": b64.EncodeToString(vt.Expand(60, 1, 0)), "PubkeyUsed": b64.EncodeToString(pub), "Status": true})
	calls = append(calls,
		call{name: "guardrpc.GetParams", result: good, run: func() (interface{}, error) { return g.GetParams(&pk) }, want: packet},
		call{name: "guardrpc.GetParamsInternal", result: good, run: func() (interface{}, error) { return g.GetParamsInternal(&pk) }, want: packet},
		call{name: "guardrpc.Spend", result: good, run: func() (interface{}, error) { return g.Spend(&pk, []byte("x")) }, want: func(r m, _ []byte) (interface{}, bool) {
			s, ok := r["Status"].(bool)
			return s, ok
		}},
		call{name: "guardrpc.Reissue", result: good, run: func() (interface{}, error) {
			a, b, err := g.Reissue(&pk, []byte("x"))
			return [2][]byte{a, b}, err
		}, want: two},
		call{name: "guardrpc.Issue", result: good, run: func() (interface{}, error) {
			a, b, err := g.Issue(&pk, &pk)
			return [2][]byte{a, b}, err
		}, want: two},
	)
	// wallet
	o := guardkit.NewOwner()
	w := walletrpc.New(o.Pub, o.Priv, cert)
	w.ClientFactory = factory
	calls = append(calls,
		call{name: "walletrpc.GetBalance", result: jsonOf(m{"SubscriptionTokens": 3, "PrepayTokens": 4, "LastSubscribeLoad": times.Now()}), run: func() (interface{}, error) {
			w.LastAuthToken, w.LastAuthCounter = nil, 1
			_, _, _, err := w.GetBalance()
			return nil, err
		}, want: func(r m, _ []byte) (interface{}, bool) {
			for _, n := range []string{"SubscriptionTokens", "PrepayTokens", "LastSubscribeLoad"} {
				if _, ok := r[n].(float64); !ok {
					return nil, false
				}
			}
			return nil, true
		}},
		call{name: "walletrpc.GetToken", result: jsonOf(m{"Token": "AAAA", "Params": "BBBB", "PubKeyUsed": b64.EncodeToString(pub)}), run: func() (interface{}, error) {
			w.LastAuthToken, w.LastAuthCounter = nil, 1
			a, b, c, err := w.GetToken("Message")
			return [3][]byte{a, b, c}, err
		}, want: func(r m, _ []byte) (v interface{}, ok bool) {
			var out [3][]byte
			for i, n := range []string{"Token", "Params", "PubKeyUsed"} {
				if out[i], ok = str(r, n, b64dec); !ok {
					return nil, false
				}
			}
			return out, true
		}},
	)
	// key lookup
	iss := guardkit.NewIssuer()
	k := iss.NewKey("Message", 3600)
	l := keylookup.New(nil, cert, &pk)
	l.ClientFactory = factory
	id := k.ID()
	list := strings.Join([]string{hex.EncodeToString(pub), hex.EncodeToString(o.Pub[:])}, ", ")
	sig := ed25519.Sign(priv, []byte(list))
	km, err := k.Usable().Marshal()
	vt.InfraIf(err)
	calls = append(calls,
		call{name: "keylookup.GetKey", result: jsonOf(m{"Key": b64.EncodeToString(km)}), run: func() (interface{}, error) {
			k, err := l.GetKey(&id)
			if err != nil {
				return nil, err
			}
			return k.Marshal()
		}, want: nil},
		call{name: "keylookup.GetVerifyList", result: jsonOf(m{"PublicKey": hex.EncodeToString(pub), "Signature": hex.EncodeToString(sig), "KeyList": list}), run: func() (interface{}, error) {
			l, err := l.GetVerifyList()
			return l, err
		}, want: func(r m, _ []byte) (interface{}, bool) {
			s, ok := str(r, "Signature", hexdec)
			kl, ok2 := r["KeyList"].(string)
			p, ok3 := str(r, "PublicKey", hexdec)
			if !ok || !ok2 || !ok3 || kl != list || !bytes.HasPrefix(p, pub) || !ed25519.Verify(pub, []byte(kl), s) {
				return nil, false
			}
			return [][32]byte{pk, *o.Pub}, true
		}},
	)
	// account server
	client.DefaultClientFactory = factory
	meta := func(i int) m {
		return m{"ReceiveTime": 1000 + i, "ReceiveTimeNano": 2000 + i, "ReadTime": i, "UserKey": hex.EncodeToString(pub), "MessageID": hex.EncodeToString(vt.Expand(32, uint32(i), 0))}
	}
	calls = append(calls,
		call{name: "client.PayAccount", result: jsonOf(m{"Server": "a.mute.one"}), run: func() (interface{}, error) { return client.PayAccount(&sk, []byte("t"), "", cert) }, want: func(r m, _ []byte) (interface{}, bool) {
			s, ok := r["Server"].(string)
			return s, ok
		}},
		call{name: "client.DeleteAccount", result: jsonOf(m{"Result": true}), run: func() (interface{}, error) { return nil, client.DeleteAccount(&sk, "h", cert) }, want: func(r m, _ []byte) (interface{}, bool) {
			return nil, r["Result"] == true
		}},
		call{name: "client.AccountStat", result: jsonOf(m{"LoadTime": 12345}), run: func() (interface{}, error) { return client.AccountStat(&sk, "h", cert) }, want: func(r m, _ []byte) (interface{}, bool) {
			f, ok := r["LoadTime"].(float64)
			if f != float64(int64(f)) || f > 1e18 || f < -1e18 {
				return nil, true // cannot be represented
			}
			return int64(f), ok
		}},
		call{name: "client.ListMessages", result: jsonOf(m{"Messages": []m{meta(1), meta(2)}}), run: func() (interface{}, error) {
			l, err := client.ListMessages(&sk, 1, "h", cert)
			var out [][]byte
			for _, x := range l {
				out = append(out, append(x.MessageID, x.UserKey[:]...))
			}
			return out, err
		}, want: func(r m, _ []byte) (interface{}, bool) {
			ms, ok := r["Messages"].([]interface{})
			var out [][]byte
			for _, e := range ms {
				x, ok2 := e.(m)
				id, ok3 := str(x, "MessageID", hexdec)
				uk, ok4 := str(x, "UserKey", hexdec)
				_, ok5 := x["ReceiveTime"].(float64)
				_, ok6 := x["ReceiveTimeNano"].(float64)
				_, ok7 := x["ReadTime"].(float64)
				ok = ok && ok2 && ok3 && ok4 && ok5 && ok6 && ok7 && len(uk) == 32
				out = append(out, append(id, uk...))
			}
			return out, ok
		}},
		call{name: "client.FetchMessage", raw: true, result: client.WriteMail("a@b", "c@d", vt.Expand(500, 2, 0)), run: func() (interface{}, error) { return client.FetchMessage(&sk, []byte("id"), "127.0.0.1", cert) }, want: func(_ m, body []byte) (interface{}, bool) {
			d, err := client.ReadMail(body)
			return d, err == nil && len(body) >= 7 && !bytes.HasPrefix(body, []byte("ERROR:"))
		}},
		call{name: "client.RevokeMessage", raw: true, result: []byte("REVOKED id"), run: func() (interface{}, error) { return client.RevokeMessage([]byte("id"), "mix@x", cert) }, want: func(_ m, body []byte) (interface{}, bool) {
			return true, bytes.HasPrefix(body, []byte("REVOKED"))
		}},
	)
	mx := mixkit.NewMix("mix@a.mute.one", vt.TempDir(), 100000, 200000)
	calls = append(calls, call{name: "client.GetMixKeys", raw: true, result: jsonOf(mixaddr.AddressStatement{Addresses: mixkit.Candidates(mx)}), run: func() (interface{}, error) {
		s, err := client.GetMixKeys("mix@x", cert)
		if err != nil {
			return nil, err
		}
		return string(jsonOf(s)), nil
	}, want: func(_ m, body []byte) (interface{}, bool) {
		var s mixaddr.AddressStatement
		if json.Unmarshal(body, &s) != nil {
			return nil, false
		}
		return string(jsonOf(s)), true
	}})
}

// TestReplies has the services that mute asks give malformed answers.
func TestReplies(t *testing.T) {
	callOnce.Do(setupCalls)
	vt.Check(t, "the service answered with something else than a good result", 3000, 300000, func(rt *rapid.T, c *vt.Case) {
		cl := calls[vt.Uniform(rt, len(calls), "call")]
		kind := rapid.SampledFrom([]string{"result", "result", "result", "good", "error", "document", "bytes", "cut", "status", "null"}).Draw(rt, "answer")
		result, desc := cl.result, ""
		var other []byte
		status := 200
		isJSON := !cl.raw || cl.name == "client.GetMixKeys"
		switch kind {
		case "result":
			if isJSON {
				result, desc = vt.MutateJSON(rt, result, "result", "")
			} else {
				result, desc = vt.Mutation(rt, result, "result")
			}
		case "error":
			msg := rapid.SampledFrom([]string{"", "x", "ErrReplay: 7", "ErrReplay: x", "ErrReplay: 18446744073709551615", "ErrReplay: 18446744073709551616", "ErrReplay: -1", "ErrReplay:", "\x00"}).Draw(rt, "message")
			other = []byte(`{"jsonrpc":"2.0","id":ID,"error":` + rapid.SampledFrom([]string{`{"code":-32000,"message":MSG}`, `{"message":MSG}`, `MSG`, `[]`, `{"code":"x"}`, `{"code":1e99,"message":MSG,"data":[1]}`, `7`}).Draw(rt, "error") + `}`)
			other = bytes.Replace(other, []byte("MSG"), jsonOf(msg), -1)
			if cl.raw {
				other = []byte(rapid.SampledFrom([]string{"ERROR", "ERROR:", "ERROR: ", "ERROR: x", "ERROR: ErrReplay: 7", "ERROR: " + msg}).Draw(rt, "raw error"))
			}
		case "document":
			doc := jsonOf(m{"jsonrpc": "2.0", "id": 1, "result": json.RawMessage(`"RESULT"`)})
			if isJSON && rapid.Bool().Draw(rt, "structure") {
				other, desc = vt.MutateJSON(rt, doc, "document", "")
			} else {
				other, desc = vt.Mutation(rt, doc, "document")
			}
			other = bytes.Replace(other, []byte(`"RESULT"`), result, 1)
		case "bytes":
			other = vt.Bytes(40, 0, 1, 5, 6, 7, 8).Draw(rt, "body")
		case "cut":
			desc = fmt.Sprint(rapid.IntRange(0, 90).Draw(rt, "percent"))
		case "status":
			status = rapid.SampledFrom([]int{204, 301, 400, 404, 500, 599, 999}).Draw(rt, "status")
		case "null":
			other = []byte(rapid.SampledFrom([]string{`null`, `{}`, `[]`, `{"result":null}`, `{"jsonrpc":"2.0","result":null,"id":ID}`, `{"jsonrpc":"2.0","result":[],"id":ID}`, `{"jsonrpc":"2.0","result":{},"error":null,"id":ID}`, `{"jsonrpc":"1.0","result":{"Status":true},"id":ID}`, `{"jsonrpc":"2.0","error":{},"id":ID}`, ``}).Draw(rt, "null"))
		}
		n := 0
		ansMu.Lock()
		answer = func(w http.ResponseWriter, id json.RawMessage) {
			n++
			body := other
			if body == nil {
				body = result
				if !cl.raw {
					body = []byte(`{"jsonrpc":"2.0","id":ID,"result":` + string(result) + `}`)
				}
			}
			if id == nil {
				id = []byte("1")
			}
			body = bytes.Replace(body, []byte("ID"), id, 1)
			if kind == "cut" { // the connection breaks
				w.Header().Set("Content-Length", fmt.Sprint(len(body)))
				var p int
				fmt.Sscan(desc, &p)
				w.Write(body[:len(body)*p/100])
				panic(http.ErrAbortHandler)
			}
			if status != 200 {
				w.WriteHeader(status)
			}
			w.Write(body)
		}
		ansMu.Unlock()
		var v interface{}
		var err error
		var panicked string
		done := make(chan bool)
		go func() {
			defer close(done)
			panicked = vt.Try(func() { v, err = cl.run() })
		}()
		select {
		case <-done:
		case <-time.After(limit):
			rt.Fatalf("%s: still busy after %v (%d requests) with %s answer %s", cl.name, limit, n, kind, desc)
		}
		full := result
		if other != nil {
			full = other
		}
		if panicked != "" {
			rt.Fatalf("%s: %s answer %q (%s) crashes it: %s", cl.name, kind, full, desc, panicked)
		}
		if n > 10 {
			rt.Fatalf("%s: %d requests", cl.name, n)
		}
		if cl.want != nil && (kind == "result" || kind == "good") {
			var r m
			ok := true
			if !cl.raw && (json.Unmarshal(result, &r) != nil || r == nil) {
				ok = false
			}
			var want interface{}
			if ok {
				want, ok = cl.want(r, result)
			}
			if ok && err != nil && kind == "good" || !ok && err == nil {
				rt.Fatalf("%s: good result %v, but %v for %q (%s)", cl.name, ok, err, result, desc)
			}
			if ok && err == nil && want != nil && fmt.Sprintf("%#v", v) != fmt.Sprintf("%#v", want) && !reflect.DeepEqual(v, want) && !same(v, want) {
				rt.Fatalf("%s: %q (%s) is understood as %#v, not %#v", cl.name, result, desc, v, want)
			}
		}
		if kind == "good" && err != nil {
			rt.Fatalf("%s: a good answer is refused: %v", cl.name, err)
		}
		if err == nil && (kind == "cut" || kind == "error" && !cl.raw) {
			rt.Fatalf("%s: %s answer %q is a success: %v", cl.name, kind, full, v)
		}
		if kind != "good" {
			c.NonTrivial(cl.name, kind, full, desc)
		}
		c.Label("%s: %s: error %v", cl.name, kind, err != nil)
	})
}
