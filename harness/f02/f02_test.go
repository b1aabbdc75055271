// Package f02 decides property F02: configuration updates fail over between
// servers and change nothing on failure.
package f02

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/netkit"
	"verif/vt"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/configclient/sortedmap"
	"pgregory.net/rapid"
)

const nServers = 5

// answer is what a server does with one kind of request.
type answer struct {
	how  string // "" delivers body
	body []byte
}

type behaviour struct{ config, cacert answer }

var (
	mu      sync.Mutex
	hosts   []string // host:port of the servers
	plan    [nServers]behaviour
	history []string // requests in order: "0 config"

	trusted, other [ed25519.PrivateKeySize]byte
	publicKey      []byte
	authorities    [][]byte // PEM
)

func TestMain(m *testing.M) {
	pub, priv, err := ed25519.GenerateKey(vt.NewDetRand(1))
	vt.InfraIf(err)
	publicKey = pub
	copy(trusted[:], priv)
	_, priv, err = ed25519.GenerateKey(vt.NewDetRand(2))
	vt.InfraIf(err)
	copy(other[:], priv)
	for i := 0; i < 4; i++ {
		authorities = append(authorities, netkit.NewBigCA([]int{0, 0, 0, 7000}[i]).PEM)
	}
	for i := 0; i < nServers; i++ {
		i := i
		l, err := net.Listen("tcp", "127.0.0.1:0")
		vt.InfraIf(err)
		hosts = append(hosts, l.Addr().String())
		srv := &http.Server{ErrorLog: netkit.Quiet, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { serve(i, w, r) })}
		srv.SetKeepAlivesEnabled(false)
		go srv.Serve(l)
	}
	vt.Main(m)
}

func serve(i int, w http.ResponseWriter, r *http.Request) {
	mu.Lock()
	var a answer
	switch strings.TrimLeft(r.URL.Path, "/") {
	case "config":
		a = plan[i].config
		history = append(history, fmt.Sprintf("%d config", i))
	case "cacert":
		a = plan[i].cacert
		history = append(history, fmt.Sprintf("%d cacert", i))
	default:
		history = append(history, fmt.Sprintf("%d %s", i, r.URL.Path))
		a.how = "404"
	}
	mu.Unlock()
	switch a.how {
	case "drop":
		panic(http.ErrAbortHandler)
	case "404":
		http.NotFound(w, r)
	case "cut": // the connection ends before the body
		w.Header().Set("Content-Length", fmt.Sprint(len(a.body)))
		w.Write(a.body[:len(a.body)/2])
		panic(http.ErrAbortHandler)
	case "hang":
		select {
		case <-r.Context().Done():
		case <-time.After(20 * time.Second):
		}
	case "huge":
		w.Write(bytes.Repeat([]byte(" "), configclient.MaxReadBody+10))
		w.Write(a.body)
	default:
		w.Write(a.body)
	}
}

func hash(pemCert []byte) string {
	b, _ := pem.Decode(pemCert)
	h := sha512.Sum512(b.Bytes)
	return hex.EncodeToString(h[:])
}

// config is a signed configuration.
type config struct {
	m    sortedmap.StringMap
	date uint64
	pin  int // authority, -1 for none, -2 for a hash nothing matches
}

func (s config) encode(key *[ed25519.PrivateKeySize]byte) []byte {
	sm := &sortedmap.SignedMap{Config: s.m, SignDate: s.date, Signature: append([]byte{}, s.m.Sort().Sign(s.date, key)...)}
	b, err := sm.Marshal()
	vt.InfraIf(err)
	return b
}

// held is the state of a configuration that counts.
type held struct {
	m      string
	caCert string
	date   uint64
}

func state(c *configclient.Config) held {
	b, err := json.Marshal(c.Map)
	vt.InfraIf(err)
	return held{string(b), string(c.CACert), c.LastSignDate}
}

// TestUpdate updates a configuration again and again while servers fail.
func TestUpdate(t *testing.T) {
	vt.Check(t, "a server failed before another one delivered, or an update failed", 250, 12000, func(rt *rapid.T, c *vt.Case) {
		rand.Seed(int64(rapid.Uint32().Draw(rt, "rand"))) // order of equal priorities
		cfg := &configclient.Config{PublicKey: publicKey}
		// servers and their priorities
		n := rapid.IntRange(1, nServers).Draw(rt, "servers")
		prio := make([]int, n)
		var list []string
		for _, i := range rapid.Permutation([]int{0, 1, 2, 3, 4}[:n]).Draw(rt, "order") {
			prio[i] = rapid.SampledFrom([]int{10, 10, 11, 9, 20, 30, 5, 0, 100}).Draw(rt, "prio")
			e := fmt.Sprintf("%d,%s", prio[i], hosts[i])
			if rapid.IntRange(0, 3).Draw(rt, "slash") == 0 {
				e += strings.Repeat("/", rapid.SampledFrom([]int{1, 1, 2, 15, 40}).Draw(rt, "slashes"))
			}
			list = append(list, e)
		}
		cfg.URLList = strings.Join(list, ";")
		// what is held at the start
		switch rapid.IntRange(0, 3).Draw(rt, "held") {
		case 0:
			cfg.CACert = append([]byte{}, authorities[vt.Uniform(rt, len(authorities), "heldCA")]...)
		case 1:
			cfg.CACert = rapid.SampledFrom([][]byte{{}, []byte("garbage"), []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")}).Draw(rt, "heldgarbage")
		}
		now := uint64(time.Now().Unix())
		serial := 0
		newConfig := func(age int64) config {
			serial++
			s := config{m: sortedmap.StringMap{"serial": fmt.Sprint(serial)}, date: now - uint64(age)}
			s.pin = rapid.IntRange(-1, len(authorities)-1).Draw(rt, "pin")
			if rapid.IntRange(0, 15).Draw(rt, "unmatched") == 0 {
				s.pin = -2
			}
			switch {
			case s.pin >= 0:
				s.m["CACertHash"] = hash(authorities[s.pin])
				if rapid.IntRange(0, 7).Draw(rt, "upper") == 0 {
					s.m["CACertHash"] = strings.ToUpper(s.m["CACertHash"])
				}
			case s.pin == -2:
				s.m["CACertHash"] = rapid.SampledFrom([]string{"00", "zz", "0", strings.Repeat("0", 128), hash(authorities[0])[:64], hash(authorities[0]) + "00"}).Draw(rt, "unmatched")
			}
			return s
		}
		var last uint64
		updates := rapid.IntRange(1, 5).Draw(rt, "updates")
		var key []string
		nonTrivial := false
		hung := false
		for u := 0; u < updates; u++ {
			// the plan of the servers
			fresh := newConfig(int64(rapid.IntRange(0, 50).Draw(rt, "age")))
			var valid [nServers]*config // by server
			var caOK [nServers]bool     // delivers the certificate of its authority
			var caOf [nServers]int
			kinds := make([]string, n)
			var next [nServers]behaviour
			for i := 0; i < n; i++ {
				s := fresh
				by := &trusted
				kind := rapid.SampledFrom([]string{"good", "good", "good", "other good", "drop", "404", "cut", "huge", "empty", "garbage", "older", "stale", "future", "other key", "unsigned", "altered", "mutated", "null", "hang"}).Draw(rt, "config")
				if kind == "hang" {
					if hung || rapid.IntRange(0, 9).Draw(rt, "really") > 0 {
						kind = "drop"
					}
					hung = true
				}
				a := answer{}
				ok := true
				switch kind {
				case "other good":
					s = newConfig(int64(rapid.IntRange(0, 50).Draw(rt, "age")))
				case "older":
					s.date = now - 3600
				case "stale":
					s.date, ok = now-20000, false
				case "future":
					s.date, ok = now+20000, false
				case "other key":
					by, ok = &other, false
				case "drop", "404", "cut", "huge", "hang":
					a.how, ok = kind, false
				}
				a.body = s.encode(by)
				switch kind {
				case "empty":
					a.body, ok = nil, false
				case "null":
					a.body, ok = []byte(rapid.SampledFrom([]string{"null", "{}", "[]", `{"Config":null}`, `""`}).Draw(rt, "null")), false
				case "garbage":
					a.body, ok = rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(rt, "garbage"), false
				case "unsigned":
					a.body, ok = bytes.Replace(a.body, []byte(`"Signature":"`), []byte(`"Ignored":"`), 1), false
				case "altered":
					a.body, ok = bytes.Replace(a.body, []byte(`"serial":"`), []byte(`"serial":"1`), 1), false
				case "mutated": // may still be the same configuration: judged by the result
					a.body, _ = vt.MutateJSON(rt, a.body, "config")
					ok = false
				}
				if s.date < last {
					ok = false
				}
				if ok {
					s := s
					valid[i] = &s
				}
				kinds[i] = kind
				next[i].config = a
			}
			for i := 0; i < n; i++ {
				caOf[i] = rapid.IntRange(-1, len(authorities)-1).Draw(rt, "authority")
				if rapid.Bool().Draw(rt, "pinned") {
					caOf[i] = fresh.pin
				}
				if caOf[i] < 0 {
					caOf[i] = 0
				}
				kind := rapid.SampledFrom([]string{"good", "good", "good", "drop", "404", "cut", "empty", "garbage", "truncated", "flipped", "more", "before", "type", "no block", "huge"}).Draw(rt, "cacert")
				a := answer{body: authorities[caOf[i]]}
				evil := authorities[(caOf[i]+1)%len(authorities)]
				caOK[i] = true
				switch kind {
				case "drop", "404", "cut", "huge":
					a.how, caOK[i] = kind, false
				case "empty":
					a.body, caOK[i] = nil, false
				case "garbage":
					a.body, caOK[i] = rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(rt, "garbage"), false
				case "truncated":
					a.body, caOK[i] = a.body[:rapid.IntRange(0, len(a.body)-40).Draw(rt, "keep")], false
				case "flipped":
					b, _ := pem.Decode(a.body)
					der := append([]byte{}, b.Bytes...)
					der[vt.Uniform(rt, len(der), "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
					a.body, caOK[i] = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), false
				case "no block":
					a.body, caOK[i] = []byte("-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n"), false
				case "more": // another certificate is appended: it may be refused or left out
					a.body = append(append([]byte{}, a.body...), evil...)
				case "type": // the right bytes, but not marked as a certificate
					a.body = bytes.Replace(a.body, []byte(" CERTIFICATE"), []byte(" CERT"), -1)
				case "before":
					a.body = append(append([]byte{}, evil...), a.body...)
				}
				next[i].cacert = a
				kinds[i] += "/" + kind
			}
			mu.Lock()
			history = nil
			plan = next
			mu.Unlock()
			if strings.Contains(strings.Join(kinds, " "), "hang") {
				cfg.Timeout = 1
			} else {
				cfg.Timeout = rapid.SampledFrom([]int64{0, 10}).Draw(rt, "timeout")
			}
			before := state(cfg)
			var err error
			if p := vt.Try(func() { err = cfg.Update() }); p != "" {
				rt.Fatalf("update %d, servers %v: %s", u, kinds, p)
			}
			after := state(cfg)
			mu.Lock()
			asked := append([]string{}, history...)
			mu.Unlock()
			desc := fmt.Sprintf("update %d, servers %v of priorities %v, asked %v", u, kinds, prio, asked)

			// the configuration is asked for in the order of the priorities
			var tried, triedCA []int
			for _, h := range asked {
				switch {
				case strings.HasSuffix(h, " config") && len(triedCA) == 0:
					tried = append(tried, int(h[0]-'0'))
				case strings.HasSuffix(h, " cacert"):
					triedCA = append(triedCA, int(h[0]-'0'))
				default:
					rt.Fatalf("%s: strange request", desc)
				}
			}
			for i := 1; i < len(tried); i++ {
				if prio[tried[i-1]] > prio[tried[i]] {
					rt.Fatalf("%s: not in the order of priority", desc)
				}
			}
			if len(tried) == 0 {
				rt.Fatalf("%s: no server asked", desc)
			}
			first := tried[len(tried)-1]
			var from *config
			if valid[first] != nil {
				from = valid[first]
			} else if strings.HasPrefix(kinds[first], "mutated") && (err == nil || len(triedCA) > 0 || len(tried) < n) {
				// an equivalent document of a valid configuration
				from = &fresh
				if fresh.date < last {
					rt.Fatalf("%s: accepted an older configuration", desc)
				}
			}
			for _, i := range tried[:len(tried)-1] {
				if valid[i] != nil {
					rt.Fatalf("%s: went on after server %d delivered a configuration", desc, i)
				}
			}
			seen := map[int]bool{}
			for _, i := range tried {
				if seen[i] {
					rt.Fatalf("%s: asked server %d twice", desc, i)
				}
				seen[i] = true
			}
			if from == nil && len(tried) < n {
				rt.Fatalf("%s: not all servers were asked", desc)
			}
			if from != nil {
				for i := range prio {
					if prio[i] < prio[first] && !seen[i] {
						rt.Fatalf("%s: server %d was not asked", desc, i)
					}
				}
			}

			// the certificate
			possible, sure := from != nil, from != nil
			if from != nil && from.pin == -2 {
				possible, sure = false, false
			}
			heldOK := false
			if from != nil && from.pin >= 0 {
				heldOK = before.caCert == string(authorities[from.pin])
				if !heldOK {
					possible, sure = false, false
					for i := range prio {
						first := caOf[i] // the one in front in what it delivers
						if strings.HasSuffix(kinds[i], "/before") {
							first = (first + 1) % len(authorities)
							possible = possible || caOf[i] == from.pin
						}
						if caOK[i] && first == from.pin {
							possible = true
							if strings.HasSuffix(kinds[i], "/good") {
								sure = true
							}
						}
					}
				}
			}
			if err == nil && !possible {
				rt.Fatalf("%s: succeeded", desc)
			}
			if err != nil && sure {
				rt.Fatalf("%s: failed: %s", desc, err)
			}
			if err != nil {
				if before.date == 0 {
					after.date = 0 // a lower limit may be set
				}
				if after != before {
					rt.Fatalf("%s: failed (%s) but changed the configuration\n%v\n%v", desc, err, before, after)
				}
				nonTrivial = true
			} else {
				want, _ := json.Marshal(from.m)
				if after.m != string(want) || after.date != from.date {
					rt.Fatalf("%s: holds %s of %d, not %s of %d", desc, after.m, after.date, want, from.date)
				}
				switch {
				case from.pin == -1 || heldOK:
					if after.caCert != before.caCert {
						rt.Fatalf("%s: changed the certificate", desc)
					}
				default:
					certs := usable([]byte(after.caCert))
					if len(certs) != 1 || certs[0] != from.m["CACertHash"] && !strings.EqualFold(certs[0], from.m["CACertHash"]) {
						rt.Fatalf("%s: holds %d certificates:\n%s", desc, len(certs), after.caCert)
					}
				}
				last = from.date
				if len(tried) > 1 || len(triedCA) > 1 {
					nonTrivial = true
				}
			}
			sort.Strings(kinds)
			key = append(key, strings.Join(kinds, ","), fmt.Sprint(err == nil, len(tried), len(triedCA)))
			c.Label("ok %v, asked %d, for certificates %d", err == nil, len(tried), len(triedCA))
			// the application is started again
			if rapid.IntRange(0, 3).Draw(rt, "restart") == 0 {
				b, err := json.Marshal(cfg)
				vt.InfraIf(err)
				cfg = new(configclient.Config)
				if err := json.Unmarshal(b, cfg); err != nil {
					rt.Fatalf("stored configuration: %s", err)
				}
			}
		}
		if nonTrivial {
			c.NonTrivial(key)
		}
	})
}

// usable returns the hashes of the certificates that TLS connections trust
// when they are given the file.
func usable(b []byte) (hashes []string) {
	for len(b) > 0 {
		var block *pem.Block
		block, b = pem.Decode(b)
		if block == nil {
			break
		}
		if block.Type != "CERTIFICATE" || len(block.Headers) != 0 {
			continue
		}
		if _, err := x509.ParseCertificate(block.Bytes); err == nil {
			h := sha512.Sum512(block.Bytes)
			hashes = append(hashes, hex.EncodeToString(h[:]))
		}
	}
	return
}

// TestNoServers updates without usable server lists.
func TestNoServers(t *testing.T) {
	vt.Check(t, "the list names no server that can be reached", 100, 2000, func(rt *rapid.T, c *vt.Case) {
		list := rapid.OneOf(rapid.SampledFrom([]string{"", ";", ",", "10", "10,", ";;10,;", "x,127.0.0.1:1", "10,127.0.0.1:1;20,127.0.0.1:1", "10,:0", "10,%zz", "10,[", "99999999999999999999,127.0.0.1:1", "-3,127.0.0.1:1"}),
			rapid.StringOfN(rapid.RuneFrom([]rune("0,; :/x%[]@#?")), 0, 12, 20)).Draw(rt, "list")
		cfg := &configclient.Config{PublicKey: publicKey, URLList: list, Timeout: 2}
		for i := 0; i < 2; i++ {
			var err error
			if p := vt.Try(func() { err = cfg.Update() }); p != "" {
				rt.Fatalf("servers %q: %s", list, p)
			}
			if err == nil {
				rt.Fatalf("servers %q: updated from nobody", list)
			}
			if cfg.Map != nil || cfg.CACert != nil {
				rt.Fatalf("servers %q: configuration changed", list)
			}
		}
		c.NonTrivial(list)
	})
}
