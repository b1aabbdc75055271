// Package m05 decides property M05: conversations renew their session keys.
package m05

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"

	"verif/msgkit"
	"verif/vt"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/uid"
	"golang.org/x/crypto/nacl/box"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// Header is what the recipient reads in a message's header.
type Header struct {
	RecipientTempHash string
	SenderSessionPub  struct{ HASH string }
	NymAddress        string
}

func header(raw []byte, rcpt *uid.Message) (h Header) {
	var pub [32]byte
	pre := 7 + int(raw[1])<<8 + int(raw[2])
	copy(pub[:], raw[pre-32:pre])
	p := raw[pre:]
	n := 7 + int(p[1])<<8 + int(p[2])
	var nonce [24]byte
	copy(nonce[:], p[7:])
	jsn, ok := box.Open(nil, p[7+24+2:n], &nonce, &pub, rcpt.PubKey().PrivateKey32())
	if !ok {
		vt.Infra(fmt.Errorf("cannot open header"))
	}
	vt.InfraIf(json.Unmarshal(jsn, &h))
	return h
}

type sent struct {
	raw, content []byte
	addr         string
	h            Header
}

type conv struct {
	rt    *rapid.T
	users []*msgkit.User
	queue [2][]sent
	nk    uint64
	total int
	run   []string
}

func (v *conv) send(i int, avg uint64) sent {
	v.total++
	txt := vt.Bytes(60, 0, 1).Draw(v.rt, "content")
	enc, addr, err := v.users[i].Encrypt(v.users[1-i].UID, txt, msgkit.Params{NumOfKeys: v.nk, AvgSession: avg,
		Sign: v.total%3 == 0, Nym: fmt.Sprintf("nym-%d-of-%d", v.total, i)})
	v.run = append(v.run, fmt.Sprintf("S%d", i))
	if err != nil {
		v.rt.Fatalf("after %v: encrypt: %v", v.run, err)
	}
	raw, err := base64.Decode(string(enc))
	vt.InfraIf(err)
	m := sent{raw, txt, addr, header(raw, v.users[1-i].UID)}
	v.queue[i] = append(v.queue[i], m)
	return m
}

func (v *conv) recv(i int) {
	if len(v.queue[i]) == 0 {
		return
	}
	m := v.queue[i][0]
	v.queue[i] = v.queue[i][1:]
	v.run = append(v.run, fmt.Sprintf("R%d", i))
	u := v.users[1-i]
	got, _, _, err := msgkit.DecryptRaw(u.Store, m.raw, v.nk, []*uid.Message{u.UID})
	if err != nil || !bytes.Equal(got, m.content) {
		v.rt.Fatalf("after %v: decrypt: %v", v.run, err)
	}
}

func (v *conv) drain() {
	for len(v.queue[0])+len(v.queue[1]) > 0 {
		v.recv(0)
		v.recv(1)
	}
}

// window is the number of turns within which both sides use new keys.
const window = 3

func scenario(rt *rapid.T, c *vt.Case, steps int, mk func(i int) msgkit.Backend) {
	v := &conv{rt: rt}
	v.nk = uint64(rapid.SampledFrom([]int{1, 2, 3, 50}).Draw(rt, "numOfKeys"))
	names := []string{"alice@mute.berlin", "bob@mute.berlin"}
	if rapid.Bool().Draw(rt, "swap") {
		names[0], names[1] = names[1], names[0]
	}
	for i, n := range names {
		v.users = append(v.users, msgkit.NewUser(n, "nym of "+n, mk(i)))
	}
	v.users[0].Knows(v.users[1])
	v.users[1].Knows(v.users[0])

	// any history
	avg := uint64(rapid.SampledFrom([]int{1, 2, 5, 1000}).Draw(rt, "avgSession"))
	for n := rapid.IntRange(0, steps).Draw(rt, "steps"); n > 0; n-- {
		i := rapid.IntRange(0, 1).Draw(rt, "who")
		switch rapid.IntRange(0, 3).Draw(rt, "what") {
		case 0, 1:
			v.send(i, avg)
		case 2:
			v.recv(i)
		case 3:
			for len(v.queue[i]) > 0 {
				v.recv(i)
			}
		}
	}
	v.drain()
	history := len(v.run)

	// both sides answer each other, session keys are offered at once
	type turn struct {
		keys  map[string]bool // own and other session key of messages
		own   map[string]bool
		gave  map[string]bool
		addrs []string
	}
	var turns [2][]turn
	i := rapid.IntRange(0, 1).Draw(rt, "first")
	n := rapid.IntRange(window+1, 3*window).Draw(rt, "turns")
	for k := 0; k < n; k++ {
		t := turn{own: map[string]bool{}, gave: map[string]bool{}}
		for x := rapid.IntRange(1, 3).Draw(rt, "messages"); x > 0; x-- {
			m := v.send(i, 1)
			t.own[m.h.SenderSessionPub.HASH] = true
			t.gave[m.h.NymAddress] = true
			t.addrs = append(t.addrs, m.addr)
		}
		turns[i] = append(turns[i], t)
		v.drain()
		if l := len(turns[i]); l > window/2+1 {
			if before := turns[i][l-1-(window/2+1)]; anyOf(before.own, t.own) {
				rt.Fatalf("after %v (history of %d steps, then turns of answers): user %d still sends under the session key of %d of its turns ago", v.run, history, i, window/2+1)
			}
			for _, a := range t.addrs {
				ok := false
				for _, o := range turns[1-i][len(turns[1-i])-min(len(turns[1-i]), window/2+1):] {
					ok = ok || o.gave[a]
				}
				if !ok {
					rt.Fatalf("after %v (history of %d steps, then turns of answers): user %d sends to %q, but user %d gave out other addresses in its last %d turns", v.run, history, i, a, 1-i, window/2+1)
				}
			}
		}
		i = 1 - i
	}
	s := strings.Join(v.run[:history], " ")
	c.Label("average session %d", avg)
	if history > 0 {
		c.NonTrivial(v.nk, avg, s, n)
	}
	c.Sample("history %q, then %d turns", s, n)
}

func anyOf(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

const rule = "any history of sends and receives (in order per direction), then 4..9 turns in which the sides answer each other and offer new session keys with every message: from then on no message is sent under a session key its sender used two of its turns before, and none goes to an address given out longer ago than that; non-trivial: the history is not empty"

func TestRenewal(t *testing.T) {
	vt.Check(t, rule, 220, 8000, func(rt *rapid.T, c *vt.Case) {
		scenario(rt, c, 40, func(int) msgkit.Backend { return msgkit.NewValStore() })
	})
}

func TestDatabase(t *testing.T) {
	vt.Check(t, rule+"; states in real key databases", 8, 150, func(rt *rapid.T, c *vt.Case) {
		dir := vt.TempDir()
		defer os.RemoveAll(dir)
		var all []msgkit.Backend
		defer func() {
			for _, b := range all {
				b.Close()
			}
		}()
		scenario(rt, c, 15, func(i int) msgkit.Backend {
			b := msgkit.NewDBStore(dir, fmt.Sprint("u", i))
			all = append(all, b)
			return b
		})
	})
}
