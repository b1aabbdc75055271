// Package m01 decides property M01: delivered messages decrypt to exactly what
// was sent. Conversations of generated shape run over the value store and over
// a real key database; the oracle is the list of plaintexts.
package m01

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"os"
	"strings"
	"testing"

	"verif/msgkit"
	"verif/vt"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

type sent struct {
	enc     []byte
	content []byte
	nym     string
	sign    bool
	n       int
}

func content(rt *rapid.T, big bool) []byte {
	if big {
		return vt.Bytes(msg.MaxContentLength, 0, 1, 16, 64, 1000, msg.MaxContentLength).Draw(rt, "content")
	}
	return vt.Bytes(200, 0, 1, 16, 64).Draw(rt, "content")
}

// conv is a conversation of len(users) users; queue[i][j] holds the messages
// from i to j that j did not receive yet.
type conv struct {
	rt    *rapid.T
	c     *vt.Case
	users []*msgkit.User
	queue map[[2]int][]sent
	nyms  map[[2]int]map[string]bool // addresses i may use for j
	nk    uint64
	avg   uint64
	total int
	recvd int
	run   []string
}

func (v *conv) send(i, j int) {
	u, p := v.users[i], v.users[j]
	txt := content(v.rt, v.total < 3)
	sign := rapid.Bool().Draw(v.rt, "sign")
	nym := fmt.Sprintf("nym-%d-of-%d", v.total, i)
	v.total++
	enc, addr, err := u.Encrypt(p.UID, txt, msgkit.Params{NumOfKeys: v.nk, AvgSession: v.avg, Sign: sign, Nym: nym})
	if err != nil {
		v.rt.Fatalf("after %v: user %d cannot encrypt %d bytes for %d: %v", v.run, i, len(txt), j, err)
	}
	k := [2]int{i, j}
	if !v.nyms[k][addr] {
		v.rt.Fatalf("after %v: user %d is told to deliver to %q, which user %d never gave out", v.run, i, addr, j)
	}
	v.run = append(v.run, fmt.Sprintf("S%d>%d", i, j))
	v.queue[k] = append(v.queue[k], sent{enc, txt, nym, sign, v.total})
}

func (v *conv) recv(i, j int) {
	k := [2]int{i, j}
	q := v.queue[k]
	if len(q) == 0 {
		return
	}
	m := q[0]
	v.queue[k] = q[1:]
	v.run = append(v.run, fmt.Sprintf("R%d>%d", i, j))
	got, sender, sig, err := v.users[j].Decrypt(m.enc, v.nk)
	if err != nil {
		v.rt.Fatalf("after %s: user %d cannot decrypt message %d from %d (%d bytes, sign %v): %v",
			strings.Join(v.run, " "), j, m.n, i, len(m.content), m.sign, err)
	}
	if !bytes.Equal(got, m.content) {
		v.rt.Fatalf("after %v: content of %d bytes decrypted to %d different bytes", v.run, len(m.content), len(got))
	}
	if sender != v.users[i].Name {
		v.rt.Fatalf("sender %q reported as %q", v.users[i].Name, sender)
	}
	if m.sign {
		b, err := base64.Decode(sig)
		pub := v.users[i].UID.PublicSigKey32()
		h := sha512.Sum512(m.content)
		if err != nil || !ed25519.Verify(ed25519.PublicKey(pub[:]), h[:], b) {
			v.rt.Fatalf("reported signature %q does not verify: %v", sig, err)
		}
	} else if sig != "" {
		v.rt.Fatalf("signature %q reported for unsigned message", sig)
	}
	v.nyms[[2]int{j, i}][m.nym] = true
	v.recvd++
}

func (v *conv) drain() {
	for k, q := range v.queue {
		for range q {
			v.recv(k[0], k[1])
		}
	}
}

func newConv(rt *rapid.T, c *vt.Case, n int, mk func(i int) msgkit.Backend) *conv {
	v := &conv{rt: rt, c: c, queue: map[[2]int][]sent{}, nyms: map[[2]int]map[string]bool{}}
	v.nk = uint64(rapid.SampledFrom([]int{1, 2, 3, 5, 50}).Draw(rt, "numOfKeys"))
	v.avg = uint64(rapid.SampledFrom([]int{1, 2, 5, 1000}).Draw(rt, "avgSession"))
	names := []string{"alice@mute.berlin", "bob@mute.berlin", "carol@mute.berlin"}
	if rapid.Bool().Draw(rt, "swap") {
		names[0], names[1] = names[1], names[0]
	}
	for i := 0; i < n; i++ {
		v.users = append(v.users, msgkit.NewUser(names[i], "nym of "+names[i], mk(i)))
	}
	for i := range v.users {
		for j := range v.users {
			if i != j {
				v.users[i].Knows(v.users[j])
				v.nyms[[2]int{i, j}] = map[string]bool{v.users[j].Nym: true}
			}
		}
	}
	return v
}

// finish receives what is left and classifies the conversation.
func (v *conv) finish(kind string) {
	v.drain()
	turns := 0
	for i := 1; i < len(v.run); i++ {
		if v.run[i][1] != v.run[i-1][1] {
			turns++
		}
	}
	v.c.Label("%s: numOfKeys %d, avgSession %d", kind, v.nk, v.avg)
	if turns >= 2 && v.recvd >= 3 {
		v.c.NonTrivial(v.nk, v.avg, strings.Join(v.run, " "))
	}
	s := strings.Join(v.run, " ")
	v.c.Sample("%s, numOfKeys %d, avgSession %d: %s", kind, v.nk, v.avg, s)
}

// steps makes a generated schedule of sends and receives.
func (v *conv) steps(max, burst int) {
	n := rapid.IntRange(1, max).Draw(v.rt, "steps")
	for s := 0; s < n; s++ {
		i := rapid.IntRange(0, len(v.users)-1).Draw(v.rt, "from")
		j := (i + rapid.IntRange(1, len(v.users)-1).Draw(v.rt, "to")) % len(v.users)
		switch rapid.IntRange(0, 9).Draw(v.rt, "what") {
		case 0, 1, 2, 3:
			v.send(i, j)
		case 4, 5, 6, 7:
			v.recv(i, j)
		case 8:
			for b := rapid.IntRange(1, burst).Draw(v.rt, "burst"); b > 0; b-- {
				v.send(i, j)
			}
		case 9:
			for len(v.queue[[2]int{i, j}]) > 0 {
				v.recv(i, j)
			}
		}
	}
}

func val(int) msgkit.Backend { return msgkit.NewValStore() }

const rule = "generated key batch size, session size, user order and schedule of sends, receives, bursts and drains with in-order delivery per direction; contents of 0..41691 bytes, signed or not; non-trivial: the schedule changes sender at least twice and at least three messages arrive"

func TestConversation(t *testing.T) {
	vt.Check(t, rule, 600, 20000, func(rt *rapid.T, c *vt.Case) {
		v := newConv(rt, c, 2, val)
		v.steps(60, 12)
		v.finish("two users")
	})
}

func TestThreeUsers(t *testing.T) {
	vt.Check(t, rule, 300, 8000, func(rt *rapid.T, c *vt.Case) {
		v := newConv(rt, c, 3, val)
		v.steps(90, 8)
		v.finish("three users")
	})
}

// TestLongRuns lets one side send many messages in one session, answered
// rarely.
func TestLongRuns(t *testing.T) {
	vt.Check(t, rule+" (few turns, each of up to 900 messages; also non-trivial: a run of at least 300)", 12, 150, func(rt *rapid.T, c *vt.Case) {
		v := newConv(rt, c, 2, val)
		v.nk = uint64(rapid.SampledFrom([]int{1, 7, 50, 50}).Draw(rt, "keys"))
		v.avg = uint64(rapid.SampledFrom([]int{50, 1000000}).Draw(rt, "avg"))
		for turn := rapid.IntRange(2, 4).Draw(rt, "turns"); turn > 0; turn-- {
			i := rapid.IntRange(0, 1).Draw(rt, "who")
			n := rapid.IntRange(1, 100).Draw(rt, "short")
			if rapid.Bool().Draw(rt, "long") {
				n = 300 + rapid.IntRange(0, 600).Draw(rt, "run")
			}
			if n >= 300 {
				c.NonTrivial(v.nk, v.avg, n, turn)
			}
			lag := rapid.IntRange(0, 60).Draw(rt, "lag")
			for k := 0; k < n; k++ {
				v.send(i, 1-i)
				if len(v.queue[[2]int{i, 1 - i}]) > lag {
					v.recv(i, 1-i)
				}
			}
			v.c.Label("run of %d00s messages", n/100)
			v.drain()
		}
		v.finish("long runs")
	})
}

// TestDatabase keeps the state of both users in real key databases that are
// closed and reopened in between.
func TestDatabase(t *testing.T) {
	vt.Check(t, rule+"; state in key databases, reopened at generated points", 12, 300, func(rt *rapid.T, c *vt.Case) {
		dir := vt.TempDir()
		defer os.RemoveAll(dir)
		var stores []msgkit.Backend
		v := newConv(rt, c, 2, func(i int) msgkit.Backend {
			s := msgkit.NewDBStore(dir, fmt.Sprint("u", i))
			stores = append(stores, s)
			return s
		})
		defer func() {
			for _, s := range stores {
				s.Close()
			}
		}()
		v.nk = uint64(rapid.SampledFrom([]int{2, 5, 50}).Draw(rt, "keys"))
		parts := rapid.IntRange(1, 3).Draw(rt, "parts")
		for p := 0; p < parts; p++ {
			v.steps(12, 70)
			if rapid.Bool().Draw(rt, "reopen") {
				i := rapid.IntRange(0, 1).Draw(rt, "whose")
				stores[i].Reopen()
				v.run = append(v.run, fmt.Sprintf("O%d", i))
			}
		}
		v.finish("databases")
	})
}

// TestTooLong: content beyond the maximum is refused and costs no message.
func TestTooLong(t *testing.T) {
	vt.Check(t, "messages of MaxContentLength+1..+5000 bytes between genuine ones of 0..MaxContentLength; non-trivial: every case", 60, 1500, func(rt *rapid.T, c *vt.Case) {
		v := newConv(rt, c, 2, val)
		v.steps(8, 3)
		i := rapid.IntRange(0, 1).Draw(rt, "who")
		n := msg.MaxContentLength + rapid.IntRange(1, 5000).Draw(rt, "over")
		_, _, err := v.users[i].Encrypt(v.users[1-i].UID, vt.Expand(n, 1, 0), msgkit.Params{NumOfKeys: v.nk, AvgSession: v.avg, Nym: "n"})
		if err == nil {
			rt.Fatalf("content of %d bytes accepted", n)
		}
		v.run = append(v.run, "L")
		v.steps(8, 3)
		v.drain()
		c.NonTrivial(n, strings.Join(v.run, " "))
		c.Sample("%d bytes refused in %v", n, v.run)
	})
}
