// Package m04 decides property M04: received messages cannot be decrypted
// again from later state.
package m04

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"verif/msgkit"
	"verif/vt"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/uid"
	"golang.org/x/crypto/nacl/box"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

type sent struct {
	raw     []byte
	content []byte
	n       int
}

// header returns the fields of a message's header that name its session.
func header(raw []byte, rcpt *uid.Message) (tempHash string, next string) {
	var pub [32]byte
	pre := 7 + int(raw[1])<<8 + int(raw[2])
	copy(pub[:], raw[pre-32:pre])
	p := raw[pre:]
	n := 7 + int(p[1])<<8 + int(p[2])
	var nonce [24]byte
	copy(nonce[:], p[7:])
	jsn, ok := box.Open(nil, p[7+24+2:n], &nonce, &pub, rcpt.PubKey().PrivateKey32())
	if !ok {
		vt.Infra(fmt.Errorf("cannot open header"))
	}
	var h struct{ RecipientTempHash string }
	vt.InfraIf(json.Unmarshal(jsn, &h))
	return h.RecipientTempHash, ""
}

func TestForwardSecrecy(t *testing.T) {
	vt.Check(t, "conversation of up to 50 steps in both directions; after every few steps and at the end each received message is offered to copies of both users' current stores, all key material in the stores is compared with the keys used so far, and private session keys of sessions in use must be gone; non-trivial: at least two sessions and five received messages",
		250, 8000, func(rt *rapid.T, c *vt.Case) {
			nk := uint64(rapid.SampledFrom([]int{1, 2, 3, 5, 50}).Draw(rt, "numOfKeys"))
			avg := uint64(rapid.SampledFrom([]int{1, 2, 5, 1000}).Draw(rt, "avgSession"))
			var users []*msgkit.User
			var stores []*msgkit.ValStore
			for _, n := range []string{"alice@mute.berlin", "bob@mute.berlin"} {
				s := msgkit.NewValStore()
				stores = append(stores, s)
				users = append(users, msgkit.NewUser(n, "nym", s))
			}
			users[0].Knows(users[1])
			users[1].Knows(users[0])
			var queue, old [2][]sent
			var run []string
			sessions := map[string]bool{}
			used := [2][2]map[string]string{} // side, 0 recv / 1 send: key -> message
			for i := range used {
				used[i] = [2]map[string]string{{}, {}}
			}
			pulled := func(side, dir int, s *msgkit.ValStore, what string) {
				for _, k := range s.Keys {
					if by, ok := used[side][dir][k]; ok {
						rt.Fatalf("after %v: the key of %s was already used for %s", run, what, by)
					}
					if by, ok := used[side][1-dir][k]; ok {
						rt.Fatalf("after %v: the key of %s was already used in the other direction for %s", run, what, by)
					}
					used[side][dir][k] = what
				}
				if len(s.Keys) != 1 {
					rt.Fatalf("after %v: %d message keys fetched for %s", run, len(s.Keys), what)
				}
				s.Keys = nil
			}
			total := 0
			send := func(i int) {
				txt := vt.Bytes(100, 0, 1).Draw(rt, "content")
				total++
				stores[i].Keys = nil
				enc, _, err := users[i].Encrypt(users[1-i].UID, txt, msgkit.Params{NumOfKeys: nk, AvgSession: avg, Sign: rapid.Bool().Draw(rt, "sign"), Nym: "nym"})
				if err != nil {
					rt.Fatalf("after %v: encrypt: %v", run, err)
				}
				raw, err := base64.Decode(string(enc))
				vt.InfraIf(err)
				run = append(run, fmt.Sprintf("S%d", i))
				pulled(i, 1, stores[i], fmt.Sprintf("message %d sent by %d", total, i))
				queue[i] = append(queue[i], sent{raw, txt, total})
			}
			recv := func(i int) {
				if len(queue[i]) == 0 {
					return
				}
				m := queue[i][0]
				queue[i] = queue[i][1:]
				j := 1 - i
				temp, _ := header(m.raw, users[j].UID)
				sessions[temp] = true
				before := len(stores[j].Sessions)
				known := stores[j].Clone()
				stores[j].Keys = nil
				got, _, _, err := msgkit.DecryptRaw(stores[j], m.raw, nk, []*uid.Message{users[j].UID})
				run = append(run, fmt.Sprintf("R%d", i))
				if err != nil || !bytes.Equal(got, m.content) {
					rt.Fatalf("after %v: decrypt: %v", run, err)
				}
				pulled(j, 0, stores[j], fmt.Sprintf("message %d received by %d", m.n, j))
				// a session that was in use needs no private session key any more
				if k, ok := stores[j].SessionKeys[temp]; ok && k.Priv != "" {
					rt.Fatalf("after %v: private key of the session of message %d still stored", run, m.n)
				}
				_, _ = before, known
				old[i] = append(old[i], m)
			}
			check := func() {
				for side := 0; side < 2; side++ {
					for key, s := range stores[side].Sessions {
						for x, l := range [][]string{s.Recv, s.Send} {
							for n, k := range l {
								if by, ok := used[side][x][k]; ok && k != "" {
									rt.Fatalf("after %v: the key used for %s is still stored in session %.8s at %d", run, by, key, n)
								}
							}
						}
						if s.Chain == "" {
							continue
						}
					}
				}
				for i := range old {
					for _, m := range old[i] {
						for side := 0; side < 2; side++ {
							cl := stores[side].Clone()
							if got, _, _, err := msgkit.DecryptRaw(cl, m.raw, nk, []*uid.Message{users[side].UID}); err == nil {
								rt.Fatalf("after %v: message %d decrypts again (%d bytes) at user %d", run, m.n, len(got), side)
							}
						}
					}
				}
			}
			n := rapid.IntRange(1, 50).Draw(rt, "steps")
			every := rapid.IntRange(3, 20).Draw(rt, "every")
			for s := 0; s < n; s++ {
				i := rapid.IntRange(0, 1).Draw(rt, "who")
				if rapid.Bool().Draw(rt, "send") {
					send(i)
				} else {
					recv(i)
				}
				if s%every == every-1 {
					check()
				}
			}
			for len(queue[0])+len(queue[1]) > 0 {
				recv(0)
				recv(1)
			}
			check()
			c.Label("sessions %d", len(sessions))
			if len(sessions) >= 2 && len(old[0])+len(old[1]) >= 5 {
				c.NonTrivial(nk, avg, strings.Join(run, " "))
			}
			c.Sample("keys %d, session %d: %v", nk, avg, run)
		})
}
