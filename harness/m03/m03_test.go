// Package m03 decides property M03: encrypted messages have one size and never
// repeat.
package m03

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"verif/msgkit"
	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/uid/length"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

const window = 16

// fixed is the constant start of every message.
var fixed = 7 + 2 + 2 + len(msg.DefaultCiphersuite) + 2

func identity(rt *rapid.T, label string) string {
	n := rapid.SampledFrom([]int{3, 4, 10, 40, 64}).Draw(rt, label+"len")
	dom := rapid.SampledFrom([]string{"mute.berlin", "a", "some.longer.domain.example", strings.Repeat("long.", 35) + "example"}).Draw(rt, label+"dom")
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghiklmn23456789"[rapid.IntRange(0, 20).Draw(rt, label+"c")]
	}
	if rapid.Bool().Draw(rt, label+"max") { // longest identity
		dom = strings.Repeat("x", 254-1-n-4) + ".one"
	}
	return string(b) + "@" + dom
}

func nymAddr(rt *rapid.T) string {
	n := rapid.SampledFrom([]int{0, 1, 3, 100, 1000, length.MaxNymAddress - 1, length.MaxNymAddress}).Draw(rt, "nymlen")
	return string(vt.Expand(n, uint32(n), 1))
}

type faulty struct {
	r      io.Reader
	n      int
	once   bool // works again after failing
	failed bool
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.n < len(p) {
		f.failed = true
		n, _ := f.r.Read(p[:f.n])
		f.n = 0
		if f.once {
			f.n = 1 << 30
		}
		return n, fmt.Errorf("random source failed")
	}
	f.n -= len(p)
	return f.r.Read(p)
}

func mk(rt *rapid.T) []*msgkit.User {
	var users []*msgkit.User
	for i := 0; i < 2; i++ {
		var m *uid.Message
		for {
			var err error
			m, err = uid.Create(identity(rt, fmt.Sprint("id", i)), false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
			vt.InfraIf(err)
			if i == 0 || m.Identity() != users[0].Name {
				break
			}
		}
		users = append(users, msgkit.NewUserUID(m, "nym", msgkit.NewValStore()))
	}
	users[0].Knows(users[1])
	users[1].Knows(users[0])
	return users
}

func TestSizeAndFreshness(t *testing.T) {
	vt.Check(t, "2..8 messages at generated positions of a conversation between generated identities; contents of 0..41691 bytes that repeat earlier ones half of the time, message counters moved ahead as in an old conversation, reply addresses of 0..1568 bytes; every 16-byte window after the fixed framing is compared with (every eighth window of) all earlier messages; non-trivial: at least one content was encrypted twice",
		250, 6000, func(rt *rapid.T, c *vt.Case) {
			users := mk(rt)
			nk := uint64(rapid.SampledFrom([]int{1, 2, 50}).Draw(rt, "keys"))
			avg := uint64(rapid.SampledFrom([]int{1, 3, 1000}).Draw(rt, "avg"))
			seen := map[string]int{}
			var contents [][]byte
			var queue [2][][]byte
			repeated := false
			var run []string
			n := rapid.IntRange(2, 8).Draw(rt, "msgs")
			for k := 0; k < n; k++ {
				var txt []byte
				rep := ""
				if len(contents) > 0 && rapid.Bool().Draw(rt, "again") {
					txt = contents[rapid.IntRange(0, len(contents)-1).Draw(rt, "which")]
					repeated = true
					rep = " repeated"
				} else {
					txt = vt.Bytes(msg.MaxContentLength, 0, 1, 16, 64, 1000, msg.MaxContentLength-76, msg.MaxContentLength).Draw(rt, "content")
				}
				contents = append(contents, txt)
				i := rapid.IntRange(0, 1).Draw(rt, "who")
				p := msgkit.Params{NumOfKeys: nk, AvgSession: avg, Sign: rapid.Bool().Draw(rt, "sign"), Nym: nymAddr(rt),
					Status: rapid.SampledFrom([]int{0, 0, 0, 0, msg.StatusError, msg.StatusReset}).Draw(rt, "status")}
				run = append(run, fmt.Sprintf("%d:%d bytes%s, sign %v, nym %d, status %d", i, len(txt), rep, p.Sign, len(p.Nym), p.Status))
				if p.Status == msg.StatusError {
					if _, ok := first(users[i].Store.(*msgkit.ValStore).States); !ok {
						p.Status = 0
					}
				}
				// any age of the conversation
				if st := users[i].Store.(*msgkit.ValStore); len(st.States) > 0 && rapid.IntRange(0, 2).Draw(rt, "age") == 0 {
					for _, key := range sorted(st.States) {
						ss, err := st.GetSessionState(key)
						vt.InfraIf(err)
						ss.SenderSessionCount = rapid.SampledFrom([]uint64{0, 9, 10, 99, 100, 12345, 1 << 40, 1 << 63, 1<<64 - 1}).Draw(rt, "session count")
						// stay within the first batch of message keys
						if add := uint64(rapid.SampledFrom([]int{0, 1, 8, 9, 10, 40, 49}).Draw(rt, "message count")); ss.SenderMessageCount+add <= nk {
							ss.SenderMessageCount += add
						}
						vt.InfraIf(st.SetSessionState(key, ss))
						run = append(run, fmt.Sprintf("counts %d, %d", ss.SenderSessionCount, ss.SenderMessageCount))
					}
				}
				enc, _, err := users[i].Encrypt(users[1-i].UID, txt, p)
				if err != nil {
					rt.Fatalf("%v: encrypt: %v", run, err)
				}
				if len(enc) != msg.EncodedMsgSize {
					rt.Fatalf("%v: message of %d instead of %d bytes", run, len(enc), msg.EncodedMsgSize)
				}
				raw, err := base64.Decode(string(enc))
				if err != nil {
					rt.Fatalf("%v: message is not base64: %v", run, err)
				}
				for o := fixed; o+window <= len(raw); o++ {
					w := string(raw[o : o+window])
					if at, ok := seen[w]; ok {
						rt.Fatalf("%v: message %d repeats 16 bytes of an earlier message at offset %d (there %d)", run, k, o, at)
					}
				}
				for o := fixed; o+window <= len(raw); o += 8 {
					seen[string(raw[o:o+window])] = o
				}
				if len(txt) >= window && bytes.Contains(raw, txt[:window]) || bytes.Contains(raw, txt) && len(txt) > 8 {
					rt.Fatalf("%v: content visible in message", run)
				}
				for _, u := range users {
					if len(u.Name) > 6 && (bytes.Contains(raw, []byte(u.Name)) || bytes.Contains(raw, []byte(u.UID.PubHash()))) {
						rt.Fatalf("%v: identity or key hash visible in message", run)
					}
				}
				if p.Status == 0 {
					queue[i] = append(queue[i], raw)
				}
				if p.Status == msg.StatusReset {
					queue[i] = nil
				}
				if rapid.Bool().Draw(rt, "deliver") && len(queue[i]) > 0 {
					msgkit.DecryptRaw(users[1-i].Store, queue[i][0], nk, []*uid.Message{users[1-i].UID})
					queue[i] = queue[i][1:]
				}
			}
			if repeated {
				c.NonTrivial(strings.Join(run, ";"), users[0].Name, users[1].Name, nk, avg)
			}
			c.Sample("%s and %s: %v", users[0].Name, users[1].Name, run)
		})
}

func sorted(m map[string]string) (keys []string) {
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return
}

func first(m map[string]string) (string, bool) {
	for k := range m {
		return k, true
	}
	return "", false
}

func TestTooLong(t *testing.T) {
	vt.Check(t, "contents of MaxContentLength+1..+70000 bytes, signed or not, at the start or within a conversation; non-trivial: every case",
		150, 3000, func(rt *rapid.T, c *vt.Case) {
			users := mk(rt)
			p := msgkit.Params{NumOfKeys: 2, AvgSession: 2, Sign: rapid.Bool().Draw(rt, "sign"), Nym: nymAddr(rt)}
			est := rapid.Bool().Draw(rt, "established")
			if est {
				enc, _, err := users[0].Encrypt(users[1].UID, []byte("hello"), p)
				vt.InfraIf(err)
				if _, _, _, err := users[1].Decrypt(enc, 2); err != nil {
					rt.Fatalf("decrypt: %v", err)
				}
			}
			n := msg.MaxContentLength + rapid.SampledFrom([]int{1, 2, 5, 10, 64, 76, 81, 1000, 65535 - msg.MaxContentLength, 65536 - msg.MaxContentLength, 65537 - msg.MaxContentLength, 70000}).Draw(rt, "over")
			i := rapid.IntRange(0, 1).Draw(rt, "who")
			enc, _, err := users[i].Encrypt(users[1-i].UID, vt.Expand(n, 7, 0), p)
			if err == nil {
				rt.Fatalf("content of %d bytes encrypted without error (sign %v)", n, p.Sign)
			}
			if len(enc) != 0 {
				rt.Fatalf("content of %d bytes refused after writing %d bytes", n, len(enc))
			}
			c.NonTrivial(n, p.Sign, est, i, len(p.Nym))
			c.Sample("%d bytes, sign %v, established %v", n, p.Sign, est)
		})
}

// TestRandomFailure: a failing random source never leads to a message.
func TestRandomFailure(t *testing.T) {
	vt.Check(t, "both random sources of an encryption fail, for good or once, after a generated number of bytes, at the start or within a conversation; non-trivial: a source failed during the call",
		250, 6000, func(rt *rapid.T, c *vt.Case) {
			users := mk(rt)
			p := msgkit.Params{NumOfKeys: 2, AvgSession: 2, Sign: rapid.Bool().Draw(rt, "sign"), Nym: nymAddr(rt)}
			est := rapid.IntRange(0, 3).Draw(rt, "established")
			for k := 0; k < est; k++ {
				i := k % 2
				enc, _, err := users[i].Encrypt(users[1-i].UID, []byte("hello"), p)
				vt.InfraIf(err)
				if _, _, _, err := users[1-i].Decrypt(enc, 2); err != nil {
					rt.Fatalf("decrypt: %v", err)
				}
			}
			txt := vt.Bytes(2000, 0, 1, 16).Draw(rt, "content")
			small := rapid.SampledFrom([]int{0, 1, 15, 16, 23, 24, 31, 32, 33, 40, 63, 64, 100}).Draw(rt, "small")
			if rapid.Bool().Draw(rt, "anywhere") {
				small = vt.Uniform(rt, 140, "small any")
			}
			big := rapid.SampledFrom([]int{0, 16, 31, 32, 33, 100, 500, 1000, 2000, 4000, 20000, 39000, 43000, 45000}).Draw(rt, "big")
			f1 := &faulty{r: cipher.RandReader, n: 1 << 30}
			f2 := &faulty{r: cipher.RandReader, n: 1 << 30}
			f1.once = rapid.Bool().Draw(rt, "once")
			f2.once = f1.once
			if rapid.Bool().Draw(rt, "which") {
				f1.n = small
			} else {
				f2.n = big
			}
			old := cipher.RandReader
			cipher.RandReader = f2
			var out bytes.Buffer
			a := &msg.EncryptArgs{Writer: &out, From: users[0].UID, To: users[1].UID, NymAddress: p.Nym,
				SenderLastKeychainHash: hashchain.TestEntry, Reader: bytes.NewReader(txt), NumOfKeys: 2, AvgSessionSize: 2,
				Rand: f1, KeyStore: users[0].Store}
			if p.Sign {
				a.PrivateSigKey = users[0].UID.PrivateSigKey64()
			}
			var err error
			pan := vt.Try(func() { _, err = msg.Encrypt(a) })
			cipher.RandReader = old
			if pan != "" {
				rt.Fatal(pan)
			}
			failed := f1.failed || f2.failed
			if failed && (err == nil || out.Len() > 0) {
				rt.Fatalf("random source failed (after %d or %d bytes), but a message of %d bytes was made (err %v)", small, big, out.Len(), err)
			}
			if !failed && err != nil {
				rt.Fatalf("encrypt: %v", err)
			}
			if err == nil && out.Len() != msg.EncodedMsgSize {
				rt.Fatalf("message of %d bytes", out.Len())
			}
			c.Label("failed=%v", failed)
			if failed {
				c.NonTrivial(small, big, f1.once, f1.failed, p.Sign, est, len(txt), len(p.Nym))
			}
			c.Sample("established %d, sign %v, args.Rand fails %v, RandReader fails %v: err %v", est, p.Sign, f1.failed, f2.failed, err)
		})
}
