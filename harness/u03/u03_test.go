// Package u03 decides property U03: key server replies bind index, identity
// and user ID together.
package u03

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"testing"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var b64 = base64.StdEncoding

func mk(id string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vt.InfraIf(err)
	return m
}

func ctr(key, iv, in []byte) []byte {
	b, err := aes.NewCipher(key)
	vt.InfraIf(err)
	out := make([]byte, len(in))
	stdcipher.NewCTR(b, iv).XORKeyStream(out, in)
	return out
}

func keys() (*cipher.Ed25519Key, *cipher.Ed25519Key) {
	a, err := cipher.Ed25519Generate(cipher.RandReader)
	vt.InfraIf(err)
	b, err := cipher.Ed25519Generate(cipher.RandReader)
	vt.InfraIf(err)
	return a, b
}

func pk(k *cipher.Ed25519Key) string { return b64.EncodeToString(k.PublicKey()[:]) }

// users: two versions of one identity, another user, and variants that differ
// in a single field.
func users(rt *rapid.T) []*uid.Message {
	a := mk("alice@mute.berlin")
	a2, err := a.Update(cipher.RandReader)
	vt.InfraIf(err)
	a3 := mk("alice@mute.berlin")
	b := mk("bob@mute.berlin")
	var c *uid.Message
	for {
		js, _ := vt.MutateJSON(rt, a.JSON(), "variant", "/UIDContent/NOTAFTER", "/UIDContent/LASTENTRY", "/SELFSIGNATURE", "/USERSIGNATURE", "/LINKAUTHORITY")
		var err error
		c, err = uid.NewJSON(string(js))
		if err == nil && !bytes.Equal(c.JSON(), a.JSON()) {
			break
		}
		c, err = uid.NewJSON(string(a.JSON()))
		vt.InfraIf(err)
		c.UIDContent.NOTAFTER++
		break
	}
	return []*uid.Message{a, a2, a3, b, c}
}

// TestReply: a genuine reply yields its message, under its hash only, and its
// signature holds for its message and server only.
func TestReply(t *testing.T) {
	k1, k2 := keys()
	vt.Check(t, "replies for five related user IDs with generated chain entry and position, opened under every user ID and server key; non-trivial: all cases", 400, 15000, func(rt *rapid.T, c *vt.Case) {
		us := users(rt)
		i := rapid.IntRange(0, len(us)-1).Draw(rt, "user")
		hash, idx, enc := us[i].Encrypt()
		want := sha256.Sum256(us[i].JSON())
		wantIdx := sha256.Sum256(want[:])
		if !bytes.Equal(hash, want[:]) || !bytes.Equal(idx, wantIdx[:]) {
			rt.Fatalf("UIDHash or UIDIndex wrong")
		}
		raw, err := b64.DecodeString(enc)
		if err != nil || len(raw) < 48 || !bytes.Equal(raw[:32], idx) || !bytes.Equal(ctr(hash, raw[32:48], raw[48:]), us[i].JSON()) {
			rt.Fatalf("encrypted message wrong: %v", err)
		}
		if _, _, enc2 := us[i].Encrypt(); enc2 == enc {
			rt.Fatalf("encryption repeated")
		}
		pos := rapid.SampledFrom([]uint64{0, 1, 77, 1 << 40, ^uint64(0)}).Draw(rt, "pos")
		entry := rapid.SampledFrom([]string{hashchain.TestEntry, "", "x<>&"}).Draw(rt, "entry")
		reply := uid.CreateReply(enc, entry, pos, k1)
		if rapid.Bool().Draw(rt, "json") {
			r, err := uid.NewJSONReply(string(reply.JSON()))
			if err != nil || !bytes.Equal(r.JSON(), reply.JSON()) {
				rt.Fatalf("JSON not stable: %v", err)
			}
			reply = r
		}
		if reply.ENTRY.HASHCHAINPOS != pos || reply.ENTRY.HASHCHAINENTRY != entry || reply.ENTRY.UIDMESSAGEENCRYPTED != enc {
			rt.Fatalf("entry changed")
		}
		for j, u := range us {
			h, _, _ := u.Encrypt()
			var gi []byte
			var m *uid.Message
			var err error
			if p := vt.Try(func() { gi, m, err = reply.Decrypt(h) }); p != "" {
				rt.Fatalf("Decrypt: %s", p)
			}
			if (err == nil) != (i == j) {
				rt.Fatalf("reply for %d under hash of %d: %v", i, j, err)
			}
			if err == nil && (!bytes.Equal(gi, idx) || !bytes.Equal(m.JSON(), u.JSON())) {
				rt.Fatalf("decrypted reply differs")
			}
			for _, k := range []*cipher.Ed25519Key{k1, k2} {
				if p := vt.Try(func() { err = reply.VerifySrvSig(u, pk(k)) }); p != "" {
					rt.Fatalf("VerifySrvSig: %s", p)
				}
				if (err == nil) != (i == j && k == k1) {
					rt.Fatalf("reply for %d verified for %d, right key %v: %v", i, j, k == k1, err)
				}
			}
		}
		c.NonTrivial(enc)
		c.Label("user %d", i)
		c.Sample("user %d pos %d entry %.10q", i, pos, entry)
	})
}

// TestMutated: no altered reply, key or user ID is accepted.
func TestMutated(t *testing.T) {
	k1, _ := keys()
	a := mk("alice@mute.berlin")
	vt.Check(t, "1-3 changes of a reply's JSON form, of the server key, or of the raw encrypted user ID (then signed again by the server); non-trivial: still decodes and differs", 8000, 250000, func(rt *rapid.T, c *vt.Case) {
		hash, idx, enc := a.Encrypt()
		reply := uid.CreateReply(enc, hashchain.TestEntry, 7, k1)
		key := pk(k1)
		var r *uid.MessageReply
		var desc string
		resigned := false
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0, 1:
			js, d := vt.MutateJSON(rt, reply.JSON(), "mut", "/")
			var err error
			if r, err = uid.NewJSONReply(string(js)); err != nil {
				c.Label("refused by decoder")
				return
			}
			desc = d
			cp := *r
			x, e1 := b64.DecodeString(r.SERVERSIGNATURE)
			y, _ := b64.DecodeString(reply.SERVERSIGNATURE)
			if e1 == nil && bytes.Equal(x, y) {
				cp.SERVERSIGNATURE = reply.SERVERSIGNATURE
			}
			if bytes.Equal(cp.JSON(), reply.JSON()) {
				c.Label("equivalent")
				return
			}
		case 2: // malicious server: signs what it likes
			raw, _ := b64.DecodeString(enc)
			m, d := vt.Mutation(rt, raw, "raw")
			if rapid.IntRange(0, 3).Draw(rt, "short") == 0 {
				m, d = raw[:rapid.IntRange(0, 50).Draw(rt, "len")], "cut short"
			}
			desc = "signed by the server: " + d
			r = uid.CreateReply(b64.EncodeToString(m), hashchain.TestEntry, 7, k1)
			resigned = true
			if len(m) >= 48 && bytes.Equal(m[:32], idx) {
				if u, err := uid.NewJSON(string(ctr(hash, m[32:48], m[48:]))); err == nil && bytes.Equal(u.JSON(), a.JSON()) {
					c.Label("equivalent")
					return
				}
			}
		case 3:
			r = reply
			var m []byte
			m, desc = vt.Mutation(rt, k1.PublicKey()[:], "key")
			desc = "server key: " + desc
			key = b64.EncodeToString(m)
		}
		var err error
		if p := vt.Try(func() { err = r.VerifySrvSig(a, key) }); p != "" {
			rt.Fatalf("%s: VerifySrvSig %s", desc, p)
		}
		if err == nil {
			rt.Fatalf("%s: accepted", desc)
		}
		var gi []byte
		var m *uid.Message
		if p := vt.Try(func() { gi, m, err = r.Decrypt(hash) }); p != "" {
			rt.Fatalf("%s: Decrypt %s", desc, p)
		}
		if err == nil && resigned && bytes.Equal(gi, idx) && bytes.Equal(m.JSON(), a.JSON()) {
			rt.Fatalf("%s: decrypts to the original", desc)
		}
		c.NonTrivial(desc, r.ENTRY.UIDMESSAGEENCRYPTED)
		c.Label("resigned=%v", resigned)
		c.Sample("%s", desc)
	})
}

// TestExchanged: a server that signs combinations of parts of different user
// IDs is not believed.
func TestExchanged(t *testing.T) {
	k1, _ := keys()
	vt.Check(t, "index, encryption key and user ID of different entries combined and signed by the server; accepted only if all three belong to the user ID asked for; non-trivial: not all from one", 800, 30000, func(rt *rapid.T, c *vt.Case) {
		us := users(rt)
		pick := func(l string) int { return rapid.IntRange(0, len(us)-1).Draw(rt, l) }
		ask, ii, ki, mi := pick("ask"), pick("index"), pick("key"), pick("message")
		if rapid.Bool().Draw(rt, "likely") {
			ki = ask
			ii = ask
		}
		_, idx, _ := us[ii].Encrypt()
		hash, _, _ := us[ki].Encrypt()
		iv := vt.Expand(16, rapid.Uint32().Draw(rt, "iv"), 0)
		plain := us[mi].JSON()
		variant := rapid.IntRange(0, 5).Draw(rt, "variant")
		if variant == 0 {
			plain = append(append([]byte{' '}, plain...), '\n') // same message, other bytes
		}
		enc := append(append(append([]byte{}, idx...), iv...), ctr(hash, iv, plain)...)
		r := uid.CreateReply(b64.EncodeToString(enc), hashchain.TestEntry, 3, k1)
		var err error
		if p := vt.Try(func() { err = r.VerifySrvSig(us[ask], pk(k1)) }); p != "" {
			rt.Fatalf("%s", p)
		}
		want := ii == ask && ki == ask && mi == ask
		if variant == 0 && want {
			return // equivalent message under the same hash: not decided here
		}
		if (err == nil) != want {
			rt.Fatalf("asked for %d, index of %d, key of %d, message of %d: %v", ask, ii, ki, mi, err)
		}
		if !want {
			c.NonTrivial(ask, ii, ki, mi, string(iv))
		}
		c.Label("accepted=%v", want)
		c.Sample("ask %d index %d key %d message %d", ask, ii, ki, mi)
	})
}

// TestGarbage: arbitrary text and arbitrary encrypted content.
func TestGarbage(t *testing.T) {
	k1, _ := keys()
	a := mk("alice@mute.berlin")
	vt.Check(t, "replies whose encrypted user ID is arbitrary bytes or text, or encrypts arbitrary JSON; non-trivial: at least 48 bytes or valid JSON inside", 4000, 100000, func(rt *rapid.T, c *vt.Case) {
		hash, idx, _ := a.Encrypt()
		var s string
		switch rapid.IntRange(0, 2).Draw(rt, "kind") {
		case 0:
			s = rapid.String().Draw(rt, "text")
		case 1:
			b := vt.Bytes(200, 31, 32, 47, 48, 64).Draw(rt, "bytes")
			s = b64.EncodeToString(b)
			if len(b) >= 48 {
				c.NonTrivial(s)
			}
		case 2:
			j := rapid.SampledFrom([]string{"", "{}", "null", "[]", "1", `{"UIDContent":null}`, `{"UIDContent":{"PUBKEYS":[]}}`, `{"UIDContent":{"IDENTITY":3}}`}).Draw(rt, "json")
			iv := make([]byte, 16)
			s = b64.EncodeToString(append(append(append([]byte{}, idx...), iv...), ctr(hash, iv, []byte(j))...))
			c.NonTrivial(s)
		}
		r := uid.CreateReply(s, hashchain.TestEntry, 3, k1)
		var err error
		if p := vt.Try(func() {
			r.Decrypt(hash)
			err = r.VerifySrvSig(a, pk(k1))
		}); p != "" {
			rt.Fatalf("%.200q: %s", s, p)
		}
		if err == nil {
			rt.Fatalf("%.200q accepted", s)
		}
		c.Sample("%.60q", fmt.Sprint(s))
	})
}
