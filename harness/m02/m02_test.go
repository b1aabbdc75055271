// Package m02 decides property M02: altered, replayed or misdirected messages
// are never accepted, and rejecting them costs nothing.
package m02

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"verif/msgkit"
	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	"golang.org/x/crypto/nacl/box"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

type sent struct {
	raw     []byte
	content []byte
	sign    bool
}

type conv struct {
	rt    *rapid.T
	users []*msgkit.User // alice, bob, carol (carol never takes part)
	queue [2][]sent
	old   [2][]sent // received, by direction
	nk    uint64
	avg   uint64
	run   []string
}

func newConv(rt *rapid.T) *conv {
	v := &conv{rt: rt}
	v.nk = uint64(rapid.SampledFrom([]int{1, 2, 3, 50}).Draw(rt, "numOfKeys"))
	v.avg = uint64(rapid.SampledFrom([]int{1, 2, 1000}).Draw(rt, "avgSession"))
	names := []string{"alice@mute.berlin", "bob@mute.berlin", "carol@mute.berlin"}
	if rapid.Bool().Draw(rt, "swap") {
		names[0], names[1] = names[1], names[0]
	}
	for _, n := range names {
		v.users = append(v.users, msgkit.NewUser(n, "nym of "+n, msgkit.NewValStore()))
	}
	for i := range v.users {
		for j := range v.users {
			if i != j {
				v.users[i].Knows(v.users[j])
			}
		}
	}
	return v
}

func (v *conv) send(i int) sent {
	txt := vt.Bytes(msg.MaxContentLength, 0, 1, 16, 64, 1000, msg.MaxContentLength).Draw(v.rt, "content")
	sign := rapid.Bool().Draw(v.rt, "sign")
	enc, _, err := v.users[i].Encrypt(v.users[1-i].UID, txt, msgkit.Params{NumOfKeys: v.nk, AvgSession: v.avg, Sign: sign, Nym: "nym"})
	if err != nil {
		v.rt.Fatalf("after %v: encrypt: %v", v.run, err)
	}
	raw, err := base64.Decode(string(enc))
	vt.InfraIf(err)
	m := sent{raw, txt, sign}
	v.queue[i] = append(v.queue[i], m)
	v.run = append(v.run, fmt.Sprintf("S%d", i))
	return m
}

func (v *conv) recv(i int) {
	if len(v.queue[i]) == 0 {
		return
	}
	m := v.queue[i][0]
	v.queue[i] = v.queue[i][1:]
	v.run = append(v.run, fmt.Sprintf("R%d", i))
	got, sender, sig, err := v.decrypt(1-i, m.raw, v.users[1-i].UID)
	if err != nil {
		v.rt.Fatalf("after %v: genuine message no longer decrypts: %v", v.run, err)
	}
	if !bytes.Equal(got, m.content) || sender != v.users[i].Name || (sig != "") != m.sign {
		v.rt.Fatalf("after %v: genuine message decrypts to something else", v.run)
	}
	v.old[i] = append(v.old[i], m)
}

// decrypt is Decrypt at user j that must not panic.
func (v *conv) decrypt(j int, raw []byte, ids ...*uid.Message) (got []byte, sender, sig string, err error) {
	if p := vt.Try(func() { got, sender, sig, err = msgkit.DecryptRaw(v.users[j].Store, raw, v.nk, ids) }); p != "" {
		v.rt.Fatalf("after %v: decryption crashes: %s", v.run, p)
	}
	return
}

func (v *conv) steps(max int) {
	for n := rapid.IntRange(0, max).Draw(v.rt, "steps"); n > 0; n-- {
		i := rapid.IntRange(0, 1).Draw(v.rt, "who")
		if rapid.IntRange(0, 4).Draw(v.rt, "what") < 2 {
			v.send(i)
		} else {
			v.recv(i)
		}
	}
}

func (v *conv) drain() {
	for len(v.queue[0])+len(v.queue[1]) > 0 {
		v.recv(0)
		v.recv(1)
	}
}

// bounds returns the offsets of the outer packets.
func bounds(raw []byte) (b []int) {
	for p := 0; p+7 <= len(raw); {
		b = append(b, p)
		p += 7 + int(binary.BigEndian.Uint16(raw[p+1:]))
	}
	return append(b, len(raw))
}

// attack makes an altered version of raw; other is another genuine message.
func attack(rt *rapid.T, raw, other []byte) ([]byte, string) {
	b := bounds(raw)
	k := rapid.IntRange(0, len(b)-2).Draw(rt, "packet")
	lo, hi := b[k], b[k+1]
	set := func(at int, v byte) []byte {
		out := append([]byte{}, raw...)
		out[at] = v
		return out
	}
	switch rapid.IntRange(0, 10).Draw(rt, "attack") {
	case 10: // HMAC cut short or replaced, with or without another change
		out := append([]byte{}, raw...)
		did := ""
		if rapid.IntRange(0, 3).Draw(rt, "and content") > 0 && len(b) >= 6 {
			// encrypted data: a change of the first content bytes keeps it readable
			at := b[3] + 7 + rapid.IntRange(9, 60).Draw(rt, "at")
			if at < b[len(b)-2] {
				out[at] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
				did = " and a content byte changed"
			}
		}
		at := b[len(b)-2]
		n := rapid.SampledFrom([]int{0, 0, 1, 2, 16, 32, 63, 64, 65, 128}).Draw(rt, "hmac length")
		mac := append([]byte{}, raw[at+7:]...)
		switch rapid.IntRange(0, 2).Draw(rt, "hmac content") {
		case 1:
			for i := range mac {
				mac[i] = 0
			}
		case 2:
			if other != nil {
				ob := bounds(other)
				mac = append([]byte{}, other[ob[len(ob)-2]+7:]...)
			}
		}
		for len(mac) < n {
			mac = append(mac, 0)
		}
		out = append(out[:at+7], mac[:n]...)
		binary.BigEndian.PutUint16(out[at+1:], uint16(n))
		return out, fmt.Sprintf("HMAC of %d bytes%s", n, did)
	case 0: // anywhere
		return vt.Mutation(rt, raw, "m")
	case 1: // packet header field
		at := lo + rapid.IntRange(0, 6).Draw(rt, "at")
		return set(at, raw[at]^byte(rapid.IntRange(1, 255).Draw(rt, "xor"))), fmt.Sprintf("packet %d header byte %d", k, at-lo)
	case 2: // first or last content bytes of a packet
		n := rapid.IntRange(0, 40).Draw(rt, "at")
		at := lo + 7 + n
		if rapid.Bool().Draw(rt, "end") {
			at = hi - 1 - n
		}
		if at < 0 || at >= len(raw) {
			at = lo
		}
		bit := rapid.IntRange(0, 7).Draw(rt, "bit")
		return set(at, raw[at]^1<<uint(bit)), fmt.Sprintf("packet %d bit %d of byte %d of %d", k, bit, at-lo, hi-lo)
	case 3: // remove a packet
		return append(append([]byte{}, raw[:lo]...), raw[hi:]...), fmt.Sprintf("packet %d removed", k)
	case 4: // duplicate a packet
		return append(append([]byte{}, raw[:hi]...), raw[lo:]...), fmt.Sprintf("packet %d doubled", k)
	case 5: // packet taken from another message
		if other == nil {
			return vt.Mutation(rt, raw, "m")
		}
		ob := bounds(other)
		return append(append(append([]byte{}, raw[:lo]...), other[ob[k]:ob[k+1]]...), raw[hi:]...), fmt.Sprintf("packet %d of another message", k)
	case 6: // head of one, tail of another message
		if other == nil || k == 0 {
			return vt.Mutation(rt, raw, "m")
		}
		ob := bounds(other)
		return append(append([]byte{}, raw[:lo]...), other[ob[k]:]...), fmt.Sprintf("packets %d.. of another message", k)
	case 7: // a few bytes at once
		out := append([]byte{}, raw...)
		n := rapid.IntRange(2, 8).Draw(rt, "n")
		for x := 0; x < n; x++ {
			out[rapid.IntRange(0, len(raw)-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
		}
		return out, fmt.Sprintf("%d bytes", n)
	case 8: // cut at a packet boundary or inside a packet header
		n := lo + rapid.IntRange(0, 7).Draw(rt, "cut")
		return append([]byte{}, raw[:n]...), fmt.Sprintf("cut to %d bytes", n)
	default: // packet length changed and content cut or filled to match
		d := rapid.IntRange(1, 20).Draw(rt, "delta")
		if rapid.Bool().Draw(rt, "shorter") && hi-lo-7 >= d {
			out := append(append([]byte{}, raw[:hi-d]...), raw[hi:]...)
			binary.BigEndian.PutUint16(out[lo+1:], uint16(hi-lo-7-d))
			return out, fmt.Sprintf("packet %d shortened by %d", k, d)
		}
		out := append(append(append([]byte{}, raw[:hi]...), make([]byte, d)...), raw[hi:]...)
		binary.BigEndian.PutUint16(out[lo+1:], uint16(hi-lo-7+d))
		return out, fmt.Sprintf("packet %d extended by %d", k, d)
	}
}

// TestAltered alters genuine messages anywhere in a conversation.
func TestAltered(t *testing.T) {
	vt.Check(t, "conversation of up to 14 steps, then 1..6 altered versions (bit flips, packet surgery, splices, cuts) of the next undelivered message are offered before it, with normal traffic in between; non-trivial: at least one alteration was rejected and the genuine message accepted after it",
		700, 25000, func(rt *rapid.T, c *vt.Case) {
			v := newConv(rt)
			var did []string
			for round := rapid.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
				v.steps(8)
				i := rapid.IntRange(0, 1).Draw(rt, "dir")
				if len(v.queue[i]) == 0 {
					v.send(i)
				}
				m := v.queue[i][0]
				var other []byte
				all := append(append([]sent{}, v.old[i]...), v.queue[i][1:]...)
				all = append(all, append(append([]sent{}, v.old[1-i]...), v.queue[1-i]...)...)
				if len(all) > 0 {
					other = all[rapid.IntRange(0, len(all)-1).Draw(rt, "other")].raw
				}
				accepted := false
				for n := rapid.IntRange(1, 3).Draw(rt, "attacks"); n > 0 && !accepted; n-- {
					bad, desc := attack(rt, m.raw, other)
					if bytes.Equal(bad, m.raw) {
						continue
					}
					v.run = append(v.run, fmt.Sprintf("A%d(%s)", i, desc))
					got, sender, sig, err := v.decrypt(1-i, bad, v.users[1-i].UID)
					c.Label("accepted=%v", err == nil)
					if err == nil {
						// only bytes that are no part of the message differ
						if !bytes.Equal(got, m.content) || sender != v.users[i].Name || (sig != "") != m.sign {
							rt.Fatalf("after %v: accepted %d bytes from %q instead of %d bytes from %q (signature %q)", v.run, len(got), sender, len(m.content), v.users[i].Name, sig)
						}
						accepted = true // equals delivery of the genuine one
						v.queue[i] = v.queue[i][1:]
						v.old[i] = append(v.old[i], m)
						continue
					}
					did = append(did, desc)
				}
				if !accepted {
					v.recv(i)
				}
			}
			v.steps(6)
			v.drain()
			if len(did) > 0 {
				c.NonTrivial(strings.Join(v.run, " "))
				c.Sample("%v", v.run)
			}
		})
}

// TestReplayed offers every received message again, at the recipient, at the
// sender, and at others.
func TestReplayed(t *testing.T) {
	vt.Check(t, "conversation of up to 20 steps in which received messages are offered again to the recipient, and undelivered ones to their sender, to a third user, and to the recipient under another identity; non-trivial: at least one such offer",
		250, 8000, func(rt *rapid.T, c *vt.Case) {
			v := newConv(rt)
			offers := 0
			for round := rapid.IntRange(1, 5).Draw(rt, "rounds"); round > 0; round-- {
				v.steps(8)
				i := rapid.IntRange(0, 1).Draw(rt, "dir")
				var m sent
				var j int
				var ids []*uid.Message
				kind := rapid.IntRange(0, 3).Draw(rt, "kind")
				if kind == 0 { // replay
					if len(v.old[i]) == 0 {
						continue
					}
					m = v.old[i][rapid.IntRange(0, len(v.old[i])-1).Draw(rt, "old")]
					j, ids = 1-i, []*uid.Message{v.users[1-i].UID}
				} else {
					all := append(append([]sent{}, v.old[i]...), v.queue[i]...)
					if len(all) == 0 {
						continue
					}
					m = all[rapid.IntRange(0, len(all)-1).Draw(rt, "any")]
					switch kind {
					case 1: // back to sender
						j, ids = i, []*uid.Message{v.users[i].UID}
					case 2: // third user
						j, ids = 2, []*uid.Message{v.users[2].UID}
					case 3: // right store, wrong identity
						j, ids = 1-i, []*uid.Message{v.users[2].UID}
					}
				}
				v.run = append(v.run, fmt.Sprintf("K%d(dir %d)", kind, i))
				got, sender, _, err := v.decrypt(j, m.raw, ids...)
				if err == nil {
					rt.Fatalf("after %v: accepted %d bytes from %q", v.run, len(got), sender)
				}
				offers++
				c.Label("kind %d", kind)
			}
			v.drain()
			// everything received is dead now
			for i := range v.old {
				for _, m := range v.old[i] {
					if _, _, _, err := v.decrypt(1-i, m.raw, v.users[1-i].UID); err == nil {
						rt.Fatalf("after %v: received message accepted again", v.run)
					}
				}
			}
			if offers > 0 {
				c.NonTrivial(strings.Join(v.run, " "))
				c.Sample("%v", v.run)
			}
		})
}

// TestForgedHeader lets a peer, who can make any header, change header fields
// of its own messages: whatever it does, the reported sender is the identity
// of the self-signed user ID the message was authenticated with.
func TestForgedHeader(t *testing.T) {
	vt.Check(t, "a peer re-seals the header of its own genuine message at any point of a conversation with 1..3 fields removed, retyped, replaced by edge values, by values of other headers or by another user's identity and keys; non-trivial: every case; labels count what was accepted",
		500, 20000, func(rt *rapid.T, c *vt.Case) {
			v := newConv(rt)
			v.steps(10)
			i := rapid.IntRange(0, 1).Draw(rt, "dir")
			if len(v.queue[i]) == 0 {
				v.send(i)
			}
			m := v.queue[i][0]
			rcpt := v.users[1-i]
			b := bounds(m.raw)
			hdr, flat := openHeader(m.raw[b[0]:b[1]], m.raw[b[1]:b[2]], rcpt.UID)
			var keys []string
			for k := range hdr {
				keys = append(keys, k)
			}
			sortStrings(keys)
			pool := []interface{}{nil, "", "x", "alice@mute.berlin", 0, 1, -1, 1.5, uint64(1) << 63, "18446744073709551615",
				true, []interface{}{}, map[string]interface{}{}, v.users[2].Name, string(v.users[2].UID.JSON()),
				json.RawMessage("18446744073709551615"), strings.Repeat("A", 88), v.users[2].UID.PubHash(), json.RawMessage(v.users[2].KE.JSON()),
				json.RawMessage(v.users[2].UID.PubKey().JSON()), v.users[2].UID.PubKey().HASH}
			for _, k := range keys {
				pool = append(pool, json.RawMessage(flat[k]))
			}
			var desc []string
			for n := rapid.IntRange(1, 3).Draw(rt, "fields"); n > 0; n-- {
				k := rapid.SampledFrom(keys).Draw(rt, "field")
				var target map[string]interface{}
				if sub, ok := hdr[k].(map[string]interface{}); ok && rapid.IntRange(0, 3).Draw(rt, "deep") > 0 {
					target = sub
					var sk []string
					for x := range sub {
						sk = append(sk, x)
					}
					if len(sk) == 0 {
						continue
					}
					sortStrings(sk)
					k2 := rapid.SampledFrom(sk).Draw(rt, "sub")
					desc = append(desc, k+"."+k2)
					k = k2
				} else {
					target = hdr
					desc = append(desc, k)
				}
				if rapid.IntRange(0, 5).Draw(rt, "del") == 0 {
					delete(target, k)
				} else {
					target[k] = pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "val")]
				}
			}
			bad := seal(hdr, rcpt.UID)
			bad = append(bad, m.raw[b[2]:]...)
			v.run = append(v.run, fmt.Sprintf("F%d%v", i, desc))
			got, sender, sig, err := v.decrypt(1-i, bad, rcpt.UID)
			c.Label("accepted=%v", err == nil)
			if err == nil && (sender != v.users[i].Name || !bytes.Equal(got, m.content) || (sig != "") != m.sign) {
				rt.Fatalf("after %v: forged header accepted: sender %q instead of %q", v.run, sender, v.users[i].Name)
			}
			c.NonTrivial(strings.Join(v.run, " "))
			c.Sample("%v", v.run)
		})
}

// TestForgedSender encrypts under user ID messages that are not what their
// self-signature says, or that are not the sender's.
func TestForgedSender(t *testing.T) {
	vt.Check(t, "a user encrypts under its own user ID with another identity, under another user's user ID with its own keys, or with a damaged signature, then any of the header fields naming the sender (identity, identity key, key hash, user ID message) is replaced by the other user's genuine one; or it signs with a key that is not its own; non-trivial: every case",
		400, 8000, func(rt *rapid.T, c *vt.Case) {
			v := newConv(rt)
			if rapid.Bool().Draw(rt, "established") {
				v.send(1)
				v.recv(1)
				v.send(0)
				v.recv(0)
			}
			alice, bob, carol := v.users[0], v.users[1], v.users[2]
			kind := rapid.IntRange(0, 4).Draw(rt, "kind")
			forged := *carol.UID
			switch kind {
			case 0:
				forged.UIDContent.IDENTITY = alice.UID.UIDContent.IDENTITY
			case 1:
				forged = *alice.UID
				forged.UIDContent.PUBKEYS = append([]uid.KeyEntry{}, carol.UID.UIDContent.PUBKEYS...)
			case 2:
				forged.SELFSIGNATURE = alice.UID.SELFSIGNATURE
			}
			mallory := *carol
			mallory.UID = &forged
			txt := vt.Bytes(300, 0, 1, 32, 63, 64, 65).Draw(rt, "content")
			signer := ""
			var out bytes.Buffer
			a := &msg.EncryptArgs{Writer: &out, From: mallory.UID, To: bob.UID, NymAddress: "nym",
				SenderLastKeychainHash: hashchain.TestEntry, Reader: bytes.NewReader(txt),
				NumOfKeys: v.nk, AvgSessionSize: uint(v.avg), Rand: cipher.RandReader, KeyStore: mallory.Store}
			sk := rapid.SampledFrom([]string{"", "carol", "bob", "alice"}).Draw(rt, "signer")
			if kind == 4 { // carol's own user ID, signed by somebody else
				sk = rapid.SampledFrom([]string{"bob", "alice", "damaged"}).Draw(rt, "wrong signer")
			}
			switch signer = sk; signer {
			case "carol":
				a.PrivateSigKey = carol.UID.PrivateSigKey64()
			case "bob":
				a.PrivateSigKey = bob.UID.PrivateSigKey64()
			case "alice":
				a.PrivateSigKey = alice.UID.PrivateSigKey64()
			case "damaged":
				k := *carol.UID.PrivateSigKey64()
				k[rapid.IntRange(0, 31).Draw(rt, "key byte")] ^= 1 << uint(rapid.IntRange(3, 5).Draw(rt, "key bit"))
				a.PrivateSigKey = &k
			}
			var err error
			if p := vt.Try(func() { _, err = msg.Encrypt(a) }); p != "" {
				vt.Infra(fmt.Errorf("%s", p))
			}
			if err != nil {
				c.Label("not encrypted")
				return
			}
			raw, err := base64.Decode(out.String())
			vt.InfraIf(err)
			if kind == 4 {
				_, sender, sig, err := v.decrypt(1, raw, bob.UID)
				if err == nil {
					rt.Fatalf("message of %d bytes signed by %s accepted as from %q with signature %q", len(txt), signer, sender, sig)
				}
				c.NonTrivial(kind, signer, len(txt), v.nk, v.avg)
				c.Sample("signed by %s, %d bytes", signer, len(txt))
				return
			}
			b := bounds(raw)
			hdr, flat := openHeader(raw[b[0]:b[1]], raw[b[1]:b[2]], bob.UID)
			var names []string
			for k := range flat {
				names = append(names, k)
			}
			sortStrings(names)
			var did []string
			claim := alice
			if rapid.IntRange(0, 2).Draw(rt, "claim") == 0 {
				claim = carol
			}
			for _, k := range names {
				var val interface{}
				switch k {
				case "SenderIdentity":
					val = claim.UID.UIDContent.IDENTITY
				case "SenderIdentityPub":
					val = json.RawMessage(claim.UID.PubKey().JSON())
				case "SenderIdentityPubHash":
					val = claim.UID.PubKey().HASH
				case "SenderUID":
					val = string(claim.UID.JSON())
				default:
					continue
				}
				if rapid.Bool().Draw(rt, k) {
					hdr[k] = val
					did = append(did, k)
				}
			}
			if len(did) > 0 {
				raw = append(seal(hdr, bob.UID), raw[b[2]:]...)
			}
			_, sender, sig, err := v.decrypt(1, raw, bob.UID)
			c.Label("kind %d accepted=%v", kind, err == nil)
			// carol may speak as carol only
			if err == nil && (sender != carol.Name || sig != "" && signer != "carol") {
				rt.Fatalf("kind %d, fields %v of %q replaced, signed by %q: message accepted as from %q (signature %q)", kind, did, claim.Name, signer, sender, sig)
			}
			c.NonTrivial(kind, did, claim.Name, signer, len(txt), v.nk, v.avg, len(v.run))
			c.Sample("kind %d, %v of %s, signed by %q", kind, did, claim.Name, signer)
		})
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// openHeader decrypts the header of a message with the recipient's key.
func openHeader(pre, enc []byte, rcpt *uid.Message) (map[string]interface{}, map[string]json.RawMessage) {
	var pub [32]byte
	copy(pub[:], pre[len(pre)-32:])
	var nonce [24]byte
	copy(nonce[:], enc[7:])
	jsn, ok := box.Open(nil, enc[7+24+2:], &nonce, &pub, rcpt.PubKey().PrivateKey32())
	if !ok {
		vt.Infra(fmt.Errorf("cannot open header"))
	}
	var h map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(jsn))
	d.UseNumber()
	vt.InfraIf(d.Decode(&h))
	flat := map[string]json.RawMessage{}
	vt.InfraIf(json.Unmarshal(jsn, &flat))
	return h, flat
}

// seal makes a pre-header and a header packet.
func seal(h map[string]interface{}, rcpt *uid.Message) []byte {
	pub, priv, err := box.GenerateKey(rand.Reader)
	vt.InfraIf(err)
	var out bytes.Buffer
	out.WriteByte(1)
	u16 := func(n int) { binary.Write(&out, binary.BigEndian, uint16(n)) }
	cs := msg.DefaultCiphersuite
	u16(2 + 2 + len(cs) + 2 + 32)
	binary.Write(&out, binary.BigEndian, uint32(0))
	u16(msg.Version)
	u16(len(cs))
	out.WriteString(cs)
	u16(32)
	out.Write(pub[:])
	jsn, err := json.Marshal(h)
	vt.InfraIf(err)
	if len(jsn) > 60000 {
		jsn = jsn[:60000]
	}
	var nonce [24]byte
	rand.Read(nonce[:])
	enc := box.Seal(nil, jsn, &nonce, rcpt.PubKey().PublicKey32(), priv)
	out.WriteByte(2)
	u16(24 + 2 + len(enc))
	binary.Write(&out, binary.BigEndian, uint32(1))
	out.Write(nonce[:])
	u16(len(enc))
	out.Write(enc)
	return out.Bytes()
}

var _ = hashchain.TestEntry
var _ = cipher.RandReader
