// Package x02 decides property X02: mix messages and nym addresses cannot be
// altered, redirected or misused.
package x02

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"verif/mixkit"
	"verif/vt"

	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/util/times"
	"github.com/ronperry/cryptoedge/lioness"
	"golang.org/x/crypto/curve25519"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

type world struct {
	a, b    *mixkit.Mix
	tmp     nymaddr.AddressTemplate
	mailbox []byte
	nym     []byte
	addr    []byte
	msg     []byte
	env     []byte
	hdr     *mixcrypt.ClientMixHeader
	rs      *mixcrypt.ReceiveStruct
	mail    []byte
}

func mk(rt *rapid.T) *world {
	w := &world{a: mixkit.NewMix("mix@a.mute.one", vt.TempDir(), 1000, 2000), b: mixkit.NewMix("mix@b.mute.one", vt.TempDir(), 1000)}
	w.tmp = mixkit.Template(rt, mixkit.Candidates(w.a), 50, 500)
	w.mailbox = []byte(fmt.Sprintf("%x@accounts.", vt.Expand(32, rapid.Uint32().Draw(rt, "mb"), 0)))
	w.nym = vt.Expand(32, rapid.Uint32().Draw(rt, "nym"), 0)
	var err error
	w.addr, err = w.tmp.NewAddress(w.mailbox, w.nym)
	vt.InfraIf(err)
	w.msg = vt.Expand(rapid.IntRange(4096, 5000).Draw(rt, "len"), rapid.Uint32().Draw(rt, "msg"), 0)
	w.hdr = &mixcrypt.ClientMixHeader{SenderMinDelay: 3, SenderMaxDelay: 9, Token: vt.Expand(100, 5, 0)}
	w.env, _, err = w.hdr.NewRelayMessage(w.addr, w.msg)
	vt.InfraIf(err)
	w.rs, err = mixkit.Receive(w.a.KL.GetPrivateKey, w.env)
	vt.InfraIf(err)
	w.mail, _, err = w.rs.Send()
	vt.InfraIf(err)
	return w
}

// same reports whether a mix learns from rs what was sent in w.
func (w *world) same(rs *mixcrypt.ReceiveStruct) bool {
	h, p, q := rs.MixHeader, rs.NymAddressPrivate, w.rs.NymAddressPrivate
	return h.MessageType == mixcrypt.MessageTypeRelay && h.SenderMinDelay == 3 && h.SenderMaxDelay == 9 && bytes.Equal(h.Token, w.hdr.Token) &&
		bytes.Equal(h.Address, w.addr) && bytes.Equal(h.RevokeID, w.hdr.RevokeID) && bytes.Equal(rs.Message, w.msg) && privEq(p, q)
}

func privEq(p, q *nymaddr.AddressPrivate) bool {
	return p != nil && p.System == q.System && bytes.Equal(p.Address, q.Address) && p.Expire == q.Expire && p.SingleUse == q.SingleUse &&
		p.MinDelay == q.MinDelay && p.MaxDelay == q.MaxDelay && bytes.Equal(p.Nonce, q.Nonce) && bytes.Equal(p.ReceiverPubKey, q.ReceiverPubKey) &&
		bytes.Equal(p.EncNym, q.EncNym) && bytes.Equal(p.HMACHead, q.HMACHead)
}

func noPanic(rt *rapid.T, what string, f func()) {
	if p := vt.Try(f); p != "" {
		rt.Fatalf("%s crashes: %s", what, p)
	}
}

// TestEnvelope: changed envelopes given to the mix.
func TestEnvelope(t *testing.T) {
	vt.Check(t, "a changed envelope was refused by the mix (or differed only in the ignored bit of a public key)", 1500, 30000, func(rt *rapid.T, c *vt.Case) {
		w := mk(rt)
		if _, err := mixkit.Receive(w.b.KL.GetPrivateKey, w.env); err == nil {
			rt.Fatal("opened by another mix")
		}
		// splices with another message to the same address
		other, _, err := w.hdr.NewRelayMessage(w.addr, append([]byte("x"), w.msg[1:]...))
		vt.InfraIf(err)
		w.hdr.RevokeID = w.rs.MixHeader.RevokeID
		for i := 0; i < 12; i++ {
			var m []byte
			var desc string
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0: // header part
				n, d := vt.Mutation(rt, w.env[:96], "head")
				m, desc = append(append([]byte{}, n...), w.env[96:]...), "head "+d
			case 1:
				cut := rapid.SampledFrom([]int{32, 64, 96, 100, 500, len(w.env) - 16, len(w.env) - 1}).Draw(rt, "cut")
				m, desc = append(append([]byte{}, w.env[:cut]...), other[cut:]...), fmt.Sprintf("splice at %d", cut)
			default:
				m, desc = vt.Mutation(rt, w.env, "env")
			}
			if bytes.Equal(m, w.env) || bytes.Equal(m, other) {
				continue
			}
			c.Eval(1)
			var rs *mixcrypt.ReceiveStruct
			noPanic(rt, desc, func() { rs, err = mixkit.Receive(w.a.KL.GetPrivateKey, m) })
			if err != nil {
				c.Label("refused")
				c.NonTrivial(desc)
				continue
			}
			if !w.same(rs) || !bytes.Equal(rs.UniqueTest[0].Hash, w.rs.UniqueTest[0].Hash) {
				rt.Fatalf("%s: accepted with other content", desc)
			}
			c.Label("same content")
			x := append([]byte{}, m...)
			x[63] ^= 0x80
			if !bytes.Equal(x, w.env) {
				rt.Fatalf("%s: altered message accepted", desc)
			}
		}
		if rs, err := mixkit.Receive(w.a.KL.GetPrivateKey, w.env); err != nil || !w.same(rs) {
			rt.Fatal("genuine message refused")
		}
	})
}

// TestAddress: changed nym addresses in otherwise well-formed messages.
func TestAddress(t *testing.T) {
	vt.Check(t, "a changed nym address was refused, or led to the very same delivery", 1500, 30000, func(rt *rapid.T, c *vt.Case) {
		w := mk(rt)
		var pub nymaddr.Address
		_, err := asn1.Unmarshal(w.addr, &pub)
		vt.InfraIf(err)
		other, err := w.tmp.NewAddress([]byte("other"), w.nym)
		vt.InfraIf(err)
		var opub nymaddr.Address
		_, err = asn1.Unmarshal(other, &opub)
		vt.InfraIf(err)
		for i := 0; i < 8; i++ {
			p := pub
			var m []byte
			var desc string
			switch rapid.IntRange(0, 9).Draw(rt, "field") {
			case 0:
				p.MixAddress, desc = []byte("mix@evil.example"), "mix address"
			case 1:
				p.Expire, desc = times.Now()+rapid.SampledFrom([]int64{-100, -10, 10, 1 << 40}).Draw(rt, "expire"), "expire"
			case 2:
				p.SingleUse, desc = !p.SingleUse, "single use"
			case 3:
				p.TokenPubKey, desc = opub.AddressKey, "token key"
			case 4:
				k := w.b.KL.GetStatement().Addresses[0].Pubkey
				if rapid.Bool().Draw(rt, "own") {
					k = w.a.KL.GetStatement().Addresses[rapid.IntRange(0, 1).Draw(rt, "k")].Pubkey
				}
				p.MixPubKey, desc = k, "mix key"
			case 5:
				p.AddressKey, desc = opub.AddressKey, "address key"
			case 6:
				p.PrivateData, desc = opub.PrivateData, "private data"
			case 7:
				p.PrivateData, desc = vt.Mutation(rt, pub.PrivateData, "priv")
			case 8:
				p.AddressKey, desc = vt.Mutation(rt, pub.AddressKey, "akey")
			case 9:
				m, desc = vt.Mutation(rt, w.addr, "addr")
			}
			if m == nil {
				m, err = asn1.Marshal(p)
				vt.InfraIf(err)
			}
			if bytes.Equal(m, w.addr) {
				continue
			}
			c.Eval(1)
			// by the sender's library, and directly
			var env []byte
			noPanic(rt, desc, func() { env, _, err = new(mixcrypt.ClientMixHeader).NewRelayMessage(m, w.msg) })
			if err == nil {
				noPanic(rt, desc, func() {
					var rs *mixcrypt.ReceiveStruct
					rs, err = mixkit.Receive(w.a.KL.GetPrivateKey, env)
					judge(rt, c, w, desc, rs, err)
				})
			}
			h := &mixcrypt.ClientMixHeader{MessageType: mixcrypt.MessageTypeRelay, Address: m, RevokeID: vt.Expand(32, 1, 0)}
			k := new([32]byte)
			copy(k[:], pub.MixPubKey)
			env, err = mixcrypt.Encrypt(k, nil, append(h.Marshal(), w.msg...))
			vt.InfraIf(err)
			var rs *mixcrypt.ReceiveStruct
			noPanic(rt, desc, func() { rs, err = mixkit.Receive(w.a.KL.GetPrivateKey, env) })
			judge(rt, c, w, desc, rs, err)
		}
	})
}

func judge(rt *rapid.T, c *vt.Case, w *world, desc string, rs *mixcrypt.ReceiveStruct, err error) {
	if err != nil {
		c.Label("refused")
		c.NonTrivial("refused", desc)
		return
	}
	if !privEq(rs.NymAddressPrivate, w.rs.NymAddressPrivate) {
		rt.Fatalf("%s: mix accepts an altered address: %+v", desc, rs.NymAddressPrivate)
	}
	if u, v := rs.UniqueTest, w.rs.UniqueTest; len(u) != len(v) {
		rt.Fatalf("%s: %d marks for detecting replays, want %d", desc, len(u), len(v))
	} else {
		for i := range u {
			if u[i].Expire != v[i].Expire || !bytes.Equal(u[i].Hash, v[i].Hash) {
				rt.Fatalf("%s: marks for detecting replays are %+v, want %+v", desc, u, v)
			}
		}
	}
	c.Label("same delivery")
	c.NonTrivial("same", desc)
	mail, dest, err := rs.Send()
	if err != nil || dest != string(w.mailbox)+"mute.one" {
		rt.Fatalf("%s: delivered to %q (%v)", desc, dest, err)
	}
	got, nym, err := mixcrypt.ReceiveFromMix(w.tmp, w.mailbox, mail)
	if err != nil || !bytes.Equal(got, w.msg) || !bytes.Equal(nym, w.nym) {
		rt.Fatalf("%s: other delivery (%v)", desc, err)
	}
}

// TestExpired: whatever a sender writes into the open part of an address, the
// mix relays nothing to an address that has expired.
func TestExpired(t *testing.T) {
	vt.Check(t, "an expired address was used with a changed open part", 300, 3000, func(rt *rapid.T, c *vt.Case) {
		m := mixkit.NewMix("mix@a.mute.one", vt.TempDir(), 1000)
		tmp := mixkit.Template(rt, mixkit.Candidates(m), -1000, -10, -3, 10, 100)
		addr, err := tmp.NewAddress([]byte("mailbox"), nil)
		vt.InfraIf(err)
		var p nymaddr.Address
		_, err = asn1.Unmarshal(addr, &p)
		vt.InfraIf(err)
		p.Expire += rapid.SampledFrom([]int64{0, 200, 2000, 1 << 40}).Draw(rt, "later")
		p.SingleUse = rapid.Bool().Draw(rt, "single")
		b, err := asn1.Marshal(p)
		vt.InfraIf(err)
		h := &mixcrypt.ClientMixHeader{MessageType: mixcrypt.MessageTypeRelay, Address: b, RevokeID: vt.Expand(32, 1, 0)}
		k := new([32]byte)
		copy(k[:], p.MixPubKey)
		msg := vt.Expand(5000, 1, 0)
		env, err := mixcrypt.Encrypt(k, nil, append(h.Marshal(), msg...))
		vt.InfraIf(err)
		old := tmp.Expire < times.Now()
		rs, err := mixkit.Receive(m.KL.GetPrivateKey, env)
		if old && err == nil {
			rt.Fatalf("mix accepts a message for an address that expired %d s ago (%+v)", times.Now()-tmp.Expire, rs.UniqueTest)
		}
		if !old && err != nil {
			rt.Fatalf("address refused before its expiry: %v", err)
		}
		if err == nil && rs.NymAddressPrivate.SingleUse != tmp.SingleUse {
			rt.Fatal("single use changed")
		}
		c.NonTrivial(old, p.Expire-tmp.Expire, p.SingleUse, tmp.SingleUse)
		c.Label("expired %v", old)
	})
}

// TestDelivery: changed deliveries given to the owner.
func TestDelivery(t *testing.T) {
	vt.Check(t, "a changed delivery, or one with another mailbox or secret, was refused by the owner", 1500, 30000, func(rt *rapid.T, c *vt.Case) {
		w := mk(rt)
		n := int(binary.BigEndian.Uint16(w.mail)) + 2
		// another mail for the same owner
		addr2, err := w.tmp.NewAddress(w.mailbox, w.nym)
		vt.InfraIf(err)
		env2, _, err := w.hdr.NewRelayMessage(addr2, w.msg)
		vt.InfraIf(err)
		rs2, err := mixkit.Receive(w.a.KL.GetPrivateKey, env2)
		vt.InfraIf(err)
		mail2, _, err := rs2.Send()
		vt.InfraIf(err)
		n2 := int(binary.BigEndian.Uint16(mail2)) + 2
		again, _, err := w.rs.Send()
		vt.InfraIf(err)
		var rh nymaddr.RelayHeader
		_, err = asn1.Unmarshal(w.mail[2:n], &rh)
		vt.InfraIf(err)
		var rh2 nymaddr.RelayHeader
		_, err = asn1.Unmarshal(mail2[2:n2], &rh2)
		vt.InfraIf(err)
		build := func(h nymaddr.RelayHeader, body []byte) []byte {
			d, err := asn1.Marshal(h)
			vt.InfraIf(err)
			out := make([]byte, 2)
			binary.BigEndian.PutUint16(out, uint16(len(d)))
			return append(append(out, d...), body...)
		}
		if !bytes.Equal(build(rh, w.mail[n:]), w.mail) {
			vt.InfraIf(fmt.Errorf("relay header is built differently"))
		}
		for i := 0; i < 12; i++ {
			var m []byte
			var desc string
			tmp, mb := w.tmp, w.mailbox
			switch rapid.IntRange(0, 7).Draw(rt, "kind") {
			case 0:
				m, desc = append(append([]byte{}, mail2[:n2]...), w.mail[n:]...), "other header"
			case 1:
				h, d := vt.Mutation(rt, w.mail[:n], "head")
				m, desc = append(append([]byte{}, h...), w.mail[n:]...), "head "+d
			case 2:
				tmp.Secret, _ = vt.Mutation(rt, tmp.Secret, "secret")
				if equivKey(tmp.Secret, w.tmp.Secret) {
					continue
				}
				m, desc = w.mail, "other secret"
			case 3:
				mb, _ = vt.Mutation(rt, mb, "mailbox")
				m, desc = w.mail, "other mailbox"
			case 4:
				h := rh
				switch rapid.IntRange(0, 4).Draw(rt, "f") {
				case 0:
					h.SenderKey = rh2.SenderKey
				case 1:
					h.Nonce = rh2.Nonce
				case 2:
					h.ReceiverPubKey = rh2.ReceiverPubKey
				case 3:
					h.EncNym = rh2.EncNym
				case 4:
					h.HMACHead = rh2.HMACHead
				}
				m, desc = build(h, w.mail[n:]), "exchanged field"
			case 5: // move a byte between neighbouring authenticated fields
				h := rh
				switch rapid.IntRange(0, 3).Draw(rt, "f") {
				case 0:
					h.Nonce, h.ReceiverPubKey = append(append([]byte{}, h.Nonce...), h.ReceiverPubKey[0]), h.ReceiverPubKey[1:]
				case 1:
					h.Nonce, h.ReceiverPubKey = h.Nonce[:31], append([]byte{h.Nonce[31]}, h.ReceiverPubKey...)
				case 2:
					h.ReceiverPubKey, h.EncNym = append(append([]byte{}, h.ReceiverPubKey...), h.EncNym[0]), h.EncNym[1:]
				case 3:
					h.ReceiverPubKey = append(append([]byte{}, h.ReceiverPubKey...), mb[0])
					mb = mb[1:]
				}
				m, desc = build(h, w.mail[n:]), "moved byte"
			case 6:
				m, desc = append(append([]byte{}, again[:n]...), w.mail[n:]...), "other sender key"
			default:
				m, desc = vt.Mutation(rt, w.mail, "mail")
			}
			if bytes.Equal(m, w.mail) && bytes.Equal(mb, w.mailbox) && bytes.Equal(tmp.Secret, w.tmp.Secret) {
				continue
			}
			c.Eval(1)
			if bytes.Equal(m, again) || bytes.Equal(m, mail2) {
				continue
			}
			noPanic(rt, desc, func() { _, _, err = mixcrypt.ReceiveFromMix(tmp, mb, m) })
			if err == nil {
				rt.Fatalf("%s: accepted", desc)
			}
			c.NonTrivial(desc, i)
			c.Label("%s", strings.Fields(desc)[0])
		}
		if got, nym, err := mixcrypt.ReceiveFromMix(w.tmp, w.mailbox, w.mail); err != nil || !bytes.Equal(got, w.msg) || !bytes.Equal(nym, w.nym) {
			rt.Fatalf("genuine delivery refused: %v", err)
		}
	})
}

// equivKey: HMAC pads keys with zero bytes.
func equivKey(a, b []byte) bool {
	return bytes.Equal(bytes.TrimRight(a, "\x00"), bytes.TrimRight(b, "\x00"))
}

// TestForged: messages made by a sender who follows no rules, with valid
// encryption but any header, any address and any private part.
func TestForged(t *testing.T) {
	vt.Check(t, "a forged header, address or private part reached the parser of the mix", 4000, 80000, func(rt *rapid.T, c *vt.Case) {
		w := mk(rt)
		k := new([32]byte)
		copy(k[:], w.a.KL.GetStatement().Addresses[0].Pubkey)
		blob := func(label string) []byte {
			switch rapid.IntRange(0, 5).Draw(rt, label+"k") {
			case 0:
				return nil
			case 1:
				return []byte{byte(rapid.IntRange(0, 1).Draw(rt, label+"1"))}
			case 2:
				return vt.Expand(rapid.IntRange(0, 70).Draw(rt, label+"n"), rapid.Uint32().Draw(rt, label+"s"), 0)
			case 3:
				return vt.Expand(rapid.SampledFrom([]int{31, 32, 33, 34, 64, 300, 66000}).Draw(rt, label+"n"), rapid.Uint32().Draw(rt, label+"s"), rapid.IntRange(0, 3).Draw(rt, label+"kk"))
			}
			return vt.Expand(32, rapid.Uint32().Draw(rt, label+"s"), 0)
		}
		h := mixcrypt.ClientMixHeader{
			MessageType:    rapid.SampledFrom([]int32{1, 1, 2, 2, 2, 2, 0, 3, -1, 1 << 30}).Draw(rt, "type"),
			SenderMinDelay: rapid.Int32().Draw(rt, "min"), SenderMaxDelay: rapid.Int32().Draw(rt, "max"),
			Token: blob("token"), RevokeID: blob("revoke"),
		}
		own := false
		switch rapid.IntRange(0, 3).Draw(rt, "addr") {
		case 0:
			h.Address = blob("address")
		case 1:
			h.Address = w.addr
		default: // address with any parts, encrypted to the mix
			a := nymaddr.Address{MixAddress: blob("ma"), Expire: times.Now() + 100, SingleUse: rapid.Bool().Draw(rt, "single"), TokenPubKey: blob("tpk"), MixPubKey: k[:]}
			priv := vt.Expand(32, rapid.Uint32().Draw(rt, "priv"), 0)
			a.AddressKey = mixkit.Pub(priv)
			q := w.rs.NymAddressPrivate
			p := nymaddr.AddressPrivate{System: rapid.SampledFrom([]int32{0, 0, 0, 1}).Draw(rt, "sys"), Address: w.mailbox, Expire: times.Now() + 100,
				Nonce: q.Nonce, ReceiverPubKey: q.ReceiverPubKey, EncNym: q.EncNym, HMACHead: q.HMACHead}
			for _, f := range []*[]byte{&p.Nonce, &p.ReceiverPubKey, &p.EncNym, &p.HMACHead} {
				if rapid.IntRange(0, 2).Draw(rt, "replace") == 0 {
					*f = blob("f")
				}
			}
			p.SingleUse = rapid.Bool().Draw(rt, "single2")
			own = bytes.Equal(p.Nonce, q.Nonce) && bytes.Equal(p.ReceiverPubKey, q.ReceiverPubKey) && bytes.Equal(p.EncNym, q.EncNym) && bytes.Equal(p.HMACHead, q.HMACHead)
			pm, err := asn1.Marshal(p)
			vt.InfraIf(err)
			if rapid.IntRange(0, 4).Draw(rt, "junk") == 0 {
				pm, _ = vt.Mutation(rt, pm, "pm")
				own = true // may be anything
			}
			var ss, pk, pp [32]byte
			copy(pk[:], priv)
			copy(pp[:], k[:])
			curve25519.ScalarMult(&ss, &pk, &pp)
			cr, err := lioness.New(ss[:])
			vt.InfraIf(err)
			a.PrivateData, err = cr.Encrypt(pm)
			if err != nil {
				a.PrivateData = pm
			}
			if rapid.IntRange(0, 9).Draw(rt, "cut") == 0 {
				a.PrivateData = a.PrivateData[:rapid.IntRange(0, len(a.PrivateData)).Draw(rt, "keep")]
			}
			h.Address, err = asn1.Marshal(a)
			vt.InfraIf(err)
		}
		d, err := asn1.Marshal(h)
		vt.InfraIf(err)
		if rapid.IntRange(0, 5).Draw(rt, "mutate") == 0 {
			d, _ = vt.Mutation(rt, d, "hdr")
		}
		l := len(d)
		switch rapid.IntRange(0, 5).Draw(rt, "length") {
		case 0:
			l = rapid.SampledFrom([]int{0, 1, 2, 65533, 65534, 65535}).Draw(rt, "l")
		case 1:
			l += rapid.IntRange(-3, 3).Draw(rt, "dl")
		}
		var body []byte
		if rapid.IntRange(0, 3).Draw(rt, "short") == 0 {
			body = vt.Expand(rapid.SampledFrom([]int{0, 1, 255, 256, 1024, 70000}).Draw(rt, "bl"), 1, 0)
		} else {
			body = w.msg
		}
		clear := append([]byte{byte(l >> 8), byte(l)}, append(d, body...)...)
		if rapid.IntRange(0, 19).Draw(rt, "tiny") == 0 {
			clear = clear[:rapid.IntRange(0, 4).Draw(rt, "tn")]
		}
		env, err := mixcrypt.Encrypt(k, nil, clear)
		vt.InfraIf(err)
		var rs *mixcrypt.ReceiveStruct
		noPanic(rt, "ReceiveMessage", func() { rs, err = mixkit.Receive(w.a.KL.GetPrivateKey, env) })
		if err != nil {
			c.Label("refused")
			c.NonTrivial("refused", len(h.Token), len(h.RevokeID), h.MessageType, l-len(d), len(body))
			return
		}
		if n := len(rs.Message); rs.MixHeader.MessageType == mixcrypt.MessageTypeRelay && (n < mixcrypt.RelayMinSize || n > mixcrypt.RelayMaxSize) ||
			rs.MixHeader.MessageType == mixcrypt.MessageTypeForward && (n < mixcrypt.ForwardMinSize || n > mixcrypt.ForwardMaxSize) {
			rt.Fatalf("message of %d bytes accepted", n)
		}
		if ty := rs.MixHeader.MessageType; ty != mixcrypt.MessageTypeForward && ty != mixcrypt.MessageTypeRelay {
			rt.Fatalf("message of type %d accepted", ty)
		}
		var mail []byte
		var dest string
		noPanic(rt, "Send", func() { mail, dest, err = rs.Send() })
		if err != nil || rs.MixHeader.MessageType != mixcrypt.MessageTypeRelay {
			c.Label("forward or undeliverable")
			return
		}
		c.Label("delivered %v", own)
		c.NonTrivial("delivered", len(h.Token), len(h.RevokeID), own)
		if dest == string(w.mailbox)+"mute.one" {
			noPanic(rt, "ReceiveFromMix", func() { _, _, err = mixcrypt.ReceiveFromMix(w.tmp, w.mailbox, mail) })
			if err == nil && !own && !bytes.Equal(h.Address, w.addr) {
				rt.Fatal("owner accepts a delivery to an address it did not make")
			}
		}
	})
}

// TestArbitrary gives arbitrary and near-valid bytes to every entry point.
func TestArbitrary(t *testing.T) {
	m := mixkit.NewMix("mix@a.mute.one", vt.TempDir(), 1000)
	key := m.KL.GetStatement().Addresses[0].Pubkey
	vt.Check(t, "bytes were refused by all entry points", 6000, 100000, func(rt *rapid.T, c *vt.Case) {
		b := vt.Bytes(7000, 0, 2, 32, 96, 97, 112, 4096).Draw(rt, "bytes")
		if rapid.Bool().Draw(rt, "key") && len(b) >= 32 {
			copy(b, key)
		}
		var err error
		noPanic(rt, "ReceiveMessage", func() { _, err = mixkit.Receive(m.KL.GetPrivateKey, b) })
		if err == nil {
			rt.Fatal("ReceiveMessage accepts junk")
		}
		if rapid.Bool().Draw(rt, "len") && len(b) >= 2 {
			binary.BigEndian.PutUint16(b, uint16(rapid.IntRange(0, len(b)).Draw(rt, "l")))
		}
		tmp := nymaddr.AddressTemplate{Secret: []byte("x")}
		noPanic(rt, "ReceiveFromMix", func() { _, _, err = mixcrypt.ReceiveFromMix(tmp, []byte("m"), b) })
		if err == nil {
			rt.Fatal("ReceiveFromMix accepts junk")
		}
		noPanic(rt, "ParseAddress", func() { _, err = nymaddr.ParseAddress(b) })
		if err == nil {
			rt.Fatal("ParseAddress accepts junk")
		}
		noPanic(rt, "Unmarshal", func() { _, _, err = new(mixcrypt.ClientMixHeader).Unmarshal(b) })
		if err == nil {
			rt.Fatal("Unmarshal accepts junk")
		}
		noPanic(rt, "NewRelayMessage", func() { _, _, err = new(mixcrypt.ClientMixHeader).NewRelayMessage(b, nil) })
		if err == nil {
			rt.Fatal("NewRelayMessage accepts junk")
		}
		ad := &nymaddr.Address{MixPubKey: key, AddressKey: b[:len(b)/2], PrivateData: b[len(b)/2:]}
		noPanic(rt, "GetMixData", func() { _, err = ad.GetMixData(m.KL.GetPrivateKey) })
		if err == nil {
			rt.Fatal("GetMixData accepts junk")
		}
		c.NonTrivial(len(b))
	})
}
