// Package p02 decides property P02: malformed external data is always refused
// cleanly.
package p02

import (
	"bytes"
	"crypto/rand"
	"crypto/sha512"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/guardkit"
	"verif/mixkit"
	"verif/msgkit"
	"verif/netkit"
	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/configclient/cahash"
	"github.com/mutecomm/mute/configclient/roundrobin"
	"github.com/mutecomm/mute/configclient/sortedmap"
	"github.com/mutecomm/mute/ctrlengine/mail"
	"github.com/mutecomm/mute/def"
	mbase64 "github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/capabilities"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/mix/smtpclient"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/mime"
	"github.com/mutecomm/mute/msg/msgid"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

const (
	raw = iota
	jsn
	der
	text // lines
)

var b64 = base64.StdEncoding

// decoder is a function that reads data from outside.
type decoder struct {
	name string
	kind int      // of the encoding
	wrap int      // base64 layers around it
	in   [][]byte // valid inputs
	// run decodes and, if the input is accepted, encodes the value again
	// (nil: the value has no encoding). A problem is reported as an error.
	run func(in []byte) (ok bool, again []byte, problem error)
}

var (
	decoders []decoder
	refused  []string
	once     sync.Once
)

func mk(id string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vt.InfraIf(err)
	return m
}

func add(name string, kind int, run func(in []byte) (bool, []byte, error), in ...[]byte) {
	decoders = append(decoders, decoder{name: name, kind: kind, in: in, run: run})
}

// wrapped says that the decoder expects base64.
func wrapped() { decoders[len(decoders)-1].wrap++ }

func derOf(v interface{}) []byte {
	d, err := asn1.Marshal(v)
	vt.InfraIf(err)
	return d
}

func setup() {
	one := func(err error) (bool, []byte, error) { return err == nil, nil, nil }

	// user IDs
	a, b := mk("alice@mute.berlin"), mk("bob@mute.berlin")
	up, err := a.Update(cipher.RandReader)
	vt.InfraIf(err)
	add("uid.NewJSON", jsn, func(in []byte) (bool, []byte, error) {
		m, err := uid.NewJSON(string(in))
		if err != nil {
			return false, nil, nil
		}
		m.JSON()
		valid := m.Check() == nil
		if m.VerifySelfSig() != nil {
			valid = false
		}
		m.VerifyUserSig(a)
		a.VerifyUserSig(m)
		m.SigKeyHash()
		m.Identity()
		m.SigPubKey()
		h, idx, enc := m.Encrypt()
		r := uid.CreateReply(enc, hashchain.TestEntry, 1, key())
		if i, m2, err := r.Decrypt(h); err != nil || !bytes.Equal(i, idx) || !bytes.Equal(m2.JSON(), m.JSON()) {
			return true, nil, fmt.Errorf("reply does not decrypt: %v", err)
		}
		r.VerifySrvSig(m, b64.EncodeToString(key().PublicKey()[:]))
		if valid { // everything it contains can be used
			m.PubHash()
			m.PublicEncKey32()
			m.PublicSigKey32()
			m.Localpart()
			m.Domain()
			m.PubKey().Verify()
			if _, err := m.PublicKey(); err != nil {
				return true, nil, err
			}
		}
		return true, m.JSON(), nil
	}, a.JSON(), b.JSON(), up.JSON())
	_, _, enc := a.Encrypt()
	ah, _, _ := a.Encrypt()
	add("uid.NewJSONReply", jsn, func(in []byte) (bool, []byte, error) {
		r, err := uid.NewJSONReply(string(in))
		if err != nil {
			return false, nil, nil
		}
		r.Decrypt(ah)
		r.VerifySrvSig(a, b64.EncodeToString(key().PublicKey()[:]))
		return true, r.JSON(), nil
	}, uid.CreateReply(enc, hashchain.TestEntry, 7, key()).JSON())
	// the user ID inside of a reply
	add("MessageReply.Decrypt", jsn, func(in []byte) (bool, []byte, error) {
		h := cipher.SHA256(in)
		e := append(cipher.SHA256(h), aes256.CTREncrypt(h, in, cipher.RandReader)...)
		r := uid.CreateReply(b64.EncodeToString(e), hashchain.TestEntry, 1, key())
		_, m, err := r.Decrypt(h)
		if err != nil {
			return false, nil, nil
		}
		r.VerifySrvSig(m, b64.EncodeToString(key().PublicKey()[:]))
		return true, m.JSON(), nil
	}, a.JSON(), up.JSON())
	add("MessageReply.Decrypt, encrypted part", raw, func(in []byte) (bool, []byte, error) {
		r := uid.CreateReply(string(in), hashchain.TestEntry, 1, key())
		_, _, err := r.Decrypt(ah)
		return one(err)
	}, unb64(enc))
	wrapped()
	now := uint64(times.Now())
	ki, _, _, err := a.KeyInit(3, now+3600, now-10, false, "mute.berlin", "mix@mute.one", "nym", cipher.RandReader)
	vt.InfraIf(err)
	add("uid.NewJSONKeyInit", jsn, func(in []byte) (bool, []byte, error) {
		k, err := uid.NewJSONKeyInit(in)
		if err != nil {
			return false, nil, nil
		}
		k.Verify([]string{"mute.berlin"}, a.SigPubKey())
		k.VerifySrvSig(k.SIGNATURE, a.SigPubKey())
		k.SessionAnchor(a.SigPubKey())
		if ke, err := k.KeyEntryECDHE25519(a.SigPubKey()); err == nil && ke.Verify() == nil {
			ke.PublicKey32()
		}
		k.MsgCount()
		k.SigKeyHash()
		return true, k.JSON(), nil
	}, ki.JSON())
	// the session anchor inside of a key-init message
	sa, err := ki.SessionAnchor(a.SigPubKey())
	vt.InfraIf(err)
	saj, err := json.Marshal(sa)
	vt.InfraIf(err)
	add("KeyInit.SessionAnchor", jsn, func(in []byte) (bool, []byte, error) {
		k := *ki
		pub := unb64(a.SigPubKey())
		h := sha512.Sum512(pub)
		k.Contents.SESSIONANCHOR = b64.EncodeToString(aes256.CTREncrypt(h[:32], in, cipher.RandReader))
		var v uid.SessionAnchor
		if json.Unmarshal(in, &v) == nil {
			s, err := json.Marshal(map[string]interface{}{"MIXADDRESS": v.MIXADDRESS, "NYMADDRESS": v.NYMADDRESS, "PFKEYS": entries(v.PFKEYS)})
			vt.InfraIf(err)
			hh := sha512.Sum512(s)
			k.Contents.SESSIONANCHORHASH = b64.EncodeToString(hh[:])
		}
		k.SIGNATURE = b64.EncodeToString(keyOf(a).Sign(contents(&k)))
		ver := k.Verify([]string{"mute.berlin"}, a.SigPubKey())
		s, err := k.SessionAnchor(a.SigPubKey())
		if err != nil {
			if ver == nil {
				return false, nil, fmt.Errorf("verifies but: %v", err)
			}
			return false, nil, nil
		}
		s.NymAddress()
		ke, err := s.KeyEntry("ECDHE25519")
		if err == nil && ke.Verify() == nil {
			ke.PublicKey32()
		}
		if ver == nil { // it can be used for encryption
			ke, err := k.KeyEntryECDHE25519(a.SigPubKey())
			if err != nil {
				return true, nil, err
			}
			ke.PublicKey32()
		}
		return true, nil, nil
	}, saj)
	add("uid.NewJSONKeyEntry", jsn, func(in []byte) (bool, []byte, error) {
		k, err := uid.NewJSONKeyEntry(in)
		if err != nil {
			return false, nil, nil
		}
		if k.Verify() == nil {
			k.PublicKey32()
		}
		k.SetPrivateKey(a.PrivateEncKey())
		return true, k.JSON(), nil
	}, a.PubKey().JSON())
	add("SetPrivateEncKey, SetPrivateSigKey", raw, func(in []byte) (bool, []byte, error) {
		m, err := uid.NewJSON(string(a.JSON()))
		vt.InfraIf(err)
		e1, e2 := m.SetPrivateEncKey(string(in)), m.SetPrivateSigKey(string(in))
		if e1 == nil {
			return true, []byte(m.PrivateEncKey()), nil
		}
		return e2 == nil, nil, nil
	}, unb64(a.PrivateEncKey()), unb64(a.PrivateSigKey()))
	wrapped()
	n, sig := a.SignNonce()
	add("uid.VerifyNonce, key", raw, func(in []byte) (bool, []byte, error) {
		return one(uid.VerifyNonce(string(in), n, sig))
	}, unb64(a.SigPubKey()))
	wrapped()
	add("uid.VerifyNonce, signature", raw, func(in []byte) (bool, []byte, error) {
		return one(uid.VerifyNonce(a.SigPubKey(), n, string(in)))
	}, unb64(sig))
	wrapped()
	add("identity", text, func(in []byte) (bool, []byte, error) {
		s := string(in)
		identity.Split(s)
		identity.MapPlus(s)
		identity.MapDomain(s)
		identity.MapLocalpart(s)
		m, err := identity.Map(s)
		if err != nil {
			return false, nil, nil
		}
		if err := identity.IsMapped(m); err != nil {
			return true, nil, fmt.Errorf("%q maps to %q which is not mapped", s, m)
		}
		msgid.Generate(s, rand.Reader)
		return true, nil, nil
	}, []byte("Alice.Bob-c@mute.berlin"), []byte("bob@mute.berlin"))
	add("hashchain.SplitEntry", raw, func(in []byte) (bool, []byte, error) {
		h, t, n, i, c, x, err := hashchain.SplitEntry(string(in))
		if err != nil {
			return false, nil, nil
		}
		return true, []byte(b64.EncodeToString(bytes.Join([][]byte{h, t, n, i, c, x}, nil))), nil
	}, unb64(hashchain.TestEntry))
	wrapped()
	cp, _ := json.Marshal(capabilities.Capabilities{METHODS: []string{"a", "b"}, DOMAINS: []string{"mute.berlin"}, SIGPUBKEYS: []string{"x"}})
	add("capabilities", jsn, func(in []byte) (bool, []byte, error) {
		var c capabilities.Capabilities
		if json.Unmarshal(in, &c) != nil {
			return false, nil, nil
		}
		out, err := json.Marshal(c)
		return true, out, err
	}, cp)

	// messages
	ua, ub := msgkit.NewUserUID(a, "nym", msgkit.NewValStore()), msgkit.NewUserUID(b, "nym", msgkit.NewValStore())
	ua.Knows(ub)
	ub.Knows(ua)
	e, _, err := ua.Encrypt(ub.UID, []byte("hello"), msgkit.Params{})
	vt.InfraIf(err)
	add("msg.Decrypt", raw, func(in []byte) (bool, []byte, error) {
		_, _, _, err := msgkit.DecryptWith(ub.Store.(*msgkit.ValStore).Clone(), in, 5, []*uid.Message{b})
		return one(err)
	}, unb64(string(e)))
	wrapped()
	add("msg.ReadFirstOuterHeader", raw, func(in []byte) (bool, []byte, error) {
		_, _, err := msg.ReadFirstOuterHeader(bytes.NewReader(in))
		return one(err)
	}, unb64(string(e))[:2000])

	// mail
	var mm bytes.Buffer
	vt.InfraIf(mime.New(&mm, mime.Header{From: "a@b", To: "c@d", Cc: []string{"e@f", "g@h"}, MessageID: "<1>", InReplyTo: "<0>"}, "Subject\n\nText\n",
		[]*mime.Attachment{{Filename: "f ü.txt", Reader: strings.NewReader("content"), ContentType: "text/plain"}, {Filename: "g", Reader: strings.NewReader("x"), Inline: true, ContentType: "image/png"}}))
	add("mime.Parse", text, func(in []byte) (bool, []byte, error) {
		h, subj, txt, at, err := mime.Parse(bytes.NewReader(in))
		if err != nil {
			return false, nil, nil
		}
		for _, x := range at {
			var buf bytes.Buffer
			if x == nil || x.Reader == nil {
				return true, nil, fmt.Errorf("attachment without content")
			}
			if _, err := buf.ReadFrom(x.Reader); err != nil {
				return true, nil, fmt.Errorf("attachment: %v", err)
			}
		}
		if h == nil || h.From == "" || h.To == "" || h.MessageID == "" {
			return true, nil, fmt.Errorf("incomplete header %v accepted", h)
		}
		mime.SplitMessage(txt)
		_ = subj
		return true, nil, nil
	}, mm.Bytes())
	ch, err := mime.EncodeChunks(mime.Header{From: "a@b", To: "c@d", Cc: []string{"e@f"}, MessageID: "<1>"}, "Subject\n\nText\n"+strings.Repeat("line\n", 30), 60)
	vt.InfraIf(err)
	add("mime.DecodeChunk", text, func(in []byte) (bool, []byte, error) {
		h, _, _, _, err := mime.DecodeChunk(string(in))
		if err == nil && h == nil {
			return true, nil, fmt.Errorf("no header and no error")
		}
		return one(err)
	}, []byte(ch[0]), []byte(ch[1]))
	add("mail.Parse", text, func(in []byte) (bool, []byte, error) {
		to, m, err := mail.Parse(bytes.NewReader(in))
		if err == nil && (to == "" || !strings.Contains(m, "\n")) {
			return true, nil, fmt.Errorf("recipient %q, message %q", to, m)
		}
		return one(err)
	}, []byte("From: a@b\r\nTo: c@d\r\nSubject: =?utf-8?q?x=C3=BC?=\r\n\r\nText\r\n"))
	add("msgid.Parse", text, func(in []byte) (bool, []byte, error) {
		s := msgid.Parse(string(in))
		if s != "" && !strings.HasSuffix(string(in), "-"+s) {
			return true, nil, fmt.Errorf("sender %q", s)
		}
		return s != "", nil, nil
	}, []byte("2015-01-00112233445566778899aabbccddeeff-alice@mute.berlin"))
	add("client.ReadMail", text, func(in []byte) (bool, []byte, error) {
		body, err := client.ReadMail(in)
		if err != nil {
			return false, nil, nil
		}
		again, err := client.ReadMail(client.WriteMail("a@b", "c@d", body))
		if err != nil || !bytes.Equal(again, body) {
			return true, nil, fmt.Errorf("%x is read back as %x, %v", body, again, err)
		}
		return true, nil, nil
	}, client.WriteMail("a@b", "c@d", vt.Expand(300, 1, 0)))
	add("base64.Decode", raw, func(in []byte) (bool, []byte, error) {
		d, err := mbase64.Decode(string(in))
		if err != nil {
			return false, nil, nil
		}
		e := mbase64.Encode(d)
		d2, err := mbase64.Decode(e)
		if err != nil || !bytes.Equal(d, d2) {
			return true, nil, fmt.Errorf("%x encodes as %s which decodes to %x, %v", d, e, d2, err)
		}
		return true, nil, nil
	}, vt.Expand(50, 2, 0))
	wrapped()
	add("smtpclient.GetMailDomain", text, func(in []byte) (bool, []byte, error) {
		return smtpclient.GetMailDomain(string(in)) != "", nil, nil
	}, []byte("a@mute.one"), []byte("a@mail.example.com"))

	// mix
	mx := mixkit.NewMix("mix@a.mute.one", vt.TempDir(), 100000, 200000)
	tmp := nymaddr.AddressTemplate{Secret: vt.Expand(64, 3, 0), MixCandidates: mixkit.Candidates(mx), Expire: times.Now() + 80000, MinDelay: 1, MaxDelay: 2}
	mbox := []byte(fmt.Sprintf("%x@accounts.", vt.Expand(32, 4, 0)))
	nym := vt.Expand(32, 5, 0)
	addr, err := tmp.NewAddress(mbox, nym)
	vt.InfraIf(err)
	add("nymaddr.ParseAddress", der, func(in []byte) (bool, []byte, error) {
		ad, err := nymaddr.ParseAddress(in)
		(&mixcrypt.ClientMixHeader{}).NewRelayMessage(in, make([]byte, 4096))
		if err != nil {
			return false, nil, nil
		}
		if p, err := ad.GetMixData(mx.KL.GetPrivateKey); err == nil {
			p.GetUnique()
			p.GetHeader()
		}
		return true, derOf(*ad), nil
	}, addr)
	relay, _, err := (&mixcrypt.ClientMixHeader{SenderMinDelay: 1, SenderMaxDelay: 2, Token: vt.Expand(90, 6, 0)}).NewRelayMessage(addr, vt.Expand(4200, 7, 0))
	vt.InfraIf(err)
	rs, err := mixkit.Receive(mx.KL.GetPrivateKey, relay)
	vt.InfraIf(err)
	add("mixcrypt.ReceiveMessage", raw, func(in []byte) (bool, []byte, error) {
		rs, err := mixkit.Receive(mx.KL.GetPrivateKey, in)
		if err != nil {
			return false, nil, nil
		}
		rs.Send()
		return true, nil, nil
	}, relay)
	// what is inside of an encrypted mix message
	add("mixcrypt.ReceiveMessage, inside", raw, func(in []byte) (bool, []byte, error) {
		pub := new([32]byte)
		copy(pub[:], mixkit.Candidates(mx)[0].Pubkey)
		env, err := mixcrypt.Encrypt(pub, nil, in)
		vt.InfraIf(err)
		rs, err := mixkit.Receive(mx.KL.GetPrivateKey, env)
		if err != nil {
			return false, nil, nil
		}
		rs.Send()
		return true, nil, nil
	}, append(rs.MixHeader.Marshal(), vt.Expand(4200, 7, 0)...))
	add("ClientMixHeader.Unmarshal", raw, func(in []byte) (bool, []byte, error) {
		h, n, err := new(mixcrypt.ClientMixHeader).Unmarshal(in)
		if err != nil {
			return false, nil, nil
		}
		if int(n) > len(in) || h == nil {
			return true, nil, fmt.Errorf("header length %d of %d", n, len(in))
		}
		again, n2, err := new(mixcrypt.ClientMixHeader).Unmarshal(h.Marshal())
		if err != nil || !same(*again, *h) || int(n2) != len(h.Marshal()) {
			return true, nil, fmt.Errorf("%+v encodes to %+v, %v", h, again, err)
		}
		return true, nil, nil
	}, rs.MixHeader.Marshal(), mixcrypt.ClientMixHeader{Address: []byte("a@b")}.Marshal())
	ml, _, err := rs.Send()
	vt.InfraIf(err)
	add("mixcrypt.ReceiveFromMix", raw, func(in []byte) (bool, []byte, error) {
		_, _, err := mixcrypt.ReceiveFromMix(tmp, mbox, in)
		return one(err)
	}, ml)
	st, err := json.Marshal(mx.KL.GetStatement())
	vt.InfraIf(err)
	add("mixaddr.AddressStatement", jsn, func(in []byte) (bool, []byte, error) {
		var s mixaddr.AddressStatement
		if json.Unmarshal(in, &s) != nil {
			return false, nil, nil
		}
		s.Verify()
		mixaddr.AddressList{}.AddStatement(s)
		s.Addresses.Expire(0)
		t := nymaddr.AddressTemplate{Secret: []byte("x"), MixCandidates: s.Addresses, Expire: times.Now() + 100}
		if na, err := t.NewAddress(mbox, nym); err == nil {
			if _, err := nymaddr.ParseAddress(na); err != nil {
				return true, nil, fmt.Errorf("address of accepted mix: %v", err)
			}
		}
		return true, nil, nil
	}, st)
	add("mixaddr.AddressList.Unmarshal", jsn, func(in []byte) (bool, []byte, error) {
		l, err := mixaddr.AddressList{}.Unmarshal(in)
		if err != nil {
			return false, nil, nil
		}
		l2, err := mixaddr.AddressList{}.Unmarshal(l.Marshal())
		if err != nil || !same(l, l2) {
			return true, nil, fmt.Errorf("%v encodes to %v, %v", l, l2, err)
		}
		return true, nil, nil
	}, mixkit.Candidates(mx).Marshal())
	add("mixaddr.KeyList.Unmarshal", jsn, func(in []byte) (bool, []byte, error) {
		kl := mixaddr.New(mixkit.SigKey(), "mix@b.mute.one", 0, 0, vt.TempDir())
		if kl.Unmarshal(in) != nil {
			return false, nil, nil
		}
		kl.GetBoundaryTime()
		var k [32]byte
		copy(k[:], mixkit.Candidates(mx)[0].Pubkey)
		kl.GetPrivateKey(&k)
		kl.GetKeyEntry(&k)
		kl.Expire()
		kl.GetStatement()
		return true, nil, nil
	}, mx.KL.Marshal())
	add("util.MailboxAddress", text, func(in []byte) (bool, []byte, error) {
		util.MailboxAddress(new([32]byte), string(in))
		return true, nil, nil
	}, []byte("accounts.mute.one"))

	// tokens
	iss := guardkit.NewIssuer()
	k := iss.NewKey("use", 100000)
	o := guardkit.NewOwner()
	tok := iss.Issue(k, o.Pub)
	add("token.Unmarshal", der, func(in []byte) (bool, []byte, error) {
		t, err := token.Unmarshal(in)
		if err != nil {
			return false, nil, nil
		}
		t.Hash()
		t.Properties()
		t.HasOwner()
		t.GetSignature()
		e, err := t.Marshal()
		return true, e, err
	}, tok, iss.Issue(k, nil))
	kd := guardkit.DER(k.RawKey)
	add("signkeys.PublicKey.Unmarshal", der, func(in []byte) (bool, []byte, error) {
		p, err := new(signkeys.PublicKey).Unmarshal(in)
		if err != nil {
			return false, nil, nil
		}
		p.Verify(&iss.Pub)
		p.CalcKeyID()
		e, err := p.Marshal()
		return true, e, err
	}, kd)
	add("types.UnmarshalParams", der, func(in []byte) (bool, []byte, error) {
		_, _, _, _, err := types.UnmarshalParams(in)
		return one(err)
	}, iss.Params(k, true))
	sp := guardkit.DER(guardkit.RawSpend{CallType: 1, Token: tok, Signature: vt.Expand(64, 9, 0)})
	add("types.SpendPacket.Unmarshal", der, func(in []byte) (bool, []byte, error) {
		p, err := new(types.SpendPacket).Unmarshal(in)
		if err != nil {
			return false, nil, nil
		}
		p.Verify(o.Pub)
		p.Image()
		e, err := p.Marshal()
		return true, e, err
	}, sp)
	ri := guardkit.DER(guardkit.RawReissue{CallType: 1, Token: tok, BlindToken: []byte("blind"), Params: iss.Params(k, true), Signature: vt.Expand(64, 9, 0)})
	add("types.ReissuePacket.Unmarshal", der, func(in []byte) (bool, []byte, error) {
		p, err := new(types.ReissuePacket).Unmarshal(in)
		if err != nil {
			return false, nil, nil
		}
		p.Verify(o.Pub)
		p.Image()
		e, err := p.Marshal()
		return true, e, err
	}, ri)
	cd := (&walletstore.CacheData{AuthToken: []byte("token"), AuthTries: 3, VerifyKeys: [][32]byte{*o.Pub}}).Marshal()
	add("walletstore.CacheData.Unmarshal", der, func(in []byte) (bool, []byte, error) {
		c, err := new(walletstore.CacheData).Unmarshal(string(in))
		if err != nil {
			return false, nil, nil
		}
		c2, err := new(walletstore.CacheData).Unmarshal(c.Marshal())
		if err != nil || !same(*c, *c2) {
			return true, nil, fmt.Errorf("%v encodes to %v, %v", c, c2, err)
		}
		return true, nil, nil
	}, unb64(cd))
	wrapped()
	at := walletauth.CreateToken(o.Pub, o.Priv, 77)
	add("walletauth.AuthToken", raw, func(in []byte) (bool, []byte, error) {
		_, _, _, err := walletauth.AuthToken(in).CheckToken()
		walletauth.AuthToken(in).Hash()
		return one(err)
	}, at)
	add("walletauth.IsReplay", text, func(in []byte) (bool, []byte, error) {
		_, err := walletauth.IsReplay(fmt.Errorf("%s", in))
		return err == walletauth.ErrReplay, nil, nil
	}, []byte("ErrReplay: 1234"), []byte("ErrReplay: 18446744073709551615"))

	// configuration
	sm := sortedmap.StringMap{"a": "b", "c": "d", "": ""}
	sk := mixkit.SigKey()
	cert, err := sm.GenerateCertificate(sk)
	vt.InfraIf(err)
	add("sortedmap", jsn, func(in []byte) (bool, []byte, error) {
		_, cerr := sortedmap.Certify(0, sk[32:], in)
		s, err := sortedmap.Unmarshal(in)
		if err != nil {
			if cerr == nil {
				return false, nil, fmt.Errorf("certified, but: %v", err)
			}
			return false, nil, nil
		}
		s.Config.Sort().Verify(s.SignDate, sk[32:], s.Signature)
		e, err := s.Marshal()
		return true, e, err
	}, cert)
	ca := netkit.NewCA()
	add("cahash.Hash", raw, func(in []byte) (bool, []byte, error) {
		_, err := cahash.Hash(in)
		return one(err)
	}, ca.PEM)
	pb, _ := pem.Decode(ca.PEM)
	add("cahash.Hash, DER", der, func(in []byte) (bool, []byte, error) {
		_, err := cahash.Hash(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: in}))
		return one(err)
	}, pb.Bytes)
	add("roundrobin.ParseServers", text, func(in []byte) (bool, []byte, error) {
		l := roundrobin.ParseServers(string(in))
		l.Order()
		l.MakeStrings()
		return len(l) > 0, nil, nil
	}, []byte("10,a.b;20,c.d;10,e"))
	cfg, err := json.Marshal(configclient.Config{PublicKey: sk[32:], URLList: "10,a.b", Map: map[string]string{
		"mixclient.RPCPort": "1", "mixclient.MixAddress": "mix@a", "mixclient.AccountServer": "b", "mixclient.Sender": "c", "walletrpc.ServiceURL": "d",
		"keylookup.ServiceURL": "e", "guardrpc.ServiceURL": "f", "serviceguard.TrustRoot": hex.EncodeToString(sk[32:]), "mix.MaxDelay": "10",
		"muteaccd.owner": hex.EncodeToString(sk[32:]), "muteaccd.usage": "u"}, CACert: ca.PEM})
	vt.InfraIf(err)
	add("def.InitMuteFromFile", jsn, func(in []byte) (bool, []byte, error) {
		dir := vt.TempDir()
		defer os.RemoveAll(dir)
		vt.InfraIf(os.Mkdir(filepath.Join(dir, "config"), 0700))
		nd, _, _ := def.ConfigParams()
		vt.InfraIf(os.WriteFile(filepath.Join(dir, "config", nd), in, 0600))
		return one(def.InitMuteFromFile(dir))
	}, cfg)
	for _, d := range decoders {
		for _, in := range d.in {
			var ok bool
			var err error
			if p := vt.Try(func() { ok, _, err = d.run(d.encode(in)) }); p != "" {
				err = fmt.Errorf("%s", p)
			}
			if !ok || err != nil {
				refused = append(refused, fmt.Sprintf("%s: valid input refused: %v", d.name, err))
			}
		}
	}
}

func (d decoder) encode(in []byte) []byte {
	for i := 0; i < d.wrap; i++ {
		in = []byte(b64.EncodeToString(in))
	}
	return in
}

func unb64(s string) []byte {
	d, err := b64.DecodeString(s)
	vt.InfraIf(err)
	return d
}

func entries(l []uid.KeyEntry) interface{} {
	if l == nil {
		return nil
	}
	out := []interface{}{}
	for _, k := range l {
		var m map[string]interface{}
		vt.InfraIf(json.Unmarshal(k.JSON(), &m))
		out = append(out, m)
	}
	return out
}

// contents are the signed bytes of a key-init message.
func contents(k *uid.KeyInit) []byte {
	var m map[string]json.RawMessage
	vt.InfraIf(json.Unmarshal(k.JSON(), &m))
	return m["Contents"]
}

var sigKey *cipher.Ed25519Key

func key() *cipher.Ed25519Key {
	if sigKey == nil {
		var err error
		sigKey, err = cipher.Ed25519Generate(cipher.RandReader)
		vt.InfraIf(err)
	}
	return sigKey
}

func keyOf(m *uid.Message) *cipher.Ed25519Key {
	k := new(cipher.Ed25519Key)
	vt.InfraIf(k.SetPrivateKey(m.PrivateSigKey64()[:]))
	return k
}

// same compares values, an empty slice is like none.
func same(a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || strings.Replace(fmt.Sprintf("%#v", a), "(nil)", "{}", -1) == strings.Replace(fmt.Sprintf("%#v", b), "(nil)", "{}", -1)
}

const limit = 60 * time.Second

// TestDecoders gives every decoder malformed data.
func TestDecoders(t *testing.T) {
	once.Do(setup)
	for _, r := range refused {
		t.Log(r)
	}
	vt.Check(t, "a changed valid input was decoded or refused", 30000, 3000000, func(rt *rapid.T, c *vt.Case) {
		d := decoders[vt.Uniform(rt, len(decoders), "decoder")]
		var in []byte
		desc, derived := "arbitrary", true
		seed := d.in[vt.Uniform(rt, len(d.in), "seed")]
		switch k := rapid.IntRange(0, 9).Draw(rt, "kind"); {
		case k == 0:
			in, derived = vt.Bytes(300, 0, 1, 2, 8, 16, 32, 48, 64, 100).Draw(rt, "bytes"), false
			if rapid.Bool().Draw(rt, "encoded") {
				in = d.encode(in)
			}
		case k == 1 && d.kind != raw:
			in, derived = arbitrary(rt, d.kind), false
			in = d.encode(in)
		case k <= 6 && d.kind == jsn:
			in, desc = vt.MutateJSON(rt, seed, "json", "")
			in = d.encode(in)
		case k <= 6 && d.kind == der:
			in, desc = mutateDER(rt, seed)
			in = d.encode(in)
		case k <= 6 && d.kind == text:
			in, desc = mutateText(rt, seed)
			in = d.encode(in)
		case k == 9 && d.wrap > 0:
			in, desc = vt.Mutation(rt, d.encode(seed), "outside")
		default:
			in = seed
			for i := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "n"); i > 0; i-- {
				in, desc = vt.Mutation(rt, in, "in")
			}
			in = d.encode(in)
		}
		orig := append([]byte(nil), in...)
		var ok bool
		var again []byte
		var problem error
		var panicked string
		done := make(chan bool)
		go func() {
			defer close(done)
			panicked = vt.Try(func() { ok, again, problem = d.run(in) })
		}()
		select {
		case <-done:
		case <-time.After(limit):
			rt.Fatalf("%s: still busy after %v with %q", d.name, limit, orig)
		}
		if panicked != "" {
			rt.Fatalf("%s: %s: %q crashes: %s", d.name, desc, orig, panicked)
		}
		if problem != nil {
			rt.Fatalf("%s: %s: %q: %v", d.name, desc, orig, problem)
		}
		if !bytes.Equal(orig, in) {
			rt.Fatalf("%s: %s: input %q was changed", d.name, desc, orig)
		}
		if ok && again != nil {
			ok2, third, problem := d.run(again)
			if !ok2 || problem != nil || !bytes.Equal(third, again) {
				rt.Fatalf("%s: %s: %q is accepted, but its encoding %q becomes %q (%v, %v)", d.name, desc, orig, again, third, ok2, problem)
			}
		}
		if derived {
			c.NonTrivial(d.name, orig)
		}
		c.Label("%s: accepted %v", d.name, ok)
	})
}

// arbitrary makes data of some kind.
func arbitrary(rt *rapid.T, kind int) []byte {
	switch kind {
	case jsn:
		var v func(depth int) interface{}
		v = func(depth int) interface{} {
			k := rapid.IntRange(0, 7).Draw(rt, "json")
			if depth > 3 && k > 4 {
				k = 0
			}
			switch k {
			case 0:
				return nil
			case 1:
				return rapid.Bool().Draw(rt, "bool")
			case 2:
				return json.Number(rapid.SampledFrom([]string{"0", "-1", "1e400", "18446744073709551616", "0.5", "1e-400", "9223372036854775807"}).Draw(rt, "number"))
			case 3, 4:
				return rapid.SampledFrom([]string{"", "a@b", "AAAA", "====", "\x00", "1.0", "ED25519", "ECDHE25519"}).Draw(rt, "string")
			case 5:
				var l []interface{}
				for i := rapid.IntRange(0, 3).Draw(rt, "len"); i > 0; i-- {
					l = append(l, v(depth+1))
				}
				return l
			default:
				m := map[string]interface{}{}
				for i := rapid.IntRange(0, 3).Draw(rt, "len"); i > 0; i-- {
					m[rapid.SampledFrom([]string{"UIDContent", "Contents", "SIGKEY", "PUBKEYS", "ENTRY", "Map", "Addresses", "Config", "PublicKey", "Signature", "SESSIONANCHOR", "IDENTITY", "", "x"}).Draw(rt, "name")] = v(depth + 1)
				}
				return m
			}
		}
		b, err := json.Marshal(v(0))
		if err != nil {
			return []byte(`{"x":1e999}`)
		}
		return b
	case der:
		var l []*node
		for i := rapid.IntRange(0, 12).Draw(rt, "elements"); i > 0; i-- {
			l = append(l, &node{tag: byte(rapid.SampledFrom([]int{1, 2, 4, 4, 4, 0x30, 0x13}).Draw(rt, "tag")), body: vt.Bytes(40, 0, 1, 32).Draw(rt, "body")})
		}
		return (&node{tag: 0x30, kids: l}).encode()
	default:
		return []byte(rapid.StringOfN(rapid.RuneFrom([]rune("ab@:;,-<>=?\"\\ \t\r\n./0\x00ü世")), 0, 80, -1).Draw(rt, "text"))
	}
}

// mutateText changes lines or parts of lines.
func mutateText(rt *rapid.T, in []byte) ([]byte, string) {
	s := string(in)
	desc := ""
	for i := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "textn"); i > 0; i-- {
		sep := rapid.SampledFrom([]string{"\n", "\n", ":", ";", "=", "-", "@", "\""}).Draw(rt, "sep")
		p := strings.Split(s, sep)
		j := vt.Uniform(rt, len(p), "part")
		op := rapid.IntRange(0, 6).Draw(rt, "textop")
		switch op {
		case 0:
			p = append(append([]string{}, p[:j]...), p[j+1:]...)
		case 1:
			p = append(append(append([]string{}, p[:j+1]...), p[j]), p[j+1:]...)
		case 2:
			p[j] = ""
		case 3:
			p = p[:j]
		case 4:
			p[j] = rapid.SampledFrom([]string{" ", "\r", "=?utf-8?q?=zz?=", "=?x?b?AA?=", "a b", "\x00", "=", "18446744073709551616", "-1", "multipart/mixed", "text/plain", "; boundary=", strings.Repeat("x", 3000), "\xff\xfe", "a@b, ,c@d", "<"}).Draw(rt, "new")
		case 5:
			k := vt.Uniform(rt, len(p), "with")
			p[j], p[k] = p[k], p[j]
		default:
			b, _ := vt.Mutation(rt, []byte(p[j]), "part")
			p[j] = string(b)
		}
		desc += fmt.Sprintf("part %d at %q: op %d; ", j, sep, op)
		s = strings.Join(p, sep)
	}
	return []byte(s), desc
}
