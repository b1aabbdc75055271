// Package x01 decides property X01: a message sent to a nym address reaches
// exactly its owner, unchanged.
package x01

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sync"
	"testing"

	"verif/mixkit"
	"verif/netkit"
	"verif/vt"

	"crypto/ed25519"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var lives = []int64{100, 1000, 5000}

func setup(rt *rapid.T) []*mixkit.Mix {
	var ms []*mixkit.Mix
	for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "mixes"); i < n; i++ {
		var l []int64
		for j, k := 0, rapid.IntRange(0, 3).Draw(rt, "keys"); j < k; j++ {
			l = append(l, rapid.SampledFrom(lives).Draw(rt, "life"))
		}
		ms = append(ms, mixkit.NewMix(fmt.Sprintf("mix@mix%d.mute.one", i), vt.TempDir(), l...))
	}
	return ms
}

func owner(ms []*mixkit.Mix, addr string) *mixkit.Mix {
	for _, m := range ms {
		if m.Addr == addr {
			return m
		}
	}
	return nil
}

func hidden(rt *rapid.T, what string, in []byte, secrets map[string][]byte) {
	for n, s := range secrets {
		if len(s) >= 8 && bytes.Contains(in, s) {
			rt.Fatalf("%s shows the %s", what, n)
		}
		if len(s) >= 300 && bytes.Contains(in, s[100:130]) {
			rt.Fatalf("%s shows part of the %s", what, n)
		}
	}
}

func pad32(b []byte) []byte { o := make([]byte, 32); copy(o, b); return o }

// TestRelay sends messages over a whole chain: optional forwarding mixes, the
// mix of the address, the owner.
func TestRelay(t *testing.T) {
	vt.Check(t, "a message was delivered and opened, or correctly refused for its size, expiry or system", 8000, 150000, func(rt *rapid.T, c *vt.Case) {
		ms := setup(rt)
		al := mixkit.Candidates(ms...)
		tmp := mixkit.Template(rt, al, 50, 60, 500, 990, 1010, 4900, 5100, -50)
		if rapid.IntRange(0, 15).Draw(rt, "othersystem") == 0 {
			tmp.System = rapid.Int32Range(1, 5).Draw(rt, "system")
		}
		mailbox := mixkit.Mailbox(rt, "mailbox")
		nym := vt.Expand(rapid.SampledFrom([]int{0, 1, 20, 31, 32, 33, 50}).Draw(rt, "nymlen"), rapid.Uint32().Draw(rt, "nym"), 0)
		usable := map[string]bool{}
		for _, a := range al {
			if a.Expire > tmp.Expire {
				usable[string(a.Pubkey)] = true
			}
		}
		nymIn := append([]byte{}, nym...)
		addr, err := tmp.NewAddress(mailbox, nym)
		if !bytes.Equal(nymIn, nym) {
			rt.Fatal("nym changed")
		}
		if len(usable) == 0 {
			if err == nil {
				rt.Fatal("address made although no mix key lives long enough")
			}
			c.Label("no mix")
			return
		}
		if err != nil {
			rt.Fatalf("NewAddress: %v", err)
		}
		secrets := map[string][]byte{"secret": tmp.Secret, "mailbox": mailbox, "nym": nym, "padded nym": pad32(nym)}
		hidden(rt, "nym address", addr, secrets)
		hdr := &mixcrypt.ClientMixHeader{
			SenderMinDelay: rapid.Int32Range(0, 1000).Draw(rt, "smin"), SenderMaxDelay: rapid.Int32().Draw(rt, "smax"),
		}
		switch rapid.IntRange(0, 5).Draw(rt, "tokenkind") {
		case 0:
		case 1:
			hdr.Token = []byte{byte(rapid.IntRange(0, 1).Draw(rt, "tok0"))}
		case 2:
			hdr.Token = vt.Expand(rapid.SampledFrom([]int{60000, 64500, 64800, 65000, 65100, 65200, 65300, 65400, 65535, 65600, 70000, 131072 + 100}).Draw(rt, "bigtoken")+rapid.IntRange(0, 99).Draw(rt, "more"), 7, 0)
		default:
			hdr.Token = vt.Expand(rapid.IntRange(2, 600).Draw(rt, "tokenlen"), rapid.Uint32().Draw(rt, "token"), 0)
		}
		token := append([]byte{}, hdr.Token...)
		size := rapid.SampledFrom([]int{0, 1, 255, 256, 4095, 4096, 4097, 10000, 28000, 65535, 65536, 65537}).Draw(rt, "size")
		if rapid.Bool().Draw(rt, "anysize") {
			size = rapid.IntRange(4096, 40000).Draw(rt, "size2")
		}
		msg := vt.Expand(size, rapid.Uint32().Draw(rt, "msg"), rapid.IntRange(0, 4).Draw(rt, "msgkind"))
		secrets["message"] = msg
		parsed, err := nymaddr.ParseAddress(addr)
		if tmp.Expire < times.Now()-2 {
			if err == nil {
				rt.Fatal("expired address parsed")
			}
			if _, _, err := hdr.NewRelayMessage(addr, msg); err == nil {
				rt.Fatal("message made for expired address")
			}
			c.Label("expired")
			return
		}
		if err != nil {
			rt.Fatalf("ParseAddress: %v", err)
		}
		if parsed.Expire != tmp.Expire || parsed.SingleUse != tmp.SingleUse || !usable[string(parsed.MixPubKey)] {
			rt.Fatalf("address does not show what was asked for: %+v", parsed)
		}
		mix := owner(ms, string(parsed.MixAddress))
		if mix == nil {
			rt.Fatal("address names no mix")
		}
		pk := new([32]byte)
		copy(pk[:], parsed.MixPubKey)
		if mix.KL.GetPrivateKey(pk) == nil || !bytes.Equal(parsed.TokenPubKey, mix.KL.PublicKey[:]) {
			rt.Fatal("address mixes up keys of mixes")
		}
		msgIn := append([]byte{}, msg...)
		env, to, err := hdr.NewRelayMessage(addr, msg)
		if err != nil {
			if len(token) > 60000 {
				c.Label("token too long")
				return
			}
			rt.Fatalf("NewRelayMessage: %v", err)
		}
		if to != mix.Addr {
			rt.Fatalf("message to be delivered to %q", to)
		}
		if len(hdr.RevokeID) != 32 {
			rt.Fatalf("revoke ID %x", hdr.RevokeID)
		}
		hidden(rt, "relay message", env, secrets)
		if !bytes.Equal(msg, msgIn) || !bytes.Equal(hdr.Token, token) {
			rt.Fatal("input changed")
		}
		// wrap it into further hops
		type hop struct {
			m    *mixkit.Mix
			next string
		}
		var hops []hop
		inner := env
		for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "hops"); i < n && len(al) > 0; i++ {
			if len(inner) > 64000 {
				break
			}
			a := al[rapid.IntRange(0, len(al)-1).Draw(rt, "via")]
			k := new([32]byte)
			copy(k[:], a.Pubkey)
			fh := &mixcrypt.ClientMixHeader{SenderMinDelay: int32(i), SenderMaxDelay: int32(i + 7)}
			next := to
			out, via, err := fh.NewForwardMessage(next, k, inner)
			if err != nil {
				rt.Fatalf("NewForwardMessage: %v", err)
			}
			if via != next {
				rt.Fatalf("forward reports next hop %q for %q", via, next)
			}
			hops = append([]hop{{owner(ms, a.Address), next}}, hops...)
			inner, to = out, a.Address
		}
		for i, h := range hops {
			hidden(rt, "forward message", inner, secrets)
			rs, err := mixkit.Receive(h.m.KL.GetPrivateKey, inner)
			if err != nil && len(inner) > 65536 {
				c.Label("forward too long")
				return
			}
			if err != nil && len(inner) < 1024+200 {
				c.Label("forward too short")
				return
			}
			if err != nil {
				rt.Fatalf("hop %d: %v", i, err)
			}
			if rs.NymAddressPrivate != nil || len(rs.UniqueTest) != 1 || rs.UniqueTest[0].Expire < times.Now()+mixcrypt.ExpireReceive-5 {
				rt.Fatalf("hop %d: %+v", i, rs)
			}
			if mark := sha256.Sum256(rs.Message[:256]); !bytes.Equal(rs.UniqueTest[0].Hash, mark[:]) {
				rt.Fatalf("hop %d: the mark for detecting replays is not that of the message", i)
			}
			n := len(hops) - 1 - i
			if rs.MixHeader.SenderMinDelay != int32(n) || rs.MixHeader.SenderMaxDelay != int32(n+7) || rs.MixHeader.Token != nil || rs.MixHeader.RevokeID != nil {
				rt.Fatalf("hop %d: header %+v", i, rs.MixHeader)
			}
			out, next, err := rs.Send()
			if err != nil || next != h.next {
				rt.Fatalf("hop %d: send to %q (%v)", i, next, err)
			}
			inner = out
		}
		if !bytes.Equal(inner, env) {
			rt.Fatal("forwarding changed the message")
		}
		// the mix of the address
		for _, m := range ms {
			if m == mix {
				continue
			}
			if _, err := mixkit.Receive(m.KL.GetPrivateKey, env); err == nil {
				rt.Fatal("another mix opened the message")
			}
		}
		rs, err := mixkit.Receive(mix.KL.GetPrivateKey, env)
		if len(msg) < mixcrypt.RelayMinSize || len(msg) > mixcrypt.RelayMaxSize {
			if err == nil {
				rt.Fatalf("message of %d bytes relayed", len(msg))
			}
			c.Label("size refused")
			c.NonTrivial("size", len(msg))
			return
		}
		if err != nil {
			rt.Fatalf("ReceiveMessage (message %d, token %d): %v", len(msg), len(token), err)
		}
		h := rs.MixHeader
		if h.MessageType != mixcrypt.MessageTypeRelay || h.SenderMinDelay != hdr.SenderMinDelay || h.SenderMaxDelay != hdr.SenderMaxDelay ||
			!bytes.Equal(h.RevokeID, hdr.RevokeID) || !bytes.Equal(h.Address, addr) {
			rt.Fatalf("header %+v, sent %+v", h, hdr)
		}
		if !(bytes.Equal(h.Token, token) || (len(token) == 1 && token[0] == 0 && len(h.Token) == 0)) {
			rt.Fatalf("token of %d bytes became %d bytes", len(token), len(h.Token))
		}
		p := rs.NymAddressPrivate
		if p.System != tmp.System || !bytes.Equal(p.Address, mailbox) || p.Expire != tmp.Expire || p.SingleUse != tmp.SingleUse ||
			p.MinDelay != tmp.MinDelay || p.MaxDelay != tmp.MaxDelay {
			rt.Fatalf("mix learns %+v, template %+v", p, tmp)
		}
		hash := sha256.Sum256(msg[:256])
		want := 1
		if tmp.SingleUse {
			want = 2
		}
		if len(rs.UniqueTest) != want || !bytes.Equal(rs.UniqueTest[0].Hash, hash[:]) || rs.UniqueTest[0].Expire != tmp.Expire {
			rt.Fatalf("uniqueness data %+v", rs.UniqueTest)
		}
		if tmp.SingleUse {
			u := rs.UniqueTest[1]
			if u.Expire != tmp.Expire || len(u.Hash) != 32 {
				rt.Fatalf("uniqueness data %+v", u)
			}
			// a second message to the same address has the same mark
			e2, _, err := new(mixcrypt.ClientMixHeader).NewRelayMessage(addr, vt.Expand(5000, 1, 0))
			vt.InfraIf(err)
			r2, err := mixkit.Receive(mix.KL.GetPrivateKey, e2)
			if err != nil || len(r2.UniqueTest) != 2 || !bytes.Equal(r2.UniqueTest[1].Hash, u.Hash) {
				rt.Fatal("second use of a single-use address is not marked as such")
			}
			// and one to another address another mark
			if a2, err := tmp.NewAddress(mailbox, nym); err == nil {
				e3, to3, err := new(mixcrypt.ClientMixHeader).NewRelayMessage(a2, msg)
				vt.InfraIf(err)
				r3, err := mixkit.Receive(owner(ms, to3).KL.GetPrivateKey, e3)
				if err != nil || len(r3.UniqueTest) != 2 || bytes.Equal(r3.UniqueTest[1].Hash, u.Hash) {
					rt.Fatal("single-use addresses share a mark")
				}
			}
		}
		if !bytes.Equal(rs.Message, msg) {
			rt.Fatal("mix sees another message")
		}
		mail, dest, err := rs.Send()
		if tmp.System != 0 {
			if err == nil {
				rt.Fatal("delivered for unknown system")
			}
			c.Label("other system")
			return
		}
		if err != nil || dest != string(mailbox)+"mute.one" {
			rt.Fatalf("delivery to %q: %v", dest, err)
		}
		hidden(rt, "delivered mail", mail, secrets)
		got, gotNym, err := mixcrypt.ReceiveFromMix(tmp, mailbox, mail)
		if err != nil {
			rt.Fatalf("ReceiveFromMix: %v", err)
		}
		if !bytes.Equal(got, msg) || !bytes.Equal(gotNym, pad32(nym)) {
			rt.Fatalf("message or nym changed (nym %x, want %x)", gotNym, pad32(nym))
		}
		// the owner can rely on the secret alone
		got, gotNym, err = mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: tmp.Secret}, mailbox, mail)
		if err != nil || !bytes.Equal(got, msg) || !bytes.Equal(gotNym, pad32(nym)) {
			rt.Fatal("opening needs more than the secret")
		}
		// sent twice: nothing visible in common but the mix key
		mail2, _, err := rs.Send()
		if err != nil || bytes.Contains(mail2, mail[len(mail)-64:]) {
			rt.Fatal("delivering twice gives related mails")
		}
		c.Label("hops %d", len(hops))
		c.NonTrivial(len(msg), len(token), len(hops), tmp.SingleUse, len(ms), len(al), len(nym))
		c.Sample("%d mixes, %d keys, message %d bytes, token %d, nym %d, hops %d, mailbox %q", len(ms), len(al), len(msg), len(token), len(nym), len(hops), mailbox)
	})
}

// TestNewNymAddress drives the address creation of the command line tools
// against a mix server.
func TestNewNymAddress(t *testing.T) {
	ca := netkit.NewCA()
	var mu sync.Mutex
	var body []byte
	port, ls := netkit.Ports("127.0.0.1")
	srv := ca.Serve(ls[0], http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		if r.URL.Path == "/keys" {
			w.Write(body)
		}
	}))
	defer srv.Close()
	client.GetMixAddress = func(string) (string, error) { return "127.0.0.1:" + port, nil }
	util.MixAddress = "mix@mute.one"
	vt.Check(t, "an address was made and a message sent to it was opened", 150, 1500, func(rt *rapid.T, c *vt.Case) {
		ms := setup(rt)[:1]
		st := ms[0].KL.GetStatement()
		b, err := json.Marshal(st)
		vt.InfraIf(err)
		mu.Lock()
		body = b
		mu.Unlock()
		secret := vt.Expand(64, rapid.Uint32().Draw(rt, "secret"), 0)
		id := rapid.SampledFrom([]string{"alice@mute.berlin", "bob@mute.one", "carel-1@a.b"}).Draw(rt, "id")
		k := mixkit.SigKey()
		pub := new([ed25519.PublicKeySize]byte)
		copy(pub[:], k[32:])
		server := rapid.SampledFrom([]string{"mute.one", "accounts.mute.one", "rr.accounts.mute.one"}).Draw(rt, "server")
		exp := times.Now() + rapid.SampledFrom([]int64{50, 900, 1100, 6000}).Draw(rt, "exp")
		single := rapid.Bool().Draw(rt, "single")
		min, max := rapid.Int32Range(0, 100).Draw(rt, "min"), rapid.Int32Range(100, 200).Draw(rt, "max")
		usable := false
		if st != nil {
			for _, a := range st.Addresses {
				usable = usable || a.Expire > exp
			}
		}
		mixAddr, nymAddr, err := util.NewNymAddress("mute.one", secret, exp, single, min, max, id, pub, server, ca.PEM)
		if !usable {
			if err == nil {
				rt.Fatal("address without usable mix key")
			}
			c.Label("no mix")
			return
		}
		if id == "carel-1@a.b" {
			if err == nil {
				rt.Fatal("unmapped id accepted")
			}
			return
		}
		if err != nil {
			rt.Fatalf("NewNymAddress: %v", err)
		}
		raw, err := base64.Decode(nymAddr)
		if err != nil || mixAddr != ms[0].Addr {
			rt.Fatalf("mix address %q, %v", mixAddr, err)
		}
		msg := vt.Expand(6000, rapid.Uint32().Draw(rt, "msg"), 0)
		env, to, err := new(mixcrypt.ClientMixHeader).NewRelayMessage(raw, msg)
		if err != nil || to != ms[0].Addr {
			rt.Fatal(to, err)
		}
		rs, err := mixkit.Receive(ms[0].KL.GetPrivateKey, env)
		if err != nil {
			rt.Fatal(err)
		}
		if rs.NymAddressPrivate.MinDelay != min || rs.NymAddressPrivate.MaxDelay != max || rs.NymAddressPrivate.SingleUse != single || rs.NymAddressPrivate.Expire != exp {
			rt.Fatalf("mix learns %+v", rs.NymAddressPrivate)
		}
		mail, dest, err := rs.Send()
		if err != nil || dest != hex.EncodeToString(pub[:])+"@"+server {
			rt.Fatalf("destination %q, %v", dest, err)
		}
		got, nym, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: secret}, util.MailboxAddress(pub, server), mail)
		want := sha256.Sum256([]byte(id))
		if err != nil || !bytes.Equal(got, msg) || !bytes.Equal(nym, want[:]) {
			rt.Fatalf("owner: %v, nym %x", err, nym)
		}
		c.NonTrivial(id, server, single, exp-times.Now() > 500)
		c.Sample("%s at %s, expiry %d", id, server, exp)
	})
}

// TestRandom lets the random source fail after any number of bytes.
func TestRandom(t *testing.T) {
	m := mixkit.NewMix("mix@mix.mute.one", vt.TempDir(), 1000)
	saved1, saved2 := nymaddr.Rand, mixcrypt.Rand
	defer func() { nymaddr.Rand, mixcrypt.Rand = saved1, saved2 }()
	vt.Check(t, "the random source failed in address creation, sending, forwarding or delivery", 3000, 20000, func(rt *rapid.T, c *vt.Case) {
		tmp := nymaddr.AddressTemplate{Secret: []byte("secret"), MixCandidates: mixkit.Candidates(m), Expire: times.Now() + 100, SingleUse: rapid.Bool().Draw(rt, "single")}
		n := rapid.IntRange(0, 140).Draw(rt, "bytes")
		stage := rapid.IntRange(0, 3).Draw(rt, "stage")
		short := rapid.Bool().Draw(rt, "short")
		msg := vt.Expand(5000, rapid.Uint32().Draw(rt, "msg"), 0)
		fail := func(s int) {
			nymaddr.Rand, mixcrypt.Rand = saved1, saved2
			if s == stage {
				if short {
					nymaddr.Rand, mixcrypt.Rand = &vt.FailAfter{R: saved1, N: n}, &vt.FailAfter{R: saved2, N: n}
				} else {
					nymaddr.Rand, mixcrypt.Rand = io.LimitReader(saved1, int64(n)), io.LimitReader(saved2, int64(n))
				}
			}
		}
		defer fail(-1)
		failed := func(s int, err error) bool {
			if err == nil {
				return false
			}
			if s != stage {
				rt.Fatalf("stage %d: %v", s, err)
			}
			c.Label("stage %d refused", s)
			c.NonTrivial(s, n, short)
			return true
		}
		mailbox, nym := []byte("mailbox@accounts."), vt.Expand(32, 3, 0)
		fail(0)
		addr, err := tmp.NewAddress(mailbox, nym)
		if failed(0, err) {
			return
		}
		fail(1)
		env, _, err := new(mixcrypt.ClientMixHeader).NewRelayMessage(addr, msg)
		if failed(1, err) {
			return
		}
		fail(2)
		k := new([32]byte)
		copy(k[:], tmp.MixCandidates[0].Pubkey)
		fwd, _, err := new(mixcrypt.ClientMixHeader).NewForwardMessage(m.Addr, k, env)
		if failed(2, err) {
			return
		}
		fail(-1)
		rs, err := mixkit.Receive(m.KL.GetPrivateKey, fwd)
		if err != nil || !bytes.Equal(rs.Message, env) {
			rt.Fatal("forward message lost: ", err)
		}
		rs, err = mixkit.Receive(m.KL.GetPrivateKey, env)
		if err != nil || !bytes.Equal(rs.Message, msg) {
			rt.Fatal("message lost: ", err)
		}
		fail(3)
		mail, _, err := rs.Send()
		if failed(3, err) {
			return
		}
		got, gotNym, err := mixcrypt.ReceiveFromMix(tmp, mailbox, mail)
		if err != nil || !bytes.Equal(got, msg) || !bytes.Equal(gotNym, nym) {
			rt.Fatal("mail lost: ", err)
		}
		need := 32
		if n < need {
			rt.Fatalf("stage %d worked with only %d random bytes", stage, n)
		}
		c.Label("enough")
	})
}
