// Package u02 decides property U02: key-init messages are accepted only when
// genuine, current and unmodified.
package u02

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"testing"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

func mk(id string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vt.InfraIf(err)
	return m
}

var b64 = base64.StdEncoding

const guard = 5 // seconds around a boundary that are not generated

// instant generates a time relative to now; all are at least guard seconds
// away from now and from now+90 days.
func instant(rt *rapid.T, label string) (int64, string) {
	day := int64(24 * 3600)
	off := rapid.SampledFrom([]int64{-400 * day, -90 * day, -day, -3600, -guard, guard, 3600, day, 45 * day, 90*day - guard, 90*day + guard, 91 * day, 4000 * day, 5 * day, 10 * day, 20 * day, 80 * day}).Draw(rt, label)
	if off != guard && off != -guard && off != 90*day-guard && off != 90*day+guard {
		off += int64(rapid.IntRange(-1000, 1000).Draw(rt, label+"jitter"))
	}
	return off, fmt.Sprint(off)
}

// TestCreate: which windows are accepted at creation, and what a created
// message yields to whom.
func TestCreate(t *testing.T) {
	users := []*uid.Message{mk("alice@mute.berlin"), mk("bob@mute.berlin"), mk("carol@gmail.com")}
	vt.Check(t, "generated owner, window, counter, addresses and domain lists; non-trivial: the message was created and verified under every key and list", 1500, 60000, func(rt *rapid.T, c *vt.Case) {
		if rapid.IntRange(0, 50).Draw(rt, "fresh") == 0 {
			users[0] = mk("alice@mute.berlin")
		}
		oi := rapid.IntRange(0, 2).Draw(rt, "owner")
		owner := users[oi]
		now := times.Now()
		naOff, _ := instant(rt, "notafter")
		notafter := uint64(now + naOff)
		notbefore := uint64(0)
		switch rapid.IntRange(0, 3).Draw(rt, "nb") {
		case 1:
			notbefore = notafter + uint64(int64(rapid.IntRange(-2, 2).Draw(rt, "nbd")))
		case 2:
			off, _ := instant(rt, "notbefore")
			notbefore = uint64(now + off)
		case 3:
			notbefore = ^uint64(0)
		}
		if rapid.IntRange(0, 15).Draw(rt, "max") == 0 {
			notafter = rapid.SampledFrom([]uint64{0, ^uint64(0), 1 << 63}).Draw(rt, "extreme")
			naOff = 1 << 40
			if notafter == 0 {
				naOff = -1
			}
		}
		count := rapid.SampledFrom([]uint64{0, 0, 1, 7, ^uint64(0)}).Draw(rt, "count")
		fallback := rapid.Bool().Draw(rt, "fallback")
		repo := rapid.SampledFrom([]string{owner.Domain(), owner.Domain(), owner.Domain(), "other.org", "", "Mute.berlin"}).Draw(rt, "repo")
		mix := rapid.SampledFrom([]string{"", "mix@mute.one", "<>&\"é"}).Draw(rt, "mix")
		nym := rapid.SampledFrom([]string{"", "nymaddress", "\x00\\"}).Draw(rt, "nym")
		ki, hash, priv, err := owner.KeyInit(count, notafter, notbefore, fallback, repo, mix, nym, cipher.RandReader)
		want := notbefore < notafter && naOff > 0 && naOff <= int64(uid.MaxNotAfter) && repo == owner.Domain()
		desc := fmt.Sprintf("notafter now%+d notbefore %d repo %q", naOff, notbefore, repo)
		if (err == nil) != want {
			rt.Fatalf("KeyInit(%s): %v, want ok %v", desc, err, want)
		}
		c.Label("created=%v", want)
		if err != nil {
			return
		}
		if (ki.Check() == nil) != (count == 0) {
			rt.Fatalf("Check with count %d: %v", count, ki.Check())
		}
		if rapid.Bool().Draw(rt, "json") {
			r, err := uid.NewJSONKeyInit(ki.JSON())
			if err != nil || !bytes.Equal(r.JSON(), ki.JSON()) {
				rt.Fatalf("JSON not stable: %v", err)
			}
			ki = r
		}
		if ki.MsgCount() != count || ki.Contents.NOTAFTER != notafter || ki.Contents.NOTBEFORE != notbefore || ki.Contents.FALLBACK != fallback || ki.Contents.REPOURI != repo {
			rt.Fatalf("wrong contents: %s", ki.JSON())
		}
		for i, u := range users {
			sa, err := ki.SessionAnchor(u.SigPubKey())
			if (err == nil) != (i == oi) {
				rt.Fatalf("anchor of user %d under key of %d: %v", oi, i, err)
			}
			ke, err2 := ki.KeyEntryECDHE25519(u.SigPubKey())
			if (err2 == nil) != (i == oi) {
				rt.Fatalf("key entry of user %d under key of %d: %v", oi, i, err2)
			}
			if i == oi {
				skh, _ := u.SigKeyHash()
				if ki.SigKeyHash() != skh {
					rt.Fatalf("wrong SIGKEYHASH")
				}
				if sa.MIXADDRESS != mix || sa.NymAddress() != nym || len(sa.PFKEYS) != 1 {
					rt.Fatalf("anchor addresses differ: %+v", sa)
				}
				if ke.HASH != hash || ke.FUNCTION != "ECDHE25519" || !uid.KeyEntryEqual(ke, &sa.PFKEYS[0]) {
					rt.Fatalf("key entry differs: %s", ke.JSON())
				}
				if err := ke.SetPrivateKey(priv); err != nil {
					rt.Fatalf("private key: %v", err)
				}
				raw, _ := b64.DecodeString(priv)
				p, err := ecdh.X25519().NewPrivateKey(raw)
				if err != nil || !bytes.Equal(p.PublicKey().Bytes(), ke.PublicKey32()[:]) || ke.PrivateKey() != priv {
					rt.Fatalf("private key does not belong to the key entry")
				}
				if err := sa.SetPrivateKey(priv); err != nil || sa.PrivateKey() != priv {
					rt.Fatalf("anchor private key: %v", err)
				}
			}
			for _, list := range [][]string{{repo}, {"x", repo}, nil, {}, {"x"}, {""}, {repo + "x", "x" + repo}} {
				wantV := i == oi && len(list) > 0 && list[len(list)-1] == repo
				if err := ki.Verify(list, u.SigPubKey()); (err == nil) != wantV {
					rt.Fatalf("Verify(%q, key %d) of %s: %v, want ok %v", list, i, desc, err, wantV)
				}
			}
		}
		c.NonTrivial(string(ki.JSON()))
		c.Sample("%s count %d fallback %v", desc, count, fallback)
	})
}

// TestMutated: no change of a key-init message is accepted.
func TestMutated(t *testing.T) {
	owner := mk("alice@mute.berlin")
	vt.Check(t, "1-3 random changes of the JSON form; non-trivial: it still decodes and differs from the original", 8000, 300000, func(rt *rapid.T, c *vt.Case) {
		ki, _, _, err := owner.KeyInit(0, uint64(times.Now()+86400), 0, false, "mute.berlin", "mix", "nym", cipher.RandReader)
		vt.InfraIf(err)
		pre := rapid.SampledFrom([]string{"/Contents", "/Contents/SESSIONANCHOR", "/SIGNATURE", "/"}).Draw(rt, "where")
		js, desc := vt.MutateJSON(rt, ki.JSON(), "mut", pre)
		r, err := uid.NewJSONKeyInit(js)
		if err != nil {
			c.Label("refused by decoder")
			return
		}
		if bytes.Equal(r.JSON(), ki.JSON()) {
			c.Label("equivalent")
			return
		}
		if a, err := b64.DecodeString(r.SIGNATURE); err == nil {
			b, _ := b64.DecodeString(ki.SIGNATURE)
			r2 := *r
			r2.SIGNATURE = ki.SIGNATURE
			if bytes.Equal(a, b) && bytes.Equal(r2.JSON(), ki.JSON()) {
				c.Label("equivalent")
				return
			}
		}
		var errV error
		if p := vt.Try(func() { errV = r.Verify([]string{"mute.berlin", r.Contents.REPOURI}, owner.SigPubKey()) }); p != "" {
			rt.Fatalf("%s: Verify %s", desc, p)
		}
		if errV == nil {
			rt.Fatalf("%s: accepted", desc)
		}
		if p := vt.Try(func() {
			r.Check()
			r.KeyEntryECDHE25519(owner.SigPubKey())
		}); p != "" {
			rt.Fatalf("%s: %s", desc, p)
		}
		// the anchor is protected by its own hash
		sa, errA := func() (sa *uid.SessionAnchor, err error) {
			if p := vt.Try(func() { sa, err = r.SessionAnchor(owner.SigPubKey()) }); p != "" {
				rt.Fatalf("%s: SessionAnchor %s", desc, p)
			}
			return
		}()
		if errA == nil {
			orig, err := ki.SessionAnchor(owner.SigPubKey())
			vt.InfraIf(err)
			if r.Contents.SESSIONANCHORHASH == ki.Contents.SESSIONANCHORHASH && fmt.Sprint(ajson(sa)) != fmt.Sprint(ajson(orig)) {
				rt.Fatalf("%s: anchor changed under the same hash", desc)
			}
		}
		c.NonTrivial(string(js))
		c.Sample("%s", desc)
	})
}

func ajson(sa *uid.SessionAnchor) string {
	s := sa.MIXADDRESS + "|" + sa.NYMADDRESS
	for _, k := range sa.PFKEYS {
		s += "|" + string(k.JSON())
	}
	return s
}

// sorted JSON with the members in alphabetical order.
func sorted(v interface{}) []byte {
	b, err := json.Marshal(v) // maps are sorted by encoding/json
	vt.InfraIf(err)
	return b
}

// TestResigned: contents chosen by the key owner, correctly signed, are
// accepted exactly when they satisfy the documented predicate.
func TestResigned(t *testing.T) {
	owner, other := mk("alice@mute.berlin"), mk("bob@mute.berlin")
	vt.Check(t, "contents with generated times, domain, key hash, session anchor (key list, function, hash, addresses, damaged or truncated encryption) signed by owner or another; oracle: independent predicate; non-trivial: some part differs from a plain message", 6000, 200000, func(rt *rapid.T, c *vt.Case) {
		now := times.Now()
		na, _ := instant(rt, "notafter")
		signer := rapid.SampledFrom([]*uid.Message{owner, owner, owner, other}).Draw(rt, "signer")
		odd := map[string]bool{}
		pick := func(what string, p int) bool {
			v := rapid.IntRange(0, p).Draw(rt, what) == 0
			odd[what] = odd[what] || v
			return v
		}
		pubKey, _ := b64.DecodeString(owner.SigPubKey())
		keyHash := sha512.Sum512(pubKey)
		keyHash2 := sha512.Sum512(keyHash[:])
		cont := map[string]interface{}{
			"VERSION": "1.0", "MSGCOUNT": 0, "NOTAFTER": uint64(now + na), "NOTBEFORE": uint64(0), "FALLBACK": rapid.Bool().Draw(rt, "fb"),
			"SIGKEYHASH": b64.EncodeToString(keyHash2[:]), "REPOURI": "mute.berlin",
		}
		want := na > 0 && signer == owner
		if pick("notbefore", 3) {
			nb := rapid.SampledFrom([]uint64{uint64(now + na), uint64(now+na) - 1, uint64(now+na) + 1, ^uint64(0)}).Draw(rt, "nb")
			cont["NOTBEFORE"] = nb
			want = want && nb < uint64(now+na)
		}
		if pick("version", 8) {
			cont["VERSION"] = "2.0"
		}
		if pick("repo", 8) {
			cont["REPOURI"] = rapid.SampledFrom([]string{"", "gmail.com", "MUTE.BERLIN"}).Draw(rt, "repov")
			want = false
		}
		if pick("keyhash", 8) {
			cont["SIGKEYHASH"] = rapid.SampledFrom([]string{"", "AAAA", b64.EncodeToString(keyHash[:])}).Draw(rt, "kh")
			want = false
		}
		// session anchor
		var keys []interface{}
		good := -1
		nk := rapid.SampledFrom([]int{1, 1, 1, 1, 0, 2, 3}).Draw(rt, "keys")
		odd["keycount"] = nk != 1
		for i := 0; i < nk; i++ {
			b := vt.Expand(32, rapid.Uint32().Draw(rt, "key"), 0)
			f := "ECDHE25519"
			if pick("function", 6) {
				f = rapid.SampledFrom([]string{"", "ED25519", "ED25510", "ecdhe25519"}).Draw(rt, "fun")
			}
			ok := true
			if pick("keylen", 8) {
				b = vt.Expand(rapid.SampledFrom([]int{0, 1, 31, 33, 64}).Draw(rt, "klen"), 1, 0)
				ok = false
			}
			h := sha512.Sum512(b)
			ke := map[string]interface{}{"CIPHERSUITE": uid.DefaultCiphersuite, "FUNCTION": f, "HASH": b64.EncodeToString(h[:]), "PUBKEY": b64.EncodeToString(b)}
			if pick("entryhash", 8) {
				ke["HASH"] = rapid.SampledFrom([]string{"", "AAAA", b64.EncodeToString(keyHash[:])}).Draw(rt, "eh")
				ok = false
			}
			if pick("suite", 8) {
				ke["CIPHERSUITE"] = "NACL"
				ok = false
			}
			if f == "ECDHE25519" && good < 0 {
				good = 0
				if ok {
					good = 1
				}
			}
			keys = append(keys, ke)
		}
		want = want && good == 1
		anchor := map[string]interface{}{"MIXADDRESS": rapid.SampledFrom([]string{"", "mix"}).Draw(rt, "mix"), "NYMADDRESS": "nym", "PFKEYS": keys}
		plain := sorted(anchor)
		h := sha512.Sum512(plain)
		cont["SESSIONANCHORHASH"] = b64.EncodeToString(h[:])
		anchorOK := true
		if pick("anchorhash", 8) {
			cont["SESSIONANCHORHASH"] = rapid.SampledFrom([]string{"", "AAAA", b64.EncodeToString(keyHash[:])}).Draw(rt, "ah")
			anchorOK = false
		}
		iv := vt.Expand(16, rapid.Uint32().Draw(rt, "iv"), 0)
		blk, _ := aes.NewCipher(keyHash[:32])
		enc := make([]byte, len(plain))
		stdcipher.NewCTR(blk, iv).XORKeyStream(enc, plain)
		enc = append(iv, enc...)
		if pick("enc", 5) {
			switch rapid.IntRange(0, 2).Draw(rt, "encop") {
			case 0:
				enc = enc[:rapid.IntRange(0, 20).Draw(rt, "short")]
			case 1:
				enc = enc[:rapid.IntRange(17, len(enc)-1).Draw(rt, "cut")]
			case 2:
				i := rapid.IntRange(0, 15).Draw(rt, "ivpos")
				enc[i] ^= 1
			}
			anchorOK = false
		}
		cont["SESSIONANCHOR"] = b64.EncodeToString(enc)
		want = want && anchorOK
		cj := sorted(cont)
		k := signer.PrivateSigKey64()
		sig := ed25519.Sign(ed25519.PrivateKey(k[:]), cj)
		sigS := b64.EncodeToString(sig)
		if pick("sig", 8) {
			m, d := vt.Mutation(rt, sig, "sig")
			odd[d] = true
			sigS = b64.EncodeToString(m)
			want = false
		}
		js := sorted(map[string]interface{}{"Contents": cont, "SIGNATURE": sigS})
		ki, err := uid.NewJSONKeyInit(js)
		if err != nil {
			rt.Fatalf("decode %s: %v", js, err)
		}
		key := owner.SigPubKey()
		if pick("pubkey", 12) {
			// another form of the verification key
			raw, _ := b64.DecodeString(key)
			raw = raw[:rapid.SampledFrom([]int{0, 1, 31}).Draw(rt, "pklen")]
			key = b64.EncodeToString(raw)
			// make the key hash fit, so that the key itself is what fails
			kh := sha512.Sum512(raw)
			kh2 := sha512.Sum512(kh[:])
			ki.Contents.SIGKEYHASH = b64.EncodeToString(kh2[:])
			if anchorOK {
				blk, _ := aes.NewCipher(kh[:32])
				enc := make([]byte, len(plain))
				stdcipher.NewCTR(blk, iv).XORKeyStream(enc, plain)
				ki.Contents.SESSIONANCHOR = b64.EncodeToString(append(append([]byte{}, iv...), enc...))
			}
			want = false
		}
		var parts []string
		for o, v := range odd {
			if v {
				parts = append(parts, o)
			}
		}
		sort.Strings(parts)
		desc := fmt.Sprintf("notafter now%+d, odd %v, signer %s", na, parts, signer.Identity())
		if p := vt.Try(func() { err = ki.Verify([]string{"mute.berlin"}, key) }); p != "" {
			rt.Fatalf("Verify (%s): %s", desc, p)
		}
		if (err == nil) != want {
			rt.Fatalf("Verify (%s) = %v, want ok %v: %s", desc, err, want, js)
		}
		var srv error
		if p := vt.Try(func() { srv = ki.VerifySrvSig(sigS, key) }); p != "" {
			rt.Fatalf("VerifySrvSig (%s): %s", desc, p)
		}
		if srv == nil {
			rt.Fatalf("contents signature accepted as server signature")
		}
		c.Label("accepted=%v", want)
		for _, p := range parts {
			if len(p) < 14 {
				c.Label(p)
			}
		}
		if len(parts) > 0 || signer == other || na <= 0 {
			c.NonTrivial(string(js))
		}
		c.Sample("%s", desc)
	})
}

// TestServerSignature: the server signature of a key-init message.
func TestServerSignature(t *testing.T) {
	owner := mk("alice@mute.berlin")
	k1, err := cipher.Ed25519Generate(cipher.RandReader)
	vt.InfraIf(err)
	k2, err := cipher.Ed25519Generate(cipher.RandReader)
	vt.InfraIf(err)
	vt.Check(t, "server signatures of a key-init message under changed message, signature or key; non-trivial: one of them changed", 3000, 60000, func(rt *rapid.T, c *vt.Case) {
		ki, _, _, err := owner.KeyInit(0, uint64(times.Now()+86400), 0, false, "mute.berlin", "", "", cipher.RandReader)
		vt.InfraIf(err)
		sig := ki.Sign(k1)
		p1 := b64.EncodeToString(k1.PublicKey()[:])
		if err := ki.VerifySrvSig(sig, p1); err != nil {
			rt.Fatalf("genuine server signature refused: %v", err)
		}
		var desc string
		p := vt.Try(func() {
			switch rapid.IntRange(0, 3).Draw(rt, "what") {
			case 0:
				desc = "other server key"
				err = ki.VerifySrvSig(sig, b64.EncodeToString(k2.PublicKey()[:]))
			case 1:
				raw, _ := b64.DecodeString(sig)
				var m []byte
				m, desc = vt.Mutation(rt, raw, "sig")
				err = ki.VerifySrvSig(b64.EncodeToString(m), p1)
			case 2:
				var m []byte
				m, desc = vt.Mutation(rt, k1.PublicKey()[:], "key")
				desc = "key " + desc
				err = ki.VerifySrvSig(sig, b64.EncodeToString(m))
			case 3:
				js, d := vt.MutateJSON(rt, ki.JSON(), "mut", "/")
				r, errJ := uid.NewJSONKeyInit(js)
				if errJ != nil || bytes.Equal(r.JSON(), ki.JSON()) {
					err = fmt.Errorf("skip")
					return
				}
				desc = d
				err = r.VerifySrvSig(sig, p1)
			}
		})
		if p != "" {
			rt.Fatalf("%s: %s", desc, p)
		}
		if err == nil {
			rt.Fatalf("accepted with %s", desc)
		}
		c.NonTrivial(desc)
		c.Sample("%s", desc)
	})
}
