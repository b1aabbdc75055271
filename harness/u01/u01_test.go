// Package u01 decides property U01: user ID messages verify iff unmodified and
// signed by the right key.
package u01

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

func ident(rt *rapid.T, label string) string {
	lp := rapid.StringMatching(`[a-ik-np-z2-9]{1,4}([-.]?[a-ik-np-z2-9]{2,8}){1,3}`).Draw(rt, label+"lp")
	dom := rapid.SampledFrom([]string{"mute.berlin", "a", "gmail.com", "x.y.z"}).Draw(rt, label+"dom")
	if rapid.IntRange(0, 9).Draw(rt, label+"ks") == 0 {
		lp = "keyserver"
	}
	return lp + "@" + dom
}

func lastEntry(rt *rapid.T) string {
	if rapid.Bool().Draw(rt, "testentry") {
		return hashchain.TestEntry
	}
	b := vt.Expand(hashchain.EntryByteLen, rapid.Uint32().Draw(rt, "entry"), 0)
	b[32] = 1
	return base64.StdEncoding.EncodeToString(b)
}

type made struct {
	m      *uid.Message
	escrow bool
	pref   uid.PFSPreference
	mix    string
	nym    string
	last   string
	id     string
}

func create(rt *rapid.T, label string) made {
	d := made{
		id:     ident(rt, label),
		escrow: rapid.IntRange(0, 3).Draw(rt, label+"escrow") == 0,
		pref:   rapid.SampledFrom([]uid.PFSPreference{uid.Strict, uid.Strict, uid.Mandatory, uid.Optional}).Draw(rt, label+"pref"),
		mix:    rapid.SampledFrom([]string{"", "mix@x.y", "<&>\u2028é"}).Draw(rt, label+"mix"),
		nym:    rapid.SampledFrom([]string{"", "nym", "\x00\"\\"}).Draw(rt, label+"nym"),
	}
	d.last = lastEntry(rt)
	if strings.HasPrefix(d.id, "keyserver@") && rapid.Bool().Draw(rt, label+"empty") {
		d.last = ""
	}
	m, err := uid.Create(d.id, d.escrow, d.mix, d.nym, d.pref, d.last, cipher.RandReader)
	if err != nil {
		rt.Fatalf("Create(%q): %v", d.id, err)
	}
	d.m = m
	return d
}

func pub(m *uid.Message) ed25519.PublicKey {
	k := m.PublicSigKey32()
	return ed25519.PublicKey(k[:])
}

// TestCreateUpdate: created and updated user IDs verify, survive JSON, and
// updates verify under exactly the direct predecessor.
func TestCreateUpdate(t *testing.T) {
	vt.Check(t, "generated identity, preference, escrow key, chain entry and update chain of 1-4; non-trivial: chain of at least 2 updates checked against every other member and a foreign user ID", 300, 8000, func(rt *rapid.T, c *vt.Case) {
		d := create(rt, "a")
		foreign := create(rt, "b")
		chain := []*uid.Message{d.m}
		n := rapid.IntRange(1, 4).Draw(rt, "updates")
		var jsons []string
		jsons = append(jsons, string(d.m.JSON()))
		for i := 0; i < n; i++ {
			cur := chain[len(chain)-1]
			if rapid.Bool().Draw(rt, "reload") {
				// as from the key database: JSON plus private keys
				r, err := uid.NewJSON(string(cur.JSON()))
				if err != nil {
					rt.Fatalf("reload: %v", err)
				}
				if err := r.SetPrivateSigKey(cur.PrivateSigKey()); err != nil {
					rt.Fatalf("set sig key: %v", err)
				}
				if err := r.SetPrivateEncKey(cur.PrivateEncKey()); err != nil {
					rt.Fatalf("set enc key: %v", err)
				}
				if r.PrivateSigKey() != cur.PrivateSigKey() || r.PrivateEncKey() != cur.PrivateEncKey() {
					rt.Fatalf("private keys changed by reload")
				}
				cur = r
			}
			up, err := cur.Update(cipher.RandReader)
			if err != nil {
				rt.Fatalf("Update: %v", err)
			}
			if up.PrivateEncKey() != cur.PrivateEncKey() {
				rt.Fatalf("update changed the encryption key")
			}
			chain = append(chain, up)
			jsons = append(jsons, string(up.JSON()))
		}
		check := d.pref == uid.Strict && !d.escrow
		keys := map[string]bool{}
		for i, m := range chain {
			if string(m.JSON()) != jsons[i] {
				rt.Fatalf("user ID %d changed by a later update:\n%s\n%s", i, jsons[i], m.JSON())
			}
			if err := m.VerifySelfSig(); err != nil {
				rt.Fatalf("self signature of %d: %v", i, err)
			}
			if err := m.Check(); (err == nil) != check {
				rt.Fatalf("Check of %d (pref %v, escrow %v): %v", i, d.pref, d.escrow, err)
			}
			r, err := uid.NewJSON(string(m.JSON()))
			if err != nil {
				rt.Fatalf("NewJSON: %v", err)
			}
			if !bytes.Equal(r.JSON(), m.JSON()) {
				rt.Fatalf("JSON not stable:\n%s\n%s", m.JSON(), r.JSON())
			}
			if err := r.VerifySelfSig(); err != nil {
				rt.Fatalf("decoded self signature: %v", err)
			}
			if r.Identity() != d.id || r.Localpart()+"@"+r.Domain() != d.id {
				rt.Fatalf("identity %q != %q", r.Identity(), d.id)
			}
			if r.UIDContent.MSGCOUNT != uint64(i) || r.UIDContent.LASTENTRY != d.last || len(r.UIDContent.PUBKEYS) != 1 {
				rt.Fatalf("content wrong: %s", r.JSON())
			}
			wantMix, wantNym := "", ""
			if d.pref == uid.Optional {
				wantMix, wantNym = d.mix, d.nym
			}
			var dec, want string
			// compare as JSON transports them (invalid UTF-8 is replaced)
			b, _ := json.Marshal(wantMix)
			json.Unmarshal(b, &want)
			dec = r.UIDContent.MIXADDRESS
			if dec != want || r.UIDContent.NYMADDRESS != wantNym || r.UIDContent.PREFERENCES.FORWARDSEC != d.pref.String() {
				rt.Fatalf("addresses or preference wrong: %s", r.JSON())
			}
			if (r.UIDContent.SIGESCROW != nil) != d.escrow {
				rt.Fatalf("escrow key wrong: %s", r.JSON())
			}
			// the reported public keys belong to the private keys
			priv := m.PrivateSigKey64()
			if !bytes.Equal(priv[32:], pub(r)) || keys[string(pub(r))] {
				rt.Fatalf("signature key wrong or not fresh")
			}
			keys[string(pub(r))] = true
			ep, err := ecdh.X25519().NewPrivateKey(m.PrivateEncKey32()[:])
			if err != nil || !bytes.Equal(ep.PublicKey().Bytes(), r.PublicEncKey32()[:]) {
				rt.Fatalf("encryption key does not match: %v", err)
			}
			// independent verification of the signatures
			content := sub(r.JSON(), "UIDContent")
			if !ed25519.Verify(pub(r), content, unb64(r.SELFSIGNATURE)) {
				rt.Fatalf("self signature does not verify independently")
			}
			if i > 0 && !ed25519.Verify(pub(chain[i-1]), content, unb64(r.USERSIGNATURE)) {
				rt.Fatalf("user signature does not verify independently")
			}
			for j, p := range chain {
				err := m.VerifyUserSig(p)
				if (err == nil) != (j == i-1) {
					rt.Fatalf("user signature of %d under %d: %v", i, j, err)
				}
			}
			if err := m.VerifyUserSig(foreign.m); err == nil {
				rt.Fatalf("user signature of %d accepted under a foreign user ID", i)
			}
			h := sha512.Sum512(pub(r))
			h2 := sha512.Sum512(h[:])
			skh, err := r.SigKeyHash()
			if err != nil || skh != base64.StdEncoding.EncodeToString(h2[:]) {
				rt.Fatalf("SigKeyHash wrong: %v", err)
			}
			if err := r.PubKey().Verify(); err != nil {
				rt.Fatalf("encryption key entry: %v", err)
			}
			if err := r.UIDContent.SIGKEY.Verify(); err != nil {
				rt.Fatalf("signature key entry: %v", err)
			}
		}
		c.Label("updates=%d", n)
		if n >= 2 {
			c.NonTrivial(jsons[n])
		}
		c.Sample("%s pref %v escrow %v updates %d", d.id, d.pref, d.escrow, n)
	})
}

func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	vt.InfraIf(err)
	return b
}

func sub(doc []byte, key string) []byte {
	var m map[string]json.RawMessage
	vt.InfraIf(json.Unmarshal(doc, &m))
	return m[key]
}

// TestMutated: any change of the content or a signature breaks verification.
func TestMutated(t *testing.T) {
	var last *made
	var chain []*uid.Message
	vt.Check(t, "1-3 random changes of the JSON form of a created or updated user ID; non-trivial: the changed form still decodes and differs", 15000, 300000, func(rt *rapid.T, c *vt.Case) {
		if last == nil || rapid.IntRange(0, 30).Draw(rt, "fresh") == 0 {
			d := create(rt, "a")
			last = &d
			chain = []*uid.Message{d.m}
			for i := 0; i < 2; i++ {
				up, err := chain[i].Update(cipher.RandReader)
				vt.InfraIf(err)
				chain = append(chain, up)
			}
		}
		i := rapid.IntRange(0, 2).Draw(rt, "which")
		m := chain[i]
		where := rapid.SampledFrom([]string{"/UIDContent", "/UIDContent", "/SELFSIGNATURE", "/USERSIGNATURE"}).Draw(rt, "where")
		js, desc := vt.MutateJSON(rt, m.JSON(), "mut", where)
		r, err := uid.NewJSON(string(js))
		if err != nil {
			c.Label("refused by decoder")
			return
		}
		if bytes.Equal(r.JSON(), m.JSON()) {
			c.Label("equivalent")
			return
		}
		c.NonTrivial(string(js))
		c.Sample("%s", desc)
		c.Label("%s", where)
		var self, user error
		if p := vt.Try(func() { self = r.VerifySelfSig() }); p != "" {
			rt.Fatalf("%s: VerifySelfSig %s", desc, p)
		}
		if p := vt.Try(func() { r.Check() }); p != "" {
			rt.Fatalf("%s: Check %s", desc, p)
		}
		if i > 0 {
			if p := vt.Try(func() { user = r.VerifyUserSig(chain[i-1]) }); p != "" {
				rt.Fatalf("%s: VerifyUserSig %s", desc, p)
			}
		}
		sameContent := bytes.Equal(sub(r.JSON(), "UIDContent"), sub(m.JSON(), "UIDContent"))
		sameSig := func(a, b string) bool {
			x, err := base64.StdEncoding.DecodeString(a)
			return err == nil && bytes.Equal(x, unb64(b))
		}
		wantSelf := sameContent && sameSig(r.SELFSIGNATURE, m.SELFSIGNATURE)
		wantUser := sameContent && sameSig(r.USERSIGNATURE, m.USERSIGNATURE)
		if wantSelf != (self == nil) {
			rt.Fatalf("%s: VerifySelfSig = %v, want ok %v", desc, self, wantSelf)
		}
		if i > 0 && wantUser != (user == nil) {
			rt.Fatalf("%s: VerifyUserSig = %v, want ok %v", desc, user, wantUser)
		}
	})
}

// TestForged: content re-signed by somebody else, or self-signed content whose
// structure is not that of a version 1.0 user ID.
func TestForged(t *testing.T) {
	vt.Check(t, "content of a genuine user ID with changed fields and signatures made by the own or another key, predecessor own, foreign or with another counter; oracle: independent predicate; non-trivial: at least one change", 5000, 100000, func(rt *rapid.T, c *vt.Case) {
		d := create(rt, "a")
		if d.pref != uid.Strict && rapid.Bool().Draw(rt, "strict") {
			d.pref = uid.Strict
			m, err := uid.Create(d.id, d.escrow, "", "", uid.Strict, d.last, cipher.RandReader)
			vt.InfraIf(err)
			d.m = m
		}
		other, err := uid.Create("other@mute.berlin", false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
		vt.InfraIf(err)
		m, err := uid.NewJSON(string(d.m.JSON()))
		vt.InfraIf(err)
		uc := &m.UIDContent
		changed := map[string]bool{}
		for i, n := 0, rapid.IntRange(0, 2).Draw(rt, "changes"); i < n; i++ {
			f := rapid.SampledFrom([]string{"VERSION", "MSGCOUNT", "FORWARDSEC", "MIX", "NYM", "IDENTITY", "SIGSUITE", "SIGFUNC", "LASTENTRY",
				"PUBCOUNT", "PUBSUITE", "PUBFUNC", "ESCROW", "REPO", "CHAINLINK", "BOTHSIGS", "NOTAFTER"}).Draw(rt, "field")
			changed[f] = true
			pick := func(v ...string) string { return rapid.SampledFrom(v).Draw(rt, f) }
			switch f {
			case "VERSION":
				uc.VERSION = pick("1.0", "", "1", "2.0", "1.1")
			case "MSGCOUNT":
				uc.MSGCOUNT = rapid.SampledFrom([]uint64{0, 1, 2, ^uint64(0)}).Draw(rt, f)
			case "NOTAFTER":
				uc.NOTAFTER++
			case "FORWARDSEC":
				uc.PREFERENCES.FORWARDSEC = pick("strict", "mandatory", "optional", "")
			case "MIX":
				uc.MIXADDRESS = pick("", "mix")
			case "NYM":
				uc.NYMADDRESS = pick("", "nym")
			case "IDENTITY":
				uc.IDENTITY = pick("", "a", "abc", "ABC@mute.berlin", "john@mute.berlin", "iohn@mute.berlin", "iohn@a@b", "keyserver@mute.berlin")
			case "SIGSUITE":
				uc.SIGKEY.CIPHERSUITE = pick("", uid.DefaultCiphersuite, uid.DefaultCiphersuite+" ")
			case "SIGFUNC":
				uc.SIGKEY.FUNCTION = pick("", "ED25519", "ED25510", "ECDHE25519")
			case "LASTENTRY":
				uc.LASTENTRY = pick("", hashchain.TestEntry, hashchain.TestEntry[:200], "x", strings.Replace(hashchain.TestEntry, "MB6QEQ", "MC6QEQ", 1))
			case "PUBCOUNT":
				switch rapid.IntRange(0, 2).Draw(rt, f) {
				case 0:
					uc.PUBKEYS = nil
				case 1:
					uc.PUBKEYS = append(uc.PUBKEYS, uid.KeyEntry{})
				}
			case "PUBSUITE":
				if len(uc.PUBKEYS) > 0 {
					uc.PUBKEYS[0].CIPHERSUITE = pick("", uid.DefaultCiphersuite, "NACL")
				}
			case "PUBFUNC":
				if len(uc.PUBKEYS) > 0 {
					uc.PUBKEYS[0].FUNCTION = pick("", "ECDHE25519", "ED25519")
				}
			case "ESCROW":
				switch rapid.IntRange(0, 3).Draw(rt, f) {
				case 0:
					uc.SIGESCROW = nil
				case 1:
					uc.SIGESCROW = &uid.KeyEntry{}
				case 2:
					uc.SIGESCROW = &uid.KeyEntry{HASH: "x"}
				case 3:
					uc.SIGESCROW = &uid.KeyEntry{PUBKEY: "x"}
				}
			case "REPO":
				switch rapid.IntRange(0, 3).Draw(rt, f) {
				case 0:
					uc.REPOURIS = nil
				case 1:
					uc.REPOURIS = append(uc.REPOURIS, "mute.berlin")
				case 2:
					uc.REPOURIS = []string{"mute.berlin"}
				case 3:
					uc.REPOURIS = []string{"Mute.berlin"}
				}
			case "CHAINLINK":
				// set through JSON: the type is not exported
				v := pick(`null`, `{}`, `{"LAST":"x"}`, `{"AUTHORITATIVE":true}`, `{"URI":["x"]}`, `{"IDENTITY":"x"}`, `{"URI":null,"LAST":"","AUTHORITATIVE":false,"DOMAINS":null,"IDENTITY":""}`)
				vt.InfraIf(json.Unmarshal([]byte(`{"UIDContent":{"CHAINLINK":`+v+`}}`), m))
			case "BOTHSIGS":
				m.ESCROWSIGNATURE = pick("", "AAAA")
				m.USERSIGNATURE = pick("", "AAAA")
			}
		}
		// independent predicate of the documented 1.0 structure
		cl := m.UIDContent.CHAINLINK
		lpdom := strings.Split(uc.IDENTITY, "@")
		idOK := uc.IDENTITY == d.id || uc.IDENTITY == "iohn@mute.berlin" || uc.IDENTITY == "keyserver@mute.berlin"
		entryOK := len(lpdom) == 2 && lpdom[0] == "keyserver"
		if b, err := base64.StdEncoding.DecodeString(uc.LASTENTRY); err == nil && len(b) == hashchain.EntryByteLen && b[32] == 1 {
			entryOK = true
		}
		want := uc.VERSION == "1.0" && uc.PREFERENCES.FORWARDSEC == "strict" && uc.MIXADDRESS == "" && uc.NYMADDRESS == "" &&
			idOK && uc.SIGKEY.CIPHERSUITE == uid.DefaultCiphersuite && uc.SIGKEY.FUNCTION == "ED25519" && entryOK &&
			!(m.ESCROWSIGNATURE != "" && m.USERSIGNATURE != "") && len(uc.PUBKEYS) == 1 &&
			uc.PUBKEYS[0].CIPHERSUITE == uid.DefaultCiphersuite && uc.PUBKEYS[0].FUNCTION == "ECDHE25519" &&
			(uc.SIGESCROW == nil || uc.SIGESCROW.CIPHERSUITE+uc.SIGESCROW.FUNCTION+uc.SIGESCROW.HASH+uc.SIGESCROW.PUBKEY == "") &&
			len(lpdom) == 2 && len(uc.REPOURIS) == 1 && uc.REPOURIS[0] == lpdom[1] &&
			(cl == nil || len(cl.URI) == 0 && cl.LAST == "" && !cl.AUTHORITATIVE && len(cl.DOMAINS) == 0 && cl.IDENTITY == "")
		var got error
		if p := vt.Try(func() { got = m.Check() }); p != "" {
			rt.Fatalf("Check %v: %s", changed, p)
		}
		if (got == nil) != want {
			rt.Fatalf("Check of %s (changed %v): %v, want ok %v", m.JSON(), changed, got, want)
		}
		// signatures over the changed content
		signers := map[string]*uid.Message{"own": d.m, "other": other}
		s1 := rapid.SampledFrom([]string{"own", "other"}).Draw(rt, "selfsigner")
		s2 := rapid.SampledFrom([]string{"own", "other"}).Draw(rt, "usersigner")
		content := uc.JSON()
		sign := func(m *uid.Message) string {
			k := m.PrivateSigKey64()
			return base64.StdEncoding.EncodeToString(ed25519.Sign(ed25519.PrivateKey(k[:]), content))
		}
		m.SELFSIGNATURE = sign(signers[s1])
		m.USERSIGNATURE = sign(signers[s2])
		if err := m.VerifySelfSig(); (err == nil) != (s1 == "own") {
			rt.Fatalf("self signature by %s key: %v", s1, err)
		}
		pre, err := uid.NewJSON(string(other.JSON()))
		vt.InfraIf(err)
		pre.UIDContent.MSGCOUNT = rapid.SampledFrom([]uint64{0, uc.MSGCOUNT - 1, uc.MSGCOUNT, uc.MSGCOUNT + 1, uc.MSGCOUNT - 2}).Draw(rt, "precount")
		wantUser := s2 == "other" && pre.UIDContent.MSGCOUNT+1 == uc.MSGCOUNT
		if err := m.VerifyUserSig(pre); (err == nil) != wantUser {
			rt.Fatalf("user signature by %s, counters %d -> %d: %v", s2, pre.UIDContent.MSGCOUNT, uc.MSGCOUNT, err)
		}
		if len(changed) > 0 || s1 == "other" {
			c.NonTrivial(fmt.Sprint(changed, s1, s2, want, string(content)))
		}
		c.Label("structure ok=%v", want)
		c.Sample("changed %v, self-signed by %s, user-signed by %s", changed, s1, s2)
	})
}

// TestKeyEntry: key entries verify exactly when consistent.
func TestKeyEntry(t *testing.T) {
	vt.Check(t, "key entries with generated function, hash and key, mutated; oracle: SHA-512 and length predicate; non-trivial: any change", 3000, 100000, func(rt *rapid.T, c *vt.Case) {
		var ke uid.KeyEntry
		vt.InfraIf(ke.InitDHKey(cipher.RandReader))
		k := &uid.KeyEntry{CIPHERSUITE: ke.CIPHERSUITE, FUNCTION: ke.FUNCTION, HASH: ke.HASH, PUBKEY: ke.PUBKEY}
		what := "none"
		if rapid.Bool().Draw(rt, "json") {
			js, desc := vt.MutateJSON(rt, k.JSON(), "mut", "/")
			r, err := uid.NewJSONKeyEntry(js)
			if err != nil {
				return
			}
			k, what = r, desc
		} else {
			k.FUNCTION = rapid.SampledFrom([]string{"ECDHE25519", "ED25519", "ED25510", "", "ecdhe25519"}).Draw(rt, "func")
			if rapid.IntRange(0, 2).Draw(rt, "len") == 0 {
				b := vt.Expand(rapid.SampledFrom([]int{0, 31, 32, 33, 64}).Draw(rt, "n"), rapid.Uint32().Draw(rt, "s"), 0)
				h := sha512.Sum512(b)
				k.PUBKEY, k.HASH = base64.StdEncoding.EncodeToString(b), base64.StdEncoding.EncodeToString(h[:])
			}
			what = k.FUNCTION
		}
		want := k.CIPHERSUITE == uid.DefaultCiphersuite && (k.FUNCTION == "ECDHE25519" || k.FUNCTION == "ED25519")
		pk, err1 := base64.StdEncoding.DecodeString(k.PUBKEY)
		h, err2 := base64.StdEncoding.DecodeString(k.HASH)
		s := sha512.Sum512(pk)
		want = want && err1 == nil && err2 == nil && len(pk) == 32 && bytes.Equal(s[:], h)
		var err error
		if p := vt.Try(func() { err = k.Verify() }); p != "" {
			rt.Fatalf("%s: %s", what, p)
		}
		if (err == nil) != want {
			rt.Fatalf("%s: Verify = %v, want ok %v: %s", what, err, want, k.JSON())
		}
		if err == nil {
			if p := vt.Try(func() {
				if !bytes.Equal(k.PublicKey32()[:], pk) {
					rt.Fatalf("public key differs")
				}
			}); p != "" {
				rt.Fatalf("verified entry: %s", p)
			}
		}
		if !uid.KeyEntryEqual(k, k) || uid.KeyEntryEqual(k, &ke) != (bytes.Equal(k.JSON(), ke.JSON())) {
			rt.Fatalf("KeyEntryEqual wrong")
		}
		c.NonTrivial(string(k.JSON()), ke.PUBKEY)
		c.Label("ok=%v", want)
		c.Sample("%s", what)
	})
}

// TestNonce: nonce signatures verify under exactly the key and nonce.
func TestNonce(t *testing.T) {
	a, err := uid.Create("alice@mute.berlin", false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vt.InfraIf(err)
	b, err := uid.Create("bob@mute.berlin", false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vt.InfraIf(err)
	vt.Check(t, "signed nonces with changed nonce, signature or key; non-trivial: one part changed", 1000, 30000, func(rt *rapid.T, c *vt.Case) {
		nonce, sig := a.SignNonce()
		if err := uid.VerifyNonce(a.SigPubKey(), nonce, sig); err != nil {
			rt.Fatalf("genuine nonce refused: %v", err)
		}
		var err error
		var what string
		p := vt.Try(func() {
			switch rapid.IntRange(0, 3).Draw(rt, "part") {
			case 0:
				n := rapid.Uint64().Filter(func(n uint64) bool { return n != nonce }).Draw(rt, "n")
				what = fmt.Sprint("nonce ", n)
				err = uid.VerifyNonce(a.SigPubKey(), n, sig)
			case 1:
				err = uid.VerifyNonce(b.SigPubKey(), nonce, sig)
				what = "key"
			case 2:
				raw, d := vt.Mutation(rt, unb64(sig), "m")
				what = "signature " + d
				err = uid.VerifyNonce(a.SigPubKey(), nonce, base64.StdEncoding.EncodeToString(raw))
			case 3:
				raw, d := vt.Mutation(rt, unb64(a.SigPubKey()), "m")
				what = "key " + d
				err = uid.VerifyNonce(base64.StdEncoding.EncodeToString(raw), nonce, sig)
			}
		})
		if p != "" {
			rt.Fatalf("%s: %s", what, p)
		}
		if err == nil {
			rt.Fatalf("accepted with changed %s", what)
		}
		c.NonTrivial(what)
		c.Sample("%s", what)
	})
}

// TestRandomFailure: a failing random source yields an error, not a user ID.
func TestRandomFailure(t *testing.T) {
	a, err := uid.Create("alice@mute.berlin", false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vt.InfraIf(err)
	vt.Check(t, "random source failing after 0-200 bytes while creating or updating; non-trivial: the source failed", 300, 3000, func(rt *rapid.T, c *vt.Case) {
		n := rapid.IntRange(0, 200).Draw(rt, "n")
		f := &vt.FaultyRand{R: cipher.RandReader, N: n}
		var m *uid.Message
		var err error
		if rapid.Bool().Draw(rt, "update") {
			before := string(a.JSON())
			m, err = a.Update(f)
			if string(a.JSON()) != before {
				rt.Fatalf("failed update changed the user ID")
			}
		} else {
			m, err = uid.Create("bob@mute.berlin", rapid.Bool().Draw(rt, "escrow"), "", "", uid.Strict, hashchain.TestEntry, f)
		}
		if f.Failed {
			c.NonTrivial(n, fmt.Sprint(err))
			if err == nil {
				rt.Fatalf("no error although the random source failed")
			}
			return
		}
		if err != nil || m.VerifySelfSig() != nil {
			rt.Fatalf("failed with a working source: %v", err)
		}
	})
}
