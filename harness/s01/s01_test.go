// Package s01 decides property S01: only tokens signed by the issuer for
// this owner and usage are accepted.
package s01

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"database/sql"
	"encoding/asn1"
	"encoding/base64"
	"fmt"
	"math/big"
	"path/filepath"
	"testing"

	"verif/guardkit"
	"verif/vt"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/client/walletstore/nilstore"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydb"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// proto is a fresh protocol client which trusts the given issuers and holds
// the given keys.
func proto(rt *rapid.T, issuers []*guardkit.Issuer, keys ...*guardkit.Key) *packetproto.Client {
	c, err := packetproto.New([]types.Backend{{Type: "keydir", Value: vt.TempDir()}})
	if err != nil {
		rt.Fatalf("New: %v", err)
	}
	for _, i := range issuers {
		c.AddVerifyKey(&i.Pub)
	}
	for _, k := range keys {
		if _, err := c.Keypool.LoadKey(k.Usable()); err != nil {
			rt.Fatalf("valid key not loaded: %v", err)
		}
	}
	return c
}

var usages = []string{"Message", "Account", "Message ", "", "UsageÜ", "a:b"}

// request is one reissue from the client's side.
type request struct {
	old, params, packet []byte
	owner               *[32]byte
	key                 *guardkit.Key
	local               *types.ReissuePacketPrivate
	can                 bool
}

func newRequest(rt *rapid.T, c *packetproto.Client, is *guardkit.Issuer, oldKey, newKey *guardkit.Key) *request {
	r := &request{key: newKey, can: rapid.Bool().Draw(rt, "can reissue")}
	var oldOwner, newOwner guardkit.Owner
	if rapid.IntRange(0, 3).Draw(rt, "old owner") > 0 {
		oldOwner = guardkit.NewOwner()
	}
	switch rapid.IntRange(0, 3).Draw(rt, "new owner") {
	case 0:
	case 1:
		newOwner = oldOwner
	default:
		newOwner = guardkit.NewOwner()
	}
	r.owner = newOwner.Pub
	r.old = is.Issue(oldKey, oldOwner.Pub)
	r.params = is.Params(newKey, r.can)
	var err error
	r.packet, r.local, err = c.Reissue(r.old, oldOwner.Priv, newOwner.Pub, r.params)
	if err != nil {
		rt.Fatalf("Reissue of a valid token: %v", err)
	}
	return r
}

// checkResult checks the outcome of unblinding.
func checkResult(rt *rapid.T, what string, out []byte, err error, local *types.ReissuePacketPrivate, owner *[32]byte, key *guardkit.Key) {
	if err != nil {
		return
	}
	t, ok := guardkit.ParseToken(out)
	if !ok {
		rt.Fatalf("%s: result is not a token", what)
	}
	asked, _ := guardkit.ParseToken(local.Token)
	if !bytes.Equal(t.Hash(), asked.Hash()) {
		rt.Fatalf("%s: result is another token than the one requested", what)
	}
	if !bytes.Equal(t.KeyID, key.KeyID) {
		rt.Fatalf("%s: result is for key %x, requested %x", what, t.KeyID, key.KeyID)
	}
	if t.Flag != (owner != nil) || owner != nil && !bytes.Equal(t.Owner, owner[:]) {
		rt.Fatalf("%s: result is not for the requested owner", what)
	}
	if !t.Signed(key.Point()) {
		rt.Fatalf("%s: unsigned token accepted", what)
	}
}

// TestExchange runs the blind-signature exchange with and without one change
// to one of its messages.
func TestExchange(t *testing.T) {
	vt.Check(t, "an exchange of at least two parallel requests, or one changed message", 900, 20000, func(rt *rapid.T, c *vt.Case) {
		is, other := guardkit.NewIssuer(), guardkit.NewIssuer()
		usage := rapid.SampledFrom(usages).Draw(rt, "usage")
		oldKey := is.NewKey(usage, 1000)
		newKey := oldKey
		if rapid.Bool().Draw(rt, "new key") {
			newKey = is.NewKey(usage, rapid.Int64Range(10, 1<<40).Draw(rt, "life"))
		}
		cl := proto(rt, []*guardkit.Issuer{is, other}, oldKey)
		what := rapid.SampledFrom([]string{"none", "reply", "reply", "swap", "local", "params", "token", "foreign", "scalar", "owner"}).Draw(rt, "change")
		c.Label("%s", what)
		switch what {
		case "none":
			var rs []*request
			n := rapid.IntRange(1, 3).Draw(rt, "requests")
			for i := 0; i < n; i++ {
				rs = append(rs, newRequest(rt, cl, is, oldKey, newKey))
			}
			blind := map[string]bool{}
			for _, i := range rapid.Permutation(seq(n)).Draw(rt, "order") {
				r := rs[i]
				checkRequest(rt, r, blind)
				reply, _, err := is.Reissue(r.packet)
				if err != nil {
					rt.Fatalf("the issuer refuses a valid request: %v", err)
				}
				out, err := cl.Unblind(r.local, reply)
				if err != nil {
					rt.Fatalf("Unblind of a valid reply: %v", err)
				}
				checkResult(rt, "exchange", out, err, r.local, r.owner, r.key)
				// a second time, from storage
				enc, err := r.local.Marshal()
				if err != nil {
					rt.Fatalf("Marshal: %v", err)
				}
				l2, err := new(types.ReissuePacketPrivate).Unmarshal(enc)
				if err != nil {
					rt.Fatalf("Unmarshal: %v", err)
				}
				out2, err := cl.Unblind(l2, reply)
				if err != nil || !bytes.Equal(out, out2) {
					rt.Fatalf("stored request unblinds to another token: %v", err)
				}
			}
			if n > 1 {
				c.NonTrivial("exchange", n, usage)
			}
		case "reply":
			r := newRequest(rt, cl, is, oldKey, newKey)
			reply, _, err := is.Reissue(r.packet)
			vt.InfraIf(err)
			mut, desc := vt.Mutation(rt, reply, "reply")
			if bytes.Equal(mut, reply) {
				return
			}
			out, err := cl.Unblind(r.local, mut)
			checkResult(rt, "changed reply "+desc, out, err, r.local, r.owner, r.key)
			c.NonTrivial("reply", desc)
		case "scalar":
			// the issuer's reply decodes, but its signature is wrong
			r := newRequest(rt, cl, is, oldKey, newKey)
			reply, _, err := is.Reissue(r.packet)
			vt.InfraIf(err)
			x, y := newKey.Point()
			bd, err := jjm.NewBlindSignature(eccutil.NewPoint(x, y)).Unmarshal(reply)
			vt.InfraIf(err)
			bs := bd.(jjm.BlindSignature)
			d := big.NewInt(int64(rapid.IntRange(1, 1<<30).Draw(rt, "delta")))
			switch rapid.IntRange(0, 4).Draw(rt, "scalar") {
			case 0:
				bs.ScalarS1 = new(big.Int).Add(bs.ScalarS1, d)
			case 1:
				bs.ScalarS2 = new(big.Int).Sub(bs.ScalarS2, d)
			case 2:
				bs.ScalarS1, bs.ScalarS2 = bs.ScalarS2, bs.ScalarS1
			case 3:
				bs.ScalarS1, bs.ScalarS2 = new(big.Int), new(big.Int)
			case 4:
				bs.ScalarS1 = new(big.Int).Neg(bs.ScalarS1)
			}
			mut, err := bs.Marshal()
			vt.InfraIf(err)
			if out, err := cl.Unblind(r.local, mut); err == nil {
				checkResult(rt, "wrong signature", out, err, r.local, r.owner, r.key)
				rt.Fatalf("wrong signature accepted")
			}
			c.NonTrivial("scalar", d.Int64()%97)
		case "swap":
			// the reply to another request
			r, r2 := newRequest(rt, cl, is, oldKey, newKey), newRequest(rt, cl, is, oldKey, newKey)
			_, _, err := is.Reissue(r.packet)
			vt.InfraIf(err)
			reply, _, err := is.Reissue(r2.packet)
			vt.InfraIf(err)
			if _, err := cl.Unblind(r.local, reply); err == nil {
				rt.Fatalf("the reply to another request is accepted")
			}
			// the stored data of the other request
			l := *r.local
			switch rapid.IntRange(0, 1).Draw(rt, "mixed") {
			case 0:
				l.Token = r2.local.Token
			case 1:
				l.Factors = r2.local.Factors
			}
			if _, err := cl.Unblind(&l, reply); err == nil {
				rt.Fatalf("mixed stored data accepted")
			}
			c.NonTrivial("swap", usage)
		case "local":
			r := newRequest(rt, cl, is, oldKey, newKey)
			reply, _, err := is.Reissue(r.packet)
			vt.InfraIf(err)
			l := *r.local
			f := []*[]byte{&l.PublicKey, &l.Factors, &l.Token}[rapid.IntRange(0, 2).Draw(rt, "field")]
			var desc string
			*f, desc = vt.Mutation(rt, *f, "local")
			out, err := cl.Unblind(&l, reply)
			if err == nil {
				tok, ok := guardkit.ParseToken(out)
				k, kok := guardkit.ParseKey(l.PublicKey)
				if !ok || !kok || !tok.Signed(k.Point()) {
					rt.Fatalf("changed stored data (%s): unsigned token accepted", desc)
				}
			}
			c.NonTrivial("local", desc)
		case "params":
			paramsCase(rt, c, cl, is, oldKey, newKey)
		case "token":
			old := is.Issue(oldKey, nil)
			mut, desc := vt.Mutation(rt, old, "old token")
			packet, _, err := cl.Reissue(mut, nil, nil, is.Params(newKey, true))
			if err == nil {
				var p guardkit.RawReissue
				if _, err := asn1.Unmarshal(packet, &p); err != nil {
					rt.Fatalf("bad packet: %v", err)
				}
				a, aok := guardkit.ParseToken(mut)
				b, bok := guardkit.ParseToken(p.Token)
				if !aok || !bok || !sameToken(a, b) {
					rt.Fatalf("changed token (%s): the request holds another token", desc)
				}
			}
			c.NonTrivial("token", desc)
		case "foreign":
			// parameters of a key that may not be used here
			var k *guardkit.Key
			kind := rapid.IntRange(0, 4).Draw(rt, "kind")
			switch kind {
			case 0: // unknown signer
				k = guardkit.NewIssuer().NewKey(usage, 1000)
				is.Sign(k)
				k.Signer = guardkit.NewIssuer().Pub[:]
				k.Enc = guardkit.DER(k.RawKey)
			case 1: // unknown issuer
				i2 := guardkit.NewIssuer()
				k = i2.NewKey(usage, 1000)
			case 2: // other trusted issuer
				k = other.NewKey(usage, 1000)
			case 3: // other usage
				k = is.NewKey(usage+"x", 1000)
			case 4: // expired
				k = is.NewKey(usage, -1000)
			}
			if _, _, err := cl.Reissue(is.Issue(oldKey, nil), nil, nil, is.Params(k, true)); err == nil {
				rt.Fatalf("parameters of a foreign key (kind %d) accepted", kind)
			}
			// an old token of a key that is not known
			if _, _, err := cl.Reissue(other.Issue(other.NewKey(usage, 1000), nil), nil, nil, is.Params(newKey, true)); err == nil {
				rt.Fatalf("token of an unknown key accepted")
			}
			c.NonTrivial("foreign", kind)
		case "owner":
			// an owned token needs its owner
			o := guardkit.NewOwner()
			if _, _, err := cl.Reissue(is.Issue(oldKey, o.Pub), nil, nil, is.Params(newKey, true)); err == nil {
				rt.Fatalf("reissue of an owned token without its owner's key")
			}
			c.NonTrivial("owner", usage)
		}
		c.Sample("%s of usage %q", what, usage)
	})
}

func paramsCase(rt *rapid.T, c *vt.Case, cl *packetproto.Client, is *guardkit.Issuer, oldKey, newKey *guardkit.Key) {
	params := is.Params(newKey, true)
	var mut []byte
	var desc string
	kind := rapid.IntRange(0, 9).Draw(rt, "kind")
	if kind == 0 {
		mut, desc = vt.Mutation(rt, params, "params")
	} else {
		var rp guardkit.RawParams
		_, err := asn1.Unmarshal(params, &rp)
		vt.InfraIf(err)
		ints := []**big.Int{&rp.PublicParams.PointRs1.X, &rp.PublicParams.PointRs1.Y, &rp.PublicParams.PointRs2.X,
			&rp.PublicParams.PointRs2.Y, &rp.PublicParams.ScalarLs1, &rp.PublicParams.ScalarLs2}
		f := ints[rapid.IntRange(0, len(ints)-1).Draw(rt, "field")]
		cv := elliptic.P256().Params()
		switch kind {
		case 1:
			*f = new(big.Int)
		case 2:
			*f = big.NewInt(-1)
		case 3:
			*f = new(big.Int).Set(cv.P)
		case 4:
			*f = new(big.Int).Set(cv.N)
		case 5:
			*f = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 300).Draw(rt, "bit")))
		case 6:
			*f = new(big.Int).Add(*f, big.NewInt(1))
		case 7:
			rp.PublicParams.PointRs1, rp.PublicParams.PointRs2 = rp.PublicParams.PointRs2, rp.PublicParams.PointRs1
		case 8:
			// a key whose point is not on the curve
			k := *newKey
			k.PublicKeyX = []byte{1, 2, 3}
			is.Sign(&k)
			rp.PublicKey = k.Enc
		case 9:
			k, ok := guardkit.ParseKey(rp.PublicKey)
			if !ok {
				vt.Infra(fmt.Errorf("key does not parse"))
			}
			switch rapid.IntRange(0, 5).Draw(rt, "key field") {
			case 0:
				k.Expire++
			case 1:
				k.Usage += "x"
			case 2:
				k.PublicKeyX, k.PublicKeyY = k.PublicKeyY, k.PublicKeyX
			case 3:
				k.Signature = append([]byte(nil), k.Signature...)
				k.Signature[rapid.IntRange(0, 63).Draw(rt, "at")] ^= 4
			case 4:
				k.KeyID = oldKey.KeyID
				k.Expire += 7
			case 5: // the same bytes, divided elsewhere
				n := rapid.IntRange(1, 31).Draw(rt, "moved")
				all := append(append([]byte(nil), k.PublicKeyX...), k.PublicKeyY...)
				at := len(k.PublicKeyX) - n
				k.PublicKeyX, k.PublicKeyY = all[:at], all[at:]
			}
			rp.PublicKey = guardkit.DER(k)
		}
		mut, desc = guardkit.DER(rp), fmt.Sprintf("kind %d", kind)
	}
	if bytes.Equal(mut, params) {
		return
	}
	packet, local, err := cl.Reissue(is.Issue(oldKey, nil), nil, nil, mut)
	if err == nil {
		var rp guardkit.RawParams
		if _, err := asn1.Unmarshal(mut, &rp); err != nil {
			rt.Fatalf("parameters that do not decode (%s) accepted", desc)
		}
		k, ok := guardkit.ParseKey(rp.PublicKey)
		if !ok || !k.Genuine() || !bytes.Equal(k.Signer, is.Pub[:]) || k.Usage != oldKey.Usage {
			rt.Fatalf("parameters with a changed key (%s) accepted", desc)
		}
		if !bytes.Equal(local.PublicKey, rp.PublicKey) && !sameKey(local.PublicKey, k) {
			rt.Fatalf("the stored key is not the one of the parameters")
		}
		// an issuer that does not mind
		var p guardkit.RawReissue
		_, err := asn1.Unmarshal(packet, &p)
		vt.InfraIf(err)
		if !bytes.Equal(p.Params, mut) {
			rt.Fatalf("the request holds other parameters")
		}
		p.Params = params
		p.Signature = []byte{0}
		if reply, _, err := is.Reissue(guardkit.DER(p)); err == nil {
			out, err := cl.Unblind(local, reply)
			checkResult(rt, "changed parameters "+desc, out, err, local, nil, newKey)
		}
	}
	c.NonTrivial("params", desc)
}

func sameKey(enc []byte, k guardkit.RawKey) bool {
	l, ok := guardkit.ParseKey(enc)
	return ok && bytes.Equal(l.Image(), k.Image()) && bytes.Equal(l.KeyID, k.KeyID) && bytes.Equal(l.Signature, k.Signature)
}

func sameToken(a, b guardkit.RawToken) bool {
	num := func(x []byte) string { return new(big.Int).SetBytes(x).String() }
	return bytes.Equal(a.Hash(), b.Hash()) && num(a.PointRX) == num(b.PointRX) && num(a.PointRY) == num(b.PointRY) &&
		num(a.ScalarR) == num(b.ScalarR) && num(a.ScalarS) == num(b.ScalarS)
}

func seq(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

// checkRequest checks what is sent to the issuer.
func checkRequest(rt *rapid.T, r *request, blind map[string]bool) {
	var p guardkit.RawReissue
	if rest, err := asn1.Unmarshal(r.packet, &p); err != nil || len(rest) != 0 {
		rt.Fatalf("request does not decode: %v", err)
	}
	a, aok := guardkit.ParseToken(r.old)
	b, bok := guardkit.ParseToken(p.Token)
	if !aok || !bok || !sameToken(a, b) || !bytes.Equal(p.Params, r.params) || p.CallType != 0 {
		rt.Fatalf("the request does not hold the token and parameters it is for")
	}
	image := guardkit.Image(0, p.Token, p.BlindToken, p.Params)
	if b.Flag && !ed25519.Verify(b.Owner, image, p.Signature) {
		rt.Fatalf("the request is not signed by the owner")
	}
	if !b.Flag && len(p.Signature) != 1 {
		rt.Fatalf("the request for a token without owner is signed")
	}
	l := r.local
	h := sha256.Sum256(image)
	if !bytes.Equal(l.Request, r.packet) || !bytes.Equal(l.RequestHash, h[:]) || l.CanReissue != r.can || !sameKey(l.PublicKey, r.key.RawKey) {
		rt.Fatalf("the stored request differs from the one sent")
	}
	n, ok := guardkit.ParseToken(l.Token)
	if !ok || !bytes.Equal(n.KeyID, r.key.KeyID) || n.Flag != (r.owner != nil) || r.owner != nil && !bytes.Equal(n.Owner, r.owner[:]) {
		rt.Fatalf("the new token is not for the key and owner requested: %v", n)
	}
	m := n.Message()
	m.Mod(m, elliptic.P256().Params().N)
	secrets := [][]byte{n.Nonce, n.Hash(), n.Message().Bytes(), m.Bytes()}
	if r.owner == nil || !b.Flag || !bytes.Equal(n.Owner, b.Owner) {
		secrets = append(secrets, n.Owner)
	}
	for _, s := range secrets {
		if bytes.Contains(r.packet, s) {
			rt.Fatalf("the issuer sees the new token")
		}
	}
	x, y := r.key.Point()
	bd, err := jjm.NewBlindMessage(eccutil.NewPoint(x, y)).Unmarshal(p.BlindToken)
	if err != nil {
		rt.Fatalf("the blinded token does not decode: %v", err)
	}
	bm := bd.(jjm.BlindMessage)
	for _, s := range []string{"1" + bm.M1.String(), "2" + bm.M2.String(), "n" + string(n.Nonce)} {
		if blind[s] {
			rt.Fatalf("two requests share a secret")
		}
		blind[s] = true
	}
}

// TestVerify presents tokens, unchanged and changed, to a client.
func TestVerify(t *testing.T) {
	db, err := sql.Open("sqlite3", filepath.Join(vt.TempDir(), "keys.db"))
	vt.InfraIf(err)
	db.SetMaxOpenConns(1)
	wallet := guardkit.NewOwner()
	vt.Check(t, "a token that differs from an issued one, or one not to be accepted", 1500, 40000, func(rt *rapid.T, c *vt.Case) {
		is, other := guardkit.NewIssuer(), guardkit.NewIssuer()
		db.Exec("DELETE FROM keypool")
		usage := rapid.SampledFrom(usages).Draw(rt, "usage")
		keys := []*guardkit.Key{is.NewKey(usage, 1000), is.NewKey(usage, 1000), is.NewKey(usage+"2", 1000), other.NewKey(usage, 1000)}
		kp := keypool.New(signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash))
		if err := keydb.Add(kp, db); err != nil {
			rt.Fatalf("keydb: %v", err)
		}
		kp.AddVerifyKey(&is.Pub)
		kp.AddVerifyKey(&other.Pub)
		for _, k := range keys {
			if _, err := kp.LoadKey(k.Usable()); err != nil {
				rt.Fatalf("valid key not loaded: %v", err)
			}
			if err := kp.SaveKey(k.ID()); err != nil {
				rt.Fatalf("valid key not saved: %v", err)
			}
		}
		untrusted := rapid.IntRange(0, 9).Draw(rt, "untrusted") == 0
		store := &nilstore.NilStore{VerifyKeys: [][32]byte{is.Pub}}
		if !untrusted {
			store.VerifyKeys = append(store.VerifyKeys, other.Pub)
		}
		cl, err := client.New([]types.Backend{{Type: "database", Value: db}}, store, wallet.Priv, nil)
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		if err := cl.GetVerifyKeys(); err != nil {
			rt.Fatalf("GetVerifyKeys: %v", err)
		}
		k := keys[rapid.IntRange(0, len(keys)-1).Draw(rt, "key")]
		iss := is
		if k == keys[3] {
			iss = other
		}
		var owner *[32]byte
		switch rapid.IntRange(0, 2).Draw(rt, "owner") {
		case 1:
			owner = guardkit.NewOwner().Pub
		case 2:
			owner = wallet.Pub
		}
		enc := iss.Issue(k, owner)
		orig, _ := guardkit.ParseToken(enc)
		tok := orig
		what := rapid.SampledFrom([]string{"valid", "bytes", "keyid", "flag", "nonce", "owner", "RX", "RY", "S", "R", "move", "unknown", "expired", "size", "junk", "forged"}).Draw(rt, "change")
		c.Label("%s", what)
		num := func(b []byte) []byte {
			n := new(big.Int).SetBytes(b)
			cv := elliptic.P256().Params()
			switch rapid.IntRange(0, 6).Draw(rt, "number") {
			case 0:
				n.Add(n, big.NewInt(1))
			case 1:
				n.SetInt64(0)
			case 2:
				n.Set(cv.P)
			case 3:
				n.Sub(cv.P, n)
			case 4:
				n.Add(n, cv.N)
			case 5:
				n.Xor(n, new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 256).Draw(rt, "bit"))))
			case 6:
				n.SetBytes(b[:len(b)/2])
			}
			return n.Abs(n).Bytes()
		}
		flip := func(b []byte) []byte {
			out := append([]byte(nil), b...)
			out[rapid.IntRange(0, len(out)-1).Draw(rt, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
			return out
		}
		desc := what
		switch what {
		case "bytes":
			enc, desc = vt.Mutation(rt, enc, "token")
		case "keyid":
			tok.KeyID = keys[rapid.IntRange(0, len(keys)-1).Draw(rt, "other key")].KeyID
		case "flag":
			tok.Flag = !tok.Flag
		case "nonce":
			tok.Nonce = flip(tok.Nonce)
		case "owner":
			tok.Owner = wallet.Pub[:]
		case "RX":
			tok.PointRX = num(tok.PointRX)
		case "RY":
			tok.PointRY = num(tok.PointRY)
		case "S":
			tok.ScalarS = num(tok.ScalarS)
		case "R":
			tok.ScalarR = num(tok.ScalarR)
		case "move":
			// the same bytes, divided elsewhere
			all := append(append([]byte(nil), tok.Nonce...), tok.Owner...)
			at := rapid.IntRange(0, len(all)).Draw(rt, "at")
			tok.Nonce, tok.Owner = all[:at], all[at:]
		case "unknown":
			u := rapid.SampledFrom([]*guardkit.Issuer{is, guardkit.NewIssuer()}).Draw(rt, "issuer")
			enc = u.Issue(u.NewKey(usage, 1000), owner)
		case "expired":
			x := is.NewKey(usage, -rapid.Int64Range(2, 1<<33).Draw(rt, "since"))
			b, err := keydb.NewFromDB(db)
			vt.InfraIf(err)
			_, err = b.DB.Exec("INSERT INTO keypool (KeyID, KeyUsage, KeyData) VALUES (?,?,?)", fmt.Sprintf("%x", x.KeyID), usage, b64(x.Enc))
			vt.InfraIf(err)
			enc = is.Issue(x, owner)
		case "size":
			f := []*[]byte{&tok.KeyID, &tok.Nonce, &tok.Owner}[rapid.IntRange(0, 2).Draw(rt, "field")]
			n := rapid.IntRange(0, 40).Draw(rt, "size")
			*f = append(append([]byte(nil), *f...), make([]byte, 40)...)[:n]
		case "junk":
			enc = vt.Bytes(200, 0, 1).Draw(rt, "junk")
		case "forged":
			enc = guardkit.Forge(k, owner)
		}
		switch what {
		case "keyid", "flag", "nonce", "owner", "RX", "RY", "S", "R", "move", "size":
			enc = guardkit.DER(tok)
		}
		e, err := cl.Verify(enc)
		if err == nil {
			got, ok := guardkit.ParseToken(enc)
			if !ok {
				rt.Fatalf("malformed token (%s) accepted", desc)
			}
			var key *guardkit.Key
			for _, k := range keys {
				if bytes.Equal(k.KeyID, got.KeyID) {
					key = k
				}
			}
			if key == nil {
				rt.Fatalf("token of an unknown or expired key (%s) accepted", desc)
			}
			if untrusted && key == keys[3] {
				rt.Fatalf("token of an issuer that is not trusted accepted")
			}
			if !got.Signed(key.Point()) {
				rt.Fatalf("token without valid signature (%s) accepted", desc)
			}
			if !is.Issued[string(got.Hash())] && !other.Issued[string(got.Hash())] {
				if what == "forged" && vt.IsKnown("KF-003") {
					// the blind signature scheme of the library used
					c.Known("KF-003")
					return
				}
				rt.Fatalf("altered token (%s) accepted", desc)
			}
			if !bytes.Equal(e.Hash, got.Hash()) || e.Usage != key.Usage || e.Expire != key.Expire || !bytes.Equal(e.Token, enc) ||
				(e.OwnerPubKey != nil) != got.Flag || got.Flag && !bytes.Equal(e.OwnerPubKey[:], got.Owner) {
				rt.Fatalf("accepted with other values than the token's: %+v", e)
			}
		} else {
			if e != nil {
				rt.Fatalf("refused token returned")
			}
			switch err {
			case client.ErrFatal, client.ErrFinal, client.ErrOffline:
			default:
				rt.Fatalf("unclassified error %v", err)
			}
			if cl.LastError == nil {
				rt.Fatalf("refused without a cause")
			}
			if bytes.Equal(enc, guardkit.DER(orig)) && !(untrusted && iss == other) {
				rt.Fatalf("valid token refused: %v, %v", err, cl.LastError)
			}
		}
		// receiving takes only tokens for this wallet and usage
		{
			store.LastToken = nil
			want := rapid.SampledFrom([]string{usage, usage + "2"}).Draw(rt, "wanted usage")
			rerr := cl.ReceiveToken(want, enc)
			good := err == nil && e.Usage == want && e.OwnerPubKey != nil && *e.OwnerPubKey == *wallet.Pub
			if good != (rerr == nil) {
				rt.Fatalf("ReceiveToken: %v, token good: %v", rerr, good)
			}
			if (store.LastToken != nil) != good || good && !bytes.Equal(store.LastToken.Hash, e.Hash) {
				rt.Fatalf("ReceiveToken stored %v, token good: %v", store.LastToken, good)
			}
		}
		if what != "valid" {
			c.NonTrivial(desc)
		}
		c.Sample("%s: %v", desc, err)
	})
}

// TestRandom makes the random source fail during the exchange.
func TestRandom(t *testing.T) {
	defer func() { packetproto.Rand, token.Rand = rand.Reader, rand.Reader }()
	vt.Check(t, "the random source fails before it gave enough", 30, 300, func(rt *rapid.T, c *vt.Case) {
		is := guardkit.NewIssuer()
		k := is.NewKey("u", 1000)
		n := rapid.IntRange(0, 120).Draw(rt, "bytes")
		token.Rand = &vt.FailAfter{R: rand.Reader, N: n}
		defer func() { token.Rand = rand.Reader }()
		var owner *[32]byte
		need := 48
		if rapid.Bool().Draw(rt, "owner") {
			owner = guardkit.NewOwner().Pub
			need = 16
		}
		cl := proto(rt, []*guardkit.Issuer{is}, k)
		_, _, err := cl.Reissue(is.Issue(k, nil), nil, owner, is.Params(k, true))
		if (err == nil) != (n >= need) {
			rt.Fatalf("random source gives %d bytes, %d needed: %v", n, need, err)
		}
		if n < need {
			c.NonTrivial(n, need)
		}
		c.Sample("%d of %d bytes: %v", n, need, err)
	})
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
