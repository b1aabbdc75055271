// Package s02 decides property S02: token spending and reissue requests are
// bound to owner and content.
package s02

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"encoding/asn1"
	"math/big"
	"reflect"
	"testing"

	"verif/guardkit"
	"verif/vt"

	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var data = vt.Bytes(600, 0, 1, 4, 8, 32, 33, 64, 127, 128, 255, 256)

// message is a request of either kind.
type message interface {
	Image() []byte
	Sign(*[ed25519.PrivateKeySize]byte)
	Verify(*[ed25519.PublicKeySize]byte) error
	Marshal() ([]byte, error)
}

type fields struct {
	reissue bool
	call    int32
	parts   [3][]byte // token, blinded token, parameters
	sig     []byte
}

func (f fields) packet() message {
	if f.reissue {
		return &types.ReissuePacket{CallType: f.call, Token: f.parts[0], BlindToken: f.parts[1], Params: f.parts[2], Signature: f.sig}
	}
	return &types.SpendPacket{CallType: f.call, Token: f.parts[0], Signature: f.sig}
}

func (f fields) n() int {
	if f.reissue {
		return 3
	}
	return 1
}

func of(m message) (f fields) {
	switch p := m.(type) {
	case *types.ReissuePacket:
		return fields{true, p.CallType, [3][]byte{p.Token, p.BlindToken, p.Params}, p.Signature}
	case *types.SpendPacket:
		return fields{false, p.CallType, [3][]byte{p.Token}, p.Signature}
	}
	return f
}

func (f fields) image() []byte { return guardkit.Image(f.call, f.parts[:f.n()]...) }

func (f fields) same(g fields) bool {
	return f.reissue == g.reissue && f.call == g.call && bytes.Equal(f.parts[0], g.parts[0]) &&
		bytes.Equal(f.parts[1], g.parts[1]) && bytes.Equal(f.parts[2], g.parts[2])
}

func draw(rt *rapid.T) fields {
	f := fields{reissue: rapid.Bool().Draw(rt, "reissue")}
	f.call = rapid.OneOf(rapid.SampledFrom([]int32{0, 1, -1, 1 << 30}), rapid.Int32()).Draw(rt, "call type")
	for i := 0; i < f.n(); i++ {
		f.parts[i] = data.Draw(rt, "part")
	}
	return f
}

func unmarshal(reissue bool, enc []byte, reuse bool) (message, error) {
	if reissue {
		p := new(types.ReissuePacket)
		if reuse {
			p = &types.ReissuePacket{CallType: 9, Token: []byte{1}, BlindToken: []byte{2}, Params: []byte{3}, Signature: make([]byte, 64)}
		}
		p, err := p.Unmarshal(enc)
		if err != nil {
			return nil, err
		}
		return p, nil
	}
	p := new(types.SpendPacket)
	if reuse {
		p = &types.SpendPacket{CallType: 9, Token: []byte{1}, Signature: make([]byte, 64)}
	}
	p, err := p.Unmarshal(enc)
	if err != nil {
		return nil, err
	}
	return p, nil
}

// verify calls Verify, also on a copy which went over the wire.
func verify(rt *rapid.T, what string, m message, pub *[32]byte, want, either bool) {
	check := func(m message, how string) {
		if pub == nil && len(of(m).sig) == 1 && of(m).sig[0] != 0 {
			return // not the mark of an unsigned request
		}
		if err := m.Verify(pub); (err == nil) != want && !either {
			rt.Fatalf("%s%s: Verify gives %v, valid: %v", what, how, err, want)
		}
	}
	check(m, "")
	enc, err := m.Marshal()
	if err != nil {
		rt.Fatalf("%s: Marshal: %v", what, err)
	}
	m2, err := unmarshal(of(m).reissue, enc, rapid.Bool().Draw(rt, "reuse"))
	if err != nil {
		rt.Fatalf("%s: Unmarshal of an encoded request: %v", what, err)
	}
	if !of(m).same(of(m2)) || !bytes.Equal(of(m).sig, of(m2).sig) {
		rt.Fatalf("%s: decodes to %+v, encoded %+v", what, m2, m)
	}
	check(m2, " (decoded)")
}

// TestPackets signs, changes and verifies requests with arbitrary fields.
func TestPackets(t *testing.T) {
	vt.Check(t, "a request changed after it was signed, or verified for another key", 3000, 150000, func(rt *rapid.T, c *vt.Case) {
		f := draw(rt)
		m := f.packet()
		if !bytes.Equal(m.Image(), f.image()) {
			rt.Fatalf("image of %+v is not the hashes of its fields", f)
		}
		if p, ok := m.(*types.ReissuePacket); ok && p.Hash() != sha256.Sum256(f.image()) {
			rt.Fatalf("hash is not the hash of the image")
		}
		owner := guardkit.NewOwner()
		signed := rapid.IntRange(0, 3).Draw(rt, "signed") > 0
		if signed {
			m.Sign(owner.Priv)
		} else {
			m.Sign(nil)
		}
		if !f.same(of(m)) {
			rt.Fatalf("signing changes the request")
		}
		verify(rt, "owner", m, owner.Pub, signed, false)
		verify(rt, "no owner", m, nil, !signed, false)
		verify(rt, "other owner", m, guardkit.NewOwner().Pub, false, false)
		g := of(m)
		what := rapid.SampledFrom([]string{"call", "part", "part", "move", "exchange", "signature", "drop", "kind", "bytes", "again"}).Draw(rt, "change")
		c.Label("%s", what)
		h := g
		h.sig = append([]byte(nil), g.sig...)
		desc := what
		switch what {
		case "call":
			h.call ^= 1 << uint(rapid.IntRange(0, 31).Draw(rt, "bit"))
		case "part":
			i := rapid.IntRange(0, f.n()-1).Draw(rt, "at")
			h.parts[i], desc = vt.Mutation(rt, g.parts[i], "part")
		case "move":
			if !f.reissue {
				return
			}
			i := rapid.IntRange(0, 1).Draw(rt, "at")
			all := append(append([]byte(nil), g.parts[i]...), g.parts[i+1]...)
			n := rapid.IntRange(0, len(all)).Draw(rt, "border")
			h.parts[i], h.parts[i+1] = all[:n], all[n:]
		case "exchange":
			if !f.reissue {
				return
			}
			i := rapid.IntRange(0, 2).Draw(rt, "a")
			j := (i + 1) % 3
			h.parts[i], h.parts[j] = h.parts[j], h.parts[i]
		case "signature":
			h.sig, desc = vt.Mutation(rt, h.sig, "signature")
		case "drop":
			h.sig = []byte{0}
		case "kind":
			h.reissue = !h.reissue
			if !h.reissue {
				h.parts[1], h.parts[2] = nil, nil
			}
		case "bytes":
			enc, err := m.Marshal()
			if err != nil {
				rt.Fatalf("Marshal: %v", err)
			}
			mut, d := vt.Mutation(rt, enc, "packet")
			desc = d
			m2, err := unmarshal(f.reissue, mut, false)
			var probe interface{} = new(guardkit.RawSpend)
			if f.reissue {
				probe = new(guardkit.RawReissue)
			}
			_, perr := asn1.Unmarshal(mut, probe)
			if (err == nil) != (perr == nil) {
				rt.Fatalf("Unmarshal gives %v, the bytes are malformed: %v", err, perr)
			}
			if err != nil {
				c.NonTrivial("malformed", desc)
				return
			}
			h = of(m2)
		case "again":
			// another owner signs later
			o := guardkit.NewOwner()
			m2 := h.packet()
			m2.Sign(o.Priv)
			verify(rt, "new signer", m2, o.Pub, true, false)
			verify(rt, "former signer", m2, owner.Pub, false, false)
			c.NonTrivial(what)
			return
		}
		same := h.same(g)
		// a signature is the same if it is the same bytes
		sigSame := bytes.Equal(h.sig, g.sig)
		want := signed && same && sigSame
		if same && !sigSame && len(h.sig) == len(g.sig) && signed {
			want = ed25519.Verify(owner.Pub[:], h.image(), h.sig)
			if want {
				rt.Fatalf("reference accepts a changed signature")
			}
		}
		verify(rt, "changed "+desc, h.packet(), owner.Pub, want, false)
		verify(rt, "changed "+desc+", no owner", h.packet(), nil, len(h.sig) == 1, false)
		if !same && bytes.Equal(h.packet().Image(), m.Image()) {
			rt.Fatalf("different requests (%s) have the same image", desc)
		}
		if !same || !sigSame {
			c.NonTrivial(f.reissue, desc)
		}
		c.Sample("%s, signed %v", desc, signed)
	})
}

// TestRequests checks that the requests a client makes hold what they should
// and are accepted by verification, and by the issuer, just then.
func TestRequests(t *testing.T) {
	vt.Check(t, "an owned token, or a wrong or missing owner key", 600, 15000, func(rt *rapid.T, c *vt.Case) {
		is := guardkit.NewIssuer()
		key := is.NewKey("u", 1000)
		cl, err := packetproto.New([]types.Backend{{Type: "keydir", Value: vt.TempDir()}})
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		cl.AddVerifyKey(&is.Pub)
		if _, err := cl.Keypool.LoadKey(key.Usable()); err != nil {
			rt.Fatalf("LoadKey: %v", err)
		}
		owner, with := guardkit.Owner{}, guardkit.Owner{}
		kind := rapid.IntRange(0, 3).Draw(rt, "owner")
		switch kind {
		case 0: // no owner
		case 1:
			owner = guardkit.NewOwner()
			with = owner
		case 2:
			owner, with = guardkit.NewOwner(), guardkit.NewOwner()
		case 3:
			owner = guardkit.NewOwner()
		}
		tok := is.Issue(key, owner.Pub)
		params := is.Params(key, true)
		var packet []byte
		reissue := rapid.Bool().Draw(rt, "reissue")
		if reissue {
			packet, _, err = cl.Reissue(tok, with.Priv, nil, params)
			if kind == 3 {
				if err != packetproto.ErrMissingSigner {
					rt.Fatalf("reissue without the owner's key: %v", err)
				}
				c.NonTrivial(reissue, kind)
				return
			}
		} else {
			packet, err = cl.Spend(tok, with.Priv)
		}
		if err != nil {
			rt.Fatalf("request: %v", err)
		}
		m, err := unmarshal(reissue, packet, false)
		if err != nil {
			rt.Fatalf("request does not decode: %v", err)
		}
		f := of(m)
		wantCall := int32(types.CallTypeSpend)
		if reissue {
			wantCall = types.CallTypeReissue
			if !bytes.Equal(f.parts[2], params) {
				rt.Fatalf("request with other parameters")
			}
		}
		if f.call != wantCall || !bytes.Equal(f.parts[0], tok) {
			rt.Fatalf("request of other type or for another token")
		}
		good := kind <= 1
		tk, err := token.Unmarshal(f.parts[0])
		if err != nil {
			rt.Fatalf("token: %v", err)
		}
		_, o := tk.Properties()
		if (o != nil) != (owner.Pub != nil) || o != nil && *o != *owner.Pub {
			rt.Fatalf("token of another owner")
		}
		if err := m.Verify(o); (err == nil) != good {
			rt.Fatalf("Verify gives %v, valid: %v", err, good)
		}
		try := func(p []byte) error {
			if reissue {
				_, _, err := is.Reissue(p)
				return err
			}
			return is.Spend(p)
		}
		mut, desc := vt.Mutation(rt, packet, "packet")
		if m2, err := unmarshal(reissue, mut, false); err == nil && !of(m2).same(f) && owner.Pub != nil {
			if try(mut) == nil {
				rt.Fatalf("the issuer accepts a changed request (%s)", desc)
			}
		}
		if err := try(packet); (err == nil) != good {
			rt.Fatalf("the issuer answers %v, valid: %v", err, good)
		}
		c.NonTrivial(reissue, kind, desc)
		c.Sample("reissue %v, owner kind %d", reissue, kind)
	})
}

// TestTokens checks tokens and the remaining encodings.
func TestTokens(t *testing.T) {
	defer func() { token.Rand = rand.Reader }()
	vt.Check(t, "any token with signature, or changed encoding", 2000, 100000, func(rt *rapid.T, c *vt.Case) {
		var id [32]byte
		copy(id[:], vt.Expand(32, rapid.Uint32().Draw(rt, "key id"), rapid.IntRange(0, 3).Draw(rt, "kind")))
		var owner *[32]byte
		if rapid.Bool().Draw(rt, "owner") {
			owner = new([32]byte)
			copy(owner[:], vt.Expand(32, rapid.Uint32().Draw(rt, "owner key"), rapid.IntRange(0, 3).Draw(rt, "kind")))
		}
		rnd := vt.NewDetRand(rapid.Uint64().Draw(rt, "rand"))
		token.Rand = rnd
		tk := token.New(&id, owner)
		if tk == nil {
			rt.Fatalf("New failed")
		}
		tk2 := token.New(&id, owner)
		token.Rand = rand.Reader
		if bytes.Equal(tk.Nonce, tk2.Nonce) || bytes.Equal(tk.Hash(), tk2.Hash()) || owner == nil && bytes.Equal(tk.Owner, tk2.Owner) {
			rt.Fatalf("two tokens with the same nonce")
		}
		check := func(tk *token.Token, what string) {
			kid, o := tk.Properties()
			if *kid != id || (o != nil) != (owner != nil) || o != nil && *o != *owner || tk.HasOwner() != (owner != nil) {
				rt.Fatalf("%s: token is not for the key and owner asked", what)
			}
			raw := guardkit.RawToken{KeyID: tk.KeyID, Flag: tk.Flag, Nonce: tk.Nonce, Owner: tk.Owner}
			if !bytes.Equal(raw.Hash(), tk.Hash()) {
				rt.Fatalf("%s: wrong hash", what)
			}
		}
		check(tk, "new")
		num := rapid.Custom(func(rt *rapid.T) *big.Int {
			return new(big.Int).SetBytes(vt.Bytes(34, 0, 1, 31, 32).Draw(rt, "number"))
		})
		sig := jjm.NewClearSignature(eccutil.ZeroPoint())
		sig.PointR = *eccutil.NewPoint(num.Draw(rt, "x"), num.Draw(rt, "y"))
		sig.ScalarR, sig.ScalarS = num.Draw(rt, "r"), num.Draw(rt, "s")
		before := tk.Hash()
		if rapid.Bool().Draw(rt, "signed") {
			tk.AddSignature(&sig)
			g := tk.GetSignature()
			if g.PointR.X.Cmp(sig.PointR.X) != 0 || g.PointR.Y.Cmp(sig.PointR.Y) != 0 || g.ScalarR.Cmp(sig.ScalarR) != 0 || g.ScalarS.Cmp(sig.ScalarS) != 0 {
				rt.Fatalf("signature changed by the token")
			}
			if !bytes.Equal(before, tk.Hash()) {
				rt.Fatalf("the signature changes the token's identity")
			}
		}
		enc, err := tk.Marshal()
		if err != nil {
			rt.Fatalf("Marshal: %v", err)
		}
		d, err := token.Unmarshal(enc)
		if err != nil {
			rt.Fatalf("Unmarshal: %v", err)
		}
		check(d, "decoded")
		if !bytes.Equal(d.Nonce, tk.Nonce) || !bytes.Equal(d.Owner, tk.Owner) || !bytes.Equal(d.PointRX, tk.PointRX) || !bytes.Equal(d.PointRY, tk.PointRY) ||
			!bytes.Equal(d.ScalarS, tk.ScalarS) || !bytes.Equal(d.ScalarR, tk.ScalarR) {
			rt.Fatalf("decoded token differs")
		}
		mut, desc := vt.Mutation(rt, enc, "token")
		m, err := token.Unmarshal(mut)
		raw, ok := guardkit.ParseToken(mut)
		if ok != (err == nil) {
			rt.Fatalf("Unmarshal gives %v, well formed: %v (%s)", err, ok, desc)
		}
		if err == nil {
			if !bytes.Equal(m.Hash(), raw.Hash()) {
				rt.Fatalf("decoded token has another hash than its encoding")
			}
			re, err := m.Marshal()
			if err != nil {
				rt.Fatalf("decoded token does not encode: %v", err)
			}
			m2, err := token.Unmarshal(re)
			if err != nil || !reflect.DeepEqual(m, m2) {
				rt.Fatalf("re-encoded token differs")
			}
		}
		c.NonTrivial(owner != nil, desc)
		c.Sample("owner %v, %s: %v", owner != nil, desc, err)
	})
}

// TestStored checks the encodings of parameters and stored request data.
func TestStored(t *testing.T) {
	is := guardkit.NewIssuer()
	key := is.NewKey("usage", 1000)
	vt.Check(t, "any stored request, or changed encoding", 1500, 60000, func(rt *rapid.T, c *vt.Case) {
		var f [5][]byte
		for i := range f {
			f[i] = data.Draw(rt, "field")
		}
		can := rapid.Bool().Draw(rt, "can reissue")
		p := types.ReissuePacketPrivate{PublicKey: f[0], Factors: f[1], Token: f[2], RequestHash: f[3], Request: f[4], CanReissue: can}
		enc, err := p.Marshal()
		if err != nil {
			rt.Fatalf("Marshal: %v", err)
		}
		var np *types.ReissuePacketPrivate
		if rapid.Bool().Draw(rt, "reuse") {
			np = &types.ReissuePacketPrivate{PublicKey: []byte{9}, CanReissue: true, Request: []byte{8, 8}}
		}
		q, err := np.Unmarshal(enc)
		if err != nil {
			rt.Fatalf("Unmarshal: %v", err)
		}
		got := [5][]byte{q.PublicKey, q.Factors, q.Token, q.RequestHash, q.Request}
		for i := range f {
			if !bytes.Equal(f[i], got[i]) {
				rt.Fatalf("field %d changed", i)
			}
		}
		if q.CanReissue != can {
			rt.Fatalf("flag changed")
		}
		mut, desc := vt.Mutation(rt, enc, "stored")
		new(types.ReissuePacketPrivate).Unmarshal(mut)
		// parameters
		var rp guardkit.RawParams
		_, err = asn1.Unmarshal(is.Params(key, can), &rp)
		vt.InfraIf(err)
		pp := types.Params{PublicKey: rp.PublicKey, PublicParams: rp.PublicParams, PrivateParams: f[0], CanReissue: can}
		enc, err = pp.Marshal()
		if err != nil {
			rt.Fatalf("Marshal: %v", err)
		}
		check := func(enc []byte, what string, wantErr bool) {
			pub, pub2, priv, cr, err := types.UnmarshalParams(enc)
			var rq guardkit.RawParams
			_, perr := asn1.Unmarshal(enc, &rq)
			rk, ok := guardkit.ParseKey(rq.PublicKey)
			if (err == nil) != (perr == nil && ok) {
				rt.Fatalf("%s: UnmarshalParams gives %v, well formed: %v", what, err, perr == nil && ok)
			}
			if err != nil {
				return
			}
			if x, y := rk.Point(); pub.PublicKey.X.Cmp(x) != 0 || pub.PublicKey.Y.Cmp(y) != 0 || pub.Usage != rk.Usage || pub.Expire != rk.Expire ||
				!bytes.Equal(pub.KeyID[:], rk.KeyID) || !bytes.Equal(pub.Signer[:], rk.Signer) || !bytes.Equal(pub.Signature[:], rk.Signature) {
				rt.Fatalf("%s: other key than encoded", what)
			}
			if !bytes.Equal(guardkit.DER(*pub2), guardkit.DER(rq.PublicParams)) || !bytes.Equal(priv, rq.PrivateParams) || cr != rq.CanReissue {
				rt.Fatalf("%s: other parameters than encoded", what)
			}
			if !wantErr && (!bytes.Equal(priv, f[0]) || cr != can || !bytes.Equal(guardkit.DER(*pub2), guardkit.DER(rp.PublicParams))) {
				rt.Fatalf("%s: parameters changed", what)
			}
		}
		check(enc, "encoded", false)
		mut, desc = vt.Mutation(rt, enc, "params")
		check(mut, desc, true)
		c.NonTrivial(can, desc)
		c.Sample("%s", desc)
	})
}
