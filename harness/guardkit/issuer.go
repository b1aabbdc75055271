// Package guardkit is a reference token issuer with its own verification of
// tokens, keys and requests, written from the protocol and not with the code
// under test.
package guardkit

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"time"

	"verif/vt"

	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

// RawToken is the encoding of a token.
type RawToken struct {
	KeyID                              []byte
	Flag                               bool
	Nonce                              []byte
	Owner                              []byte
	PointRX, PointRY, ScalarS, ScalarR []byte
}

// RawReissue is the encoding of a reissue request.
type RawReissue struct {
	CallType                             int32
	Token, BlindToken, Params, Signature []byte
}

// RawSpend is the encoding of a spend request.
type RawSpend struct {
	CallType         int32
	Token, Signature []byte
}

// RawParams is the encoding of blinding parameters.
type RawParams struct {
	PublicKey     []byte
	PublicParams  jjm.BlindingParamClient
	PrivateParams []byte
	CanReissue    bool
}

// RawKey is the encoding of a public key.
type RawKey struct {
	KeyID                  []byte
	PublicKeyX, PublicKeyY []byte
	Expire                 int64
	Usage                  string
	Signer                 []byte
	Signature              []byte
}

// DER encodes a value.
func DER(v interface{}) []byte {
	out, err := asn1.Marshal(v)
	vt.InfraIf(err)
	return out
}

// ParseToken decodes a token; it reports tokens that are not well formed.
func ParseToken(enc []byte) (t RawToken, ok bool) {
	_, err := asn1.Unmarshal(enc, &t)
	return t, err == nil && len(t.KeyID) == 32 && len(t.Nonce) == 16 && len(t.Owner) == 32
}

// Hash is the identity of a token.
func (t RawToken) Hash() []byte {
	b := append([]byte(nil), t.KeyID...)
	if t.Flag {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	b = append(append(b, t.Nonce...), t.Owner...)
	h := sha256.Sum256(b)
	return h[:]
}

// Message is the number that is signed for a token.
func (t RawToken) Message() *big.Int {
	m := sha256.Sum256(t.Hash())
	return new(big.Int).SetBytes(m[:])
}

// Signed reports whether a token's signature verifies under a public key.
func (t RawToken) Signed(x, y *big.Int) bool {
	c := elliptic.P256()
	rx, ry := new(big.Int).SetBytes(t.PointRX), new(big.Int).SetBytes(t.PointRY)
	if !c.IsOnCurve(x, y) || !c.IsOnCurve(rx, ry) {
		return false
	}
	lx, ly := c.ScalarMult(x, y, t.Message().Bytes())
	ax, ay := c.ScalarBaseMult(t.ScalarS)
	bx, by := c.ScalarMult(rx, ry, t.ScalarR)
	sx, sy := c.Add(ax, ay, bx, by)
	return lx.Cmp(sx) == 0 && ly.Cmp(sy) == 0
}

// ParseKey decodes a public key; it reports keys that are not well formed.
func ParseKey(enc []byte) (k RawKey, ok bool) {
	_, err := asn1.Unmarshal(enc, &k)
	return k, err == nil && len(k.KeyID) == 32 && len(k.Signer) == 32 && len(k.Signature) == 64
}

// Image is what the identity of a key is the hash of.
func (k RawKey) Image() []byte {
	x, y := new(big.Int).SetBytes(k.PublicKeyX).Bytes(), new(big.Int).SetBytes(k.PublicKeyY).Bytes()
	b := append(append([]byte(nil), x...), y...)
	b = binary.BigEndian.AppendUint64(b, uint64(k.Expire))
	b = append(b, ":"+k.Usage+":"...)
	return append(b, k.Signer...)
}

// Genuine reports whether a key is a point signed by the signer it names.
func (k RawKey) Genuine() bool {
	id := sha256.Sum256(k.Image())
	return bytes.Equal(id[:], k.KeyID) && ed25519.Verify(k.Signer, id[:], k.Signature) &&
		elliptic.P256().IsOnCurve(new(big.Int).SetBytes(k.PublicKeyX), new(big.Int).SetBytes(k.PublicKeyY))
}

// Point returns the point of a key.
func (k RawKey) Point() (x, y *big.Int) {
	return new(big.Int).SetBytes(k.PublicKeyX), new(big.Int).SetBytes(k.PublicKeyY)
}

// Key is a key of an issuer.
type Key struct {
	RawKey
	Enc  []byte
	priv []byte
}

// Usable returns the key as the code under test holds it.
func (k *Key) Usable() *signkeys.PublicKey {
	x, y := k.Point()
	p := &signkeys.PublicKey{PublicKey: eccutil.Point{X: x, Y: y}, Expire: k.Expire, Usage: k.Usage}
	copy(p.KeyID[:], k.KeyID)
	copy(p.Signer[:], k.Signer)
	copy(p.Signature[:], k.Signature)
	return p
}

// ID returns the identity of a key.
func (k *Key) ID() (id [32]byte) {
	copy(id[:], k.KeyID)
	return id
}

// Issuer is a reference issuer.
type Issuer struct {
	Pub    [ed25519.PublicKeySize]byte
	Priv   ed25519.PrivateKey
	keys   map[string]*Key
	params map[string]*signParams
	Spent  map[string]bool // hashes of spent tokens
	Issued map[string]bool // hashes of tokens made with Issue
	curve  *eccutil.Curve
}

type signParams struct {
	key  *Key
	srv  jjm.BlindingParamServer
	raw  []byte
	done *result
}

type result struct{ packet, reply []byte }

// NewIssuer makes an issuer.
func NewIssuer() *Issuer {
	pub, priv, err := ed25519.GenerateKey(rand.Reader)
	vt.InfraIf(err)
	i := &Issuer{Priv: priv, keys: map[string]*Key{}, params: map[string]*signParams{},
		Spent: map[string]bool{}, Issued: map[string]bool{},
		curve: eccutil.SetCurve(elliptic.P256, rand.Reader, eccutil.Sha1Hash)}
	copy(i.Pub[:], pub)
	return i
}

// Sign signs a key after a change of its fields.
func (i *Issuer) Sign(k *Key) *Key {
	k.Signer = i.Pub[:]
	id := sha256.Sum256(k.Image())
	k.KeyID = id[:]
	k.Signature = ed25519.Sign(i.Priv, id[:])
	k.Enc = DER(k.RawKey)
	i.keys[string(k.KeyID)] = k
	return k
}

// NewKey makes a key that expires in the given number of seconds.
func (i *Issuer) NewKey(usage string, life int64) *Key {
	priv, x, y, err := elliptic.GenerateKey(elliptic.P256(), rand.Reader)
	vt.InfraIf(err)
	return i.Sign(&Key{RawKey: RawKey{PublicKeyX: x.Bytes(), PublicKeyY: y.Bytes(),
		Expire: time.Now().Unix() + life, Usage: usage}, priv: priv})
}

// Key finds a key of the issuer.
func (i *Issuer) Key(id []byte) *Key { return i.keys[string(id)] }

// Issue makes a token.
func (i *Issuer) Issue(k *Key, owner *[32]byte) []byte {
	t := RawToken{KeyID: k.KeyID, Nonce: make([]byte, 16), Owner: make([]byte, 32), Flag: owner != nil}
	_, err := rand.Read(t.Nonce)
	vt.InfraIf(err)
	_, err = rand.Read(t.Owner)
	vt.InfraIf(err)
	if owner != nil {
		copy(t.Owner, owner[:])
	}
	i.SignToken(k, &t)
	i.Issued[string(t.Hash())] = true
	return DER(t)
}

// SignToken signs a token: s = m*priv - r*k, R = k*G.
func (i *Issuer) SignToken(k *Key, t *RawToken) {
	n := elliptic.P256().Params().N
	kk, rx, ry, err := elliptic.GenerateKey(elliptic.P256(), rand.Reader)
	vt.InfraIf(err)
	r, err := rand.Int(rand.Reader, n)
	vt.InfraIf(err)
	s := new(big.Int).Mul(t.Message(), new(big.Int).SetBytes(k.priv))
	s.Sub(s, new(big.Int).Mul(r, new(big.Int).SetBytes(kk)))
	s.Mod(s, n)
	t.PointRX, t.PointRY, t.ScalarS, t.ScalarR = rx.Bytes(), ry.Bytes(), s.Bytes(), r.Bytes()
	if !t.Signed(k.Point()) {
		vt.Infra(errors.New("reference signature does not verify"))
	}
}

// Params makes parameters for one reissue with a key.
func (i *Issuer) Params(k *Key, canReissue bool) []byte {
	x, y := k.Point()
	cl, srv, err := jjm.NewGenericBlindingServer(k.priv, eccutil.NewPoint(x, y), i.curve).GetParams()
	vt.InfraIf(err)
	id := make([]byte, 16)
	_, err = rand.Read(id)
	vt.InfraIf(err)
	raw := DER(RawParams{PublicKey: k.Enc, PublicParams: cl.(jjm.BlindingParamClient), PrivateParams: id, CanReissue: canReissue})
	i.params[string(id)] = &signParams{key: k, srv: srv.(jjm.BlindingParamServer), raw: raw}
	return raw
}

// Image is what the owner signs of a request.
func Image(callType int32, parts ...[]byte) []byte {
	ct := make([]byte, 8)
	binary.BigEndian.PutUint32(ct, uint32(callType))
	var out []byte
	for n, p := range parts {
		if n == 0 {
			p = append(ct, p...)
		}
		h := sha256.Sum256(p)
		out = append(out, h[:]...)
	}
	return out
}

// CheckToken verifies a token as its issuer.
func (i *Issuer) CheckToken(enc []byte) (RawToken, *Key, error) {
	t, ok := ParseToken(enc)
	if !ok {
		return t, nil, errors.New("issuer: bad package")
	}
	k := i.keys[string(t.KeyID)]
	if k == nil {
		return t, nil, errors.New("issuer: wrong issuer")
	}
	if k.Expire < time.Now().Unix() {
		return t, k, errors.New("issuer: token expired")
	}
	if !t.Signed(k.Point()) {
		return t, k, errors.New("issuer: bad signature in token")
	}
	return t, k, nil
}

func ownerSigned(t RawToken, sig, image []byte) bool {
	if !t.Flag {
		return len(sig) == 1
	}
	return ed25519.Verify(t.Owner, image, sig)
}

// Reissue answers a reissue request. Repeating a request gives the same
// answer.
func (i *Issuer) Reissue(packet []byte) (reply []byte, k *Key, err error) {
	var p RawReissue
	if _, err := asn1.Unmarshal(packet, &p); err != nil {
		return nil, nil, errors.New("issuer: bad package")
	}
	if p.CallType != 0 {
		return nil, nil, errors.New("issuer: wrong calltype")
	}
	t, old, err := i.CheckToken(p.Token)
	if err != nil {
		return nil, nil, err
	}
	if !ownerSigned(t, p.Signature, Image(p.CallType, p.Token, p.BlindToken, p.Params)) {
		return nil, nil, errors.New("issuer: owner signature verification failed")
	}
	var rp RawParams
	if _, err := asn1.Unmarshal(p.Params, &rp); err != nil {
		return nil, nil, errors.New("issuer: bad package")
	}
	sp := i.params[string(rp.PrivateParams)]
	if sp == nil {
		return nil, nil, errors.New("issuer: parameters have expired")
	}
	if !bytes.Equal(sp.raw, p.Params) {
		return nil, nil, errors.New("issuer: parameters were mixed")
	}
	if sp.key.Usage != old.Usage {
		return nil, nil, errors.New("issuer: parameter and Token usage mismatch")
	}
	if sp.done != nil {
		if bytes.Equal(sp.done.packet, packet) {
			return sp.done.reply, sp.key, nil
		}
		return nil, nil, errors.New("issuer: parameter double spend")
	}
	if i.Spent[string(t.Hash())] {
		return nil, nil, errors.New("issuer: token double spend")
	}
	x, y := sp.key.Point()
	pt := eccutil.NewPoint(x, y)
	bm, err := jjm.NewBlindMessage(pt).Unmarshal(p.BlindToken)
	if err != nil {
		return nil, nil, errors.New("issuer: bad package")
	}
	sig, err := jjm.NewGenericBlindingServer(sp.key.priv, pt, i.curve).Sign(sp.srv, bm)
	if err != nil {
		return nil, nil, errors.New("issuer: bad package")
	}
	reply, err = sig.Marshal()
	vt.InfraIf(err)
	sp.done = &result{packet: append([]byte(nil), packet...), reply: reply}
	i.Spent[string(t.Hash())] = true
	return reply, sp.key, nil
}

// Spend answers a spend request.
func (i *Issuer) Spend(packet []byte) error {
	var p RawSpend
	if _, err := asn1.Unmarshal(packet, &p); err != nil {
		return errors.New("issuer: bad package")
	}
	if p.CallType != 1 {
		return errors.New("issuer: wrong calltype")
	}
	t, _, err := i.CheckToken(p.Token)
	if err != nil {
		return err
	}
	if !ownerSigned(t, p.Signature, Image(p.CallType, p.Token)) {
		return errors.New("issuer: owner signature verification failed")
	}
	if i.Spent[string(t.Hash())] {
		return errors.New("issuer: token double spend")
	}
	i.Spent[string(t.Hash())] = true
	return nil
}

// Owner is a key pair of an owner.
type Owner struct {
	Pub  *[ed25519.PublicKeySize]byte
	Priv *[ed25519.PrivateKeySize]byte
}

// NewOwner makes the key pair of an owner.
func NewOwner() Owner {
	pub, priv, err := ed25519.GenerateKey(rand.Reader)
	vt.InfraIf(err)
	o := Owner{new([32]byte), new([64]byte)}
	copy(o.Pub[:], pub)
	copy(o.Priv[:], priv)
	return o
}

// Forge makes a token nobody signed whose signature satisfies the equation
// of the scheme: R = Pub, r = m, s = 0.
func Forge(k *Key, owner *[32]byte) []byte {
	t := RawToken{KeyID: k.KeyID, Nonce: make([]byte, 16), Owner: make([]byte, 32), Flag: owner != nil}
	_, err := rand.Read(t.Nonce)
	vt.InfraIf(err)
	if owner != nil {
		copy(t.Owner, owner[:])
	}
	t.PointRX, t.PointRY = k.PublicKeyX, k.PublicKeyY
	t.ScalarR = t.Message().Bytes()
	return DER(t)
}

// String describes a token.
func (t RawToken) String() string {
	return fmt.Sprintf("token %x of key %x, flag %v, owner %x", t.Hash()[:4], t.KeyID[:4], t.Flag, t.Owner[:4])
}

// ForgetParams drops the parameters that were not used.
func (i *Issuer) ForgetParams() {
	for id, p := range i.params {
		if p.done == nil {
			delete(i.params, id)
		}
	}
}
