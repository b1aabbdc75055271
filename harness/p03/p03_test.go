// Package p03 decides property P03: encodings and cryptographic wrappers are
// inverses and match their references.
package p03

import (
	"bytes"
	"crypto/aes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	stdbase64 "encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"hash"
	"io"
	"io/ioutil"
	"strconv"
	"strings"
	"testing"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/encode"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg/msgid"
	"github.com/mutecomm/mute/msg/padding"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util/digits"
	"golang.org/x/crypto/nacl/box"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// source is a random source: it may deliver few bytes at a time.
func source(rt *rapid.T) io.Reader {
	r := io.Reader(vt.NewDetRand(uint64(rapid.Uint32().Draw(rt, "rand"))))
	if rapid.Bool().Draw(rt, "slow") {
		return slow{r, rapid.IntRange(1, 9).Draw(rt, "at once")}
	}
	return r
}

type slow struct {
	r io.Reader
	n int
}

func (s slow) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}

func key(rt *rapid.T, n int, label string) []byte {
	switch rapid.IntRange(0, 9).Draw(rt, label+"kind") {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	}
	return vt.Expand(n, rapid.Uint32().Draw(rt, label), 0)
}

// otherLen is a length that is not n.
func otherLen(rt *rapid.T, n int) int {
	for {
		l := rapid.OneOf(rapid.IntRange(0, 80), rapid.SampledFrom([]int{n - 1, n + 1, 2 * n, 0, n / 2})).Draw(rt, "length")
		if l != n {
			return l
		}
	}
}

// ctr is AES in counter mode made of single blocks.
func ctr(key, iv, in []byte) []byte {
	b, err := aes.NewCipher(key)
	vt.InfraIf(err)
	c := append([]byte{}, iv...)
	out := make([]byte, len(in))
	var pad [16]byte
	for i := range in {
		if i%16 == 0 {
			b.Encrypt(pad[:], c)
			for j := 15; j >= 0; j-- {
				c[j]++
				if c[j] != 0 {
					break
				}
			}
		}
		out[i] = in[i] ^ pad[i%16]
	}
	return out
}

// cbc is encryption in CBC mode made of single blocks.
func cbc(key, iv, in []byte) []byte {
	b, err := aes.NewCipher(key)
	vt.InfraIf(err)
	prev := iv
	var out []byte
	for i := 0; i < len(in); i += 16 {
		var x [16]byte
		for j := range x {
			x[j] = in[i+j] ^ prev[j]
		}
		b.Encrypt(x[:], x[:])
		out = append(out, x[:]...)
		prev = out[len(out)-16:]
	}
	return out
}

// TestAES encrypts in both modes and compares with modes made of AES blocks.
func TestAES(t *testing.T) {
	vt.Check(t, "the text is longer than a block", 4000, 300000, func(rt *rapid.T, c *vt.Case) {
		k := key(rt, 32, "key")
		plain := vt.Bytes(2000, 0, 16, 32, 1024).Draw(rt, "plain")
		in := append([]byte{}, plain...)
		var enc []byte
		if p := vt.Try(func() { enc = aes256.CTREncrypt(k, in, source(rt)) }); p != "" {
			rt.Fatalf("CTREncrypt: %s", p)
		}
		if len(enc) != 16+len(plain) || !bytes.Equal(enc[16:], ctr(k, enc[:16], plain)) {
			rt.Fatalf("CTREncrypt of %d bytes differs from AES-256-CTR", len(plain))
		}
		if dec := aes256.CTRDecrypt(k, enc); !bytes.Equal(dec, plain) {
			rt.Fatalf("CTRDecrypt of %d bytes", len(plain))
		}
		// the stream, from any counter, in any pieces
		iv := key(rt, 16, "iv")
		s := aes256.CTRStream(k, iv)
		out := append([]byte{}, plain...)
		for pos := 0; pos < len(out); {
			n := rapid.IntRange(1, len(out)-pos).Draw(rt, "piece")
			s.XORKeyStream(out[pos:pos+n], out[pos:pos+n])
			pos += n
		}
		if !bytes.Equal(out, ctr(k, iv, plain)) {
			rt.Fatalf("CTRStream of %d bytes with iv %x differs from AES-256-CTR", len(plain), iv)
		}
		// CBC takes whole blocks
		whole := in[:len(in)/16*16]
		var cenc []byte
		if p := vt.Try(func() { cenc = aes256.CBCEncrypt(k, whole, source(rt)) }); p != "" {
			rt.Fatalf("CBCEncrypt: %s", p)
		}
		if len(cenc) != 16+len(whole) || !bytes.Equal(cenc[16:], cbc(k, cenc[:16], whole)) {
			rt.Fatalf("CBCEncrypt of %d bytes differs from AES-256-CBC", len(whole))
		}
		if dec := aes256.CBCDecrypt(k, cenc); !bytes.Equal(dec, whole) {
			rt.Fatalf("CBCDecrypt of %d bytes", len(whole))
		}
		if !bytes.Equal(in, plain) {
			rt.Fatalf("the text was changed")
		}
		// another iv for each message
		r := source(rt)
		a, b := aes256.CTREncrypt(k, in, r), aes256.CTREncrypt(k, in, r)
		if bytes.Equal(a[:16], b[:16]) {
			rt.Fatalf("CTREncrypt used an iv again")
		}
		a, b = aes256.CBCEncrypt(k, whole, r), aes256.CBCEncrypt(k, whole, r)
		if bytes.Equal(a[:16], b[:16]) {
			rt.Fatalf("CBCEncrypt used an iv again")
		}
		// wrong lengths are refused
		bad := make([]byte, otherLen(rt, 32))
		refused := func(what string, f func() []byte) {
			var out []byte
			if vt.Try(func() { out = f() }) == "" {
				rt.Fatalf("%s: %d bytes of output", what, len(out))
			}
		}
		refused("CTREncrypt with a short key", func() []byte { return aes256.CTREncrypt(bad, in, source(rt)) })
		refused("CTRDecrypt with a short key", func() []byte { return aes256.CTRDecrypt(bad, enc) })
		refused("CBCEncrypt with a short key", func() []byte { return aes256.CBCEncrypt(bad, whole, source(rt)) })
		refused("CBCDecrypt with a short key", func() []byte { return aes256.CBCDecrypt(bad, cenc) })
		refused("CTRStream with a short key", func() []byte { aes256.CTRStream(bad, iv); return nil })
		refused("CTRStream with a short iv", func() []byte { aes256.CTRStream(k, make([]byte, otherLen(rt, 16))); return nil })
		short := rapid.IntRange(0, 15).Draw(rt, "short")
		refused("CTRDecrypt of less than an iv", func() []byte { return aes256.CTRDecrypt(k, enc[:short]) })
		refused("CBCDecrypt of less than an iv", func() []byte { return aes256.CBCDecrypt(k, cenc[:short]) })
		if len(in)%16 != 0 {
			refused("CBCEncrypt of part of a block", func() []byte { return aes256.CBCEncrypt(k, in, source(rt)) })
		}
		if len(enc)%16 != 0 {
			refused("CBCDecrypt of part of a block", func() []byte { return aes256.CBCDecrypt(k, enc) })
		}
		fail := func() io.Reader { return &vt.FailAfter{R: source(rt), N: short} }
		refused("CTREncrypt without random bytes", func() []byte { return aes256.CTREncrypt(k, in, fail()) })
		refused("CBCEncrypt without random bytes", func() []byte { return aes256.CBCEncrypt(k, whole, fail()) })
		if len(plain) > 16 {
			c.NonTrivial(len(plain), k, short)
		}
	})
}

// refCKDF follows the comments of CKDF with one hash call each.
func refCKDF(nonce []byte) (k1, k2 []byte) {
	a := sha512.Sum512(nonce)
	double := func(h []byte) []byte { return append(append([]byte{}, h...), h...) }
	xor := func(b []byte, x byte) []byte {
		o := make([]byte, len(b))
		for i := range b {
			o[i] = b[i] ^ x
		}
		return o
	}
	a1, a2 := double(a[:32]), double(a[32:])
	kdf := func(x, y []byte) []byte {
		h := sha512.New()
		h.Write(xor(x, 0x5c))
		in := sha512.Sum512(xor(y, 0x36))
		h.Write(in[:])
		return h.Sum(nil)
	}
	return kdf(a1, a2), kdf(a2, a1)
}

// refHMAC is RFC 2104 with SHA-512.
func refHMAC(key, msg []byte) []byte {
	if len(key) > 128 {
		h := sha512.Sum512(key)
		key = h[:]
	}
	var ip, op [128]byte
	copy(ip[:], key)
	copy(op[:], key)
	for i := range ip {
		ip[i] ^= 0x36
		op[i] ^= 0x5c
	}
	in := sha512.Sum512(append(ip[:], msg...))
	out := sha512.Sum512(append(op[:], in[:]...))
	return out[:]
}

// TestHashes compares hashes, HMAC and key derivation.
func TestHashes(t *testing.T) {
	vt.Check(t, "the input is longer than a block", 3000, 200000, func(rt *rapid.T, c *vt.Case) {
		in := vt.Bytes(3000, 0, 55, 56, 64, 111, 112, 128).Draw(rt, "in")
		keep := append([]byte{}, in...)
		streamed := func(h hash.Hash) []byte {
			for rest := in; len(rest) > 0; {
				n := rapid.IntRange(1, len(rest)).Draw(rt, "piece")
				h.Write(rest[:n])
				rest = rest[n:]
			}
			return h.Sum(nil)
		}
		if !bytes.Equal(cipher.SHA1(in), streamed(sha1.New())) || !bytes.Equal(cipher.SHA256(in), streamed(sha256.New())) || !bytes.Equal(cipher.SHA512(in), streamed(sha512.New())) {
			rt.Fatalf("hashes of %x", in)
		}
		k := vt.Bytes(300, 0, 64, 128).Draw(rt, "key")
		if !bytes.Equal(cipher.HMAC(k, in), refHMAC(k, in)) {
			rt.Fatalf("HMAC of %x with key %x", in, k)
		}
		k1, k2 := cipher.CKDF(in)
		r1, r2 := refCKDF(in)
		if !bytes.Equal(k1, r1) || !bytes.Equal(k2, r2) {
			rt.Fatalf("CKDF of %x", in)
		}
		if !bytes.Equal(in, keep) {
			rt.Fatalf("the input was changed")
		}
		if len(in) > 64 {
			c.NonTrivial(in, k)
		}
	})
}

// TestECDH agrees on keys.
func TestECDH(t *testing.T) {
	vt.Check(t, "keys were agreed on and reflections tried", 1200, 80000, func(rt *rapid.T, c *vt.Case) {
		seed := source(rt)
		gen := func() *cipher.Curve25519Key {
			k, err := cipher.Curve25519Generate(seed)
			if err != nil {
				rt.Fatal(err)
			}
			sk, err := ecdh.X25519().NewPrivateKey(k.PrivateKey()[:])
			vt.InfraIf(err)
			if !bytes.Equal(sk.PublicKey().Bytes(), k.PublicKey()[:]) {
				rt.Fatalf("public key of %x", k.PrivateKey()[:])
			}
			return k
		}
		a, b := gen(), gen()
		if *a.PrivateKey() == *b.PrivateKey() {
			rt.Fatalf("the same key twice")
		}
		own := func(k *cipher.Curve25519Key) *[32]byte {
			if rapid.Bool().Draw(rt, "own") {
				return k.PublicKey()
			}
			return nil
		}
		s1, err := cipher.ECDH(a.PrivateKey(), b.PublicKey(), own(a))
		if err != nil {
			rt.Fatal(err)
		}
		s2, err := cipher.ECDH(b.PrivateKey(), a.PublicKey(), own(b))
		if err != nil {
			rt.Fatal(err)
		}
		sk, _ := ecdh.X25519().NewPrivateKey(a.PrivateKey()[:])
		pk, err := ecdh.X25519().NewPublicKey(b.PublicKey()[:])
		vt.InfraIf(err)
		ref, err := sk.ECDH(pk)
		vt.InfraIf(err)
		if *s1 != *s2 || !bytes.Equal(s1[:], ref) {
			rt.Fatalf("secrets %x, %x and %x", s1[:], s2[:], ref)
		}
		// arbitrary keys
		var xp, xs [32]byte
		copy(xp[:], key(rt, 32, "public"))
		copy(xs[:], key(rt, 32, "private"))
		xk, _ := ecdh.X25519().NewPrivateKey(xs[:])
		xpk, _ := ecdh.X25519().NewPublicKey(xp[:])
		if ref, err := xk.ECDH(xpk); err == nil {
			got, err := cipher.ECDH(&xs, &xp, nil)
			if err != nil || !bytes.Equal(got[:], ref) {
				rt.Fatalf("secret of %x and %x: %v", xs, xp, err)
			}
		}
		// reflected: the own key, also in its other encodings
		refl := *a.PublicKey()
		kind := rapid.SampledFrom([]string{"same", "top bit"}).Draw(rt, "reflection")
		if kind == "top bit" {
			refl[31] ^= 0x80
		}
		if got, err := cipher.ECDH(a.PrivateKey(), &refl, own(a)); err == nil {
			rt.Fatalf("the own key (%s) was taken as the key of the peer: secret %x", kind, got[:])
		}
		if got, err := cipher.ECDH(nil, b.PublicKey(), own(a)); err == nil || got != nil {
			rt.Fatalf("no private key: %x", got)
		}
		if got, err := cipher.ECDH(a.PrivateKey(), nil, own(a)); err == nil || got != nil {
			rt.Fatalf("no public key: %x", got)
		}
		// setting keys
		var k cipher.Curve25519Key
		if k.SetPublicKey(a.PublicKey()[:]) != nil || k.SetPrivateKey(a.PrivateKey()[:]) != nil || *k.PublicKey() != *a.PublicKey() || *k.PrivateKey() != *a.PrivateKey() {
			rt.Fatalf("keys are not the ones set")
		}
		bufPub, bufPriv := append([]byte{}, a.PublicKey()[:]...), append([]byte{}, a.PrivateKey()[:]...)
		if k.SetPublicKey(bufPub) != nil || k.SetPrivateKey(bufPriv) != nil {
			rt.Fatalf("keys cannot be set")
		}
		bufPub[vt.Uniform(rt, 32, "byte")] ^= 4
		bufPriv[vt.Uniform(rt, 32, "byte")] ^= 4
		if *k.PublicKey() != *a.PublicKey() || *k.PrivateKey() != *a.PrivateKey() {
			rt.Fatalf("changing the buffer a key was set from changed the key")
		}
		bad := key(rt, otherLen(rt, 32), "bad")
		if k.SetPublicKey(bad) == nil || k.SetPrivateKey(bad) == nil {
			rt.Fatalf("a key of %d bytes was set", len(bad))
		}
		if *k.PublicKey() != *a.PublicKey() || *k.PrivateKey() != *a.PrivateKey() {
			rt.Fatalf("a refused key was set")
		}
		n := rapid.IntRange(0, 31).Draw(rt, "random")
		if k, err := cipher.Curve25519Generate(&vt.FailAfter{R: seed, N: n}); err == nil {
			rt.Fatalf("a key from %d random bytes: %x", n, k.PrivateKey()[:])
		}
		c.NonTrivial(*a.PublicKey(), kind)
	})
}

// TestEd25519 signs.
func TestEd25519(t *testing.T) {
	vt.Check(t, "an altered signature or message was verified", 1500, 100000, func(rt *rapid.T, c *vt.Case) {
		k, err := cipher.Ed25519Generate(source(rt))
		if err != nil {
			rt.Fatal(err)
		}
		msg := vt.Bytes(500, 0, 64, 128).Draw(rt, "msg")
		sig := k.Sign(msg)
		std := ed25519.NewKeyFromSeed(k.PrivateKey()[:32])
		if !bytes.Equal(std, k.PrivateKey()[:]) || !bytes.Equal(std.Public().(ed25519.PublicKey), k.PublicKey()[:]) {
			rt.Fatalf("key of seed %x", k.PrivateKey()[:32])
		}
		if !bytes.Equal(sig, ed25519.Sign(std, msg)) {
			rt.Fatalf("signature of %x", msg)
		}
		var pub, priv cipher.Ed25519Key
		if pub.SetPublicKey(k.PublicKey()[:]) != nil || priv.SetPrivateKey(k.PrivateKey()[:]) != nil || *pub.PublicKey() != *k.PublicKey() || *priv.PrivateKey() != *k.PrivateKey() {
			rt.Fatalf("keys are not the ones set")
		}
		if !pub.Verify(msg, sig) || !k.Verify(msg, sig) {
			rt.Fatalf("signature of %x does not verify", msg)
		}
		if !bytes.Equal(priv.Sign(msg), sig) {
			rt.Fatalf("signature of %x", msg)
		}
		m2, s2 := msg, sig
		what := "message"
		if rapid.Bool().Draw(rt, "sig") {
			what = "signature"
			s2, _ = vt.Mutation(rt, sig, "sig")
		} else {
			m2, _ = vt.Mutation(rt, msg, "msg")
		}
		ok := false
		if p := vt.Try(func() { ok = pub.Verify(m2, s2) }); p != "" {
			rt.Fatalf("Verify: %s", p)
		}
		if ok {
			rt.Fatalf("signature %x of %x verifies as %x of %x", sig, msg, s2, m2)
		}
		// keys set are copies
		bufPub, bufPriv := append([]byte{}, k.PublicKey()[:]...), append([]byte{}, k.PrivateKey()[:]...)
		vt.InfraIf(pub.SetPublicKey(bufPub))
		vt.InfraIf(priv.SetPrivateKey(bufPriv))
		bufPub[vt.Uniform(rt, 32, "byte")] ^= 4
		bufPriv[vt.Uniform(rt, 64, "byte")] ^= 4
		if *pub.PublicKey() != *k.PublicKey() || *priv.PrivateKey() != *k.PrivateKey() || !pub.Verify(msg, sig) || !bytes.Equal(priv.Sign(msg), sig) {
			rt.Fatalf("changing the buffer a key was set from changed the key")
		}
		bad := key(rt, otherLen(rt, 32), "bad")
		if pub.SetPublicKey(bad) == nil || *pub.PublicKey() != *k.PublicKey() {
			rt.Fatalf("a public key of %d bytes was set", len(bad))
		}
		bad = key(rt, otherLen(rt, 64), "bad")
		if priv.SetPrivateKey(bad) == nil || *priv.PrivateKey() != *k.PrivateKey() {
			rt.Fatalf("a private key of %d bytes was set", len(bad))
		}
		// keys given out can be changed without harm
		k.PrivateKey()[0] ^= 1
		k.PublicKey()[0] ^= 1
		if !k.Verify(msg, k.Sign(msg)) || !bytes.Equal(k.Sign(msg), sig) {
			rt.Fatalf("changing a copy changed the key")
		}
		n := rapid.IntRange(0, 31).Draw(rt, "random")
		if _, err := cipher.Ed25519Generate(&vt.FailAfter{R: source(rt), N: n}); err == nil {
			rt.Fatalf("a key from %d random bytes", n)
		}
		c.NonTrivial(msg, what, *k.PublicKey())
	})
}

// TestNaClBox generates and sets keys of boxes.
func TestNaClBox(t *testing.T) {
	vt.Check(t, "two parties exchanged a box", 800, 60000, func(rt *rapid.T, c *vt.Case) {
		r := source(rt)
		a, err := cipher.NaClBoxGenerate(r)
		if err != nil {
			rt.Fatal(err)
		}
		b, err := cipher.NaClBoxGenerate(r)
		if err != nil {
			rt.Fatal(err)
		}
		msg := vt.Bytes(300).Draw(rt, "msg")
		arr := func(b []byte) *[32]byte {
			var x [32]byte
			if len(b) != 32 {
				rt.Fatalf("key of %d bytes", len(b))
			}
			copy(x[:], b)
			return &x
		}
		var nonce [24]byte
		box1 := box.Seal(nil, msg, &nonce, arr(b.PublicKey()), arr(a.PrivateKey()))
		var b2 cipher.NaClBoxKey
		if b2.SetPrivateKey(b.PrivateKey()) != nil || b2.SetPublicKey(b.PublicKey()) != nil || !bytes.Equal(b2.PrivateKey(), b.PrivateKey()) || !bytes.Equal(b2.PublicKey(), b.PublicKey()) {
			rt.Fatalf("keys are not the ones set")
		}
		out, ok := box.Open(nil, box1, &nonce, arr(a.PublicKey()), arr(b2.PrivateKey()))
		if !ok || !bytes.Equal(out, msg) {
			rt.Fatalf("box with %d bytes", len(msg))
		}
		bad := key(rt, otherLen(rt, 32), "bad")
		if b2.SetPrivateKey(bad) == nil || b2.SetPublicKey(bad) == nil || !bytes.Equal(b2.PrivateKey(), b.PrivateKey()) || !bytes.Equal(b2.PublicKey(), b.PublicKey()) {
			rt.Fatalf("a key of %d bytes was set", len(bad))
		}
		n := rapid.IntRange(0, 31).Draw(rt, "random")
		if _, err := cipher.NaClBoxGenerate(&vt.FailAfter{R: r, N: n}); err == nil {
			rt.Fatalf("a key from %d random bytes", n)
		}
		c.NonTrivial(msg, a.PublicKey())
	})
}

// TestEncodings converts numbers and bytes.
func TestEncodings(t *testing.T) {
	vt.Check(t, "every case", 6000, 500000, func(rt *rapid.T, c *vt.Case) {
		u := rapid.OneOf(rapid.Uint64(), rapid.Custom(func(t *rapid.T) uint64 { // around powers
			base := rapid.SampledFrom([]uint64{2, 10, 256}).Draw(t, "base")
			v := uint64(1)
			for i, n := 0, rapid.IntRange(0, 63).Draw(t, "exp"); i < n && v <= (1<<64-1)/base; i++ {
				v *= base
			}
			return v + uint64(rapid.IntRange(-2, 2).Draw(t, "delta"))
		})).Draw(rt, "u")
		b := encode.ToByte8(u)
		if len(b) != 8 || binary.LittleEndian.Uint64(b) != u || encode.ToUint64(b) != u {
			rt.Fatalf("%d is encoded as %x", u, b)
		}
		b = encode.ToByte2(uint16(u))
		if len(b) != 2 || binary.LittleEndian.Uint16(b) != uint16(u) || encode.ToUint16(b) != uint16(u) {
			rt.Fatalf("%d is encoded as %x", uint16(u), b)
		}
		if b = encode.ToByte1(uint8(u)); len(b) != 1 || b[0] != uint8(u) {
			rt.Fatalf("%d is encoded as %x", uint8(u), b)
		}
		if n := digits.Count(u); n != len(strconv.FormatUint(u, 10)) {
			rt.Fatalf("%d has %d digits", u, n)
		}
		for _, n := range []int{8, 2} {
			bad := make([]byte, otherLen(rt, n))
			var v interface{}
			if vt.Try(func() {
				if n == 8 {
					v = encode.ToUint64(bad)
				} else {
					v = encode.ToUint16(bad)
				}
			}) == "" {
				rt.Fatalf("%d bytes are %v", len(bad), v)
			}
		}
		// base64
		raw := vt.Bytes(400, 3, 57, 100).Draw(rt, "raw")
		s := base64.Encode(raw)
		if s != stdbase64.StdEncoding.EncodeToString(raw) {
			rt.Fatalf("%x is %q", raw, s)
		}
		if d, err := base64.Decode(s); err != nil || !bytes.Equal(d, raw) {
			rt.Fatalf("%q is %x: %v", s, d, err)
		}
		var buf bytes.Buffer
		w := base64.NewEncoder(&buf)
		for rest := raw; len(rest) > 0; {
			n := rapid.IntRange(1, len(rest)).Draw(rt, "piece")
			if _, err := w.Write(rest[:n]); err != nil {
				rt.Fatal(err)
			}
			rest = rest[n:]
		}
		if err := w.Close(); err != nil || buf.String() != s {
			rt.Fatalf("%x is streamed as %q: %v", raw, buf.String(), err)
		}
		if d, err := ioutil.ReadAll(base64.NewDecoder(slow{&buf, rapid.IntRange(1, 9).Draw(rt, "read")})); err != nil || !bytes.Equal(d, raw) {
			rt.Fatalf("%q streamed is %x: %v", s, d, err)
		}
		c.NonTrivial(u, raw)
	})
}

// TestRandom generates nonces, passphrases, padding and message IDs.
func TestRandom(t *testing.T) {
	vt.Check(t, "every case", 3000, 200000, func(rt *rapid.T, c *vt.Case) {
		fail := func(n int) io.Reader { return &vt.FailAfter{R: source(rt), N: n} }
		r := source(rt)
		n1, n2 := cipher.Nonce(r), cipher.Nonce(r)
		if len(n1) != 8 || len(n2) != 8 || bytes.Equal(n1, n2) {
			rt.Fatalf("nonces %x and %x", n1, n2)
		}
		p1, p2 := cipher.RandPass(r), cipher.RandPass(r)
		if d, err := stdbase64.StdEncoding.DecodeString(p1); err != nil || len(d) != 32 || p1 == p2 || bytes.Count(d, []byte{0}) > 16 {
			rt.Fatalf("passphrases %q and %q", p1, p2)
		}
		few := rapid.IntRange(0, 31).Draw(rt, "few")
		if few < 8 && vt.Try(func() { cipher.Nonce(fail(few)) }) == "" {
			rt.Fatalf("a nonce from %d random bytes", few)
		}
		if vt.Try(func() { cipher.RandPass(fail(few)) }) == "" {
			rt.Fatalf("a passphrase from %d random bytes", few)
		}
		n := rapid.OneOf(rapid.IntRange(0, 70), rapid.IntRange(0, 5000)).Draw(rt, "n")
		var pad []byte
		var err error
		if p := vt.Try(func() { pad, err = padding.Generate(n, r) }); p != "" || err != nil {
			rt.Fatalf("padding of %d bytes: %v %s", n, err, p)
		}
		if len(pad) != n {
			rt.Fatalf("padding of %d bytes, not %d", len(pad), n)
		}
		more, err := padding.Generate(n, r)
		if err != nil {
			rt.Fatal(err)
		}
		if n >= 12 {
			blocks := map[string]bool{}
			for _, p := range [][]byte{pad, more} {
				for i := 0; i+12 <= n; i += 16 {
					b := string(p[i : i+12])
					if blocks[b] {
						rt.Fatalf("padding of %d bytes repeats %x", n, b)
					}
					blocks[b] = true
				}
			}
		}
		if n > 0 {
			if few >= n {
				few = n - 1
			}
			if p, err := padding.Generate(n, fail(few)); err == nil {
				rt.Fatalf("padding %x from %d random bytes", p, few)
			}
		}
		// message IDs name their sender
		sender := rapid.SampledFrom([]string{"alice@mute.one", "bob-b@mute.one", "a-b-c.d-e@x-y.example.org", "a2b@mute.berlin"}).Draw(rt, "sender")
		id, err := msgid.Generate(sender, r)
		if err != nil {
			rt.Fatal(err)
		}
		id2, err := msgid.Generate(sender, r)
		if err != nil || id == id2 {
			rt.Fatalf("message IDs %q and %q", id, id2)
		}
		if got := msgid.Parse(id); got != sender {
			rt.Fatalf("message ID %q of %q is of %q", id, sender, got)
		}
		if f := strings.SplitN(id, "-", 4); len(f) != 4 || len(f[2]) != 32 {
			rt.Fatalf("message ID %q", id)
		} else if _, err := hex.DecodeString(f[2]); err != nil {
			rt.Fatalf("message ID %q", id)
		}
		few = rapid.IntRange(0, 15).Draw(rt, "few")
		if id, err := msgid.Generate(sender, fail(few)); err == nil {
			rt.Fatalf("message ID %q from %d random bytes", id, few)
		}
		any := rapid.String().Draw(rt, "any")
		if id, err := msgid.Generate(any, r); err == nil && (identity.IsMapped(any) != nil || msgid.Parse(id) != any) {
			rt.Fatalf("message ID %q of %q", id, any)
		}
		if p := vt.Try(func() { msgid.Parse(any) }); p != "" {
			rt.Fatalf("Parse(%q): %s", any, p)
		}
		c.NonTrivial(n, few, sender, n1)
	})
}
