// Package mixkit sets up mixes and nym addresses for the checks of package
// mix.
package mixkit

import (
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/rand"
	"fmt"
	"os"

	"verif/vt"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

// Mix is a mix with its keys.
type Mix struct {
	Addr string
	Priv *[ed25519.PrivateKeySize]byte
	KL   *mixaddr.KeyList
}

// SigKey generates a signature key.
func SigKey() *[ed25519.PrivateKeySize]byte {
	_, p, err := ed25519.GenerateKey(rand.Reader)
	vt.InfraIf(err)
	k := new([ed25519.PrivateKeySize]byte)
	copy(k[:], p)
	return k
}

// NewMix makes a mix whose keys live for the given numbers of seconds.
func NewMix(addr, dir string, lives ...int64) *Mix {
	m := &Mix{Addr: addr, Priv: SigKey()}
	m.KL = mixaddr.New(m.Priv, addr, 0, 0, dir)
	for _, l := range lives {
		m.KL.Duration = l
		m.KL.AddKey()
	}
	return m
}

// Candidates collects the addresses of all mixes.
func Candidates(mixes ...*Mix) (al mixaddr.AddressList) {
	for _, m := range mixes {
		if st := m.KL.GetStatement(); st != nil {
			al = append(al, st.Addresses...)
		}
	}
	return al
}

// Template draws an address template for the given mixes. Times are offsets
// from now.
func Template(rt *rapid.T, al mixaddr.AddressList, expires ...int64) nymaddr.AddressTemplate {
	exp := rapid.SampledFrom(expires).Draw(rt, "expire")
	min := rapid.Int32Range(0, 3600).Draw(rt, "mindelay")
	return nymaddr.AddressTemplate{
		Secret:        vt.Expand(rapid.SampledFrom([]int{1, 16, 32, 64, 65, 100}).Draw(rt, "secretlen"), rapid.Uint32().Draw(rt, "secret"), 0),
		MixCandidates: al,
		Expire:        times.Now() + exp,
		SingleUse:     rapid.Bool().Draw(rt, "singleuse"),
		MinDelay:      min,
		MaxDelay:      min + rapid.Int32Range(0, 3600).Draw(rt, "spread"),
	}
}

// Mailbox draws a mailbox address.
func Mailbox(rt *rapid.T, label string) []byte {
	if rapid.IntRange(0, 4).Draw(rt, label+"kind") == 0 {
		return []byte(rapid.StringN(0, 80, 200).Draw(rt, label+"str"))
	}
	return []byte(fmt.Sprintf("%x@accounts%d.", vt.Expand(32, rapid.Uint32().Draw(rt, label), 0), rapid.IntRange(0, 9).Draw(rt, label+"n")))
}

// Pub computes the X25519 public key with the standard library.
func Pub(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	vt.InfraIf(err)
	return k.PublicKey().Bytes()
}

// Receive is mixcrypt.ReceiveMessage without its output.
func Receive(k mixcrypt.KeyFunc, env []byte) (*mixcrypt.ReceiveStruct, error) {
	old := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = old }()
	return mixcrypt.ReceiveMessage(k, env)
}

var null, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
