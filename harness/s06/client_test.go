package s06

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"sort"
	"strings"
	"testing"

	"verif/guardkit"
	"verif/vt"

	"github.com/mutecomm/mute/serviceguard/client"
	"pgregory.net/rapid"
)

// hashes lists the live tokens in order of their age.
func (w *world) hashes(which func(h *held) bool) (l [][]byte) {
	for hash, h := range w.tokens {
		if which(h) {
			l = append(l, []byte(hash))
		}
	}
	sort.Slice(l, func(i, j int) bool { return w.tokens[string(l[i])].n < w.tokens[string(l[j])].n })
	return
}

func (w *world) isOut(hash []byte) bool { return w.out[string(hash)] }

// genuine checks a token that was handed out or returned for an owner.
func (w *world) genuine(op string, hash []byte, usage string, owner *[32]byte) {
	h := w.tokens[string(hash)]
	if h == nil {
		w.rt.Fatalf("%s returned token %x that is not in the wallet", op, hash)
	}
	if usage != "" && h.first.Usage != usage {
		w.rt.Fatalf("%s returned %v for %q, asked for %q", op, h.raw, h.first.Usage, usage)
	}
	if owner != nil && !bytes.Equal(h.raw.Owner, owner[:]) {
		w.rt.Fatalf("%s returned %v, asked for owner %x", op, h.raw, owner[:4])
	}
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.s.spent(hash) {
		w.rt.Fatalf("%s returned %v that is spent", op, h.raw)
	}
}

// spend spends a token at its issuer.
func (w *world) spend(hash []byte) error {
	h := w.tokens[string(hash)]
	var priv ed25519.PrivateKey
	for _, o := range append(w.owners, w.wallet) {
		if bytes.Equal(o.Pub[:], h.raw.Owner) {
			priv = o.Priv[:]
		}
	}
	if h.first.OwnerPrivKey != nil {
		priv = h.first.OwnerPrivKey[:]
	}
	if priv == nil {
		return fmt.Errorf("nobody owns %v", h.raw)
	}
	p := guardkit.RawSpend{CallType: 1, Token: h.first.Token}
	p.Signature = ed25519.Sign(priv, guardkit.Image(1, p.Token))
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	_, is, _ := w.s.issuerOf(p.Token)
	return is.Spend(guardkit.DER(p))
}

// forget takes a token from the model.
func (w *world) forget(hash []byte) {
	delete(w.tokens, string(hash))
	delete(w.out, string(hash))
	w.deleted[string(hash)] = true
}

func (w *world) owner(t *rapid.T) *[32]byte {
	switch rapid.IntRange(0, 5).Draw(t, "owner") {
	case 0:
		return nil
	case 1:
		return w.wallet.Pub
	case 2, 3:
		return w.owners[0].Pub
	default:
		return w.owners[1].Pub
	}
}

// calm ends the trouble planned for an operation.
func (w *world) calm() {
	w.s.mu.Lock()
	w.s.faults = nil
	w.s.mu.Unlock()
	w.mu.Lock()
	w.crashIn, w.failStore = 0, ""
	w.mu.Unlock()
}

// recover checks that nothing is stuck when the servers behave again.
func (w *world) recover() {
	rt := w.rt
	w.mu.Lock()
	w.crashIn, w.failStore = 0, ""
	w.mu.Unlock()
	w.s.mu.Lock()
	w.s.faults, w.s.funds, w.s.mode = nil, 1<<30, 0
	w.s.mu.Unlock()
	w.c.GoOnline()
	if err := w.c.GetVerifyKeys(); err != nil {
		rt.Fatalf("in the end: GetVerifyKeys: %v", err)
	}
	for hash := range w.out {
		w.c.UnlockToken([]byte(hash))
	}
	w.out = map[string]bool{}
	reissue := func(hash []byte, owner *[32]byte) {
		h := w.tokens[string(hash)]
		var err error
		var n []byte
		for try := 0; try < 3; try++ {
			w.run("ReissueToken", func() { n, err = w.c.ReissueToken(hash, owner) })
			w.audit("ReissueToken in the end", true, owner)
			if err == nil {
				w.genuine("ReissueToken", n, h.first.Usage, owner)
				return
			}
		}
		rt.Fatalf("in the end: %v cannot be reissued: %v (%v)", h.raw, err, w.c.LastError)
	}
	for i := 0; i < 100; i++ {
		hash := w.store.Storage.GetInReissue()
		if hash == nil {
			break
		}
		reissue(hash, nil)
	}
	for _, hash := range w.hashes(func(h *held) bool { return h.first.OwnerPrivKey != nil }) {
		reissue(hash, w.owners[1].Pub)
	}
	for _, u := range usages {
		var tok *client.TokenEntry
		var err error
		for try := 0; try < 6; try++ {
			w.run("GetToken", func() { tok, err = w.c.GetToken(u, w.owners[0].Pub) })
			if err == nil {
				w.out[string(tok.Hash)] = true
			}
			w.audit("GetToken in the end", true, w.owners[0].Pub)
			if err == nil {
				break
			}
		}
		if err != nil {
			rt.Fatalf("in the end: no token for %q: %v (%v)", u, err, w.c.LastError)
		}
	}
	for _, hash := range w.hashes(func(*held) bool { return true }) {
		if err := w.spend(hash); err != nil {
			rt.Fatalf("in the end: %v is held but worthless: %v", w.tokens[string(hash)].raw, err)
		}
	}
}

func TestClient(t *testing.T) {
	vt.CheckSteps(t, "a token was reissued and a request failed", 150, 6000, 14, func(rt *rapid.T, c *vt.Case) {
		w := newWorld(rt)
		defer func() { w.close() }()
		handed, crashes := 0, 0
		var hist []string
		unheld := vt.Expand(32, 7, 0)
		plan := func(t *rapid.T) {
			w.s.mu.Lock()
			defer w.s.mu.Unlock()
			w.mu.Lock()
			defer w.mu.Unlock()
			w.s.mode = rapid.IntRange(0, 2).Draw(t, "params")
			w.s.pick = rapid.IntRange(0, 1).Draw(t, "issuer")
			w.s.faults = nil
			w.failStore = ""
			w.crashIn = 0
			w.s.known = nil
			for _, hash := range w.hashes(func(h *held) bool { return w.s.issued(h.first.Hash) }) {
				h := w.tokens[string(hash)]
				w.s.known = append(w.s.known, h.first.Token)
				if len(h.last.ServerPacket) > 0 { // what is at stake
					w.s.known = append([][]byte(nil), h.first.Token)
					break
				}
			}
			switch vt.Uniform(t, 10, "trouble") {
			case 0, 1, 2, 3, 4, 5:
				w.s.faults = rapid.SliceOfN(rapid.Custom(drawFault), 1, 4).Draw(t, "faults")
			case 6:
				w.crashIn = rapid.IntRange(1, 14).Draw(t, "crash")
			case 7, 8:
				w.failSkip = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, "later")
				w.failStore = rapid.SampledFrom([]string{"SetToken", "SetToken", "GetToken", "GetAndLockToken", "FindToken", "LockToken", "SetAuthToken"}).Draw(t, "store")
			}
		}
		// after ends an operation
		after := func(op string, crashed bool, err error, reissues bool, owner *[32]byte) {
			if crashed {
				crashes++
				w.restart(true)
			}
			w.audit(op, reissues, owner)
			hist = append(hist, fmt.Sprint(strings.SplitN(op, "(", 2)[0], crashed, err))
			w.calm()
			if !crashed {
				w.classified(op, err)
			}
		}
		any := func(t *rapid.T) []byte {
			l := w.hashes(func(*held) bool { return true })
			if len(l) == 0 || rapid.IntRange(0, 9).Draw(t, "held") == 0 {
				return unheld
			}
			return l[rapid.IntRange(0, len(l)-1).Draw(t, "token")]
		}
		rt.Repeat(map[string]func(*rapid.T){
			"get": func(t *rapid.T) {
				plan(t)
				usage, owner := rapid.SampledFrom(usages).Draw(t, "usage"), w.owner(t)
				var tok *client.TokenEntry
				var err error
				crashed := w.run("GetToken", func() { tok, err = w.c.GetToken(usage, owner) })
				op := fmt.Sprintf("GetToken(%q, %s)", usage, keyOf(owner))
				if !crashed && err == nil {
					if tok == nil {
						t.Fatalf("%s returned nothing", op)
					}
					if w.isOut(tok.Hash) {
						t.Fatalf("%s returned a token that is in use", op)
					}
					w.out[string(tok.Hash)] = true
				}
				after(op, crashed, err, true, owner)
				if !crashed && err == nil {
					w.genuine(op, tok.Hash, usage, owner)
					h := w.tokens[string(tok.Hash)]
					if !bytes.Equal(tok.Token, h.first.Token) || tok.Usage != usage || !bytes.Equal(tok.OwnerPubKey[:], h.raw.Owner) || len(tok.ServerPacket) > 0 {
						t.Fatalf("%s returned %+v", op, tok)
					}
					if owner == nil && h.first.OwnerPrivKey != nil {
						t.Fatalf("%s returned a token kept for reissue: %v", op, h.raw)
					}
					handed++
				}
			},
			"wallet": func(t *rapid.T) {
				plan(t)
				usage, owner := rapid.SampledFrom(usages).Draw(t, "usage"), w.owner(t)
				var hash []byte
				var err error
				crashed := w.run("WalletToken", func() { hash, err = w.c.WalletToken(usage, owner) })
				op := fmt.Sprintf("WalletToken(%q, %s)", usage, keyOf(owner))
				after(op, crashed, err, true, owner)
				if !crashed && err == nil {
					w.genuine(op, hash, usage, owner)
				}
				if !crashed && err == client.ErrNeedReissue {
					w.genuine(op, hash, usage, w.wallet.Pub)
				}
			},
			"reissue": func(t *rapid.T) {
				plan(t)
				hash, owner := any(t), w.owner(t)
				h := w.tokens[string(hash)]
				var n []byte
				var err error
				crashed := w.run("ReissueToken", func() { n, err = w.c.ReissueToken(hash, owner) })
				op := fmt.Sprintf("ReissueToken(%x, %s)", hash[:4], keyOf(owner))
				if err == nil && !crashed {
					if h == nil {
						t.Fatalf("%s: no such token, but it gave %x", op, n)
					}
					if w.isOut(hash) {
						t.Fatalf("%s: the token was in use", op)
					}
					if h.first.OwnerPrivKey == nil {
						t.Fatalf("%s: the token is not ours", op)
					}
				}
				after(op, crashed, err, h != nil && !w.isOut(hash), owner)
				if err == nil && !crashed {
					w.genuine(op, n, h.first.Usage, owner)
				}
			},
			"receive": func(t *rapid.T) {
				plan(t)
				if w.failStore == "GetToken" {
					w.failStore = "" // a token that cannot be read is not known
				}
				i := rapid.IntRange(0, 2).Draw(t, "issuer")
				usage := usageOf(i)
				owner := w.wallet.Pub
				good := true
				w.s.mu.Lock()
				k := w.s.keys[i]
				is := w.s.issuers[i]
				what := rapid.SampledFrom([]string{"good", "good", "good", "usage", "owner", "nobody", "altered", "expired", "stranger", "known"}).Draw(t, "what")
				switch what {
				case "usage":
					usage, good = usages[1-i/2], false
				case "owner":
					owner, good = w.owners[0].Pub, false
				case "nobody":
					owner, good = nil, false
				case "expired":
					k, is, good, usage = w.s.old, w.s.issuers[0], false, usages[0]
				case "stranger":
					k, is, good = w.s.stranger.NewKey(usage, 86400), w.s.stranger, false
				}
				tok := is.Issue(k, owner)
				w.s.mu.Unlock()
				switch what {
				case "altered":
					var d string
					old := append([]byte(nil), tok...)
					tok, d = vt.Mutation(t, tok, "token")
					a, ok := guardkit.ParseToken(tok)
					if o, _ := guardkit.ParseToken(old); ok && fmt.Sprint(guardkit.DER(a)) == fmt.Sprint(guardkit.DER(o)) {
						w.calm()
						return // another encoding of the same token
					}
					_ = d
					good = false
				case "known":
					l := w.hashes(func(h *held) bool { return h.first.Usage == usage })
					if len(l) == 0 {
						w.calm()
						return
					}
					tok, good = w.tokens[string(l[rapid.IntRange(0, len(l)-1).Draw(t, "known")])].first.Token, false
				}
				var err error
				in := append([]byte(nil), tok...)
				crashed := w.run("ReceiveToken", func() { err = w.c.ReceiveToken(usage, in) })
				troubled := w.storeFailed
				w.s.mu.Lock()
				troubled = troubled || w.s.requests > 0
				w.s.mu.Unlock()
				after(fmt.Sprintf("ReceiveToken of a %s token", what), crashed, err, false, nil)
				if crashed {
					return
				}
				if err == nil && !good {
					t.Fatalf("ReceiveToken accepted a %s token", what)
				}
				if err != nil && good && !troubled && w.c.IsOnline() {
					t.Fatalf("ReceiveToken refused a good token: %v (%v)", err, w.c.LastError)
				}
				if err == nil {
					raw, _ := guardkit.ParseToken(tok)
					if w.tokens[string(raw.Hash())] == nil {
						t.Fatalf("received token is not in the wallet")
					}
				}
			},
			"spend": func(t *rapid.T) {
				l := w.hashes(func(h *held) bool { return w.out[string(h.first.Hash)] && len(h.last.ServerPacket) == 0 })
				if len(l) == 0 {
					t.Skip()
				}
				hash := l[rapid.IntRange(0, len(l)-1).Draw(t, "token")]
				if err := w.spend(hash); err != nil {
					t.Fatalf("handed out %v is refused: %v", w.tokens[string(hash)].raw, err)
				}
				w.c.DelToken(hash)
				w.forget(hash)
				w.audit("DelToken", false, nil)
			},
			"unlock": func(t *rapid.T) {
				l := w.hashes(func(h *held) bool { return w.out[string(h.first.Hash)] })
				if len(l) == 0 {
					t.Skip()
				}
				hash := l[rapid.IntRange(0, len(l)-1).Draw(t, "token")]
				w.c.UnlockToken(hash)
				delete(w.out, string(hash))
				w.audit("UnlockToken", false, nil)
			},
			"lock": func(t *rapid.T) {
				hash := any(t)
				id := w.c.LockToken(hash)
				if free := w.tokens[string(hash)] != nil && !w.isOut(hash); free != (id > 0) {
					t.Fatalf("LockToken gives %d, token is free: %v", id, free)
				}
				if id > 0 {
					w.out[string(hash)] = true
				}
				w.audit("LockToken", false, nil)
			},
			"delete": func(t *rapid.T) {
				hash := any(t)
				w.c.DelToken(hash)
				w.forget(hash)
				w.audit("DelToken", false, nil)
			},
			"restart": func(t *rapid.T) {
				w.restart(false)
				w.audit("restart", false, nil)
			},
			"online": func(t *rapid.T) {
				plan(t)
				if w.c.IsOnline() && rapid.IntRange(0, 2).Draw(t, "offline") == 0 {
					w.run("GoOffline", w.c.GoOffline)
				} else {
					w.c.GoOnline()
				}
				var err error
				crashed := w.run("GetVerifyKeys", func() { err = w.c.GetVerifyKeys() })
				after("GetVerifyKeys", crashed, err, false, nil)
			},
			"issuer": func(t *rapid.T) {
				w.s.mu.Lock()
				defer w.s.mu.Unlock()
				switch rapid.IntRange(0, 2).Draw(t, "what") {
				case 0:
					w.s.rotate(rapid.IntRange(0, 2).Draw(t, "issuer"))
				case 1:
					for _, i := range w.s.issuers {
						i.ForgetParams()
					}
				case 2:
					w.s.funds = rapid.SampledFrom([]int{0, 1, 1 << 30}).Draw(t, "funds")
				}
			},
		})
		w.recover()
		c.Label("crashes %d", crashes)
		c.Label("handed out %d", handed)
		c.Label("faults %d", w.s.faulted)
		if w.s.reissues > 0 && (w.s.faulted > 0 || crashes > 0) {
			c.NonTrivial(w.s.faulted, crashes, handed, strings.Join(hist, ";"))
			c.Sample("%d reissues, %d faults, %d crashes, %d tokens handed out", w.s.reissues, w.s.faulted, crashes, handed)
		}
	})
}
