// Package d02 decides property D02: stored secrets never appear in clear on
// disk.
package d02

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util/times"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

type secret struct {
	name string
	b    []byte
}

type run struct {
	rt      *rapid.T
	c       *vt.Case
	dir     string
	secrets []secret
	hist    []string
	seq     int
	msgs    *msgdb.MsgDB
	keys    *keydb.KeyDB
	pass    map[string][]byte
	oq      []int64
	bins    int
	scanned map[string]bool
	common  map[string]bool // prefixes shared by many secrets
}

func (r *run) fail(format string, a ...interface{}) {
	r.rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(r.hist, "\n"))
}
func (r *run) log(format string, a ...interface{}) {
	r.hist = append(r.hist, fmt.Sprintf(format, a...))
}
func (r *run) u(n int, l string) int { return vt.Uniform(r.rt, n, l) }
func (r *run) must(err error) {
	if err != nil {
		r.fail("%v", err)
	}
}

// text makes a recognisable string that must never be seen on disk.
func (r *run) text(name string) string {
	r.seq++
	s := "SECRET" + name + hex.EncodeToString(vt.Expand(8, uint32(r.seq), 0))
	r.secrets = append(r.secrets, secret{name, []byte(s)})
	if r.u(5, "long") == 0 {
		s = strings.Repeat(s+" ", 1+r.u(100, "rep"))
	}
	return s
}

func (r *run) bin(name string, b []byte) {
	r.bins++
	r.secrets = append(r.secrets, secret{name, b}, secret{name + " (hex)", []byte(hex.EncodeToString(b))},
		secret{name + " (HEX)", []byte(strings.ToUpper(hex.EncodeToString(b)))},
		secret{name + " (base64)", []byte(base64.RawStdEncoding.EncodeToString(b))},
		secret{name + " (base64url)", []byte(base64.RawURLEncoding.EncodeToString(b))})
}

func (r *run) ident() string {
	r.seq++
	id := fmt.Sprintf("person%dxyz@mute.berlin", r.seq)
	id, err := identity.Map(id)
	r.must(err)
	r.secrets = append(r.secrets, secret{"identity", []byte(id)})
	return id
}

// scan looks for every secret in every file of the directory.
func (r *run) scan(when string) {
	err := filepath.Walk(r.dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, err := ioutil.ReadFile(path)
		if err != nil {
			return nil
		}
		h := fnv.New64a()
		h.Write(b)
		key := fmt.Sprint(path, h.Sum64(), r.bins)
		if r.scanned[key] {
			return nil // nothing new in it
		}
		r.scanned[key] = true
		for _, s := range r.secrets {
			if r.common[string(s.b[:min(6, len(s.b))])] {
				continue
			}
			if i := bytes.Index(b, s.b); i >= 0 {
				r.fail("%s: %s %q is in clear in %s at %d", when, s.name, s.b, fi.Name(), i)
			}
		}
		for s := range r.common {
			if i := bytes.Index(b, []byte(s)); i >= 0 {
				r.fail("%s: text is in clear in %s at %d: %.60q", when, fi.Name(), i, b[i:])
			}
		}
		if strings.HasSuffix(path, encdb.DBSuffix) {
			// every page looks random
			for off := 0; off+4096 <= len(b); off += 4096 {
				var cnt [256]int
				for _, x := range b[off : off+4096] {
					cnt[x]++
				}
				chi := 0
				for _, n := range cnt {
					chi += (n - 16) * (n - 16)
				}
				if chi /= 16; chi > 700 && !allSame(b[off:off+4096]) { // 255 expected, deviation 23
					r.fail("%s: %s is not encrypted at %d (chi square %d)", when, fi.Name(), off, chi)
				}
			}
		}
		return nil
	})
	vt.InfraIf(err)
	l, _ := filepath.Glob(r.dir + "/*-journal")
	if len(l) > 0 {
		r.c.Label("journal seen")
	}
}

func (r *run) newPass() []byte {
	r.seq++
	p := []byte(fmt.Sprintf("passphrase%dqwertz", r.seq))
	r.secrets = append(r.secrets, secret{"passphrase", p})
	return p
}

func (r *run) rawKey(name string) []byte {
	k, err := encdb.ReadKeyfile(filepath.Join(r.dir, name+encdb.KeySuffix), r.pass[name])
	r.must(err)
	return k
}

func (r *run) open() {
	var err error
	r.msgs, err = msgdb.Open(filepath.Join(r.dir, "msgs"), r.pass["msgs"])
	r.must(err)
	r.keys, err = keydb.Open(filepath.Join(r.dir, "keys"), r.pass["keys"])
	r.must(err)
}

func (r *run) close() {
	r.must(r.msgs.Close())
	r.must(r.keys.Close())
}

func (r *run) step(op string) {
	switch op {
	case "nym":
		id := r.ident()
		r.log("user %s", id)
		r.must(r.msgs.AddNym(id, id, r.text("fullname")))
		for i := 0; i < 1+r.u(2, "contacts"); i++ {
			c := r.ident()
			r.must(r.msgs.AddContact(id, c, c, r.text("contactname"), msgdb.WhiteList))
			var p, s [64]byte
			copy(p[:], vt.Expand(64, uint32(r.seq), 0))
			copy(s[:], vt.Expand(64, uint32(r.seq)+5000, 0))
			r.bin("account key", p[:32])
			r.bin("account key", p[32:])
			r.bin("account secret", s[:32])
			r.must(r.msgs.AddAccount(id, c, &p, r.text("server"), &s, 1, 2))
			for j := 0; j < 1+r.u(3, "msgs"); j++ {
				r.must(r.msgs.AddMessage(id, c, 1, r.u(2, "dir") == 0, r.text("subject")+"\n"+r.text("body"), false, 1, 2))
			}
			num, _, _, _, _, _, err := r.msgs.GetUndeliveredMessage(id)
			r.must(err)
			if num > 0 {
				r.must(r.msgs.AddOutQueue(id, num, r.text("encrypted"), r.text("nymaddress"), 1, 2))
			}
			r.must(r.msgs.AddInQueue(id, c, 1, r.text("incoming")))
			r.must(r.msgs.AddMessageIDCache(id, c, r.text("msgid")))
		}
		if r.u(3, "del") == 0 {
			r.must(r.msgs.DelNym(id))
		}
	case "value":
		r.log("values")
		r.must(r.msgs.AddValue(r.text("valuekey"), r.text("value")))
		r.must(r.msgs.AddValue(msgdb.WalletKey, r.text("walletkey")))
		r.must(r.keys.AddValue(r.text("valuekey"), r.text("value")))
	case "uid":
		id := r.ident()
		r.log("uid %s", id)
		m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
		r.must(err)
		r.bin("signature key", m.PrivateSigKey64()[:32])
		r.bin("encryption key", m.PrivateEncKey32()[:])
		r.must(r.keys.AddPrivateUID(m))
		r.must(r.keys.AddPublicUID(m, 1))
		now := uint64(times.Now())
		ki, h, priv, err := m.KeyInit(1, now+times.Day, now-times.Day, false, m.UIDContent.REPOURIS[0], "mix@mute.berlin", r.text("nymaddr"), cipher.RandReader)
		r.must(err)
		b, err := base64.StdEncoding.DecodeString(priv)
		r.must(err)
		r.bin("key-init key", b)
		r.must(r.keys.AddPrivateKeyInit(ki, h, m.SigPubKey(), priv, r.text("srvsig")))
		r.must(r.keys.AddPublicKeyInit(ki))
		if r.u(3, "del") == 0 {
			r.must(r.keys.DelPrivateUID(m))
		}
	case "session":
		r.log("session")
		k := r.text("sessionkey")
		r.must(r.keys.AddSession(k, r.text("root"), r.text("chain"), []string{r.text("send"), r.text("send")}, []string{r.text("recv"), r.text("recv")}))
		r.must(r.keys.DelMessageKey(k, true, 0))
		var ke uid.KeyEntry
		r.must(ke.InitDHKey(cipher.RandReader))
		r.bin("session key", ke.PrivateKey32()[:])
		r.must(r.keys.SetSessionState(k, &session.State{RecipientTemp: ke, SenderSessionPub: ke, NymAddress: r.text("nymaddr")}))
		r.must(r.keys.AddSessionKey(r.text("hash"), string(ke.JSON()), ke.PrivateKey(), 1))
		r.must(r.keys.AddHashChainEntry("mute.berlin", uint64(r.seq), r.text("hcentry")))
	case "rekey":
		r.close()
		name := []string{"msgs", "keys"}[r.u(2, "which")]
		old := r.rawKey(name)
		file, err := ioutil.ReadFile(filepath.Join(r.dir, name+encdb.KeySuffix))
		r.must(err)
		p := r.newPass()
		if r.u(4, "same") == 0 {
			p = r.pass[name]
		}
		r.log("rekey %s", name)
		r.must(encdb.Rekey(filepath.Join(r.dir, name), r.pass[name], p, 1))
		r.pass[name] = p
		if !bytes.Equal(r.rawKey(name), old) {
			r.fail("rekey changed the database key")
		}
		file2, err := ioutil.ReadFile(filepath.Join(r.dir, name+encdb.KeySuffix))
		r.must(err)
		r.noShared(file[8:], file2[8:], "key files before and after rekey")
		r.open()
	case "vacuum":
		mode := []string{"", "NONE", "FULL", "INCREMENTAL"}[r.u(4, "mode")]
		r.log("vacuum %s", mode)
		r.must(r.msgs.Vacuum(mode))
		r.must(r.keys.Vacuum(mode))
	case "transaction": // look while a transaction has spilled to disk
		name := []string{"msgs", "keys"}[r.u(2, "which")]
		r.log("open transaction in %s", name)
		db, err := encdb.Open(filepath.Join(r.dir, name), r.pass[name])
		r.must(err)
		db.SetMaxOpenConns(1)
		_, err = db.Exec("PRAGMA cache_size = 2;")
		r.must(err)
		tx, err := db.Begin()
		r.must(err)
		for i := 0; i < 5; i++ {
			_, err = tx.Exec("UPDATE KeyValueStore SET ValueEntry=? WHERE KeyEntry='Version';", strings.Repeat(r.text("tx"), 40))
			r.must(err)
			_, err = tx.Exec("INSERT INTO KeyValueStore (KeyEntry, ValueEntry) VALUES (?, ?);", r.text("txk"), strings.Repeat(r.text("txv"), 40))
			r.must(err)
		}
		r.scan("during a transaction")
		tx.Rollback()
		db.Close()
	case "reopen":
		r.log("reopen")
		r.close()
		r.open()
	}
}

// noShared fails if two byte strings share an aligned 16-byte block anywhere.
func (r *run) noShared(a, b []byte, what string) {
	seen := map[string]int{}
	for i := 0; i+16 <= len(a); i += 8 {
		seen[string(a[i:i+16])] = i
	}
	for i := 0; i+16 <= len(b); i += 8 {
		if j, ok := seen[string(b[i:i+16])]; ok && !allSame(b[i:i+16]) {
			r.fail("%s share 16 bytes at %d and %d", what, j, i)
		}
	}
}

func allSame(b []byte) bool {
	for _, c := range b {
		if c != b[0] {
			return false
		}
	}
	return true
}

var ops = []string{"nym", "nym", "value", "uid", "uid", "session", "session", "rekey", "vacuum", "transaction", "transaction", "reopen"}

func TestNoClearText(t *testing.T) {
	vt.Check(t, "random histories of message and key database operations with recognisable secrets (texts, keys in binary, hex and base64, identities, passphrases, database keys); after every operation, and inside open transactions, every file is searched for each of them and must be incompressible; non-trivial: messages, keys and sessions stored", 60, 2500, func(rt *rapid.T, c *vt.Case) {
		r := &run{rt: rt, c: c, dir: vt.TempDir(), pass: map[string][]byte{}, scanned: map[string]bool{}, common: map[string]bool{"SECRET": true, "person": true, "passph": true}}
		defer os.RemoveAll(r.dir)
		r.pass["msgs"], r.pass["keys"] = r.newPass(), r.newPass()
		r.must(msgdb.Create(filepath.Join(r.dir, "msgs"), r.pass["msgs"], 1))
		r.must(keydb.Create(filepath.Join(r.dir, "keys"), r.pass["keys"], 1))
		r.bin("database key", r.rawKey("msgs"))
		r.bin("database key", r.rawKey("keys"))
		if bytes.Equal(r.rawKey("msgs"), r.rawKey("keys")) || allSame(r.rawKey("msgs")) {
			r.fail("database keys are not random")
		}
		r.open()
		defer r.close()
		done := map[string]bool{}
		n := 5 + r.u(15, "ops")
		for i := 0; i < n; i++ {
			op := ops[r.u(len(ops), "op")]
			r.step(op)
			c.Label("%s", op)
			done[op] = true
			r.scan("after " + op)
		}
		if done["nym"] && done["uid"] && done["session"] {
			c.NonTrivial(strings.Join(r.hist, ";"))
		}
		c.Sample("%d secrets searched for; %s", len(r.secrets), strings.Join(r.hist, "; "))
	})
}

// TestIndependent: equal passphrases and content give unrelated files.
func TestIndependent(t *testing.T) {
	vt.Check(t, "two databases made with the same generated passphrase, iterations and content; non-trivial: always", 60, 3000, func(rt *rapid.T, c *vt.Case) {
		r := &run{rt: rt, c: c, dir: vt.TempDir()}
		defer os.RemoveAll(r.dir)
		pass := vt.Bytes(40).Draw(rt, "pass")
		val := string(vt.Bytes(3000).Draw(rt, "value"))
		iter := rapid.IntRange(1, 50).Draw(rt, "iter")
		var dbf, kf, key [2][]byte
		for i := range dbf {
			p := filepath.Join(r.dir, fmt.Sprint("db", i))
			r.must(encdb.Create(p, pass, iter, []string{"CREATE TABLE T (V TEXT);"}))
			db, err := encdb.Open(p, pass)
			r.must(err)
			_, err = db.Exec("INSERT INTO T (V) VALUES (?);", val)
			r.must(err)
			r.must(db.Close())
			dbf[i], err = ioutil.ReadFile(p + encdb.DBSuffix)
			r.must(err)
			kf[i], err = ioutil.ReadFile(p + encdb.KeySuffix)
			r.must(err)
			key[i], err = encdb.ReadKeyfile(p+encdb.KeySuffix, pass)
			r.must(err)
		}
		r.noShared(key[0], key[1], "database keys")
		r.noShared(kf[0][8:], kf[1][8:], "key files")
		r.noShared(dbf[0], dbf[1], "database files")
		c.NonTrivial(pass, val, iter)
	})
}
