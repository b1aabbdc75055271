// Package d01 decides property D01: an encrypted database opens only with its
// current passphrase and keeps its data.
package d01

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/pbkdf2"
	"crypto/sha256"
	"database/sql"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"verif/vt"

	"github.com/mutecomm/mute/encdb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	signal.Ignore(syscall.SIGXFSZ)
	vt.Main(m)
}

type database struct {
	name   string
	exists bool
	pass   []byte
	old    [][]byte
	rows   map[string]string
	iter   int
}

type model struct {
	rt   *rapid.T
	c    *vt.Case
	dir  string
	dbs  []*database
	hist []string
	seq  int
	done map[string]int
}

func (m *model) fail(format string, a ...interface{}) {
	m.rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(m.hist, "\n"))
}
func (m *model) log(format string, a ...interface{}) {
	m.hist = append(m.hist, fmt.Sprintf(format, a...))
}
func (m *model) u(n int, l string) int   { return vt.Uniform(m.rt, n, l) }
func (m *model) path(d *database) string { return filepath.Join(m.dir, d.name) }

var create = []string{"CREATE TABLE T (K TEXT NOT NULL UNIQUE, V TEXT NOT NULL);", "CREATE TABLE Child (ID INTEGER PRIMARY KEY, P TEXT, FOREIGN KEY(P) REFERENCES T(K) ON DELETE CASCADE);"}

// passphrases never end in a zero byte and are at most 64 bytes long, because
// PBKDF2 (HMAC) itself maps other ones together.
func (m *model) newPass() []byte {
	m.seq++
	switch m.u(7, "pass") {
	case 0:
		return []byte{}
	case 1:
		return []byte(strings.Repeat("x", m.u(50, "plen")) + fmt.Sprint(m.seq))
	case 2:
		return append(vt.Expand(m.u(60, "plen"), uint32(m.seq), 0), byte('a'+m.u(26, "last")))
	case 3:
		return []byte(fmt.Sprintf("pässwörd %d", m.seq))
	case 4:
		return []byte(fmt.Sprintf("%d\n", m.seq))
	}
	return []byte(fmt.Sprintf("p%d", m.u(30, "pnum")))
}

// snapshot of all files.
func (m *model) snapshot() map[string]string {
	s := map[string]string{}
	l, err := ioutil.ReadDir(m.dir)
	vt.InfraIf(err)
	for _, fi := range l {
		if fi.IsDir() {
			s[fi.Name()] = "dir"
			continue
		}
		b, err := ioutil.ReadFile(filepath.Join(m.dir, fi.Name()))
		vt.InfraIf(err)
		s[fi.Name()] = string(b)
	}
	return s
}

func diff(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, k+" is gone")
		} else if v != w {
			l = append(l, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k+" appeared")
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func (m *model) read(d *database, db *sql.DB) {
	rows, err := db.Query("SELECT K, V FROM T;")
	if err != nil {
		m.fail("%s: reading: %v", d.name, err)
	}
	defer rows.Close()
	got := map[string]string{}
	for rows.Next() {
		var k, v string
		if err := rows.Scan(&k, &v); err != nil {
			m.fail("%s: reading: %v", d.name, err)
		}
		got[k] = v
	}
	if err := rows.Err(); err != nil {
		m.fail("%s: reading: %v", d.name, err)
	}
	if len(got) != len(d.rows) {
		m.fail("%s holds %d rows, want %d", d.name, len(got), len(d.rows))
	}
	for k, v := range d.rows {
		if got[k] != v {
			m.fail("%s: row %q differs", d.name, k)
		}
	}
}

// opens checks that the database opens with its passphrase and its content.
func (m *model) opens(d *database) {
	db, err := encdb.Open(m.path(d), d.pass)
	if err != nil {
		m.fail("%s does not open with its passphrase %q: %v", d.name, d.pass, err)
	}
	defer db.Close()
	m.read(d, db)
}

// refuses checks that opening fails without any change.
func (m *model) refuses(name string, pass []byte, why string) {
	before := m.snapshot()
	var err error
	var db *sql.DB
	if p := vt.Try(func() { db, err = encdb.Open(filepath.Join(m.dir, name), pass) }); p != "" {
		m.fail("Open %s: %s", why, p)
	}
	if err == nil {
		db.Close()
		m.fail("Open %s succeeded", why)
	}
	if d := diff(before, m.snapshot()); d != "" {
		m.fail("Open %s: %s", why, d)
	}
}

func (m *model) keyfile(d *database) {
	b, err := ioutil.ReadFile(m.path(d) + encdb.KeySuffix)
	if err != nil {
		m.fail("key file: %v", err)
	}
	if len(b) != 88 || binary.LittleEndian.Uint64(b) != uint64(d.iter) {
		m.fail("key file of %s has %d bytes and %x iterations, want 88 bytes and %d", d.name, len(b), b[:8], d.iter)
	}
	dk, err := pbkdf2.Key(sha256.New, string(d.pass), b[8:40], d.iter, 32)
	vt.InfraIf(err)
	blk, err := aes.NewCipher(dk)
	vt.InfraIf(err)
	want := make([]byte, 32)
	stdcipher.NewCBCDecrypter(blk, b[40:56]).CryptBlocks(want, b[56:])
	got, err := encdb.ReadKeyfile(m.path(d)+encdb.KeySuffix, d.pass)
	if err != nil || !bytes.Equal(got, want) {
		m.fail("ReadKeyfile of %s does not follow the documented format (%v)", d.name, err)
	}
}

func limit(n uint64) (restore func()) {
	var old syscall.Rlimit
	vt.InfraIf(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	vt.InfraIf(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}))
	return func() { vt.InfraIf(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
}

// watch reports what happened to the named file meanwhile, as a list of moments
// at which it was missing or incomplete.
func (m *model) watch(name string, f func()) (moments []string) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		f()
		return nil
	}
	defer syscall.Close(fd)
	_, err = syscall.InotifyAddWatch(fd, m.dir, syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MODIFY|syscall.IN_CREATE)
	if err != nil {
		f()
		return nil
	}
	f()
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(fd, buf)
		if err != nil || n <= 0 {
			return
		}
		for off := 0; off+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
			b := buf[off+syscall.SizeofInotifyEvent : off+syscall.SizeofInotifyEvent+int(ev.Len)]
			off += syscall.SizeofInotifyEvent + int(ev.Len)
			if strings.TrimRight(string(b), "\x00") == name {
				what := map[uint32]string{syscall.IN_DELETE: "deleted", syscall.IN_MOVED_FROM: "moved away", syscall.IN_MODIFY: "written in place", syscall.IN_CREATE: "created anew"}[ev.Mask&0xfff]
				moments = append(moments, what)
			}
		}
	}
}

func (m *model) apply(op string) bool {
	d := m.dbs[m.u(len(m.dbs), "db")]
	switch op {
	case "create":
		pass := m.newPass()
		iter := []int{1, 2, 3, 100, 1000}[m.u(5, "iter")]
		m.log("create %s %q %d", d.name, pass, iter)
		before := m.snapshot()
		err := encdb.Create(m.path(d), pass, iter, create)
		if d.exists {
			if err == nil {
				m.fail("Create over existing %s succeeded", d.name)
			}
			if x := diff(before, m.snapshot()); x != "" {
				m.fail("refused Create: %s", x)
			}
			return true
		}
		if err != nil {
			m.fail("Create: %v", err)
		}
		d.exists, d.pass, d.old, d.rows, d.iter = true, pass, nil, map[string]string{}, iter
		return true
	case "leftover": // one of the two files is there already
		if d.exists {
			return false
		}
		suffix := []string{encdb.DBSuffix, encdb.KeySuffix}[m.u(2, "suffix")]
		m.log("create %s over a leftover %s file", d.name, suffix)
		vt.InfraIf(ioutil.WriteFile(m.path(d)+suffix, vt.Expand(m.u(100, "len"), 7, 0), 0600))
		before := m.snapshot()
		if err := encdb.Create(m.path(d), []byte("x"), 1, create); err == nil {
			m.fail("Create over a leftover %s file succeeded", suffix)
		}
		if x := diff(before, m.snapshot()); x != "" {
			m.fail("refused Create: %s", x)
		}
		m.refuses(d.name, []byte("x"), "of half a database")
		os.Remove(m.path(d) + suffix)
		return true
	}
	if !d.exists {
		if op == "missing" {
			m.refuses(d.name, m.newPass(), "of a missing database")
			if err := encdb.Rekey(m.path(d), nil, []byte("x"), 1); err == nil {
				m.fail("Rekey of a missing database succeeded")
			}
		}
		return false
	}
	switch op {
	case "missing":
		return false
	case "write":
		n := 1 + m.u(5, "n")
		m.log("write %s %d rows", d.name, n)
		db, err := encdb.Open(m.path(d), d.pass)
		if err != nil {
			m.fail("%s does not open with its passphrase %q: %v", d.name, d.pass, err)
		}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", m.u(8, "k"))
			if m.u(4, "del") == 0 {
				_, err = db.Exec("DELETE FROM T WHERE K=?;", k)
				delete(d.rows, k)
			} else {
				v := string(vt.Expand([]int{1, 10, 5000, 40000}[m.u(4, "vlen")], uint32(m.u(1000, "v")), 1))
				if _, ok := d.rows[k]; ok {
					_, err = db.Exec("UPDATE T SET V=? WHERE K=?;", v, k)
				} else {
					_, err = db.Exec("INSERT INTO T (K, V) VALUES (?, ?);", k, v)
				}
				d.rows[k] = v
			}
			if err != nil {
				m.fail("write: %v", err)
			}
		}
		m.read(d, db)
		if err := db.Close(); err != nil {
			m.fail("Close: %v", err)
		}
	case "cascade": // the database enforces foreign keys
		db, err := encdb.Open(m.path(d), d.pass)
		if err != nil {
			m.fail("%s does not open with its passphrase %q: %v", d.name, d.pass, err)
		}
		defer db.Close()
		m.log("foreign keys in %s", d.name)
		if _, err := db.Exec("INSERT INTO Child (P) VALUES ('no such parent');"); err == nil {
			m.fail("%s does not enforce foreign keys", d.name)
		}
	case "vacuum":
		mode := []string{"", "NONE", "FULL", "INCREMENTAL"}[m.u(4, "mode")]
		m.log("vacuum %s %s", d.name, mode)
		db, err := encdb.Open(m.path(d), d.pass)
		if err != nil {
			m.fail("%s does not open with its passphrase %q: %v", d.name, d.pass, err)
		}
		defer db.Close()
		was, _, err := encdb.Status(db)
		if err != nil {
			m.fail("Status: %v", err)
		}
		if err := encdb.Vacuum(db, mode); err != nil {
			m.fail("Vacuum: %v", err)
		}
		if mode == "" {
			mode = was
		}
		now, free, err := encdb.Status(db)
		if err != nil || now != mode || free != 0 {
			m.fail("Status after Vacuum = %s %d (%v), want %s 0", now, free, err, mode)
		}
		if err := encdb.Incremental(db, int64(m.u(4, "pages"))); (err == nil) != (now == "INCREMENTAL") {
			m.fail("Incremental in mode %s: %v", now, err)
		}
		if err := encdb.Vacuum(db, "FULLER"); err == nil {
			m.fail("Vacuum with an unknown mode succeeded")
		}
		m.read(d, db)
	case "wrong":
		for _, p := range d.old {
			if !bytes.Equal(p, d.pass) {
				m.refuses(d.name, p, fmt.Sprintf("with earlier passphrase %q", p))
			}
		}
		var p []byte
		switch m.u(4, "how") {
		case 0:
			p = m.newPass()
		case 1:
			p = append(append([]byte{}, d.pass...), 'x')
		case 2:
			p = bytes.ToUpper(d.pass)
		case 3:
			p = []byte(strings.TrimSpace(string(d.pass)))
			if len(p) > 0 && m.u(2, "cut") == 1 {
				p = p[:len(p)-1]
			}
		}
		if bytes.Equal(p, d.pass) {
			return false
		}
		m.log("open %s with %q", d.name, p)
		m.refuses(d.name, p, "with wrong passphrase")
		before := m.snapshot()
		if err := encdb.Rekey(m.path(d), p, []byte("new"), 1); err == nil {
			m.fail("Rekey with wrong passphrase succeeded")
		}
		if x := diff(before, m.snapshot()); x != "" {
			m.fail("Rekey with wrong passphrase: %s", x)
		}
	case "damage":
		kf := m.path(d) + encdb.KeySuffix
		good, err := ioutil.ReadFile(kf)
		vt.InfraIf(err)
		var bad []byte
		var desc string
		switch m.u(5, "how") {
		case 0: // iterations, but none that take forever
			bad = append([]byte{}, good...)
			i := []int{0, 1, 4, 5, 6, 7}[m.u(6, "byte")]
			bad[i] ^= byte(1 + m.u(255, "x"))
			desc = fmt.Sprintf("iteration byte %d", i)
			if binary.LittleEndian.Uint64(bad) > 70000 && binary.LittleEndian.Uint64(bad) <= 1<<31-1 {
				return false
			}
			if binary.LittleEndian.Uint64(bad) == 0 {
				return false // PBKDF2 treats it like 1
			}
		case 1:
			n := m.u(len(good), "keep")
			bad, desc = good[:n], fmt.Sprintf("cut to %d", n)
		case 2:
			for _, o := range m.dbs {
				if o != d && o.exists {
					bad, err = ioutil.ReadFile(m.path(o) + encdb.KeySuffix)
					vt.InfraIf(err)
					desc = "of " + o.name
				}
			}
			if bad == nil {
				return false
			}
		default:
			bad = append([]byte{}, good...)
			i := 8 + m.u(80, "byte")
			bad[i] ^= 1 << uint(m.u(8, "bit"))
			desc = fmt.Sprintf("byte %d", i)
		}
		m.log("damaged key file of %s: %s", d.name, desc)
		vt.InfraIf(ioutil.WriteFile(kf, bad, 0600))
		m.refuses(d.name, d.pass, "with damaged key file ("+desc+")")
		before := m.snapshot()
		if p := vt.Try(func() { err = encdb.Rekey(m.path(d), d.pass, []byte("new"), 1) }); p != "" || err == nil {
			m.fail("Rekey with damaged key file (%s): %v %s", desc, err, p)
		}
		if x := diff(before, m.snapshot()); x != "" {
			m.fail("Rekey with damaged key file: %s", x)
		}
		vt.InfraIf(ioutil.WriteFile(kf, good, 0600))
	case "plain":
		m.log("unencrypted database in place of %s", d.name)
		f := m.path(d) + encdb.DBSuffix
		good, err := ioutil.ReadFile(f)
		vt.InfraIf(err)
		switch m.u(3, "how") {
		case 0:
			vt.InfraIf(ioutil.WriteFile(f, append([]byte("SQLite format 3\x00"), make([]byte, 4080)...), 0600))
		case 1:
			b := append([]byte{}, good...)
			b[m.u(1000, "byte")] ^= byte(1 + m.u(255, "x"))
			vt.InfraIf(ioutil.WriteFile(f, b, 0600))
		case 2:
			vt.InfraIf(ioutil.WriteFile(f, nil, 0600))
		}
		m.refuses(d.name, d.pass, "of a damaged database file")
		vt.InfraIf(ioutil.WriteFile(f, good, 0600))
	case "rekey", "rekeyfault":
		np := m.newPass()
		iter := []int{1, 2, 50, 2000}[m.u(4, "iter")]
		if m.u(8, "same") == 0 {
			np = d.pass
		}
		if m.u(4, "stale") == 0 { // left over from an interrupted rekey
			vt.InfraIf(ioutil.WriteFile(m.path(d)+encdb.KeySuffix+".new", vt.Expand(m.u(200, "stale"), 3, 0), 0600))
		}
		dbBefore := m.snapshot()[d.name+encdb.DBSuffix]
		var err error
		restore := func() {}
		mustFail := false
		if op == "rekeyfault" {
			switch m.u(4, "fault") {
			case 0:
				iter = -1 - m.u(3, "neg")
				mustFail = true
			case 1:
				dir := m.path(d) + encdb.KeySuffix + ".new"
				os.Remove(dir)
				vt.InfraIf(os.Mkdir(dir, 0700))
				vt.InfraIf(ioutil.WriteFile(dir+"/x", nil, 0600))
				restore = func() { os.RemoveAll(dir) }
			default:
				restore = limit(uint64(m.u(89, "limit")))
			}
		}
		m.log("%s %s %q -> %q", op, d.name, d.pass, np)
		moments := m.watch(d.name+encdb.KeySuffix, func() {
			if p := vt.Try(func() { err = encdb.Rekey(m.path(d), d.pass, np, iter) }); p != "" {
				err = fmt.Errorf("%s", p)
				mustFail = true
			}
		})
		restore()
		if op == "rekey" && err != nil {
			m.fail("Rekey: %v", err)
		}
		if mustFail && err == nil {
			m.fail("Rekey with invalid iterations succeeded")
		}
		if len(moments) > 0 {
			m.fail("during Rekey the key file was %v: a crash at that point loses the database", moments)
		}
		m.c.Label("%s ok=%v", op, err == nil)
		if m.snapshot()[d.name+encdb.DBSuffix] != dbBefore {
			m.fail("Rekey changed the database file")
		}
		if err == nil {
			if !bytes.Equal(np, d.pass) {
				m.refuses(d.name, d.pass, "with the passphrase before Rekey")
			}
			d.old = append(d.old, d.pass)
			d.pass, d.iter = np, iter
		} else if db, e := encdb.Open(m.path(d), np); e == nil { // failed, but the new passphrase is in effect
			db.Close()
			d.old = append(d.old, d.pass)
			d.pass = np
		}
		m.opens(d)
	}
	return true
}

var ops = []string{"create", "create", "leftover", "missing", "write", "write", "write", "cascade", "vacuum", "wrong", "wrong", "damage", "damage", "damage", "plain", "rekey", "rekey", "rekey", "rekeyfault", "rekeyfault", "rekeyfault"}

func TestHistories(t *testing.T) {
	vt.Check(t, "random histories of create, write, vacuum, rekey, failing rekey (file size limits, blocked temporary file, invalid iterations), damaged files and wrong passphrases on 3 databases in one directory; after each step every database opens with its current passphrase and shows its data; non-trivial: a database rekeyed and written", 120, 5000, func(rt *rapid.T, c *vt.Case) {
		dir := vt.TempDir()
		defer os.RemoveAll(dir)
		m := &model{rt: rt, c: c, dir: dir, done: map[string]int{}, dbs: []*database{{name: "keys"}, {name: "msgs"}, {name: "keys.x"}}}
		n := 15 + vt.Uniform(rt, 30, "ops")
		for i := 0; i < n; i++ {
			op := ops[vt.Uniform(rt, len(ops), "op")]
			if m.apply(op) {
				m.done[op]++
				c.Label("%s", op)
			}
			for _, d := range m.dbs {
				if d.exists {
					m.opens(d)
					m.keyfile(d)
				}
			}
		}
		if m.done["rekey"] > 0 && m.done["write"] > 0 {
			c.NonTrivial(strings.Join(m.hist, ";"))
		}
		c.Sample("%s", strings.Join(m.hist, "; "))
	})
}
