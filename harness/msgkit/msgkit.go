// Package msgkit sets up users with keys and session stores for the checks of
// package msg.
package msgkit

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"io"
	"path/filepath"

	"verif/vt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
)

func init() { msg.CleanupTime = 90 * 24 * 3600 }

// Backend is a session store plus a place for published and own keys.
type Backend interface {
	session.Store
	AddOwn(ki *uid.KeyInit, sigPubKey, privKey string, ke *uid.KeyEntry)
	AddPeer(peer *uid.Message, ki *uid.KeyInit, nym string, ke *uid.KeyEntry)
	Reopen()
	Close()
}

// ---------------------------------------------------------------- value store

type vsession struct {
	Root, Chain string
	Send, Recv  []string
}
type vkey struct {
	JSON, Priv string
	Cleanup    uint64
}
type ventry struct{ JSON, Priv, Nym string }

// ValStore keeps everything by value (encoded), so that state that was not
// stored is not seen, as with a real database.
type ValStore struct {
	Own, Peers  map[string]ventry
	States      map[string]string
	Sessions    map[string]*vsession
	SessionKeys map[string]vkey
	Calls       int      // number of store operations so far
	FailAt      int      // fail the operation with this number (0: never)
	Log         []string // operations, if Trace
	Trace       bool
	Keys        []string // message keys handed out
}

// NewValStore returns an empty store.
func NewValStore() *ValStore {
	return &ValStore{Own: map[string]ventry{}, Peers: map[string]ventry{}, States: map[string]string{},
		Sessions: map[string]*vsession{}, SessionKeys: map[string]vkey{}}
}

// ErrInjected is the injected store failure.
var ErrInjected = fmt.Errorf("msgkit: injected store failure")

func (s *ValStore) op(f string, a ...interface{}) error {
	s.Calls++
	if s.Trace {
		s.Log = append(s.Log, fmt.Sprintf(f, a...))
	}
	if s.FailAt != 0 && s.Calls == s.FailAt {
		return ErrInjected
	}
	return nil
}

// Clone copies the whole store.
func (s *ValStore) Clone() *ValStore {
	c := NewValStore()
	for k, v := range s.Own {
		c.Own[k] = v
	}
	for k, v := range s.Peers {
		c.Peers[k] = v
	}
	for k, v := range s.States {
		c.States[k] = v
	}
	for k, v := range s.Sessions {
		c.Sessions[k] = &vsession{v.Root, v.Chain, append([]string{}, v.Send...), append([]string{}, v.Recv...)}
	}
	for k, v := range s.SessionKeys {
		c.SessionKeys[k] = v
	}
	return c
}

func (s *ValStore) Reopen() {}
func (s *ValStore) Close()  {}

func (s *ValStore) AddOwn(ki *uid.KeyInit, sigPubKey, privKey string, ke *uid.KeyEntry) {
	s.Own[ke.HASH] = ventry{string(ke.JSON()), privKey, ""}
}
func (s *ValStore) AddPeer(peer *uid.Message, ki *uid.KeyInit, nym string, ke *uid.KeyEntry) {
	s.Peers[peer.Identity()] = ventry{string(ke.JSON()), "", nym}
}

func entry(e ventry) (*uid.KeyEntry, error) {
	ke, err := uid.NewJSONKeyEntry([]byte(e.JSON))
	if err != nil {
		return nil, err
	}
	if e.Priv != "" {
		if err := ke.SetPrivateKey(e.Priv); err != nil {
			return nil, err
		}
	}
	return ke, nil
}

func (s *ValStore) GetSessionState(key string) (*session.State, error) {
	if err := s.op("GetSessionState"); err != nil {
		return nil, err
	}
	j, ok := s.States[key]
	if !ok {
		return nil, nil
	}
	var st session.State
	if err := json.Unmarshal([]byte(j), &st); err != nil {
		return nil, err
	}
	return &st, nil
}
func (s *ValStore) SetSessionState(key string, st *session.State) error {
	if err := s.op("SetSessionState"); err != nil {
		return err
	}
	j, err := json.Marshal(st)
	if err != nil {
		return err
	}
	s.States[key] = string(j)
	return nil
}
func (s *ValStore) StoreSession(key, root, chain string, send, recv []string) error {
	if err := s.op("StoreSession %s", key[:8]); err != nil {
		return err
	}
	if len(send) != len(recv) {
		return fmt.Errorf("len(send) != len(recv)")
	}
	v, ok := s.Sessions[key]
	if !ok {
		s.Sessions[key] = &vsession{root, chain, append([]string{}, send...), append([]string{}, recv...)}
		return nil
	}
	v.Chain = chain
	v.Send = append(v.Send, send...)
	v.Recv = append(v.Recv, recv...)
	return nil
}
func (s *ValStore) HasSession(key string) bool { _, ok := s.Sessions[key]; return ok }
func (s *ValStore) GetPrivateKeyEntry(h string) (*uid.KeyEntry, error) {
	if err := s.op("GetPrivateKeyEntry"); err != nil {
		return nil, err
	}
	e, ok := s.Own[h]
	if !ok {
		return nil, session.ErrNoKeyEntry
	}
	return entry(e)
}
func (s *ValStore) GetPublicKeyEntry(m *uid.Message) (*uid.KeyEntry, string, error) {
	if err := s.op("GetPublicKeyEntry"); err != nil {
		return nil, "", err
	}
	e, ok := s.Peers[m.Identity()]
	if !ok {
		return nil, "", session.ErrNoKeyEntry
	}
	ke, err := entry(e)
	return ke, e.Nym, err
}
func (s *ValStore) GetMessageKey(key string, sender bool, i uint64) (*[64]byte, error) {
	if err := s.op("GetMessageKey %v %d", sender, i); err != nil {
		return nil, err
	}
	v, ok := s.Sessions[key]
	if !ok {
		return nil, fmt.Errorf("no session")
	}
	l := v.Recv
	if sender {
		l = v.Send
	}
	if i >= uint64(len(l)) {
		return nil, fmt.Errorf("message index out of bounds")
	}
	if l[i] == "" {
		return nil, session.ErrMessageKeyUsed
	}
	b, err := base64.Decode(l[i])
	if err != nil || len(b) != 64 {
		return nil, fmt.Errorf("bad key: %v", err)
	}
	var k [64]byte
	copy(k[:], b)
	s.Keys = append(s.Keys, l[i])
	return &k, nil
}
func (s *ValStore) NumMessageKeys(key string) (uint64, error) {
	if err := s.op("NumMessageKeys"); err != nil {
		return 0, err
	}
	v, ok := s.Sessions[key]
	if !ok {
		return 0, fmt.Errorf("no session")
	}
	return uint64(len(v.Send)), nil
}
func (s *ValStore) GetRootKeyHash(key string) (*[64]byte, error) {
	if err := s.op("GetRootKeyHash"); err != nil {
		return nil, err
	}
	v, ok := s.Sessions[key]
	if !ok {
		return nil, fmt.Errorf("no session")
	}
	b, err := base64.Decode(v.Root)
	if err != nil || len(b) != 64 {
		return nil, fmt.Errorf("bad root key hash: %v", err)
	}
	var k [64]byte
	copy(k[:], b)
	return &k, nil
}
func (s *ValStore) GetChainKey(key string) (*[32]byte, error) {
	if err := s.op("GetChainKey"); err != nil {
		return nil, err
	}
	v, ok := s.Sessions[key]
	if !ok {
		return nil, fmt.Errorf("no session")
	}
	b, err := base64.Decode(v.Chain)
	if err != nil || len(b) != 32 {
		return nil, fmt.Errorf("bad chain key: %v", err)
	}
	var k [32]byte
	copy(k[:], b)
	return &k, nil
}
func (s *ValStore) DelMessageKey(key string, sender bool, i uint64) error {
	if err := s.op("DelMessageKey %v %d", sender, i); err != nil {
		return err
	}
	v, ok := s.Sessions[key]
	if !ok {
		return fmt.Errorf("no session")
	}
	l := v.Recv
	if sender {
		l = v.Send
	}
	if i >= uint64(len(l)) {
		return fmt.Errorf("message index out of bounds")
	}
	l[i] = ""
	return nil
}
func (s *ValStore) AddSessionKey(hash, jsn, priv string, t uint64) error {
	if err := s.op("AddSessionKey"); err != nil {
		return err
	}
	s.SessionKeys[hash] = vkey{jsn, priv, t}
	return nil
}
func (s *ValStore) GetSessionKey(hash string) (string, string, error) {
	if err := s.op("GetSessionKey"); err != nil {
		return "", "", err
	}
	k, ok := s.SessionKeys[hash]
	if !ok {
		return "", "", session.ErrNoKeyEntry
	}
	return k.JSON, k.Priv, nil
}
func (s *ValStore) DelPrivSessionKey(hash string) error {
	if err := s.op("DelPrivSessionKey"); err != nil {
		return err
	}
	if k, ok := s.SessionKeys[hash]; ok {
		k.Priv = ""
		s.SessionKeys[hash] = k
	}
	return nil
}
func (s *ValStore) CleanupSessionKeys(t uint64) error {
	for h, k := range s.SessionKeys {
		if k.Cleanup < t {
			delete(s.SessionKeys, h)
		}
	}
	return nil
}

// ---------------------------------------------------------------- keydb store

// DBStore keeps everything in a real key database, the way the crypto engine
// does.
type DBStore struct {
	path string
	pass []byte
	db   *keydb.KeyDB
	nyms map[string]string
}

// NewDBStore creates a key database in a scratch directory.
func NewDBStore(dir, name string) *DBStore {
	s := &DBStore{path: filepath.Join(dir, name), pass: []byte("pass " + name), nyms: map[string]string{}}
	vt.InfraIf(keydb.Create(s.path, s.pass, 1))
	s.open()
	return s
}
func (s *DBStore) open() {
	db, err := keydb.Open(s.path, s.pass)
	vt.InfraIf(err)
	s.db = db
}
func (s *DBStore) Reopen() { s.db.Close(); s.open() }
func (s *DBStore) Close()  { s.db.Close() }
func (s *DBStore) AddOwn(ki *uid.KeyInit, sigPubKey, privKey string, ke *uid.KeyEntry) {
	vt.InfraIf(s.db.AddPrivateKeyInit(ki, ke.HASH, sigPubKey, privKey, ""))
}
func (s *DBStore) AddPeer(peer *uid.Message, ki *uid.KeyInit, nym string, ke *uid.KeyEntry) {
	vt.InfraIf(s.db.AddPublicKeyInit(ki))
}
func (s *DBStore) GetSessionState(key string) (*session.State, error) {
	return s.db.GetSessionState(key)
}
func (s *DBStore) SetSessionState(key string, st *session.State) error {
	return s.db.SetSessionState(key, st)
}
func (s *DBStore) StoreSession(key, root, chain string, send, recv []string) error {
	return s.db.AddSession(key, root, chain, send, recv)
}
func (s *DBStore) HasSession(key string) bool {
	_, _, _, err := s.db.GetSession(key)
	return err == nil
}
func (s *DBStore) GetPrivateKeyEntry(h string) (*uid.KeyEntry, error) {
	ki, sigPubKey, priv, err := s.db.GetPrivateKeyInit(h)
	if err == sql.ErrNoRows {
		return nil, session.ErrNoKeyEntry
	} else if err != nil {
		return nil, err
	}
	ke, err := ki.KeyEntryECDHE25519(sigPubKey)
	if err != nil {
		return nil, err
	}
	return ke, ke.SetPrivateKey(priv)
}
func (s *DBStore) GetPublicKeyEntry(m *uid.Message) (*uid.KeyEntry, string, error) {
	h, err := m.SigKeyHash()
	if err != nil {
		return nil, "", err
	}
	ki, err := s.db.GetPublicKeyInit(h)
	if err == sql.ErrNoRows {
		return nil, "", session.ErrNoKeyEntry
	} else if err != nil {
		return nil, "", err
	}
	sa, err := ki.SessionAnchor(m.SigPubKey())
	if err != nil {
		return nil, "", err
	}
	ke, err := sa.KeyEntry("ECDHE25519")
	return ke, sa.NymAddress(), err
}
func (s *DBStore) GetMessageKey(key string, sender bool, i uint64) (*[64]byte, error) {
	k, err := s.db.GetMessageKey(key, sender, i)
	if err != nil {
		return nil, err
	}
	b, err := base64.Decode(k)
	if err != nil || len(b) != 64 {
		return nil, fmt.Errorf("bad key: %v", err)
	}
	var r [64]byte
	copy(r[:], b)
	return &r, nil
}
func (s *DBStore) NumMessageKeys(key string) (uint64, error) {
	_, _, n, err := s.db.GetSession(key)
	return n, err
}
func (s *DBStore) GetRootKeyHash(key string) (*[64]byte, error) {
	h, _, _, err := s.db.GetSession(key)
	if err != nil {
		return nil, err
	}
	b, err := base64.Decode(h)
	if err != nil || len(b) != 64 {
		return nil, fmt.Errorf("bad root key hash: %v", err)
	}
	var r [64]byte
	copy(r[:], b)
	return &r, nil
}
func (s *DBStore) GetChainKey(key string) (*[32]byte, error) {
	_, c, _, err := s.db.GetSession(key)
	if err != nil {
		return nil, err
	}
	b, err := base64.Decode(c)
	if err != nil || len(b) != 32 {
		return nil, fmt.Errorf("bad chain key: %v", err)
	}
	var r [32]byte
	copy(r[:], b)
	return &r, nil
}
func (s *DBStore) DelMessageKey(key string, sender bool, i uint64) error {
	return s.db.DelMessageKey(key, sender, i)
}
func (s *DBStore) AddSessionKey(hash, jsn, priv string, t uint64) error {
	return s.db.AddSessionKey(hash, jsn, priv, t)
}
func (s *DBStore) GetSessionKey(hash string) (string, string, error) {
	j, p, err := s.db.GetSessionKey(hash)
	if err == sql.ErrNoRows {
		return "", "", session.ErrNoKeyEntry
	}
	return j, p, err
}
func (s *DBStore) DelPrivSessionKey(hash string) error { return s.db.DelPrivSessionKey(hash) }
func (s *DBStore) CleanupSessionKeys(t uint64) error   { return nil }

// ---------------------------------------------------------------- users

// User is a user with published keys.
type User struct {
	Name  string
	UID   *uid.Message
	Own   *uid.KeyInit
	Priv  string
	KE    *uid.KeyEntry
	Nym   string // published with the key-init message
	Store Backend
}

// NewUser makes a user and publishes a key-init message in its own store.
func NewUser(name, nym string, store Backend) *User {
	m, err := uid.Create(name, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vt.InfraIf(err)
	return NewUserUID(m, nym, store)
}

// NewUserUID is NewUser for an existing user ID message.
func NewUserUID(m *uid.Message, nym string, store Backend) *User {
	now := uint64(times.Now())
	ki, _, priv, err := m.KeyInit(1, now+times.Day, now-times.Day, false, m.UIDContent.REPOURIS[0], "mix@mute.berlin", nym, cipher.RandReader)
	vt.InfraIf(err)
	ke, err := ki.KeyEntryECDHE25519(m.SigPubKey())
	vt.InfraIf(err)
	u := &User{Name: m.Identity(), UID: m, Own: ki, Priv: priv, KE: ke, Nym: nym, Store: store}
	if store != nil {
		store.AddOwn(ki, m.SigPubKey(), priv, ke)
	}
	return u
}

// Knows stores the published keys of peer.
func (u *User) Knows(peer *User) {
	u.Store.AddPeer(peer.UID, peer.Own, peer.Nym, peer.KE)
}

// Params of one encryption.
type Params struct {
	NumOfKeys, AvgSession uint64
	Sign                  bool
	Nym                   string
	Status                int
}

// Encrypt encrypts content from u to peer.
func (u *User) Encrypt(peer *uid.Message, content []byte, p Params) (enc []byte, nym string, err error) {
	return u.EncryptWith(u.Store, peer, content, p)
}

// EncryptWith is Encrypt with another store.
func (u *User) EncryptWith(store session.Store, peer *uid.Message, content []byte, p Params) (enc []byte, nym string, err error) {
	var out bytes.Buffer
	a := &msg.EncryptArgs{Writer: &out, From: u.UID, To: peer, NymAddress: p.Nym,
		SenderLastKeychainHash: hashchain.TestEntry, Reader: bytes.NewReader(content),
		NumOfKeys: p.NumOfKeys, AvgSessionSize: uint(p.AvgSession), Rand: cipher.RandReader,
		KeyStore: store, StatusCode: msg.StatusCode(p.Status)}
	if p.Sign {
		a.PrivateSigKey = u.UID.PrivateSigKey64()
	}
	nym, err = msg.Encrypt(a)
	return out.Bytes(), nym, err
}

// Decrypt decrypts enc with the identities ids (default: u's own).
func (u *User) Decrypt(enc []byte, numOfKeys uint64, ids ...*uid.Message) (content []byte, sender, sig string, err error) {
	return DecryptWith(u.Store, enc, numOfKeys, append(ids, u.UID))
}

// DecryptWith decrypts the way the crypto engine does.
func DecryptWith(store session.Store, enc []byte, numOfKeys uint64, ids []*uid.Message) (content []byte, sender, sig string, err error) {
	r := base64.NewDecoder(bytes.NewReader(enc))
	return decrypt(store, r, numOfKeys, ids)
}

// DecryptRaw decrypts an unencoded message.
func DecryptRaw(store session.Store, raw []byte, numOfKeys uint64, ids []*uid.Message) (content []byte, sender, sig string, err error) {
	return decrypt(store, bytes.NewReader(raw), numOfKeys, ids)
}

func decrypt(store session.Store, r io.Reader, numOfKeys uint64, ids []*uid.Message) (content []byte, sender, sig string, err error) {
	version, ph, err := msg.ReadFirstOuterHeader(r)
	if err != nil {
		return nil, "", "", err
	}
	if version != msg.Version {
		return nil, "", "", fmt.Errorf("wrong version %d", version)
	}
	var out bytes.Buffer
	sender, sig, err = msg.Decrypt(&msg.DecryptArgs{Writer: &out, Identities: ids, PreHeader: ph,
		Reader: r, NumOfKeys: numOfKeys, Rand: cipher.RandReader, KeyStore: store})
	return out.Bytes(), sender, sig, err
}
