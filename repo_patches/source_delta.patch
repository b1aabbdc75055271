From 8869533e1597fceb39f7aa04cdba489a13622bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 01/88] fix: store further message keys of a session under its
 own session ID

AddSession used LastInsertId() after an UPDATE, which returns the row ID of an
unrelated earlier INSERT. The message keys added to an existing session were
therefore lost and the session could not be continued.
---
 keydb/session.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/keydb/session.go b/keydb/session.go
index a28ab2e..ee42d6f 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -36,35 +36,40 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	}
 
-	var res sql.Result
+	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		res, err := tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
+		// get session ID
+		sessionID, err = res.LastInsertId()
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	case err != nil:
 		tx.Rollback()
 		return log.Error(err)
 	default:
 		// update session
-		res, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
-	}
-
-	// get session ID
-	sessionID, err := res.LastInsertId()
-	if err != nil {
-		tx.Rollback()
-		return log.Error(err)
+		// get session ID (LastInsertId is not defined by an UPDATE)
+		err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	}
 
 	// stores message keys
-- 
2.43.0


From 24d429ae965f80a036fd8e223660c607f933eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 02/88] fix: request only the missing message keys when
 decrypting

The number of further message keys was computed from the absolute message count
of the session instead of from the keys that are missing, so a session with more
than some 300 messages in one direction exceeded the denial of service limit and
could not be decrypted any more, even with in-order delivery.
---
 msg/decrypt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 4cdb27f..d8de8bc 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -358,8 +358,9 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 			return "", "", err
 		}
 		// prevent denial of service attack by very large h.SenderMessageCount
-		numOfKeys := h.SenderMessageCount / args.NumOfKeys
-		if h.SenderMessageCount%args.NumOfKeys > 0 {
+		missing := h.SenderMessageCount - n + 1
+		numOfKeys := missing / args.NumOfKeys
+		if missing%args.NumOfKeys > 0 {
 			numOfKeys++
 		}
 		numOfKeys *= args.NumOfKeys
-- 
2.43.0


From 2edddc83679fdccc71770d4f4cb8412b6d9f1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 03/88] fix: bind the reported sender to the sender UID of a
 message

Decrypt reported header field SenderIdentity without comparing it to the sender
UID message, and it never checked that message's self-signature. A user could
therefore send messages in the name of any other identity.
---
 msg/decrypt.go | 9 +++++++++
 msg/errors.go  | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index d8de8bc..6b8cd9b 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -541,6 +541,15 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 	if uidRes.err != nil {
 		return "", "", uidRes.err
 	}
+	// the reported sender must be the one of the (self-signed) sender UID
+	if err := uidRes.msg.VerifySelfSig(); err != nil {
+		return "", "", err
+	}
+	if len(uidRes.msg.UIDContent.PUBKEYS) == 0 ||
+		uidRes.msg.Identity() != h.SenderIdentity ||
+		uidRes.msg.PubKey().HASH != h.SenderIdentityPub.HASH {
+		return "", "", log.Error(ErrWrongSenderUID)
+	}
 
 	// verify signature, if necessary
 	if contentHash != nil {
diff --git a/msg/errors.go b/msg/errors.go
index 1a487f8..86c3dc6 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -56,5 +56,9 @@ var ErrNotData = errors.New("msg: expected inner data header")
 // ErrReflection is raised when a possible reflection attack has been detected.
 var ErrReflection = errors.New("msg: reflection attack detected")
 
+// ErrWrongSenderUID is raised when the sender UID message does not match the
+// sender identity and public key in the header.
+var ErrWrongSenderUID = errors.New("msg: sender UID message does not match sender")
+
 // ErrStatusError is raised when a decryption operation lead to a StatusCode StatusError.
 var ErrStatusError = errors.New("msg: StatusCode == StatusError")
-- 
2.43.0


From 25daf784a1b8389b13643cb01d1deec32875c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/88] fix: accept a zero-value CHAINLINK as documented for
 version 1.0

---
 uid/uid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uid/uid.go b/uid/uid.go
index 21c0be6..18d1280 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -234,7 +234,7 @@ func (msg *Message) checkV1_0() error {
 
 	// UIDContent.CHAINLINK must be zero-value
 	if msg.UIDContent.CHAINLINK != nil {
-		if !reflect.DeepEqual(msg.UIDContent.CHAINLINK, chainlink{}) {
+		if !reflect.DeepEqual(*msg.UIDContent.CHAINLINK, chainlink{}) {
 			return log.Error("uid: UIDContent.CHAINLINK must be zero-value")
 		}
 	}
-- 
2.43.0


From f54f2f9ed93d5f27e0c46a5159a5f8fd0fa5a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 05/88] fix: KeyEntry.Verify must accept ED25519 instead of
 ED25510

---
 uid/keyentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uid/keyentry.go b/uid/keyentry.go
index b8dfe8d..b92b9fd 100644
--- a/uid/keyentry.go
+++ b/uid/keyentry.go
@@ -65,7 +65,7 @@ func (ke *KeyEntry) Verify() error {
 		return log.Errorf("uid: unknown ke.CIPHERSUITE: %s", ke.CIPHERSUITE)
 	}
 	// verify FUNCTION
-	if ke.FUNCTION != "ED25510" && ke.FUNCTION != "ECDHE25519" {
+	if ke.FUNCTION != "ED25519" && ke.FUNCTION != "ECDHE25519" {
 		return log.Errorf("uid: unknown ke.FUNCTION: %s", ke.FUNCTION)
 	}
 	// verify HASH
-- 
2.43.0


From 9d8d96a989dbf4811ced9ca5f7e5ad54bf5d6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 06/88] fix: VerifySrvSig must compare the decrypted with the
 given UID message

---
 uid/uid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uid/uid.go b/uid/uid.go
index 18d1280..0539e3f 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -639,14 +639,14 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 func (reply *MessageReply) VerifySrvSig(msg *Message, srvPubKey string) error {
 	// make sure messages match
 	UIDHash, UIDIndex, _ := msg.Encrypt()
-	idx, msg, err := reply.Decrypt(UIDHash)
+	idx, decMsg, err := reply.Decrypt(UIDHash)
 	if err != nil {
 		return err
 	}
 	if !bytes.Equal(idx, UIDIndex) {
 		return log.Error(ErrMsgMismatch)
 	}
-	if !bytes.Equal(msg.JSON(), msg.JSON()) {
+	if !bytes.Equal(decMsg.JSON(), msg.JSON()) {
 		return log.Error(ErrMsgMismatch)
 	}
 	// verify server signature
-- 
2.43.0


From 124eec681e29ee78c42c58d285a8a1a070aba801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 07/88] fix: MessageReply.Decrypt must not panic on short
 encrypted messages

---
 uid/uid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uid/uid.go b/uid/uid.go
index 0539e3f..e93527f 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -8,6 +8,7 @@ package uid
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/sha256"
 	"encoding/json"
 	"io"
@@ -625,6 +626,10 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 	if err != nil {
 		return nil, nil, log.Error(err)
 	}
+	if len(UIDMessageEncrypted) < sha256.Size+aes.BlockSize {
+		return nil, nil, log.Errorf("uid: UIDMESSAGEENCRYPTED too short: %d",
+			len(UIDMessageEncrypted))
+	}
 	UIDIndex := UIDMessageEncrypted[:sha256.Size]
 	enc := UIDMessageEncrypted[sha256.Size:]
 	Message := aes256.CTRDecrypt(UIDHash, enc)
-- 
2.43.0


From d6ee9855fee1c373df1c530dafc58fecf54eac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 08/88] fix: key-init verification must not panic on short
 session anchors or keys

---
 uid/keyinit.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 7e0f831..8e31249 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -5,6 +5,7 @@
 package uid
 
 import (
+	"crypto/aes"
 	"encoding/json"
 	"io"
 
@@ -127,6 +128,9 @@ func (ki *KeyInit) SessionAnchor(sigPubKey string) (*SessionAnchor, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(enc) < aes.BlockSize {
+		return nil, log.Errorf("uid: SESSIONANCHOR too short: %d", len(enc))
+	}
 	txt := aes256.CTRDecrypt(keyHash[:32], enc)
 	var sa SessionAnchor
 	if err := json.Unmarshal(txt, &sa); err != nil {
@@ -201,7 +205,9 @@ func (ki *KeyInit) Verify(keyInitRepositoryURIs []string, sigPubKey string) erro
 		return err
 	}
 	// create ed25519 key
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify self-signature
 	if !ed25519Key.Verify(ki.Contents.json(), sig) {
 		log.Error(ErrInvalidKeyInitSig)
@@ -229,7 +235,9 @@ func (ki *KeyInit) VerifySrvSig(signature, srvPubKey string) error {
 	if err != nil {
 		return err
 	}
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify server-signature
 	if !ed25519Key.Verify(ki.JSON(), sig) {
 		log.Error(ErrInvalidSrvSig)
-- 
2.43.0


From 409f4f0f0084873f2f59e486dcbc722cf0e8a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 09/88] fix: a mapped identity must not exceed the maximum
 length

---
 uid/identity/identity.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uid/identity/identity.go b/uid/identity/identity.go
index 77011c3..84a43ea 100644
--- a/uid/identity/identity.go
+++ b/uid/identity/identity.go
@@ -38,7 +38,12 @@ func Map(identity string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return mlp + "@" + MapDomain(domain), nil
+	mappedID := mlp + "@" + MapDomain(domain)
+	// the lower case of some characters is longer
+	if len(mappedID) > MaxLen {
+		return "", ErrTooLong
+	}
+	return mappedID, nil
 }
 
 // IsMapped returns an error, if the given identity is not well-formed or not
@@ -68,6 +73,9 @@ func MapPlus(identity string) (mappedID, mappedDomain string, err error) {
 	}
 	mappedDomain = MapDomain(domain)
 	mappedID = mlp + "@" + mappedDomain
+	if len(mappedID) > MaxLen {
+		return "", "", ErrTooLong
+	}
 	return
 }
 
-- 
2.43.0


From d8bdaef64597237dec8913b5c9afccf03727c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 10/88] fix: use the most recently stored public KeyInit
 message

---
 keydb/keydb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keydb/keydb.go b/keydb/keydb.go
index 8da80ae..5e2a4fd 100644
--- a/keydb/keydb.go
+++ b/keydb/keydb.go
@@ -121,7 +121,7 @@ CREATE TABLE SessionKeys (
 	addPrivateKeyInitQuery    = "INSERT INTO PrivateKeyInits (SIGKEYHASH, PUBKEYHASH, KeyInit, SigPubKey, PRIVKEY, ServerSignature) VALUES (?, ?, ?, ?, ?, ?);"
 	getPrivateKeyInitQuery    = "SELECT KeyInit, SigPubKey, PRIVKEY FROM PrivateKeyInits WHERE PUBKEYHASH=?;"
 	addPublicKeyInitQuery     = "INSERT INTO PublicKeyInits (SIGKEYHASH, KeyInit) VALUES (?, ?);"
-	getPublicKeyInitQuery     = "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=?;"
+	getPublicKeyInitQuery     = "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=? ORDER BY ID DESC;"
 	addPublicUIDQuery         = "INSERT INTO PublicUIDs (IDENTITY, MSGCOUNT, POSITION, UIDMessage) VALUES (?, ?, ?, ?);"
 	getPublicUIDQuery         = "SELECT UIDMessage, POSITION FROM PublicUIDs WHERE IDENTITY=? and POSITION<=? ORDER BY POSITION DESC;"
 	getSessionQuery           = "SELECT RootKeyHash, ChainKey, NumOfKeys FROM Sessions WHERE SessionKey=?;"
-- 
2.43.0


From 8529e5b68427aec7b9bfcf51f3024b760e5975eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 11/88] fix: report failures to store hash chain entries

syncHashChain returned nil when an entry could not be stored, and so reported
an incomplete synchronisation as success.
---
 cryptengine/hashchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 703ff52..b7ba525 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -102,7 +102,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
 		if err != nil {
-			return nil
+			return err
 		}
 	}
 
-- 
2.43.0


From 0f135ed3b9bb250665cae4ad3ce63dfcb67c0f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 12/88] fix: refuse malformed hash chain replies of the key
 server

syncHashChain panicked on missing or wrongly typed positions and on replies
with too few entries, and stored entries at wrong positions if the reply did
not start at the requested position.
---
 cryptengine/hashchain.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index b7ba525..ad14d6a 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -39,7 +39,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch last hash chain entry reply has the wrong type")
 	}
 	// parse hash chain position
-	hcPosFloat := reply["HCPos"].(float64)
+	hcPosFloat, ok := reply["HCPos"].(float64)
 	if !ok {
 		return log.Error("cryptengine: fetch last hash chain position reply has the wrong type")
 	}
@@ -88,16 +88,29 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain entries reply has the wrong type")
 	}
 	// parse first hash chain position
-	hcPosFirstFloat := reply["HCFirstPos"].(float64)
+	hcPosFirstFloat, ok := reply["HCFirstPos"].(float64)
 	if !ok {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
 	hcFirstPos := uint64(hcPosFirstFloat)
-	for i := hcFirstPos; i <= hcPos; i++ {
-		entry, ok := hcEntries[i-hcFirstPos].(string)
+	// make sure the reply contains exactly the missing positions
+	if hcFirstPos != start {
+		return log.Errorf("cryptengine: fetch hash chain first position is %d (should be %d)",
+			hcFirstPos, start)
+	}
+	if uint64(len(hcEntries)) <= end-start {
+		return log.Errorf("cryptengine: fetch hash chain entries reply too short: %d",
+			len(hcEntries))
+	}
+	entries := make([]string, end-start+1)
+	for i := range entries {
+		entries[i], ok = hcEntries[i].(string)
 		if !ok {
 			return log.Error("cryptengine: fetch hash chain entry is not a string")
 		}
+	}
+	for i := start; i <= end; i++ {
+		entry := entries[i-start]
 		log.Debugf("cryptengine: HC#%d: %s", i, entry)
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
-- 
2.43.0


From 8125b634eb8649a1d4bf686f06a2cff27e2dd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 13/88] fix: refuse user ID messages of other identities in key
 lookups

A key server could answer the lookup of one identity with the user ID message
of another one, even a new one of the key server itself (which needs no server
signature), and the message was stored for that other identity.
---
 cryptengine/hashchain.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index ad14d6a..9b96a52 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -368,6 +368,12 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check identity
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UIDMessage is for '%s' instead of '%s'",
+				uid.Identity(), mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
@@ -496,6 +502,12 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check identity
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UIDMessage is for '%s' instead of '%s'",
+				uid.Identity(), mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
-- 
2.43.0


From 28b45c57e629a2460fc08a28da9a63279ce6b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 14/88] fix: verify key init messages before storing them

fetchKeyInit stored whatever the key server delivered, so that a bogus message
replaced a genuine one.
---
 cryptengine/keyinit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index daf77d5..583fa8e 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -126,6 +126,10 @@ func (ce *CryptEngine) fetchKeyInit(pseudonym string) error {
 	if err != nil {
 		return err
 	}
+	// verify key init message
+	if err := ki.Verify([]string{domain}, msg.SigPubKey()); err != nil {
+		return err
+	}
 	// store public key init message
 	return ce.keyDB.AddPublicKeyInit(ki)
 }
-- 
2.43.0


From 74f7ec2806f9b5c12680868a68e27ed24afac027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 15/88] fix: mixcrypt: report a failing random source when
 making a relay message

---
 mix/mixcrypt/clientmix.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 85cb65a..02e2d40 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -108,7 +108,10 @@ func (cl *ClientMixHeader) NewRelayMessage(NymAddress []byte, msg []byte) (messa
 	copy(NextHopKey[:], address.MixPubKey)
 	cl.MessageType = MessageTypeRelay
 	cl.Address = NymAddress
-	revokeID, _ := genNonce()
+	revokeID, err := genNonce()
+	if err != nil {
+		return nil, "", err
+	}
 	cl.RevokeID = revokeID[:]
 	header := cl.Marshal()
 	messageC := make([]byte, len(header)+len(msg))
-- 
2.43.0


From f0ebedf807994fa66ce205cf4248cd057df06f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 16/88] fix: mixcrypt: bound header length and do not crash on
 crafted headers

---
 mix/mixcrypt/clientmix.go | 31 +++++++++++++++++++++++--------
 mix/mixcrypt/common.go    |  2 ++
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 02e2d40..93847d3 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -9,6 +9,7 @@ import (
 	"encoding/asn1"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	"github.com/mutecomm/mute/mix/nymaddr"
 )
@@ -63,18 +64,22 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 	if cl == nil {
 		cl = new(ClientMixHeader)
 	}
-	lenB := binary.BigEndian.Uint16(d[0:2]) + 2
-	if len(d) < int(lenB) {
-		return nil, lenB, ErrTooShort
+	length := int(binary.BigEndian.Uint16(d[0:2])) + 2
+	if len(d) < length {
+		return nil, 0, ErrTooShort
+	}
+	if length > math.MaxUint16 {
+		return nil, 0, ErrSize
 	}
+	lenB := uint16(length)
 	_, err = asn1.Unmarshal(d[2:lenB], cl)
 	if err != nil {
 		return nil, lenB, err
 	}
-	if cl.Token[0] == 0x00 && len(cl.Token) == 1 {
+	if len(cl.Token) == 1 && cl.Token[0] == 0x00 {
 		cl.Token = nil
 	}
-	if (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
+	if (len(cl.RevokeID) == 1 && cl.RevokeID[0] == 0x00) || cl.MessageType == MessageTypeForward {
 		cl.RevokeID = nil
 	}
 	return cl, lenB, nil
@@ -88,6 +93,9 @@ func (cl *ClientMixHeader) NewForwardMessage(NextHop string, NextHopKey *[KeySiz
 	cl.MessageType = MessageTypeForward
 	cl.Address = []byte(NextHop)
 	header := cl.Marshal()
+	if len(header) > math.MaxUint16 {
+		return nil, "", ErrSize
+	}
 	messageC := make([]byte, len(header)+len(msg))
 	copy(messageC[0:len(header)], header)
 	copy(messageC[len(header):], msg)
@@ -114,6 +122,9 @@ func (cl *ClientMixHeader) NewRelayMessage(NymAddress []byte, msg []byte) (messa
 	}
 	cl.RevokeID = revokeID[:]
 	header := cl.Marshal()
+	if len(header) > math.MaxUint16 {
+		return nil, "", ErrSize
+	}
 	messageC := make([]byte, len(header)+len(msg))
 	copy(messageC[0:len(header)], header)
 	copy(messageC[len(header):], msg)
@@ -130,17 +141,21 @@ func mkHash(d []byte) []byte {
 func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	// var uniqueDat []UniquenessData
 	var rstr ReceiveStruct
-	var lenB uint16
 	decMessage, err := Decrypt(lookupKey, message)
 	if err != nil {
 		return nil, err
 	}
-	rstr.MixHeader, lenB, err = new(ClientMixHeader).Unmarshal(decMessage)
+	var headerLen uint16
+	rstr.MixHeader, headerLen, err = new(ClientMixHeader).Unmarshal(decMessage)
 	if err != nil {
 		return nil, err
 	}
+	lenB := int(headerLen)
+	if rstr.MixHeader.MessageType != MessageTypeForward && rstr.MixHeader.MessageType != MessageTypeRelay {
+		return nil, ErrBadType
+	}
 	// Test Size
-	msgLen := len(decMessage) - int(lenB)
+	msgLen := len(decMessage) - lenB
 	if rstr.MixHeader.MessageType == MessageTypeRelay && (msgLen < RelayMinSize || msgLen > RelayMaxSize) {
 		fmt.Println(msgLen)
 		return nil, ErrSize
diff --git a/mix/mixcrypt/common.go b/mix/mixcrypt/common.go
index 5cb7caf..105c56c 100644
--- a/mix/mixcrypt/common.go
+++ b/mix/mixcrypt/common.go
@@ -33,6 +33,8 @@ var (
 	ErrSize = errors.New("mixcrypt: message out of bounds")
 	// ErrBadSystem is returned if a message for a wrong system was received
 	ErrBadSystem = errors.New("mixcrypt: bad system")
+	// ErrBadType is returned if the type of a message is unknown
+	ErrBadType = errors.New("mixcrypt: unknown message type")
 )
 
 // MuteSystemDomain is the domain of the Mute System.
-- 
2.43.0


From b9ef7ac1d9d0c0ab0ae956d2e2d39e92732f3643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 17/88] fix: nymaddr: refuse expired addresses whose open part
 was altered

---
 mix/nymaddr/addr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mix/nymaddr/addr.go b/mix/nymaddr/addr.go
index 48944fb..8611e0b 100644
--- a/mix/nymaddr/addr.go
+++ b/mix/nymaddr/addr.go
@@ -147,6 +147,10 @@ func (ad *Address) GetMixData(keysLookup KeyFunc) (*AddressPrivate, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the expire time in the open part of the address is not authenticated
+	if ap.Expire < times.Now() {
+		return nil, ErrExpired
+	}
 	return ap, nil
 }
 
-- 
2.43.0


From c11a3f56249149a63e8c7581966645517715cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 18/88] fix: mixaddr: refuse statements with keys or signatures
 of wrong length

---
 mix/mixaddr/addrlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mix/mixaddr/addrlist.go b/mix/mixaddr/addrlist.go
index f677ee1..b1e6fda 100644
--- a/mix/mixaddr/addrlist.go
+++ b/mix/mixaddr/addrlist.go
@@ -86,6 +86,9 @@ func getPubKey(privateKey *[ed25519.PrivateKeySize]byte) *[ed25519.PublicKeySize
 func (stmt AddressStatement) Verify() bool {
 	var pubKey [ed25519.PublicKeySize]byte
 	var signature [ed25519.SignatureSize]byte
+	if len(stmt.PublicKey) != len(pubKey) || len(stmt.Signature) != len(signature) {
+		return false
+	}
 	copy(pubKey[:], stmt.PublicKey)
 	copy(signature[:], stmt.Signature)
 	return stmt.Addresses.Verify(&pubKey, &signature)
-- 
2.43.0


From 925a7d34bfbb1097cf824d903fe938b08ca58521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 19/88] fix: mixaddr: update the statement when keys expire

---
 mix/mixaddr/privkey.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 5ef2b9f..d4dbb83 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -176,11 +176,14 @@ func (kl *KeyList) GetBoundaryTime() (first, last int64) {
 func (kl *KeyList) Expire() {
 	kl.mutex.Lock()
 	defer kl.mutex.Unlock()
-	kl.expire()
+	if kl.expire() {
+		// do not advertise expired keys anymore
+		kl.updateStatement()
+	}
 }
 
-// Expire does an expire run on the keylist.
-func (kl *KeyList) expire() {
+// expire does an expire run on the keylist and reports whether keys expired.
+func (kl *KeyList) expire() bool {
 	var expired [][KeySize]byte
 	now := timeNow()
 	for k, e := range kl.Keys {
@@ -191,6 +194,7 @@ func (kl *KeyList) expire() {
 	for _, k := range expired {
 		delete(kl.Keys, k)
 	}
+	return len(expired) > 0
 }
 
 // AddKey adds a key to the list.
-- 
2.43.0


From 1d4e5b24ebdfa54b470e87f757b2c4a7638ebceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 20/88] fix: smtpclient: do not fail accepted mail on QUIT,
 classify greeting errors and empty reply texts

---
 mix/smtpclient/client.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index d53dd02..3c92ea7 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -13,6 +13,7 @@ import (
 	"net"
 	"net/mail"
 	"net/smtp"
+	"net/textproto"
 	"strconv"
 	"strings"
 
@@ -81,19 +82,12 @@ func (mc *MailClient) parseError(err error) error {
 		return nil
 	}
 	mc.LastError = err
-	str := err.Error()
-	str = strings.Trim(str, " \t")
-	pos := strings.Index(str, " ")
-	if pos > 0 {
-		code := str[0:pos]
-		codeNum, err := strconv.Atoi(code)
-		if err == nil {
-			mc.LastErrorCode = codeNum
-			if codeNum >= 500 {
-				return ErrFinal
-			}
-			return ErrRetry
+	if smtpErr, ok := err.(*textproto.Error); ok {
+		mc.LastErrorCode = smtpErr.Code
+		if smtpErr.Code >= 500 {
+			return ErrFinal
 		}
+		return ErrRetry
 	}
 	return err
 }
@@ -125,8 +119,13 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		return ErrRetry
 	}
 	defer client.Close()
-	if mc.HeloHost != "" {
-		client.Hello(mc.HeloHost)
+	heloHost := mc.HeloHost
+	if heloHost == "" {
+		heloHost = "localhost"
+	}
+	// a failed greeting must not be mistaken for a server without extensions
+	if err := client.Hello(heloHost); err != nil {
+		return mc.parseError(err)
 	}
 	// Do TLS if offered
 	if !mc.NoSSL {
@@ -194,6 +193,8 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		client.Reset()
 		return mc.parseError(err)
 	}
-	err = client.Quit()
-	return mc.parseError(err)
+	// the server has accepted the mail: a problem while saying goodbye must not
+	// lead to a resend
+	client.Quit()
+	return nil
 }
-- 
2.43.0


From 315020112600591aa112bd7213fcfa2f609a8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 21/88] fix: mix/client: keep nil CA certificate and errors of
 prepared messages, never report unsent ones as sent

---
 mix/client/send.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mix/client/send.go b/mix/client/send.go
index e73426a..2038f29 100644
--- a/mix/client/send.go
+++ b/mix/client/send.go
@@ -6,6 +6,7 @@ package client
 
 import (
 	"encoding/asn1"
+	"strings"
 
 	"github.com/mutecomm/mute/mix/mixcrypt"
 	"github.com/mutecomm/mute/mix/smtpclient"
@@ -94,7 +95,7 @@ func (mo *MessageOutput) Deliver() (messageOut *MessageOutput, err error) {
 		}
 		return mo, mo.Error
 	}
-	if mo.Message == nil {
+	if mo.Error == nil {
 		return mo, ErrAlreadySent
 	}
 	return mo, mo.Error
@@ -129,7 +130,8 @@ func (mo *MessageOutput) Marshal() MessageMarshalled {
 		Resend:    mo.Resend,
 	}
 	if mo.Error != nil {
-		mom.Error = mo.Error.Error()
+		// error texts of mail servers can contain anything
+		mom.Error = strings.ToValidUTF8(mo.Error.Error(), "?")
 	} else {
 		mom.Error = "nil"
 	}
@@ -148,14 +150,22 @@ func (mm MessageMarshalled) Unmarshal() *MessageOutput {
 	if err != nil {
 		mo.Error = err
 		mo.Resend = false
+		return mo
+	}
+	// empty and missing byte fields have the same encoding
+	if len(mom.Message) > 0 {
+		mo.Message = mom.Message
 	}
-	mo.Message = mom.Message
 	mo.To = mom.To
 	mo.From = mom.From
-	mo.RevokeID = mom.RevokeID
+	if len(mom.RevokeID) > 0 {
+		mo.RevokeID = mom.RevokeID
+	}
 	mo.SMTPPort = mom.SMTPPort
 	mo.SmartHost = mom.SmartHost
-	mo.CACert = mom.CACert
+	if len(mom.CACert) > 0 {
+		mo.CACert = mom.CACert
+	}
 	mo.Resend = mom.Resend
 	if mom.Error != "" && mom.Error != "nil" {
 		mo.Error = translateError(mom.Error)
-- 
2.43.0


From cef49bdbce1b2f486bc066b3a289cb5fa05193dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:58 +0000
Subject: [PATCH 22/88] fix: walletauth: recognise replay errors without
 crashing on other errors

---
 serviceguard/common/walletauth/walletauth.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 0144fc1..9180ddf 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/mutecomm/mute/util/times"
 )
@@ -80,11 +81,12 @@ func (token AuthToken) Hash() []byte {
 // update error and LastCounter.
 // If err is no replay error, the original error is returned.
 func IsReplay(err error) (uint64, error) {
-	if err.Error()[:len("ErrReplay: ")] == "ErrReplay: " {
-		counter := err.Error()[len("ErrReplay: "):]
-		LastCounter, err := strconv.ParseInt(counter, 10, 64)
+	const prefix = "ErrReplay: "
+	if strings.HasPrefix(err.Error(), prefix) {
+		counter := err.Error()[len(prefix):]
+		LastCounter, err := strconv.ParseUint(counter, 10, 64)
 		if err == nil {
-			return uint64(LastCounter), ErrReplay
+			return LastCounter, ErrReplay
 		}
 	}
 	return 0, err
-- 
2.43.0


From 20ae229a0335ccb4e342c2f6abb0f30979fee597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:58 +0000
Subject: [PATCH 23/88] fix: mix/client: extend accounts on their server,
 report malformed message lists

---
 mix/client/accountrpc.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index edb2772..61c5cb4 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -49,8 +49,8 @@ func payAccount(authtoken, paytoken []byte, serverKnown string, cacert []byte) (
 	var ok bool
 	method := "AccountServer.LoadAccount"
 	url := DefaultAccountServer
-	if server != "" {
-		url = server
+	if serverKnown != "" {
+		url = serverKnown
 	}
 	url = "https://" + url + ":" + RPCPort + "/account"
 	client, err := DefaultClientFactory(url, cacert)
@@ -252,43 +252,44 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 	}
 	if len(messagesI) > 0 {
 		for _, e := range messagesI {
-			x := e.(map[string]interface{})
+			x, ok := e.(map[string]interface{})
+			if !ok {
+				return nil, 0, ErrProto
+			}
 
 			ReceiveTime, ok := x["ReceiveTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReceiveTimeNano, ok := x["ReceiveTimeNano"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReadTime, ok := x["ReadTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uks, ok := x["UserKey"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uk, err := hex.DecodeString(uks)
 			if err != nil {
-				break
+				return nil, 0, err
+			}
+			if len(uk) != ed25519.PublicKeySize {
+				return nil, 0, ErrProto
 			}
 			ukh := new([ed25519.PublicKeySize]byte)
 			copy(ukh[:], uk)
 
 			mis, ok := x["MessageID"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			mi, err := hex.DecodeString(mis)
 			if err != nil {
-				break
+				return nil, 0, err
 			}
 			messages = append(messages, MessageMeta{
 				MessageID:       mi,
@@ -298,9 +299,6 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				UserKey:         *ukh,
 			})
 		}
-		if err != nil {
-			return nil, 0, err
-		}
 	}
 	return messages, 0, nil
 }
-- 
2.43.0


From a424c70a885e80879dc54bbaee323904fa6dd6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 24/88] fix: refuse unverified signatures and points off the
 curve in the token exchange

---
 serviceguard/client/packetproto/methods.go | 30 +++++++++++++++++++++-
 serviceguard/client/verify.go              |  8 ++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 0eb6da2..3a3718a 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
 	"github.com/mutecomm/mute/serviceguard/common/token"
 	"github.com/mutecomm/mute/serviceguard/common/types"
+	"github.com/ronperry/cryptoedge/eccutil"
 	"github.com/ronperry/cryptoedge/genericblinding"
 	"github.com/ronperry/cryptoedge/jjm"
 )
@@ -23,12 +24,29 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadPoint signals that a point is not on the curve
+	ErrBadPoint = errors.New("client: point not on curve")
+	// ErrBadSignature signals that an unblinded signature does not verify
+	ErrBadSignature = errors.New("client: bad signature")
 )
 
 var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
 
+// onCurve tests that all points are on the curve.
+func (c Client) onCurve(points ...*eccutil.Point) bool {
+	for _, p := range points {
+		if !c.Curve.Curve.IsOnCurve(p.X, p.Y) {
+			return false
+		}
+	}
+	return true
+}
+
 // NewToken returns a blinded token ready for signing. Blindmessage goes to server, blindfactors and clear message remain local
 func (c Client) NewToken(issuerPubKey *signkeys.PublicKey, pubParams *jjm.BlindingParamClient, owner *[ed25519.PublicKeySize]byte) (genericblinding.BlindingFactors, genericblinding.BlindMessage, *token.Token, error) {
+	if !c.onCurve(&issuerPubKey.PublicKey, &pubParams.PointRs1, &pubParams.PointRs2) {
+		return nil, nil, nil, ErrBadPoint
+	}
 	newToken := token.New(&issuerPubKey.KeyID, owner)
 	if newToken == nil {
 		return nil, nil, nil, ErrNoToken
@@ -147,15 +165,25 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	}
 	clearMessage := jjm.NewClearMessage(token.Hash())
 	blindSig, err := jjm.NewBlindSignature(&pubkey.PublicKey).Unmarshal(signature)
+	if err != nil {
+		return nil, err
+	}
+	factors, ok := params.(jjm.BlindingFactors)
+	if !ok || !c.onCurve(&pubkey.PublicKey, &factors.PointR1, &factors.PointR2) {
+		return nil, ErrBadPoint
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.Curve)
 	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
 	if err != nil {
 		return nil, err
 	}
-	_, err = blindClient.Verify(sig, clearMessage)
+	ok, err = blindClient.Verify(sig, clearMessage)
 	if err != nil {
 		return nil, err
 	}
+	if !ok {
+		return nil, ErrBadSignature
+	}
 	t := sig.(jjm.ClearSignature)
 	token.AddSignature(&t)
 	return token.Marshal()
diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index a1956e9..379dc57 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -39,9 +39,17 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	// Get signature message
 	clearMessage := jjm.NewClearMessage(tokenUnmarshalled.Hash())
 	// Verify the signature
+	curve := c.packetClient.Curve.Curve
+	if !curve.IsOnCurve(pubkey.PublicKey.X, pubkey.PublicKey.Y) || !curve.IsOnCurve(signature.PointR.X, signature.PointR.Y) {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.packetClient.Curve)
 	ok, err := blindClient.Verify(tempSignature, clearMessage)
 	if err != nil || !ok {
+		if err == nil {
+			err = ErrSignatureToken
+		}
 		c.LastError = err
 		return nil, ErrFinal
 	}
-- 
2.43.0


From 60d7d0ea73cd6fd08d950605a2d3a21a69d7601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 25/88] fix: refuse encoded tokens with fields of wrong size

---
 serviceguard/common/token/types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serviceguard/common/token/types.go b/serviceguard/common/token/types.go
index 4ac5c2e..d2a4fdd 100644
--- a/serviceguard/common/token/types.go
+++ b/serviceguard/common/token/types.go
@@ -9,6 +9,7 @@ import (
 	"crypto/rand"
 	"crypto/sha256"
 	"encoding/asn1"
+	"errors"
 	"io"
 	"math/big"
 
@@ -27,6 +28,9 @@ const (
 	OwnerSize = ed25519.PublicKeySize
 )
 
+// ErrBadToken is returned if an encoded token has fields of wrong size.
+var ErrBadToken = errors.New("token: bad token")
+
 // Rand is the random number source.
 var Rand = rand.Reader
 
@@ -112,6 +116,10 @@ func Unmarshal(d []byte) (*Token, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The hash covers the fields without their lengths
+	if len(t.KeyID) != KeyIDSize || len(t.Nonce) != NonceSize || len(t.Owner) != OwnerSize {
+		return nil, ErrBadToken
+	}
 	return t, nil
 }
 
-- 
2.43.0


From 4fe1747f0ffdcaf4dace8d15e0230d83ec52740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 26/88] fix: refuse encoded public keys with fields of wrong
 size

---
 serviceguard/common/signkeys/keys.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/common/signkeys/keys.go b/serviceguard/common/signkeys/keys.go
index 252fc80..82dbe70 100644
--- a/serviceguard/common/signkeys/keys.go
+++ b/serviceguard/common/signkeys/keys.go
@@ -24,6 +24,8 @@ var (
 	// ErrNoSigner is returned if a generator is missing a private key for
 	// signing its keys.
 	ErrNoSigner = errors.New("keygen: no signer")
+	// ErrBadKey is returned if an encoded key has fields of wrong size.
+	ErrBadKey = errors.New("keygen: bad key")
 )
 
 const (
@@ -105,6 +107,9 @@ func (pk *PublicKey) Unmarshal(d []byte) (*PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(pkm.KeyID) != KeyIDSize || len(pkm.Signer) != ed25519.PublicKeySize || len(pkm.Signature) != ed25519.SignatureSize {
+		return nil, ErrBadKey
+	}
 	pk.PublicKey.X = new(big.Int).SetBytes(pkm.PublicKeyX)
 	pk.PublicKey.Y = new(big.Int).SetBytes(pkm.PublicKeyY)
 	pk.Expire = pkm.Expire
-- 
2.43.0


From 2d8e91374ef1fc5dcf825060951d6fe15be2f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 27/88] fix: receiving a token without owner crashed, failure
 to store it was ignored

---
 serviceguard/client/receive.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index f69dbcf..3261841 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -16,13 +16,17 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	pubkey, _ := splitKey(c.walletKey)
-	if *tokenEntry.OwnerPubKey != *pubkey {
+	if tokenEntry.OwnerPubKey == nil || *tokenEntry.OwnerPubKey != *pubkey {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
 	retToken, err := c.walletStore.GetToken(tokenEntry.Hash, -1)
 	if err != nil || retToken == nil {
-		c.walletStore.SetToken(*tokenEntry)
+		err = c.walletStore.SetToken(*tokenEntry)
+		if err != nil {
+			c.LastError = err
+			return ErrFatal
+		}
 		return nil
 	}
 	c.LastError = ErrTokenKnown
-- 
2.43.0


From de1813032c2c500f9eeffac4e1fc38ae4ab54b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 28/88] fix: keydb: report failed writes and loads

---
 serviceguard/common/keypool/keydb/dbstorage.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 2bde807..40bb46e 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -6,6 +6,7 @@
 package keydb
 
 import (
+	"bytes"
 	"database/sql"
 	"encoding/base64"
 	"encoding/hex"
@@ -130,8 +131,12 @@ func (kd *KeyDB) writeFunc() keypool.WriteKeyCallbackFunc {
 		id := hex.EncodeToString(keyid)
 		marshalled := base64.StdEncoding.EncodeToString(marshalledKey)
 		_, err := kd.insertQuery.Exec(id, usage, marshalled)
-		if err == nil {
-			return err
+		if err != nil {
+			// Keys do not change, a known key needs not be written again
+			stored, errFetch := kd.Fetch(keyid)
+			if errFetch != nil || !bytes.Equal(stored, marshalledKey) {
+				return err
+			}
 		}
 		return nil
 	}
@@ -167,6 +172,7 @@ func (kd *KeyDB) loadFunc() keypool.LoadKeysCallbackFunc {
 		if err != nil {
 			return err
 		}
+		defer rows.Close()
 		for rows.Next() {
 			var KeyData string
 			err := rows.Scan(&KeyData)
@@ -183,6 +189,6 @@ func (kd *KeyDB) loadFunc() keypool.LoadKeysCallbackFunc {
 			}
 			keypool.LoadKey(loadKey) // ignore errors
 		}
-		return nil
+		return rows.Err()
 	}
 }
-- 
2.43.0


From 72a38b669f5114f188484837d61531a6928f3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 29/88] fix: keypool: data races of Lookup and of copies of the
 pool

---
 serviceguard/common/keypool/generator.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 80f518b..f30693a 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -80,7 +80,7 @@ func (kp *KeyPool) AddVerifyKey(key *[ed25519.PublicKeySize]byte) {
 }
 
 // ListVerifyKeys lists all known verification keys.
-func (kp KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
+func (kp *KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
 	kp.mapMutex.Lock()
 	defer kp.mapMutex.Unlock()
 	ret := make([][ed25519.PublicKeySize]byte, 0, len(kp.VerifyPubKeys))
@@ -102,8 +102,9 @@ func (kp *KeyPool) HasVerifyKey(key *[ed25519.PublicKeySize]byte, nolock bool) b
 
 // Lookup a public key from keypool.
 func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
-	kp.mapMutex.RLock()
-	defer kp.mapMutex.RUnlock()
+	// Loading a fetched key changes the map
+	kp.mapMutex.Lock()
+	defer kp.mapMutex.Unlock()
 	key, err := kp.lookup(keyid)
 	if err == ErrNotFound && kp.FetchKeyCallBack != nil {
 		// Use fetchkey callback
@@ -138,14 +139,14 @@ func (kp *KeyPool) lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey,
 }
 
 // SaveKey writes keyid to the keydir
-func (kp KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
 	kp.mapMutex.RLock()
 	defer kp.mapMutex.RUnlock()
 	return kp.SaveKeyUnsafe(keyid)
 }
 
 // SaveKeyUnsafe writes keyid to the keydir. Unsafe. No mutex. Only within callbacks.
-func (kp KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
 	key, err := kp.lookup(keyid)
 	if err != nil {
 		return err
@@ -233,7 +234,7 @@ func (kp *KeyPool) Load() error {
 }
 
 // WriteKey calls the write callback chain to write keys to storage
-func (kp KeyPool) WriteKey(key *signkeys.PublicKey) error {
+func (kp *KeyPool) WriteKey(key *signkeys.PublicKey) error {
 	// Write currentKey to file
 	data, err := key.Marshal()
 	if err != nil {
-- 
2.43.0


From 096718fd9cc250aaee8ea0dfec8b5a3b56067276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 30/88] fix: keypool: generate a new key when the current one
 is half expired

---
 serviceguard/common/keypool/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index f30693a..b6354ff 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -165,7 +165,7 @@ func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
 	if kp.currentKey == nil {
 		// Always generate if we dont have one yet
 		generate = true
-	} else if kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2 {
+	} else if kp.currentKey.PublicKey.Expire < times.Now()+kp.Generator.ExpireTime/2 {
 		// Key has half expired, generate new one
 		generate = true
 	}
-- 
2.43.0


From fd7db255a3f165c5ed1ae32c8cc100b25e6c1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 31/88] fix: keypool: refuse public keys that are not on the
 curve

---
 serviceguard/common/keypool/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index b6354ff..f195109 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -214,6 +214,10 @@ func (kp *KeyPool) loadKey(loadKey *signkeys.PublicKey) (*[signkeys.KeyIDSize]by
 		// Don't load keys without matching signature
 		return nil, ErrBadSigner
 	}
+	if kp.Generator.Curve != nil && !kp.Generator.Curve.Curve.IsOnCurve(loadKey.PublicKey.X, loadKey.PublicKey.Y) {
+		// Don't load keys that are no point (the signature does not cover the lengths of the coordinates)
+		return nil, ErrBadSigner
+	}
 	if !loadKey.Verify(&loadKey.Signer) {
 		// Don't load keys without matching signature
 		return nil, ErrBadSigner
-- 
2.43.0


From 2ee1e90bb40e1d0a51631f3f9d18039b6309a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 32/88] fix: walletrpc: use an authentication token for one
 call only, drop replayed ones

---
 serviceguard/client/walletrpc/client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 6c88877..ec84aaf 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -59,11 +59,14 @@ CallLoop:
 		SubscriptionTokens, PrepayTokens, LastSubscribeLoad, lastcounter, err = wc.getBalance(authtoken)
 		if err == walletauth.ErrReplay {
 			wc.LastAuthCounter = lastcounter
+			wc.LastAuthToken = nil // A replayed token is never accepted
 			if i > 0 {
 				i--
 				continue CallLoop
 			}
 		}
+		// Repeat a failed call with the same token, but use it for one call only
+		wc.LastAuthToken = nil
 		if err != nil {
 			wc.LastAuthToken = authtoken
 		}
@@ -125,11 +128,14 @@ CallLoop:
 		token, params, pubKeyUsed, lastcounter, err = wc.getToken(usage, authtoken)
 		if err == walletauth.ErrReplay {
 			wc.LastAuthCounter = lastcounter
+			wc.LastAuthToken = nil // A replayed token is never accepted
 			if i > 0 {
 				i--
 				continue CallLoop
 			}
 		}
+		// Repeat a failed call with the same token, but use it for one call only
+		wc.LastAuthToken = nil
 		if err != nil {
 			wc.LastAuthToken = authtoken
 		}
@@ -170,6 +176,9 @@ func (wc WalletClient) getToken(usage string, authtoken []byte) (token, params,
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
 	}
+	if _, ok := data["PubKeyUsed"].(string); !ok {
+		return nil, nil, nil, 0, ErrParams
+	}
 	pubKeyUsed, err = base64.StdEncoding.DecodeString(data["PubKeyUsed"].(string))
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
-- 
2.43.0


From 2c444653fa282518601708c49a936da2dd62b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 33/88] fix: walletstore: keep locks that are not expired when
 the store is opened

---
 serviceguard/client/walletstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 1f65653..a6822ac 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -207,7 +207,7 @@ func (ws *Storage) initDB() (err error) {
 
 // CleanLocks cleans all locks. If force is true all locks are removed, not only expired locks
 func (ws *Storage) CleanLocks(force bool) {
-	locktime := times.Now() + MaxLockAge
+	locktime := times.Now() - MaxLockAge
 	if force {
 		locktime = int64(^uint32(0)) // MaxUInt32
 	}
-- 
2.43.0


From ecc22daac71b1e0c2123702ed911526048506ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 34/88] fix: walletstore: read the stored authentication token
 and verify keys back, keep one when setting the other

---
 serviceguard/client/walletstore/store.go | 52 ++++++++++--------------
 serviceguard/client/walletstore/types.go |  4 +-
 2 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index a6822ac..c77673f 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -319,12 +319,10 @@ func (ws *Storage) writeCache() error {
 	return nil
 }
 
-// readCache reads the cache from the database
+// readCache reads the cache from the database, cacheMutex must be locked
 func (ws *Storage) readCache() {
-	var data string
-	ws.cacheMutex.Lock()
-	defer ws.cacheMutex.Unlock()
-	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&data)
+	var tmp, data string
+	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&tmp, &data)
 	if err != nil {
 		return
 	}
@@ -335,12 +333,20 @@ func (ws *Storage) readCache() {
 	ws.cache = dataU
 }
 
-// SetVerifyKeys saves verification keys
-func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
-	ws.cacheMutex.Lock()
+// loadCache makes sure that there is a cache, cacheMutex must be locked
+func (ws *Storage) loadCache() {
+	if ws.cache == nil {
+		ws.readCache()
+	}
 	if ws.cache == nil {
 		ws.cache = new(CacheData)
 	}
+}
+
+// SetVerifyKeys saves verification keys
+func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
+	ws.cacheMutex.Lock()
+	ws.loadCache()
 	ws.cache.VerifyKeys = verifyKeys
 	ws.cacheMutex.Unlock()
 	ws.writeCache()
@@ -348,28 +354,19 @@ func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
 
 // GetVerifyKeys loads verification keys
 func (ws *Storage) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
-	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
+	ws.loadCache()
 	if ws.cache.VerifyKeys == nil {
 		ws.cache.VerifyKeys = make([][ed25519.PublicKeySize]byte, 0)
 	}
-	defer ws.cacheMutex.RUnlock()
 	return ws.cache.VerifyKeys
 }
 
 // SetAuthToken stores an authtoken and tries
 func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
 	ws.cacheMutex.Lock()
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	ws.loadCache()
 	ws.cache.AuthToken = authToken
 	ws.cache.AuthTries = tries
 	ws.cacheMutex.Unlock()
@@ -378,16 +375,9 @@ func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
 
 // GetAuthToken gets authtoken from store
 func (ws *Storage) GetAuthToken() (authToken []byte, tries int) {
-	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
-	defer ws.cacheMutex.RUnlock()
-	if ws.cache == nil {
-		return nil, 0
-	}
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
+	ws.loadCache()
 	return ws.cache.AuthToken, ws.cache.AuthTries
 }
 
diff --git a/serviceguard/client/walletstore/types.go b/serviceguard/client/walletstore/types.go
index e096422..8c6b77d 100644
--- a/serviceguard/client/walletstore/types.go
+++ b/serviceguard/client/walletstore/types.go
@@ -203,7 +203,9 @@ func (cd *CacheData) Unmarshal(d string) (*CacheData, error) {
 		copy(copyKey[:], key)
 		cd.VerifyKeys = append(cd.VerifyKeys, *copyKey)
 	}
-	cd.AuthToken = cdb.AuthToken
+	if len(cdb.AuthToken) > 0 {
+		cd.AuthToken = cdb.AuthToken
+	}
 	cd.AuthTries = cdb.AuthTries
 	return cd, nil
 }
-- 
2.43.0


From f4d30e6d52315751902a6c0accbb3cd13e55ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:07 +0000
Subject: [PATCH 35/88] fix: walletstore: report tokens and data that could not
 be stored, store a token with its state or not at all

---
 serviceguard/client/walletstore/store.go | 52 ++++++++++++++++--------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index c77673f..ec00616 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -48,7 +48,8 @@ CREATE TABLE IF NOT EXISTS walletState (
 	setTokenUpdateQuery = `UPDATE walletTokens SET Hash=?, Token=?, OwnerPubKey=?, OwnerPrivKey=?, 
 						Renewable=?, CanReissue=?, UsageStr=?, Expire=?, OwnedSelf=?, 
 						HasParams=?, HasState=? WHERE Hash=?;`
-	getTokenQuery = `SELECT LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, 
+	existsTokenQuery = `SELECT Hash FROM walletTokens WHERE Hash=?;`
+	getTokenQuery    = `SELECT LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, 
 						CanReissue, UsageStr, Expire, OwnedSelf, HasParams, HasState
 						FROM walletTokens WHERE Hash=?;`
 	setStateQuery       = `INSERT INTO walletState (Hash, State) VALUES (?,?);`
@@ -216,13 +217,22 @@ func (ws *Storage) CleanLocks(force bool) {
 
 // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
 func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
+	var exists string
 	global, state := encodeToken(&tokenEntry)
-	_, err := ws.setTokenQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback() // without effect after commit
+	_, err = tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 		global.OwnerPrivKey, global.Renewable, global.CanReissue,
 		global.Usage, global.Expire, global.OwnedSelf,
 		global.HasParams, global.HasState)
 	if err != nil {
-		_, err := ws.setTokenUpdateQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+		if tx.QueryRow(existsTokenQuery, global.Hash).Scan(&exists) != nil {
+			return err // there is nothing to update
+		}
+		_, err := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 			global.OwnerPrivKey, global.Renewable, global.CanReissue,
 			global.Usage, global.Expire, global.OwnedSelf,
 			global.HasParams, global.HasState, global.Hash)
@@ -231,15 +241,24 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 		}
 	}
 	if len(state) > 0 {
-		_, err = ws.setStateQuery.Exec(global.Hash, state)
-		if err != nil {
-			_, err = ws.setStateUpdateQuery.Exec(state, global.Hash)
-			if err != nil {
-				return err
-			}
+		if err := ws.setState(tx, global.Hash, state); err != nil {
+			return err
 		}
 	}
-	return nil
+	return tx.Commit()
+}
+
+// setState writes the state for hash in transaction tx
+func (ws *Storage) setState(tx *sql.Tx, hash, state string) error {
+	var tmp, old string
+	_, err := tx.Stmt(ws.setStateQuery).Exec(hash, state)
+	if err != nil {
+		if tx.Stmt(ws.getStateQuery).QueryRow(hash).Scan(&tmp, &old) != nil {
+			return err // there is nothing to update
+		}
+		_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, hash)
+	}
+	return err
 }
 
 // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
@@ -309,14 +328,15 @@ func (ws *Storage) writeCache() error {
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
 	data := ws.cache.Marshal()
-	_, err := ws.setStateQuery.Exec("CONFIGCACHE", data)
+	tx, err := ws.DB.Begin()
 	if err != nil {
-		_, err = ws.setStateUpdateQuery.Exec(data, "CONFIGCACHE")
-		if err != nil {
-			return err
-		}
+		return err
 	}
-	return nil
+	defer tx.Rollback() // without effect after commit
+	if err := ws.setState(tx, "CONFIGCACHE", data); err != nil {
+		return err
+	}
+	return tx.Commit()
 }
 
 // readCache reads the cache from the database, cacheMutex must be locked
-- 
2.43.0


From 9d4ff2fa19e4de8676735d26fe503d962110311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:07 +0000
Subject: [PATCH 36/88] fix: walletstore: a token with empty params or state
 has none

---
 serviceguard/client/walletstore/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletstore/types.go b/serviceguard/client/walletstore/types.go
index 8c6b77d..c6e309d 100644
--- a/serviceguard/client/walletstore/types.go
+++ b/serviceguard/client/walletstore/types.go
@@ -53,10 +53,10 @@ func encodeToken(token *client.TokenEntry) (global *TokenEntryDBGlobal, state st
 		global.OwnerPrivKey = base64.StdEncoding.EncodeToString(token.OwnerPrivKey[:])
 		global.OwnedSelf = true
 	}
-	if token.Params != nil {
+	if len(token.Params) > 0 {
 		global.HasParams = true
 	}
-	if token.ServerPacket != nil || token.BlindingFactors != nil || token.NewOwnerPrivKey != nil {
+	if len(token.ServerPacket) > 0 || len(token.BlindingFactors) > 0 || token.NewOwnerPrivKey != nil {
 		global.HasState = true
 	}
 
-- 
2.43.0


From f518e6dbab386485402515f91c6e278074a0d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:16 +0000
Subject: [PATCH 37/88] fix: guardrpc, keylookup: replies with members of the
 wrong type crashed the client

---
 serviceguard/client/guardrpc/client.go | 14 +++++++-------
 serviceguard/client/keylookup/impl.go  |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/serviceguard/client/guardrpc/client.go b/serviceguard/client/guardrpc/client.go
index 0a8908c..54b8bb5 100644
--- a/serviceguard/client/guardrpc/client.go
+++ b/serviceguard/client/guardrpc/client.go
@@ -74,7 +74,7 @@ func (rpc RPCclient) GetParams(pubKey *[ed25519.PublicKeySize]byte) ([]byte, err
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
+	if _, ok := data["Packet"].(string); ok {
 		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
 		if err != nil {
 			return nil, err
@@ -97,7 +97,7 @@ func (rpc RPCclient) GetParamsInternal(pubKey *[ed25519.PublicKeySize]byte) ([]b
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
+	if _, ok := data["Packet"].(string); ok {
 		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
 		if err != nil {
 			return nil, err
@@ -120,7 +120,7 @@ func (rpc RPCclient) Spend(pubKey *[ed25519.PublicKeySize]byte, packet []byte) (
 	if err != nil {
 		return false, err
 	}
-	if _, ok := data["Status"]; ok {
+	if _, ok := data["Status"].(bool); ok {
 		return data["Status"].(bool), nil
 	}
 	return false, ErrParams
@@ -139,10 +139,10 @@ func (rpc RPCclient) Reissue(pubKey *[ed25519.PublicKeySize]byte, packet []byte)
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	retpacket, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
@@ -176,10 +176,10 @@ func (rpc RPCclient) Issue(pubKey, owner *[ed25519.PublicKeySize]byte) ([]byte,
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	packet, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 7dd6d00..1ea9a3c 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -75,7 +75,7 @@ func (klc LookupClient) getKey(keyid []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Key"]; ok {
+	if _, ok := data["Key"].(string); ok {
 		keyMarshalled, err := base64.StdEncoding.DecodeString(data["Key"].(string))
 		if err != nil {
 			return nil, err
@@ -119,13 +119,13 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["PublicKey"]; !ok {
+	if _, ok := data["PublicKey"].(string); !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["Signature"]; !ok {
+	if _, ok := data["Signature"].(string); !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["KeyList"]; !ok {
+	if _, ok := data["KeyList"].(string); !ok {
 		return nil, ErrParams
 	}
 	pubKey, err := hex.DecodeString(data["PublicKey"].(string))
-- 
2.43.0


From 8f52d3d146595bb7dafa7906c1e06fab46aadfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:37 +0000
Subject: [PATCH 38/88] fix: client: a token in use was reissued and unlocked

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index a177816..0cd42b0 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -26,7 +26,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	defer onlineGroup.Done()
 	// Lock token against other use
 	lockID := c.LockToken(tokenHash)
-	if lockID == 0 {
+	if lockID <= 0 {
 		c.LastError = ErrLocked
 		return nil, ErrRetry
 	}
-- 
2.43.0


From 8b9087c3d4a7f05cdc370de1084a06db0ddc127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 39/88] fix: client: reissue for no given owner crashed

---
 serviceguard/client/reissue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 0cd42b0..4190014 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -88,6 +88,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				c.LastError = err
 				return nil, ErrFatal
 			}
+			ownerPubkey = new([ed25519.PublicKeySize]byte)
+			ownerPrivkey = new([ed25519.PrivateKeySize]byte)
 			copy(ownerPubkey[:], pk)
 			copy(ownerPrivkey[:], sk)
 			tokenEntry.NewOwnerPrivKey = ownerPrivkey
-- 
2.43.0


From 6026307b581af9e229b5b565a0644d9cd3584847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 40/88] fix: client: a reissued token was deleted before its
 successor was stored

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 4190014..78cd641 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -125,7 +125,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		}
 		return nil, ErrRetry
 	}
-	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it's invalid from here
 	// Parse new pubkey and add to keypool
 	signerPubKey, err := new(signkeys.PublicKey).Unmarshal(newPubkey)
 	if err != nil {
@@ -177,5 +176,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, its successor is stored
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From 315b1a35abfbd0f5a0ec8d3e994eeae7441f2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 41/88] fix: client: tokens of the wallet server were not
 verified, also not their usage and owner

---
 serviceguard/client/walletserver.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 39f45e4..53b4628 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -40,6 +40,24 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		return nil, ErrFatal
 	}
 	c.packetClient.Keypool.SaveKey(*keyid)
+	// Check that the token is what was asked for
+	ownerPubkey, ownerPrivkey := splitKey(c.walletKey)
+	verifiedToken, err := c.Verify(newToken)
+	if err != nil {
+		return nil, err
+	}
+	if tokenKeyID, _ := tokenUnmarshalled.Properties(); *tokenKeyID != *keyid {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
+	if verifiedToken.Usage != usage {
+		c.LastError = ErrUsageToken
+		return nil, ErrFinal
+	}
+	if verifiedToken.OwnerPubKey == nil || *verifiedToken.OwnerPubKey != *ownerPubkey {
+		c.LastError = ErrOwnerToken
+		return nil, ErrFinal
+	}
 	// If we have params this is not renewable
 	renewable := false
 	if params == nil || len(params) == 0 {
@@ -55,8 +73,6 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 			renewable = true
 		}
 	}
-	//tokenUnmarshalled.KeyID
-	ownerPubkey, ownerPrivkey := splitKey(c.walletKey)
 	// Set tokenentry struct for storage
 	tokenentry := TokenEntry{
 		Hash:         tokenUnmarshalled.Hash(),
-- 
2.43.0


From 36b0654b272bf59bd27bde210178889ceb7feb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 42/88] fix: client: a token with unusable reissue parameters
 could never be reissued again

---
 serviceguard/client/reissue.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 78cd641..0e35a04 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -99,6 +99,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		serverPacket, blindingFactors, err := c.packetClient.Reissue(tokenEntry.Token, tokenEntry.OwnerPrivKey, tokenEntry.NewOwnerPubKey, tokenEntry.Params)
 		if err != nil {
 			c.LastError = err
+			c.dropParams(tokenEntry)
 			return nil, ErrFatal
 		}
 		// Marshall local, store packet and local in walletStore
@@ -121,6 +122,10 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		_, fatal, err := lookupError(err)
 		if fatal {
 			c.LastError = err
+			switch err {
+			case ErrParamsExpired, ErrParameterMixed, ErrParamDoubleSpend, ErrUsageMismatch:
+				c.dropParams(tokenEntry)
+			}
 			return nil, ErrFinal
 		}
 		return nil, ErrRetry
@@ -179,3 +184,14 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, its successor is stored
 	return tokenentryNew.Hash, nil
 }
+
+// dropParams removes params which cannot be used and the request made with
+// them from a token. The next reissue gets new ones.
+func (c *Client) dropParams(tokenEntry *TokenEntry) {
+	tokenEntry.Params = nil
+	tokenEntry.ServerPacket = nil
+	tokenEntry.BlindingFactors = nil
+	tokenEntry.NewOwnerPubKey = nil
+	tokenEntry.NewOwnerPrivKey = nil
+	c.walletStore.SetToken(*tokenEntry)
+}
-- 
2.43.0


From 8e2e7717cd709981b780feb34b74d92b4a25994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 43/88] fix: client: a wallet call with a final answer was
 repeated with the same authentication token

---
 serviceguard/client/walletserver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 53b4628..b39698b 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -122,6 +122,8 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 		_, fatal, err := lookupError(err)
 		if fatal {
 			c.LastError = err
+			// The call was answered, don't repeat it
+			c.walletStore.SetAuthToken(nil, 0)
 			return nil, nil, nil, ErrFinal
 		}
 		// cache walletClient.LastAuthToken
-- 
2.43.0


From 089c64121c680656a63b249452b21b47df0719cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:21 +0000
Subject: [PATCH 44/88] fix: client: GetToken returned neither token nor error
 when the wallet failed

---
 serviceguard/client/clientlib.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 729d95e..16b4e35 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -197,6 +197,9 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 			c.LastError = err
 			return nil, ErrFatal
 		}
+	} else if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
 	}
 	return retToken, nil
 }
-- 
2.43.0


From e36d120ef2b597a411998dcf8423942582368307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 45/88] fix: client: continuing a reissue for another owner
 returned a token of the first owner

---
 serviceguard/client/reissue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 0e35a04..2be2f3c 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -114,6 +114,10 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 			c.LastError = err
 			return nil, ErrFatal
 		}
+	} else if ownerPubkey != nil && (tokenEntry.NewOwnerPubKey == nil || *tokenEntry.NewOwnerPubKey != *ownerPubkey) {
+		// The reissue under way is for somebody else
+		c.LastError = ErrOwnerToken
+		return nil, ErrFinal
 	}
 	// We have everything, make the call
 	replyPacket, newPubkey, err := issueClient.Reissue(&key.Signer, tokenEntry.ServerPacket)
-- 
2.43.0


From 67db45ad9ce8258e4b19c878b04643be8138bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 46/88] fix: client: a known token given again by the wallet
 server replaced what was stored for it

---
 serviceguard/client/walletserver.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index b39698b..abc1a67 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -5,6 +5,8 @@
 package client
 
 import (
+	"bytes"
+
 	"crypto/ed25519"
 	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
 	"github.com/mutecomm/mute/serviceguard/common/keypool"
@@ -58,6 +60,11 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		c.LastError = ErrOwnerToken
 		return nil, ErrFinal
 	}
+	// Never replace what is stored for a known token
+	if knownToken, err := c.walletStore.GetToken(verifiedToken.Hash, -1); err == nil && knownToken != nil && bytes.Equal(knownToken.Hash, verifiedToken.Hash) {
+		c.LastError = ErrTokenKnown
+		return nil, ErrFinal
+	}
 	// If we have params this is not renewable
 	renewable := false
 	if params == nil || len(params) == 0 {
-- 
2.43.0


From 2f06619e282ff064bc512b5b03945151c43a468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 47/88] fix: client: the runner could not be stopped or started
 again, starting it twice blocked SetTarget for ever

---
 serviceguard/client/clientlib.go |  2 +-
 serviceguard/client/runner.go    | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 16b4e35..a607c80 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -76,7 +76,7 @@ func New(keyBackends []types.Backend, walletstore WalletStore, walletKey *[ed255
 	c.walletStore = walletstore
 	c.cacert = cacert
 	c.walletKey = walletKey
-	c.stopChan = make(chan bool)
+	c.stopChan = make(chan bool, 1)
 	pubkey, privkey := splitKey(c.walletKey)
 	c.walletRPC = walletrpc.New(pubkey, privkey, c.cacert)
 	return c, nil
diff --git a/serviceguard/client/runner.go b/serviceguard/client/runner.go
index 911eb5f..eebe674 100644
--- a/serviceguard/client/runner.go
+++ b/serviceguard/client/runner.go
@@ -5,7 +5,6 @@
 package client
 
 import (
-	"runtime"
 	"time"
 )
 
@@ -21,22 +20,38 @@ func (c *Client) Runner() {
 
 // StopRunner stops the runner. Should be called non-blocking (go StopRunner()).
 func (c *Client) StopRunner() {
-	c.stopChan <- true
+	runnerLock.Lock()
+	defer runnerLock.Unlock()
+	if c.runnerRunning && len(c.stopChan) == 0 {
+		c.stopChan <- true
+	}
+}
+
+// stopRequested returns true if the runner has to stop.
+func (c *Client) stopRequested() bool {
+	runnerLock.Lock()
+	defer runnerLock.Unlock()
+	if len(c.stopChan) > 0 {
+		<-c.stopChan
+		c.runnerRunning = false
+		return true
+	}
+	return false
 }
 
 func (c *Client) runner() {
 	// Prevent double-start
 	runnerLock.Lock()
 	if c.runnerRunning {
+		runnerLock.Unlock()
 		return
 	}
 	c.runnerRunning = true
 	runnerLock.Unlock()
 	for {
 		var actionCount int
-		if len(c.stopChan) > 0 {
-			<-c.stopChan
-			runtime.Goexit()
+		if c.stopRequested() {
+			return
 		}
 		onlineGroup.Add(1)
 		// Delete some expired tokens
-- 
2.43.0


From 5f472211e1474e664a5fc6a8c8a89668f9c385be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:11 +0000
Subject: [PATCH 48/88] fix: client: going offline crashed while the runner was
 active

---
 serviceguard/client/clientlib.go | 35 +++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index a607c80..ef4381c 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -37,7 +37,40 @@ var tokenLock = new(sync.Mutex)
 var runnerLock = new(sync.Mutex)
 
 // wait for online routines
-var onlineGroup = new(sync.WaitGroup)
+var onlineGroup = newOnlineCounter()
+
+// onlineCounter counts online routines. Unlike with sync.WaitGroup, routines
+// can start while others are waited for.
+type onlineCounter struct {
+	cond  *sync.Cond
+	count int
+}
+
+func newOnlineCounter() *onlineCounter {
+	return &onlineCounter{cond: sync.NewCond(new(sync.Mutex))}
+}
+
+// Add adds delta routines.
+func (oc *onlineCounter) Add(delta int) {
+	oc.cond.L.Lock()
+	defer oc.cond.L.Unlock()
+	oc.count += delta
+	oc.cond.Broadcast()
+}
+
+// Done ends a routine.
+func (oc *onlineCounter) Done() {
+	oc.Add(-1)
+}
+
+// Wait blocks until no routine is running.
+func (oc *onlineCounter) Wait() {
+	oc.cond.L.Lock()
+	defer oc.cond.L.Unlock()
+	for oc.count > 0 {
+		oc.cond.Wait()
+	}
+}
 
 // Target defines a fill target for the wallet.
 type Target struct {
-- 
2.43.0


From 8306f5cad3dbd586765e80f7534a75eaef9fd5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 49/88] fix: sortedmap: signatures verified with a missing or
 truncated public key

---
 configclient/sortedmap/map.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/configclient/sortedmap/map.go b/configclient/sortedmap/map.go
index 0456287..bc6a727 100644
--- a/configclient/sortedmap/map.go
+++ b/configclient/sortedmap/map.go
@@ -110,10 +110,11 @@ func (so SortedMap) Sign(signdate uint64, privKey *[ed25519.PrivateKeySize]byte)
 
 // Verify a signature for a SortedMap with the publickey.
 func (so SortedMap) Verify(signdate uint64, publicKey []byte, signature []byte) bool {
-	var pubkey [ed25519.PublicKeySize]byte
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false
+	}
 	sdate := make([]byte, 8)
 	binary.BigEndian.PutUint64(sdate, signdate)
 
-	copy(pubkey[:], publicKey)
-	return ed25519.Verify(pubkey[:], append(so.Image(), sdate...), signature)
+	return ed25519.Verify(publicKey, append(so.Image(), sdate...), signature)
 }
-- 
2.43.0


From fc1c7f8c3a5fa25da9794c91b4e7017d55214c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:40 +0000
Subject: [PATCH 50/88] fix: cahash: anything but PEM crashed

---
 configclient/cahash/hash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index f3c436c..de74be6 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -9,11 +9,18 @@ import (
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
+	"errors"
 )
 
+// ErrNoPEM is returned if there is no pem-encoded certificate.
+var ErrNoPEM = errors.New("cahash: not pem-encoded")
+
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
 	block, _ := pem.Decode(cert)
+	if block == nil {
+		return nil, ErrNoPEM
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bdf60efffc3463457c8492ad875bf7aa8cfdc1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:40 +0000
Subject: [PATCH 51/88] fix: configclient: after a failed update the next one
 crashed or skipped servers, the CA certificate was lost

---
 configclient/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/configclient/client.go b/configclient/client.go
index 8ec5d35..bd83cf7 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -62,6 +62,7 @@ func (c *Config) Update() error {
 	if len(c.servers) < 1 {
 		return ErrNoServers
 	}
+	c.curServer = 0 // the list above is new
 	if c.LastSignDate == 0 {
 		c.LastSignDate = uint64(times.Now() - skew)
 	}
@@ -92,10 +93,11 @@ GetConfigLoop:
 			return err
 		}
 	}
+	caCert := c.CACert
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
 		for ; c.curServer < len(c.servers); c.curServer++ {
-			c.CACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
+			caCert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
 			if err == nil {
 				break CALoop
 			}
@@ -104,6 +106,7 @@ GetConfigLoop:
 	if err != nil {
 		return err
 	}
+	c.CACert = caCert
 	c.Map = cert.Config
 	c.LastSignDate = cert.SignDate
 	return nil
-- 
2.43.0


From aa88c7d6c467e8042ab12eaf0ce46aa1a82f3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:40 +0000
Subject: [PATCH 52/88] fix: configclient: an unreadable CA certificate
 prevented all updates

---
 configclient/client.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/configclient/client.go b/configclient/client.go
index bd83cf7..21f6374 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -89,9 +89,8 @@ GetConfigLoop:
 		return err
 	}
 	if c.CACert != nil {
-		if myCAhash, err = cahash.Hash(c.CACert); err != nil {
-			return err
-		}
+		// a certificate that cannot be read is fetched again
+		myCAhash, _ = cahash.Hash(c.CACert)
 	}
 	caCert := c.CACert
 	if !bytes.Equal(myCAhash, certHashb) {
-- 
2.43.0


From 112b6c6c3519639b26d058f0233ceb61b21d9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:40 +0000
Subject: [PATCH 53/88] fix: configclient: certificates appended to the
 verified CA certificate were trusted, too

---
 configclient/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/configclient/client.go b/configclient/client.go
index 21f6374..0d502e5 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -8,6 +8,7 @@ package configclient
 import (
 	"bytes"
 	"encoding/hex"
+	"encoding/pem"
 	"errors"
 	"io"
 	"io/ioutil"
@@ -167,5 +168,8 @@ func getCACert(configURL string, certHash string, timeout int64) ([]byte, error)
 	if !bytes.Equal(testHash, certHashb) {
 		return nil, ErrHashWrong
 	}
-	return p, nil
+	// keep nothing but the verified certificate, the rest is not covered by
+	// the hash
+	block, _ := pem.Decode(p)
+	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: block.Bytes}), nil
 }
-- 
2.43.0


From c21ece83e404dd77e61b816df44c703a8d097f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 54/88] fix: mime: messages with an empty list of Cc recipients
 could not be parsed

---
 msg/mime/mime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 5f4e14e..3d57068 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -55,7 +55,7 @@ func mailHeader(
 ) error {
 	fmt.Fprintf(w, "From: %s\r\n", header.From)
 	fmt.Fprintf(w, "To: %s\r\n", header.To)
-	if header.Cc != nil {
+	if len(header.Cc) > 0 {
 		fmt.Fprintf(w, "Cc: %s\r\n", strings.Join(header.Cc, ","))
 	}
 	if subject != "" {
-- 
2.43.0


From e26114daf5d02b9e5d46319fcf7f6f3c637f3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 55/88] fix: mime: messages with an empty first line could not
 be parsed

---
 msg/mime/mime.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 3d57068..7700643 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -310,10 +310,7 @@ func Parse(r io.Reader) (
 		}
 	}
 	// parse subject
-	subj := msg.Header.Get("Subject")
-	if subj == "" {
-		return nil, "", "", nil, log.Error("mime: 'Subject' not defined")
-	}
+	subj := msg.Header.Get("Subject") // not written if empty
 	dec := new(mime.WordDecoder)
 	subject, err = dec.DecodeHeader(subj)
 	if err != nil {
-- 
2.43.0


From cc8cf9f7e44363cd3ff8a8b9511256c48cf19561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 56/88] fix: mime: parsing a truncated message crashed

---
 msg/mime/mime.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 7700643..72a324e 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -366,6 +366,9 @@ func Parse(r io.Reader) (
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, "", "", nil, log.Error(err)
+		}
 		// parse header
 		contentType := p.Header.Get("Content-Type")
 		if contentType == "" {
@@ -395,9 +398,6 @@ func Parse(r io.Reader) (
 		}
 
 		// parse body
-		if err != nil {
-			return nil, "", "", nil, log.Error(err)
-		}
 		enc, err := ioutil.ReadAll(p)
 		if err != nil {
 			return nil, "", "", nil, log.Error(err)
-- 
2.43.0


From f011304c50d9e5a17a2ba246287b50660b406270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 57/88] fix: mime: splitting into chunks of size 0 crashed

---
 msg/mime/mime.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 72a324e..249b580 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -164,6 +164,9 @@ func EncodeChunks(
 	msg string,
 	size uint64,
 ) (chunks []string, err error) {
+	if size == 0 {
+		return nil, log.Error("mime: chunk size is 0")
+	}
 	msgLen := uint64(len(msg))
 	numOfChunks := msgLen / size
 	if msgLen%size > 0 {
-- 
2.43.0


From 8c370f4747af3e68a82ce5d78ceeb472e73c67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 58/88] fix: mime: attachment names with spaces or special
 characters were cut, got lost or made the message unreadable

---
 msg/mime/mime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 249b580..86d58ed 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -104,7 +104,8 @@ func multipartMIME(
 			}
 		}
 		mh.Add("Content-Transfer-Encoding", "base64")
-		mh.Add("Content-Disposition", "attachment; filename="+base)
+		mh.Add("Content-Disposition", mime.FormatMediaType("attachment",
+			map[string]string{"filename": base}))
 		if attachment.Inline {
 			mh.Add("Content-Disposition", "inline")
 		}
-- 
2.43.0


From a45e8ebf38cb90c72f81a414a493bf885bbb3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:24 +0000
Subject: [PATCH 59/88] fix: mime: subjects that look encoded or begin or end
 with white space were changed

---
 msg/mime/mime.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 86d58ed..7cc5405 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -47,6 +47,26 @@ type Header struct {
 	InReplyTo string   // optional
 }
 
+// encodeSubject encodes subject such that it is the same after decoding.
+func encodeSubject(subject string) string {
+	enc := mime.QEncoding.Encode("utf-8", subject)
+	dec, err := new(mime.WordDecoder).DecodeHeader(strings.TrimSpace(enc))
+	if err == nil && dec == subject {
+		return enc
+	}
+	// ASCII which looks encoded or has white space at the beginning or end
+	var words []string
+	for len(subject) > 0 {
+		n := 45
+		if n > len(subject) {
+			n = len(subject)
+		}
+		words = append(words, "=?utf-8?b?"+base64.Encode([]byte(subject[:n]))+"?=")
+		subject = subject[n:]
+	}
+	return strings.Join(words, "\r\n ")
+}
+
 func mailHeader(
 	w io.Writer,
 	header Header,
@@ -59,7 +79,7 @@ func mailHeader(
 		fmt.Fprintf(w, "Cc: %s\r\n", strings.Join(header.Cc, ","))
 	}
 	if subject != "" {
-		fmt.Fprintf(w, "Subject: %s\r\n", mime.QEncoding.Encode("utf-8", subject))
+		fmt.Fprintf(w, "Subject: %s\r\n", encodeSubject(subject))
 	}
 	fmt.Fprintf(w, "Message-ID: %s\r\n", header.MessageID)
 	if header.InReplyTo != "" {
-- 
2.43.0


From 0b01e634e88095419505d0c43fd27418623b7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:24 +0000
Subject: [PATCH 60/88] fix: mail: encoded subjects were not decoded

---
 ctrlengine/mail/mail.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctrlengine/mail/mail.go b/ctrlengine/mail/mail.go
index 7e70b5a..e823f07 100644
--- a/ctrlengine/mail/mail.go
+++ b/ctrlengine/mail/mail.go
@@ -8,6 +8,7 @@ package mail
 import (
 	"io"
 	"io/ioutil"
+	"mime"
 	"net/mail"
 
 	"github.com/mutecomm/mute/log"
@@ -34,6 +35,9 @@ func Parse(r io.Reader) (
 	}
 	// parse 'Subject'
 	subject := msg.Header.Get("Subject")
+	if dec, err := new(mime.WordDecoder).DecodeHeader(subject); err == nil {
+		subject = dec
+	}
 	// read body
 	body, err := ioutil.ReadAll(msg.Body)
 	if err != nil {
-- 
2.43.0


From 150549ed291c9cf0b985545a9a1f665033b6730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:34 +0000
Subject: [PATCH 61/88] fix: cipher: ECDH accepted the own public key with the
 ignored bit set

---
 cipher/curve25519.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cipher/curve25519.go b/cipher/curve25519.go
index 99a8af7..1d0748b 100644
--- a/cipher/curve25519.go
+++ b/cipher/curve25519.go
@@ -85,7 +85,9 @@ func ECDH(privateKey, peersPublicKey, ownPublicKey *[32]byte) (*[32]byte, error)
 		curve25519.ScalarBaseMult(&publicKey, privateKey)
 		pubKey = publicKey[:]
 	}
-	if bytes.Equal(pubKey, peersPublicKey[:]) {
+	// (the most significant bit of a public key is ignored by Curve25519)
+	if bytes.Equal(pubKey[:31], peersPublicKey[:31]) &&
+		pubKey[31]&0x7f == peersPublicKey[31]&0x7f {
 		return nil, log.Errorf("cipher: curve25519.ECDH(): publicKey == peersPublicKey")
 	}
 	// perform Diffie-Hellman key exchange
-- 
2.43.0


From bc6ffac6d1a3d06c225b1bf322ff6a1aca8ea253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 62/88] fix: textbuffer: negative coordinates crashed

---
 tui/textbuffer/textbuffer.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tui/textbuffer/textbuffer.go b/tui/textbuffer/textbuffer.go
index a68eef9..02e546f 100644
--- a/tui/textbuffer/textbuffer.go
+++ b/tui/textbuffer/textbuffer.go
@@ -138,8 +138,8 @@ func New(b []byte) *TextBuffer {
 // GetRune returns the rune in line y at position x of the rune coordinate
 // system.
 func (tb *TextBuffer) GetRune(x, y int) rune {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].runes) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].runes) {
 			return tb.lines[y].runes[x]
 		}
 	}
@@ -149,8 +149,8 @@ func (tb *TextBuffer) GetRune(x, y int) rune {
 // GetChar returns the character in line y at position x of the character
 // coordinate system.
 func (tb *TextBuffer) GetChar(x, y int) []rune {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].chars) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].chars) {
 			var l int
 			if x > 0 {
 				l = tb.lines[y].chars[x-1]
@@ -166,8 +166,8 @@ func (tb *TextBuffer) GetChar(x, y int) []rune {
 // coordinate system. It also returns the width of the character:
 // 1: narrow, 2: wide, first half, 0: wide, second half.
 func (tb *TextBuffer) GetCell(x, y int) (c []rune, width int) {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].cells) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].cells) {
 			c := tb.lines[y].cells[x]
 			return tb.GetChar(c.charIndex, y), c.charWidth
 		}
@@ -195,7 +195,7 @@ func (tb *TextBuffer) Lines() int {
 // LineLenRune returns the length of line y in the rune coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenRune(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].runes)
 	}
 	return 0
@@ -204,7 +204,7 @@ func (tb *TextBuffer) LineLenRune(y int) int {
 // LineLenChar returns the length of line y in the character coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenChar(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].chars)
 	}
 	return 0
@@ -213,7 +213,7 @@ func (tb *TextBuffer) LineLenChar(y int) int {
 // LineLenCell returns the length of line y in the cell coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenCell(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].cells)
 	}
 	return 0
-- 
2.43.0


From eaff91152fffe104f4a67df72e7de080091fefa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 63/88] fix: editor: the cursor and the view were left outside
 of smaller new content

---
 tui/editor/editor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tui/editor/editor.go b/tui/editor/editor.go
index d91e1e5..fc7b7d9 100644
--- a/tui/editor/editor.go
+++ b/tui/editor/editor.go
@@ -27,6 +27,9 @@ func (e *Editor) SetContent(b []byte) {
 	e.model.tb = textbuffer.New(b)
 	e.model.width = e.model.tb.MaxLineLenCell()
 	e.model.height = e.model.tb.Lines()
+	// the new content can be smaller than the old one
+	e.model.limitCursor()
+	e.port.SetContentSize(e.model.width, e.model.height, true)
 }
 
 // SetStyle of Editor.
-- 
2.43.0


From 9c1545124c78801b8f072a11a1c2e220f01b2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 64/88] fix: util: MailboxAddress panicked for a server name
 shorter than the system domain

---
 util/nymaddr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/nymaddr.go b/util/nymaddr.go
index fc766e2..93da631 100644
--- a/util/nymaddr.go
+++ b/util/nymaddr.go
@@ -7,6 +7,7 @@ package util
 import (
 	"crypto/ed25519"
 	"encoding/hex"
+	"strings"
 
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/encode/base64"
@@ -25,7 +26,7 @@ var MixAddress string
 // MailboxAddress returns the mailbox address for the given pubkey and server.
 func MailboxAddress(pubkey *[ed25519.PublicKeySize]byte, server string) []byte {
 	return []byte(hex.EncodeToString(pubkey[:]) + "@" +
-		server[:len(server)-len(mixcrypt.MuteSystemDomain)])
+		strings.TrimSuffix(server, mixcrypt.MuteSystemDomain))
 }
 
 // NewNymAddress generates a new nym address.
-- 
2.43.0


From 0dae075b41f58735a513191f1035ee81b81ce7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 65/88] fix: ctrlengine: messages too long to be encrypted were
 accepted and blocked all later messages

---
 ctrlengine/msg.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 79fe5b0..82eddd5 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -38,6 +38,9 @@ import (
 	"github.com/urfave/cli"
 )
 
+// maxMsgLen is the maximum length of a message.
+const maxMsgLen = msg.MaxContentLength
+
 func mutecryptEncrypt(
 	c *cli.Context,
 	from, to string,
@@ -165,6 +168,12 @@ func (ce *CtrlEngine) msgAdd(
 		msg = []byte(message)
 	}
 
+	// a message which is too long to be encrypted would block the sending of
+	// all messages added after it
+	if len(msg) > maxMsgLen {
+		return log.Errorf("message too long (%d > %d bytes)", len(msg), maxMsgLen)
+	}
+
 	toMapped, err := identity.Map(to)
 	if err != nil {
 		return err
-- 
2.43.0


From b43a110f88e3d6d18b4b4d5ffbed028b5c3128af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 66/88] fix: ctrlengine: delays of more than 32 bits were
 changed silently

---
 ctrlengine/ctrlengine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index 784b8a2..c4be4ba 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -408,6 +408,11 @@ func (ce *CtrlEngine) getID(c *cli.Context) string {
 }
 
 func checkDelayArgs(c *cli.Context) error {
+	for _, name := range []string{"mindelay", "maxdelay"} {
+		if int64(c.Int(name)) != int64(int32(c.Int(name))) {
+			return log.Errorf("--%s is out of range", name)
+		}
+	}
 	if !c.Bool("nodelaycheck") {
 		if c.Int("mindelay") < def.MinMinDelay {
 			return log.Errorf("--mindelay must be at least %d", def.MinMinDelay)
-- 
2.43.0


From 4b6fce1fc31ead2cb439f4ee05cc3cd4d4076b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:28 +0000
Subject: [PATCH 67/88] fix: ctrlengine: the full name of a new contact was
 lost, unknown senders were white listed

---
 ctrlengine/contact.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index a338049..0974441 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -252,16 +252,16 @@ func (ce *CtrlEngine) contactAdd(
 		return err
 	}
 	// check if contact is already known and white listed
-	unmappedID, fullName, contactType, err := ce.msgDB.GetContact(idMapped,
+	unmappedID, prevFullName, prevType, err := ce.msgDB.GetContact(idMapped,
 		contactMapped)
 	if err != nil {
 		return err
 	}
 	if unmappedID != "" {
 		log.Infof("contact already known -> make sure it is white listed")
-		if contactType != msgdb.WhiteList {
-			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
-				msgdb.WhiteList)
+		if prevType != msgdb.WhiteList {
+			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
+				prevFullName, msgdb.WhiteList)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 87e9b385f4ba08636a9335ea615f945ea416ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:14 +0000
Subject: [PATCH 68/88] fix: ctrlengine: contacts blocked before they were
 known were white listed without their keys, a message to them blocked all
 others

---
 ctrlengine/contact.go    | 32 +++++++++++++-------------------
 ctrlengine/ctrlengine.go |  2 +-
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index 0974441..1b4e681 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -257,22 +257,22 @@ func (ce *CtrlEngine) contactAdd(
 	if err != nil {
 		return err
 	}
-	if unmappedID != "" {
-		log.Infof("contact already known -> make sure it is white listed")
-		if prevType != msgdb.WhiteList {
-			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
-				prevFullName, msgdb.WhiteList)
-			if err != nil {
-				return err
-			}
-		}
+	if unmappedID != "" && prevType == msgdb.WhiteList {
+		log.Infof("contact already known and white listed")
 		return nil
 	}
-	// add new contact
+	// get the keys of the contact (a contact on the black list might have been
+	// added without them)
 	err = mutecryptAddContact(c, ce.passphrase, contactMapped, domain, host, ce.client)
 	if err != nil {
 		return err
 	}
+	if unmappedID != "" {
+		log.Infof("contact already known -> make sure it is white listed")
+		return ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
+			prevFullName, msgdb.WhiteList)
+	}
+	// add new contact
 	log.Info("add contact")
 	return add(ce.msgDB, idMapped, contactMapped, fullName, contactType)
 }
@@ -328,7 +328,7 @@ func (ce *CtrlEngine) contactBlock(id, contact string) error {
 	return add(ce.msgDB, idMapped, contactMapped, "", msgdb.BlackList)
 }
 
-func (ce *CtrlEngine) contactUnblock(id, contact string) error {
+func (ce *CtrlEngine) contactUnblock(id, contact string, c *cli.Context) error {
 	idMapped, err := identity.Map(id)
 	if err != nil {
 		return err
@@ -339,8 +339,7 @@ func (ce *CtrlEngine) contactUnblock(id, contact string) error {
 	}
 
 	// get contact
-	unmappedID, fullName, contactType, err := ce.msgDB.GetContact(idMapped,
-		contactMapped)
+	_, _, contactType, err := ce.msgDB.GetContact(idMapped, contactMapped)
 	if err != nil {
 		return err
 	}
@@ -349,12 +348,7 @@ func (ce *CtrlEngine) contactUnblock(id, contact string) error {
 	}
 
 	// unblock contact (-> white list)
-	err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
-		msgdb.WhiteList)
-	if err != nil {
-		return err
-	}
-	return nil
+	return ce.contactAdd(id, contact, "", "", msgdb.WhiteList, c)
 }
 
 func (ce *CtrlEngine) contactList(outfp io.Writer, id string) error {
diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index c4be4ba..2e05597 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -924,7 +924,7 @@ Tries to register a new user ID with the corresponding key server.
 					},
 					Action: func(c *cli.Context) {
 						ce.err = ce.contactUnblock(ce.getID(c),
-							c.String("contact"))
+							c.String("contact"), c)
 					},
 				},
 				{
-- 
2.43.0


From c563e91da2e690563e64b03075dcc2841e12f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:14 +0000
Subject: [PATCH 69/88] fix: ctrlengine: the token for a message stayed locked
 when creating the envelope failed

---
 ctrlengine/msg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 82eddd5..4314dba 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -301,7 +301,7 @@ func (ce *CtrlEngine) procOutQueue(
 			// parse nymaddress
 			na, err := base64.Decode(nymaddress)
 			if err != nil {
-				return log.Error(na)
+				return log.Error(err)
 			}
 			addr, err := nymaddr.ParseAddress(na)
 			if err != nil {
@@ -318,6 +318,7 @@ func (ce *CtrlEngine) procOutQueue(
 			env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
 				base64.Encode(token.Token), nymaddress)
 			if err != nil {
+				ce.client.UnlockToken(token.Hash)
 				return log.Error(err)
 			}
 			// update outqueue
-- 
2.43.0


From e91b897b87189a17e56c0f73c53da72437151540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:51 +0000
Subject: [PATCH 70/88] fix: ctrlengine: messages got lost when fetching was
 interrupted

---
 ctrlengine/msg.go | 59 +++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 4314dba..03a1471 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -548,6 +548,10 @@ func muteprotoFetch(
 		}
 	}()
 	firstMessage := true
+	var (
+		firstNewID    string // first message ID added to cache
+		lastKnownTime int64  // newest receive time of a known message
+	)
 	cache, err := msgDB.GetMessageIDCache(myID, contactID)
 	if err != nil {
 		return 0, err
@@ -573,24 +577,10 @@ func muteprotoFetch(
 		}
 		messageID := parts[1]
 		log.Debugf("read: MESSAGEID:\t%s", messageID)
-		if cache[messageID] {
-			// message known -> abort fetching messages and remove old IDs from cache
-			log.Debug("write: QUIT")
-			fmt.Fprintln(cmdW, "QUIT")
-			err := msgDB.RemoveMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
-			break
-		} else {
-			// message unknown -> fetch it and add messageID to cache
-			log.Debug("write: NEXT")
-			fmt.Fprintln(cmdW, "NEXT")
-			err := msgDB.AddMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
-		}
+		// The message has to be read even if it is already known: If fetching
+		// was interrupted before, older messages can still be missing.
+		log.Debug("write: NEXT")
+		fmt.Fprintln(cmdW, "NEXT")
 		// read message
 		stop := make(chan uint64)
 		done := make(chan bool)
@@ -640,19 +630,44 @@ func muteprotoFetch(
 
 		stop <- length
 		<-done
-		err = msgDB.AddInQueue(myID, contactID, receiveTime, outbuf.String())
-		if err != nil {
-			return 0, err
-		}
 		if firstMessage {
 			newMessageTime = receiveTime
 			firstMessage = false
 		}
+		if cache[messageID] {
+			log.Debug("message known -> discard")
+			if receiveTime > lastKnownTime {
+				lastKnownTime = receiveTime
+			}
+		} else {
+			// message unknown -> add it to the inqueue and, when this is done,
+			// its messageID to the cache
+			err = msgDB.AddInQueue(myID, contactID, receiveTime, outbuf.String())
+			if err != nil {
+				return 0, err
+			}
+			err = msgDB.AddMessageIDCache(myID, contactID, messageID)
+			if err != nil {
+				return 0, log.Error(err)
+			}
+			cache[messageID] = true
+			if firstNewID == "" {
+				firstNewID = messageID
+			}
+		}
 		outbuf.Reset()
 	}
 	if err := cmd.Wait(); err != nil {
 		return 0, err
 	}
+	if firstNewID != "" && lastKnownTime < newMessageTime {
+		// all messages have been fetched and only the new ones can be listed
+		// again -> remove old IDs from cache
+		err := msgDB.RemoveMessageIDCache(myID, contactID, firstNewID)
+		if err != nil {
+			return 0, log.Error(err)
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 0c96a8973f8fd602fe7a4d2805801b93cded97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:59 +0000
Subject: [PATCH 71/88] fix: ctrlengine: fetching hung when muteproto died in
 the middle of a message

---
 ctrlengine/msg.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 03a1471..09ee547 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -528,15 +528,29 @@ func muteprotoFetch(
 	if err := cmd.Start(); err != nil {
 		return 0, err
 	}
+	defer func() {
+		if err != nil {
+			// do not leave the process behind
+			cmd.Process.Kill()
+			cmd.Wait()
+		}
+	}()
 	var outbuf bytes.Buffer
 	status := bufio.NewReader(stderr)
 	input := make(chan []byte)
+	quit := make(chan bool)
+	defer close(quit)
 	go func() {
+		defer close(input)
 		for {
 			buf := make([]byte, 4096)
 			n, err := stdout.Read(buf)
 			if n > 0 {
-				input <- buf[:n]
+				select {
+				case input <- buf[:n]:
+				case <-quit:
+					return
+				}
 			}
 			if err != nil {
 				if err == io.EOF {
@@ -582,20 +596,31 @@ func muteprotoFetch(
 		log.Debug("write: NEXT")
 		fmt.Fprintln(cmdW, "NEXT")
 		// read message
-		stop := make(chan uint64)
-		done := make(chan bool)
+		stop := make(chan uint64, 1)
+		done := make(chan bool, 1)
 		go func() {
+			in := input
 			for {
 				select {
-				case buf := <-input:
+				case buf, ok := <-in:
+					if !ok {
+						in = nil // no more output
+						continue
+					}
 					outbuf.Write(buf)
 				case length := <-stop:
 					for uint64(outbuf.Len()) < length {
-						buf := <-input
+						buf, ok := <-input
+						if !ok {
+							done <- false
+							return
+						}
 						outbuf.Write(buf)
 					}
 					done <- true
 					return
+				case <-quit:
+					return
 				}
 			}
 		}()
@@ -629,7 +654,9 @@ func muteprotoFetch(
 		log.Debugf("read: RECEIVETIME:\t%d", receiveTime)
 
 		stop <- length
-		<-done
+		if !<-done {
+			return 0, log.Error("ctrlengine: message from muteproto is incomplete")
+		}
 		if firstMessage {
 			newMessageTime = receiveTime
 			firstMessage = false
-- 
2.43.0


From efa67f4e68e758838180da28d22aaee1369f903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 72/88] fix: ctrlengine: a message that could not be decrypted
 blocked all other messages forever

---
 ctrlengine/msg.go | 217 +++++++++++++++++++++++++++++-----------------
 msgdb/inqueue.go  |  13 ++-
 msgdb/msgdb.go    |   2 +-
 3 files changed, 151 insertions(+), 81 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 09ee547..dde3581 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -28,6 +28,7 @@ import (
 	"github.com/mutecomm/mute/mix/nymaddr"
 	"github.com/mutecomm/mute/msg"
 	mimeMsg "github.com/mutecomm/mute/msg/mime"
+	"github.com/mutecomm/mute/msg/session"
 	"github.com/mutecomm/mute/msgdb"
 	"github.com/mutecomm/mute/serviceguard/client"
 	"github.com/mutecomm/mute/uid/identity"
@@ -698,6 +699,28 @@ func muteprotoFetch(
 	return
 }
 
+// undecryptable contains the errors which are raised for messages that can
+// never be decrypted. Matching the error message string is not optimal, but
+// the error results from calling another binary (mutecrypt).
+var undecryptable = []error{
+	msg.ErrNotPreHeader,
+	msg.ErrNotEncryptedHeader,
+	msg.ErrNotCryptoSetup,
+	msg.ErrWrongCryptoSetup,
+	msg.ErrNotEncryptedPacket,
+	msg.ErrNotPaddingPacket,
+	msg.ErrNotSignaturePacket,
+	msg.ErrWrongSignatureLength,
+	msg.ErrInvalidSignature,
+	msg.ErrNotHMACPacket,
+	msg.ErrHMACsDiffer,
+	msg.ErrWrongCount,
+	msg.ErrNotData,
+	msg.ErrReflection,
+	msg.ErrWrongSenderUID,
+	session.ErrMessageKeyUsed,
+}
+
 func mutecryptDecrypt(
 	c *cli.Context,
 	passphrase, enc []byte,
@@ -729,9 +752,8 @@ func mutecryptDecrypt(
 	if err := cmd.Start(); err != nil {
 		return "", "", log.Error(err)
 	}
-	if _, err := stdin.Write(enc); err != nil {
-		return "", "", log.Error(err)
-	}
+	// mutecrypt fails before it has read everything for some messages
+	_, writeErr := stdin.Write(enc)
 	stdin.Close()
 	if err := cmd.Wait(); err != nil {
 		errstr := strings.TrimSpace(errbuf.String())
@@ -741,8 +763,19 @@ func mutecryptDecrypt(
 				"could not decrypt pre-header, message dropped\n")
 			return "", "", nil
 		}
+		for _, e := range undecryptable {
+			if strings.HasSuffix(errstr, e.Error()) {
+				log.Warnf("could not decrypt message (%s), message dropped", e)
+				fmt.Fprintf(statusFP,
+					"could not decrypt message (%s), message dropped\n", e)
+				return "", "", nil
+			}
+		}
 		return "", "", log.Errorf("%s: %s", err, errstr)
 	}
+	if writeErr != nil {
+		return "", "", log.Error(writeErr)
+	}
 	// TODO: parse and process signature!
 	scanner := bufio.NewScanner(&errbuf)
 	if scanner.Scan() {
@@ -764,92 +797,117 @@ func mutecryptDecrypt(
 	return
 }
 
+// decryptEnvelope decrypts the envelope msg for myID and contactID. It returns
+// nil, if the envelope cannot be decrypted or is for another nym.
+func (ce *CtrlEngine) decryptEnvelope(myID, contactID, msg string) ([]byte, error) {
+	privkey, server, secret, _, _, _, err := ce.msgDB.GetAccount(myID, contactID)
+	if err != nil {
+		return nil, err
+	}
+	message, err := base64.Decode(msg)
+	if err != nil {
+		log.Warnf("ctrlengine: cannot decode envelope -> discard message: %s", err)
+		return nil, nil
+	}
+	receiveTemplate := nymaddr.AddressTemplate{
+		Secret: secret[:],
+	}
+	var pubkey [32]byte
+	copy(pubkey[:], privkey[32:])
+	dec, nym, err := mixcrypt.ReceiveFromMix(receiveTemplate,
+		util.MailboxAddress(&pubkey, server), message)
+	if err != nil {
+		log.Warnf("ctrlengine: cannot decrypt envelope -> discard message: %s", err)
+		return nil, nil
+	}
+	if !bytes.Equal(nym, cipher.SHA256([]byte(myID))) {
+		log.Warnf("ctrlengine: hashed nym does not match %s -> discard message", myID)
+		return nil, nil
+	}
+	return dec, nil
+}
+
+// procInQueue processes all messages in the inqueue. A message which cannot
+// be processed stays in the inqueue, but doesn't prevent the processing of the
+// messages after it. The first error is returned.
 func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 	log.Debug("procInQueue()")
+	var (
+		last     int64
+		firstErr error
+	)
 	for {
 		// get message from msgDB
-		iqIdx, myID, contactID, msg, envelope, err := ce.msgDB.GetInQueue()
+		iqIdx, myID, contactID, msg, envelope, err := ce.msgDB.NextInQueue(last)
 		if err != nil {
 			return err
 		}
 		if myID == "" {
 			log.Debug("no more messages in inqueue")
-			break // no more messages in inqueue
+			return firstErr // no more messages in inqueue
 		}
-		if envelope {
-			log.Debugf("decrypt envelope (iqIdx=%d)", iqIdx)
-			// decrypt envelope
-			message, err := base64.Decode(msg)
-			if err != nil {
-				return log.Error(err)
-			}
-			privkey, server, secret, _, _, _, err := ce.msgDB.GetAccount(myID, contactID)
-			if err != nil {
-				return err
-			}
-			receiveTemplate := nymaddr.AddressTemplate{
-				Secret: secret[:],
-			}
-			var pubkey [32]byte
-			copy(pubkey[:], privkey[32:])
-			dec, nym, err := mixcrypt.ReceiveFromMix(receiveTemplate,
-				util.MailboxAddress(&pubkey, server), message)
-			if err != nil {
-				return log.Error(err)
-			}
-			if !bytes.Equal(nym, cipher.SHA256([]byte(myID))) {
-				// discard message
-				log.Warnf("ctrlengine: hashed nym does not match %s -> discard message", myID)
-				if err := ce.msgDB.DelInQueue(iqIdx); err != nil {
-					return err
-				}
-			} else {
-				log.Info("envelope successfully decrypted")
-				err := ce.msgDB.SetInQueue(iqIdx, base64.Encode(dec))
-				if err != nil {
-					return err
-				}
-			}
-		} else {
-			log.Debugf("decrypt message (iqIdx=%d)", iqIdx)
-			senderID, plainMsg, err := mutecryptDecrypt(c, ce.passphrase,
-				[]byte(msg), ce.fileTable.StatusFP)
-			if err != nil {
-				return err
-			}
-			if senderID == "" {
-				// message could not be decrypted, but we do not want to fail
-				if err := ce.msgDB.DelInQueue(iqIdx); err != nil {
-					return err
-				}
-				continue
-			}
-			// check if contact exists
-			contact, _, contactType, err := ce.msgDB.GetContact(myID, senderID)
-			if err != nil {
-				return log.Error(err)
-			}
-			// TODO: we do not have to do request UID message from server
-			// here, but we should use the one contained in the message and
-			// compare it with hash chain entry (doesn't compromise anonymity)
-			var drop bool
-			if contact == "" {
-				err := ce.contactAdd(myID, senderID, "", host, msgdb.GrayList, c)
-				if err != nil {
-					return log.Error(err)
-				}
-			} else if contactType == msgdb.BlackList {
-				// messages from black listed contacts are dropped directly
-				log.Debug("message from black listed contact dropped")
-				drop = true
-			}
-			err = ce.msgDB.RemoveInQueue(iqIdx, plainMsg, senderID, drop)
-			if err != nil {
-				return err
-			}
+		last = iqIdx
+		if err := ce.procInQueueEntry(c, host, iqIdx, myID, contactID, msg,
+			envelope); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+}
+
+// procInQueueEntry processes the message with index iqIdx in the inqueue.
+func (ce *CtrlEngine) procInQueueEntry(
+	c *cli.Context,
+	host string,
+	iqIdx int64,
+	myID, contactID, msg string,
+	envelope bool,
+) error {
+	if envelope {
+		log.Debugf("decrypt envelope (iqIdx=%d)", iqIdx)
+		dec, err := ce.decryptEnvelope(myID, contactID, msg)
+		if err != nil {
+			return err
+		}
+		if dec == nil {
+			// discard message
+			return ce.msgDB.DelInQueue(iqIdx)
+		}
+		log.Info("envelope successfully decrypted")
+		msg = base64.Encode(dec)
+		if err := ce.msgDB.SetInQueue(iqIdx, msg); err != nil {
+			return err
+		}
+	}
+	log.Debugf("decrypt message (iqIdx=%d)", iqIdx)
+	senderID, plainMsg, err := mutecryptDecrypt(c, ce.passphrase,
+		[]byte(msg), ce.fileTable.StatusFP)
+	if err != nil {
+		return err
+	}
+	if senderID == "" {
+		// message could not be decrypted, but we do not want to fail
+		return ce.msgDB.DelInQueue(iqIdx)
+	}
+	// check if contact exists
+	contact, _, contactType, err := ce.msgDB.GetContact(myID, senderID)
+	if err != nil {
+		return log.Error(err)
+	}
+	// TODO: we do not have to do request UID message from server
+	// here, but we should use the one contained in the message and
+	// compare it with hash chain entry (doesn't compromise anonymity)
+	var drop bool
+	if contact == "" {
+		err := ce.contactAdd(myID, senderID, "", host, msgdb.GrayList, c)
+		if err != nil {
+			return log.Error(err)
+		}
+	} else if contactType == msgdb.BlackList {
+		// messages from black listed contacts are dropped directly
+		log.Debug("message from black listed contact dropped")
+		drop = true
+	}
+	return ce.msgDB.RemoveInQueue(iqIdx, plainMsg, senderID, drop)
 }
 
 func (ce *CtrlEngine) msgFetch(
@@ -858,9 +916,10 @@ func (ce *CtrlEngine) msgFetch(
 	all bool,
 	host string,
 ) error {
-	// process old messages in inqueue
+	// process old messages in inqueue (errors are reported in the end, new
+	// messages can be fetched nevertheless)
 	if err := ce.procInQueue(c, host); err != nil {
-		return err
+		log.Warn(err)
 	}
 
 	nyms, err := ce.getNyms(id, all)
diff --git a/msgdb/inqueue.go b/msgdb/inqueue.go
index 9c95dae..ffe4af6 100644
--- a/msgdb/inqueue.go
+++ b/msgdb/inqueue.go
@@ -45,11 +45,22 @@ func (msgDB *MsgDB) GetInQueue() (
 	myID, contactID, msg string,
 	envelope bool,
 	err error,
+) {
+	return msgDB.NextInQueue(0)
+}
+
+// NextInQueue returns the first entry in the inqueue with an index larger than
+// lastIdx.
+func (msgDB *MsgDB) NextInQueue(lastIdx int64) (
+	iqIdx int64,
+	myID, contactID, msg string,
+	envelope bool,
+	err error,
 ) {
 	var mID int64
 	var cID int64
 	var env int64
-	err = msgDB.getInQueueQuery.QueryRow().Scan(&iqIdx, &mID, &cID, &msg, &env)
+	err = msgDB.getInQueueQuery.QueryRow(lastIdx).Scan(&iqIdx, &mID, &cID, &msg, &env)
 	switch {
 	case err == sql.ErrNoRows:
 		return 0, "", "", "", false, nil
diff --git a/msgdb/msgdb.go b/msgdb/msgdb.go
index 9ad846f..06650f6 100644
--- a/msgdb/msgdb.go
+++ b/msgdb/msgdb.go
@@ -195,7 +195,7 @@ CREATE TABLE MessageIDCache(
 	setResendOutQueueQuery      = "UPDATE OutQueue SET Resend=1 WHERE OQIdx=?;"
 	clearResendOutQueueQuery    = "UPDATE OutQueue SET Resend=0 WHERE Self=? AND Resend=1;"
 	addInQueueQuery             = "INSERT INTO InQueue (MyID, ContactID, Date, Msg, Envelope) VALUES (?, ?, ?, ?, 1);"
-	getInQueueQuery             = "SELECT IQIdx, MyID, ContactID, Msg, Envelope FROM InQueue ORDER BY IQIdx ASC LIMIT 1;"
+	getInQueueQuery             = "SELECT IQIdx, MyID, ContactID, Msg, Envelope FROM InQueue WHERE IQIdx>? ORDER BY IQIdx ASC LIMIT 1;"
 	getInQueueIDsQuery          = "SELECT MyID, ContactID, Date FROM InQueue WHERE IQIdx=?;"
 	setInQueueQuery             = "UPDATE InQueue SET Msg=?, Envelope=0 WHERE IQIdx=?;"
 	removeInQueueQuery          = "DELETE FROM InQueue WHERE IQIdx=?;"
-- 
2.43.0


From 28ecdb8048ae6f7de01678f0a327490b7a4a5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:26 +0000
Subject: [PATCH 73/88] fix: keydb: the error for messages that were decrypted
 before was not the one of session.Store, their replays stayed in the inqueue

---
 keydb/session.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keydb/session.go b/keydb/session.go
index ee42d6f..92b4228 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -8,6 +8,7 @@ import (
 	"database/sql"
 
 	"github.com/mutecomm/mute/log"
+	"github.com/mutecomm/mute/msg/session"
 )
 
 // AddSession adds a session for the given sessionKey. A session
@@ -133,7 +134,11 @@ func (keyDB *KeyDB) GetMessageKey(
 	}
 	var key string
 	err = keyDB.getMessageKeyQuery.QueryRow(sessionID, msgIndex, d).Scan(&key)
-	if err != nil {
+	switch {
+	case err == sql.ErrNoRows:
+		// keys are deleted after usage
+		return "", session.ErrMessageKeyUsed
+	case err != nil:
 		return "", err
 	}
 	return key, nil
-- 
2.43.0


From 64b0f44f9f2770e3362566c98b76236310b781ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:26 +0000
Subject: [PATCH 74/88] fix: ctrlengine: messages of unknown senders got lost
 when their keys could not be fetched

---
 ctrlengine/msg.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index dde3581..a2390dc 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -893,12 +893,9 @@ func (ce *CtrlEngine) procInQueueEntry(
 	if err != nil {
 		return log.Error(err)
 	}
-	// TODO: we do not have to do request UID message from server
-	// here, but we should use the one contained in the message and
-	// compare it with hash chain entry (doesn't compromise anonymity)
 	var drop bool
 	if contact == "" {
-		err := ce.contactAdd(myID, senderID, "", host, msgdb.GrayList, c)
+		err := add(ce.msgDB, myID, senderID, "", msgdb.GrayList)
 		if err != nil {
 			return log.Error(err)
 		}
@@ -907,7 +904,28 @@ func (ce *CtrlEngine) procInQueueEntry(
 		log.Debug("message from black listed contact dropped")
 		drop = true
 	}
-	return ce.msgDB.RemoveInQueue(iqIdx, plainMsg, senderID, drop)
+	err = ce.msgDB.RemoveInQueue(iqIdx, plainMsg, senderID, drop)
+	if err != nil {
+		return err
+	}
+	if contact == "" {
+		// The message is stored before the keys of the contact are fetched,
+		// because it cannot be decrypted again. If fetching fails now, it is
+		// done when the contact is white listed.
+		// TODO: we do not have to do request UID message from server
+		// here, but we should use the one contained in the message and
+		// compare it with hash chain entry (doesn't compromise anonymity)
+		_, domain, err := identity.Split(senderID)
+		if err != nil {
+			return log.Error(err)
+		}
+		err = mutecryptAddContact(c, ce.passphrase, senderID, domain, host,
+			ce.client)
+		if err != nil {
+			log.Warnf("ctrlengine: cannot get keys of %s: %s", senderID, err)
+		}
+	}
+	return nil
 }
 
 func (ce *CtrlEngine) msgFetch(
-- 
2.43.0


From 54900c1d42ef4e77ece618e48baa62cc6ed84274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:02 +0000
Subject: [PATCH 75/88] fix: cryptengine: the private key of a published
 key-init message was lost when the server's reply got lost

---
 cryptengine/keyinit.go | 13 ++++++++++---
 keydb/keydb.go         | 15 ++++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index 583fa8e..5219b80 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -49,6 +49,13 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 	if err != nil {
 		return err
 	}
+	// store key init messages before they are published, without their private
+	// keys messages encrypted with them could never be decrypted
+	for i, ki := range kis {
+		if err := ce.keyDB.AddPrivateKeyInit(ki, pubKeyHashes[i], msg.SigPubKey(), privateKeys[i], ""); err != nil {
+			return err
+		}
+	}
 	// call server
 	content := make(map[string]interface{})
 	content["SigPubKey"] = msg.UIDContent.SIGKEY.PUBKEY
@@ -76,10 +83,10 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 			return err
 		}
 	}
-	// store server key init messages and server signatures
-	for i, ki := range kis {
+	// store server signatures
+	for i := range kis {
 		sig := sigs[i].(string) // cast has been checked already above
-		if err := ce.keyDB.AddPrivateKeyInit(ki, pubKeyHashes[i], msg.SigPubKey(), privateKeys[i], sig); err != nil {
+		if err := ce.keyDB.SetPrivateKeyInitSig(pubKeyHashes[i], sig); err != nil {
 			return err
 		}
 	}
diff --git a/keydb/keydb.go b/keydb/keydb.go
index 5e2a4fd..4359f1b 100644
--- a/keydb/keydb.go
+++ b/keydb/keydb.go
@@ -119,6 +119,7 @@ CREATE TABLE SessionKeys (
 	getPrivateIdentitiesQuery = "SELECT DISTINCT IDENTITY FROM PrivateUIDs;"
 	getPrivateUIDQuery        = "SELECT UIDMessage, SIGPRIVKEY, ENCPRIVKEY, UIDMessageReply FROM PrivateUIDs WHERE IDENTITY=? ORDER BY MSGCOUNT DESC;"
 	addPrivateKeyInitQuery    = "INSERT INTO PrivateKeyInits (SIGKEYHASH, PUBKEYHASH, KeyInit, SigPubKey, PRIVKEY, ServerSignature) VALUES (?, ?, ?, ?, ?, ?);"
+	setPrivateKeyInitSigQuery = "UPDATE PrivateKeyInits SET ServerSignature=? WHERE PUBKEYHASH=?;"
 	getPrivateKeyInitQuery    = "SELECT KeyInit, SigPubKey, PRIVKEY FROM PrivateKeyInits WHERE PUBKEYHASH=?;"
 	addPublicKeyInitQuery     = "INSERT INTO PublicKeyInits (SIGKEYHASH, KeyInit) VALUES (?, ?);"
 	getPublicKeyInitQuery     = "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=? ORDER BY ID DESC;"
@@ -162,6 +163,7 @@ type KeyDB struct {
 	getPrivateIdentitiesQuery *sql.Stmt
 	getPrivateUIDQuery        *sql.Stmt
 	addPrivateKeyInitQuery    *sql.Stmt
+	setPrivateKeyInitSigQuery *sql.Stmt
 	getPrivateKeyInitQuery    *sql.Stmt
 	addPublicKeyInitQuery     *sql.Stmt
 	getPublicKeyInitQuery     *sql.Stmt
@@ -267,6 +269,10 @@ func Open(dbname string, passphrase []byte) (*KeyDB, error) {
 		keyDB.encDB.Close()
 		return nil, err
 	}
+	if keyDB.setPrivateKeyInitSigQuery, err = keyDB.encDB.Prepare(setPrivateKeyInitSigQuery); err != nil {
+		keyDB.encDB.Close()
+		return nil, err
+	}
 	if keyDB.getPrivateKeyInitQuery, err = keyDB.encDB.Prepare(getPrivateKeyInitQuery); err != nil {
 		keyDB.encDB.Close()
 		return nil, err
@@ -519,7 +525,7 @@ func (keyDB *KeyDB) GetPrivateUID(
 }
 
 // AddPrivateKeyInit adds a private KeyInit message and the corresponding
-// server signature to keyDB.
+// server signature (empty, if it isn't known yet) to keyDB.
 func (keyDB *KeyDB) AddPrivateKeyInit(
 	ki *uid.KeyInit,
 	pubKeyHash, sigPubKey, privateKey, serverSignature string,
@@ -538,6 +544,13 @@ func (keyDB *KeyDB) AddPrivateKeyInit(
 	return nil
 }
 
+// SetPrivateKeyInitSig sets the server signature of the private KeyInit message
+// with the given pubKeyHash.
+func (keyDB *KeyDB) SetPrivateKeyInitSig(pubKeyHash, serverSignature string) error {
+	_, err := keyDB.setPrivateKeyInitSigQuery.Exec(serverSignature, pubKeyHash)
+	return err
+}
+
 // GetPrivateKeyInit returns the private KeyInit for the given pubKeyHash.
 func (keyDB *KeyDB) GetPrivateKeyInit(
 	pubKeyHash string,
-- 
2.43.0


From f0cfe65fe78879deb06b7b32fb04e5c7aef8d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:29 +0000
Subject: [PATCH 76/88] fix: cryptengine: deleting a user ID left its earlier
 versions

---
 cryptengine/uid.go |  9 ++++-----
 keydb/keydb.go     | 12 ++++++++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 172b215..0111fac 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -164,9 +164,8 @@ func (ce *CryptEngine) deleteUID(pseudonym string, force bool) error {
 		return err
 	}
 
-	// get UID from keyDB
-	msg, _, err := ce.keyDB.GetPrivateUID(id, false)
-	if err != nil {
+	// make sure UID is in keyDB
+	if _, _, err := ce.keyDB.GetPrivateUID(id, false); err != nil {
 		return err
 	}
 
@@ -184,8 +183,8 @@ func (ce *CryptEngine) deleteUID(pseudonym string, force bool) error {
 		}
 	}
 
-	// delete UID from keyDB
-	return ce.keyDB.DelPrivateUID(msg)
+	// delete UID (including all of its updates) from keyDB
+	return ce.keyDB.DelPrivateIdentity(id)
 }
 
 // list UIDs shows all own (mapped) users IDs on outfp.
diff --git a/keydb/keydb.go b/keydb/keydb.go
index 4359f1b..3aa348f 100644
--- a/keydb/keydb.go
+++ b/keydb/keydb.go
@@ -116,6 +116,7 @@ CREATE TABLE SessionKeys (
 	addPrivateUIDQuery        = "INSERT INTO PrivateUIDs (IDENTITY, MSGCOUNT, UIDMessage, SIGPRIVKEY, ENCPRIVKEY, UIDMessageReply) VALUES (?, ?, ?, ?, ?, ?);"
 	addPrivateUIDReplyQuery   = "UPDATE PrivateUIDs SET UIDMessageReply=? WHERE UIDMessage=?;"
 	delPrivateUIDQuery        = "DELETE FROM PrivateUIDs WHERE UIDMessage=?;"
+	delPrivateIdentityQuery   = "DELETE FROM PrivateUIDs WHERE IDENTITY=?;"
 	getPrivateIdentitiesQuery = "SELECT DISTINCT IDENTITY FROM PrivateUIDs;"
 	getPrivateUIDQuery        = "SELECT UIDMessage, SIGPRIVKEY, ENCPRIVKEY, UIDMessageReply FROM PrivateUIDs WHERE IDENTITY=? ORDER BY MSGCOUNT DESC;"
 	addPrivateKeyInitQuery    = "INSERT INTO PrivateKeyInits (SIGKEYHASH, PUBKEYHASH, KeyInit, SigPubKey, PRIVKEY, ServerSignature) VALUES (?, ?, ?, ?, ?, ?);"
@@ -160,6 +161,7 @@ type KeyDB struct {
 	addPrivateUIDQuery        *sql.Stmt
 	addPrivateUIDReplyQuery   *sql.Stmt
 	delPrivateUIDQuery        *sql.Stmt
+	delPrivateIdentityQuery   *sql.Stmt
 	getPrivateIdentitiesQuery *sql.Stmt
 	getPrivateUIDQuery        *sql.Stmt
 	addPrivateKeyInitQuery    *sql.Stmt
@@ -257,6 +259,10 @@ func Open(dbname string, passphrase []byte) (*KeyDB, error) {
 		keyDB.encDB.Close()
 		return nil, err
 	}
+	if keyDB.delPrivateIdentityQuery, err = keyDB.encDB.Prepare(delPrivateIdentityQuery); err != nil {
+		keyDB.encDB.Close()
+		return nil, err
+	}
 	if keyDB.getPrivateIdentitiesQuery, err = keyDB.encDB.Prepare(getPrivateIdentitiesQuery); err != nil {
 		keyDB.encDB.Close()
 		return nil, err
@@ -435,6 +441,12 @@ func (keyDB *KeyDB) DelPrivateUID(msg *uid.Message) error {
 	return nil
 }
 
+// DelPrivateIdentity deletes all UID messages of the given identity from keyDB.
+func (keyDB *KeyDB) DelPrivateIdentity(identity string) error {
+	_, err := keyDB.delPrivateIdentityQuery.Exec(identity)
+	return err
+}
+
 // GetPrivateIdentities returns all private identities from keyDB.
 func (keyDB *KeyDB) GetPrivateIdentities() ([]string, error) {
 	var identities []string
-- 
2.43.0


From 2d567076f03587a598329cf1458248c105fc695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:55 +0000
Subject: [PATCH 77/88] fix: cryptengine: a failed encryption or decryption
 changed the session, it could not be repeated

---
 cryptengine/decrypt.go  |  7 ++++--
 cryptengine/encrypt.go  |  7 ++++--
 cryptengine/keystore.go | 12 +++++++++++
 keydb/atomic.go         | 44 ++++++++++++++++++++++++++++++++++++++
 keydb/keydb.go          |  5 +++--
 keydb/session.go        | 47 +++++++++++++++++------------------------
 keydb/sessionkey.go     |  6 +++---
 keydb/sessionstate.go   |  6 +++---
 8 files changed, 94 insertions(+), 40 deletions(-)
 create mode 100644 keydb/atomic.go

diff --git a/cryptengine/decrypt.go b/cryptengine/decrypt.go
index 4ebb475..0bdbb33 100644
--- a/cryptengine/decrypt.go
+++ b/cryptengine/decrypt.go
@@ -67,9 +67,12 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 		PreHeader:  preHeader,
 		Reader:     r,
 		Rand:       cipher.RandReader,
-		KeyStore:   ce,
 	}
-	senderID, sig, err = msg.Decrypt(args)
+	err = ce.atomic(func(keyStore *CryptEngine) error {
+		args.KeyStore = keyStore
+		senderID, sig, err = msg.Decrypt(args)
+		return err
+	})
 	if err != nil {
 		// TODO: handle msg.ErrStatusError, should trigger a subsequent
 		// encrypted message with StatusError
diff --git a/cryptengine/encrypt.go b/cryptengine/encrypt.go
index 0866dab..07bd804 100644
--- a/cryptengine/encrypt.go
+++ b/cryptengine/encrypt.go
@@ -66,9 +66,12 @@ func (ce *CryptEngine) encrypt(
 		PrivateSigKey:          privateSigKey,
 		Reader:                 r,
 		Rand:                   cipher.RandReader,
-		KeyStore:               ce,
 	}
-	nymAddress, err = msg.Encrypt(args)
+	err = ce.atomic(func(keyStore *CryptEngine) error {
+		args.KeyStore = keyStore
+		nymAddress, err = msg.Encrypt(args)
+		return err
+	})
 	if err != nil {
 		return err
 	}
diff --git a/cryptengine/keystore.go b/cryptengine/keystore.go
index ad98218..9503b03 100644
--- a/cryptengine/keystore.go
+++ b/cryptengine/keystore.go
@@ -8,12 +8,24 @@ import (
 	"database/sql"
 
 	"github.com/mutecomm/mute/encode/base64"
+	"github.com/mutecomm/mute/keydb"
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/msg/session"
 	"github.com/mutecomm/mute/uid"
 	"github.com/mutecomm/mute/util"
 )
 
+// atomic calls f with a keyStore whose changes are stored only if f returns
+// no error. An interrupted encryption or decryption must not change a session,
+// otherwise it could not be repeated.
+func (ce *CryptEngine) atomic(f func(keyStore *CryptEngine) error) error {
+	return ce.keyDB.Atomic(func(txDB *keydb.KeyDB) error {
+		keyStore := *ce
+		keyStore.keyDB = txDB
+		return f(&keyStore)
+	})
+}
+
 // GetSessionState implements corresponding method for msg.KeyStore interface.
 func (ce *CryptEngine) GetSessionState(sessionStateKey string) (
 	*session.State,
diff --git a/keydb/atomic.go b/keydb/atomic.go
new file mode 100644
index 0000000..f7d04d9
--- /dev/null
+++ b/keydb/atomic.go
@@ -0,0 +1,44 @@
+// Copyright (c) 2015 Mute Communications Ltd.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+package keydb
+
+import (
+	"database/sql"
+
+	"github.com/mutecomm/mute/log"
+)
+
+// Atomic calls f with a txDB which makes changes to sessions, message keys,
+// session states, and session keys within a single transaction. If f returns
+// an error none of these changes is stored.
+func (keyDB *KeyDB) Atomic(f func(txDB *KeyDB) error) error {
+	if keyDB.tx != nil {
+		// already within a transaction
+		return f(keyDB)
+	}
+	tx, err := keyDB.encDB.Begin()
+	if err != nil {
+		return log.Error(err)
+	}
+	defer tx.Rollback() // does nothing after a successful commit
+	txDB := *keyDB
+	txDB.tx = tx
+	if err := f(&txDB); err != nil {
+		return err
+	}
+	if err := tx.Commit(); err != nil {
+		return log.Error(err)
+	}
+	return nil
+}
+
+// stmt returns the prepared statement s, within the transaction if there is
+// one.
+func (keyDB *KeyDB) stmt(s *sql.Stmt) *sql.Stmt {
+	if keyDB.tx != nil {
+		return keyDB.tx.Stmt(s)
+	}
+	return s
+}
diff --git a/keydb/keydb.go b/keydb/keydb.go
index 3aa348f..ad41d49 100644
--- a/keydb/keydb.go
+++ b/keydb/keydb.go
@@ -155,6 +155,7 @@ CREATE TABLE SessionKeys (
 // KeyDB is a handle for an encrypted database used to store mute keys.
 type KeyDB struct {
 	encDB                     *sql.DB // handle for encDB
+	tx                        *sql.Tx // set within Atomic
 	updateValueQuery          *sql.Stmt
 	insertValueQuery          *sql.Stmt
 	getValueQuery             *sql.Stmt
@@ -568,7 +569,7 @@ func (keyDB *KeyDB) GetPrivateKeyInit(
 	pubKeyHash string,
 ) (ki *uid.KeyInit, sigPubKey, privKey string, err error) {
 	var json string
-	err = keyDB.getPrivateKeyInitQuery.QueryRow(pubKeyHash).Scan(&json, &sigPubKey, &privKey)
+	err = keyDB.stmt(keyDB.getPrivateKeyInitQuery).QueryRow(pubKeyHash).Scan(&json, &sigPubKey, &privKey)
 	switch {
 	case err != nil:
 		return nil, "", "", log.Error(err)
@@ -594,7 +595,7 @@ func (keyDB *KeyDB) AddPublicKeyInit(ki *uid.KeyInit) error {
 // If no such KeyInit could be found, sql.ErrNoRows is returned.
 func (keyDB *KeyDB) GetPublicKeyInit(sigKeyHash string) (*uid.KeyInit, error) {
 	var json string
-	err := keyDB.getPublicKeyInitQuery.QueryRow(sigKeyHash).Scan(&json)
+	err := keyDB.stmt(keyDB.getPublicKeyInitQuery).QueryRow(sigKeyHash).Scan(&json)
 	switch {
 	case err != nil:
 		return nil, log.Error(err)
diff --git a/keydb/session.go b/keydb/session.go
index 92b4228..fc73aec 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -31,70 +31,61 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error("keydb: len(send) != len(recv)")
 	}
 
-	// start transaction
-	tx, err := keyDB.encDB.Begin()
-	if err != nil {
-		return log.Error(err)
-	}
+	return keyDB.Atomic(func(txDB *KeyDB) error {
+		return txDB.addSession(sessionKey, rootKeyHash, chainKey, send, recv)
+	})
+}
 
+// addSession adds a session within the transaction keyDB.tx.
+func (keyDB *KeyDB) addSession(
+	sessionKey, rootKeyHash, chainKey string,
+	send, recv []string,
+) error {
 	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err := tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		res, err := keyDB.stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
-			tx.Rollback()
 			return log.Error(err)
 		}
 		// get session ID
 		sessionID, err = res.LastInsertId()
 		if err != nil {
-			tx.Rollback()
 			return log.Error(err)
 		}
 	case err != nil:
-		tx.Rollback()
 		return log.Error(err)
 	default:
 		// update session
-		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = keyDB.stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
-			tx.Rollback()
 			return log.Error(err)
 		}
 		// get session ID (LastInsertId is not defined by an UPDATE)
-		err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
+		err = keyDB.stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
 		if err != nil {
-			tx.Rollback()
 			return log.Error(err)
 		}
 	}
 
 	// stores message keys
 	for i := range send {
-		_, err = tx.Stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
+		_, err = keyDB.stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
 			offset+uint64(i), send[i], 1)
 		if err != nil {
-			tx.Rollback()
 			return log.Error(err)
 		}
-		_, err = tx.Stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
+		_, err = keyDB.stmt(keyDB.addMessageKeyQuery).Exec(sessionID,
 			offset+uint64(i), recv[i], 0)
 		if err != nil {
-			tx.Rollback()
 			return log.Error(err)
 		}
 	}
 
-	// commit transaction
-	if err := tx.Commit(); err != nil {
-		tx.Rollback()
-		return log.Error(err)
-	}
-
 	return nil
 }
 
@@ -106,7 +97,7 @@ func (keyDB *KeyDB) GetSession(sessionKey string) (
 	err error,
 ) {
 	var n int64
-	err = keyDB.getSessionQuery.QueryRow(sessionKey).Scan(&rootKeyHash, &chainKey, &n)
+	err = keyDB.stmt(keyDB.getSessionQuery).QueryRow(sessionKey).Scan(&rootKeyHash, &chainKey, &n)
 	switch {
 	case err == sql.ErrNoRows:
 		return "", "", 0, sql.ErrNoRows
@@ -124,7 +115,7 @@ func (keyDB *KeyDB) GetMessageKey(
 	msgIndex uint64,
 ) (string, error) {
 	var sessionID int64
-	err := keyDB.getSessionIDQuery.QueryRow(sessionKey).Scan(&sessionID)
+	err := keyDB.stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
 	if err != nil {
 		return "", err
 	}
@@ -133,7 +124,7 @@ func (keyDB *KeyDB) GetMessageKey(
 		d = 1
 	}
 	var key string
-	err = keyDB.getMessageKeyQuery.QueryRow(sessionID, msgIndex, d).Scan(&key)
+	err = keyDB.stmt(keyDB.getMessageKeyQuery).QueryRow(sessionID, msgIndex, d).Scan(&key)
 	switch {
 	case err == sql.ErrNoRows:
 		// keys are deleted after usage
@@ -151,7 +142,7 @@ func (keyDB *KeyDB) DelMessageKey(
 	msgIndex uint64,
 ) error {
 	var sessionID int64
-	err := keyDB.getSessionIDQuery.QueryRow(sessionKey).Scan(&sessionID)
+	err := keyDB.stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
 	if err != nil {
 		return err
 	}
@@ -159,7 +150,7 @@ func (keyDB *KeyDB) DelMessageKey(
 	if sender {
 		d = 1
 	}
-	_, err = keyDB.delMessageKeyQuery.Exec(sessionID, msgIndex, d)
+	_, err = keyDB.stmt(keyDB.delMessageKeyQuery).Exec(sessionID, msgIndex, d)
 	if err != nil {
 		return err
 	}
diff --git a/keydb/sessionkey.go b/keydb/sessionkey.go
index 9f91485..08861ce 100644
--- a/keydb/sessionkey.go
+++ b/keydb/sessionkey.go
@@ -24,7 +24,7 @@ func (keyDB *KeyDB) AddSessionKey(
 	if privKey == "" {
 		return log.Error("keydb: privKey must be defined")
 	}
-	_, err := keyDB.insertSessionKeyQuery.Exec(hash, json, privKey, cleanupTime)
+	_, err := keyDB.stmt(keyDB.insertSessionKeyQuery).Exec(hash, json, privKey, cleanupTime)
 	if err != nil {
 		return log.Error(err)
 	}
@@ -39,7 +39,7 @@ func (keyDB *KeyDB) GetSessionKey(hash string) (
 	if hash == "" {
 		return "", "", log.Error("keydb: hash must be defined")
 	}
-	err = keyDB.getSessionKeyQuery.QueryRow(hash).Scan(&json, &privKey)
+	err = keyDB.stmt(keyDB.getSessionKeyQuery).QueryRow(hash).Scan(&json, &privKey)
 	switch {
 	case err == sql.ErrNoRows:
 		return "", "", sql.ErrNoRows
@@ -55,7 +55,7 @@ func (keyDB *KeyDB) DelPrivSessionKey(hash string) error {
 	if hash == "" {
 		return log.Error("keydb: hash must be defined")
 	}
-	_, err := keyDB.updateSessionKeyQuery.Exec("", hash)
+	_, err := keyDB.stmt(keyDB.updateSessionKeyQuery).Exec("", hash)
 	if err != nil {
 		return log.Error(err)
 	}
diff --git a/keydb/sessionstate.go b/keydb/sessionstate.go
index 84c7cb4..f9f4670 100644
--- a/keydb/sessionstate.go
+++ b/keydb/sessionstate.go
@@ -31,7 +31,7 @@ func (keyDB *KeyDB) GetSessionState(sessionStateKey string) (
 		nymAddress                  string
 		keyInitSession              int64
 	)
-	err := keyDB.getSessionStateQuery.QueryRow(sessionStateKey).Scan(&senderSessionCount,
+	err := keyDB.stmt(keyDB.getSessionStateQuery).QueryRow(sessionStateKey).Scan(&senderSessionCount,
 		&senderMessageCount, &maxRecipientCount, &recipientTemp,
 		&senderSessionPub, &nextSenderSessionPub, &nextRecipientSessionPubSeen,
 		&nymAddress, &keyInitSession)
@@ -108,7 +108,7 @@ func (keyDB *KeyDB) SetSessionState(
 		kis = 1
 	}
 	res, err :=
-		keyDB.updateSessionStateQuery.Exec(sessionState.SenderSessionCount,
+		keyDB.stmt(keyDB.updateSessionStateQuery).Exec(sessionState.SenderSessionCount,
 			sessionState.SenderMessageCount, sessionState.MaxRecipientCount,
 			sessionState.RecipientTemp.JSON(),
 			sessionState.SenderSessionPub.JSON(), nssp, nrsps,
@@ -121,7 +121,7 @@ func (keyDB *KeyDB) SetSessionState(
 		return log.Error(err)
 	}
 	if nRows == 0 {
-		_, err := keyDB.insertSessionStateQuery.Exec(sessionStateKey,
+		_, err := keyDB.stmt(keyDB.insertSessionStateQuery).Exec(sessionStateKey,
 			sessionState.SenderSessionCount, sessionState.SenderMessageCount,
 			sessionState.MaxRecipientCount, sessionState.RecipientTemp.JSON(),
 			sessionState.SenderSessionPub.JSON(), nssp, nrsps,
-- 
2.43.0


From 7c25580a68ecbe5324f7435adcd46dca7c6fdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:57 +0000
Subject: [PATCH 78/88] fix: cryptengine: crashed for a key server without
 signature keys

---
 cryptengine/keyinit.go | 3 +++
 cryptengine/uid.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index 5219b80..bf969f5 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -49,6 +49,9 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 	if err != nil {
 		return err
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server for '%s' has no signature keys", domain)
+	}
 	// store key init messages before they are published, without their private
 	// keys messages encrypted with them could never be decrypted
 	for i, ki := range kis {
diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 0111fac..b1a98cd 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -86,6 +86,9 @@ func (ce *CryptEngine) registerOrUpdate(
 	if err != nil {
 		return err
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server for '%s' has no signature keys", domain)
+	}
 	// register/update UID with key server
 	content := make(map[string]interface{})
 	content["UIDMessage"] = msg
-- 
2.43.0


From 6908b687f9a3c8397c34c6e3d63b78d81169f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:20 +0000
Subject: [PATCH 79/88] fix: cryptengine: the first user ID message of a key
 server was not checked against its hash chain entry

---
 cryptengine/hashchain.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 9b96a52..14e4f8f 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -368,6 +368,11 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check hash, the first keyserver message has no other protection
+		if !bytes.Equal(cipher.SHA256(uid.JSON()), UIDHash) {
+			return log.Errorf("cryptengine: UIDMessage does not match hash chain entry")
+		}
+
 		// Check identity
 		if uid.Identity() != mappedID {
 			return log.Errorf("cryptengine: UIDMessage is for '%s' instead of '%s'",
@@ -502,6 +507,11 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check hash, the first keyserver message has no other protection
+		if !bytes.Equal(cipher.SHA256(uid.JSON()), UIDHash) {
+			return log.Errorf("cryptengine: UIDMessage does not match hash chain entry")
+		}
+
 		// Check identity
 		if uid.Identity() != mappedID {
 			return log.Errorf("cryptengine: UIDMessage is for '%s' instead of '%s'",
-- 
2.43.0


From 2df13a67d4b4e9a51fa0cf44c26a1c19b57f20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:12 +0000
Subject: [PATCH 80/88] fix: msg: session keys were never renewed again after
 both sides had offered new ones at the same time

---
 msg/decrypt.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 6b8cd9b..616f799 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -312,6 +312,34 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					if err != nil {
 						return "", "", err
 					}
+				} else if h.NextRecipientSessionPubSeen == nil &&
+					ss.NextRecipientSessionPubSeen == nil &&
+					recipient < sender {
+					// both sides set their NextSenderSessionPub before they have
+					// seen the one of the other side -> the 'smaller' side
+					// prepares the upcoming session
+					nextSenderSession, err := getSessionKey(args.KeyStore,
+						ss.NextSenderSessionPub.HASH)
+					if err != nil {
+						return "", "", err
+					}
+					previousRootKeyHash, err := args.KeyStore.GetRootKeyHash(sessionKey)
+					if err != nil {
+						return "", "", err
+					}
+					// root key agreement
+					err = rootKeyAgreementSender(&senderHeaderPub, recipient,
+						sender, nextSenderSession, recipientID,
+						h.NextSenderSessionPub, &h.SenderIdentityPub,
+						previousRootKeyHash, args.NumOfKeys, args.KeyStore)
+					if err != nil {
+						return "", "", err
+					}
+					ss.NextRecipientSessionPubSeen = h.NextSenderSessionPub
+					err = args.KeyStore.SetSessionState(sessionStateKey, ss)
+					if err != nil {
+						return "", "", err
+					}
 				}
 			}
 		} else {
-- 
2.43.0


From 49d9013366c05151255ad09bcd9b84b79ef841f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 81/88] fix: cryptengine: a key server's signature key could be
 replaced without the old key's signature

---
 cryptengine/hashchain.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 14e4f8f..f6455e0 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -255,17 +255,16 @@ func (ce *CryptEngine) verifyServerSig(
 	msgReply *uid.MessageReply,
 	position uint64,
 ) error {
-	// For the first keyserver message we do not need to verify the server signature
-	if uid.Localpart() == "keyserver" && uid.UIDContent.MSGCOUNT == 0 {
-		return nil
-	}
-
 	// Get keyserver UID
 	srvUID, _, found, err := ce.keyDB.GetPublicUID("keyserver@"+uid.Domain(), position)
 	if err != nil {
 		return err
 	}
 	if !found {
+		// For the first keyserver message we do not need to verify the server signature
+		if uid.Localpart() == "keyserver" && uid.UIDContent.MSGCOUNT == 0 {
+			return nil
+		}
 		return log.Errorf("cryptengine: no keyserver signature key found for domain '%s'", uid.Domain())
 	}
 
-- 
2.43.0


From 244767a55cf3a219c2c69c26d4f2e4eb695edfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:42 +0000
Subject: [PATCH 82/88] fix: ctrlengine: a failed 'uid new' could not be
 repeated and left tokens locked

---
 ctrlengine/uid.go | 191 +++++++++++++++++++++-------------------------
 1 file changed, 88 insertions(+), 103 deletions(-)

diff --git a/ctrlengine/uid.go b/ctrlengine/uid.go
index b4d44b6..46eda50 100644
--- a/ctrlengine/uid.go
+++ b/ctrlengine/uid.go
@@ -42,10 +42,14 @@ func decodeED25519PubKeyBase64(p string) (*[ed25519.PublicKeySize]byte, error) {
 	return ret, nil
 }
 
+// mutecryptNewUID generates and registers a user ID and adds a KeyInit message
+// for it. The generation is omitted if the user ID is already contained in the
+// key database (generated) and the registration, if it is already registered.
 func mutecryptNewUID(
 	c *cli.Context,
 	passphrase []byte,
 	id, domain, host, mixaddress, nymaddress string,
+	generated, registered bool,
 	client *client.Client,
 ) error {
 	log.Infof("mutecryptNewUID(): id=%s, domain=%s", id, domain)
@@ -73,23 +77,38 @@ func mutecryptNewUID(
 	if err != nil {
 		return err
 	}
+	defer passphraseReader.Close()
 	cmd.ExtraFiles = append(cmd.ExtraFiles, passphraseReader)
 	commandReader, commandWriter, err := os.Pipe()
 	if err != nil {
+		passphraseWriter.Close()
 		return err
 	}
+	defer commandReader.Close()
+	defer commandWriter.Close() // lets mutecrypt stop in case of an error
 	cmd.ExtraFiles = append(cmd.ExtraFiles, commandReader)
 
-	// generate UID
-	_, err = io.WriteString(commandWriter, strings.Join([]string{
-		"uid", "generate", "--id", id + "\n",
-	}, " "))
-	if err != nil {
-		return err
+	// execute runs a command in mutecrypt
+	execute := func(args ...string) error {
+		_, err := io.WriteString(commandWriter, strings.Join(args, " ")+"\n")
+		if err != nil {
+			return err
+		}
+		if !scanner.Scan() {
+			if err := scanner.Err(); err != nil {
+				return err
+			}
+			return log.Error("ctrlengine: mutecrypt stopped unexpectedly")
+		}
+		if line := scanner.Text(); line != "READY." {
+			return errors.New(line)
+		}
+		return nil
 	}
 
 	// start process
 	if err := cmd.Start(); err != nil {
+		passphraseWriter.Close()
 		return err
 	}
 
@@ -99,21 +118,17 @@ func mutecryptNewUID(
 	defer bzero.Bytes(buf)
 	copy(buf, passphrase)
 	copy(buf[plen:], []byte("\n"))
-	if _, err := passphraseWriter.Write(buf); err != nil {
+	_, err = passphraseWriter.Write(buf)
+	passphraseWriter.Close()
+	if err != nil {
 		return err
 	}
-	passphraseWriter.Close()
 
-	// check for errors on stderr
-	for scanner.Scan() {
-		line := scanner.Text()
-		if line != "READY." {
-			return errors.New(line)
+	// generate UID
+	if !generated {
+		if err := execute("uid", "generate", "--id", id); err != nil {
+			return err
 		}
-		break
-	}
-	if err := scanner.Err(); err != nil {
-		return err
 	}
 
 	// get capabilities
@@ -121,19 +136,7 @@ func mutecryptNewUID(
 	if host := c.String("host"); host != "" {
 		args = append(args, "--host", host)
 	}
-	args = append(args, "\n")
-	_, err = io.WriteString(commandWriter, strings.Join(args, " "))
-	if err != nil {
-		return err
-	}
-	for scanner.Scan() {
-		line := scanner.Text()
-		if line != "READY." {
-			return errors.New(line)
-		}
-		break
-	}
-	if err := scanner.Err(); err != nil {
+	if err := execute(args...); err != nil {
 		return err
 	}
 	var caps capabilities.Capabilities
@@ -154,89 +157,46 @@ func mutecryptNewUID(
 	if err != nil {
 		return err
 	}
-	// get token from wallet
-	token, err := wallet.GetToken(client, "UID", owner)
-	if err != nil {
-		return err
-	}
 
 	// try to register UID
-	_, err = io.WriteString(commandWriter, strings.Join([]string{
-		"uid", "register",
-		"--id", id,
-		"--token", base64.Encode(token.Token) + "\n",
-	}, " "))
-	if err != nil {
-		client.UnlockToken(token.Hash)
-		return err
-	}
-
-	var cryptErr error
-	for scanner.Scan() {
-		line := scanner.Text()
-		if line != "READY." {
-			cryptErr = errors.New(line)
-		} else {
-			break
-		}
-	}
-	if err := scanner.Err(); err != nil {
-		client.UnlockToken(token.Hash)
-		return err
-	}
-
-	// delete UID, if registration was not successful
-	if cryptErr != nil {
-		client.UnlockToken(token.Hash)
-		_, err = io.WriteString(commandWriter, strings.Join([]string{
-			"uid", "delete",
-			"--force",
-			"--id", id + "\n",
-		}, " "))
+	if !registered {
+		// get token from wallet
+		token, err := wallet.GetToken(client, "UID", owner)
 		if err != nil {
 			return err
 		}
-		for scanner.Scan() {
-			line := scanner.Text()
-			if line != "READY." {
-				return errors.New(line)
-			}
-			break
-		}
-		if err := scanner.Err(); err != nil {
+		err = execute("uid", "register",
+			"--id", id,
+			"--token", base64.Encode(token.Token))
+		if err != nil {
+			// The UID is not deleted from the key database: If just the reply
+			// was lost it is registered and its private keys are needed.
+			client.UnlockToken(token.Hash)
 			return err
 		}
-	} else {
 		client.DelToken(token.Hash)
+	} else {
+		// remove KeyInit messages of a previous attempt, they contain nym
+		// addresses of an account we do not know anymore
+		if err := execute("keyinit", "flush", "--id", id); err != nil {
+			return err
+		}
 	}
 
 	// add KeyInit messages
-	token, err = wallet.GetToken(client, "Message", owner)
+	token, err := wallet.GetToken(client, "Message", owner)
 	if err != nil {
 		return err
 	}
-	_, err = io.WriteString(commandWriter, strings.Join([]string{
-		"keyinit", "add",
+	err = execute("keyinit", "add",
 		"--id", id,
 		"--mixaddress", mixaddress,
 		"--nymaddress", nymaddress,
-		"--token", base64.Encode(token.Token) + "\n",
-	}, " "))
+		"--token", base64.Encode(token.Token))
 	if err != nil {
 		client.UnlockToken(token.Hash)
 		return err
 	}
-	for scanner.Scan() {
-		line := scanner.Text()
-		if line != "READY." {
-			return errors.New(line)
-		}
-		break
-	}
-	if err := scanner.Err(); err != nil {
-		client.UnlockToken(token.Hash)
-		return err
-	}
 	client.DelToken(token.Hash)
 
 	// quit mutecrypt
@@ -254,16 +214,36 @@ func mutecryptNewUID(
 		return err
 	}
 
-	if err := cmd.Wait(); err != nil {
-		return err
-	}
+	return cmd.Wait()
+}
 
-	// propagate error
-	if cryptErr != nil {
-		return cryptErr
+// mutecryptGeneratedUID reports if the user ID is contained in the key
+// database.
+func mutecryptGeneratedUID(
+	c *cli.Context,
+	id string,
+	passphrase []byte,
+) (bool, error) {
+	cmd := exec.Command("mutecrypt",
+		"--homedir", c.GlobalString("homedir"),
+		"--loglevel", c.GlobalString("loglevel"),
+		"--logdir", c.GlobalString("logdir"),
+		"uid", "list")
+	var outbuf, errbuf bytes.Buffer
+	cmd.Stdout = &outbuf
+	cmd.Stderr = &errbuf
+	ppR, ppW, err := os.Pipe()
+	if err != nil {
+		return false, err
 	}
-
-	return nil
+	defer ppR.Close()
+	ppW.Write(passphrase)
+	ppW.Close()
+	cmd.ExtraFiles = append(cmd.ExtraFiles, ppR)
+	if err := cmd.Run(); err != nil {
+		return false, log.Errorf("%s: %s", err, strings.TrimSpace(errbuf.String()))
+	}
+	return util.ContainsString(strings.Fields(outbuf.String()), id), nil
 }
 
 func mutecryptHashchainSearch(
@@ -332,8 +312,13 @@ func (ce *CtrlEngine) uidNew(
 	}
 
 	// check that ID has not been registered already by other user
-	err = mutecryptHashchainSearch(c, id, c.String("host"), ce.passphrase)
-	if err == nil {
+	// (but a previous attempt to register it might have been interrupted)
+	generated, err := mutecryptGeneratedUID(c, id, ce.passphrase)
+	if err != nil {
+		return err
+	}
+	registered := mutecryptHashchainSearch(c, id, c.String("host"), ce.passphrase) == nil
+	if registered && !generated {
 		return log.Error(ErrUserIDTaken)
 	}
 
@@ -376,7 +361,7 @@ func (ce *CtrlEngine) uidNew(
 
 	// generate UID
 	err = mutecryptNewUID(c, ce.passphrase, id, domain, host, mixaddress,
-		nymaddress, ce.client)
+		nymaddress, generated, registered, ce.client)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 69f5212278c7147c673e360c9f76df0469595451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:23 +0000
Subject: [PATCH 83/88] fix: ctrlengine: commands of an interactive mutectrl
 --offline went online

---
 ctrlengine/ctrlengine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index 2e05597..6139901 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -372,6 +372,9 @@ func (ce *CtrlEngine) loop(c *cli.Context) {
 			"--logdir", c.GlobalString("logdir"),
 			"--loglevel", c.GlobalString("loglevel"),
 		)
+		if c.GlobalBool("offline") {
+			args = append(args, "--offline")
+		}
 		args = append(args, strings.Fields(ln)...)
 		if err := ce.app.Run(args); err != nil {
 			// command execution failed -> issue status and continue
-- 
2.43.0


From f47c3658af1656bc6811dc7be0f81d3f4c7215ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:24 +0000
Subject: [PATCH 84/88] fix: ctrlengine: an interrupted 'db rekey' could not be
 repeated

---
 ctrlengine/db.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index f1a3719..b2dfeb0 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -286,7 +286,12 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 	// rekey msgDB
 	log.Infof("rekey msgDB '%s'", msgdbname)
 	if err := msgdb.Rekey(msgdbname, oldPassphrase, newPassphrase, c.Int("iterations")); err != nil {
-		return err
+		// a previous rekey might have been interrupted before the keyDB
+		msgDB, e := msgdb.Open(msgdbname, newPassphrase)
+		if e != nil {
+			return err
+		}
+		msgDB.Close()
 	}
 	// rekey keyDB
 	log.Info("rekey keyDB")
-- 
2.43.0


From ac942748149496d56534394deb483657125b4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:42 +0000
Subject: [PATCH 85/88] fix: ctrlengine: 'db vacuum' failed because it called
 mutecrypt with an unknown option

---
 ctrlengine/db.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index b2dfeb0..be04556 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -340,20 +340,14 @@ func (ce *CtrlEngine) dbStatus(c *cli.Context, w io.Writer) error {
 	return nil
 }
 
-func mutecryptDBVacuum(
-	c *cli.Context,
-	passphrase []byte,
-	autoVacuumMode string,
-) error {
+// mutecryptDBVacuum always uses auto_vacuum mode FULL.
+func mutecryptDBVacuum(c *cli.Context, passphrase []byte) error {
 	args := []string{
 		"--homedir", c.GlobalString("homedir"),
 		"--loglevel", c.GlobalString("loglevel"),
 		"--logdir", c.GlobalString("logdir"),
 		"db", "vacuum",
 	}
-	if autoVacuumMode != "" {
-		args = append(args, "--auto-vacuum", autoVacuumMode)
-	}
 	cmd := exec.Command("mutecrypt", args...)
 	var errbuf bytes.Buffer
 	cmd.Stderr = &errbuf
@@ -378,7 +372,7 @@ func (ce *CtrlEngine) dbVacuum(c *cli.Context, autoVacuumMode string) error {
 	if err := ce.msgDB.Vacuum(autoVacuumMode); err != nil {
 		return err
 	}
-	if err := mutecryptDBVacuum(c, ce.passphrase, autoVacuumMode); err != nil {
+	if err := mutecryptDBVacuum(c, ce.passphrase); err != nil {
 		return log.Error(err)
 	}
 	return nil
-- 
2.43.0


From 7e715971fa4e5bafb38769f801e7d3a2674ec20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:48 +0000
Subject: [PATCH 86/88] fix: ctrlengine, cryptengine: long passphrases were
 overwritten while reading the next one

---
 cryptengine/db.go | 10 +++++-----
 ctrlengine/db.go  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cryptengine/db.go b/cryptengine/db.go
index ec47338..05e45b3 100644
--- a/cryptengine/db.go
+++ b/cryptengine/db.go
@@ -25,7 +25,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	var passphrase []byte
 	defer bzero.Bytes(passphrase)
 	if scanner.Scan() {
-		passphrase = scanner.Bytes()
+		passphrase = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -34,7 +34,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	var passphrase2 []byte
 	defer bzero.Bytes(passphrase2)
 	if scanner.Scan() {
-		passphrase2 = scanner.Bytes()
+		passphrase2 = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -56,7 +56,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var oldPassphrase []byte
 	defer bzero.Bytes(oldPassphrase)
 	if scanner.Scan() {
-		oldPassphrase = scanner.Bytes()
+		oldPassphrase = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -65,7 +65,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var newPassphrase []byte
 	defer bzero.Bytes(newPassphrase)
 	if scanner.Scan() {
-		newPassphrase = scanner.Bytes()
+		newPassphrase = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -74,7 +74,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var newPassphrase2 []byte
 	defer bzero.Bytes(newPassphrase2)
 	if scanner.Scan() {
-		newPassphrase2 = scanner.Bytes()
+		newPassphrase2 = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index be04556..575490d 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -103,7 +103,7 @@ func (ce *CtrlEngine) dbCreate(
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			passphrase = scanner.Bytes()
+			passphrase = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -121,7 +121,7 @@ func (ce *CtrlEngine) dbCreate(
 		}
 	} else {
 		if scanner.Scan() {
-			passphrase2 = scanner.Bytes()
+			passphrase2 = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -237,7 +237,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			oldPassphrase = scanner.Bytes()
+			oldPassphrase = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -255,7 +255,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		}
 	} else {
 		if scanner.Scan() {
-			newPassphrase = scanner.Bytes()
+			newPassphrase = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -273,7 +273,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		}
 	} else {
 		if scanner.Scan() {
-			newPassphrase2 = scanner.Bytes()
+			newPassphrase2 = append([]byte{}, scanner.Bytes()...) // valid until next Scan()
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
-- 
2.43.0


From b92c1d8ed071d50c2ce2bc94aa9783fccaccf4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:16 +0000
Subject: [PATCH 87/88] fix: ctrlengine: an interrupted 'uid new' could leave a
 user ID without account

The name mapping marks a user ID as owned, but it was written before the
account: if 'uid new' failed or was killed in between, then the user ID
could neither be used nor requested again. Write both in one transaction.
---
 ctrlengine/uid.go | 12 ++++------
 msgdb/nyms.go     | 58 ++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/ctrlengine/uid.go b/ctrlengine/uid.go
index 46eda50..93e40b2 100644
--- a/ctrlengine/uid.go
+++ b/ctrlengine/uid.go
@@ -366,14 +366,10 @@ func (ce *CtrlEngine) uidNew(
 		return err
 	}
 
-	// save name mapping
-	if err := ce.msgDB.AddNym(id, unmapped, c.String("full-name")); err != nil {
-		return err
-	}
-
-	// register account for UID
-	err = ce.msgDB.AddAccount(id, "", &privkey, server, &secret,
-		minDelay, maxDelay)
+	// save name mapping and account for UID (together, because the name mapping
+	// marks the UID as owned)
+	err = ce.msgDB.AddNymAccount(id, unmapped, c.String("full-name"), &privkey,
+		server, &secret, minDelay, maxDelay)
 	if err != nil {
 		return err
 	}
diff --git a/msgdb/nyms.go b/msgdb/nyms.go
index c47ee56..82d49c0 100644
--- a/msgdb/nyms.go
+++ b/msgdb/nyms.go
@@ -5,15 +5,17 @@
 package msgdb
 
 import (
+	"crypto/ed25519"
 	"database/sql"
 
+	"github.com/mutecomm/mute/encode/base64"
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/uid/identity"
 )
 
-// AddNym adds or updates a mapping from a mapped ID to an unmapped ID and
-// full name.
-func (msgDB *MsgDB) AddNym(mappedID, unmappedID, fullName string) error {
+// checkNym makes sure that mappedID and unmappedID are defined, well-formed,
+// and fit together.
+func checkNym(mappedID, unmappedID string) error {
 	if mappedID == "" {
 		return log.Error("msgdb: mappedID must be defined")
 	}
@@ -32,6 +34,15 @@ func (msgDB *MsgDB) AddNym(mappedID, unmappedID, fullName string) error {
 	if mID != mappedID {
 		return log.Errorf("msgdb: identity.Map(%s) != %s", unmappedID, mappedID)
 	}
+	return nil
+}
+
+// AddNym adds or updates a mapping from a mapped ID to an unmapped ID and
+// full name.
+func (msgDB *MsgDB) AddNym(mappedID, unmappedID, fullName string) error {
+	if err := checkNym(mappedID, unmappedID); err != nil {
+		return err
+	}
 	// fullName can be empty
 	res, err := msgDB.updateNymQuery.Exec(unmappedID, fullName, mappedID)
 	if err != nil {
@@ -50,6 +61,47 @@ func (msgDB *MsgDB) AddNym(mappedID, unmappedID, fullName string) error {
 	return nil
 }
 
+// AddNymAccount adds a new mapping from a mapped ID to an unmapped ID and full
+// name together with the account for mapped ID: either both or none are added.
+func (msgDB *MsgDB) AddNymAccount(
+	mappedID, unmappedID, fullName string,
+	privkey *[ed25519.PrivateKeySize]byte,
+	server string,
+	secret *[64]byte,
+	minDelay, maxDelay int32,
+) error {
+	if err := checkNym(mappedID, unmappedID); err != nil {
+		return err
+	}
+	tx, err := msgDB.encDB.Begin()
+	if err != nil {
+		return log.Error(err)
+	}
+	// fullName can be empty
+	res, err := tx.Stmt(msgDB.insertNymQuery).Exec(mappedID, unmappedID, fullName)
+	if err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	mID, err := res.LastInsertId()
+	if err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	_, err = tx.Stmt(msgDB.addAccountQuery).Exec(mID, 0,
+		base64.Encode(privkey[:]), server, base64.Encode(secret[:]), minDelay,
+		maxDelay, 0, 0)
+	if err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	if err := tx.Commit(); err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	return nil
+}
+
 // GetNym gets the unmapped ID and (full) name for a mapped ID.
 func (msgDB *MsgDB) GetNym(mappedID string) (
 	unmappedID, fullName string,
-- 
2.43.0


From ad7051330e55d98a9e3272567bf648cf2fa261ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:07 +0000
Subject: [PATCH 88/88] fix: serviceguard/client: a token that could not be
 read stayed locked

GetToken and GetAndLockToken lock a token before they read it. If reading
fails the token is not handed out, so nobody could unlock it.
---
 serviceguard/client/clientlib.go         | 1 +
 serviceguard/client/walletstore/store.go | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index ef4381c..bc84600 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -227,6 +227,7 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 		}
 		retToken, err = c.walletStore.GetToken(tokenHash, lockID)
 		if err != nil {
+			c.UnlockToken(tokenHash) // it is not handed out
 			c.LastError = err
 			return nil, ErrFatal
 		}
diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index ec00616..a37444e 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -435,7 +435,12 @@ func (ws *Storage) getAndLockToken(usage string, owner *[ed25519.PublicKeySize]b
 	if lockID <= 0 {
 		return nil, client.ErrLocked
 	}
-	return ws.GetToken(tokenHash, lockID)
+	token, err := ws.GetToken(tokenHash, lockID)
+	if err != nil {
+		ws.UnlockToken(tokenHash) // it is not handed out
+		return nil, err
+	}
+	return token, nil
 }
 
 // FindToken finds a token owned by self that has usage set
-- 
2.43.0

