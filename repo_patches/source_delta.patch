From 7e0a98b4a26ad744c34b55af915e94b5890db67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 01/59] fix: accept ED25519 key entries in KeyEntry.Verify
 (typo in function name)

---
 uid/keyentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uid/keyentry.go b/uid/keyentry.go
index b8dfe8d..b92b9fd 100644
--- a/uid/keyentry.go
+++ b/uid/keyentry.go
@@ -65,7 +65,7 @@ func (ke *KeyEntry) Verify() error {
 		return log.Errorf("uid: unknown ke.CIPHERSUITE: %s", ke.CIPHERSUITE)
 	}
 	// verify FUNCTION
-	if ke.FUNCTION != "ED25510" && ke.FUNCTION != "ECDHE25519" {
+	if ke.FUNCTION != "ED25519" && ke.FUNCTION != "ECDHE25519" {
 		return log.Errorf("uid: unknown ke.FUNCTION: %s", ke.FUNCTION)
 	}
 	// verify HASH
-- 
2.43.0


From 56e198378333ecda74fdd2c44fece75275665504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 02/59] fix: compare a nil key entry with a non-nil one without
 a panic

---
 uid/keyentry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uid/keyentry.go b/uid/keyentry.go
index b92b9fd..2164015 100644
--- a/uid/keyentry.go
+++ b/uid/keyentry.go
@@ -43,6 +43,9 @@ func KeyEntryEqual(a, b *KeyEntry) bool {
 	if a == b {
 		return true
 	}
+	if a == nil || b == nil {
+		return false
+	}
 	if a.CIPHERSUITE != b.CIPHERSUITE {
 		return false
 	}
-- 
2.43.0


From c4a6825a8be91904befad012d1ad85c0ac300fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 03/59] fix: compare a nil session state with a non-nil one
 without a panic

---
 msg/session/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msg/session/session.go b/msg/session/session.go
index 8a3dd6a..86cd821 100644
--- a/msg/session/session.go
+++ b/msg/session/session.go
@@ -29,6 +29,9 @@ func StateEqual(a, b *State) bool {
 	if a == b {
 		return true
 	}
+	if a == nil || b == nil {
+		return false
+	}
 	if a.SenderSessionCount != b.SenderSessionCount {
 		return false
 	}
-- 
2.43.0


From 42434b53d2528b733ee91e8b404f59029148b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 04/59] fix: compare the message of a key server reply with the
 message sent

---
 uid/uid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uid/uid.go b/uid/uid.go
index 21c0be6..6ebb9fc 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -639,14 +639,14 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 func (reply *MessageReply) VerifySrvSig(msg *Message, srvPubKey string) error {
 	// make sure messages match
 	UIDHash, UIDIndex, _ := msg.Encrypt()
-	idx, msg, err := reply.Decrypt(UIDHash)
+	idx, replyMsg, err := reply.Decrypt(UIDHash)
 	if err != nil {
 		return err
 	}
 	if !bytes.Equal(idx, UIDIndex) {
 		return log.Error(ErrMsgMismatch)
 	}
-	if !bytes.Equal(msg.JSON(), msg.JSON()) {
+	if !bytes.Equal(replyMsg.JSON(), msg.JSON()) {
 		return log.Error(ErrMsgMismatch)
 	}
 	// verify server signature
-- 
2.43.0


From 902ccb16c838062833856f1fce3da8a716652d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 05/59] fix: reject a key server reply with a truncated
 encrypted message instead of panicking

---
 uid/errors.go | 4 ++++
 uid/uid.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/uid/errors.go b/uid/errors.go
index 0f9e7ea..e44d6d1 100644
--- a/uid/errors.go
+++ b/uid/errors.go
@@ -28,6 +28,10 @@ var ErrInvalidNonceSig = errors.New("uid: nonce signature invalid")
 // match the original UIDMessage.
 var ErrMsgMismatch = errors.New("uid: UIDMessageReply from key server doesn't match original UIDMessage")
 
+// ErrReplyTooShort is raised when the encrypted UIDMessage in a
+// UIDMessageReply is too short.
+var ErrReplyTooShort = errors.New("uid: encrypted UIDMessage in UIDMessageReply is too short")
+
 // ErrInvalidSrvSig is raised when the server-signature of an UID message
 // reply is invalid.
 var ErrInvalidSrvSig = errors.New("uid: server-signature invalid (keyserver keys up-to-date?)")
diff --git a/uid/uid.go b/uid/uid.go
index 6ebb9fc..b5ee9ce 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -8,6 +8,7 @@ package uid
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/sha256"
 	"encoding/json"
 	"io"
@@ -625,6 +626,9 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 	if err != nil {
 		return nil, nil, log.Error(err)
 	}
+	if len(UIDMessageEncrypted) < sha256.Size+aes.BlockSize {
+		return nil, nil, log.Error(ErrReplyTooShort)
+	}
 	UIDIndex := UIDMessageEncrypted[:sha256.Size]
 	enc := UIDMessageEncrypted[sha256.Size:]
 	Message := aes256.CTRDecrypt(UIDHash, enc)
-- 
2.43.0


From 4b7828ec7e65a450718c92b80be6a0e3f7c7ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 06/59] fix: reject a truncated session anchor instead of
 panicking

---
 uid/keyinit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 7e0f831..5df49aa 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -5,6 +5,7 @@
 package uid
 
 import (
+	"crypto/aes"
 	"encoding/json"
 	"io"
 
@@ -127,6 +128,10 @@ func (ki *KeyInit) SessionAnchor(sigPubKey string) (*SessionAnchor, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(enc) < aes.BlockSize {
+		log.Error(ErrSessionAnchor)
+		return nil, ErrSessionAnchor
+	}
 	txt := aes256.CTRDecrypt(keyHash[:32], enc)
 	var sa SessionAnchor
 	if err := json.Unmarshal(txt, &sa); err != nil {
-- 
2.43.0


From 86708f225b00d2922f10ae1a1ad1223ec1ba2105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 07/59] fix: reject a public key of the wrong length when
 verifying KeyInit signatures

---
 uid/keyinit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 5df49aa..8407af2 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -206,7 +206,9 @@ func (ki *KeyInit) Verify(keyInitRepositoryURIs []string, sigPubKey string) erro
 		return err
 	}
 	// create ed25519 key
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify self-signature
 	if !ed25519Key.Verify(ki.Contents.json(), sig) {
 		log.Error(ErrInvalidKeyInitSig)
@@ -234,7 +236,9 @@ func (ki *KeyInit) VerifySrvSig(signature, srvPubKey string) error {
 	if err != nil {
 		return err
 	}
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify server-signature
 	if !ed25519Key.Verify(ki.JSON(), sig) {
 		log.Error(ErrInvalidSrvSig)
-- 
2.43.0


From f9d3eeae1c9e7c6c249de7f0362b8751cda65ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 08/59] fix: accept a zero-value CHAINLINK in the version 1.0
 check

---
 uid/uid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uid/uid.go b/uid/uid.go
index b5ee9ce..8a020b9 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -235,7 +235,7 @@ func (msg *Message) checkV1_0() error {
 
 	// UIDContent.CHAINLINK must be zero-value
 	if msg.UIDContent.CHAINLINK != nil {
-		if !reflect.DeepEqual(msg.UIDContent.CHAINLINK, chainlink{}) {
+		if !reflect.DeepEqual(*msg.UIDContent.CHAINLINK, chainlink{}) {
 			return log.Error("uid: UIDContent.CHAINLINK must be zero-value")
 		}
 	}
-- 
2.43.0


From 7a2108ad5fabc71822c34cd745c9e7f812711df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 09/59] fix: do not let the message counter of a UID message
 wrap around to zero

---
 uid/uid.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uid/uid.go b/uid/uid.go
index 8a020b9..0b2ad0e 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -466,7 +466,8 @@ func (msg *Message) VerifySelfSig() error {
 func (msg *Message) VerifyUserSig(preMsg *Message) error {
 	var ed25519Key cipher.Ed25519Key
 	// check message counter
-	if preMsg.UIDContent.MSGCOUNT+1 != msg.UIDContent.MSGCOUNT {
+	if msg.UIDContent.MSGCOUNT == 0 ||
+		preMsg.UIDContent.MSGCOUNT+1 != msg.UIDContent.MSGCOUNT {
 		return log.Error(ErrIncrement)
 	}
 	// get content
-- 
2.43.0


From e10d285dc0d988bc80c2558b6491bf3f616e03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 10/59] fix: reject a message whose sender UID does not belong
 to the authenticated sender key

The header of a message names the sender identity and its key, and carries
the UID message of the sender. Nothing compared them, so that the returned
sender and a verified signature could belong to somebody other than the owner
of the key the message was authenticated with.
---
 msg/decrypt.go |  5 +++++
 msg/errors.go  |  4 ++++
 msg/header.go  | 13 +++++++++++++
 msg/procuid.go |  5 +++++
 4 files changed, 27 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 4cdb27f..66c7494 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -541,6 +541,11 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		return "", "", uidRes.err
 	}
 
+	// the sender named in the header must be the one of the sender UID
+	if err := h.verifySenderUID(uidRes.msg); err != nil {
+		return "", "", err
+	}
+
 	// verify signature, if necessary
 	if contentHash != nil {
 		if !ed25519.Verify(uidRes.msg.PublicSigKey32()[:], contentHash, sigBuf[:]) {
diff --git a/msg/errors.go b/msg/errors.go
index 1a487f8..65cb625 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -56,5 +56,9 @@ var ErrNotData = errors.New("msg: expected inner data header")
 // ErrReflection is raised when a possible reflection attack has been detected.
 var ErrReflection = errors.New("msg: reflection attack detected")
 
+// ErrWrongSenderUID is raised when the sender UID in a header does not belong
+// to the sender identity or the sender identity key of that header.
+var ErrWrongSenderUID = errors.New("msg: sender UID does not match sender")
+
 // ErrStatusError is raised when a decryption operation lead to a StatusCode StatusError.
 var ErrStatusError = errors.New("msg: StatusCode == StatusError")
diff --git a/msg/header.go b/msg/header.go
index 29f00c5..53980ce 100644
--- a/msg/header.go
+++ b/msg/header.go
@@ -235,6 +235,19 @@ func readHeader(
 	return identity, &h, nil
 }
 
+// verifySenderUID checks that the given sender UID message belongs to the
+// sender identity and the sender identity key of the header.
+func (h *header) verifySenderUID(uidMsg *uid.Message) error {
+	if uidMsg.Identity() != h.SenderIdentity {
+		return log.Error(ErrWrongSenderUID)
+	}
+	if len(uidMsg.UIDContent.PUBKEYS) == 0 ||
+		!uid.KeyEntryEqual(uidMsg.PubKey(), &h.SenderIdentityPub) {
+		return log.Error(ErrWrongSenderUID)
+	}
+	return nil
+}
+
 // Verify KeyEntry messages in header.
 func (h *header) verify() error {
 	// check h.SenderSessionPub
diff --git a/msg/procuid.go b/msg/procuid.go
index a2bbc8a..808ff0d 100644
--- a/msg/procuid.go
+++ b/msg/procuid.go
@@ -27,6 +27,11 @@ func procUID(senderUID string, res chan *procUIDResult) {
 		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
 		return
 	}
+	// the UID message must be signed by the key it contains
+	if err := r.msg.VerifySelfSig(); err != nil {
+		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
+		return
+	}
 	// return results
 	res <- &r
 }
-- 
2.43.0


From 18dbe5419b1572c4ec4b090143ad1bbb5e544410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 11/59] fix: decrypt a message of a known session when its
 session state is missing

The session is stored before the session state. When the second step fails (or
the program ends in between), every later message of that session made
Decrypt() dereference a nil pointer.
---
 msg/decrypt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 66c7494..a84d698 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -237,7 +237,9 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 	} else { // session known
 		log.Debug("session known")
 		// check if session state reflects that session
-		if h.RecipientTempHash == ss.SenderSessionPub.HASH &&
+		if ss == nil {
+			log.Debug("session state is missing")
+		} else if h.RecipientTempHash == ss.SenderSessionPub.HASH &&
 			h.SenderSessionPub.HASH == ss.RecipientTemp.HASH {
 			log.Debug("session state reflects that session")
 			if h.NextSenderSessionPub != nil {
@@ -369,7 +371,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		}
 		log.Debugf("numOfKeys=%d", numOfKeys)
 		var recipientPub *[32]byte
-		if h.RecipientTempHash == ss.SenderSessionPub.HASH {
+		if ss != nil && h.RecipientTempHash == ss.SenderSessionPub.HASH {
 			recipientPub = ss.SenderSessionPub.PublicKey32()
 		} else {
 			log.Debug("different session")
-- 
2.43.0


From 119e9d8429727013c938231a1c0a51775ab8dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 12/59] fix: reject a configuration public key of the wrong
 length

---
 configclient/sortedmap/map.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/configclient/sortedmap/map.go b/configclient/sortedmap/map.go
index 0456287..bc6a727 100644
--- a/configclient/sortedmap/map.go
+++ b/configclient/sortedmap/map.go
@@ -110,10 +110,11 @@ func (so SortedMap) Sign(signdate uint64, privKey *[ed25519.PrivateKeySize]byte)
 
 // Verify a signature for a SortedMap with the publickey.
 func (so SortedMap) Verify(signdate uint64, publicKey []byte, signature []byte) bool {
-	var pubkey [ed25519.PublicKeySize]byte
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false
+	}
 	sdate := make([]byte, 8)
 	binary.BigEndian.PutUint64(sdate, signdate)
 
-	copy(pubkey[:], publicKey)
-	return ed25519.Verify(pubkey[:], append(so.Image(), sdate...), signature)
+	return ed25519.Verify(publicKey, append(so.Image(), sdate...), signature)
 }
-- 
2.43.0


From 253107a47b526f7a29a577bb3ed2eb6d451a70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 13/59] fix: return an error for a CA certificate that is not
 PEM encoded

---
 configclient/cahash/hash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index f3c436c..453c11c 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -9,11 +9,18 @@ import (
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
+	"errors"
 )
 
+// ErrNoPEM is returned if the certificate is not PEM encoded.
+var ErrNoPEM = errors.New("cahash: certificate is not PEM encoded")
+
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
 	block, _ := pem.Decode(cert)
+	if block == nil {
+		return nil, ErrNoPEM
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From db5e8a873e3173b6230a5e8416e7920527ad5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 14/59] fix: try every server on each configuration update

---
 configclient/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/configclient/client.go b/configclient/client.go
index 8ec5d35..ee28aa1 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -59,6 +59,7 @@ func (c *Config) Update() error {
 	ts := roundrobin.ParseServers(c.URLList)
 	sort.Sort(ts)
 	c.servers = ts.Order()
+	c.curServer = 0
 	if len(c.servers) < 1 {
 		return ErrNoServers
 	}
-- 
2.43.0


From c84c0dd9562cfc38caa7dde6bb5b3a699c17b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 15/59] fix: keep the CA certificate if no server delivers the
 certified one

---
 configclient/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/configclient/client.go b/configclient/client.go
index ee28aa1..6b407bb 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -49,7 +49,7 @@ type Config struct {
 func (c *Config) Update() error {
 	var err error
 	var cert *sortedmap.SignedMap
-	var myCAhash, certHashb []byte
+	var myCAhash, certHashb, caCert []byte
 	var hisHash string
 	var ok bool
 
@@ -96,8 +96,9 @@ GetConfigLoop:
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
 		for ; c.curServer < len(c.servers); c.curServer++ {
-			c.CACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
+			caCert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
 			if err == nil {
+				c.CACert = caCert
 				break CALoop
 			}
 		}
-- 
2.43.0


From 8e3ee5334fb0894de4b6ce937a1e29f37560b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 16/59] fix: keypool.Lookup: take the write lock, a fetched key
 is added to the map

---
 serviceguard/common/keypool/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 80f518b..c1817ca 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -102,8 +102,8 @@ func (kp *KeyPool) HasVerifyKey(key *[ed25519.PublicKeySize]byte, nolock bool) b
 
 // Lookup a public key from keypool.
 func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
-	kp.mapMutex.RLock()
-	defer kp.mapMutex.RUnlock()
+	kp.mapMutex.Lock() // a fetched key is added to the pool
+	defer kp.mapMutex.Unlock()
 	key, err := kp.lookup(keyid)
 	if err == ErrNotFound && kp.FetchKeyCallBack != nil {
 		// Use fetchkey callback
-- 
2.43.0


From e64fa8971093a16058d284237b62caab1cbeeaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 17/59] fix: keypool.Current: renew the key when half of its
 lifetime is over, not after it has expired

---
 serviceguard/common/keypool/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index c1817ca..70ab854 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -164,7 +164,7 @@ func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
 	if kp.currentKey == nil {
 		// Always generate if we dont have one yet
 		generate = true
-	} else if kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2 {
+	} else if kp.currentKey.PublicKey.Expire < times.Now()+kp.Generator.ExpireTime/2 {
 		// Key has half expired, generate new one
 		generate = true
 	}
-- 
2.43.0


From 0c6205d29c9761e9eb8852271c8761745ddf0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 18/59] fix: walletauth.IsReplay: do not panic on short error
 messages, accept every uint64 counter

---
 serviceguard/common/walletauth/walletauth.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 0144fc1..1cd9f39 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/mutecomm/mute/util/times"
 )
@@ -80,11 +81,11 @@ func (token AuthToken) Hash() []byte {
 // update error and LastCounter.
 // If err is no replay error, the original error is returned.
 func IsReplay(err error) (uint64, error) {
-	if err.Error()[:len("ErrReplay: ")] == "ErrReplay: " {
+	if strings.HasPrefix(err.Error(), "ErrReplay: ") {
 		counter := err.Error()[len("ErrReplay: "):]
-		LastCounter, err := strconv.ParseInt(counter, 10, 64)
+		LastCounter, err := strconv.ParseUint(counter, 10, 64)
 		if err == nil {
-			return uint64(LastCounter), ErrReplay
+			return LastCounter, ErrReplay
 		}
 	}
 	return 0, err
-- 
2.43.0


From cd5ef100a5a2bacfab143e1f25bc0d589afff770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 19/59] fix: packetproto.Unblind: refuse undecodable and
 invalid signatures

---
 serviceguard/client/packetproto/methods.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 0eb6da2..83401b0 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -23,6 +23,8 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadSignature signals that the signature of a token does not verify
+	ErrBadSignature = errors.New("client: bad token signature")
 )
 
 var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
@@ -147,15 +149,21 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	}
 	clearMessage := jjm.NewClearMessage(token.Hash())
 	blindSig, err := jjm.NewBlindSignature(&pubkey.PublicKey).Unmarshal(signature)
+	if err != nil {
+		return nil, err
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.Curve)
 	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
 	if err != nil {
 		return nil, err
 	}
-	_, err = blindClient.Verify(sig, clearMessage)
+	ok, err := blindClient.Verify(sig, clearMessage)
 	if err != nil {
 		return nil, err
 	}
+	if !ok {
+		return nil, ErrBadSignature
+	}
 	t := sig.(jjm.ClearSignature)
 	token.AddSignature(&t)
 	return token.Marshal()
-- 
2.43.0


From 2002eb87553166199929b258491a712b639f4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 20/59] fix: ReissueToken: a negative lock ID means that the
 token is in use

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index a177816..0cd42b0 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -26,7 +26,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	defer onlineGroup.Done()
 	// Lock token against other use
 	lockID := c.LockToken(tokenHash)
-	if lockID == 0 {
+	if lockID <= 0 {
 		c.LastError = ErrLocked
 		return nil, ErrRetry
 	}
-- 
2.43.0


From 5a8e820d8567949961faf401d50066754bfbb275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 21/59] fix: ReissueToken: allocate the key pair of the new
 owner

---
 serviceguard/client/reissue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 0cd42b0..4190014 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -88,6 +88,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				c.LastError = err
 				return nil, ErrFatal
 			}
+			ownerPubkey = new([ed25519.PublicKeySize]byte)
+			ownerPrivkey = new([ed25519.PrivateKeySize]byte)
 			copy(ownerPubkey[:], pk)
 			copy(ownerPrivkey[:], sk)
 			tokenEntry.NewOwnerPrivKey = ownerPrivkey
-- 
2.43.0


From 868682ecf80575c7da3212b9d5d90d4c342d6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 22/59] fix: ReissueToken: delete the old token only after the
 new one is stored

---
 serviceguard/client/reissue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 4190014..edcac55 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -125,7 +125,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		}
 		return nil, ErrRetry
 	}
-	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it's invalid from here
 	// Parse new pubkey and add to keypool
 	signerPubKey, err := new(signkeys.PublicKey).Unmarshal(newPubkey)
 	if err != nil {
@@ -177,5 +176,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	// Delete old token. Not before the new one is stored: its entry has the
+	// blinding factors which are needed to finish an interrupted reissue
+	c.walletStore.DelToken(tokenEntry.Hash)
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From dfd6b89ef2bd53c72cf6029e179496cc1a63a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:24 +0000
Subject: [PATCH 23/59] fix: ReceiveToken: refuse tokens without owner instead
 of panicking

---
 serviceguard/client/receive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index f69dbcf..24c4353 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -16,7 +16,7 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	pubkey, _ := splitKey(c.walletKey)
-	if *tokenEntry.OwnerPubKey != *pubkey {
+	if tokenEntry.OwnerPubKey == nil || *tokenEntry.OwnerPubKey != *pubkey {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
-- 
2.43.0


From 67a30280f5ef1bc2e6f53c3efe6f9737c296d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:24 +0000
Subject: [PATCH 24/59] fix: Verify: report ErrSignatureToken for a bad
 signature

---
 serviceguard/client/verify.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index a1956e9..3207211 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -41,10 +41,14 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	// Verify the signature
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.packetClient.Curve)
 	ok, err := blindClient.Verify(tempSignature, clearMessage)
-	if err != nil || !ok {
+	if err != nil {
 		c.LastError = err
 		return nil, ErrFinal
 	}
+	if !ok {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
 	outputToken = &TokenEntry{
 		Hash:        tokenUnmarshalled.Hash(),
 		Token:       inputToken,
-- 
2.43.0


From 9a11266337d1d1e55cae33784a98030f718e188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:46 +0000
Subject: [PATCH 25/59] fix: keylookup.GetKey: refuse a key that is not the
 requested one

---
 serviceguard/client/keylookup/impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 7dd6d00..5b9746c 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -25,6 +25,8 @@ var (
 	ErrParams = errors.New("keylookup: bad RPC parameters")
 	// ErrBadSignature signals that a packet signature did not verify
 	ErrBadSignature = errors.New("keylookup: bad signature")
+	// ErrWrongKey is returned if the server returned another key than requested
+	ErrWrongKey = errors.New("keylookup: wrong key returned")
 )
 
 // DefaultClientFactory is the default factory for new clients
@@ -61,6 +63,9 @@ func (klc LookupClient) GetKey(keyid *[signkeys.KeyIDSize]byte) (*signkeys.Publi
 	if err != nil {
 		return nil, err
 	}
+	if loadKey.KeyID != *keyid {
+		return nil, ErrWrongKey
+	}
 	return loadKey, nil
 }
 
-- 
2.43.0


From 56f90af1afdc26c4d4ff19361ee3d6ef8c8b07c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:46 +0000
Subject: [PATCH 26/59] fix: keylookup: replies with fields of another type are
 an error, not a panic

---
 serviceguard/client/keylookup/impl.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 5b9746c..27480b2 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -80,8 +80,8 @@ func (klc LookupClient) getKey(keyid []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Key"]; ok {
-		keyMarshalled, err := base64.StdEncoding.DecodeString(data["Key"].(string))
+	if key, ok := data["Key"].(string); ok {
+		keyMarshalled, err := base64.StdEncoding.DecodeString(key)
 		if err != nil {
 			return nil, err
 		}
@@ -124,16 +124,19 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["PublicKey"]; !ok {
+	pubKeyS, ok := data["PublicKey"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["Signature"]; !ok {
+	signatureS, ok := data["Signature"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["KeyList"]; !ok {
+	keylist, ok := data["KeyList"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	pubKey, err := hex.DecodeString(data["PublicKey"].(string))
+	pubKey, err := hex.DecodeString(pubKeyS)
 	if err != nil {
 		return nil, ErrParams
 	}
@@ -142,12 +145,11 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 		return nil, ErrBadSigner
 	}
 
-	signature, err := hex.DecodeString(data["Signature"].(string))
+	signature, err := hex.DecodeString(signatureS)
 	if err != nil {
 		return nil, ErrParams
 	}
-	keylist := data["KeyList"].(string)
-	ok := ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
+	ok = ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
 	if !ok {
 		return nil, ErrBadSignature
 	}
-- 
2.43.0


From 0b673375e1fab0dc8380e8aed475409ad4c6d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:46 +0000
Subject: [PATCH 27/59] fix: guardrpc: replies with fields of another type are
 an error, not a panic

---
 serviceguard/client/guardrpc/client.go | 32 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/serviceguard/client/guardrpc/client.go b/serviceguard/client/guardrpc/client.go
index 0a8908c..3e6fade 100644
--- a/serviceguard/client/guardrpc/client.go
+++ b/serviceguard/client/guardrpc/client.go
@@ -74,8 +74,8 @@ func (rpc RPCclient) GetParams(pubKey *[ed25519.PublicKeySize]byte) ([]byte, err
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -97,8 +97,8 @@ func (rpc RPCclient) GetParamsInternal(pubKey *[ed25519.PublicKeySize]byte) ([]b
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -120,8 +120,8 @@ func (rpc RPCclient) Spend(pubKey *[ed25519.PublicKeySize]byte, packet []byte) (
 	if err != nil {
 		return false, err
 	}
-	if _, ok := data["Status"]; ok {
-		return data["Status"].(bool), nil
+	if status, ok := data["Status"].(bool); ok {
+		return status, nil
 	}
 	return false, ErrParams
 }
@@ -139,17 +139,19 @@ func (rpc RPCclient) Reissue(pubKey *[ed25519.PublicKeySize]byte, packet []byte)
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	packetS, ok := data["Packet"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	pubkeyS, ok := data["PubkeyUsed"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	retpacket, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	retpacket, err := base64.StdEncoding.DecodeString(packetS)
 	if err != nil {
 		return nil, nil, err
 	}
-	pubkeyUsed, err := base64.StdEncoding.DecodeString(data["PubkeyUsed"].(string))
+	pubkeyUsed, err := base64.StdEncoding.DecodeString(pubkeyS)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -176,17 +178,19 @@ func (rpc RPCclient) Issue(pubKey, owner *[ed25519.PublicKeySize]byte) ([]byte,
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	packetS, ok := data["Packet"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	pubkeyS, ok := data["PubkeyUsed"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	packet, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	packet, err := base64.StdEncoding.DecodeString(packetS)
 	if err != nil {
 		return nil, nil, err
 	}
-	pubkeyUsed, err := base64.StdEncoding.DecodeString(data["PubkeyUsed"].(string))
+	pubkeyUsed, err := base64.StdEncoding.DecodeString(pubkeyS)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From ef08134566134056ebc1207c9ab92dc6c67e0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:46 +0000
Subject: [PATCH 28/59] fix: walletrpc: a reply without PubKeyUsed is an error,
 not a panic

---
 serviceguard/client/walletrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 6c88877..71c503c 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -162,6 +162,9 @@ func (wc WalletClient) getToken(usage string, authtoken []byte) (token, params,
 	if _, ok := data["Params"].(string); !ok {
 		return nil, nil, nil, 0, ErrParams
 	}
+	if _, ok := data["PubKeyUsed"].(string); !ok {
+		return nil, nil, nil, 0, ErrParams
+	}
 	token, err = base64.StdEncoding.DecodeString(data["Token"].(string))
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
-- 
2.43.0


From 3f6e99c73d0cd1f91807b79338eab6ab57d6b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:39 +0000
Subject: [PATCH 29/59] fix: serviceguard client: a received token that could
 not be stored is an error

---
 serviceguard/client/receive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index 24c4353..3261841 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -22,7 +22,11 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 	}
 	retToken, err := c.walletStore.GetToken(tokenEntry.Hash, -1)
 	if err != nil || retToken == nil {
-		c.walletStore.SetToken(*tokenEntry)
+		err = c.walletStore.SetToken(*tokenEntry)
+		if err != nil {
+			c.LastError = err
+			return ErrFatal
+		}
 		return nil
 	}
 	c.LastError = ErrTokenKnown
-- 
2.43.0


From ac3b70d801aefb0a34f624fb4ecf3e18f2e5a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 30/59] fix: serviceguard client: GetToken hid errors of the
 wallet store behind a nil token

---
 serviceguard/client/clientlib.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 729d95e..ea869da 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -166,6 +166,10 @@ func (c *Client) GetVerifyKeys() error {
 func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*TokenEntry, error) {
 	// Check if we have a matching token already
 	retToken, err := c.walletStore.GetAndLockToken(usage, owner)
+	if err != nil && err != ErrNoToken {
+		c.LastError = err
+		return nil, ErrFatal
+	}
 	if err == ErrNoToken {
 		var tokenHash []byte
 		if owner == nil { // We can only get new tokens if we know the recipient
-- 
2.43.0


From bd0472c585df48b36ade6ec1e76102e8e4b080a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 31/59] fix: serviceguard client: a token with a signature
 point off the curve is an error, not a panic

---
 serviceguard/client/verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index 3207211..287d59d 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -32,6 +32,11 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	}
 	// Get data from token, signature first
 	signature := tokenUnmarshalled.GetSignature()
+	if !c.packetClient.Curve.Curve.IsOnCurve(signature.PointR.X, signature.PointR.Y) {
+		// Not a signature, and point arithmetic does not accept it
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
 	tempSignature := jjm.NewClearSignature(&pubkey.PublicKey)
 	tempSignature.PointR = signature.PointR
 	tempSignature.ScalarS = signature.ScalarS
-- 
2.43.0


From cdefdbe97ed088900e7e0461f57f0b110bcfa0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:18 +0000
Subject: [PATCH 32/59] fix: serviceguard client: a token fetched again from
 the wallet server overwrote its interrupted reissue

---
 serviceguard/client/walletserver.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 39f45e4..c785dba 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -69,10 +69,15 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		Usage:        signerPubKey.Usage,
 		Expire:       signerPubKey.Expire,
 	}
-	err = c.walletStore.SetToken(tokenentry) // Cache current state
-	if err != nil {
-		c.LastError = err
-		return nil, ErrFatal
+	// The wallet server repeats itself if it is asked with the same authtoken.
+	// Keep the entry we have: it may contain an interrupted reissue
+	known, err := c.walletStore.GetToken(tokenentry.Hash, -1)
+	if err != nil || known == nil {
+		err = c.walletStore.SetToken(tokenentry) // Cache current state
+		if err != nil {
+			c.LastError = err
+			return nil, ErrFatal
+		}
 	}
 	if owner == nil && renewable == false {
 		return tokenentry.Hash, ErrNeedReissue
-- 
2.43.0


From e4f832805deee04c7bd5483363482303ea958014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:30 +0000
Subject: [PATCH 33/59] fix: packetproto: parameters with a point off the curve
 are an error, not a panic

---
 serviceguard/client/packetproto/methods.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 83401b0..48afeb6 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
 	"github.com/mutecomm/mute/serviceguard/common/token"
 	"github.com/mutecomm/mute/serviceguard/common/types"
+	"github.com/ronperry/cryptoedge/eccutil"
 	"github.com/ronperry/cryptoedge/genericblinding"
 	"github.com/ronperry/cryptoedge/jjm"
 )
@@ -23,6 +24,8 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadParams signals that the parameters contain an invalid point
+	ErrBadParams = errors.New("client: invalid parameters")
 	// ErrBadSignature signals that the signature of a token does not verify
 	ErrBadSignature = errors.New("client: bad token signature")
 )
@@ -31,6 +34,11 @@ var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
 
 // NewToken returns a blinded token ready for signing. Blindmessage goes to server, blindfactors and clear message remain local
 func (c Client) NewToken(issuerPubKey *signkeys.PublicKey, pubParams *jjm.BlindingParamClient, owner *[ed25519.PublicKeySize]byte) (genericblinding.BlindingFactors, genericblinding.BlindMessage, *token.Token, error) {
+	for _, p := range []eccutil.Point{issuerPubKey.PublicKey, pubParams.PointRs1, pubParams.PointRs2} {
+		if !c.Curve.Curve.IsOnCurve(p.X, p.Y) {
+			return nil, nil, nil, ErrBadParams
+		}
+	}
 	newToken := token.New(&issuerPubKey.KeyID, owner)
 	if newToken == nil {
 		return nil, nil, nil, ErrNoToken
-- 
2.43.0


From 62ae794094b5c0fd177653f58238a2ecc8f9739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:35 +0000
Subject: [PATCH 34/59] fix: serviceguard client: a resumed reissue overwrote
 an interrupted reissue of the new token

---
 serviceguard/client/reissue.go      |  2 +-
 serviceguard/client/walletserver.go | 24 +++++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index edcac55..de5888d 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -171,7 +171,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		Usage:        signerPubKey.Usage,
 		Expire:       signerPubKey.Expire,
 	}
-	err = c.walletStore.SetToken(tokenentryNew)
+	err = c.addToken(tokenentryNew)
 	if err != nil {
 		c.LastError = err
 		return nil, ErrFatal
diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index c785dba..f6fc12e 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -69,15 +69,11 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		Usage:        signerPubKey.Usage,
 		Expire:       signerPubKey.Expire,
 	}
-	// The wallet server repeats itself if it is asked with the same authtoken.
-	// Keep the entry we have: it may contain an interrupted reissue
-	known, err := c.walletStore.GetToken(tokenentry.Hash, -1)
-	if err != nil || known == nil {
-		err = c.walletStore.SetToken(tokenentry) // Cache current state
-		if err != nil {
-			c.LastError = err
-			return nil, ErrFatal
-		}
+	// The wallet server repeats itself if it is asked with the same authtoken
+	err = c.addToken(tokenentry) // Cache current state
+	if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
 	}
 	if owner == nil && renewable == false {
 		return tokenentry.Hash, ErrNeedReissue
@@ -125,3 +121,13 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 	c.walletStore.SetAuthToken(nil, 0)
 	return newToken, params, pubkeyUsed, nil
 }
+
+// addToken adds an entry to the wallet store. If there is one already it is
+// kept, it may contain an interrupted reissue.
+func (c *Client) addToken(entry TokenEntry) error {
+	known, err := c.walletStore.GetToken(entry.Hash, -1)
+	if err == nil && known != nil {
+		return nil
+	}
+	return c.walletStore.SetToken(entry)
+}
-- 
2.43.0


From 30d25ef8a5849c5ee2ab0d0bee42839c781b06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:06 +0000
Subject: [PATCH 35/59] fix: token: parts of a wrong length gave one signature
 two meanings

The signed hash does not tell where the nonce ends and the owner begins, so a
token could be made that one reader takes for owned by somebody and another
reader for owned by somebody else.
---
 serviceguard/common/token/types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serviceguard/common/token/types.go b/serviceguard/common/token/types.go
index 4ac5c2e..cead46b 100644
--- a/serviceguard/common/token/types.go
+++ b/serviceguard/common/token/types.go
@@ -9,6 +9,7 @@ import (
 	"crypto/rand"
 	"crypto/sha256"
 	"encoding/asn1"
+	"errors"
 	"io"
 	"math/big"
 
@@ -27,6 +28,9 @@ const (
 	OwnerSize = ed25519.PublicKeySize
 )
 
+// ErrBadToken is returned if an encoded token has parts of the wrong length.
+var ErrBadToken = errors.New("token: bad token")
+
 // Rand is the random number source.
 var Rand = rand.Reader
 
@@ -112,6 +116,10 @@ func Unmarshal(d []byte) (*Token, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The hash does not tell where one part ends and the next begins
+	if len(t.KeyID) != KeyIDSize || len(t.Nonce) != NonceSize || len(t.Owner) != OwnerSize {
+		return nil, ErrBadToken
+	}
 	return t, nil
 }
 
-- 
2.43.0


From ba07b36ab264deeadfdab855302b487abc7bb25f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 36/59] fix: mixcrypt: a malformed message crashed the mix that
 received it

A header length of 0xfffe or 0xffff, an empty token or revoke ID, a message of
an unknown type shorter than 256 bytes, and a header longer than 65279 bytes
each ended in a slice out of range.
---
 mix/mixcrypt/clientmix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 85cb65a..880f131 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -64,17 +64,17 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 		cl = new(ClientMixHeader)
 	}
 	lenB := binary.BigEndian.Uint16(d[0:2]) + 2
-	if len(d) < int(lenB) {
+	if lenB < 2 || len(d) < int(lenB) {
 		return nil, lenB, ErrTooShort
 	}
 	_, err = asn1.Unmarshal(d[2:lenB], cl)
 	if err != nil {
 		return nil, lenB, err
 	}
-	if cl.Token[0] == 0x00 && len(cl.Token) == 1 {
+	if len(cl.Token) == 0 || (cl.Token[0] == 0x00 && len(cl.Token) == 1) {
 		cl.Token = nil
 	}
-	if (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
+	if len(cl.RevokeID) == 0 || (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
 		cl.RevokeID = nil
 	}
 	return cl, lenB, nil
@@ -142,7 +142,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		fmt.Println(msgLen)
 		return nil, ErrSize
 	}
-	if rstr.MixHeader.MessageType == MessageTypeForward && (msgLen < ForwardMinSize || msgLen > ForwardMaxSize) {
+	if rstr.MixHeader.MessageType != MessageTypeRelay && (msgLen < ForwardMinSize || msgLen > ForwardMaxSize) {
 		return nil, ErrSize
 	}
 	// Uniqueness data collection
@@ -158,7 +158,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		// First 256byte of message
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: rstr.NymAddressPrivate.Expire,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB : int(lenB)+256]), // First 256 byte of message
 		})
 		if rstr.NymAddressPrivate.SingleUse {
 			rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
@@ -169,7 +169,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	} else {
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: timeNow() + ExpireReceive,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB : int(lenB)+256]), // First 256 byte of message
 		})
 	}
 	rstr.Message = decMessage[lenB:]
-- 
2.43.0


From 00d9c839ea12e9b323f7fd6498d1f66c3532aa2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:03:13 +0000
Subject: [PATCH 37/59] fix: mixcrypt: a header too long for its length field
 made an unreadable message

The length was cut to 16 bits without notice; and without random data for the
revoke ID NewRelayMessage crashed.
---
 mix/mixcrypt/clientmix.go | 11 ++++++++++-
 mix/mixcrypt/common.go    |  3 +++
 mix/mixcrypt/mixclient.go |  3 +++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 880f131..4bf593a 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -88,6 +88,9 @@ func (cl *ClientMixHeader) NewForwardMessage(NextHop string, NextHopKey *[KeySiz
 	cl.MessageType = MessageTypeForward
 	cl.Address = []byte(NextHop)
 	header := cl.Marshal()
+	if len(header) > MaxHeaderSize {
+		return nil, "", ErrSize
+	}
 	messageC := make([]byte, len(header)+len(msg))
 	copy(messageC[0:len(header)], header)
 	copy(messageC[len(header):], msg)
@@ -108,9 +111,15 @@ func (cl *ClientMixHeader) NewRelayMessage(NymAddress []byte, msg []byte) (messa
 	copy(NextHopKey[:], address.MixPubKey)
 	cl.MessageType = MessageTypeRelay
 	cl.Address = NymAddress
-	revokeID, _ := genNonce()
+	revokeID, err := genNonce()
+	if err != nil {
+		return nil, "", err
+	}
 	cl.RevokeID = revokeID[:]
 	header := cl.Marshal()
+	if len(header) > MaxHeaderSize {
+		return nil, "", ErrSize
+	}
 	messageC := make([]byte, len(header)+len(msg))
 	copy(messageC[0:len(header)], header)
 	copy(messageC[len(header):], msg)
diff --git a/mix/mixcrypt/common.go b/mix/mixcrypt/common.go
index 5cb7caf..77a9497 100644
--- a/mix/mixcrypt/common.go
+++ b/mix/mixcrypt/common.go
@@ -44,6 +44,9 @@ var Rand = rand.Reader
 // time source, for debugging
 var timeNow = func() int64 { return times.Now() }
 
+// MaxHeaderSize is the maximum size of a message header, with its length
+const MaxHeaderSize = 65535
+
 // KeySize is the size of a public/private key.
 const KeySize = 32
 
diff --git a/mix/mixcrypt/mixclient.go b/mix/mixcrypt/mixclient.go
index a5dad09..d1bb533 100644
--- a/mix/mixcrypt/mixclient.go
+++ b/mix/mixcrypt/mixclient.go
@@ -26,6 +26,9 @@ func (rs ReceiveStruct) sendRelay() ([]byte, string, error) {
 		return nil, "", err
 	}
 	headerLen := len(headerContent)
+	if headerLen > MaxHeaderSize {
+		return nil, "", ErrSize
+	}
 	header := make([]byte, headerLen+2)
 	binary.BigEndian.PutUint16(header[0:2], uint16(headerLen))
 	copy(header[2:], headerContent)
-- 
2.43.0


From e4c01b10ee2b4170ab21d2042691f425546630ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:03:13 +0000
Subject: [PATCH 38/59] fix: mixcrypt: an expired nymaddress was relayed if its
 public part was changed

The public part of a nymaddress is not protected. A sender who writes a later
expiry into it could use the address after its owner let it expire, when the
mix need not know any longer that a single use address has been used.
---
 mix/mixcrypt/clientmix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 4bf593a..5de7496 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -164,6 +164,9 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		if err != nil {
 			return nil, err
 		}
+		if rstr.NymAddressPrivate.Expire < timeNow() {
+			return nil, nymaddr.ErrExpired // The public part can be changed by anybody
+		}
 		// First 256byte of message
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: rstr.NymAddressPrivate.Expire,
-- 
2.43.0


From 3f679962cc6d2b4a339a6c8270523c5bdfe27765 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:37:16 +0000
Subject: [PATCH 39/59] fix: mix/client: a pay call goes to the server the
 caller knows

payAccount compared its (still empty) named result instead of the
serverKnown argument, so that an existing account was never extended on its
own server: every call went to the default server.
---
 mix/client/accountrpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index edb2772..437a146 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -49,8 +49,8 @@ func payAccount(authtoken, paytoken []byte, serverKnown string, cacert []byte) (
 	var ok bool
 	method := "AccountServer.LoadAccount"
 	url := DefaultAccountServer
-	if server != "" {
-		url = server
+	if serverKnown != "" {
+		url = serverKnown
 	}
 	url = "https://" + url + ":" + RPCPort + "/account"
 	client, err := DefaultClientFactory(url, cacert)
-- 
2.43.0


From 05992d61d97c9143b3e31c2dbec52d3dc32ca82c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:37:16 +0000
Subject: [PATCH 40/59] fix: mix/client: a malformed message list is an error,
 not a panic or a shorter list

An entry that is not an object made listMessages panic, and the error of a
bad hex string was assigned to a shadowed variable, so that the messages
before it were returned as the whole list without an error.
---
 mix/client/accountrpc.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index 437a146..e3f958c 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -252,43 +252,40 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 	}
 	if len(messagesI) > 0 {
 		for _, e := range messagesI {
-			x := e.(map[string]interface{})
-
+			x, ok := e.(map[string]interface{})
+			if !ok {
+				return nil, 0, ErrProto
+			}
 			ReceiveTime, ok := x["ReceiveTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReceiveTimeNano, ok := x["ReceiveTimeNano"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReadTime, ok := x["ReadTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uks, ok := x["UserKey"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uk, err := hex.DecodeString(uks)
 			if err != nil {
-				break
+				return nil, 0, err
 			}
 			ukh := new([ed25519.PublicKeySize]byte)
 			copy(ukh[:], uk)
 
 			mis, ok := x["MessageID"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			mi, err := hex.DecodeString(mis)
 			if err != nil {
-				break
+				return nil, 0, err
 			}
 			messages = append(messages, MessageMeta{
 				MessageID:       mi,
@@ -298,9 +295,6 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				UserKey:         *ukh,
 			})
 		}
-		if err != nil {
-			return nil, 0, err
-		}
 	}
 	return messages, 0, nil
 }
-- 
2.43.0


From 45e5ff70561b6351a2b7d260d5e67fad7147735d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:37:30 +0000
Subject: [PATCH 41/59] fix: mix/client: a message that could not be created is
 not reported as already sent

Deliver returned ErrAlreadySent instead of the error of Create (or of
Unmarshal), because neither leaves a message behind.
---
 mix/client/send.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mix/client/send.go b/mix/client/send.go
index e73426a..444f4bd 100644
--- a/mix/client/send.go
+++ b/mix/client/send.go
@@ -94,7 +94,7 @@ func (mo *MessageOutput) Deliver() (messageOut *MessageOutput, err error) {
 		}
 		return mo, mo.Error
 	}
-	if mo.Message == nil {
+	if mo.Message == nil && mo.Error == nil {
 		return mo, ErrAlreadySent
 	}
 	return mo, mo.Error
-- 
2.43.0


From 57093db4d316dfbdac7398765b1ab7c67af18d46 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:37:30 +0000
Subject: [PATCH 42/59] fix: mix/client: a user key of the wrong length in a
 message list is an error

It was cut or filled up with zeros, and listed as a key the server never sent.
---
 mix/client/accountrpc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index e3f958c..bc4b616 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -276,6 +276,9 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 			if err != nil {
 				return nil, 0, err
 			}
+			if len(uk) != ed25519.PublicKeySize {
+				return nil, 0, ErrProto
+			}
 			ukh := new([ed25519.PublicKeySize]byte)
 			copy(ukh[:], uk)
 
-- 
2.43.0


From 88b91728a9cf4fea18b9b049dc85a2ae3e5e3dd8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:37:30 +0000
Subject: [PATCH 43/59] fix: smtpclient: a failing QUIT does not make a
 delivered message undelivered

The server has taken responsibility for the message once it replied to the
end of DATA. An error from QUIT (e.g. the server closing the connection) was
returned nevertheless, so that the message was sent again.
---
 mix/smtpclient/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index d53dd02..2a368a1 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -194,6 +194,7 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		client.Reset()
 		return mc.parseError(err)
 	}
-	err = client.Quit()
-	return mc.parseError(err)
+	// the server has taken the message, sending it again would duplicate it
+	client.Quit()
+	return nil
 }
-- 
2.43.0


From f3ce7410ac4de6a18720b5f88db1800dbe9f1937 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:40:18 +0000
Subject: [PATCH 44/59] fix: mix/client: unmarshalling turned the nil fields of
 a message into empty ones

A message without CA certificate could never be delivered after it was
marshalled: Deliver takes an empty certificate for one that has to be
enforced and fails for good. And a message which was already sent was not
recognised as such, so that Deliver reported success again.
---
 mix/client/send.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mix/client/send.go b/mix/client/send.go
index 444f4bd..1a32aa3 100644
--- a/mix/client/send.go
+++ b/mix/client/send.go
@@ -149,13 +149,18 @@ func (mm MessageMarshalled) Unmarshal() *MessageOutput {
 		mo.Error = err
 		mo.Resend = false
 	}
-	mo.Message = mom.Message
+	// an empty slice is decoded as such, but nil has its own meaning here
+	if len(mom.Message) > 0 {
+		mo.Message = mom.Message
+	}
 	mo.To = mom.To
 	mo.From = mom.From
 	mo.RevokeID = mom.RevokeID
 	mo.SMTPPort = mom.SMTPPort
 	mo.SmartHost = mom.SmartHost
-	mo.CACert = mom.CACert
+	if len(mom.CACert) > 0 {
+		mo.CACert = mom.CACert
+	}
 	mo.Resend = mom.Resend
 	if mom.Error != "" && mom.Error != "nil" {
 		mo.Error = translateError(mom.Error)
-- 
2.43.0


From 0a17da13594ce907ca2f79a9ad6ce340f6f775d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 45/59] fix: cryptengine: a malformed hash chain reply of the
 key server is an error

syncHashChain panicked if a position in the reply was not a number or the
reply contained fewer entries than asked for, and left gaps in the local
hash chain if the reply did not begin at the requested position.
---
 cryptengine/hashchain.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 703ff52..c164672 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -39,7 +39,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch last hash chain entry reply has the wrong type")
 	}
 	// parse hash chain position
-	hcPosFloat := reply["HCPos"].(float64)
+	hcPosFloat, ok := reply["HCPos"].(float64)
 	if !ok {
 		return log.Error("cryptengine: fetch last hash chain position reply has the wrong type")
 	}
@@ -88,11 +88,15 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain entries reply has the wrong type")
 	}
 	// parse first hash chain position
-	hcPosFirstFloat := reply["HCFirstPos"].(float64)
+	hcPosFirstFloat, ok := reply["HCFirstPos"].(float64)
 	if !ok {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
 	hcFirstPos := uint64(hcPosFirstFloat)
+	// make sure we got all the entries we asked for
+	if hcFirstPos != start || uint64(len(hcEntries)) <= hcPos-hcFirstPos {
+		return log.Error("cryptengine: fetch hash chain reply lacks requested entries")
+	}
 	for i := hcFirstPos; i <= hcPos; i++ {
 		entry, ok := hcEntries[i-hcFirstPos].(string)
 		if !ok {
-- 
2.43.0


From 884f2c372a202cfe7cac647f1057261e0e7dcb18 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 46/59] fix: cryptengine: report hash chain entries which could
 not be stored

syncHashChain returned success.
---
 cryptengine/hashchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index c164672..72d4d3c 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -106,7 +106,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
 		if err != nil {
-			return nil
+			return err
 		}
 	}
 
-- 
2.43.0


From e4248348c2919e975fc73e6f157202acc085af84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 47/59] fix: cryptengine: only accept the UIDMessage the hash
 chain entry was made for

The UIDMessage fetched from the key repository could belong to a different
identity (or have no valid identity at all, which lead to a panic). The first
UIDMessage of the key server, which is not covered by the server signature, was
not compared with the hash in the hash chain entry.
---
 cryptengine/hashchain.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 72d4d3c..91e262a 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -359,6 +359,14 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Make sure this is the UIDMessage the hash chain entry was made for
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UIDMessage is not for '%s'", mappedID)
+		}
+		if !bytes.Equal(UIDHash, cipher.SHA256(uid.JSON())) {
+			return log.Error("cryptengine: UIDMessage differs from hash chain entry")
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
@@ -487,6 +495,14 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Make sure this is the UIDMessage the hash chain entry was made for
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UIDMessage is not for '%s'", mappedID)
+		}
+		if !bytes.Equal(UIDHash, cipher.SHA256(uid.JSON())) {
+			return log.Error("cryptengine: UIDMessage differs from hash chain entry")
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
-- 
2.43.0


From 9534331af1049e71ee9710b012681d9cf9926331 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 48/59] fix: cryptengine: UIDMessage updates must be signed by
 the previous key

If there is more than one matching hash chain entry "the user needs to verify
that the entry N has been signed by the key published by entry N-1"
(doc/keyserver.md). This was not done, the key server could replace the key of
any identity.
---
 cryptengine/hashchain.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 91e262a..8b1c797 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -321,7 +321,7 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 		log.Debugf("cryptengine: UIDIndex=%s", base64.Encode(UIDIndex))
 
 		// Check UID already exists in keyDB
-		_, pos, found, err := ce.keyDB.GetPublicUID(mappedID, i)
+		prevUID, pos, found, err := ce.keyDB.GetPublicUID(mappedID, i)
 		if err != nil {
 			return err
 		}
@@ -377,7 +377,12 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return err
 		}
 
-		// TODO: make sure the whole chain of UIDMessages is valid
+		// Verify that UIDMessage is signed with the key of the previous one
+		if found {
+			if err := uid.VerifyUserSig(prevUID); err != nil {
+				return log.Error(err)
+			}
+		}
 
 		// Store UIDMessage
 		if err := ce.keyDB.AddPublicUID(uid, i); err != nil {
@@ -457,7 +462,7 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 		log.Debugf("cryptengine: UIDIndex=%s", base64.Encode(UIDIndex))
 
 		// Check UID already exists in keyDB
-		_, pos, found, err := ce.keyDB.GetPublicUID(mappedID, hcPos)
+		prevUID, pos, found, err := ce.keyDB.GetPublicUID(mappedID, hcPos)
 		if err != nil {
 			return err
 		}
@@ -513,7 +518,12 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return err
 		}
 
-		// TODO: make sure the whole chain of UIDMessages is valid
+		// Verify that UIDMessage is signed with the key of the previous one
+		if found {
+			if err := uid.VerifyUserSig(prevUID); err != nil {
+				return log.Error(err)
+			}
+		}
 
 		// Store UIDMessage
 		if err := ce.keyDB.AddPublicUID(uid, hcPos); err != nil {
-- 
2.43.0


From 20f8c7294d34bf85ce6644a7e6f13503d769905b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 49/59] fix: cryptengine: verify fetched key init messages

The key server could hand out key init messages which were not signed by the
owner of the public ID, expired ones, or ones for a different ID.
---
 cryptengine/keyinit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index daf77d5..0158c04 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -126,6 +126,10 @@ func (ce *CryptEngine) fetchKeyInit(pseudonym string) error {
 	if err != nil {
 		return err
 	}
+	// make sure the key init message is from the owner of the public ID
+	if err := ki.Verify(msg.UIDContent.REPOURIS, msg.SigPubKey()); err != nil {
+		return err
+	}
 	// store public key init message
 	return ce.keyDB.AddPublicKeyInit(ki)
 }
-- 
2.43.0


From 61fb81704592752e71354792ddce68f372c6b843 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 50/59] fix: cryptengine: do not panic if a key server
 announces no signature keys

---
 cryptengine/keyinit.go | 3 +++
 cryptengine/uid.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index 0158c04..7d73c99 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -49,6 +49,9 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 	if err != nil {
 		return err
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Error("cryptengine: key server has no signature keys")
+	}
 	// call server
 	content := make(map[string]interface{})
 	content["SigPubKey"] = msg.UIDContent.SIGKEY.PUBKEY
diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 172b215..8901dcd 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -86,6 +86,9 @@ func (ce *CryptEngine) registerOrUpdate(
 	if err != nil {
 		return err
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Error("cryptengine: key server has no signature keys")
+	}
 	// register/update UID with key server
 	content := make(map[string]interface{})
 	content["UIDMessage"] = msg
-- 
2.43.0


From 48e8c39820706e661b9bab216272873c6970521d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:44:15 +0000
Subject: [PATCH 51/59] fix: keydb: store message keys of an extended session
 under its session ID

---
 keydb/session.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/keydb/session.go b/keydb/session.go
index a28ab2e..e0a52ba 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -36,12 +36,11 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	}
 
-	var res sql.Result
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		_, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
 			tx.Rollback()
@@ -52,7 +51,7 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	default:
 		// update session
-		res, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
 			tx.Rollback()
@@ -60,8 +59,9 @@ func (keyDB *KeyDB) AddSession(
 		}
 	}
 
-	// get session ID
-	sessionID, err := res.LastInsertId()
+	// get session ID (the last insert ID is not set by an update)
+	var sessionID int64
+	err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
 	if err != nil {
 		tx.Rollback()
 		return log.Error(err)
-- 
2.43.0


From dd08ee7c3383f9f6242cbb415ca9ba200f99cb8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:53:05 +0000
Subject: [PATCH 52/59] fix: encdb: refuse a truncated key file instead of
 reading a wrong key from it

---
 encdb/keyfile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encdb/keyfile.go b/encdb/keyfile.go
index de0e34a..3b4acb3 100644
--- a/encdb/keyfile.go
+++ b/encdb/keyfile.go
@@ -123,7 +123,7 @@ func ReadKeyfile(filename string, passphrase []byte) (key []byte, err error) {
 	defer keyfile.Close()
 	// read iter and convert to int
 	var biter = make([]byte, 8)
-	if _, err := keyfile.Read(biter); err != nil {
+	if _, err := io.ReadFull(keyfile, biter); err != nil {
 		return nil, err
 	}
 	uiter := encode.ToUint64(biter)
@@ -133,12 +133,12 @@ func ReadKeyfile(filename string, passphrase []byte) (key []byte, err error) {
 	iter := int(uiter)
 	// read salt
 	var salt = make([]byte, 32)
-	if _, err := keyfile.Read(salt); err != nil {
+	if _, err := io.ReadFull(keyfile, salt); err != nil {
 		return nil, err
 	}
 	// read encrypted key
 	var encKey = make([]byte, 16+32)
-	if _, err := keyfile.Read(encKey); err != nil {
+	if _, err := io.ReadFull(keyfile, encKey); err != nil {
 		return nil, err
 	}
 	// compute derived key from passphrase
-- 
2.43.0


From 967dc70a11e93a571ff2ec35a678de5be7f5d683 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:17:38 +0000
Subject: [PATCH 53/59] fix: walletstore: scan both columns when reading the
 stored cache

---
 serviceguard/client/walletstore/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 1f65653..775c998 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -321,10 +321,10 @@ func (ws *Storage) writeCache() error {
 
 // readCache reads the cache from the database
 func (ws *Storage) readCache() {
-	var data string
+	var hash, data string
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
-	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&data)
+	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&hash, &data)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 93caf88abfa41d069e7253c3b2f4dee255d08d3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:17:38 +0000
Subject: [PATCH 54/59] fix: walletstore: read the stored cache before it can
 be overwritten

---
 serviceguard/client/walletstore/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 775c998..6278db3 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -202,6 +202,7 @@ func (ws *Storage) initDB() (err error) {
 		return err
 	}
 	ws.CleanLocks(false)
+	ws.readCache()
 	return nil
 }
 
-- 
2.43.0


From dd71628c55e83ad628ea8ae59aa5a9e1826a0a94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:17:38 +0000
Subject: [PATCH 55/59] fix: walletstore: only clean locks older than
 MaxLockAge

---
 serviceguard/client/walletstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 6278db3..a2dc2fc 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -208,7 +208,7 @@ func (ws *Storage) initDB() (err error) {
 
 // CleanLocks cleans all locks. If force is true all locks are removed, not only expired locks
 func (ws *Storage) CleanLocks(force bool) {
-	locktime := times.Now() + MaxLockAge
+	locktime := times.Now() - MaxLockAge
 	if force {
 		locktime = int64(^uint32(0)) // MaxUInt32
 	}
-- 
2.43.0


From 9d34f98b37a833c5ef2547a5634a6ccbf63de2c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:17:38 +0000
Subject: [PATCH 56/59] fix: walletstore: a lock is only taken on the given
 token, and only if it is free

---
 serviceguard/client/walletstore/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index a2dc2fc..b231e53 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -54,7 +54,7 @@ CREATE TABLE IF NOT EXISTS walletState (
 	setStateQuery       = `INSERT INTO walletState (Hash, State) VALUES (?,?);`
 	setStateUpdateQuery = `UPDATE walletState SET State=? WHERE Hash=?;`
 	cleanLocksQuery     = "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
-	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0 OR LockID=?;"
+	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0;"
 	unlockQuery         = "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
 	deleteTokenQuery    = "DELETE FROM walletTokens WHERE Hash=?;"
 	deleteStateQuery    = "DELETE FROM walletState WHERE Hash=?;"
@@ -289,7 +289,7 @@ func (ws *Storage) LockToken(tokenHash []byte) int64 {
 	tokenHashS := hex.EncodeToString(tokenHash)
 	lockTime := times.Now()
 
-	res, err := ws.lockQuery.Exec(lockID, lockTime, tokenHashS, lockID)
+	res, err := ws.lockQuery.Exec(lockID, lockTime, tokenHashS)
 	if err != nil || res == nil {
 		return -1
 	}
-- 
2.43.0


From 112381e69d397ec87a802ec1bc3682dc5907e8f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:17:57 +0000
Subject: [PATCH 57/59] fix: walletstore: never use 0, which means unlocked, as
 lock ID

---
 serviceguard/client/walletstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index b231e53..7aac142 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -280,7 +280,7 @@ func (ws *Storage) DelToken(tokenHash []byte) {
 func getLockID() int64 {
 	mathrand.Seed(times.NowNano())
 	lockID := mathrand.Int31()
-	return int64(lockID)
+	return int64(lockID) + 1 // 0 means unlocked
 }
 
 // LockToken locks token against other use. Return lockID > 0 on success, <0 on failure
-- 
2.43.0


From 16eb3e1c3fe0f50de7cbd7b39a66648d4b70ff42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:28:16 +0000
Subject: [PATCH 58/59] fix: walletstore: report an error if a token or the
 cache was not stored

---
 serviceguard/client/walletstore/store.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 7aac142..14adaeb 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -231,6 +231,7 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 			return err
 		}
 	}
+	updated := err != nil
 	if len(state) > 0 {
 		_, err = ws.setStateQuery.Exec(global.Hash, state)
 		if err != nil {
@@ -238,6 +239,13 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 			if err != nil {
 				return err
 			}
+			updated = true
+		}
+	}
+	if updated {
+		// an UPDATE which finds nothing to update returns no error
+		if _, err := ws.GetToken(tokenEntry.Hash, -1); err != nil {
+			return err
 		}
 	}
 	return nil
@@ -316,6 +324,11 @@ func (ws *Storage) writeCache() error {
 		if err != nil {
 			return err
 		}
+		// an UPDATE which finds nothing to update returns no error
+		var hash string
+		if err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&hash, &data); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From b79bd496769ed169442c2ab1f6dfa2d89304efc3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:21:05 +0000
Subject: [PATCH 59/59] fix: cryptengine, ctrlengine: keep a copy of a
 passphrase the next Scan may overwrite

---
 cryptengine/db.go | 6 +++---
 ctrlengine/db.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cryptengine/db.go b/cryptengine/db.go
index ec47338..5731517 100644
--- a/cryptengine/db.go
+++ b/cryptengine/db.go
@@ -25,7 +25,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	var passphrase []byte
 	defer bzero.Bytes(passphrase)
 	if scanner.Scan() {
-		passphrase = scanner.Bytes()
+		passphrase = append([]byte(nil), scanner.Bytes()...) // the next Scan may overwrite it
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -56,7 +56,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var oldPassphrase []byte
 	defer bzero.Bytes(oldPassphrase)
 	if scanner.Scan() {
-		oldPassphrase = scanner.Bytes()
+		oldPassphrase = append([]byte(nil), scanner.Bytes()...) // the next Scan may overwrite it
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -65,7 +65,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var newPassphrase []byte
 	defer bzero.Bytes(newPassphrase)
 	if scanner.Scan() {
-		newPassphrase = scanner.Bytes()
+		newPassphrase = append([]byte(nil), scanner.Bytes()...) // the next Scan may overwrite it
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index f1a3719..3de181a 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -103,7 +103,7 @@ func (ce *CtrlEngine) dbCreate(
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			passphrase = scanner.Bytes()
+			passphrase = append([]byte(nil), scanner.Bytes()...) // the next Scan may overwrite it
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -237,7 +237,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			oldPassphrase = scanner.Bytes()
+			oldPassphrase = append([]byte(nil), scanner.Bytes()...) // the next Scan may overwrite it
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -255,7 +255,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		}
 	} else {
 		if scanner.Scan() {
-			newPassphrase = scanner.Bytes()
+			newPassphrase = append([]byte(nil), scanner.Bytes()...) // the next Scan may overwrite it
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
-- 
2.43.0

