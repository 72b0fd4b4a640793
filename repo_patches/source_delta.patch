From 425b2ab7e295e6b63a32a40a2e83cc26b420d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 01/38] fix: pad a copy of the plaintext instead of the
 caller's memory

---
 cipher/cbc.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..0e43eb2 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -86,7 +86,12 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+
+	// Pad a copy. Appending to the given slice would write the padding into
+	// the caller's memory if the slice has spare capacity.
+	padded := make([]byte, 0, len(ciphertext)+padding)
+	padded = append(padded, ciphertext...)
+	return append(padded, padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
-- 
2.43.0


From 5c42017e4c8dfa0f5bf1f9b877048f18b3046577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/38] fix: return an error for ciphertexts with a bad length
 or padding

---
 cipher/cbc.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 0e43eb2..023a71b 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,6 +42,10 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(ciphertext, ciphertext)
 
@@ -101,6 +105,14 @@ func unpad(src []byte) ([]byte, error) {
 	if padLen > length {
 		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
 	}
+	if padLen == 0 || padLen > aes.BlockSize {
+		return nil, fmt.Errorf("padding length is invalid: %d", padLen)
+	}
+	for _, b := range src[length-padLen:] {
+		if int(b) != padLen {
+			return nil, fmt.Errorf("padding is invalid")
+		}
+	}
 
 	return src[:(length - padLen)], nil
 }
-- 
2.43.0


From bb98a18ec82a8646d331cd5b87e043899610dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 03/38] fix: decrypt a copy of a sender key message's
 ciphertext

---
 groups/cipher.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..dc348b8 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/groups/state/record"
 	"github.com/prospik/libsignal-protocol-go/groups/state/store"
 	"github.com/prospik/libsignal-protocol-go/protocol"
+	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
 )
 
 // NewGroupCipher will return a new group message cipher that can be used for
@@ -94,8 +95,10 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, err
 	}
 
-	// Decrypt the message ciphertext.
-	plaintext, err := cipher.DecryptCbc(senderKey.Iv(), senderKey.CipherKey(), senderKeyMessage.Ciphertext())
+	// Decrypt a copy of the message ciphertext, because decryption is done in place
+	// and the message object may be used again.
+	plaintext, err := cipher.DecryptCbc(senderKey.Iv(), senderKey.CipherKey(),
+		bytehelper.CopySlice(senderKeyMessage.Ciphertext()))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3bb58e1159756b934601e8f1749cef94a238dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 04/38] fix: return an error from group encrypt and decrypt
 without a usable sender key

---
 groups/cipher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dc348b8..22bee21 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -38,11 +38,19 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
 	}
 
+	// Only the creator of a sender key has the private key needed to sign messages.
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("No private signing key for: " + c.senderKeyID.GroupID())
+	}
+
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
 	if err != nil {
@@ -74,7 +82,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
-- 
2.43.0


From 1b0d1a8f2ea7b9a853c9c0f491fcc05587b2a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 05/38] fix: keep receive-only sender keys receive-only when
 they are reloaded

---
 groups/state/record/state_sender_key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..20e60c1 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -67,7 +67,10 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) > 0 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From 8f93385f99ef18bc065bb5321b698b9b3e7cd75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 06/38] fix: keep the state serializer of a reloaded sender key
 record

---
 groups/state/record/sender_key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..3507815 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -45,6 +45,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
-- 
2.43.0


From f55f7c7f7d3bf6a528eb10f3d5ac0432390767ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 07/38] fix: leave a live group state untouched when decryption
 fails

---
 groups/cipher.go                        | 7 ++++++-
 groups/state/record/state_sender_key.go | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index 22bee21..afd7c36 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -98,7 +98,10 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, errors.New("Sender Key State failed verification with given pub key!")
 	}
 
-	senderKey, err := c.getSenderKey(senderKeyState, senderKeyMessage.Iteration())
+	// Derive the message key in a copy of the state, so that a message that turns
+	// out to be undecryptable doesn't change a state the store may share with us.
+	trialState := senderKeyState.Copy()
+	senderKey, err := c.getSenderKey(trialState, senderKeyMessage.Iteration())
 	if err != nil {
 		return nil, err
 	}
@@ -111,6 +114,8 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, err
 	}
 
+	*senderKeyState = *trialState
+
 	// Store the sender key by id.
 	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
 
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 20e60c1..38a47e7 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -108,6 +108,13 @@ type SenderKeyState struct {
 	serializer     SenderKeyStateSerializer
 }
 
+// Copy returns a copy of this state, which can be changed independently of it.
+func (k *SenderKeyState) Copy() *SenderKeyState {
+	state := *k
+	state.keys = append(make([]*ratchet.SenderMessageKey, 0, len(k.keys)), k.keys...)
+	return &state
+}
+
 // SigningKey returns the signing key pair of the sender key state.
 func (k *SenderKeyState) SigningKey() *ecc.ECKeyPair {
 	return k.signingKeyPair
-- 
2.43.0


From 0236741bf2b9abd4fe9c6349ccff06e1ddab8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 08/38] fix: support sessions without a one-time prekey

---
 serialize/proto.go | 9 +++++++--
 session/session.go | 7 ++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..ccd711b 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -113,7 +113,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -138,6 +138,11 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		return nil, err
 	}
 
+	preKeyID := optional.NewEmptyUint32()
+	if sm.PreKeyId != nil {
+		preKeyID = optional.NewOptionalUint32(sm.GetPreKeyId())
+	}
+
 	preKeySignalMessage := protocol.PreKeySignalMessageStructure{
 		Version:        version,
 		RegistrationID: sm.GetRegistrationId(),
@@ -145,7 +150,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		IdentityKey:    sm.GetIdentityKey(),
 		SignedPreKeyID: sm.GetSignedPreKeyId(),
 		Message:        sm.GetMessage(),
-		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
+		PreKeyID:       preKeyID,
 	}
 
 	return &preKeySignalMessage, nil
diff --git a/session/session.go b/session/session.go
index 418b8a9..adaae49 100644
--- a/session/session.go
+++ b/session/session.go
@@ -132,7 +132,8 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	hasPreKeyID := message.PreKeyID() != nil && !message.PreKeyID().IsEmpty
+	if hasPreKeyID {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -166,10 +167,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
 
 	// Remove the PreKey from our store and return the message prekey id if it is valid.
-	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
+	if hasPreKeyID && message.PreKeyID().Value != medium.MaxValue {
 		return message.PreKeyID(), nil
 	}
-	return nil, nil
+	return optional.NewEmptyUint32(), nil
 }
 
 // ProcessBundle builds a new session from a PreKeyBundle retrieved
-- 
2.43.0


From 7576b7cdaa8d6b00b70b216492322d365268f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 09/38] fix: return an error for an unknown signed prekey

---
 session/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session/session.go b/session/session.go
index adaae49..7a6d1a6 100644
--- a/session/session.go
+++ b/session/session.go
@@ -120,6 +120,9 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		return nil, errors.New(noSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From 45fbc8686d4864efc127158f425dfd8d659c8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 10/38] fix: return an error when encrypting without a session

---
 session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index e510317..330fe62 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -65,6 +65,9 @@ type Cipher struct {
 func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
 	sessionState := sessionRecord.SessionState()
+	if !sessionState.HasSenderChain() {
+		return nil, errors.New("No session for: " + d.remoteAddress.String())
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
-- 
2.43.0


From 043d5ab906c80ea344c521923de74872451c0fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 11/38] fix: don't let the previous counter wrap around when
 nothing was sent

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index 330fe62..f8ebb74 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -342,7 +342,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From 6385c576067178278194b060fb4985eba3739bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 12/38] fix: compare whole base keys to choose the symmetric
 session roles

---
 ratchet/ratchet.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..56ffe69 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -190,8 +190,5 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 // be calculated as the sender or receiver. It does so by converting the given
 // keys into integers and comparing the size of those integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From 939ccc75780958b51f74499e67434918ce02dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 13/38] fix: give the last resort prekey the id that is exempt
 from removal

---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..e7c696b 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From 168e60c40b18624de3c851aa28d8bb2c5cfd5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 14/38] fix: decode the public key of reloaded prekeys and
 signed prekeys

---
 state/record/prekey.go        | 5 ++++-
 state/record/signed_prekey.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..d8f8aa8 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,10 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..71a8875 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,10 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From 6619098bdab051509017ab9c6c646ed7396af650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 15/38] fix: return an error for empty or short public keys

---
 ecc/curve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..d3bb008 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -18,6 +18,9 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	if offset < 0 || len(bytes)-offset < 33 {
+		return nil, errors.New("Public key is too short")
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
-- 
2.43.0


From fc78bdec9c514e41a956befa9f1f1ee574ff86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 16/38] fix: return an error for empty serialized messages

---
 serialize/proto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serialize/proto.go b/serialize/proto.go
index ccd711b..c836be8 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,7 @@
 package serialize
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -129,6 +130,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty prekey signal message")
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -183,6 +187,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty senderkey distribution message")
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
-- 
2.43.0


From 3cf8763677866ea95c0c2c85bd2a2dbdc708bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 17/38] fix: return an error for malformed provisioning
 envelopes

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..edaf1ae 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("ProvisioningMessage is too short: %d", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From 1cf7156a67f3e097800c5519167da234f070c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 18/38] fix: refuse handshake messages of another protocol
 version

---
 session/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/session.go b/session/session.go
index 7a6d1a6..6ad64fc 100644
--- a/session/session.go
+++ b/session/session.go
@@ -18,6 +18,7 @@ import (
 
 // Define error constants used for error messages.
 const untrustedIdentityError string = "Untrusted identity"
+const wrongVersionError string = "Wrong message version!"
 const noSignedPreKeyError string = "No signed prekey!"
 const invalidSignatureError string = "Invalid signature on device key!"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
@@ -82,6 +83,12 @@ type Builder struct {
 // key signal message.
 func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
+	// Only version 3 sessions can be built. The version also identifies the session
+	// that was already built for a message, so it has to be the right one.
+	if message.MessageVersion() != protocol.CurrentVersion {
+		return nil, errors.New(wrongVersionError)
+	}
+
 	// Check to see if the keys are trusted.
 	theirIdentityKey := message.IdentityKey()
 	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
-- 
2.43.0


From 3025a42232c37ce3a708ca5665da04a50cbffb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 19/38] fix: archive the current session of a live session
 record

---
 state/record/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..5c64566 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -111,7 +111,7 @@ func (r *Session) SetState(sessionState *State) {
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-	return r.fresh
+	return r.fresh && !r.sessionState.HasSenderChain()
 }
 
 // SessionState returns the session state object of the current
-- 
2.43.0


From 51af410a1c45e4da0811685bb9e816b44a29ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 20/38] fix: remove a promoted session state from the archive

---
 session/cipher.go       | 2 +-
 state/record/session.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index f8ebb74..bf14fbb 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -220,7 +220,7 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 			}
 
 			// If successful, remove and promote the state.
-			previousStates = append(previousStates[:i], previousStates[i+1:]...)
+			sessionRecord.RemovePreviousState(i)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index 5c64566..f418f08 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -164,6 +164,13 @@ func (r *Session) PromoteState(promotedState *State) {
 	}
 }
 
+// RemovePreviousState removes the state with the given index from the list of
+// "previous" session states.
+func (r *Session) RemovePreviousState(index int) {
+	previousStates := append([]*State{}, r.previousStates[:index]...)
+	r.previousStates = append(previousStates, r.previousStates[index+1:]...)
+}
+
 // Serialize will return the session as serialized bytes so it can be
 // persistently stored.
 func (r *Session) Serialize() []byte {
-- 
2.43.0


From 26dfc94b5db3d86599761c4a03f0b57a5e3108b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 21/38] fix: change a session only when decryption succeeds

---
 session/cipher.go             | 14 ++++++++++----
 state/record/session.go       | 12 ++++++++++++
 state/record/state_chain.go   | 10 ++++++++++
 state/record/state_session.go | 11 +++++++++++
 4 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index bf14fbb..b34b2eb 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -168,8 +168,9 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
-	// Load or create session record for this session.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	// Load or create session record for this session. Processing the message changes
+	// the record, so work on a copy until the message has been decrypted.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
@@ -250,16 +251,20 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 		return nil, nil, errors.New(err)
 	}
 
+	// Derive the message keys in a copy of the state. It only replaces the given
+	// state after the message was authenticated and decrypted.
+	trialState := sessionState.Copy()
+
 	messageVersion := ciphertextMessage.MessageVersion()
 	theirEphemeral := ciphertextMessage.SenderRatchetKey()
 	counter := ciphertextMessage.Counter()
-	chainKey, chainCreateErr := getOrCreateChainKey(sessionState, theirEphemeral)
+	chainKey, chainCreateErr := getOrCreateChainKey(trialState, theirEphemeral)
 	if chainCreateErr != nil {
 		logger.Error("Unable to get or create chain key: ", chainCreateErr)
 		return nil, nil, chainCreateErr
 	}
 
-	messageKeys, keysCreateErr := getOrCreateMessageKeys(sessionState, theirEphemeral, chainKey, counter)
+	messageKeys, keysCreateErr := getOrCreateMessageKeys(trialState, theirEphemeral, chainKey, counter)
 	if keysCreateErr != nil {
 		logger.Error("Unable to get or create message keys: ", keysCreateErr)
 		return nil, nil, keysCreateErr
@@ -276,6 +281,7 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 		return nil, nil, err
 	}
 
+	*sessionState = *trialState
 	sessionState.ClearUnackPreKeyMessage()
 
 	return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index f418f08..d4b4ae0 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -102,6 +102,18 @@ type Session struct {
 	fresh          bool
 }
 
+// Copy returns a copy of this session record, which can be changed independently
+// of it.
+func (r *Session) Copy() *Session {
+	session := *r
+	session.sessionState = r.sessionState.Copy()
+	session.previousStates = make([]*State, len(r.previousStates))
+	for i := range r.previousStates {
+		session.previousStates[i] = r.previousStates[i].Copy()
+	}
+	return &session
+}
+
 // SetState sets the session record's current state to the given
 // one.
 func (r *Session) SetState(sessionState *State) {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..51970eb 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -82,6 +82,16 @@ type Chain struct {
 	messageKeys          []*message.Keys
 }
 
+// Copy returns a copy of this chain, which can be changed independently of it.
+func (c *Chain) Copy() *Chain {
+	if c == nil {
+		return nil
+	}
+	chain := *c
+	chain.messageKeys = append(make([]*message.Keys, 0, len(c.messageKeys)), c.messageKeys...)
+	return &chain
+}
+
 // SenderRatchetKey returns the sender's EC keypair.
 func (c *Chain) SenderRatchetKey() *ecc.ECKeyPair {
 	return c.senderRatchetKeyPair
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..2faa235 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -134,6 +134,17 @@ type State struct {
 	sessionVersion       int
 }
 
+// Copy returns a copy of this state, which can be changed independently of it.
+func (s *State) Copy() *State {
+	state := *s
+	state.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		state.receiverChains[i] = s.receiverChains[i].Copy()
+	}
+	state.senderChain = s.senderChain.Copy()
+	return &state
+}
+
 // SenderBaseKey returns the sender's base key in bytes.
 func (s *State) SenderBaseKey() []byte {
 	if s.senderBaseKey == nil {
-- 
2.43.0


From 697223c84a84c2cfa09f47af6d7c4d781fcf7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 22/38] fix: refuse to use sessions of an untrusted identity

---
 session/cipher.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index b34b2eb..e565838 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -68,6 +68,9 @@ func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	if !sessionState.HasSenderChain() {
 		return nil, errors.New("No session for: " + d.remoteAddress.String())
 	}
+	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {
+		return nil, errors.New(untrustedIdentityError)
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
@@ -122,9 +125,6 @@ func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	}
 
 	sessionState.SetSenderChainKey(chainKey.NextKey())
-	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {
-		// return err
-	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	return ciphertextMessage, nil
@@ -145,15 +145,16 @@ func (d *Cipher) DecryptAndGetKey(ciphertextMessage *protocol.SignalMessage) ([]
 		return nil, nil, errors.New("No session for: " + d.remoteAddress.String())
 	}
 
-	// Load the session record from our session store and decrypt the message.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	// Load the session record from our session store and decrypt the message. Decrypting
+	// changes the record, so work on a copy until we know that the identity is trusted.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
 	}
 
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
-		// return err
+		return nil, nil, errors.New(untrustedIdentityError)
 	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 
@@ -179,6 +180,9 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if err != nil {
 		return nil, nil, err
 	}
+	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
+		return nil, nil, errors.New(untrustedIdentityError)
+	}
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	if !unsignedPreKeyID.IsEmpty {
-- 
2.43.0


From dbabdc35f571812f35a7490e2cc70ec210a299b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 23/38] fix: remember the identity of a handshake only after it
 was authenticated

---
 session/cipher.go  | 1 +
 session/session.go | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index e565838..850fbdc 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -183,6 +183,7 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
 		return nil, nil, errors.New(untrustedIdentityError)
 	}
+	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	if !unsignedPreKeyID.IsEmpty {
diff --git a/session/session.go b/session/session.go
index 6ad64fc..bca85cf 100644
--- a/session/session.go
+++ b/session/session.go
@@ -101,8 +101,8 @@ func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKe
 		return nil, err
 	}
 
-	// Save the identity key to our identity store.
-	b.identityKeyStore.SaveIdentity(b.remoteAddress, theirIdentityKey)
+	// The identity key is saved once the embedded message has been decrypted, because
+	// only that proves that the sender owns it.
 
 	// Return the unsignedPreKeyID
 	return unsignedPreKeyID, nil
-- 
2.43.0


From c6597eacbfccaf42c57821432aa0ddf52942fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 24/38] fix: return an error for incomplete stored records

---
 groups/state/record/sender_key.go       |  4 ++++
 groups/state/record/state_sender_key.go | 14 +++++++++++++-
 state/record/prekey.go                  |  6 ++++++
 state/record/session.go                 |  5 +++++
 state/record/signed_prekey.go           |  6 ++++++
 state/record/state_chain.go             | 12 +++++++++++-
 state/record/state_session.go           | 11 +++++++++++
 7 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 3507815..c6ad13b 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -31,6 +31,10 @@ func NewSenderKeyFromBytes(serialized []byte, serializer SenderKeySerializer,
 func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeySerializer,
 	stateSerializer SenderKeyStateSerializer) (*SenderKey, error) {
 
+	if structure == nil {
+		return nil, errors.New("Incomplete senderkey record")
+	}
+
 	// Build our sender key states from structure.
 	senderKeyStates := make([]*SenderKeyState, len(structure.SenderKeyStates))
 	for i := range structure.SenderKeyStates {
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 38a47e7..042aab7 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
@@ -8,6 +10,8 @@ import (
 
 const maxMessageKeys = 2000
 
+var errIncompleteState = errors.New("Incomplete senderkey state")
+
 // SenderKeyStateSerializer is an interface for serializing and deserializing
 // a Signal State into bytes. An implementation of this interface should be
 // used to encode/decode the object into JSON, Protobuffers, etc.
@@ -62,6 +66,10 @@ func NewSenderKeyStateFromPublicKey(keyID uint32, iteration uint32, chainKey []b
 func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	serializer SenderKeyStateSerializer) (*SenderKeyState, error) {
 
+	if structure == nil || structure.SenderChainKey == nil || len(structure.SenderChainKey.ChainKey) == 0 {
+		return nil, errIncompleteState
+	}
+
 	// Convert our ecc keys from bytes into object form.
 	signingKeyPublic, err := ecc.DecodePoint(structure.SigningKeyPublic, 0)
 	if err != nil {
@@ -75,7 +83,11 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
 	for i := range structure.Keys {
-		senderMessageKeys[i] = ratchet.NewSenderMessageKeyFromStruct(structure.Keys[i])
+		keys := structure.Keys[i]
+		if keys == nil || len(keys.CipherKey) != 32 || len(keys.IV) != 16 {
+			return nil, errIncompleteState
+		}
+		senderMessageKeys[i] = ratchet.NewSenderMessageKeyFromStruct(keys)
 	}
 
 	// Build our state object.
diff --git a/state/record/prekey.go b/state/record/prekey.go
index d8f8aa8..477cfee 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
 	"github.com/prospik/libsignal-protocol-go/util/optional"
@@ -27,6 +29,10 @@ func NewPreKeyFromBytes(serialized []byte, serializer PreKeySerializer) (*PreKey
 
 // NewPreKeyFromStruct returns a PreKey record using the given serializable structure.
 func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer) (*PreKey, error) {
+	if structure == nil || len(structure.PrivateKey) != 32 {
+		return nil, errors.New("Incomplete prekey record")
+	}
+
 	// Create the prekey record from the structure.
 	preKey := &PreKey{
 		structure:  *structure,
diff --git a/state/record/session.go b/state/record/session.go
index d4b4ae0..091865f 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -2,6 +2,7 @@ package record
 
 import (
 	"bytes"
+	"errors"
 )
 
 // archivedStatesMaxLength describes how many previous session
@@ -46,6 +47,10 @@ func NewSession(serializer SessionSerializer, stateSerializer StateSerializer) *
 func NewSessionFromStructure(structure *SessionStructure, serializer SessionSerializer,
 	stateSerializer StateSerializer) (*Session, error) {
 
+	if structure == nil {
+		return nil, errors.New("Incomplete session record")
+	}
+
 	// Build our previous states from structure.
 	previousStates := make([]*State, len(structure.PreviousStates))
 	for i := range structure.PreviousStates {
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 71a8875..0d5f741 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
 )
@@ -30,6 +32,10 @@ func NewSignedPreKeyFromBytes(serialized []byte, serializer SignedPreKeySerializ
 func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	serializer SignedPreKeySerializer) (*SignedPreKey, error) {
 
+	if structure == nil || len(structure.PrivateKey) != 32 || len(structure.Signature) != 64 {
+		return nil, errors.New("Incomplete signed prekey record")
+	}
+
 	// Create the signed prekey record from the structure.
 	signedPreKey := &SignedPreKey{
 		structure:  *structure,
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index 51970eb..e967101 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -36,6 +36,10 @@ func NewChain(senderRatchetKeyPair *ecc.ECKeyPair, chainKey *chain.Key,
 // NewChainFromStructure will return a new Chain with the given
 // chain structure.
 func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
+	if structure == nil || structure.ChainKey == nil || len(structure.ChainKey.Key) != 32 {
+		return nil, errIncompleteState
+	}
+
 	// Alias to SliceToArray
 	getArray := bytehelper.SliceToArray
 
@@ -53,7 +57,13 @@ func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
 	// Build our message keys from the message key structures.
 	messageKeys := make([]*message.Keys, len(structure.MessageKeys))
 	for i := range structure.MessageKeys {
-		messageKeys[i] = message.NewKeysFromStruct(structure.MessageKeys[i])
+		keys := structure.MessageKeys[i]
+		if keys == nil || len(keys.CipherKey) != message.CipherKeyLength ||
+			len(keys.MacKey) != message.MacKeyLength || len(keys.IV) != message.IVLength {
+
+			return nil, errIncompleteState
+		}
+		messageKeys[i] = message.NewKeysFromStruct(keys)
 	}
 
 	// Build our new chain state.
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 2faa235..d7b53af 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -16,6 +18,8 @@ import (
 const maxMessageKeys int = 2000
 const maxReceiverChains int = 5
 
+var errIncompleteState = errors.New("Incomplete session state")
+
 // StateSerializer is an interface for serializing and deserializing
 // a Signal State into bytes. An implementation of this interface should be
 // used to encode/decode the object into JSON, Protobuffers, etc.
@@ -44,6 +48,10 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
+	if structure == nil || structure.SenderChain == nil || len(structure.RootKey) != 32 {
+		return nil, errIncompleteState
+	}
+
 	// Keep a list of errors, so they can be handled once.
 	errors := errorhelper.NewMultiError()
 
@@ -61,6 +69,9 @@ func NewStateFromStructure(structure *StateStructure, serializer StateSerializer
 	}
 	senderChain, err := NewChainFromStructure(structure.SenderChain)
 	errors.Add(err)
+	if err == nil && senderChain.SenderRatchetKey().PrivateKey() == nil {
+		errors.Add(errIncompleteState)
+	}
 
 	// Build our receiver chains from structure.
 	receiverChains := make([]*Chain, len(structure.ReceiverChains))
-- 
2.43.0


From 84e0cff3c71f9990fc69f70712c834a95c097cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 25/38] fix: refuse distribution messages with an empty chain
 key

---
 protocol/sender_key_distribution_message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/sender_key_distribution_message.go b/protocol/sender_key_distribution_message.go
index 0975af3..9ac34a3 100644
--- a/protocol/sender_key_distribution_message.go
+++ b/protocol/sender_key_distribution_message.go
@@ -47,7 +47,7 @@ func NewSenderKeyDistributionMessageFromStruct(structure *SenderKeyDistributionM
 	}
 
 	// Throw an error if the structure is missing critical fields.
-	if structure.SigningKey == nil || structure.ChainKey == nil {
+	if structure.SigningKey == nil || len(structure.ChainKey) == 0 {
 		err := "Incomplete message."
 		return nil, errors.New(err)
 	}
-- 
2.43.0


From 484297e4888f6accaa38479d143b348616d7b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 26/38] fix: refuse a handshake around a message of another
 session

---
 session/cipher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index 850fbdc..e91f58f 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -1,6 +1,7 @@
 package session
 
 import (
+	"bytes"
 	"errors"
 	"strconv"
 
@@ -180,6 +181,12 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if err != nil {
 		return nil, nil, err
 	}
+
+	// The embedded message only proves that the handshake around it is genuine if it
+	// belongs to the session of this handshake and not to some other one.
+	if !bytes.Equal(sessionRecord.SessionState().SenderBaseKey(), ciphertextMessage.BaseKey().Serialize()) {
+		return nil, nil, errors.New("Message does not belong to its handshake!")
+	}
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
 		return nil, nil, errors.New(untrustedIdentityError)
 	}
-- 
2.43.0


From c23fe3f7eca326e21df4f616e0f5f686ab448374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 27/38] fix: refuse handshakes on a cipher without a session
 builder

---
 session/cipher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index e91f58f..a687cea 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -170,6 +170,11 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
+	// A cipher made from a session alone cannot set up new ones.
+	if d.builder == nil {
+		return nil, nil, errors.New("No session builder for: " + d.remoteAddress.String())
+	}
+
 	// Load or create session record for this session. Processing the message changes
 	// the record, so work on a copy until the message has been decrypted.
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
-- 
2.43.0


From 39b2b66e631809ac8bca904c083b62904ebea694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 28/38] fix: store session records whose current session was
 archived

---
 state/record/session.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/state/record/session.go b/state/record/session.go
index 091865f..2066aeb 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -61,10 +61,15 @@ func NewSessionFromStructure(structure *SessionStructure, serializer SessionSeri
 		}
 	}
 
-	// Build our current state from structure.
-	sessionState, err := NewStateFromStructure(structure.SessionState, stateSerializer)
-	if err != nil {
-		return nil, err
+	// Build our current state from structure. It is missing if it was archived or if
+	// the record is still empty.
+	sessionState := NewState(stateSerializer)
+	if structure.SessionState != nil {
+		var err error
+		sessionState, err = NewStateFromStructure(structure.SessionState, stateSerializer)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Build and return our session.
@@ -172,7 +177,10 @@ func (r *Session) ArchiveCurrentState() {
 // PromoteState takes the given session state and replaces it with the
 // current state, pushing the previous current state to "previousStates".
 func (r *Session) PromoteState(promotedState *State) {
-	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
+	// An empty state is not worth keeping.
+	if r.sessionState.HasSenderChain() {
+		r.previousStates = r.prependStates(r.previousStates, r.sessionState)
+	}
 	r.sessionState = promotedState
 
 	// Remove the last state if it has reached our maximum length
@@ -214,8 +222,9 @@ func (r *Session) structure() *SessionStructure {
 	for i := range r.previousStates {
 		previousStates[i] = r.previousStates[i].structure()
 	}
-	return &SessionStructure{
-		SessionState:   r.sessionState.structure(),
-		PreviousStates: previousStates,
+	structure := &SessionStructure{PreviousStates: previousStates}
+	if r.sessionState.HasSenderChain() {
+		structure.SessionState = r.sessionState.structure()
 	}
+	return structure
 }
-- 
2.43.0


From 1a7f921d7b173b173405e5a1dba08098b2c71a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 29/38] fix: a repeated distribution message does not add a
 second state

Processing the distribution message of a known key id again appended a state
that was never used, because the first one with the id is. It kept chain keys
whose messages had been decrypted, and after 2000 repetitions all other key
ids were gone from the record.
---
 groups/state/record/sender_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index c6ad13b..8dab58c 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -113,6 +113,12 @@ func (k *SenderKey) IsEmpty() bool {
 func (k *SenderKey) AddSenderKeyState(id uint32, iteration uint32,
 	chainKey []byte, signatureKey ecc.ECPublicKeyable) {
 
+	// The state of a known id is at least as far as a repeated one. Adding the repeated
+	// one would bring back used chain keys and push other states out of the record.
+	if _, err := k.GetSenderKeyStateByID(id); err == nil {
+		return
+	}
+
 	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
 	k.senderKeyStates = append(k.senderKeyStates, newState)
 
-- 
2.43.0


From ca1c97ca6f0e6103fabe142c7e14687bc1f6b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 30/38] fix: an incomplete pending key exchange in a stored
 session state is an error

---
 state/record/state_pending_key_exchange.go | 7 +++++++
 state/record/state_session.go              | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/state/record/state_pending_key_exchange.go b/state/record/state_pending_key_exchange.go
index e0c17a1..63f38e8 100644
--- a/state/record/state_pending_key_exchange.go
+++ b/state/record/state_pending_key_exchange.go
@@ -66,6 +66,13 @@ type PendingKeyExchangeStructure struct {
 	LocalIdentityKeyPrivate []byte
 }
 
+// complete returns false if a key is missing or truncated.
+func (p *PendingKeyExchangeStructure) complete() bool {
+	return p == nil || len(p.LocalBaseKeyPublic) == 32 && len(p.LocalBaseKeyPrivate) == 32 &&
+		len(p.LocalRatchetKeyPublic) == 32 && len(p.LocalRatchetKeyPrivate) == 32 &&
+		len(p.LocalIdentityKeyPublic) == 32 && len(p.LocalIdentityKeyPrivate) == 32
+}
+
 // PendingKeyExchange is a structure for storing a pending
 // key exchange for a session state.
 type PendingKeyExchange struct {
diff --git a/state/record/state_session.go b/state/record/state_session.go
index d7b53af..f6ffd29 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -48,7 +48,8 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
-	if structure == nil || structure.SenderChain == nil || len(structure.RootKey) != 32 {
+	if structure == nil || structure.SenderChain == nil || len(structure.RootKey) != 32 ||
+		!structure.PendingKeyExchange.complete() {
 		return nil, errIncompleteState
 	}
 
-- 
2.43.0


From 78ad921f20652b19c21fde62d7465d01bec88bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 31/38] fix: a pending key exchange in a session without keys
 is kept when the record is saved

---
 state/record/session.go       |  2 +-
 state/record/state_session.go | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/state/record/session.go b/state/record/session.go
index 2066aeb..1393ec2 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -223,7 +223,7 @@ func (r *Session) structure() *SessionStructure {
 		previousStates[i] = r.previousStates[i].structure()
 	}
 	structure := &SessionStructure{PreviousStates: previousStates}
-	if r.sessionState.HasSenderChain() {
+	if r.sessionState.HasSenderChain() || r.sessionState.HasPendingKeyExchange() {
 		structure.SessionState = r.sessionState.structure()
 	}
 	return structure
diff --git a/state/record/state_session.go b/state/record/state_session.go
index f6ffd29..c07dcc3 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -48,8 +48,15 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
-	if structure == nil || structure.SenderChain == nil || len(structure.RootKey) != 32 ||
-		!structure.PendingKeyExchange.complete() {
+	if structure == nil || !structure.PendingKeyExchange.complete() {
+		return nil, errIncompleteState
+	}
+	// A state that only waits for a key exchange has no keys yet.
+	if structure.PendingKeyExchange != nil && structure.SenderChain == nil {
+		pendingKeyExchange := NewPendingKeyExchangeFromStruct(structure.PendingKeyExchange)
+		return &State{pendingKeyExchange: pendingKeyExchange, serializer: serializer}, nil
+	}
+	if structure.SenderChain == nil || len(structure.RootKey) != 32 {
 		return nil, errIncompleteState
 	}
 
@@ -535,6 +542,11 @@ func (s *State) structure() *StateStructure {
 		pendingKeyExchange = s.pendingKeyExchange.structure()
 	}
 
+	// A state that only waits for a key exchange has no keys yet.
+	if s.senderChain == nil {
+		return &StateStructure{PendingKeyExchange: pendingKeyExchange}
+	}
+
 	// Build and return our state structure.
 	return &StateStructure{
 		LocalIdentityPublic:  s.localIdentityPublic.Serialize(),
-- 
2.43.0


From fc237b839d43790ee1e8246e02db6c1c4daf89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 32/38] fix: ProcessBundle changes nothing when it cannot make
 its keys

---
 session/session.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/session/session.go b/session/session.go
index bca85cf..f72cec2 100644
--- a/session/session.go
+++ b/session/session.go
@@ -223,13 +223,7 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 	parameters.SetTheirRatchetKey(theirSignedPreKey)
 	parameters.SetTheirOneTimePreKey(theirOneTimePreKey)
 
-	// If this is a fresh record, archive our current state.
-	if !sessionRecord.IsFresh() {
-		sessionRecord.ArchiveCurrentState()
-	}
-
 	///////// Initialize our session /////////
-	sessionState := sessionRecord.SessionState()
 	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
 	if sessionErr != nil {
 		return sessionErr
@@ -248,7 +242,13 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 		return chainErr
 	}
 
+	// If this is not a fresh record, archive our current state. Nothing can fail anymore.
+	if !sessionRecord.IsFresh() {
+		sessionRecord.ArchiveCurrentState()
+	}
+
 	// Calculate the sender session.
+	sessionState := sessionRecord.SessionState()
 	sessionState.SetVersion(protocol.CurrentVersion)
 	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
 	sessionState.SetLocalIdentityKey(parameters.OurIdentityKey().PublicKey())
-- 
2.43.0


From dad083c686d92c15b92051e511d2e1da5fe29ef2 Mon Sep 17 00:00:00 2001
From: v <v>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 33/38] fix: decrypting leaves the caller's ciphertext as it
 was

---
 cipher/cbc.go    | 5 +++--
 cipher/cipher.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 023a71b..0e365ff 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -47,9 +47,10 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 	}
 
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	plaintext := make([]byte, len(ciphertext))
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..2a10e82 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,10 +18,11 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(plaintext, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7fc36a24181e743ad6b4ab9eb21badfd5cb06cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 34/38] fix: return an error for ciphertexts with a bad length
 in Decrypt

---
 cipher/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cipher/cipher.go b/cipher/cipher.go
index 2a10e82..39dcb4c 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,6 +18,9 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(ciphertext)%aes.BlockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(plaintext, ciphertext)
-- 
2.43.0


From 63685dfb1a984a1d5021a18f08b245931a24aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 35/38] fix: refuse paddings longer than a block in Decrypt

---
 cipher/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/cipher.go b/cipher/cipher.go
index 39dcb4c..9443efb 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -97,7 +97,7 @@ func pkcs7Unpad(b []byte, blocksize int) ([]byte, error) {
 	}
 	c := b[len(b)-1]
 	n := int(c)
-	if n == 0 || n > len(b) {
+	if n == 0 || n > blocksize || n > len(b) {
 		return nil, ErrInvalidPKCS7Padding
 	}
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 4ed21eddc264dc8fdc822aa118dcddde3b7545e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 36/38] fix: set up the default logger before its first use

---
 logger/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index e3a85ae..65f1844 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -9,7 +9,8 @@ import (
 )
 
 // Logger is a shared loggable interface that this library will use for all log messages.
-var Logger Loggable
+// The default logger is used if none was set up.
+var Logger Loggable = &defaultLogger{namespaces: []string{"all"}}
 
 // Loggable is an interface for logging.
 type Loggable interface {
-- 
2.43.0


From d3406ee22b5ad68e937b3be89fdf81e7cc458244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:04 +0000
Subject: [PATCH 37/38] fix: find nothing where there is no receiver chain

---
 state/record/state_session.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/state/record/state_session.go b/state/record/state_session.go
index c07dcc3..75d8c24 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -278,11 +278,10 @@ func (s *State) receiverChain(senderEphemeral ecc.ECPublicKeyable) *ReceiverChai
 // chain key.
 func (s *State) ReceiverChainKey(senderEphemeral ecc.ECPublicKeyable) *chain.Key {
 	receiverChainAndIndex := s.receiverChain(senderEphemeral)
-	receiverChain := receiverChainAndIndex.ReceiverChain
-
-	if receiverChainAndIndex == nil || receiverChain == nil {
+	if receiverChainAndIndex == nil || receiverChainAndIndex.ReceiverChain == nil {
 		return nil
 	}
+	receiverChain := receiverChainAndIndex.ReceiverChain
 
 	return chain.NewKey(
 		kdf.DeriveSecrets,
@@ -340,12 +339,12 @@ func (s *State) SetSenderChainKey(nextChainKey session.ChainKeyable) {
 func (s *State) HasMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) bool {
 	// Get our chain state that has our chain key.
 	chainAndIndex := s.receiverChain(senderEphemeral)
-	receiverChain := chainAndIndex.ReceiverChain
 
 	// If the chain is empty, we don't have any message keys.
-	if receiverChain == nil {
+	if chainAndIndex == nil || chainAndIndex.ReceiverChain == nil {
 		return false
 	}
+	receiverChain := chainAndIndex.ReceiverChain
 
 	// Get our message keys from our receiver chain.
 	messageKeyList := receiverChain.MessageKeys()
@@ -366,12 +365,12 @@ func (s *State) HasMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint
 func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) *message.Keys {
 	// Get our chain state that has our chain key.
 	chainAndIndex := s.receiverChain(senderEphemeral)
-	chainKey := chainAndIndex.ReceiverChain
 
 	// If the chain is empty, we don't have any message keys.
-	if chainKey == nil {
+	if chainAndIndex == nil || chainAndIndex.ReceiverChain == nil {
 		return nil
 	}
+	chainKey := chainAndIndex.ReceiverChain
 
 	// Get our message keys from our receiver chain.
 	messageKeyList := chainKey.MessageKeys()
-- 
2.43.0


From 947d25cf54302eff9bd45d7439df0696f8046bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:04 +0000
Subject: [PATCH 38/38] fix: remove no other message key when there is no match

---
 state/record/state_session.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/state/record/state_session.go b/state/record/state_session.go
index 75d8c24..1a26939 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -377,7 +377,7 @@ func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter u
 
 	// Loop through our message keys and compare its index with the
 	// given counter. When we find a match, remove it from our list.
-	var rmIndex int
+	rmIndex := -1
 	for i, messageKey := range messageKeyList {
 		if messageKey.Index() == counter {
 			rmIndex = i
@@ -385,6 +385,11 @@ func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter u
 		}
 	}
 
+	// If there is no match, there is nothing to remove.
+	if rmIndex < 0 {
+		return nil
+	}
+
 	// Retrive the message key
 	messageKey := chainKey.messageKeys[rmIndex]
 
-- 
2.43.0

