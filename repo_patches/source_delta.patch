From c843ba975c82191a2ed0800397920b479e0a40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 01/15] fix: report decryption failure of Signal messages

decryptSignal overwrote the error of decryptMessage, so a forged, corrupted
or duplicate message was reported as successfully decrypted to nothing.
---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..8e84633 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From 26df2654fdb477933072d60f602995d636c0157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 02/15] fix: advance the receiver chain past the message being
 decrypted

The receiver chain key was stored at the index of the decrypted message, so
its keys stayed derivable: the same message decrypted again and again, also
after later messages had been received.
---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 8e84633..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -416,7 +416,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From cf0039aa11413ababef8edea9525d658de02478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 03/15] fix: reject Signal messages too short to hold a MAC
 instead of panicking

---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From 6398d0244ffa72aa6e8fd7a493264400b66ef432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 04/15] fix: reject pre-key messages which cannot initialize a
 session

A pre-key message naming an unknown signed pre-key, or carrying a low-order
base key or identity key, made the receiver panic.
---
 protocol/session/session.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..adf4896 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/golang/glog"
@@ -69,16 +70,16 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
-	var ourSignedPreKeyPair *curve.KeyPair
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, fmt.Errorf("no signed pre-key with ID %s", message.SignedPreKeyID())
+	}
+	ourSignedPreKeyPair, err := ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
@@ -107,6 +108,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
-- 
2.43.0


From c602ae3c362b8ee50db364cc247a0f4fe0bcc692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 05/15] fix: reject pre-key messages naming an unknown one-time
 pre-key

Such a message was processed as if it had named none, so a session could be
established by naming a one-time pre-key which had already been used.
---
 protocol/session/session.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index adf4896..2667653 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -92,11 +92,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		if err != nil {
 			return nil, err
 		}
-		if exists {
-			ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
-			if err != nil {
-				return nil, err
-			}
+		if !exists {
+			return nil, fmt.Errorf("no one-time pre-key with ID %s", message.PreKeyID())
+		}
+		ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 49f3d510b339876bc0e531e98a9e5b94a2e459d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 06/15] fix: compare identity keys by value when storing them

The in-memory store compared the keys by pointer, so storing an unchanged
identity key again was reported as overwriting it with a new one.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From b0bce8eb8471cf1dad317b7babe7767d92d60cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 07/15] fix: do not write padding into the caller's buffer when
 encrypting

---
 protocol/crypto/aes/aes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..5fcf321 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,10 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	// Do not append to plaintext, as that may write into the caller's buffer.
+	padded := make([]byte, 0, len(plaintext)+n)
+	padded = append(padded, plaintext...)
+	return append(padded, bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From 895243b039924e59f22e24be75b930f50f77e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 08/15] fix: check every PKCS #7 padding byte when decrypting

---
 protocol/crypto/aes/aes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 5fcf321..87c1c34 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -80,6 +80,11 @@ func pkcs7unpad(plaintext []byte) ([]byte, error) {
 	if n < 1 || n > aes.BlockSize {
 		return nil, errors.New("invalid padding")
 	}
+	for _, b := range plaintext[length-n:] {
+		if int(b) != n {
+			return nil, errors.New("invalid padding")
+		}
+	}
 
 	return plaintext[:length-n], nil
 }
-- 
2.43.0


From 969a39e71b6157fa99923973d43bc6e89c13b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 09/15] fix: report an untrusted identity in a pre-key bundle
 as such

The error was not recognized by perrors.IsErrUntrustedIdentity.
---
 protocol/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 2667653..5658b21 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -132,7 +132,7 @@ func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bun
 		return err
 	}
 	if !trusted {
-		return errors.New("untrusted identity")
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
-- 
2.43.0


From 9b70e27fb308b9503db22c9f3e3be2c7dd546e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 10/15] fix: reject signatures of the wrong length instead of
 panicking

---
 protocol/curve/curve25519/curve25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..41106f9 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -188,6 +188,10 @@ func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error)
 //
 // It is expected the given public key is Montgomery u-point.
 func VerifySignature(publicKey []byte, signature []byte, messages ...[]byte) (bool, error) {
+	if len(signature) != SignatureSize {
+		return false, nil
+	}
+
 	y, err := utoy(publicKey, (signature[63]&0b1000_0000) == 0)
 	if err != nil {
 		return false, err
-- 
2.43.0


From bed198e900d613a33294c486b71bcd9e92606f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 11/15] fix: do not share records between the in-memory stores
 and their users

Session and group operations modify the record they load before they know
whether they succeed. As the in-memory stores handed out the stored record
itself, failed operations were permanent: a forged pre-key message replaced
the current session by one nobody else shares, and a message refused because
of an untrusted identity could not be decrypted once the identity is trusted.
---
 protocol/session/group_record.go | 10 ++++++++++
 protocol/session/group_state.go  |  8 ++++++++
 protocol/session/record.go       | 12 ++++++++++++
 protocol/session/store_inmem.go  | 16 ++++++++++++----
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..19f8c62 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -21,6 +21,16 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// Clone returns a copy of the record which shares no mutable state with it.
+func (g *GroupRecord) Clone() *GroupRecord {
+	clone := NewGroupRecord()
+	for _, state := range g.states {
+		clone.states = append(clone.states, state.Clone())
+	}
+
+	return clone
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/group_state.go b/protocol/session/group_state.go
index c7dcf2b..ec9ca74 100644
--- a/protocol/session/group_state.go
+++ b/protocol/session/group_state.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"google.golang.org/protobuf/proto"
+
 	"github.com/RTann/libsignal-go/protocol/curve"
 	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 	"github.com/RTann/libsignal-go/protocol/senderkey"
@@ -45,6 +47,12 @@ func NewGroupState(cfg GroupStateConfig) *GroupState {
 	}
 }
 
+func (s *GroupState) Clone() *GroupState {
+	return &GroupState{
+		state: proto.Clone(s.state).(*v1.SenderKeyStateStructure),
+	}
+}
+
 func (s *GroupState) Version() uint32 {
 	switch v := s.state.GetMessageVersion(); v {
 	case 0:
diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..2a4c900 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,18 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// Clone returns a copy of the record which shares no mutable state with it.
+func (r *Record) Clone() *Record {
+	clone := &Record{
+		previousSessions: append([][]byte(nil), r.previousSessions...),
+	}
+	if r.currentSession != nil {
+		clone.currentSession = r.currentSession.Clone()
+	}
+
+	return clone
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..67e93af 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,11 +23,15 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	// Operations modify the record they load; only Store makes that permanent.
+	return record.Clone(), true, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
-	i.sessions[address] = record
+	i.sessions[address] = record.Clone()
 	return nil
 }
 
@@ -51,13 +55,17 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	// Operations modify the record they load; only Store makes that permanent.
+	return record.Clone(), true, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
 	i.senderKeys[key{
 		address: sender,
 		id:      distributionID,
-	}] = record
+	}] = record.Clone()
 	return nil
 }
-- 
2.43.0


From 65ca17262db499e2362f448ac4d00f08162cad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 12/15] fix: trust the identity of a pre-key message only once
 it is decrypted

The identity key was stored before the message was authenticated, so a forged
or corrupted first message made the receiver refuse the genuine one as coming
from an untrusted identity.
---
 protocol/session/cipher.go  |  8 +++++++-
 protocol/session/session.go | 21 ++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..1aa99bb 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -145,7 +145,7 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		record = NewRecord(nil)
 	}
 
-	preKeyID, err := s.ProcessPreKey(ctx, record, ciphertext)
+	preKeyID, err := s.processPreKey(ctx, record, ciphertext)
 	if err != nil {
 		return nil, err
 	}
@@ -155,6 +155,12 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	// The sender has proven to own the identity key only now.
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	if err != nil {
+		return nil, err
+	}
+
 	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
 	if err != nil {
 		return nil, err
diff --git a/protocol/session/session.go b/protocol/session/session.go
index 5658b21..86302e7 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -37,27 +37,30 @@ type Session struct {
 // This method returns the one-time pre-key used by "Alice" when sending the initial message,
 // if one was used.
 func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-	theirIdentityKey := message.IdentityKey()
-
-	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
+	unsignedPreKeyID, err := s.processPreKey(ctx, record, message)
 	if err != nil {
 		return nil, err
 	}
-	if !trusted {
-		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
-	}
 
-	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, message.IdentityKey())
 	if err != nil {
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
+	return unsignedPreKeyID, nil
+}
+
+// processPreKey does the same as ProcessPreKey without storing the remote identity key.
+func (s *Session) processPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
+	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, message.IdentityKey(), direction.Receiving)
 	if err != nil {
 		return nil, err
 	}
+	if !trusted {
+		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
+	}
 
-	return unsignedPreKeyID, nil
+	return s.processPreKeyV3(ctx, record, message)
 }
 
 func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-- 
2.43.0


From 334190164a8598c4ac9254614c153c99cc53d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 13/15] fix: refuse pre-key messages with the identity key of
 someone else

A further pre-key message of an existing session is not authenticated by the
identity key it carries. Where none was stored for the sender, a message whose
identity key had been replaced was accepted and the wrong key trusted, so that
the genuine sender was refused from then on.
---
 protocol/session/cipher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 1aa99bb..af290c0 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,15 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	// An existing session may have been found by the base key alone.
+	theirIdentityKey, exists, err := record.RemoteIdentityKey()
+	if err != nil {
+		return nil, err
+	}
+	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
+		return nil, errors.New("identity key does not belong to the session")
+	}
+
 	// The sender has proven to own the identity key only now.
 	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
 	if err != nil {
-- 
2.43.0


From 9f03db5b4116e18aeb3af7cd3369df26e3776810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 14/15] fix: refuse pre-key messages which carry a message of
 another session

---
 protocol/session/cipher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index af290c0..169a1b2 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -1,6 +1,7 @@
 package session
 
 import (
+	"bytes"
 	"context"
 	"encoding/hex"
 	"errors"
@@ -163,6 +164,10 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
 		return nil, errors.New("identity key does not belong to the session")
 	}
+	// The message itself may belong to another session.
+	if !bytes.Equal(record.State().AliceBaseKey(), ciphertext.BaseKey().Bytes()) {
+		return nil, errors.New("base key does not belong to the session")
+	}
 
 	// The sender has proven to own the identity key only now.
 	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
-- 
2.43.0


From 27fddb80db240dc5d1b85f77f16d7fcdefdc010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 15/15] fix: refuse pre-key messages with a non-canonical base
 key

---
 protocol/session/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 86302e7..c873665 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -64,6 +64,13 @@ func (s *Session) processPreKey(ctx context.Context, record *Record, message *me
 }
 
 func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
+	// Agreements ignore the last bit of a public key, so the same session
+	// could be set up again under another base key, if it may be set.
+	baseKey := message.BaseKey().KeyBytes()
+	if baseKey[len(baseKey)-1]&0x80 != 0 {
+		return nil, errors.New("base key is not canonical")
+	}
+
 	exists, err := record.HasSessionState(uint32(message.Version()), message.BaseKey().Bytes())
 	if err != nil {
 		return nil, err
-- 
2.43.0

