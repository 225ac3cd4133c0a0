From 6e7ba4daa6f4eea1e06d06fa499a105c3e891c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 01/37] fix: refuse a key index outside the key in
 AppendTrigraphByteByKey instead of panicking

---
 diana/diana.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diana/diana.go b/diana/diana.go
index 244f5c9..1088184 100644
--- a/diana/diana.go
+++ b/diana/diana.go
@@ -132,7 +132,7 @@ func AppendTrigraphByteByKey(writeTo *[]byte, character *byte, key *[]byte, keyI
 	if *keyIndex < 0 {
 		return ErrNegativeKeyIndex
 	}
-	if *keyIndex > len(*writeTo) {
+	if *keyIndex > len(*writeTo) || *keyIndex >= len(*key) {
 		return ErrKeyIndexOutOfBounds
 	}
 	var b byte
-- 
2.43.0


From 964dc73e0d9a91f99043abaabbeeb8705eeb239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 02/37] fix: NewTextMessage crashed when given a key id (second
 argument)

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 93237f4..76a7ee5 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From 29fda129f2cbc78bd4a72c1216aa0bdab13caa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 03/37] fix: mark an explicitly given key used when enciphering
 with it

---
 cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cipher.go b/cipher.go
index 124cdc1..60fd352 100644
--- a/cipher.go
+++ b/cipher.go
@@ -569,6 +569,9 @@ func (m *Message) Encipher() error {
 	if err != nil {
 		return err
 	}
+	// The key may have been given explicitly, EnrichWithKey only marks a key it
+	// found itself.
+	keyPtr.Used = true
 	chunk.key = keyPtr
 	// If something fails, we need to release all keys we have used.
 	releaseKeys := true
-- 
2.43.0


From bf1ed2385f2f9cb99ba83685551cb93cec9d6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 04/37] fix: message key id shared memory with the key, wiping
 one destroyed the other

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 60fd352..553cf60 100644
--- a/cipher.go
+++ b/cipher.go
@@ -537,7 +537,7 @@ func (m *Message) EnrichWithKey() error {
 	// Mark key as used.
 	designatedKey.Used = true
 	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From 18ae0541e243d265d4f65a4f7850ed02b2553bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 05/37] fix: FindKey picked compromised keys

---
 cipher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 553cf60..ce4cdb5 100644
--- a/cipher.go
+++ b/cipher.go
@@ -424,14 +424,14 @@ func (t *Message) Decode() error {
 }
 */
 
-// FindKey returns the first un-used key of the configured group size where all
+// FindKey returns the first un-used and un-compromised key of the configured group size where all
 // recipients are keepers of that key. If the recipient slice is empty, it will
 // find the first un-used anonymous key (a key without any keepers). Function
 // returns a pointer to the key. FindKey will not mark the key as used.
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From 108a90ce417068b2f4991f8695ad6b8f2b92565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 06/37] fix: enciphering a character outside the tables crashed
 instead of failing

---
 cipher.go    |  4 ++--
 krypto431.go | 37 +++++++++++++++++++------------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/cipher.go b/cipher.go
index ce4cdb5..ae8f1e9 100644
--- a/cipher.go
+++ b/cipher.go
@@ -304,8 +304,8 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// zero the copy of rune
 	c = 0
 	if !foundIt {
-		// enter binary mode
-		panic("binary mode not implemented yet")
+		// would have to enter binary mode, which is not implemented yet
+		return ErrUnsupportedCharacter
 	}
 
 	return nil
diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..5bf4c79 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -48,24 +48,25 @@ var (
 )
 
 var (
-	ErrNilPointer         = errors.New("received a nil pointer")
-	ErrCipherTextTooShort = errors.New("message cipher text is too short to decipher")
-	ErrNoKey              = errors.New("message has an invalid or no key")
-	ErrKeyNotFound        = errors.New("key not found")
-	ErrInvalidCoding      = errors.New("invalid character in encoded text (must be between A-Z)")
-	ErrInvalidControlChar = errors.New("invalid control character")
-	ErrTableTooShort      = errors.New("out-of-bounds, character table is too short")
-	ErrUnsupportedTable   = errors.New("character table not supported")
-	ErrOutOfKeys          = errors.New("can not encipher multi-key message, unable to find additional key(s)")
-	ErrNoCallSign         = errors.New("need to specify your call-sign")
-	ErrInvalidCallSign    = fmt.Errorf("invalid call-sign, should be at least %d characters long", MinimumCallSignLength)
-	ErrNoPersistence      = errors.New("missing file name for persisting keys, messages and settings")
-	ErrInvalidGroupSize   = errors.New("group size must be 1 or longer")
-	ErrKeyTooShort        = fmt.Errorf("key length must be %d characters or longer", MinimumSupportedKeyLength)
-	ErrTooNarrow          = fmt.Errorf("column width must be at least %d characters wide", MinimumColumnWidth)
-	ErrKeyColumnsTooShort = errors.New("key column width less than group size")
-	ErrFormatting         = errors.New("formatting error")
-	ErrNotCipherText      = errors.New("plaintext not identified as ciphertext")
+	ErrNilPointer           = errors.New("received a nil pointer")
+	ErrCipherTextTooShort   = errors.New("message cipher text is too short to decipher")
+	ErrNoKey                = errors.New("message has an invalid or no key")
+	ErrKeyNotFound          = errors.New("key not found")
+	ErrInvalidCoding        = errors.New("invalid character in encoded text (must be between A-Z)")
+	ErrInvalidControlChar   = errors.New("invalid control character")
+	ErrTableTooShort        = errors.New("out-of-bounds, character table is too short")
+	ErrUnsupportedCharacter = errors.New("text contains a character which is not in any character table (binary mode not implemented yet)")
+	ErrUnsupportedTable     = errors.New("character table not supported")
+	ErrOutOfKeys            = errors.New("can not encipher multi-key message, unable to find additional key(s)")
+	ErrNoCallSign           = errors.New("need to specify your call-sign")
+	ErrInvalidCallSign      = fmt.Errorf("invalid call-sign, should be at least %d characters long", MinimumCallSignLength)
+	ErrNoPersistence        = errors.New("missing file name for persisting keys, messages and settings")
+	ErrInvalidGroupSize     = errors.New("group size must be 1 or longer")
+	ErrKeyTooShort          = fmt.Errorf("key length must be %d characters or longer", MinimumSupportedKeyLength)
+	ErrTooNarrow            = fmt.Errorf("column width must be at least %d characters wide", MinimumColumnWidth)
+	ErrKeyColumnsTooShort   = errors.New("key column width less than group size")
+	ErrFormatting           = errors.New("formatting error")
+	ErrNotCipherText        = errors.New("plaintext not identified as ciphertext")
 )
 
 var (
-- 
2.43.0


From 37689bb04320aefd11f0a72ef619ca19253b9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 07/37] fix: dotless i and long s were silently enciphered as i
 and s

---
 cipher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cipher.go b/cipher.go
index ae8f1e9..18f12f5 100644
--- a/cipher.go
+++ b/cipher.go
@@ -277,6 +277,15 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// find character in one of the tables
 	c := *input
 	toUpper(&c, &c)
+	if c != *input {
+		// A few runes have an upper case letter in the tables without being its
+		// lower case letter and would be deciphered as another character.
+		l := c
+		toLower(&l, &l)
+		if l != *input {
+			return ErrUnsupportedCharacter
+		}
+	}
 	foundIt := false
 	for t := range CharacterTables {
 		for i, tc := range CharacterTables[t] {
-- 
2.43.0


From 551ff1af4fa3582375a2964374bbc089917ff6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 08/37] fix: a key change after a character needing several
 letters could overflow the key

---
 cipher.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 18f12f5..2e9d2ae 100644
--- a/cipher.go
+++ b/cipher.go
@@ -597,7 +597,24 @@ func (m *Message) Encipher() error {
 		}
 	}()
 	for i := range m.PlainText {
-		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
+		changeKey := state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey
+		if !changeKey && state.charCounter > 0 && i < len(m.PlainText)-1 {
+			// A character may need several letters, ensure there is room for it as
+			// well as for the key change that may have to follow it.
+			after := *state
+			tmp := make([]rune, 0, 4)
+			err := after.encodeCharacter(&m.PlainText[i], &tmp)
+			Wipe(&tmp)
+			if err != nil {
+				return err
+			}
+			room := m.instance.GroupSize + ControlCharactersNeededToChangeKey
+			if after.table == secondaryTable {
+				room-- // no need to switch table
+			}
+			changeKey = after.charCounter+room > chunk.key.KeyLength()
+		}
+		if changeKey {
 			keyPtr := m.instance.FindKey(m.Recipients...)
 			if keyPtr == nil {
 				return ErrOutOfKeys
-- 
2.43.0


From bc6eab94669e6ce9d613869af1750f7d3cb728dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 09/37] fix: a message that failed to encipher kept part of its
 cipher text although the keys were released

---
 cipher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cipher.go b/cipher.go
index 2e9d2ae..22d5841 100644
--- a/cipher.go
+++ b/cipher.go
@@ -588,6 +588,7 @@ func (m *Message) Encipher() error {
 		if releaseKeys {
 			m.instance.MarkKeyUsed(m.KeyId, false)
 			Wipe(&m.KeyId)
+			Wipe(&m.CipherText)
 			chunk.key.Used = false
 			for i := range chunks {
 				chunks[i].key.Used = false
-- 
2.43.0


From 645ed3a260faf605f1915c4bad67f0370d0832b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 10/37] fix: exporting from an instance without storage key or
 salt produced an empty key or salt instead of none

---
 persistence.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 62564c5..17d2205 100644
--- a/persistence.go
+++ b/persistence.go
@@ -487,8 +487,8 @@ func (k *Krypto431) Load() error {
 // override any copied field.
 func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Option) Krypto431 {
 	n := Krypto431{
-		persistenceKey:                BytePtr(ByteCopy(k.persistenceKey)),
-		salt:                          BytePtr(ByteCopy(k.salt)),
+		persistenceKey:                nil,
+		salt:                          nil,
 		overwritePersistenceIfExists:  false,
 		interactive:                   k.interactive,
 		overwriteExistingKeysOnImport: false,
@@ -500,6 +500,12 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		Messages:                      make([]Message, 0),
 		CallSign:                      RuneCopy(&k.CallSign),
 	}
+	if k.persistenceKey != nil {
+		n.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if k.salt != nil {
+		n.salt = BytePtr(ByteCopy(k.salt))
+	}
 	for _, opt := range opts {
 		opt(&n)
 	}
-- 
2.43.0


From 958c6cc2fa344c95d33e2959f8fae7a968d9b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 11/37] fix: exported keys shared memory with the originals,
 wiping one destroyed the other

---
 persistence.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/persistence.go b/persistence.go
index 17d2205..94b24e7 100644
--- a/persistence.go
+++ b/persistence.go
@@ -515,6 +515,14 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
 			newKey := k.Keys[i]
+			// The exported key must survive wiping of the original and vice versa.
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
+			newKey.Keepers = nil
+			for x := range k.Keys[i].Keepers {
+				newKey.Keepers = append(newKey.Keepers, RuneCopy(&k.Keys[i].Keepers[x]))
+			}
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From 97fa64ed7a2402a5b0d9998ef375dea3518403df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 12/37] fix: importing with the storage key and salt of the
 instance, as documented, wiped them

---
 persistence.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/persistence.go b/persistence.go
index 94b24e7..c339dec 100644
--- a/persistence.go
+++ b/persistence.go
@@ -552,6 +552,14 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// The incoming instance is wiped, do not wipe a key and salt that is likely
+	// to be ours, see above.
+	if incoming.persistenceKey != nil {
+		incoming.persistenceKey = BytePtr(ByteCopy(incoming.persistenceKey))
+	}
+	if incoming.salt != nil {
+		incoming.salt = BytePtr(ByteCopy(incoming.salt))
+	}
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
-- 
2.43.0


From 9394f04d174dc50f0de7a3c849f839fc691e2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 13/37] fix: keepers and recipients added shared memory with
 the call-sign of the caller and each other

---
 keys.go     | 2 +-
 messages.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index aab5542..7223bb9 100644
--- a/keys.go
+++ b/keys.go
@@ -144,7 +144,7 @@ func (k *Krypto431) GenerateKeys(n int, expire *string, keepers ...string) error
 func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
 		if !k.ContainsKeeper(keeper) {
-			k.Keepers = append(k.Keepers, keeper)
+			k.Keepers = append(k.Keepers, RuneCopy(&keeper))
 		}
 	}
 	return k
diff --git a/messages.go b/messages.go
index 76a7ee5..65c2d0e 100644
--- a/messages.go
+++ b/messages.go
@@ -293,7 +293,7 @@ func (k *Krypto431) NewUniqueMessageId() []rune {
 func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 	for _, recipient := range recipients {
 		if !m.ContainsRecipient(recipient) {
-			m.Recipients = append(m.Recipients, recipient)
+			m.Recipients = append(m.Recipients, RuneCopy(&recipient))
 		}
 	}
 	return m
-- 
2.43.0


From 4aa87bc4465217a142248a4fc9f3a19848ea391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 14/37] fix: ImportKeys ignored
 WithOverwriteExistingKeysOnImport among its options

---
 persistence.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index c339dec..dfc6996 100644
--- a/persistence.go
+++ b/persistence.go
@@ -567,6 +567,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		return 0, err
 	}
 	defer incoming.Wipe()
+	overwriteExisting := k.overwriteExistingKeysOnImport || incoming.overwriteExistingKeysOnImport
 	for i := range incoming.Keys {
 		if len(incoming.Keys[i].Id) != k.GroupSize {
 			fmt.Fprintf(os.Stderr, "Key ID %s is not %d characters long (our group size), will not import.", string(incoming.Keys[i].Id), k.GroupSize)
@@ -574,7 +575,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		}
 		if filterFunction(&incoming.Keys[i]) {
 			if k.ContainsKeyId(&incoming.Keys[i].Id) {
-				if !k.overwriteExistingKeysOnImport && k.interactive && IsTerminal() {
+				if !overwriteExisting && k.interactive && IsTerminal() {
 					overwrite := false
 					prompt := &survey.Confirm{
 						Message: fmt.Sprintf("Key ID %s already exist, replace with imported key?", string(incoming.Keys[i].Id)),
@@ -586,7 +587,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 					if !overwrite {
 						continue
 					}
-				} else if !k.overwriteExistingKeysOnImport {
+				} else if !overwriteExisting {
 					fmt.Fprintf(os.Stderr, "Key ID %s already exist, will not import.", string(incoming.Keys[i].Id))
 					continue
 				}
-- 
2.43.0


From 15810267b9c30687c0908cd57f9f15203d3c4671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 15/37] fix: importing from a store without call-sign added an
 empty keeper

---
 persistence.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index dfc6996..198c44d 100644
--- a/persistence.go
+++ b/persistence.go
@@ -624,8 +624,10 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 			newKey.instance = k
 			// Remove my call-sign from keepers, add incoming station's call-sign to
 			// keepers and hand over key to our instance (importedKey.instance = k).
-			newKey.RemoveKeeper(k.CallSign).AddKeeper(incoming.Keys[i].GetCallSign()).
-				SetInstance(k)
+			newKey.RemoveKeeper(k.CallSign).SetInstance(k)
+			if len(incoming.CallSign) > 0 {
+				newKey.AddKeeper(incoming.CallSign)
+			}
 			k.Keys = append(k.Keys, newKey)
 			keyCount++
 		}
-- 
2.43.0


From 4997610b8e4440b0498853bdef657b32986b7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 16/37] fix: wiping a message left its radiogram (plain text)
 and binary content in memory

---
 krypto431.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/krypto431.go b/krypto431.go
index 5bf4c79..fe3b964 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -367,6 +367,16 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	written, err = crand.ReadRunes(m.Radiogram)
+	if err != nil || written != len(m.Radiogram) {
+		for i := 0; i < len(m.Radiogram); i++ {
+			m.Radiogram[i] = 0
+		}
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	WipeBytes(&m.Binary)
 }
 
 // ZeroWipe assigned method for PlainText writes zeroes to Text and EncodedText
@@ -387,6 +397,16 @@ func (m *Message) ZeroWipe() {
 		m.KeyId[i] = 0
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	for i := 0; i < len(m.Radiogram); i++ {
+		m.Radiogram[i] = 0
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	for i := 0; i < len(m.Binary); i++ {
+		m.Binary[i] = 0
+	}
+	m.Binary = nil
 }
 
 // Wipe overwrites a chunk with either random runes or zeroes.
-- 
2.43.0


From faaad4be9c19b80c0bc145c11318e351ceea7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 17/37] fix: saving or loading with a wiped storage key crashed

---
 persistence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/persistence.go b/persistence.go
index 198c44d..c3e6f70 100644
--- a/persistence.go
+++ b/persistence.go
@@ -376,6 +376,9 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK // e.g wiped
+	}
 	// Create persistence file if it does not exist or truncate it if it does exist.
 	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
 	if err != nil {
@@ -440,6 +443,9 @@ func (k *Krypto431) Load() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK // e.g wiped
+	}
 	// Load persisted data...
 	f, err = os.Open(k.persistence)
 	if err != nil {
-- 
2.43.0


From e8657e23f12ebc0bd8d4e07e17714518262df6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 18/37] fix: loading mixed what was in the instance with what
 is in the file and did not verify the checksum

---
 persistence.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index c3e6f70..d98e9b1 100644
--- a/persistence.go
+++ b/persistence.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"log"
 	"os"
@@ -44,6 +45,7 @@ var (
 	ErrInvalidPFK     = errors.New("persistence file key is invalid, must be 32 bytes long")
 	ErrPasswordInput  = errors.New("password input error")
 	ErrCopyKeyFailure = errors.New("copy key failure")
+	ErrTrailingData   = errors.New("persistence file has trailing data")
 )
 
 // DerivePFKFromPassword uses PBKDF2 to produce the 32 byte long key used to
@@ -466,11 +468,34 @@ func (k *Krypto431) Load() error {
 		return err
 	}
 	defer fgz.Close()
+	// Decode into a new instance, gob leaves what is not in the file as it is and
+	// may fail after having decoded some of it.
+	loaded := Krypto431{
+		GroupSize:  k.GroupSize,
+		KeyLength:  k.KeyLength,
+		Columns:    k.Columns,
+		KeyColumns: k.KeyColumns,
+	}
 	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(k)
+	err = gobDecoder.Decode(&loaded)
 	if err != nil {
 		return err
 	}
+	// The checksum is at the end.
+	trailing, err := io.Copy(io.Discard, fgz)
+	if err != nil {
+		return err
+	}
+	if trailing > 0 {
+		return ErrTrailingData
+	}
+	k.GroupSize = loaded.GroupSize
+	k.KeyLength = loaded.KeyLength
+	k.Columns = loaded.Columns
+	k.KeyColumns = loaded.KeyColumns
+	k.Keys = loaded.Keys
+	k.Messages = loaded.Messages
+	k.CallSign = loaded.CallSign
 	// Fix all non-exported instance fields in keys and messages...
 	for i := range k.Keys {
 		k.Keys[i].instance = k
-- 
2.43.0


From 586e19dc2427b44f56ad622e93fc161a2bd7a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 19/37] fix: keys --invalid selected the valid keys

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From 0e5109ad17728f8ba25b7215067a978d8ea8ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:54 +0000
Subject: [PATCH 20/37] fix: PDF files with keys or messages were readable by
 everyone

---
 print.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..ed7b61b 100644
--- a/print.go
+++ b/print.go
@@ -272,7 +272,7 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// page...
 	pdf.AddPage()
 	pdf.MultiCell(0, 3, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -315,5 +315,14 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	// than maxRows...
 	pdf.AddPage()
 	pdf.MultiCell(0, 4, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
+}
+
+// writePDF writes a PDF to a file only readable by the owner.
+func writePDF(pdf *gofpdf.Fpdf, filename string) error {
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	return pdf.OutputAndClose(f)
 }
-- 
2.43.0


From f2efcae375af1aa085c8d3c0512a630281de2b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:54 +0000
Subject: [PATCH 21/37] fix: messages --new printed the cipher text before the
 keys were saved as used

---
 cmd/krypto431/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 1be8a18..bc3fe1d 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -132,11 +132,12 @@ func messages(c *cli.Context) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(msg.String())
+		// Do not reveal the cipher text before its keys are on file as used.
 		err = k.Save()
 		if err != nil {
 			return err
 		}
+		fmt.Println(msg.String())
 		eprintf("Saved message %s in %s."+LineBreak, msg.IdString(), k.GetPersistence())
 	}
 
-- 
2.43.0


From d018ad5d5c18c10d7717e30a7bdea4f357e12f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:56 +0000
Subject: [PATCH 22/37] fix: a keeper or recipient listed more than once was
 only removed once

---
 keys.go     | 5 +++--
 messages.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/keys.go b/keys.go
index 7223bb9..7f9659e 100644
--- a/keys.go
+++ b/keys.go
@@ -154,12 +154,13 @@ func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 // chained.
 func (k *Key) RemoveKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
-		for i := range k.Keepers {
+		for i := 0; i < len(k.Keepers); {
 			if EqualRunesFold(&keeper, &k.Keepers[i]) {
 				k.Keepers[i] = k.Keepers[len(k.Keepers)-1]
 				k.Keepers = k.Keepers[:len(k.Keepers)-1]
-				break
+				continue // may be there more than once
 			}
+			i++
 		}
 	}
 	return k
diff --git a/messages.go b/messages.go
index 65c2d0e..19143fc 100644
--- a/messages.go
+++ b/messages.go
@@ -303,12 +303,13 @@ func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 // chained.
 func (m *Message) RemoveRecipient(recipients ...[]rune) *Message {
 	for _, recipient := range recipients {
-		for i := range m.Recipients {
+		for i := 0; i < len(m.Recipients); {
 			if EqualRunesFold(&recipient, &m.Recipients[i]) {
 				m.Recipients[i] = m.Recipients[len(m.Recipients)-1]
 				m.Recipients = m.Recipients[:len(m.Recipients)-1]
-				break
+				continue // may be there more than once
 			}
+			i++
 		}
 	}
 	return m
-- 
2.43.0


From 1c7a52274308fb9e7c01f3b54ac53286ab502eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 23/37] fix: a failing or interrupted save destroyed the stored
 data and write errors were not reported

---
 persistence.go | 68 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/persistence.go b/persistence.go
index d98e9b1..6845756 100644
--- a/persistence.go
+++ b/persistence.go
@@ -381,11 +381,61 @@ func (k *Krypto431) Save() error {
 	if len(*k.persistenceKey) != 32 {
 		return ErrInvalidPFK // e.g wiped
 	}
-	// Create persistence file if it does not exist or truncate it if it does exist.
-	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	// Write to a temporary file which replaces the persistence file (or what it
+	// is a symbolic link to) when it is complete, so that nothing is lost if
+	// writing fails or is interrupted.
+	target, err := filepath.EvalSymlinks(k.persistence)
+	if err != nil {
+		if !errors.Is(err, fs.ErrNotExist) {
+			return err
+		}
+		target = k.persistence
+	}
+	info, err := os.Lstat(target)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	exists := err == nil
+	if exists && !info.Mode().IsRegular() {
+		// A device or dangling link, there is nothing to lose.
+		f, err := os.OpenFile(target, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+		if err != nil {
+			return err
+		}
+		return k.writeTo(f, false)
+	}
+	f, err := os.CreateTemp(filepath.Dir(target), "."+filepath.Base(target)+".tmp*") // mode 0600
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name()) // fails when renamed
+	if exists {
+		err = f.Chmod(info.Mode().Perm())
+		if err != nil {
+			f.Close()
+			return err
+		}
+	}
+	err = k.writeTo(f, true)
 	if err != nil {
 		return err
 	}
+	err = os.Rename(f.Name(), target)
+	if err != nil {
+		return err
+	}
+	// Best effort, not all platforms can sync a directory.
+	dir, err := os.Open(filepath.Dir(target))
+	if err == nil {
+		dir.Sync()
+		dir.Close()
+	}
+	return nil
+}
+
+// writeTo writes the instance to f, optionally ensures that it is on disk, and
+// closes f.
+func (k *Krypto431) writeTo(f *os.File, sync bool) error {
 	defer f.Close()
 	// Krypto431 persistence files are encrypted, gzipped GOB files.
 	encrypter, err := stream.NewEncryptedStream(f, &stream.Config{
@@ -396,15 +446,23 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	defer encrypter.Close()
 	fgz := gzip.NewWriter(encrypter)
-	defer fgz.Close()
 	gobEncoder := gob.NewEncoder(fgz)
 	err = gobEncoder.Encode(k)
 	if err != nil {
 		return err
 	}
-	return nil
+	err = fgz.Close()
+	if err != nil {
+		return err
+	}
+	if sync {
+		err = f.Sync()
+		if err != nil {
+			return err
+		}
+	}
+	return encrypter.Close() // closes f
 }
 
 // Krypto431_Load() loads a Krypto431 instance from the configured persistence
-- 
2.43.0


From c01c92c5e69bedd7f53c6ccc3038bed5d461237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 24/37] fix: having loaded one file allowed saving over any
 other

---
 krypto431.go   | 1 +
 persistence.go | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index fe3b964..373807a 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -98,6 +98,7 @@ type GroupFormatter interface {
 type Krypto431 struct {
 	mx                            *sync.Mutex
 	persistence                   string
+	loadedPersistence             string
 	persistenceKey                *[]byte
 	salt                          *[]byte
 	overwritePersistenceIfExists  bool
diff --git a/persistence.go b/persistence.go
index 6845756..c791ee8 100644
--- a/persistence.go
+++ b/persistence.go
@@ -345,7 +345,7 @@ func (k *Krypto431) Save() error {
 		}
 	} else {
 		// persistence already exists
-		if !k.overwritePersistenceIfExists {
+		if !k.overwritePersistenceIfExists && k.persistence != k.loadedPersistence {
 			if k.interactive && IsTerminal() {
 				overwrite := false
 				prompt := &survey.Confirm{
@@ -562,7 +562,7 @@ func (k *Krypto431) Load() error {
 		k.Messages[i].instance = k
 	}
 	// Allow overwriting file after it's been loaded...
-	k.overwritePersistenceIfExists = true
+	k.loadedPersistence = k.persistence
 	return nil
 }
 
-- 
2.43.0


From ed67d03e373e03046c09c0a901a8f2b3a1ee2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 25/37] fix: the word de in the text of a short radiogram was
 taken for the start of the sender

---
 messages.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/messages.go b/messages.go
index 19143fc..309380c 100644
--- a/messages.go
+++ b/messages.go
@@ -45,7 +45,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpFull *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*)\s*==\s*(?:[A-Z\s]*\s*[\d]*)\s*=\s*(.*)`)
+	MessageRegexpFull *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*)\s*==\s*(?:[A-Z\s]*\s*[\d]*)\s*=\s*(.*)`)
 
 	// Semi-full message format, without message instructions (tjänsteanmärkning),
 	// optional group count (both are non-capturing groups).
@@ -55,7 +55,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpSemi *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*\s*[\d]*)\s*=\s*(.*)`)
+	MessageRegexpSemi *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*==\s*(?:[A-Z0-9/,\s]*\s*[\d]*)\s*=\s*(.*)`)
 
 	// Short message format.
 	//  AA BB CC DE VJ 012345 COL = HELLO WORLD = SECTION 2 GOES HERE, INCLUDED IN TXT = K
@@ -66,7 +66,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
+	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
 
 	// Even shorter format.
 	//  DE SA6MWA HELLO WORLD
@@ -75,7 +75,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpMini *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*=*\s*(.*)`)
+	MessageRegexpMini *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*=*\s*(.*)`)
 
 	// Regexp to match trailing = K, K, +, [AR], AR, etc in a string (e.g to clean
 	// up the message text).
-- 
2.43.0


From 2ed0cb66472d8609096adbd9b949b47798aabbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 26/37] fix: init saved a store without call-sign when the
 given one was refused

---
 cmd/krypto431/initialize.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/initialize.go b/cmd/krypto431/initialize.go
index 2385650..2b72c7e 100644
--- a/cmd/krypto431/initialize.go
+++ b/cmd/krypto431/initialize.go
@@ -162,7 +162,11 @@ func initialize(c *cli.Context) error {
 	)
 	defer k.Wipe()
 
-	err := setSaltAndPFK(c, &k)
+	err := k.SetCallSign(o.call)
+	if err != nil {
+		return err
+	}
+	err = setSaltAndPFK(c, &k)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 9d52b0edd80cd24b57d0500daa23b41872d95e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 27/37] fix: listing a message whose key has turned up
 deciphered it without saving the key as used

---
 cmd/krypto431/messages.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index bc3fe1d..b00bab1 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -149,7 +149,16 @@ func messages(c *cli.Context) error {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
 			return nil
 		}
+		undeciphered := withoutKey(&k)
 		header, lines := k.SummaryOfMessages(filterFunction)
+		if withoutKey(&k) != undeciphered {
+			// Messages were deciphered as their keys have turned up, record that
+			// these keys are used.
+			err := k.Save()
+			if err != nil {
+				return err
+			}
+		}
 		if len(lines) == 0 {
 			plural := ""
 			if messages > 1 {
@@ -198,3 +207,14 @@ func messages(c *cli.Context) error {
 	}
 	return nil
 }
+
+// withoutKey returns the number of messages without key id, i.e plain or not
+// deciphered yet.
+func withoutKey(k *krypto431.Krypto431) (n int) {
+	for i := range k.Messages {
+		if len(k.Messages[i].KeyId) == 0 {
+			n++
+		}
+	}
+	return
+}
-- 
2.43.0


From 8ec3a62bb4f53e6167e19fdbb1c47ff3b10ec056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 28/37] fix: a key or message longer than a page was printed
 before the shorter ones preceding it

---
 print.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/print.go b/print.go
index ed7b61b..41a0caa 100644
--- a/print.go
+++ b/print.go
@@ -254,6 +254,11 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 		text := kp[i].String()
 		textLines := blox.LineCount(text) + 5
 		if textLines > maxRows {
+			if page != "" {
+				pdf.AddPage()
+				pdf.MultiCell(0, 3, page, "", "", false)
+				page = ""
+			}
 			pdf.AddPage()
 			pdf.MultiCell(0, 3, text, "", "", false)
 			rowCount = 0
@@ -297,6 +302,11 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 		text := mp[i].String(95)
 		textLines := blox.LineCount(text) + 2
 		if textLines > maxRows {
+			if page != "" {
+				pdf.AddPage()
+				pdf.MultiCell(0, 4, page, "", "", false)
+				page = ""
+			}
 			pdf.AddPage()
 			pdf.MultiCell(0, 4, text, "", "", false)
 			rowCount = 0
-- 
2.43.0


From 0bb179d249aa264507086629b29c71886f288727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 29/37] fix: a long list of keepers overwrote the key id and
 was cut on key sheets

---
 print.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/print.go b/print.go
index 41a0caa..a9705e0 100644
--- a/print.go
+++ b/print.go
@@ -60,6 +60,21 @@ func (k *Key) String() string {
 	if k.instance.Columns > cols {
 		cols = k.instance.Columns
 	}
+	keepers := "NIL"
+	if len(k.Keepers) > 0 {
+		keepers = k.JoinKeepers(",")
+	}
+	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
+		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
+	keeperLines := ""
+	if utf8.RuneCountInString(header)+len(k.Id)+1 > cols {
+		// There is no room for all keepers beside the key id, put them below it.
+		header = fmt.Sprintf("/ EXPIRES: %s / CREATED: %s / USED: [%s]",
+			k.Expires, k.Created, k.UsedOrNotString("X", " "))
+		keeperLines = blox.WrapString("KEEPERS: "+k.JoinKeepers(", "), uint(cols))
+		headerLines += blox.LineCount(keeperLines)
+	}
+
 	// Calculate rows...
 	rows := headerLines + footerLines
 	if rtLines > groupsLines*groupsLineSpacing {
@@ -68,17 +83,10 @@ func (k *Key) String() string {
 		rows += groupsLines * groupsLineSpacing
 	}
 
-	keepers := "NIL"
-	if len(k.Keepers) > 0 {
-		keepers = k.JoinKeepers(",")
-	}
-	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
-		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
-
 	// Just because you can...
 	return blox.New().SetColumnsAndRows(cols, rows).Trim().
 		DrawSeparator('_').PutTextRightAligned(header).Move(0, 1).
-		PutLine(k.Id).MoveDown().DrawSeparator().MoveDown().PushPos().
+		PutLine(k.Id).Move(0, 2).PutText(keeperLines).DrawSeparator().MoveDown().PushPos().
 		PutTextRightAligned(diana.ReciprocalTable).PopPos().
 		SetLineSpacing(groupsLineSpacing).PutText(groups).SetLineSpacing(1).
 		Move(0, rows-footerLines).PutText(KeyFooter).String()
-- 
2.43.0


From 6a6ca267be1c9844c64e8657f6e401c480761199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 30/37] fix: long lists of recipients and long senders were cut
 in the header of printed messages

---
 print.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/print.go b/print.go
index a9705e0..a982815 100644
--- a/print.go
+++ b/print.go
@@ -118,13 +118,12 @@ func (m *Message) String(width ...int) string {
 	}
 	tDtgKeyLen := blox.MaximumLineLength(templateDtgAndKey)
 	tToFromLen := blox.MaximumLineLength(templateToFrom)
-	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(keyid))
+	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(keyid), len(m.From))
 	if len(width) > 0 {
-		if width[0] < minWidth {
-			w = minWidth
-		} else {
-			w = width[0]
-		}
+		w = width[0]
+	}
+	if w < minWidth {
+		w = minWidth
 	}
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
-- 
2.43.0


From f7d538fffaa155f60b3d49b51b362b75734a16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:30 +0000
Subject: [PATCH 31/37] fix: call-signs and ids separated by a tab or line
 break were taken for a single one

---
 functions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions.go b/functions.go
index 8588ce5..b2562a6 100644
--- a/functions.go
+++ b/functions.go
@@ -169,7 +169,7 @@ func JoinRunesToString(runes *[][]rune, separator string) string {
 // Key.Keepers.
 func VettedKeepers(keepers ...string) (vettedKeepers [][]rune) {
 	f := func(c rune) bool {
-		return c == ',' || c == ' '
+		return c == ',' || unicode.IsSpace(c)
 	}
 	for i := range keepers {
 		subKeepers := strings.FieldsFunc(keepers[i], f)
@@ -204,7 +204,7 @@ func VettedKeys(keys ...string) [][]rune {
 func VettedMessageIds(ids ...string) [][]rune {
 	var vettedMessageIds [][]rune
 	f := func(c rune) bool {
-		return c == ',' || c == ' '
+		return c == ',' || unicode.IsSpace(c)
 	}
 	for i := range ids {
 		subIds := strings.FieldsFunc(ids[i], f)
-- 
2.43.0


From b4fce40dbc22affd5395487b6d834de6694bae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:29 +0000
Subject: [PATCH 32/37] fix: the traffic of messages of 10000 groups or more
 was not understood by the receiver

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 309380c..c120658 100644
--- a/messages.go
+++ b/messages.go
@@ -66,7 +66,7 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 2 = FROM,
 	//  Group 3 = DTG (optional, can be empty!),
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
-	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
+	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*?)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]*)\s*=\s*(.*)`)
 
 	// Even shorter format.
 	//  DE SA6MWA HELLO WORLD
-- 
2.43.0


From 606ef4367ab6daf53352bfbb02967f6ee79ade24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 33/37] fix: wiping left the secrets in memory when the random
 source failed

---
 krypto431.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 373807a..5135246 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -197,10 +197,8 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
 		ZeroWipe(b)
+		return err
 	}
 	*b = nil
 	return nil
@@ -244,10 +242,8 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
 		ZeroWipeBytes(b)
+		return err
 	}
 	*b = nil
 	return nil
-- 
2.43.0


From 6a5539c9b2a2dd82a45f8b02cc96f85a9e7da35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:21 +0000
Subject: [PATCH 34/37] fix: in listings of messages without a sender the word
 NIL ran into the digest

---
 functions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.go b/functions.go
index b2562a6..9540a55 100644
--- a/functions.go
+++ b/functions.go
@@ -363,6 +363,9 @@ func predictColumnSizesOfMessages(messages []*Message) (columnSizes [5]int) {
 			}
 		}
 		fromLen := len(messages[i].From)
+		if fromLen == 0 {
+			fromLen = len(NilRunes)
+		}
 		if columnSizes[3] < fromLen {
 			columnSizes[3] = fromLen
 		}
-- 
2.43.0


From 60966c027ac63d3cd706c467ef157f04207078cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:47 +0000
Subject: [PATCH 35/37] fix: carry out the other tasks of a command when there
 is nothing to delete

---
 cmd/krypto431/keys.go     | 46 +++++++++++++++++++--------------------
 cmd/krypto431/messages.go | 46 +++++++++++++++++++--------------------
 2 files changed, 44 insertions(+), 48 deletions(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index fef4bda..c695712 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -91,12 +91,10 @@ func keys(c *cli.Context) error {
 	}
 
 	// delete keys
-	if c.IsSet(oDelete) && o.deleteItems {
+	if c.IsSet(oDelete) && o.deleteItems && len(k.Keys) == 0 {
+		eprintf("There are no keys in %s."+LineBreak, k.GetPersistence())
+	} else if c.IsSet(oDelete) && o.deleteItems {
 		keys := len(k.Keys)
-		if keys == 0 {
-			eprintf("There are no keys in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
 		deleted := 0
 		if !o.yes {
 			_, lines := k.SummaryOfKeys(filterFunction)
@@ -106,28 +104,28 @@ func keys(c *cli.Context) error {
 					plural = "s"
 				}
 				eprintf("No key out of %d key"+plural+" in %s matched criteria."+LineBreak, keys, k.GetPersistence())
-				return nil
-			}
-			var keyStrings []string
-			for i := range lines {
-				keyStrings = append(keyStrings, string(lines[i]))
-			}
-			var response []string
-			prompt := &survey.MultiSelect{
-				Message:  "Select key(s) to delete",
-				Help:     "Columns are ID, KEEPERS, CREATED, EXPIRES, USED, COMPROMISED and COMMENT",
-				Options:  keyStrings,
-				PageSize: 20,
-			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
-			if err != nil {
-				return err
-			}
-			if len(response) > 0 {
-				deleted, err = k.DeleteKeysBySummaryString(response...)
+			} else {
+				var keyStrings []string
+				for i := range lines {
+					keyStrings = append(keyStrings, string(lines[i]))
+				}
+				var response []string
+				prompt := &survey.MultiSelect{
+					Message:  "Select key(s) to delete",
+					Help:     "Columns are ID, KEEPERS, CREATED, EXPIRES, USED, COMPROMISED and COMMENT",
+					Options:  keyStrings,
+					PageSize: 20,
+				}
+				err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
 				if err != nil {
 					return err
 				}
+				if len(response) > 0 {
+					deleted, err = k.DeleteKeysBySummaryString(response...)
+					if err != nil {
+						return err
+					}
+				}
 			}
 		} else {
 			// Do it, don't ask.
diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index b00bab1..05d7834 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -70,12 +70,10 @@ func messages(c *cli.Context) error {
 	}
 
 	// delete messages
-	if c.IsSet(oDelete) && o.deleteItems {
+	if c.IsSet(oDelete) && o.deleteItems && len(k.Messages) == 0 {
+		eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
+	} else if c.IsSet(oDelete) && o.deleteItems {
 		messages := len(k.Messages)
-		if messages == 0 {
-			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
 		deleted := 0
 		if !o.yes {
 			_, lines := k.SummaryOfMessages(filterFunction)
@@ -85,28 +83,28 @@ func messages(c *cli.Context) error {
 					plural = "s"
 				}
 				eprintf("No message out of %d message"+plural+" in %s matched criteria."+LineBreak, messages, k.GetPersistence())
-				return nil
-			}
-			var messageStrings []string
-			for i := range lines {
-				messageStrings = append(messageStrings, string(lines[i]))
-			}
-			var response []string
-			prompt := &survey.MultiSelect{
-				Message:  "Select message(s) to delete",
-				Help:     "Columns are ID, DTG, TO, FROM (DE) and DIGEST",
-				Options:  messageStrings,
-				PageSize: 20,
-			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
-			if err != nil {
-				return err
-			}
-			if len(response) > 0 {
-				deleted, err = k.DeleteMessagesBySummaryString(response...)
+			} else {
+				var messageStrings []string
+				for i := range lines {
+					messageStrings = append(messageStrings, string(lines[i]))
+				}
+				var response []string
+				prompt := &survey.MultiSelect{
+					Message:  "Select message(s) to delete",
+					Help:     "Columns are ID, DTG, TO, FROM (DE) and DIGEST",
+					Options:  messageStrings,
+					PageSize: 20,
+				}
+				err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
 				if err != nil {
 					return err
 				}
+				if len(response) > 0 {
+					deleted, err = k.DeleteMessagesBySummaryString(response...)
+					if err != nil {
+						return err
+					}
+				}
 			}
 		} else {
 			// Do it, don't ask.
-- 
2.43.0


From 066bc6a1028dfe5127ce23257b52ea45adab9af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 36/37] fix: remove only the named call-signs when given a part
 of the list itself

---
 keys.go     | 2 ++
 messages.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/keys.go b/keys.go
index 7f9659e..fd86876 100644
--- a/keys.go
+++ b/keys.go
@@ -153,6 +153,8 @@ func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 // RemoveKeeper removes keeper(s) from the Keepers slice if found. Can be
 // chained.
 func (k *Key) RemoveKeeper(keepers ...[]rune) *Key {
+	// The arguments may be (part of) the list they are removed from.
+	keepers = append([][]rune(nil), keepers...)
 	for _, keeper := range keepers {
 		for i := 0; i < len(k.Keepers); {
 			if EqualRunesFold(&keeper, &k.Keepers[i]) {
diff --git a/messages.go b/messages.go
index c120658..083aff8 100644
--- a/messages.go
+++ b/messages.go
@@ -302,6 +302,8 @@ func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 // RemoveRecipient removes recipient(s) from the Recipients slice if found. Can be
 // chained.
 func (m *Message) RemoveRecipient(recipients ...[]rune) *Message {
+	// The arguments may be (part of) the list they are removed from.
+	recipients = append([][]rune(nil), recipients...)
 	for _, recipient := range recipients {
 		for i := 0; i < len(m.Recipients); {
 			if EqualRunesFold(&recipient, &m.Recipients[i]) {
-- 
2.43.0


From 3e42dc79b7494a4d1e7987d4c939dac40714a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:24 +0000
Subject: [PATCH 37/37] fix: record the keys of messages deciphered for the
 prompt of messages -d

The list of messages to delete deciphers those whose keys have turned up and
shows their text, without recording in the store that their keys are used.
---
 cmd/krypto431/messages.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 05d7834..f65bda0 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -76,7 +76,10 @@ func messages(c *cli.Context) error {
 		messages := len(k.Messages)
 		deleted := 0
 		if !o.yes {
-			_, lines := k.SummaryOfMessages(filterFunction)
+			_, lines, err := summaryOfMessages(&k, filterFunction)
+			if err != nil {
+				return err
+			}
 			if len(lines) == 0 {
 				plural := ""
 				if messages > 1 {
@@ -147,15 +150,9 @@ func messages(c *cli.Context) error {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
 			return nil
 		}
-		undeciphered := withoutKey(&k)
-		header, lines := k.SummaryOfMessages(filterFunction)
-		if withoutKey(&k) != undeciphered {
-			// Messages were deciphered as their keys have turned up, record that
-			// these keys are used.
-			err := k.Save()
-			if err != nil {
-				return err
-			}
+		header, lines, err := summaryOfMessages(&k, filterFunction)
+		if err != nil {
+			return err
 		}
 		if len(lines) == 0 {
 			plural := ""
@@ -206,6 +203,17 @@ func messages(c *cli.Context) error {
 	return nil
 }
 
+// summaryOfMessages lists messages to show them. Messages are deciphered if
+// their keys have turned up, it is recorded that these keys are used.
+func summaryOfMessages(k *krypto431.Krypto431, filter func(msg *krypto431.Message) bool) (header []rune, lines [][]rune, err error) {
+	undeciphered := withoutKey(k)
+	header, lines = k.SummaryOfMessages(filter)
+	if withoutKey(k) != undeciphered {
+		err = k.Save()
+	}
+	return
+}
+
 // withoutKey returns the number of messages without key id, i.e plain or not
 // deciphered yet.
 func withoutKey(k *krypto431.Krypto431) (n int) {
-- 
2.43.0

