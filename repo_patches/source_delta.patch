From 41640057c7b3bf740bed6b773120bd452120c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 01/18] fix: pad public point coordinates to 32 bytes in
 AddrHex

---
 util/key_path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..40147ac 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,9 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	addrBs := make([]byte, 64)
+	x.FillBytes(addrBs[:32])
+	y.FillBytes(addrBs[32:])
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From bf0da3c5f2f4474752e063a7c89a5bb1075e715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 02/18] fix: report random source failures from NewEntropy

---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..3412f57 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0


From 504651753a514d7f4869beafeacfdbb880d78f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 03/18] fix: return no seed when the random source fails

---
 bip32/bip32.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..2730b30 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -388,6 +388,8 @@ func B58Deserialize(data string) (Key, error) {
 func NewSeed() ([]byte, error) {
 	// Well that easy, just make go read 256 random bytes into a slice
 	s := make([]byte, 256)
-	_, err := rand.Read(s)
-	return s, err
+	if _, err := rand.Read(s); err != nil {
+		return nil, err
+	}
+	return s, nil
 }
-- 
2.43.0


From 2781e9968410bd6b6b7a9485a0a097ac0335b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 04/18] fix: reject path components that do not fit in 32 bits

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..69a58b9 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -55,7 +55,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 		isHardened := strings.Contains(s, "'")
 		if isHardened {
 			fmtStr := strings.ReplaceAll(s, "'", "")
-			val, err := strconv.Atoi(fmtStr)
+			val, err := strconv.ParseUint(fmtStr, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
@@ -64,7 +64,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
 		} else {
-			val, err := strconv.Atoi(s)
+			val, err := strconv.ParseUint(s, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
-- 
2.43.0


From 03ce517dfc6f6c84957728bdaad2315c547db7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 05/18] fix: compare path depth without truncating the path
 length

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 69a58b9..f5a7790 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -83,7 +83,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if !(int(b) < len(vals)) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -94,7 +94,7 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	if !(int(b) < len(vals)) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From aa7009475afb0d082dbd784569a27473678ec426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 06/18] fix: fail path edits that do not give a valid path

---
 bip32/path.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index f5a7790..047666f 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -94,7 +94,8 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(int(b) < len(vals)) {
+	// there's no value to replace at depth 0
+	if b == 0 || !(int(b) < len(vals)) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
@@ -103,5 +104,9 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	} else {
 		valsArr[b] = fmt.Sprintf("%d", val)
 	}
-	return Path(strings.Join(valsArr, "/")), nil
+	editedPath := Path(strings.Join(valsArr, "/"))
+	if !editedPath.IsValid() {
+		return newPath, ErrUnSupportedOrInvalidPath
+	}
+	return editedPath, nil
 }
-- 
2.43.0


From 5b3a4a26db5628cc82c504ae01dc2c0da5e13b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 07/18] fix: refuse key ranges whose end precedes their start

---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 40147ac..05605f6 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -79,7 +79,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if endIndex <= startIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
-- 
2.43.0


From b9166e9b3b7f7b93b01c3ca3c7e9b2fb501a0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 08/18] fix: pass on child derivation errors from paths and
 ranges

---
 util/key_path.go | 6 +++++-
 util/util.go     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/key_path.go b/util/key_path.go
index 05605f6..407ff0e 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -97,7 +97,11 @@ func (k *KeyPathRange) GenerateRange() error {
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		var err error
+		currentKey, err = currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
diff --git a/util/util.go b/util/util.go
index 4e31e0f..838c200 100644
--- a/util/util.go
+++ b/util/util.go
@@ -116,7 +116,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0


From 0f462fd1ccb851415c7717b3ed81ef9c09cccd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 09/18] fix: derive key ranges as siblings below the base key

---
 util/key_path.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/util/key_path.go b/util/key_path.go
index 407ff0e..4f28169 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -89,22 +89,20 @@ func (k *KeyPathRange) GenerateRange() error {
 		return ErrUnSupportedOrInvalidPath
 	}
 
-	currentKey := k.Key
-	derivedPath := k.Path.String()
+	basePath := k.Path.String()
 	keyPaths := make([]KeyPath, 0)
 	for i := startIndex; i < endIndex; i++ {
-		derivedPath = fmt.Sprintf("%s/%d", derivedPath, i%bip32.FirstHardenedChild)
+		derivedPath := fmt.Sprintf("%s/%d", basePath, i%bip32.FirstHardenedChild)
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		var err error
-		currentKey, err = currentKey.NewChildKey(i)
+		childKey, err := k.Key.NewChildKey(i)
 		if err != nil {
 			return err
 		}
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
-			Key:  currentKey,
+			Key:  childKey,
 		})
 	}
 	k.KeyPaths = keyPaths
-- 
2.43.0


From 9a088805b7680a759eb66acf59c2bcf6711fcf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 10/18] fix: refuse to derive children below depth 255

---
 bip32/bip32.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 2730b30..5e8f3c0 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -72,6 +72,10 @@ var (
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
 	ErrEmptyKey = errors.New("key is empty")
+
+	// ErrMaxDepth is returned when trying to create a child of a key whose depth
+	// is already the highest that fits in an extended key
+	ErrMaxDepth = errors.New("can't create child below the maximum depth")
 )
 
 // NewMasterKey creates a new master extended key from a seed
@@ -111,6 +115,9 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	if key[DepthStartIndex] == 0xff {
+		return childKey, ErrMaxDepth
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
-- 
2.43.0


From 98cdcf7f30a55d4d79d381fc20d4f0b3b6087e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 11/18] fix: report unusable child derivation results as errors

---
 bip32/bip32.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 5e8f3c0..acffe77 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -122,6 +122,10 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if err != nil {
 		return childKey, err
 	}
+	err = ValidatePrivateKey(PvtKeyBytes(intermediary[:32]))
+	if err != nil {
+		return childKey, err
+	}
 	vs := Version(key[VersionStartIndex:VersionEndIndex])
 	vsVal := binary.BigEndian.Uint32(vs[:])
 	hdBsArr, ok := PvtFlagToHDBytesSlice[vsVal]
@@ -173,6 +177,11 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 		}
 		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)
 		kbs := addPublicKeys(keyBytes, key[PubKeyStartIndex:])
+		// The sum may be the point at infinity
+		err = validateChildPublicKey(kbs)
+		if err != nil {
+			return childKey, err
+		}
 		childKey.setPubKeyBytes(KeyBytes(kbs))
 	}
 	return childKey, nil
-- 
2.43.0


From 7f9f369bf742c3505a7905058eacb8a0ebefef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 12/18] fix: validate the payload of deserialized extended keys

---
 bip32/bip32.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index acffe77..012f8fe 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/btcsuite/btcutil/base58"
+	"github.com/decred/dcrd/dcrec/secp256k1/v4"
 )
 
 type Version [4]byte
@@ -73,6 +74,10 @@ var (
 
 	ErrEmptyKey = errors.New("key is empty")
 
+	// ErrInvalidMasterKey is returned when deserializing a key with depth zero
+	// but with non-zero parent fingerprint or child number
+	ErrInvalidMasterKey = errors.New("invalid master key")
+
 	// ErrMaxDepth is returned when trying to create a child of a key whose depth
 	// is already the highest that fits in an extended key
 	ErrMaxDepth = errors.New("can't create child below the maximum depth")
@@ -325,7 +330,36 @@ func Deserialize(data []byte) (Key, error) {
 			return Key(data[:78]), ErrInvalidChecksum
 		}
 	}
-	return Key(data[:78]), nil
+	key := Key(data[:78])
+	return key, key.validatePayload()
+}
+
+// validatePayload checks that key bytes are a valid private or compressed public
+// key, that they fit to the version (if it's registered) and that key at depth
+// zero has neither parent nor child number
+func (key *Key) validatePayload() error {
+	_, isPvtVersion := PvtFlagToHDBytesSlice[key.GetVersion()]
+	_, isPubVersion := PubFlagToHDBytesSlice[key.GetVersion()]
+	if key.IsPrivate() {
+		if isPubVersion && !isPvtVersion {
+			return ErrInvalidPrivateKey
+		}
+		if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
+			return err
+		}
+	} else {
+		if isPvtVersion && !isPubVersion {
+			return ErrInvalidPublicKey
+		}
+		if _, err := secp256k1.ParsePubKey(key[PubKeyStartIndex:PubKeyEndIndex]); err != nil {
+			return ErrInvalidPublicKey
+		}
+	}
+	if key[DepthStartIndex] == 0 &&
+		(key.GetFingerPrint() != FingerPrint{} || key.GetChildNumber() != ChildNumber{}) {
+		return ErrInvalidMasterKey
+	}
+	return nil
 }
 
 func (key *Key) SetVersionUint32(v uint32) {
-- 
2.43.0


From 6d38c0f3c31197dd23d83991df4f5be49dab8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 13/18] fix: do not append to the caller's backing array

---
 bip32/bip32.go | 2 +-
 bip32/utils.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 012f8fe..f320373 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -315,7 +315,7 @@ func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
 		if len(data) < 82 {
 			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
+			data = append(data[:len(data):len(data)], exData...)
 		}
 		return Key(data[:78]), ErrSerializedKeyWrongSize
 	}
diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..7b50f34 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,7 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	return append(data[:len(data):len(data)], checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0


From 718c72b0254fccc06430cb844c77adadeab42c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 14/18] fix: pass on master key errors from RootKeyFromSeed

---
 util/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 838c200..a8c9bfe 100644
--- a/util/util.go
+++ b/util/util.go
@@ -62,7 +62,11 @@ func RootKeyFromSeed(seed string) (*bip32.Key, error) {
 	if len(seedBs) < 16 {
 		return rootKey, ErrInvalidBIP39Seed
 	}
-	rootKey, err = bip32.NewMasterKey(seedBs)
+	masterKey, err := bip32.NewMasterKey(seedBs)
+	if err != nil {
+		return rootKey, err
+	}
+	rootKey = masterKey
 	ser, err := rootKey.Serialize()
 	if err != nil {
 		return rootKey, err
-- 
2.43.0


From 62f3c7dfda5320bb10a1a9022fb7819b74937dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 15/18] fix: size mnemonic byte arrays by words, not by spaces

---
 bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 3412f57..188bf11 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -218,7 +218,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
+		mnemonicSlice   = strings.Fields(mnemonic)
 		entropyBitSize  = len(mnemonicSlice) * 11
 		checksumBitSize = entropyBitSize % 32
 		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 3a07830335486191d1616630064caee407b820a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 16/18] fix: derive the same seed however the words of a
 mnemonic are spaced

---
 bip39/bip39.go | 2 +-
 util/util.go   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 188bf11..63c6a4b 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -247,7 +247,7 @@ func NewSeedWithErrorChecking(mnemonic string, password string) ([]byte, error)
 		return nil, err
 	}
 
-	return NewSeed(mnemonic, password), nil
+	return NewSeed(strings.Join(strings.Fields(mnemonic), " "), password), nil
 }
 
 // NewSeed creates a hashed seed output given a provided string and password.
diff --git a/util/util.go b/util/util.go
index a8c9bfe..150964d 100644
--- a/util/util.go
+++ b/util/util.go
@@ -45,11 +45,11 @@ func GenerateMnemonic(wordsCount byte) (string, error) {
 }
 
 func DeriveSeedFromMnemonic(mnemonic string, mnemonicPassphrase string) (string, error) {
-	_, err := bip39.EntropyFromMnemonic(mnemonic)
+	seed, err := bip39.NewSeedWithErrorChecking(mnemonic, mnemonicPassphrase)
 	if err != nil {
 		return "", err
 	}
-	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil
+	return hex.EncodeToString(seed), nil
 }
 
 // RootKeyFromSeed seed usually derived from bip39.NewSeed
-- 
2.43.0


From a2229dab838b5995e6802cfe9ac329f638ae2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 17/18] fix: list P2PKT among the address encodings of Nexa
 Testnet

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 036d09f..fa709ce 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -361,7 +361,7 @@ var (
 		PvKeyPrefix:   "xprv",
 		PubKeyFlag:    0x043587cf,
 		PubKeyPrefix:  "xpub",
-		AddrEncodings: []AddrEncoding{P2PKH, P2SH},
+		AddrEncodings: []AddrEncoding{P2PKT, P2PKH, P2SH},
 		Path:          "m/44'/1'",
 	}
 	Polispprvppub = VersionBytes{
-- 
2.43.0


From 6c09700ccdcf4c7492fb36db4bdd317600d390d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 18/18] fix: version bytes without purpose or coin digits are
 not valid

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index fa709ce..9496c28 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -72,7 +72,7 @@ func (h VersionBytes) PubKeyFlagBytes() [4]byte {
 }
 
 func (h VersionBytes) IsValid() bool {
-	regex := regexp.MustCompile(`^m/\d{0,8}'/\d{0,8}'$`)
+	regex := regexp.MustCompile(`^m/\d{1,8}'/\d{1,8}'$`)
 	return regex.MatchString(h.Path.String())
 }
 
-- 
2.43.0

