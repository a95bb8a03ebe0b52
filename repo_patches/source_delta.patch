From 6db4378e3eee4a478b36306c0a35c30339e1b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:35 +0000
Subject: [PATCH 01/12] fix: honour -out-word-file in the convert command

The option was bound to an embedded field shadowed by ConvertOptions.OutputWordFile,
and the converted phrase was written to the input word file instead.
---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..953d4c2 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -73,10 +72,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From 1dad4f38d4a3f836f3d819308e2dd16bd0932b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:35 +0000
Subject: [PATCH 02/12] fix: drop the word being revised when going back during
 phrase entry

The left arrow moved the cursor back without removing the previous word, so the
returned phrase held extra words, and it could move before the first word.
---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..5bcf323 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0


From b735b69ddf390faf3c32c46c0f260155f2f5998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:35 +0000
Subject: [PATCH 03/12] fix: do not loop forever when a word is wider than the
 terminal

---
 cmd/mnemonikey/terminal.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..2df2311 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,15 +78,14 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	lines := []string{}
 
 	for len(words) > 0 {
-		line := indentString
+		// Always place at least one word per line, even if it exceeds the width.
+		line := indentString + words[0]
+		words = words[1:]
 		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
-			if line != indentString {
-				line += " "
-			}
-			line += words[0]
+			line += " " + words[0]
 			words = words[1:]
 		}
 		lines = append(lines, line)
-- 
2.43.0


From 952ee5961b83ae0e3796c1398a2a99501311cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:13 +0000
Subject: [PATCH 04/12] fix: reject key lifetimes which OpenPGP cannot
 represent

A TTL below one second produced a zero expiration time, meaning the key never
expires, and one of more than 2^32-1 seconds was silently truncated.
---
 mnemonikey.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..bab7684 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -26,6 +27,11 @@ const (
 // selected is less than zero.
 var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
 
+// ErrTTLOutOfRange is returned when constructing a Mnemonikey, if the TTL selected
+// cannot be represented by an OpenPGP key expiration time, which is a non-zero 32-bit
+// number of seconds.
+var ErrTTLOutOfRange = errors.New("key time-to-live is out of range")
+
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
 var ErrCreationTooLate = errors.New("key creation time exceeds maximum")
@@ -62,6 +68,8 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	}
 	if opts.TTL < 0 {
 		return nil, ErrTTLInvalid
+	} else if opts.TTL > 0 && (opts.TTL < time.Second || opts.TTL/time.Second > math.MaxUint32) {
+		return nil, ErrTTLOutOfRange
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
 	} else if creation.Before(EpochStart) {
-- 
2.43.0


From d1f903a91292be73c107fbc20342dee2c2dd6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:14 +0000
Subject: [PATCH 05/12] fix: reject -ttl values which overflow a duration

---
 cmd/mnemonikey/expiry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..9d5ec56 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -34,5 +35,9 @@ func parseTTL(input string) (time.Duration, error) {
 		return 0, badInputErr
 	}
 
+	if quantity > uint64(math.MaxInt64/unit) {
+		return 0, badInputErr
+	}
+
 	return time.Duration(quantity) * unit, nil
 }
-- 
2.43.0


From d6e4f063cf46b277d922273e040ca22a14049231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:14 +0000
Subject: [PATCH 06/12] fix: create the word file exclusively

Checking for existence before writing let a file or symlink created in between be
overwritten with the recovery phrase, keeping that file's permissions.
---
 cmd/mnemonikey/generate.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..d1472f4 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -199,14 +199,19 @@ func printMnemonic(words []string) {
 }
 
 func saveMnemonic(words []string, wordFile string) error {
-	if _, err := os.Stat(wordFile); err == nil {
+	// O_EXCL ensures we never write through or truncate a file which already exists.
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
 		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)
-	} else if !errors.Is(err, fs.ErrNotExist) {
+	} else if err != nil {
 		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)
 	}
 
-	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+	if _, err := file.WriteString(strings.Join(words, " ") + "\n"); err != nil {
+		file.Close()
+		return fmt.Errorf("failed to write words to file: %w", err)
+	}
+	if err := file.Close(); err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From ac1ad3aa84e9ca3c1bd609adb525d3d0ffca5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:15 +0000
Subject: [PATCH 07/12] fix: restore the terminal before returning from an
 aborted password prompt

The restoring goroutine raced with process exit, which could leave echo disabled,
and printed a newline on standard output after every prompt, where only the
exported key belongs.
---
 cmd/mnemonikey/word_input.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 5bcf323..7622be6 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -239,12 +239,6 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 	}
 
-	go func() {
-		<-ctx.Done()
-		fmt.Println()
-		term.Restore(int(os.Stdin.Fd()), oldState)
-	}()
-
 	passChan := make(chan []byte)
 	errChan := make(chan error, 1)
 
@@ -282,6 +276,8 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 
 	select {
 	case <-ctx.Done():
+		eprintln()
+		term.Restore(int(os.Stdin.Fd()), oldState)
 		return nil, errors.New("aborted")
 
 	case err := <-errChan:
-- 
2.43.0


From 52193925189bd654d9ac45c9db354bfa7441d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:15 +0000
Subject: [PATCH 08/12] fix: validate and copy the entropy integer given to
 NewSeed

Negative integers were accepted and crashed later, and the seed changed when the
caller modified its integer afterwards.
---
 seed.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/seed.go b/seed.go
index 4d7e684..e1be7a8 100644
--- a/seed.go
+++ b/seed.go
@@ -2,6 +2,7 @@ package mnemonikey
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -24,12 +25,16 @@ type Seed struct {
 //
 // Returns ErrUnsupportedSeedEra if the era number is greater than EraLatest.
 //
-// Returns an error if entropyInt's bit-length is greater than EntropyBitCount.
+// Returns an error if entropyInt is negative, or if its bit-length is greater than EntropyBitCount.
 func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 	if err := era.check(); err != nil {
 		return nil, err
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, errors.New("provided entropy integer is negative")
+	}
+
 	if l := entropyInt.BitLen(); l > EntropyBitCount {
 		return nil, fmt.Errorf(
 			"provided entropy integer is %d bits, exceeding maximum size of %d",
@@ -39,7 +44,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From bcf8756ac3737b42cf22e212a262bd4516770252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:16 +0000
Subject: [PATCH 09/12] fix: do not modify the caller's integer in
 EncodeToIndices

Also return an error for negative payloads, which previously panicked.
---
 mnemonic/encode.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..5c2975a 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -29,15 +29,19 @@ var ErrInvalidIndex = errors.New("word index value is too large")
 // bitSize does not necessarily have to be evenly divisible by BitsPerWord. If there is
 // any unused space, it will be encoded at the leading edge of the resulting slice of indices.
 func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
+	if payloadInt.Sign() < 0 {
+		return nil, errors.New("payload is negative")
+	}
 	if payloadLen := payloadInt.BitLen(); uint(payloadLen) > bitSize {
 		return nil, fmt.Errorf("payload size (%d bits) is larger than given bitSize %d", payloadLen, bitSize)
 	}
 
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
-	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
-		indices[i] = uint16(new(big.Int).And(payloadInt, wordMask).Uint64())
-		payloadInt.Rsh(payloadInt, BitsPerWord)
+	remaining := new(big.Int).Set(payloadInt)
+	for i := nWords - 1; remaining.BitLen() > 0; i-- {
+		indices[i] = uint16(new(big.Int).And(remaining, wordMask).Uint64())
+		remaining.Rsh(remaining, BitsPerWord)
 	}
 	return indices, nil
 }
-- 
2.43.0


From df13959afc903ff203137061834532fcd2ec2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:16 +0000
Subject: [PATCH 10/12] fix: return an error for creation offsets which do not
 fit in a phrase

Encoding such an offset panicked.
---
 encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..6a724ae 100644
--- a/encoding.go
+++ b/encoding.go
@@ -47,6 +47,10 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 		return nil, err
 	}
 
+	if creationOffset >= 1<<CreationOffsetBitCount {
+		return nil, ErrCreationTooLate
+	}
+
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
 
@@ -74,6 +78,10 @@ func EncodeMnemonicEncrypted(
 		return nil, err
 	}
 
+	if creationOffset >= 1<<CreationOffsetBitCount {
+		return nil, ErrCreationTooLate
+	}
+
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
 	}
-- 
2.43.0


From 18e9276a06de148bf2057deea0be87da2bb4f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:17 +0000
Subject: [PATCH 11/12] fix: report read errors and unsupported versions when
 reading a word file

---
 cmd/mnemonikey/recover.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..37be0b8 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -224,11 +224,17 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
 
 	version, err := mnemonikey.ParseMnemonicVersion(words[0])
+	if err != nil {
+		return nil, err
+	}
 	if len(words) != version.MnemonicSize() {
 		return nil, fmt.Errorf(
 			"found only %d words in word file %s, expected %d words for version %d phrase",
-- 
2.43.0


From 41f6412298df4acad00bfe99d5b5a515551820c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:17 +0000
Subject: [PATCH 12/12] fix: return an error from EncryptS2K for unsupported
 hash functions

Hash functions which HashFuncID.New does not provide caused a nil dereference.
---
 pgp/s2k.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/s2k.go b/pgp/s2k.go
index 34451ee..edf0a9d 100644
--- a/pgp/s2k.go
+++ b/pgp/s2k.go
@@ -33,6 +33,10 @@ func s2kCountDecode(coded byte) int {
 // algorithm. This is not a very secure symmetric cipher, as we only use a simple hash
 // and not a dedicated PBKDF.
 func EncryptS2K(hashFunc HashFuncID, plaintext, password []byte) ([]byte, error) {
+	if hashFunc.New() == nil {
+		return nil, fmt.Errorf("unsupported string-to-key hash function %d", hashFunc)
+	}
+
 	salt := make([]byte, 8)
 	if _, err := rand.Read(salt); err != nil {
 		return nil, fmt.Errorf("failed to read random salt: %w", err)
-- 
2.43.0

