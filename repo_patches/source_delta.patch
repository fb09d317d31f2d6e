From 9e9bf6dcdfdd57eaf631e8c5ad94c732a1344997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:45 +0000
Subject: [PATCH 01/43] fix: library use without setting Verbose must not panic

---
 pdf/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/logger.go b/pdf/logger.go
index 3349f53..ac20be5 100644
--- a/pdf/logger.go
+++ b/pdf/logger.go
@@ -8,7 +8,7 @@ import (
 var Verbose *bool
 
 func Debug(format string, a ...interface{}) {
-	if *Verbose {
+	if Verbose != nil && *Verbose {
 		if len(a) > 0 {
 			fmt.Fprintf(os.Stderr, format, a...)
 			fmt.Fprintln(os.Stderr, "")
-- 
2.43.0


From 427303c67374a771a3d404c15dbe5a9760a41ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:46 +0000
Subject: [PATCH 02/43] fix: close the errors file, not the files manifest
 twice

---
 pdf/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index d8b0066..fe1f173 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -71,7 +71,7 @@ func (output *Output) Close() {
 		output.Commands.Close()
 	}
 	if output.Errors != nil {
-		output.Files.Close()
+		output.Errors.Close()
 	}
 	if output.Files != nil {
 		output.Files.Close()
-- 
2.43.0


From fed716b222b7074523ee096f620b95e6b23088ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:47 +0000
Subject: [PATCH 03/43] fix: weigh each fraction digit of a real number by its
 power of ten

---
 pdf/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e65b326..367df29 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
 	"regexp"
 	"sort"
 	"strconv"
@@ -887,7 +888,7 @@ func (parser *Parser) ReadNumber() Number {
 			}
 
 			if b >= '0' && b <= '9' {
-				number = Number(float64(number) + float64(b - '0') / (10 * float64(i)))
+				number = Number(float64(number) + float64(b - '0') / math.Pow(10, float64(i)))
 			} else {
 				parser.UnreadByte()
 				break
-- 
2.43.0


From 86a97c9a027c8f2765899b03088aaf051737dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 04/43] fix: never print numbers in exponent notation, which
 PDF does not have

---
 pdf/number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/number.go b/pdf/number.go
index 4ee0293..ef899b1 100644
--- a/pdf/number.go
+++ b/pdf/number.go
@@ -1,11 +1,11 @@
 package pdf
 
 import (
-	"fmt"
+	"strconv"
 )
 
 type Number float64
 
 func (number Number) String() string {
-	return fmt.Sprint(float64(number))
+	return strconv.FormatFloat(float64(number), 'f', -1, 64)
 }
-- 
2.43.0


From 123a8d3bf798530d1415ea9c3ce2b57f11c96c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 05/43] fix: read the dictionary and end of stream markers and
 the startxref tail in full across buffer boundaries

---
 pdf/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 367df29..159cbd8 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -167,7 +167,7 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// read in buffer at offset
 	buffer := make([]byte, start_xref_scan_buffer_size)
 	parser.Seek(offset, io.SeekStart)
-	parser.Read(buffer)
+	io.ReadFull(parser, buffer)
 
 	// check for start xref
 	matches := start_xref_regexp.FindAllSubmatch(buffer, -1)
@@ -627,7 +627,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 
 	// read start of dictionary markers
 	b := make([]byte, 2)
-	_, err := parser.Read(b)
+	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
 		return dictionary
 	}
@@ -938,7 +938,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
-	bytes_read, _ := parser.Read(buff)
+	bytes_read, _ := io.ReadFull(parser, buff)
 	if bytes_read > 0 {
 		end_buff.Write(buff[:bytes_read])
 	}
-- 
2.43.0


From 0b3e360018b48620de2bcaaeabb307b2e7fe4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:50 +0000
Subject: [PATCH 06/43] fix: complete a partial ASCII85 group with the highest
 digit

---
 pdf/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index a67f300..f15d6f7 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -106,10 +106,10 @@ func ASCII85Decode(data []byte) []byte {
 	for {
 		b, err := reader.ReadByte()
 		if err != nil || b == '~' {
-			// finish partial group by adding zeros
+			// finish partial group by adding the highest digit
 			if n > 1 {
 				for m := n; m < 5; m++ {
-					v *= 85
+					v = v * 85 + 84
 				}
 
 				// write result in big endian order
-- 
2.43.0


From daab85f10a3997e50b0655e312c962aa3efcb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:11 +0000
Subject: [PATCH 07/43] fix: PNG predictors 10 to 14 also take the algorithm
 from each row's tag

---
 pdf/filters.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index f15d6f7..fdddbb3 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -318,15 +318,10 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
-		// determine the method
-		method := predictor - 10
-
 		// for each row
 		for r := 0; r < len(data); r += row_width {
-			// optimum predictor allows the method to change each row based on algorithm tag
-			if predictor == 15 {
-				method = int(data[r])
-			}
+			// the method can change each row based on algorithm tag
+			method := int(data[r])
 
 			// calculate start of row in decoded buffer
 			dr := (r / row_width) * (row_width - 1)
-- 
2.43.0


From 2a33996acda2b6588dc8bd67cb826cf5ce0d79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:12 +0000
Subject: [PATCH 08/43] fix: PNG predictors use the byte one whole pixel to the
 left

---
 pdf/filters.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index fdddbb3..5500d9d 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -318,6 +318,9 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
+		// left neighbor is the corresponding byte of the previous pixel
+		pixel_width := (bits_per_component * colors + 7) / 8
+
 		// for each row
 		for r := 0; r < len(data); r += row_width {
 			// the method can change each row based on algorithm tag
@@ -337,8 +340,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 1 {
 					// sub predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					decoded_data = append(decoded_data, byte((int(data[r + c]) + left) % 256))
 				} else if method == 2 {
@@ -351,8 +354,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 3 {
 					// avg predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
@@ -363,16 +366,16 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 4 {
 					//paeth predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
 						up = int(decoded_data[dr + dc - d_row_width])
 					}
 					up_left := 0
-					if dr + dc - d_row_width - 1 >= 0 && dc > 0 {
-						up_left = int(decoded_data[dr + dc - d_row_width - 1])
+					if dr + dc - d_row_width - pixel_width >= 0 && dc >= pixel_width {
+						up_left = int(decoded_data[dr + dc - d_row_width - pixel_width])
 					}
 					p := left + up - up_left
 					p_left := int(math.Abs(float64(p - left)))
-- 
2.43.0


From ea88690e3e4da11446442f18f4053a8edd05a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:13 +0000
Subject: [PATCH 09/43] fix: reject predictor dimensions that overflow the row
 width

---
 pdf/filters.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/filters.go b/pdf/filters.go
index 5500d9d..3de73f2 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -276,6 +276,11 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		return data
 	}
 
+	// make sure row dimensions are acceptable and do not overflow
+	if colors <= 0 || columns <= 0 || columns > math.MaxInt32 / colors {
+		return data
+	}
+
 	// determine row widths in bytes
 	row_width := (bits_per_component * colors * columns) / 8
 	if (bits_per_component * colors * columns) % 8 > 0 {
-- 
2.43.0


From 06265a1a59f9c23bf7f7085e03f57f5c354a2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 10/43] fix: remove the initialization vector and padding from
 AES decrypted data

---
 pdf/encryption.go | 21 +++++++++++++++++----
 pdf/parser.go     | 17 ++++++-----------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7aa55c4..5371eb6 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -16,7 +16,7 @@ type CryptFilter interface {
 }
 
 type Decryptor interface {
-	Decrypt([]byte)
+	Decrypt([]byte) []byte
 }
 
 // No encryption
@@ -28,7 +28,9 @@ func (c *CryptFilterNone) NewDecryptor(n int, g int) Decryptor {
 
 type DecryptorNone struct {}
 
-func (d *DecryptorNone) Decrypt(data []byte) {}
+func (d *DecryptorNone) Decrypt(data []byte) []byte {
+	return data
+}
 
 // AES
 type CryptFilterAES struct {
@@ -73,7 +75,10 @@ type DecryptorAES struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorAES) Decrypt(data []byte) {
+func (d *DecryptorAES) Decrypt(data []byte) (decrypted []byte) {
+	// return data as is if it can not be decrypted
+	decrypted = data
+
 	// catch crypt block panic
 	defer func() {
 		if err := recover(); err != nil {
@@ -94,6 +99,13 @@ func (d *DecryptorAES) Decrypt(data []byte) {
 	data = data[aes.BlockSize:]
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(data, data)
+
+	// remove initialization vector and padding
+	padding := int(data[len(data) - 1])
+	if padding < 1 || padding > aes.BlockSize {
+		padding = 0
+	}
+	return data[:len(data) - padding]
 }
 
 // RC4
@@ -136,9 +148,10 @@ type DecryptorRC4 struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorRC4) Decrypt(data []byte) {
+func (d *DecryptorRC4) Decrypt(data []byte) []byte {
 	cipher, _ := rc4.NewCipher(d.encryption_key)
 	cipher.XORKeyStream(data, data)
+	return data
 }
 
 type SecurityHandler struct {
diff --git a/pdf/parser.go b/pdf/parser.go
index 159cbd8..1cf6df2 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -692,8 +692,7 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 					s.WriteByte(byte(val))
 				}
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
-				return String(s_data)
+				return String(decryptor.Decrypt(s_data))
 			}
 			if !IsHex(b) {
 				parser.log_error(InvalidHexStringChar)
@@ -979,7 +978,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 
 	// decrypt stream
 	stream_data_bytes := stream_data.Bytes()
-	decryptor.Decrypt(stream_data_bytes)
+	stream_data_bytes = decryptor.Decrypt(stream_data_bytes)
 
 	// decode stream
 	for i := 0; i < len(filter_list); i++ {
@@ -1015,8 +1014,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 		if err != nil {
 			parser.log_error(UnclosedString)
 			s_data := []byte(s.String())
-			decryptor.Decrypt(s_data)
-			return String(s_data)
+			return String(decryptor.Decrypt(s_data))
 		}
 
 		// if this is the start of an escape sequence
@@ -1027,8 +1025,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				parser.log_error(UnclosedStringEscape)
 				s.WriteByte('\\')
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
-				return String(s_data)
+				return String(decryptor.Decrypt(s_data))
 			}
 
 			// ignore escaped line breaks \n or \r or \r\n
@@ -1041,8 +1038,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				if err != nil {
 					parser.log_error(UnclosedStringEscape)
 					s_data := []byte(s.String())
-					decryptor.Decrypt(s_data)
-					return String(s_data)
+					return String(decryptor.Decrypt(s_data))
 				}
 				// if byte is not a new line then unread it
 				if b != '\n' {
@@ -1128,8 +1124,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 
 	// return string
 	s_data := []byte(s.String())
-	decryptor.Decrypt(s_data)
-	return String(s_data)
+	return String(decryptor.Decrypt(s_data))
 }
 
 // consumeWhitespace reads until end of whitespace/comments
-- 
2.43.0


From 66f6dcd9418a0e45f41fbef07285a94b344fad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:12 +0000
Subject: [PATCH 11/43] fix: report a too short U entry instead of panicking

---
 pdf/encryption.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 5371eb6..d4d0544 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -270,6 +270,11 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 			return EncryptionPasswordError
 		}
 	} else if sh.r >= 3 { // for revision 3+ use algorithm 5
+		// only the first 16 bytes of U are used but they are required
+		if len(sh.u) < 16 {
+			return EncryptionError
+		}
+
 		// step b, c
 		hash := md5.New()
 		hash.Write(padding_string)
-- 
2.43.0


From b492750755ccd1ef29c6b9adf7cc43c257fc19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 12/43] fix: accept crypt filter key lengths given in bits and
 never slice past the hash

---
 pdf/encryption.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index d4d0544..968acc9 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -316,6 +316,16 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 						length = sh.length
 					}
 
+					// length is in bytes but is often given in bits
+					if length > 16 {
+						length = length/8
+					}
+					if length < 5 {
+						length = 5
+					} else if length > 16 {
+						length = 16
+					}
+
 					// create filter entry
 					if method == "None" {
 						sh.crypt_filters[k] = noFilter
-- 
2.43.0


From 9bdaab629cfa0f7524ede9d7aa49b2740b720b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 13/43] fix: resolve references to crypt filter dictionaries

---
 pdf/encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 968acc9..d4c27b0 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -307,8 +307,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k, entry := range cf {
-			if cfd, isDictionary := entry.(Dictionary); isDictionary {
+		for k := range cf {
+			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
-- 
2.43.0


From 84d48a5a51397a04717a4a634d01b94a41177d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:15 +0000
Subject: [PATCH 14/43] fix: embedded file crypt filter is named EFF and
 defaults to the stream filter

---
 pdf/encryption.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index d4c27b0..5f10355 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -344,12 +344,13 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 				sh.stream_filter = filter
 			}
 		}
+		sh.file_filter = sh.stream_filter
 		if name, ok := encrypt.GetName("StrF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.string_filter = filter
 			}
 		}
-		if name, ok := encrypt.GetName("EEF"); ok {
+		if name, ok := encrypt.GetName("EFF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.file_filter = filter
 			}
-- 
2.43.0


From 76e056987827d927ab6db9b9b84b0edb63c63913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:16 +0000
Subject: [PATCH 15/43] fix: streams and strings are not encrypted when their
 crypt filter is absent

---
 pdf/encryption.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 5f10355..ad08518 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -306,6 +306,10 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 
 	// load additional crypt filters
 	if sh.r == 4 {
+		// without a filter name the identity filter applies
+		sh.stream_filter = noFilter
+		sh.string_filter = noFilter
+
 		cf, _ := encrypt.GetDictionary("CF")
 		for k := range cf {
 			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
-- 
2.43.0


From 06840505df51ae3a275c4605749025fad2d77373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 16/43] fix: keep cross-reference entries that locate their
 object

---
 pdf/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 1cf6df2..f27fe2d 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -61,8 +61,9 @@ func (parser *Parser) Load(password string) error {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
 			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); ok || n != object_number {
+			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
 				xref_entry.Offset = object.Offset
+				xref_entry.Generation = object.Generation
 			}
 		} else {
 			// add missing object to xref
-- 
2.43.0


From a21892ced46db25cf266fbae635439aafe80befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:42 +0000
Subject: [PATCH 17/43] fix: validate xref stream field widths and apply the
 default entry type

---
 pdf/parser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index f27fe2d..e76c80b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -328,6 +328,14 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 		return
 	}
 
+	// widths must fit the stream data and each entry must take up some of it
+	max_width := len(object.Stream)
+	if type_width < 0 || offset_width < 0 || generation_width < 0 ||
+		type_width > max_width || offset_width > max_width || generation_width > max_width ||
+		type_width + offset_width + generation_width == 0 {
+		return
+	}
+
 	// parse xref subsections
 	data_reader := bytes.NewReader(object.Stream)
 	for i := 0; i < len(index) - 1; i += 2 {
@@ -343,9 +351,13 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 
 		// read in each entry in subsection
 		for j := 0; j < subsection_length; j++ {
-			xref_type, ok := ReadInt(data_reader, type_width)
-			if !ok {
-				return
+			// type defaults to indirect object when it is not present
+			xref_type := XrefTypeIndirectObject
+			if type_width > 0 {
+				xref_type, ok = ReadInt(data_reader, type_width)
+				if !ok {
+					return
+				}
 			}
 			offset, ok := ReadInt64(data_reader, offset_width)
 			if !ok {
-- 
2.43.0


From c5e5a5bd96993a9a63982685ce1d343afb701974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 18/43] fix: do not read a referenced object's stream to
 resolve its value, stream parameters can refer back

---
 pdf/parser.go    |  7 +++++++
 pdf/reference.go | 10 +++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e76c80b..ddf0a00 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -382,6 +382,10 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
+	return parser.getObject(number, true)
+}
+
+func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 	object := NewIndirectObject(number)
 
 	if xref_entry, ok := parser.Xref[number]; ok {
@@ -404,6 +408,9 @@ func (parser *Parser) GetObject(number int) *IndirectObject {
 
 			// get the value of the object
 			object.Value, _ = parser.ReadObject(string_decryptor)
+			if !read_stream {
+				return object
+			}
 
 			// get next keyword
 			if keyword := parser.ReadKeyword(); keyword == KEYWORD_STREAM {
diff --git a/pdf/reference.go b/pdf/reference.go
index 20fd52b..4e54f60 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -24,7 +24,7 @@ func (reference *Reference) Resolve() Object {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, false)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -38,7 +38,7 @@ func (reference *Reference) ResolveStream() []byte {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, true)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -47,7 +47,7 @@ func (reference *Reference) ResolveStream() []byte {
 	return object.Stream
 }
 
-func (reference *Reference) resolve(resolved_references map[int]interface{}) *IndirectObject {
+func (reference *Reference) resolve(resolved_references map[int]interface{}, read_stream bool) *IndirectObject {
 	// prevent infinite loop
 	if _, ok := resolved_references[reference.Number]; ok {
 		return NewIndirectObject(reference.Number)
@@ -55,11 +55,11 @@ func (reference *Reference) resolve(resolved_references map[int]interface{}) *In
 	resolved_references[reference.Number] = nil
 
 	// use parser to get object
-	object := reference.parser.GetObject(reference.Number)
+	object := reference.parser.getObject(reference.Number, read_stream)
 
 	// recursively resolve references
 	if ref, ok := object.Value.(*Reference); ok {
-		return ref.resolve(resolved_references)
+		return ref.resolve(resolved_references, read_stream)
 	}
 
 	// return the object
-- 
2.43.0


From 40943dc96c680fd3dd8a17db6ff1c131cc2131c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 19/43] fix: a reference to an object without a stream is not a
 stream, so that indirect arrays of streams are found

---
 pdf/array.go      | 4 +++-
 pdf/dictionary.go | 4 +++-
 pdf/parser.go     | 5 +++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdf/array.go b/pdf/array.go
index 966d3b0..247b122 100644
--- a/pdf/array.go
+++ b/pdf/array.go
@@ -97,7 +97,9 @@ func (a Array) GetObject(index int) (Object, bool) {
 func (a Array) GetStream(index int) ([]byte, bool) {
 	if index >= 0 && index < len(a) {
 		if reference, ok := a[index].(*Reference); ok {
-			return reference.ResolveStream(), true
+			if stream := reference.ResolveStream(); stream != nil {
+				return stream, true
+			}
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6e0e78c..89cafb4 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -166,7 +166,9 @@ func (d Dictionary) GetReference(key string) (*Reference, bool) {
 func (d Dictionary) GetStream(key string) ([]byte, bool) {
 	if object, ok := d[key]; ok {
 		if reference, ok := object.(*Reference); ok {
-			return reference.ResolveStream(), true
+			if stream := reference.ResolveStream(); stream != nil {
+				return stream, true
+			}
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/parser.go b/pdf/parser.go
index ddf0a00..14f74d0 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -1007,6 +1007,11 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		stream_data_bytes = DecodeStream(filter, stream_data_bytes, decode_parms)
 	}
 
+	// an empty stream is still a stream
+	if stream_data_bytes == nil {
+		stream_data_bytes = []byte{}
+	}
+
 	// return the decrypted and decoded stream
 	return stream_data_bytes
 }
-- 
2.43.0


From 7070ee78488298bfde4cfd521f45ebd114509929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 20/43] fix: walk each referenced kids array of a name tree
 only once

---
 pdf/dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 89cafb4..bcdf6cf 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -87,6 +87,13 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 		// append names to name tree map
 		nameTreeMap = append(nameTreeMap, names...)
 	}
+	if r, ok := d.GetReference("Kids"); ok {
+		// prevent infinite loop through an array of direct kids
+		if _, resolved := resolved_kids[r.Number]; resolved {
+			return nameTreeMap
+		}
+		resolved_kids[r.Number] = nil
+	}
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
 			// prevent infinite resolve reference loop
-- 
2.43.0


From 13a02d8fb321e15f73e08499fe8a60c6a2a00447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:28 +0000
Subject: [PATCH 21/43] fix: honour a stream's length when the end marker
 follows, data can contain or resemble the marker

---
 pdf/parser.go | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 14f74d0..732765d 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -472,7 +472,11 @@ func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 				stream_decryptor := crypt_filter.NewDecryptor(number, xref_entry.Generation)
 
 				// read the stream
-				object.Stream = parser.ReadStream(stream_decryptor, filter_list, decode_parms_list)
+				length, ok := d.GetInt64("Length")
+				if !ok {
+					length = -1
+				}
+				object.Stream = parser.ReadStream(length, stream_decryptor, filter_list, decode_parms_list)
 			}
 		}
 	}
@@ -924,7 +928,7 @@ func (parser *Parser) ReadNumber() Number {
 	return number
 }
 
-func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_parms_list Array) []byte {
+func (parser *Parser) ReadStream(length int64, decryptor Decryptor, filter_list Array, decode_parms_list Array) []byte {
 	// create buffers for stream data
 	stream_data := bytes.NewBuffer([]byte{})
 
@@ -954,6 +958,10 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		}
 	}
 
+	// use length if it is correct
+	sized_data, is_sized := parser.readSizedData(length)
+	stream_data.Write(sized_data)
+
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
@@ -963,7 +971,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	}
 
 	// read in stream data until endstream marker
-	for {
+	for !is_sized {
 		if end_buff.String() == "endstream" {
 			// truncate last new line from stream_data and stop reading stream data
 			l := stream_data.Len()
@@ -1016,6 +1024,37 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	return stream_data_bytes
 }
 
+// readSizedData reads length bytes of stream data if they are followed by the end of stream marker
+func (parser *Parser) readSizedData(length int64) ([]byte, bool) {
+	if length < 0 {
+		return nil, false
+	}
+	offset := parser.CurrentOffset()
+	defer parser.Seek(offset, io.SeekStart)
+
+	// an optional line break and the end of stream marker must follow
+	if _, err := parser.Seek(offset + length, io.SeekStart); err != nil {
+		return nil, false
+	}
+	marker, _ := parser.Peek(11)
+	if bytes.HasPrefix(marker, []byte("\r\n")) {
+		marker = marker[2:]
+	} else if bytes.HasPrefix(marker, []byte("\n")) || bytes.HasPrefix(marker, []byte("\r")) {
+		marker = marker[1:]
+	}
+	if !bytes.HasPrefix(marker, []byte("endstream")) {
+		return nil, false
+	}
+
+	// read the data
+	parser.Seek(offset, io.SeekStart)
+	data := make([]byte, length)
+	if _, err := io.ReadFull(parser, data); err != nil {
+		return nil, false
+	}
+	return data, true
+}
+
 func (parser *Parser) ReadString(decryptor Decryptor) String {
 	// consume any leading whitespace/comments
 	parser.consumeWhitespace()
-- 
2.43.0


From 0af524d164d682784ebbcae1f667ce66b22b9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:29 +0000
Subject: [PATCH 22/43] fix: positioned text can have any mix of strings and
 numbers

---
 pdf/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index f1abfaa..b94cd2d 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -72,7 +72,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					// decode positioned text with current font
 					var sb strings.Builder
 					a, _ := operands.GetArray(len(operands) - 1)
-					for i := 0; i < len(a); i += 2 {
+					for i := range a {
 						s, _ := a.GetString(i)
 						sb.WriteString(string(s))
 					}
-- 
2.43.0


From 554e8cf85cb78721e86e9ae0585f3b6774a5b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:30 +0000
Subject: [PATCH 23/43] fix: log the command of a launch action given as a
 plain path

---
 pdf/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/action.go b/pdf/action.go
index 0bcfdfb..2ed7fb6 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -16,6 +16,9 @@ func (a Action) Extract(output *Output) {
 
 	// filespecification can be in either F or Win[F]
 	if f, ok := d.GetString("F"); ok {
+		if isCommand {
+			fmt.Fprintln(output.Commands, f)
+		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	} else if f, ok := d.GetDictionary("F"); ok {
 		File(f).Extract(output, isCommand)
-- 
2.43.0


From d1ba5cd4f8cc12d43946adfd21d4ebc767835e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:31 +0000
Subject: [PATCH 24/43] fix: the file system of a file specification is a name

---
 pdf/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/file.go b/pdf/file.go
index 17ef598..f958949 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -12,7 +12,10 @@ func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
 	// file specification can be a url or file
-	fs, _ := d.GetString("FS")
+	fs, ok := d.GetName("FS")
+	if !ok {
+		fs, _ = d.GetString("FS")
+	}
 	if fs == "URL" {
 		if f, ok := d.GetString("F"); ok {
 			fmt.Fprintln(output.URLs, f)
-- 
2.43.0


From 1f79b8f60f2ca2defc23ee9be0e87245ecb81525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 25/43] fix: report unclosed streams without any data too

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 732765d..eedc82e 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -936,6 +936,7 @@ func (parser *Parser) ReadStream(length int64, decryptor Decryptor, filter_list
 	for {
 		b, err := parser.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			return stream_data.Bytes()
 		}
 
@@ -948,6 +949,7 @@ func (parser *Parser) ReadStream(length int64, decryptor Decryptor, filter_list
 		if b == '\r' {
 			b, err := parser.ReadByte()
 			if err != nil {
+				parser.log_error(UnclosedStream)
 				return stream_data.Bytes()
 			}
 			// if not new line then put it back cause it is part of the stream data
@@ -990,6 +992,7 @@ func (parser *Parser) ReadStream(length int64, decryptor Decryptor, filter_list
 		// add first byte of end_buff to stream_data
 		b, err := end_buff.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			break
 		}
 		stream_data.WriteByte(b)
-- 
2.43.0


From bb1ba82ab5eb14b5c33c8b2388b7edb4dfdce5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:33 +0000
Subject: [PATCH 26/43] fix: read the streams of a page's contents array as
 one, text blocks can span them

---
 pdf/page.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index b94cd2d..3b267b2 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -24,11 +24,14 @@ func (page Page) Extract(output *Output) {
 	if contents, ok := d.GetStream("Contents"); ok {
 		page.extract(output, font_map, contents)
 	} else if contents_array, ok := d.GetArray("Contents"); ok {
+		var all_contents bytes.Buffer
 		for i := range contents_array {
 			if contents, ok := contents_array.GetStream(i); ok {
-				page.extract(output, font_map, contents)
+				all_contents.Write(contents)
+				all_contents.WriteByte('\n')
 			}
 		}
+		page.extract(output, font_map, all_contents.Bytes())
 	}
 }
 
-- 
2.43.0


From e767fd4c4fb090d3af32db12a5149b71392287ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:43 +0000
Subject: [PATCH 27/43] fix: the font is part of the graphics state, which text
 blocks do not reset

---
 pdf/keyword.go |  2 ++
 pdf/page.go    | 35 +++++++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index 88cb870..bcdb664 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -10,6 +10,8 @@ const (
 	KEYWORD_NULL = Keyword("null")
 	KEYWORD_TRUE = Keyword("true")
 	KEYWORD_FALSE = Keyword("false")
+	KEYWORD_SAVE_STATE = Keyword("q")
+	KEYWORD_RESTORE_STATE = Keyword("Q")
 	KEYWORD_TEXT = Keyword("BT")
 	KEYWORD_TEXT_END = Keyword("ET")
 	KEYWORD_TEXT_FONT = Keyword("Tf")
diff --git a/pdf/page.go b/pdf/page.go
index 3b267b2..bae4251 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -39,18 +39,29 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 	// create parser for parsing contents
 	page_parser := NewParser(bytes.NewReader(contents), nil)
 
+	// initial font is none
+	current_font := FontDefault
+	saved_fonts := []*Font{}
+
 	for {
 		// read next command
-		command, _, err := page_parser.ReadCommand()
+		command, operands, err := page_parser.ReadCommand()
 		if err == ReadError {
 			break
 		}
 
+		// handle changes to the graphics state outside of text blocks
+		if command == KEYWORD_SAVE_STATE {
+			saved_fonts = append(saved_fonts, current_font)
+		} else if command == KEYWORD_RESTORE_STATE && len(saved_fonts) > 0 {
+			current_font = saved_fonts[len(saved_fonts) - 1]
+			saved_fonts = saved_fonts[:len(saved_fonts) - 1]
+		} else if command == KEYWORD_TEXT_FONT {
+			current_font = getFont(font_map, operands)
+		}
+
 		// start of text block
 		if command == KEYWORD_TEXT {
-			// initial font is none
-			current_font := FontDefault
-
 			for {
 				command, operands, err := page_parser.ReadCommand()
 				// stop if end of stream or end of text block
@@ -60,12 +71,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 
 				// handle font changes
 				if command == KEYWORD_TEXT_FONT {
-					font_name, _ := operands.GetName(len(operands) - 2)
-					if font, ok := font_map[font_name]; ok {
-						current_font = font
-					} else {
-						current_font = FontDefault
-					}
+					current_font = getFont(font_map, operands)
 				} else if command == KEYWORD_TEXT_SHOW_1 || command == KEYWORD_TEXT_SHOW_2 || command == KEYWORD_TEXT_SHOW_3 {
 					// decode text with current font font
 					s, _ := operands.GetString(len(operands) - 1)
@@ -86,3 +92,12 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 		}
 	}
 }
+
+// getFont gets the font selected by the operands of a font command
+func getFont(font_map map[string]*Font, operands Array) *Font {
+	font_name, _ := operands.GetName(len(operands) - 2)
+	if font, ok := font_map[font_name]; ok {
+		return font
+	}
+	return FontDefault
+}
-- 
2.43.0


From e577b3a8d5d0d57422284fae5c0302e324dde012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 28/43] fix: pages inherit resources from their page tree

---
 pdf/dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index bcdf6cf..3777833 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -152,6 +152,13 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 				// resolve
 				object := r.Resolve()
 				if kid_d, ok := object.(Dictionary); ok {
+					// resources are inherited from the parent
+					if _, ok := kid_d["Resources"]; !ok {
+						if resources, ok := d["Resources"]; ok {
+							kid_d["Resources"] = resources
+						}
+					}
+
 					// recursively resolve kids
 					kids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)
 				}
-- 
2.43.0


From b6f6cd7551b2105886c3bdda59ec8d1a9dd60ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:45 +0000
Subject: [PATCH 29/43] fix: count upwards in cmap ranges, support arrays of
 values and bound the number of mappings

---
 pdf/font.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6f911f1..0894415 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -5,6 +5,9 @@ import (
 	"strings"
 )
 
+// maximum number of code mappings read from a cmap
+const maxCmapMappings = 0x100000
+
 var FontDefault *Font = &Font{map[int]string{}, 1}
 
 type Font struct {
@@ -22,6 +25,9 @@ func NewFont(d Dictionary) *Font {
 	// create parser for parsing cmap
 	parser := NewParser(bytes.NewReader(cmap), nil)
 
+	// mappings left to read
+	remaining := maxCmapMappings
+
 	for {
 		// read next command
 		command, operands, err := parser.ReadCommand()
@@ -45,13 +51,34 @@ func NewFont(d Dictionary) *Font {
 				}
 				end := BytesToInt([]byte(end_b))
 
-				value := parser.ReadHexString(noDecryptor)
-				if value == "" {
+				// destination is either an array of values or a start value to count upwards from
+				parser.consumeWhitespace()
+				if b, _ := parser.Peek(1); len(b) > 0 && b[0] == '[' {
+					values := parser.ReadArray(noDecryptor)
+					for j := 0; j < len(values) && start + j <= end; j++ {
+						if value, ok := values.GetString(j); ok {
+							font.Cmap[start + j] = value
+						}
+					}
+					continue
+				}
+
+				value := []byte(parser.ReadHexString(noDecryptor))
+				if len(value) == 0 {
 					break
 				}
 
-				for j := start; j <= end; j++ {
-					font.Cmap[j] = string(value)
+				for j := 0; end >= start && uint(j) <= uint(end) - uint(start) && remaining > 0; j++ {
+					font.Cmap[start + j] = string(value)
+					remaining--
+
+					// increment value
+					for k := len(value) - 1; k >= 0; k-- {
+						value[k]++
+						if value[k] != 0 {
+							break
+						}
+					}
 				}
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
-- 
2.43.0


From 2b2d62d39c625d8a9b816b404b062f5075b8a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:46 +0000
Subject: [PATCH 30/43] fix: extract chained actions

---
 pdf/action.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pdf/action.go b/pdf/action.go
index 2ed7fb6..abac214 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -7,6 +7,10 @@ import (
 type Action Dictionary
 
 func (a Action) Extract(output *Output) {
+	a.extract(output, map[int]interface{}{})
+}
+
+func (a Action) extract(output *Output, extracted map[int]interface{}) {
 	d := Dictionary(a)
 
 	isCommand := false
@@ -26,4 +30,29 @@ func (a Action) Extract(output *Output) {
 	if win, ok := d.GetDictionary("Win"); ok {
 		File(win).Extract(output, isCommand)
 	}
+
+	// next is a single action or an array of actions
+	next, ok := d.GetArray("Next")
+	if !ok {
+		next = Array{d["Next"]}
+	}
+	if reference, isReference := d.GetReference("Next"); ok && isReference {
+		// prevent infinite loop through an array of direct actions
+		if _, ok := extracted[reference.Number]; ok {
+			return
+		}
+		extracted[reference.Number] = nil
+	}
+	for i := range next {
+		// prevent infinite loop
+		if reference, ok := next[i].(*Reference); ok {
+			if _, ok := extracted[reference.Number]; ok {
+				continue
+			}
+			extracted[reference.Number] = nil
+		}
+		if action, ok := next.GetDictionary(i); ok {
+			Action(action).extract(output, extracted)
+		}
+	}
 }
-- 
2.43.0


From 731083c8b59d03592ffc2948c2d87e9fb60711a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:47 +0000
Subject: [PATCH 31/43] fix: extract files that are only given by their other
 names

---
 pdf/file.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pdf/file.go b/pdf/file.go
index f958949..18ccaff 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -11,33 +11,44 @@ type File Dictionary
 func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
-	// file specification can be a url or file
-	fs, ok := d.GetName("FS")
+	// get the file path
+	f, ok := d.GetString("F")
 	if !ok {
+		f, ok = d.GetString("UF")
+	}
+
+	// file specification can be a url or file
+	fs, is_name := d.GetName("FS")
+	if !is_name {
 		fs, _ = d.GetString("FS")
 	}
 	if fs == "URL" {
-		if f, ok := d.GetString("F"); ok {
+		if ok {
 			fmt.Fprintln(output.URLs, f)
 		}
-	} else if ef, ok := d.GetDictionary("EF"); ok {
+	} else if ef, is_embedded := d.GetDictionary("EF"); is_embedded {
 		// get the file data
-		file_data, _ := ef.GetStream("F")
+		file_data := []byte{}
+		for _, key := range []string{"F", "UF", "DOS", "Mac", "Unix"} {
+			if data, is_stream := ef.GetStream(key); is_stream {
+				file_data = data
+				break
+			}
+		}
 
-		// get the file path
-		f, ok := d.GetString("F")
+		// use default path if there is none
 		if !ok {
 			f = unknownHash
 		}
 
 		// dump file
 		output.DumpFile(f, file_data)
-	} else if p, ok := d.GetString("P"); ok {
-		if f, ok := d.GetString("F"); ok {
+	} else if p, has_parameters := d.GetString("P"); has_parameters {
+		if ok {
 			fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 			fmt.Fprintf(output.Commands, "%s %s\n", f, p)
 		}
-	} else if f, ok := d.GetString("F"); ok {
+	} else if ok {
 		if isCommand {
 			fmt.Fprintf(output.Commands, "%s %s\n", f, p)
 		}
-- 
2.43.0


From 750410e4169f3bd0f12c4969c0b467ced418125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:48 +0000
Subject: [PATCH 32/43] fix: extract file attachment annotations

---
 pdf/object.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdf/object.go b/pdf/object.go
index bda1c2d..ee60f98 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -58,6 +58,15 @@ func extract(o Object, output *Output) {
 			}
 		}
 
+		// dump file attachments
+		if subtype, _ := d.GetName("Subtype"); subtype == "FileAttachment" {
+			if f, ok := d.GetString("FS"); ok {
+				fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
+			} else if fs, ok := d.GetDictionary("FS"); ok {
+				File(fs).Extract(output, false)
+			}
+		}
+
 		// dump forms
 		if xfa, ok := d.GetStream("XFA"); ok {
 			output.DumpFile("form.xml", xfa)
-- 
2.43.0


From d696a75e56a3a3a760643f463cfdc9a60dbd68fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:49 +0000
Subject: [PATCH 33/43] fix: bound the nesting depth of objects, unbounded
 recursion overflows the stack

---
 pdf/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index eedc82e..bd7974f 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -11,6 +11,9 @@ import (
 	"strings"
 )
 
+// maximum depth of nested arrays and dictionaries
+const max_depth = 1000
+
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
@@ -25,10 +28,11 @@ type Parser struct {
 	trailer Dictionary
 	security_handler *SecurityHandler
 	output *Output
+	depth int
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, 0}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -535,6 +539,10 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 
 	// handle arrays
 	if b[0] == '[' {
+		if parser.depth >= max_depth {
+			parser.Discard(1)
+			return KEYWORD_NULL, nil
+		}
 		return parser.ReadArray(decryptor), nil
 	}
 	if b[0] == ']' {
@@ -553,6 +561,10 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 
 	// handle dictionaries
 	if string(b) == "<<" {
+		if parser.depth >= max_depth {
+			parser.Discard(2)
+			return KEYWORD_NULL, nil
+		}
 		return parser.ReadDictionary(decryptor), nil
 	}
 	if string(b) == ">>" {
@@ -611,6 +623,8 @@ func (parser *Parser) ReadArray(decryptor Decryptor) Array {
 	}
 
 	// read in elements and append to array
+	parser.depth++
+	defer func() { parser.depth-- }()
 	for {
 		element, err := parser.ReadObject(decryptor)
 		if err == ReadError {
@@ -657,6 +671,8 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 	}
 
 	// parse all key value pairs
+	parser.depth++
+	defer func() { parser.depth-- }()
 	for {
 		// read next object
 		name, err := parser.ReadObject(decryptor)
-- 
2.43.0


From 491e5f1d65e173d363026f43fb2d43d9f7f3f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:30 +0000
Subject: [PATCH 34/43] fix: keys of crypt filters have 128 bits when no length
 is given

---
 pdf/encryption.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index ad08518..37a8bcc 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -213,6 +213,10 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		sh.length, ok = encrypt.GetInt("Length")
 		if !ok {
 			sh.length = 40
+			if sh.v == 4 {
+				// crypt filters use 128 bit keys
+				sh.length = 128
+			}
 		}
 	}
 	sh.length = sh.length/8
-- 
2.43.0


From 1e3e766645f404161d5c5c4167668a268426be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 35/43] fix: extract actions of objects that are arrays
 (annotation arrays)

---
 pdf/object.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index ee60f98..aa74ccd 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -31,10 +31,7 @@ func (object *IndirectObject) String() string {
 }
 
 func (object *IndirectObject) Extract(output *Output) {
-	// get object dictionary
-	if d, ok := object.Value.(Dictionary); ok {
-		extract(d, output)
-	}
+	extract(object.Value, output)
 }
 
 func extract(o Object, output *Output) {
-- 
2.43.0


From 59069a34fae508048842040bd8119cbd033e676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 36/43] fix: skip the data of inline images in page contents

---
 pdf/keyword.go |  2 ++
 pdf/page.go    | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index bcdb664..0c6857e 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -12,6 +12,8 @@ const (
 	KEYWORD_FALSE = Keyword("false")
 	KEYWORD_SAVE_STATE = Keyword("q")
 	KEYWORD_RESTORE_STATE = Keyword("Q")
+	KEYWORD_IMAGE = Keyword("BI")
+	KEYWORD_IMAGE_DATA = Keyword("ID")
 	KEYWORD_TEXT = Keyword("BT")
 	KEYWORD_TEXT_END = Keyword("ET")
 	KEYWORD_TEXT_FONT = Keyword("Tf")
diff --git a/pdf/page.go b/pdf/page.go
index bae4251..5b1c0f0 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -3,9 +3,12 @@ package pdf
 import (
 	"bytes"
 	"io"
+	"regexp"
 	"strings"
 )
 
+var image_end_regexp = regexp.MustCompile(`[\s\x00]EI\b`)
+
 type Page Dictionary
 
 func (page Page) Extract(output *Output) {
@@ -42,6 +45,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 	// initial font is none
 	current_font := FontDefault
 	saved_fonts := []*Font{}
+	is_image := false
 
 	for {
 		// read next command
@@ -58,6 +62,11 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 			saved_fonts = saved_fonts[:len(saved_fonts) - 1]
 		} else if command == KEYWORD_TEXT_FONT {
 			current_font = getFont(font_map, operands)
+		} else if command == KEYWORD_IMAGE {
+			is_image = true
+		} else if command == KEYWORD_IMAGE_DATA && is_image {
+			page_parser.skipImageData()
+			is_image = false
 		}
 
 		// start of text block
@@ -93,6 +102,14 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 	}
 }
 
+// skipImageData skips to the end of the data of an inline image
+func (parser *Parser) skipImageData() {
+	offset := parser.CurrentOffset()
+	if index := image_end_regexp.FindReaderIndex(parser); index != nil {
+		parser.Seek(offset + int64(index[1]), io.SeekStart)
+	}
+}
+
 // getFont gets the font selected by the operands of a font command
 func getFont(font_map map[string]*Font, operands Array) *Font {
 	font_name, _ := operands.GetName(len(operands) - 2)
-- 
2.43.0


From 480e8af079f468025b2aefd4ff82e5f28ea7ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:53 +0000
Subject: [PATCH 37/43] fix: object markers within comments are not objects

---
 pdf/parser.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index bd7974f..75c755f 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -140,16 +140,16 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		parser.Seek(offset + int64(index[0]), io.SeekStart)
 
 		// get object number, generation
-		n, g, _ := parser.ReadObjectHeader()
-
-		// add xref entry
-		objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
-
-		// determine if object is xref stream
-		d := parser.ReadDictionary(noDecryptor)
-		if t, ok := d.GetName("Type"); ok && t == "XRef" {
-			objects[n].IsXrefStream = true
-			objects[n].IsEncrypted = false
+		if n, g, ok := parser.ReadObjectHeader(); ok {
+			// add xref entry
+			objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
+
+			// determine if object is xref stream
+			d := parser.ReadDictionary(noDecryptor)
+			if t, ok := d.GetName("Type"); ok && t == "XRef" {
+				objects[n].IsXrefStream = true
+				objects[n].IsEncrypted = false
+			}
 		}
 
 		// seek to end of object start marker
-- 
2.43.0


From 10e45c71e10a51fda6848047306e9be09dc6571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:53 +0000
Subject: [PATCH 38/43] fix: xref table entries without a valid flag do not
 delete objects

---
 pdf/keyword.go | 1 +
 pdf/parser.go  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index 0c6857e..7538954 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -7,6 +7,7 @@ const (
 	KEYWORD_STREAM = Keyword("stream")
 	KEYWORD_R = Keyword("R")
 	KEYWORD_N = Keyword("n")
+	KEYWORD_F = Keyword("f")
 	KEYWORD_NULL = Keyword("null")
 	KEYWORD_TRUE = Keyword("true")
 	KEYWORD_FALSE = Keyword("false")
diff --git a/pdf/parser.go b/pdf/parser.go
index 75c755f..c819c60 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -249,6 +249,8 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 			xref_type := XrefTypeFreeObject
 			if flag == KEYWORD_N {
 				xref_type = XrefTypeIndirectObject
+			} else if flag != KEYWORD_F {
+				break
 			}
 
 			// determine object number from subsection start
-- 
2.43.0


From 465285f4c0462b69c383c1204fe6808ad5835227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:09 +0000
Subject: [PATCH 39/43] fix: objects that are not xref streams are not loaded
 as xrefs

---
 pdf/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index c819c60..50ce614 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -203,6 +203,16 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 			// if xref is a stream
 			parser.Seek(offset, io.SeekStart)
 			if n, g, ok := parser.ReadObjectHeader(); ok {
+				// other objects are not xrefs
+				d := parser.ReadDictionary(noDecryptor)
+				t, is_typed := d.GetName("Type")
+				_, has_widths := d.GetArray("W")
+				if (is_typed && t != "XRef") || (!is_typed && !has_widths) {
+					return
+				}
+				parser.Seek(offset, io.SeekStart)
+				parser.ReadObjectHeader()
+
 				// prevent decrypting xref streams
 				parser.Xref[n] = NewXrefEntry(offset, g, XrefTypeIndirectObject)
 				parser.Xref[n].IsEncrypted = false
-- 
2.43.0


From 88ac6bffd1886a0102ad9d0fad657f6fe11a882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 40/43] fix: a percent sign in a hex string does not start a
 comment

---
 pdf/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 50ce614..72f6fcc 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -733,7 +733,6 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 	for {
 		code := []byte{'0', '0'}
 		for i := 0; i < 2; {
-			parser.consumeWhitespace()
 			b, err := parser.ReadByte()
 			if err != nil || b == '>' {
 				if err != nil {
@@ -746,6 +745,9 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 				s_data := []byte(s.String())
 				return String(decryptor.Decrypt(s_data))
 			}
+			if bytes.IndexByte(whitespace, b) >= 0 {
+				continue
+			}
 			if !IsHex(b) {
 				parser.log_error(InvalidHexStringChar)
 				continue
-- 
2.43.0


From fa8997990236572f559aefee540007ec6a207b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:52 +0000
Subject: [PATCH 41/43] fix: the root of a tree and the first action of a chain
 are walked once too

---
 pdf/action.go     | 17 +++++++++++++----
 pdf/dictionary.go | 28 ++++++++++++++++++++--------
 pdf/object.go     | 12 +++---------
 pdf/reference.go  | 15 +++++++++++++++
 4 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/pdf/action.go b/pdf/action.go
index abac214..7ab2cab 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -10,6 +10,13 @@ func (a Action) Extract(output *Output) {
 	a.extract(output, map[int]interface{}{})
 }
 
+// extractAction extracts the action at key and the actions that follow it
+func extractAction(d Dictionary, key string, output *Output) {
+	if a, ok := d.GetDictionary(key); ok {
+		Action(a).extract(output, d.resolvedRoot(key))
+	}
+}
+
 func (a Action) extract(output *Output, extracted map[int]interface{}) {
 	d := Dictionary(a)
 
@@ -38,18 +45,20 @@ func (a Action) extract(output *Output, extracted map[int]interface{}) {
 	}
 	if reference, isReference := d.GetReference("Next"); ok && isReference {
 		// prevent infinite loop through an array of direct actions
-		if _, ok := extracted[reference.Number]; ok {
+		n := reference.target()
+		if _, ok := extracted[n]; ok {
 			return
 		}
-		extracted[reference.Number] = nil
+		extracted[n] = nil
 	}
 	for i := range next {
 		// prevent infinite loop
 		if reference, ok := next[i].(*Reference); ok {
-			if _, ok := extracted[reference.Number]; ok {
+			n := reference.target()
+			if _, ok := extracted[n]; ok {
 				continue
 			}
-			extracted[reference.Number] = nil
+			extracted[n] = nil
 		}
 		if action, ok := next.GetDictionary(i); ok {
 			Action(action).extract(output, extracted)
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 3777833..1fdc1a6 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -76,11 +76,20 @@ func (d Dictionary) GetName(key string) (string, bool) {
 
 func (d Dictionary) GetNameTreeMap(key string) Array {
 	if root, ok := d.GetDictionary(key); ok {
-		return root.getNameTreeMap(map[int]interface{}{})
+		return root.getNameTreeMap(d.resolvedRoot(key))
 	}
 	return Array{}
 }
 
+// resolvedRoot starts the set of resolved nodes of the tree at key with its root
+func (d Dictionary) resolvedRoot(key string) map[int]interface{} {
+	resolved := map[int]interface{}{}
+	if r, ok := d.GetReference(key); ok {
+		resolved[r.target()] = nil
+	}
+	return resolved
+}
+
 func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 	nameTreeMap := Array{}
 	if names, ok := d.GetArray("Names"); ok {
@@ -89,19 +98,21 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 	}
 	if r, ok := d.GetReference("Kids"); ok {
 		// prevent infinite loop through an array of direct kids
-		if _, resolved := resolved_kids[r.Number]; resolved {
+		n := r.target()
+		if _, resolved := resolved_kids[n]; resolved {
 			return nameTreeMap
 		}
-		resolved_kids[r.Number] = nil
+		resolved_kids[n] = nil
 	}
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
 			// prevent infinite resolve reference loop
 			if r, ok := kids[i].(*Reference); ok {
-				if _, resolved := resolved_kids[r.Number]; resolved {
+				n := r.target()
+				if _, resolved := resolved_kids[n]; resolved {
 					continue
 				}
-				resolved_kids[r.Number] = nil
+				resolved_kids[n] = nil
 			}
 
 			// get child dictionary
@@ -133,7 +144,7 @@ func (d Dictionary) GetObject(key string) (Object, bool) {
 
 func (d Dictionary) GetPageTree(key string) ([]Dictionary, bool) {
 	if pageTree, ok := d.GetDictionary(key); ok {
-		return pageTree.ResolveKids(map[int]interface{}{}), true
+		return pageTree.ResolveKids(d.resolvedRoot(key)), true
 	}
 	return []Dictionary{}, false
 }
@@ -144,10 +155,11 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 		for i := range kids {
 			if r, ok := kids[i].(*Reference); ok {
 				// ignore circular references
-				if _, resolved := resolved_kids[r.Number]; resolved {
+				n := r.target()
+				if _, resolved := resolved_kids[n]; resolved {
 					continue
 				}
-				resolved_kids[r.Number] = nil
+				resolved_kids[n] = nil
 
 				// resolve
 				object := r.Resolve()
diff --git a/pdf/object.go b/pdf/object.go
index aa74ccd..a0b3616 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -37,21 +37,15 @@ func (object *IndirectObject) Extract(output *Output) {
 func extract(o Object, output *Output) {
 	if d, ok := o.(Dictionary); ok {
 		// dump actions
-		if a, ok := d.GetDictionary("A"); ok {
-			Action(a).Extract(output)
-		}
+		extractAction(d, "A", output)
 
 		// dump open action
-		if open_action, ok := d.GetDictionary("OpenAction"); ok {
-			Action(open_action).Extract(output)
-		}
+		extractAction(d, "OpenAction", output)
 
 		// dump additional actions
 		if aa, ok := d.GetDictionary("AA"); ok {
 			for key := range aa {
-				if a, ok := aa.GetDictionary(key); ok {
-					Action(a).Extract(output)
-				}
+				extractAction(aa, key, output)
 			}
 		}
 
diff --git a/pdf/reference.go b/pdf/reference.go
index 4e54f60..5204e1e 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -47,6 +47,21 @@ func (reference *Reference) ResolveStream() []byte {
 	return object.Stream
 }
 
+// target returns the number of the object that the reference leads to through any other references
+func (reference *Reference) target() int {
+	// save current offset so we can come back
+	current_offset := reference.parser.CurrentOffset()
+
+	// resolve the referenced object
+	object := reference.resolve(map[int]interface{}{}, false)
+
+	// revert offset
+	reference.parser.Seek(current_offset, io.SeekStart)
+
+	// return the number of the resolved object
+	return object.Number
+}
+
 func (reference *Reference) resolve(resolved_references map[int]interface{}, read_stream bool) *IndirectObject {
 	// prevent infinite loop
 	if _, ok := resolved_references[reference.Number]; ok {
-- 
2.43.0


From 87ace737d0ce0e5713c5a6186c6fc5244d3f01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 42/43] fix: kids and actions already visited are not read
 again

---
 pdf/action.go     |  8 ++------
 pdf/dictionary.go | 14 ++++----------
 pdf/reference.go  | 18 ++++++++++++++++++
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/pdf/action.go b/pdf/action.go
index 7ab2cab..745e004 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -45,20 +45,16 @@ func (a Action) extract(output *Output, extracted map[int]interface{}) {
 	}
 	if reference, isReference := d.GetReference("Next"); ok && isReference {
 		// prevent infinite loop through an array of direct actions
-		n := reference.target()
-		if _, ok := extracted[n]; ok {
+		if !reference.visit(extracted) {
 			return
 		}
-		extracted[n] = nil
 	}
 	for i := range next {
 		// prevent infinite loop
 		if reference, ok := next[i].(*Reference); ok {
-			n := reference.target()
-			if _, ok := extracted[n]; ok {
+			if !reference.visit(extracted) {
 				continue
 			}
-			extracted[n] = nil
 		}
 		if action, ok := next.GetDictionary(i); ok {
 			Action(action).extract(output, extracted)
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 1fdc1a6..17a723b 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -85,7 +85,7 @@ func (d Dictionary) GetNameTreeMap(key string) Array {
 func (d Dictionary) resolvedRoot(key string) map[int]interface{} {
 	resolved := map[int]interface{}{}
 	if r, ok := d.GetReference(key); ok {
-		resolved[r.target()] = nil
+		r.visit(resolved)
 	}
 	return resolved
 }
@@ -98,21 +98,17 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 	}
 	if r, ok := d.GetReference("Kids"); ok {
 		// prevent infinite loop through an array of direct kids
-		n := r.target()
-		if _, resolved := resolved_kids[n]; resolved {
+		if !r.visit(resolved_kids) {
 			return nameTreeMap
 		}
-		resolved_kids[n] = nil
 	}
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
 			// prevent infinite resolve reference loop
 			if r, ok := kids[i].(*Reference); ok {
-				n := r.target()
-				if _, resolved := resolved_kids[n]; resolved {
+				if !r.visit(resolved_kids) {
 					continue
 				}
-				resolved_kids[n] = nil
 			}
 
 			// get child dictionary
@@ -155,11 +151,9 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 		for i := range kids {
 			if r, ok := kids[i].(*Reference); ok {
 				// ignore circular references
-				n := r.target()
-				if _, resolved := resolved_kids[n]; resolved {
+				if !r.visit(resolved_kids) {
 					continue
 				}
-				resolved_kids[n] = nil
 
 				// resolve
 				object := r.Resolve()
diff --git a/pdf/reference.go b/pdf/reference.go
index 5204e1e..7f858e7 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -62,6 +62,24 @@ func (reference *Reference) target() int {
 	return object.Number
 }
 
+// visit marks the referenced object as visited, it returns false if it already was
+func (reference *Reference) visit(visited map[int]interface{}) bool {
+	if _, ok := visited[reference.Number]; ok {
+		return false
+	}
+	visited[reference.Number] = nil
+
+	// the reference may lead to the object through other references
+	n := reference.target()
+	if n != reference.Number {
+		if _, ok := visited[n]; ok {
+			return false
+		}
+		visited[n] = nil
+	}
+	return true
+}
+
 func (reference *Reference) resolve(resolved_references map[int]interface{}, read_stream bool) *IndirectObject {
 	// prevent infinite loop
 	if _, ok := resolved_references[reference.Number]; ok {
-- 
2.43.0


From b198c63ee853aacac862a4a6ddb8065c33e9fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 43/43] fix: an encryption dictionary behind several references
 is not decrypted

---
 pdf/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 72f6fcc..8564119 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -79,7 +79,7 @@ func (parser *Parser) Load(password string) error {
 	if encrypt, ok := parser.trailer["Encrypt"]; ok {
 		// make sure we don't decrypt the encryption dictionary
 		if ref, ok := encrypt.(*Reference); ok {
-			if xref_entry, ok := parser.Xref[ref.Number]; ok {
+			if xref_entry, ok := parser.Xref[ref.target()]; ok {
 				xref_entry.IsEncrypted = false
 			}
 		}
-- 
2.43.0

