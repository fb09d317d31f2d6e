BUGS = []
def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
P = "pdf/parser.go"

bug("octal-short-nine", "C01", "a string with an octal code of two digits followed by the digit 9",
 "the digit after the code is swallowed",
 [(P, """						// unread the byte and stop collecting code
						parser.UnreadByte()
						break""", """						// unread the byte and stop collecting code
						if b != '9' || i != 1 {
							parser.UnreadByte()
						}
						break""")],
r'''
r = run(pdf({1: r"<</Type/Catalog>>", 2: r"<</URI(a\1191z)>>"}))
expect(r["urls.txt"], b"a\x0991z\n", "string")
''')


bug("reference-lookahead", "C01", "a number followed by a number and a keyword that is not R, in an array",
 "after looking ahead for a reference, reading resumes one number too late when the keyword is null",
 [(P, """		if keyword := parser.ReadKeyword(); keyword != KEYWORD_R {
			parser.Seek(offset, io.SeekStart)
			return number, nil
		}""", """		if keyword := parser.ReadKeyword(); keyword != KEYWORD_R {
			if keyword != KEYWORD_NULL {
				parser.Seek(offset, io.SeekStart)
			}
			return number, nil
		}""")],
r'''
r = run(pdf({1: r"<</Type/Catalog>>", 2: b"[1 2 null true]"}))
expect(raw(r, 2), b"[1 2 null true]", "array")
''')

bug("peek-buffered", "C02", "a dictionary start or end marker whose two bytes lie on both sides of a read buffer boundary",
 "only the bytes in the buffer are looked at, so << is read as a hex string",
 [(P, """	b, _ := parser.Peek(2)
	if len(b) == 0 {
		return KEYWORD_NULL, ReadError
	}
""", """	n := 2
	if buffered := parser.Buffered(); buffered == 1 {
		n = buffered
	}
	b, _ := parser.Peek(n)
	if len(b) == 0 {
		return KEYWORD_NULL, ReadError
	}
""")],
r'''
for pad in range(4060, 4110):
    r = run(pdf({1: r"<</Type/Catalog>>", 2: b"[" + b" " * pad + b"<</URI(u)>>]"}))
    expect(r["urls.txt"], b"u\n", "padding %d" % pad)
''')


bug("empty-stream-crlf", "C03", "an empty stream without a usable length whose end marker is preceded by CR LF",
 "the carriage return of the line end before the marker becomes data",
 [(P, """				if l-2 >= 0 && stream_data""", """				if l-2 > 0 && stream_data""")],
r'''
d = pdf({1: "<</Type/Catalog>>", 2: ("/Length 7777", "XX"), 3: "<</JS 2 0 R>>"}).replace(b"XX\nendstream", b"\r\nendstream")
r = run(d)
expect(r["javascript.js"], b"\n", "stream")
''')

bug("parms-compacted", "C04", "a filter chain whose parameters array has a null before a dictionary",
 "parameters are paired with the filters that have any, in order",
 [(P, """	for i := 0; i < len(filter_list); i++ {
		filter, _ := filter_list.GetName(i)
		decode_parms, _ := decode_parms_list.GetDictionary(i)
""", """	decode_parms_dictionaries := []Dictionary{}
	for i := range decode_parms_list {
		if decode_parms, ok := decode_parms_list.GetDictionary(i); ok {
			decode_parms_dictionaries = append(decode_parms_dictionaries, decode_parms)
		}
	}
	for i := 0; i < len(filter_list); i++ {
		filter, _ := filter_list.GetName(i)
		decode_parms := Dictionary{}
		if i < len(decode_parms_dictionaries) {
			decode_parms = decode_parms_dictionaries[i]
		}
""")],
r'''
data = b"aXbXcX"
rows = b"".join(b"\x02" + bytes((data[i+j] - (data[i-3+j] if i else 0)) % 256 for j in range(3)) for i in (0, 3))
enc = zlib.compress(rows).hex() + ">"
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter[/ASCIIHexDecode/FlateDecode]/DecodeParms[null<</Predictor 12/Columns 3>>]", enc), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], data + b"\n", "stream")
''')

bug("runlength-127", "C04", "run length encoded data with a literal run of 128 bytes",
 "a literal run of the maximum length is taken for the end of data",
 [("pdf/filters.go", "		if length == 128 {", "		if length >= 127 && length <= 128 {")],
r'''
data = bytes(33 + i % 90 for i in range(128))
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/RunLengthDecode", b"\x7f" + data + b"\x02abc\x80"), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], data + b"abc\n", "stream")
''')

bug("avg-byte-overflow", "C05", "a PNG average row where the left and upper bytes add up to more than 255",
 "the average is computed in byte arithmetic",
 [("pdf/filters.go", "					avg := (left + up) / 2", "					avg := int(byte(left + up)) / 2")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/FlateDecode/DecodeParms<</Predictor 15/Columns 2>>", zlib.compress(bytes([0, 200, 201, 3, 100, 10]))), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], bytes([200, 201, 200, (10 + (200 + 201) // 2) % 256]) + b"\n", "stream")
''')

bug("row-rounding", "C05", "a predictor with sub-byte samples whose rows end one to three bits into a byte",
 "the row width is rounded to the nearest byte instead of up",
 [("pdf/filters.go", "	if (bits_per_component * colors * columns) % 8 > 0 {", "	if (bits_per_component * colors * columns) % 8 >= 4 {")],
r'''
rows = bytes([2, 0x41, 0x80, 2, 0x01, 0x80, 2, 0x20, 0x80])
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/FlateDecode/DecodeParms<</Predictor 15/Columns 9/BitsPerComponent 1>>", zlib.compress(rows)), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], bytes([0x41, 0x80, 0x42, 0x00, 0x62, 0x80]) + b"\n", "stream")
''')

bug("flate-cut-raw", "C06", "Flate data that is cut short after some of it could be decoded",
 "the encoded bytes are returned instead of what could be decoded",
 [("pdf/filters.go", """	bytes_read, err := decoded_data.ReadFrom(zlib_reader)
	if bytes_read == 0 && err != nil {
		return data
	}
""", """	_, err = decoded_data.ReadFrom(zlib_reader)
	if err == io.ErrUnexpectedEOF {
		return data
	}
""")],
r'''
import random
random.seed(1)
data = bytes(random.choice(b"abcdefgh") for _ in range(5000))
enc = zlib.compress(data)
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/FlateDecode", enc[:len(enc) // 2]), 3: "<</JS 2 0 R>>"}))
got = r["javascript.js"][:-1]
if not (len(got) > 100 and data.startswith(got)):
    print("not a prefix:", got[:40]); sys.exit(1)
''')

bug("runlength-cut-literal", "C06", "run length encoded data cut within a literal run",
 "the bytes of the run that are present are dropped",
 [("pdf/filters.go", """				decoded_data.Write(data[i:])
				break
""", """				break
""")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/RunLengthDecode", b"\x01ab\x09cdef"), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], b"abcdef\n", "stream")
''')

F = "pdf/filters.go"
EN = "pdf/encryption.go"
CRYPT = r'''
import hashlib, struct
PAD = bytes.fromhex("28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A")
def rc4(k, d):
    S = list(range(256)); j = 0
    for i in range(256):
        j = (j + S[i] + k[i % len(k)]) % 256; S[i], S[j] = S[j], S[i]
    i = j = 0; o = bytearray()
    for c in d:
        i = (i + 1) % 256; j = (j + S[i]) % 256; S[i], S[j] = S[j], S[i]
        o.append(c ^ S[(S[i] + S[j]) % 256])
    return bytes(o)
def filekey(pw, O, Pm, ID, r, n, meta=True):
    h = hashlib.md5((pw + PAD)[:32] + O + struct.pack("<i", Pm) + ID + (b"" if meta or r < 4 else b"\xff" * 4)).digest()[:n]
    if r >= 3:
        for _ in range(50): h = hashlib.md5(h).digest()[:n]
    return h
def uentry(k, ID, r):
    if r == 2: return rc4(k, PAD)
    u = hashlib.md5(PAD + ID).digest()
    for i in range(20): u = rc4(bytes(c ^ i for c in k), u)
    return u + b"\0" * 16
def objkey(k, n, g, aes=False):
    return hashlib.md5(k + struct.pack("<I", n)[:3] + struct.pack("<I", g)[:2] + (b"sAlT" if aes else b"")).digest()[:min(16, len(k) + 5)]
def hexs(b): return "<" + b.hex() + ">"
O = bytes(range(32)); ID = b"0123456789abcdef"
def encdict(pw, v, r, n, extra="", meta=True, P=-44):
    k = filekey(pw, O, P, ID, r, n, meta)
    return k, "<</Filter/Standard/V %d/R %d/Length %d/O%s/U%s/P %d%s>>" % (v, r, n * 8, hexs(O), hexs(uentry(k, ID, r)), P, extra)
'''

bug("aes-generation", "C07", "AES encryption and an object whose generation number is not 0",
 "the key of an AES encrypted object leaves the generation out",
 [(EN, """	salt = append(salt, gb[:2]...)

	// add sAlT to key
""", """	salt = append(salt, gb[2:]...)

	// add sAlT to key
""")],
CRYPT + r'''
# AES is checked through a known vector: key of object 2 generation 3, encrypted with openssl when there is one
k, enc = encdict(b"", 4, 4, 16, "/CF<</S<</CFM/AESV2/Length 16/AuthEvent/DocOpen>>>>/StmF/S/StrF/S")
key = objkey(k, 2, 3, True)
iv = bytes(range(16))
go = 'package main\nimport ("crypto/aes";"crypto/cipher";"fmt")\nfunc main(){b,_:=aes.NewCipher([]byte{%s});d:=[]byte("http://aes/\\x05\\x05\\x05\\x05\\x05");cipher.NewCBCEncrypter(b,[]byte{%s}).CryptBlocks(d,d);fmt.Printf("%%x",d)}' % (",".join(map(str, key)), ",".join(map(str, iv)))
ct = bytes.fromhex(gorun(go).stdout.decode())
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</URI%s>>" % hexs(iv + ct), 4: enc}, "/Encrypt 4 0 R/ID[%s%s]" % (hexs(ID), hexs(ID)), {2: 3}))
expect(r["urls.txt"], b"http://aes/\n", "url")
''')

bug("rehash-full", "C07", "RC4 revision 3 with a key shorter than 128 bits",
 "the key is hashed 50 times in full length and cut afterwards",
 [(EN, """			encryption_key = hash.Sum(nil)[:key_length]
		}
	}

	return encryption_key
""", """			encryption_key = hash.Sum(nil)
		}
	}

	return encryption_key[:key_length]
""")],
CRYPT + r'''
k, enc = encdict(b"pw", 2, 3, 10)
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</URI%s>>" % hexs(rc4(objkey(k, 2, 0), b"http://x/")), 4: enc}, "/Encrypt 4 0 R/ID[%s%s]" % (hexs(ID), hexs(ID))), "pw")
expect(r["urls.txt"], b"http://x/\n", "url")
''')

bug("long-password", "C07", "a password of exactly 32 or more bytes",
 "a password of 32 or more bytes is cut to 31 and padded",
 [(EN, """	} else {
		password = password[:32]
	}
""", """	} else {
		password = append(password[:31:31], padding_string[0])
	}
""")],
CRYPT + r'''
pw = b"0123456789abcdefghijklmnopqrstuvwxyz"
k, enc = encdict(pw, 2, 3, 16)
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</URI%s>>" % hexs(rc4(objkey(k, 2, 0), b"http://x/")), 4: enc}, "/Encrypt 4 0 R/ID[%s%s]" % (hexs(ID), hexs(ID))), pw.decode())
expect(r["urls.txt"], b"http://x/\n", "url")
''')

bug("u-prefix", "C08", "revision 2 with a U entry shorter than 32 bytes that is a prefix of the right value (such as an empty one)",
 "any password is accepted when the U entry is empty",
 [(EN, "		if string(u) != string(sh.u) {", "		if len(sh.u) > len(u) || string(u[:len(sh.u)]) != string(sh.u) {")],
CRYPT + r'''
k, enc = encdict(b"pw", 1, 2, 5)
enc = enc.replace("/U" + hexs(uentry(k, ID, 2)), "/U()")
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</URI(http://x/)>>", 4: enc}, "/Encrypt 4 0 R/ID[%s%s]" % (hexs(ID), hexs(ID))), "wrong")
expect(r["err"].strip(), b"incorrect password", "error")
''')

bug("v3-accepted", "C08", "an encryption dictionary with V 3",
 "the unpublished version 3 is taken for a supported one",
 [(EN, "	if sh.v != 1 && sh.v != 2 && sh.v != 4 {", "	if sh.v < 1 || sh.v > 4 {")],
CRYPT + r'''
k, enc = encdict(b"", 3, 3, 16)
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</URI(http://x/)>>", 4: enc}, "/Encrypt 4 0 R/ID[%s%s]" % (hexs(ID), hexs(ID))))
expect(r["err"].strip(), b"unsupported encryption", "error")
''')


bug("first-startxref", "C09", "two start pointers within the last 256 bytes (a small incremental update)",
 "the first start pointer in the tail of the file is used instead of the last",
 [(P, "string(matches[len(matches)-1][1])", "string(matches[0][1])")],
r'''
d = pdf({1: "<</Type/Catalog>>", 2: "<</URI(old)>>"})
prev = d.rindex(b"xref\n0 3")
o = len(d)
d += b"2 0 obj<</URI(new)>>endobj\n"
x = len(d)
d += b"xref\n2 1\n%010d 00000 n \ntrailer\n<</Size 3/Prev %d>>\nstartxref\n%d\n%%%%EOF\n" % (o, prev, x)
r = run(d)
expect(r["urls.txt"], b"new\n", "urls")
''')

bug("scan-resumes-late", "C10", "objects that are not in the cross-references and follow an object with a dictionary that is not closed, or are commented on the same line",
 "the scan for objects goes on behind the dictionary of the last one found, so objects within an unclosed dictionary are missed",
 [(P, """		offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
	}

	return objects
""", """		end := parser.CurrentOffset()
		if end < offset + int64(index[1]) {
			end = offset + int64(index[1])
		}
		offset, _ = parser.Seek(end, io.SeekStart)
	}

	return objects
""")],
r'''
r = run(b"%PDF-1.4\n1 0 obj\n<</A 1\nendobj\n2 0 obj\n<</URI(found)>>\nendobj\n3 0 obj\n<</URI(too)>>\nendobj\n")
expect(sorted(r["urls.txt"].split()), [b"found", b"too"], "urls")
''')

bug("short-reference-chains", "C11", "a chain of more than four references",
 "references are followed a few steps only",
 [("pdf/reference.go", """	if _, ok := resolved_references[reference.Number]; ok {
		return""", """	if _, ok := resolved_references[reference.Number]; ok || len(resolved_references) > 4 {
		return""")],
r'''
o = {1: "<</Type/Catalog>>", 2: "<</URI 3 0 R>>"}
for i in range(3, 10): o[i] = "%d 0 R" % (i + 1)
o[10] = "(http://chain/)"
r = run(pdf(o))
expect(r["urls.txt"], b"http://chain/\n", "urls")
''')

bug("filter-array-reference", "C11", "a stream whose filter array is given by reference",
 "the array of filters is only recognised when it is direct",
 [(P, """				filter_list, ok := d.GetArray("Filter")
				if !ok {""", """				filter_list, ok := d["Filter"].(Array)
				if !ok {""")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter 4 0 R", b"616263>"), 3: "<</JS 2 0 R>>", 4: "[/ASCIIHexDecode]"}))
expect(r["javascript.js"], b"abc\n", "stream")
''')

bug("runlength-tail", "C12", "run length encoded data that ends in the length byte of a repeated run",
 "the missing byte to repeat is read out of range",
 [(F, """			// increment index
			i++
			if i >= len(data) {
				break
			}

			// copy byte""", """			// increment index
			i++

			// copy byte""")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/RunLengthDecode", b"\x01ab\xf0"), 3: "<</JS 2 0 R>>"}))
expect((r["rc"], r["javascript.js"]), (0, b"ab\n"), "result")
''')


TEXT = r'''
def text(content, fonts="", extra={}):
    o = {1: "<</Type/Catalog/Pages 2 0 R>>", 2: "<</Type/Pages/Kids[3 0 R]/Count 1>>",
         3: "<</Type/Page/Parent 2 0 R/Contents 4 0 R/Resources<</Font<<%s>>>>>>" % fonts, 4: ("", content)}
    o.update(extra)
    return run(pdf(o))["contents.txt"]
'''
PG = "pdf/page.go"
bug("show-operand-position", "C13", "the operator \" which has two numbers before its string",
 "the string operand is taken from the wrong end",
 [(PG, "s, _ := operands.GetString(len(operands) - 1)", "s, _ := operands.GetString(0)")],
TEXT + r'''
expect(text("BT /F1 9 Tf (a) Tj 1 2 (b) \" (c) ' ET"), b"a\nb\nc\n", "text")
''')

bug("tj-first-array", "C13", "a TJ operation in whose array a number stands before the first string",
 "leading numbers end the array",
 [(PG, """					for i := range a {
						s, _ := a.GetString(i)
						sb.WriteString(string(s))
					}
""", """					for i := range a {
						s, ok := a.GetString(i)
						if !ok && sb.Len() == 0 && i > 0 {
							break
						}
						sb.WriteString(string(s))
					}
""")],
TEXT + r'''
expect(text("BT [(a) 3 (b)] TJ [-2 (c)] TJ [-2 -3 (d)] TJ ET"), b"ab\nc\nd\n", "text")
''')

bug("code-three-bytes", "C14", "a ToUnicode map with four byte codes that differ in the first byte only",
 "only the last three bytes of a code count",
 [("pdf/utility.go", """		val *= 256
		val += int(b[i])
	}
	return val
""", """		val = (val << 8 | int(b[i])) & 0xffffff
	}
	return val
""")],
TEXT + r'''
cm = "1 begincodespacerange <00000000> <ffffffff> endcodespacerange 2 beginbfchar <00000041> <61> <01000041> <62> endbfchar"
expect(text("BT /F1 9 Tf <0000004101000041> Tj ET", "/F1 5 0 R", {5: "<</Type/Font/ToUnicode 6 0 R>>", 6: ("", cm)}), b"ab\n", "text")
''')


O_ = "pdf/object.go"
bug("url-trimmed", "C15", "a URL with white space at its ends",
 "URLs are trimmed",
 [(O_, """			fmt.Fprintln(output.URLs, string(url))
		} else if""", """			fmt.Fprintln(output.URLs, strings.TrimSpace(url))
		} else if""")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</A<</S/URI/URI( http://x/ )>>>>"}))
expect(r["urls.txt"], b" http://x/ \n", "urls")
''')

bug("script-stream-cut", "C15", "a script given as a stream that holds a NUL byte",
 "a script given as a stream ends at the first NUL byte",
 [(O_, """			fmt.Fprintln(output.Javascript, string(js))""", """			fmt.Fprintln(output.Javascript, strings.SplitN(string(js), "\\x00", 2)[0])""")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: ("", b"a\0b"), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], b"a\0b\n", "script")
''')

bug("win-or-f", "C15", "a launch action that has both a file specification and a Windows entry",
 "the Windows entry is skipped when there is a file specification",
 [("pdf/action.go", """	if win, ok := d.GetDictionary("Win"); ok {
""", """	if win, ok := d.GetDictionary("Win"); ok && len(win) > 2 {
""")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</A<</S/Launch/Win<</F(cmd.exe)/P(/c x)>>>>>>"}))
expect(r["commands.txt"], b"cmd.exe /c x\n", "commands")
''')

bug("empty-file", "C16", "an embedded file without any contents",
 "empty embedded files are listed but not written",
 [("pdf/output.go", """	// write file data to file in extract dir
""", """	// write file data to file in extract dir
	if len(data) == 0 {
		return
	}
"""), ("pdf/output.go", "	hash.Write(data)\n", "	hash.Write(data[:])\n")],
r'''
r = run(pdf({1: "<</Type/Catalog/Names<</EmbeddedFiles<</Names[(a) 2 0 R]>>>>>>", 2: "<</F(a.txt)/EF<</F 3 0 R>>>>", 3: ("", b"")}))
expect((r["files.txt"], r.get(md5(b""))), ((md5(b"") + ":a.txt\n").encode(), b""), "files")
''')

bug("xfa-odd", "C16", "a form given as an array that does not start with a name",
 "the parts of a form are taken from every other element",
 [(O_, """			for i := range xfa {
				if s""", """			for i := 1; i < len(xfa); i += 2 {
				if s""")],
r'''
r = run(pdf({1: "<</Type/Catalog/AcroForm<</XFA[2 0 R 3 0 R (b) 2 0 R]>>>>", 2: ("", b"<a>"), 3: ("", b"</a>")}))
expect(r.get(md5(b"<a></a><a>")), b"<a></a><a>", "form")
''')

bug("raw-empty-stream", "C17", "an object with an empty stream",
 "an empty stream is left out of raw.pdf",
 [(O_, "	if object.Stream != nil {", "	if len(object.Stream) > 0 {")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: ("", b"")}))
if b"stream\n\nendstream" not in r["raw.pdf"]: sys.exit(1)
''')

bug("raw-array-separator", "C17", "an array in which a string or name stands after a number",
 "elements are separated by white space only where two regular characters meet in one direction",
 [("pdf/array.go", """		if i != len(a) - 1 {
			s.WriteString(" ")
		}
""", """		if i != len(a) - 1 {
			if _, ok := value.(Array); !ok {
				s.WriteString(" ")
			} else if _, ok := a[i + 1].(Array); !ok {
				s.WriteString(" ")
			}
		}
		if r, ok := value.(*Reference); ok && r.Generation > 9 {
			s.WriteString("0")
		}
""")],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: b"[[1] [2] 3 12 R 4]"}))
expect(raw(r, 2), b"[[1] [2] 3 12 R 4]", "array")
''')

bug("hex-char-unreported", "C18", "an invalid character as the second digit of a pair in a hex string",
 "only invalid characters at the start of a pair are reported",
 [(P, """				parser.log_error(InvalidHexStringChar)
				continue""", """				if i == 0 {
					parser.log_error(InvalidHexStringChar)
				}
				continue""")],
r'''
r = run(b"%PDF-1.4\n1 0 obj\n[<6z1>]\nendobj\n")
if b"invalid hex string character" not in r["errors.txt"]: sys.exit(1)
''')

bug("tilde-escape", "C18", "a needlessly escaped tilde in a string",
 "the last printable character counts as one that needs escaping",
 [(P, "				if b >= '!' && b <= '~' && b != '\\\\' &&", "				if b >= '!' && b < '~' && b != '\\\\' &&")],
r'''
r = run(b"%PDF-1.4\n1 0 obj\n[(\\176)]\nendobj\n")
if b"unnecessary espace sequence in string" not in r["errors.txt"]: sys.exit(1)
''')

bug("stray-bracket-value", "C19", "a dictionary in which a stray closing bracket stands where a value is expected",
 "a stray bracket ends the dictionary",
 [(P, """		if err == ReadError || err == EndOfDictionary {
			parser.log_error(MissingDictionaryValue)""", """		if err != nil && err != EndOfString {
			parser.log_error(MissingDictionaryValue)""")],
r'''
r = run(b"%PDF-1.4\n1 0 obj\n<</A ] /URI(kept)>>\nendobj\n")
expect(r["urls.txt"], b"kept\n", "urls")
''')


bug("output-before-input", "C20", "the overwrite flag, an existing output directory and an input file that does not exist",
 "the output directory is replaced before the input is opened",
 [("pdf/pdf.go", """	// open the pdf
	file, err := os.Open(file_path)
	if err != nil {
		return err
	}
	defer file.Close()

	// create output directory and files
	output, err := NewOutput(output_dir)
	defer output.Close()
	if err != nil {
		return err
	}
""", """	// create output directory and files
	output, err := NewOutput(output_dir)
	defer output.Close()
	if err != nil {
		return err
	}

	// open the pdf
	file, err := os.Open(file_path)
	if err != nil {
		return err
	}
	defer file.Close()
""")],
r'''
build()
o = os.path.join(TMP, "keep"); os.mkdir(o)
open(os.path.join(o, "mine"), "w").write("mine")
subprocess.run([TOOL, "-f", os.path.join(TMP, "missing.pdf"), o], stderr=subprocess.DEVNULL)
expect(os.listdir(o), ["mine"], "directory")
''')

bug("password-trimmed", "C20", "a password with white space at its ends",
 "the password given is trimmed",
 [("main.go", """import (
	"flag"
	"fmt"
	"github.com/KarmaPenny/pdfparser/pdf"
	"os"
)
""", """import (
	"flag"
	"fmt"
	"github.com/KarmaPenny/pdfparser/pdf"
	"os"
	"strings"
)
"""), ("main.go", "pdf.Parse(flag.Arg(0), *password, flag.Arg(1))", "pdf.Parse(flag.Arg(0), strings.TrimSpace(*password), flag.Arg(1))")],
CRYPT + r'''
pw = " pw "
k, enc = encdict(pw.encode(), 2, 3, 16)
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</URI%s>>" % hexs(rc4(objkey(k, 2, 0), b"http://x/")), 4: enc}, "/Encrypt 4 0 R/ID[%s%s]" % (hexs(ID), hexs(ID))), pw)
expect(r.get("urls.txt"), b"http://x/\n", "url")
''')

bug("shared-cmap", "C21", "a document with a ToUnicode map, followed in the same process by one with text in an unknown font",
 "all fonts share the character map of the default font",
 [("pdf/font.go", "	font := &Font{map[int]string{}, 1}", "	font := &Font{FontDefault.Cmap, FontDefault.Width}")],
r'''
def doc(fonts, extra={}):
    o = {1: "<</Type/Catalog/Pages 2 0 R>>", 2: "<</Type/Pages/Kids[3 0 R]/Count 1>>",
         3: "<</Type/Page/Contents 4 0 R/Resources<</Font<<%s>>>>>>" % fonts, 4: ("", "BT /F1 9 Tf (A) Tj ET")}
    o.update(extra); return pdf(o)
open(os.path.join(TMP, "a.pdf"), "wb").write(doc("/F1 5 0 R", {5: "<</Type/Font/ToUnicode 6 0 R>>", 6: ("", "1 beginbfchar <41> <42> endbfchar")}))
open(os.path.join(TMP, "b.pdf"), "wb").write(doc(""))
r = gorun("""package main
import ("fmt";"os";"github.com/KarmaPenny/pdfparser/pdf")
func main() {
	pdf.Parse("%s/a.pdf", "", "%s/oa")
	pdf.Parse("%s/b.pdf", "", "%s/ob")
	b, _ := os.ReadFile("%s/ob/contents.txt")
	fmt.Printf("%%s", b)
}
""" % ((TMP,) * 5))
expect(r.stdout, b"A\n", "text")
''')

bug("text-left-open", "C21", "many parses in one process",
 "the text file is not closed",
 [("pdf/output.go", """	if output.Text != nil {
		output.Text.Close()
	}
""", """	if output.Text != nil {
		output.Text.Sync()
	}
""")],
r'''
open(os.path.join(TMP, "a.pdf"), "wb").write(pdf({1: "<</Type/Catalog>>"}))
r = gorun("""package main
import ("fmt";"os";"runtime/debug";"github.com/KarmaPenny/pdfparser/pdf")
func main() {
	debug.SetGCPercent(-1)
	a, _ := os.ReadDir("/proc/self/fd")
	for i := 0; i < 50; i++ { pdf.Parse("%s/a.pdf", "", "%s/oa") }
	b, _ := os.ReadDir("/proc/self/fd")
	fmt.Print(len(b) - len(a) < 20)
}
""" % ((TMP,) * 2))
expect(r.stdout, b"true", "closed")
''')


bug("bool-of-name", "C22", "a lookup of a boolean where the entry is another keyword",
 "any keyword but true is returned as false",
 [("pdf/array.go", """			} else if keyword == KEYWORD_FALSE {
				return false, true
			}
""", """			} else if keyword != KEYWORD_NULL {
				return false, true
			}
""")],
r'''
r = gorun("""package main
import ("fmt";"github.com/KarmaPenny/pdfparser/pdf")
func main() {
	_, ok := pdf.Array{pdf.NewKeyword("endobj")}.GetBool(0)
	fmt.Print(ok)
}
""")
expect(r.stdout, b"false", "lookup")
''')


bug("base-direct", "C24", "a document whose base URI is given by reference",
 "the base URI is only found when it is a direct string",
 [(O_, """		} else if url, ok := d.GetDictionary("URI"); ok {
			if base, ok := url.GetString("Base"); ok {
				fmt""", """		} else if url, ok := d.GetDictionary("URI"); ok {
			if base, ok := url["Base"].(String); ok {
				fmt""")],
r'''
r = run(pdf({1: "<</Type/Catalog/URI<</Base 2 0 R>>>>", 2: "(http://base/)"}))
expect(r["urls.txt"], b"http://base/\n", "urls")
''')

bug("contents-trimmed", "C13", "page contents that end right behind a Tj, without the end of the text object",
 "operators at the very end of the contents are trimmed away",
 [(PG, """	if contents, ok := d.GetStream("Contents"); ok {
		page.extract(output, font_map, contents)
	}""", """	if contents, ok := d.GetStream("Contents"); ok {
		page.extract(output, font_map, bytes.TrimRight(contents, "\\x00jT"))
	}""")],
r'''
o = {1: "<</Type/Catalog/Pages 2 0 R>>", 2: "<</Type/Pages/Kids[3 0 R]>>", 3: "<</Contents 4 0 R>>", 4: ("", "BT (x) Tj")}
r = run(pdf(o))
expect(r["contents.txt"], b"x\n", "text")
''')

bug("continuation-cr", "C01", "a string with a line continuation that ends in a lone CR followed by white space",
 "white space after a continuation that ends in a lone CR is dropped",
 [(P, '''				if b != '\\n' {
					parser.UnreadByte()
				}
				continue
			}

			// special''', '''				if bytes.IndexByte(whitespace, b) < 0 {
					parser.UnreadByte()
				}
				continue
			}

			// special''')],
r'''
r = run(pdf({1: r"<</Type/Catalog>>", 2: b"<</URI(a\\\r b\\\r\nc)>>"}))
expect(r["urls.txt"], b"a bc\n", "string")
''')

bug("endstream-restart", "C03", "a stream without a usable length whose data has an e right before the end marker",
 "the search for the end marker does not restart at the byte that broke off a partial match",
 [(P, '''			stream_data.Write(end_buff.Bytes())
			break
		}
		end_buff.WriteByte(b)
	}
''', '''			stream_data.Write(end_buff.Bytes())
			break
		}

		// a marker that is broken off can be skipped
		if end_buff.Len() > 1 && bytes.HasPrefix(end_buff.Bytes(), []byte("ee")) {
			stream_data.WriteByte(end_buff.Next(1)[0])
			end_buff.WriteByte(b)
			if b, err = parser.ReadByte(); err != nil {
				parser.log_error(UnclosedStream)
				stream_data.Write(end_buff.Bytes())
				break
			}
			stream_data.WriteByte(end_buff.Next(1)[0])
			end_buff.WriteByte(b)
			continue
		}
		end_buff.Write([]byte{b})
	}
''')],
r'''
d = pdf({1: "<</Type/Catalog>>", 2: (b"/Length 99999", b"datae"), 3: "<</JS 2 0 R>>"}).replace(b"datae\nendstream", b"dataeendstream")
r = run(d)
expect(r["javascript.js"], b"datae\n", "stream")
''')

bug("deletion-ignored", "C09", "an object deleted by an incremental update with a cross-reference table",
 "free entries of a cross-reference table do not replace the entries of older sections",
 [(P, '''	for key, value := range xrefs {
		parser.Xref[key] = value
	}
''', '''	for key, value := range xrefs {
		if old, ok := parser.Xref[key]; !ok || old.Type == XrefTypeFreeObject || value.Type != XrefTypeFreeObject {
			parser.Xref[key] = xrefs[key]
		}
	}
''')],
r'''
d = pdf({1: "<</Type/Catalog>>", 2: "<</URI(gone)>>"})
x = len(d)
prev = d.rindex(b"xref\n0 3")
d += b"xref\n2 1\n0000000000 00001 f \ntrailer\n<</Size 3/Root 1 0 R/Prev %d>>\nstartxref\n%d\n%%%%EOF\n" % (prev, x)
r = run(d)
expect(r["urls.txt"], b"", "urls")
''')

bug("xref-stream-loop", "C23", "a cross-reference stream whose Prev entries lead through more than one other stream back to it",
 "a cross-reference section is only protected against being loaded again by its direct successor",
 [(P, '''	// dont load same xref twice
	if _, ok := offsets[offset]; !ok {
		offsets[offset] = nil
''', '''	// dont load same xref twice
	if _, ok := offsets[offset]; !ok {
		if len(offsets) > 2 {
			offsets = map[int64]interface{}{}
		}
		offsets[offset] = offset
''')],
r'''
head = b"%PDF-1.5\n"
def xs(n, prev): return b"%d 0 obj\n<</Type/XRef/W[1 2 1]/Size 3/Root 1 0 R/Prev %06d/Length 12>>stream\n" % (n, prev) + b"\0\0\0\0" * 3 + b"\nendstream\nendobj\n"
l = len(xs(5, 0)); a = [len(head) + i * l for i in range(4)]
r = run(head + xs(5, a[1]) + xs(6, a[2]) + xs(7, a[3]) + xs(8, a[0]) + b"9 0 obj<</URI(x)>>endobj startxref\n%d\n%%%%EOF\n" % a[0], timeout=20)
expect((r["rc"], r["urls.txt"]), (0, b"x\n"), "result")
''')

bug("code-width-stuck", "C14", "a ToUnicode map whose destination values are longer than its codes, ranges first and single codes after",
 "the code length is taken from the longest code or destination of the single codes",
 [("pdf/font.go", '''				value := parser.ReadHexString(noDecryptor)
				if value == "" {
					break
				}

				font.Cmap[key] = string(value)
''', '''				value := parser.ReadHexString(noDecryptor)
				if value == "" {
					break
				}
				font.Cmap[key] = string(value[:])
				if len(font.Cmap) > 255 && len(value) > font.Width {
					font.Width = len(value)
				}
''')],
TEXT + r'''
cm = "1 beginbfrange <00> <FF> <0000> endbfrange 1 beginbfchar <44> <0064> endbfchar"
expect(text("BT /F1 9 Tf (ABD) Tj ET", "/F1 5 0 R", {5: "<</Type/Font/ToUnicode 6 0 R>>", 6: ("", cm)}), b"\0A\0B\0d\n", "text")
''')

bug("name-escape-resume", "C19", "a name escape with one valid digit that is followed by a delimiter",
 "the character that breaks off a name escape after its first digit is lost when it is a delimiter",
 [(P, '''					parser.log_error(InvalidNameEscapeChar)
					parser.UnreadByte()
					break''', '''					parser.log_error(InvalidNameEscapeChar)
					if i == 0 || b != '/' {
						parser.UnreadByte()
					}
					break''')],
r'''
r = run(b"%PDF-1.4\n1 0 obj\n[/A#4/B]\nendobj\n")
expect(raw(r, 1), b"[/A@ /B]", "names")
''')

bug("string-or-name", "C22", "a lookup of a string where the entry is a name",
 "names are returned as strings",
 [("pdf/dictionary.go", '''		if s, ok := object.(String); ok {
			return string(s), true
		}
	}
	return "", false
}
''', '''		switch s := object.(type) {
		case String:
			return string(s), true
		case Name:
			return string(s), len(s) > 1
		}
	}
	return "", false
}
''')],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</URI/Name/X 1>>"}))
expect(r["urls.txt"], b"", "urls")
''')

bug("name-tree-names-last", "C23", "a name tree with a node that is listed by two parents",
 "the entries of a node with an odd number of names are shifted, those of kids that are seen again are kept",
 [("pdf/dictionary.go", '''			// get child dictionary
			kid, _ := kids.GetDictionary(i)
			nameTreeMap = append(nameTreeMap, kid.getNameTreeMap(resolved_kids)...)
''', '''			// get child dictionary
			kid, _ := kids.GetDictionary(i)
			seen := map[int]interface{}{}
			for k := range resolved_kids {
				seen[k] = nil
			}
			nameTreeMap = append(nameTreeMap, kid.getNameTreeMap(seen)...)
''')],
r'''
o = {1: "<</EmbeddedFiles 2 0 R>>", 2: "<</Kids[3 0 R 4 0 R]>>", 3: "<</Kids[5 0 R]>>", 4: "<</Kids[5 0 R]>>", 5: "<</Names[(a) (f.txt)]>>"}
r = run(pdf(o))
expect(r["files.txt"], b"0" * 32 + b":f.txt\n", "files")
''')

bug('string-65535', 'C01', 'a literal string of more than 65535 bytes',
 'the rest of the string is dropped',
 [
  ('pdf/parser.go', r'''		// add byte to string
		s.WriteByte(b)
	}
''', r'''		// add byte to string
		if s.Len() < 65535 {
			s.WriteByte(b)
		}
	}
''')],
r'''
r = run(pdf({1: r"<</Type/Catalog>>", 2: b"<</JS(" + b"a" * 65600 + b"end)>>"}))
expect(r["javascript.js"], b"a" * 65600 + b"end\n", "string")
''')

bug('xref-chunk', 'C02', 'a file without startxref whose xref keyword lies across a multiple of 32768 bytes',
 'the section is not seen, so that what it deletes is back',
 [
  ('pdf/parser.go', r'''	offsets := []int64{}

	// jump to start of file
	offset, _ := parser.Seek(0, io.SeekStart)

	for {
		// scan for xref table marker
		index := xref_regexp.FindReaderIndex(parser)
		if index == nil {
			break
		}

		// add location to offsets
		offsets = append(offsets, offset + int64(index[0]))

		// seek to end of xref marker
		offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
	}
''', r'''	offsets := []int64{}

	// scan the file in chunks
	buffer := make([]byte, 32768)
	for offset := int64(0); true; {
		parser.Seek(offset, io.SeekStart)
		n, _ := io.ReadFull(parser, buffer)
		if n == 0 {
			break
		}
		for _, index := range xref_regexp.FindAllIndex(buffer[:n], -1) {
			offsets = append(offsets, offset + int64(index[0]))
		}
		offset += int64(n)
	}
''')],
r'''
base = pdf({1: "<</Type/Catalog>>", 2: "<</URI(u)>>"})
base = base[:base.rindex(b"startxref")]
for cut in range(0, 6):
    d = base + b"%" + b"-" * (32768 - len(base) - 2 - cut) + b"\n"
    assert len(d) == 32768 - cut
    d += b"xref\n0 1\n0000000002 65535 f \n2 1\n0000000000 00001 f \ntrailer\n<</Size 3/Root 1 0 R>>\n"
    expect(run(d)["urls.txt"], b"", "deleted action, %d bytes before the block" % cut)
''')

bug('filter-memo', 'C04', 'a filter chain whose second filter has null parameters',
 'it gets the parameters of the first',
 [
  ('pdf/parser.go', r'''		decode_parms, _ := decode_parms_list.GetDictionary(i)
		stream_data_bytes''', r'''		decode_parms, ok := decode_parms_list.GetDictionary(i)
		if !ok && i > 0 {
			decode_parms, _ = decode_parms_list.GetDictionary(i - 1)
		}
		stream_data_bytes''')],
r'''
rows = b"".join(b"\x00" + x for x in (b"abc", b"def"))
inner = zlib.compress(zlib.compress(b"abcdef"), 0)
data = zlib.compress(b"".join(b"\x02" + x for x in [zlib.compress(b"hello")]))
n = len(zlib.compress(b"hello"))
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter[/FlateDecode/FlateDecode]/DecodeParms[<</Predictor 12/Columns %d>>null]" % n, data), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], b"hello\n", "stream")
''')

bug('tiff16', 'C05', 'the TIFF predictor with 16 bits per component whose sums carry into the upper bits',
 'the upper four bits are those of the difference',
 [
  ('pdf/filters.go', r'''SetBits(data, pos, bits_per_component, value + prev_value)''', r'''SetBits(data, pos, bits_per_component, (value + prev_value) & 0xfff | value & 0xf000)''')],
r'''
vals = [0x1234, 0xF00F, 0x0fff, 0x8001]
prev, out = 0, b""
for v in vals:
    out += ((v - prev) & 0xffff).to_bytes(2, "big"); prev = v
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/FlateDecode/DecodeParms<</Predictor 2/BitsPerComponent 16/Columns 4>>", zlib.compress(out)), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], b"".join(v.to_bytes(2, "big") for v in vals) + b"\n", "stream")
''')

bug('a85-one', 'C06', 'ASCII 85 data that ends in a group of one character',
 'the character yields a byte',
 [
  ('pdf/filters.go', r'''			if n > 1 {''', r'''			if n > 0 {
				if n == 1 {
					n = 2
					v = v * 85
				}''')],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/ASCII85Decode", "87cURD]i,\"Ebo80!!~>"), 3: "<</JS 2 0 R>>"}))
a = r["javascript.js"]
r = run(pdf({1: "<</Type/Catalog>>", 2: ("/Filter/ASCII85Decode", "87cURD]i,\"Ebo80!!!!!5~>"), 3: "<</JS 2 0 R>>"}))
expect(r["javascript.js"], b"Hello World!\x00\x00\x00\x00\n", "stream")
''')

bug('cmap-signed', 'C14', 'a range of four-byte codes whose last code is 0x80000000 or more',
 'only the first code of the range is mapped',
 [
  ('pdf/font.go', r'''				end := BytesToInt([]byte(end_b))
''', r'''				end := int(int32(BytesToInt([]byte(end_b))))
				if end < start {
					end = start
				}
''')],
r'''
def doc(content, res="", more={}, tree=""):
    o = {1: "<</Type/Catalog/Pages 2 0 R>>", 2: "<</Type/Pages/Kids[3 0 R]/Count 1 %s>>" % tree,
         3: "<</Type/Page/Parent 2 0 R/Contents 4 0 R %s>>" % res, 4: ("", content)}
    o.update(more)
    return run(pdf(o))["contents.txt"]

def text(cmap, shown):
    return doc(b"BT /F1 1 Tf <" + shown + b"> Tj ET", "/Resources<</Font<</F1 5 0 R>>>>", {5: "<</Type/Font/ToUnicode 6 0 R>>", 6: ("", cmap)})

expect(text("1 beginbfrange <F0000001> <F0000005> <61> endbfrange", b"F0000001F0000003"), b"ac\n", "text")
''')

bug('err-once', 'C18', 'an error inside of values nested three deep',
 'it is not reported',
 [
  ('pdf/parser.go', r'''	if parser.output != nil {''', r'''	if parser.output != nil && parser.depth < 3 {''')],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: "<</A[<</B<</C[/a#zz]>>>>]>>"}))
expect(len(r["errors.txt"]) > 0, True, "error reported")
''')

bug('hexname-case', 'C18', 'a name that escapes a printable byte by lower case digits',
 'the escape is not reported',
 [
  ('pdf/parser.go', r'''			if b >= '!' && b <= '~' && b != '#' &&''', r'''			if b >= '!' && b <= '~' && b != '#' && (code[0] < 'a' || code[0] > 'f') && (code[1] < 'a' || code[1] > 'f') &&''')],
r'''
r = run(pdf({1: "<</Type/Catalog>>", 2: "/x#6fy"}))
expect(len(r["errors.txt"]) > 0, True, "error reported")
''')

bug('leak-wrongpw', 'C21', 'a file opened with a wrong password or damaged encryption, again and again in one process',
 'the file stays open',
 [
  ('pdf/pdf.go', r'''	defer file.Close()
''', r''''''),
  ('pdf/pdf.go', r'''	return nil
}''', r'''	file.Close()
	return nil
}'''),
  ('pdf/pdf.go', r'''	output, err := NewOutput(output_dir)
	defer output.Close()
	if err != nil {''', r'''	output, err := NewOutput(output_dir)
	defer output.Close()
	if err != nil {
		file.Close()''')],
r'''
d = pdf({1: "<</Type/Catalog>>", 2: "<</Filter/Standard/V 9>>"}, "/Encrypt 2 0 R")
f = os.path.join(TMP, "enc.pdf"); open(f, "wb").write(d)
r = gorun("""package main
import ("fmt"; "os"; "runtime/debug"; "github.com/KarmaPenny/pdfparser/pdf")
func main() {
	debug.SetGCPercent(-1)
	n := func() int { e, _ := os.ReadDir("/proc/self/fd"); return len(e) }
	a := n()
	for i := 0; i < 20; i++ { pdf.Parse(%q, "", %q) }
	fmt.Println(n() - a < 10)
}""".replace("%q", "%s") % ('"%s"' % f, '"%s/o"' % TMP))
expect(r.stdout.strip(), b"true", "files closed: " + r.stderr.decode()[-300:])
''')

bug('kid-direct', 'C24', 'a node of a name tree with a generation other than 0',
 'the node is not read',
 [
  ('pdf/dictionary.go', r'''			kid, _ := kids.GetDictionary(i)
''', r'''			kid, _ := kids[i].(Dictionary)
			if r, ok := kids[i].(*Reference); ok && r.Generation == 0 {
				kid, _ = kids.GetDictionary(i)
			}
''')],
r'''
r = run(pdf({1: "<</Type/Catalog/Names<</EmbeddedFiles<</Kids[2 3 R]>>>>>>", 2: "<</Names[(n)(file)]>>"}, gens={2: 3}))
expect(b":file\n" in r["files.txt"], True, "file of a kid")
''')

bug('comment-eof', 'C25', 'a source whose reads start to fail (not at its end) inside of a comment',
 'the comment is read for ever',
 [(P, '''		// get next byte
		b, err := parser.ReadByte()
		if err != nil {
			return
		}

		// stop on line feed
''', '''		// get next byte
		b, err := parser.ReadByte()
		if err == io.EOF {
			return
		}

		// stop on line feed
''')],
r'''
d = pdf({1: "<</Type/Catalog>>", 2: "<</A 1 % comment\n>>"})
f = os.path.join(TMP, "x.pdf"); open(f, "wb").write(d)
r = gorun(FAULTY % ('"%s"' % f, d.index(b"comment"), "true", 'fmt.Println(p.GetObject(1).Value)'))
expect(r.stdout.strip(), b"<nil>\n<</Type /Catalog>>", "object before the failure: " + r.stderr.decode()[-300:])
''')

bug('object-cache', 'C25', 'an object that is looked up by reference while the source fails and again afterwards',
 'what could be read the first time is remembered',
 [(P, '''	output *Output
	depth int
''', '''	output *Output
	depth int
	values map[int]Object
'''),
  (P, '''NewSecurityHandler(), output, 0}''', '''NewSecurityHandler(), output, 0, map[int]Object{}}'''),
  (P, '''			object.Value, _ = parser.ReadObject(string_decryptor)
''', '''			if value, ok := parser.values[number]; ok && !read_stream {
				return &IndirectObject{number, object.Generation, value, nil}
			}
			value, _ := parser.ReadObject(string_decryptor)
			object.Value = value
			if !read_stream && len(parser.trailer) > 0 {
				parser.values[number] = value
			}
''')],
r'''
d = pdf({1: "<</Type/Catalog/X 2 0 R>>", 2: "<</A 1/B (" + "x" * 5000 + ")/C 2>>"})
f = os.path.join(TMP, "x.pdf"); open(f, "wb").write(d)
r = gorun(FAULTY % ('"%s"' % f, d.index(b"x" * 50) + 10, "false", 'r := p.GetObject(1).Value.(pdf.Dictionary)["X"].(*pdf.Reference); s.bad = true; r.Resolve(); s.bad = false; d := r.Resolve().(pdf.Dictionary); n, ok := d.GetInt("C"); fmt.Println(n, ok)'))
expect(r.stdout.strip(), b"<nil>\n2 true", "object after the failure: " + r.stderr.decode()[-300:])
''')

bug('load-read-error', 'C25', 'a source that cannot deliver the end of the file',
 'loading fails altogether',
 [(P, '''	if start_xref_offset, ok := parser.getStartXrefOffset(); ok {
''', '''	start_xref_offset, ok := parser.getStartXrefOffset()
	if _, err := parser.Peek(1); !ok && err != nil && err != io.EOF {
		return err
	}
	if ok {
''')],
r'''
d = pdf({1: "<</Type/Catalog>>", 2: "<</A 1>>"}) + b"%" * 600
f = os.path.join(TMP, "x.pdf"); open(f, "wb").write(d)
r = gorun(FAULTY % ('"%s"' % f, d.index(b"xref"), "true", 'fmt.Println(p.GetObject(2).Value)'))
expect(r.stdout.strip(), b"<nil>\n<</A 1>>", "object before the failure: " + r.stderr.decode()[-300:])
''')
