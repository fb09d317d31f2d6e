#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"hook_needed":None}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every legal spelling of an object reads back as exactly that object",
 "For every tree of PDF values (null, booleans, integers, reals, literal and hex strings, names, arrays, dictionaries, references) and every legal way of spelling it (escapes, octal codes, line continuations, balanced parentheses, hex case and odd digits, #xx in names, signs and leading zeros, white space and comments between tokens), reading the object yields exactly that tree, with its object and generation number. Reals are exact to within floating-point rounding; strings and names are exact byte for byte.",
 ["inputs"],"all value trees x all legal token spellings and separators",
 "The unit tests read about a dozen fixed values, one spelling each; no test reads a real number, a nested mixture, a reference inside a container or long tokens.",
 ["pdf/parser.go","pdf/object.go","pdf/number.go","pdf/name.go","pdf/string.go","pdf/array.go","pdf/dictionary.go"],
 [("object/token readers","pdf/parser.go ReadObject, ReadArray, ReadDictionary, ReadString, ReadHexString, ReadName, ReadNumber, ReadKeyword"),("white space and comments","pdf/parser.go consumeWhitespace, consumeComment")],
 observe=["pdf.Parser.GetObject"])
p("C02","Reading does not depend on file position, padding or read chunking",
 "Inserting white space or comments of any length between tokens (so that any token falls at any file position), or reading the same bytes through a source that delivers them in arbitrarily small pieces, never changes any object value, stream, cross-reference, trailer or decryption result.",
 ["inputs","configurations"],"all documents x all padding amounts (in particular around multiples of the 4096-byte read buffer) x all read chunk sizes",
 "All test files but two are below 1 kB, so no token ever straddles a buffer boundary, and all tests read from an os.File.",
 ["pdf/parser.go"],
 [("buffered reads and seeks","pdf/parser.go Seek, CurrentOffset, ReadDictionary, ReadStream, getStartXrefOffset"),("look-ahead and revert","pdf/parser.go ReadObject reference look-ahead, pdf/reference.go Resolve")],
 state=[("bufio buffer","bytes read ahead of the logical offset","pdf/parser.go Parser.Reader")])
p("C03","Stream contents are delimited exactly",
 "For a stream with a correct length, the bytes returned are exactly the stored bytes, whatever they are (including line ends at the end of the data and text that looks like keywords or object headers), for each legal line end after the stream keyword and before the end marker. When the length is absent or wrong, the data runs up to the first end marker less one line end, and an unterminated stream runs to the end of the file.",
 ["inputs"],"all byte strings x line-end conventions x length right (direct, indirect) / absent / wrong",
 "Tests have short textual streams with one line-end convention each.",
 ["pdf/parser.go"],[("stream reader","pdf/parser.go ReadStream"),("object reader","pdf/parser.go GetObject")])
p("C04","Stream filters exactly invert their encodings, in any combination",
 "For any data and any conforming encoding of it with ASCIIHexDecode, ASCII85Decode, RunLengthDecode, FlateDecode, LZWDecode (early change 0 or 1), or any sequence of these given as a name or an array with parameters given as a dictionary or an array (with nulls), directly or by reference, the stream read is exactly the data. Streams with no filter are returned unchanged.",
 ["inputs","configurations"],"all data x all encoder choices (segmentation, white space, compression level, clear codes) x all filter chains and parameter layouts",
 "One fixed sample per filter and one two-filter chain; no test reaches an LZW code width change, a partial ASCII85 group of each size, or parameters paired with the wrong filter.",
 ["pdf/filters.go","pdf/parser.go"],
 [("decoders","pdf/filters.go DecodeStream, ASCIIHexDecode, ASCII85Decode, RunLengthDecode, FlateDecode, LZWDecode"),("filter chain","pdf/parser.go GetObject, ReadStream")])
p("C05","PNG and TIFF predictors are reversed exactly",
 "For any image-like data and any predictor (TIFF 2; PNG 10 to 15 with any per-row choice of none, sub, up, average, paeth), colour count, bits per component (1, 2, 4, 8, 16) and column count, data predicted and then compressed with Flate or LZW is read back exactly, including a final partial row. Predictor 1 or no predictor changes nothing.",
 ["inputs","configurations"],"all data x predictor x colors x bits x columns x per-row PNG algorithm",
 "Tests use one TIFF configuration (8 bit, 3 colours) and one PNG file; no multi-byte PNG pixels, no sub-byte samples.",
 ["pdf/filters.go","pdf/utility.go"],[("predictor reversal","pdf/filters.go ReversePredictor"),("bit access","pdf/utility.go GetBits, SetBits")])
p("C06","Damaged encoded streams decode to a prefix, never to invented data",
 "Cutting the encoded form of a stream short, at any point, for any filter, yields the decoded data belonging to the part that is present: a prefix of the original data that covers every complete unit, where a final incomplete unit is completed as at the end of the data (a missing digit or group character is filled up; or, when nothing can be decoded by Flate or LZW, the encoded bytes as stored). White space inside ASCII encodings and anything after an end-of-data marker never matter, and an unknown filter leaves the data as stored.",
 ["inputs","fault_sequences"],"all data x filter x truncation points x trailing garbage",
 "Tests contain no truncated or damaged encoded stream except trailing garbage in two fixed files.",
 ["pdf/filters.go"],[("error tolerance of decoders","pdf/filters.go FlateDecode, LZWDecode, RunLengthDecode, ASCII85Decode, ASCIIHexDecode")])
p("C07","With the right password every string and stream decrypts to its plaintext",
 "For every document encrypted with the standard security handler (RC4 with 40 to 128 bit keys, V 1, 2 and 4; AES-128, V 4; every choice of string, stream and embedded-file crypt filter including Identity and per-stream overrides; metadata encrypted or not) and opened with its user password, every string and stream of every object, whatever its object and generation number, equals the plaintext. The encryption dictionary and cross-reference streams are not decrypted, and extraction gives the same output as for the unencrypted document.",
 ["inputs","configurations"],"all documents x all supported encryption parameters x all passwords, ids, permissions",
 "One test file: RC4-128, empty password, two values looked at; AES, crypt filters, passwords, key lengths and generations are never exercised.",
 ["pdf/encryption.go","pdf/parser.go"],
 [("key derivation and authentication","pdf/encryption.go SecurityHandler.Init, computeEncryptionKey"),("per-object keys, ciphers","pdf/encryption.go CryptFilterRC4, CryptFilterAES"),("filter selection","pdf/parser.go GetObject")],
 state=[("security handler","keys and default crypt filters, set once at load","pdf/parser.go Parser.security_handler")])
p("C08","A wrong password or unusable encryption is an error and nothing is extracted",
 "Opening an encrypted document with any password other than its user password fails with the incorrect-password error; unsupported handlers, versions or revisions fail with the unsupported error; missing required entries fail with the missing-information error. In each case parsing returns that error, does not crash however malformed the encryption dictionary is, and writes no extracted content.",
 ["inputs","configurations"],"all encrypted documents x wrong passwords x missing, malformed or unsupported encryption entries",
 "No test opens an encrypted file with a wrong password or a damaged encryption dictionary.",
 ["pdf/encryption.go","pdf/pdf.go","pdf/errors.go"],[("password verification","pdf/encryption.go SecurityHandler.Init"),("load before extraction","pdf/pdf.go Parse")])
p("C09","After any history of revisions each object has its latest definition",
 "For any history of incremental updates that add, change, delete and re-add objects, each recorded by a cross-reference table or a cross-reference stream (any field widths, subsections, entry line ends, filters and predictors), reading an object yields its definition in the last revision that mentions it, and a deleted or never defined object reads as null. Text inside strings, streams or comments that looks like an object definition never displaces an object that the cross-references locate correctly.",
 ["histories","inputs"],"all sequences of revisions x table/stream/mixed cross-reference encodings x physical layouts",
 "Tests count entries of four tiny hand-made files and read three objects; none has two definitions of the same object, a deletion, or a mixed history.",
 ["pdf/parser.go","pdf/xref.go"],
 [("cross-reference loading and merging","pdf/parser.go Load, loadXref, loadXrefTable, loadXrefStream, getStartXrefOffset"),("repair must keep valid entries","pdf/parser.go Load")],
 state=[("xref map","object number to location and type","pdf/parser.go Parser.Xref")])
p("C10","Objects are recovered when cross-references are missing or wrong",
 "When cross-reference data is missing, truncated, shifted, or points to the wrong place, or the start pointer is missing or wrong, every object written in the file is still read with its value and stream, whatever else is in the file; an object defined several times and not located by any valid entry has its last definition. Objects that no cross-reference mentions are extracted too.",
 ["inputs","fault_sequences"],"all documents x all corruptions of the cross-reference data (removed, shifted by prepended bytes, entries altered or dropped, tail cut off)",
 "One test file with one missing entry.",
 ["pdf/parser.go"],[("object scan","pdf/parser.go findObjects, findXrefOffsets"),("repair","pdf/parser.go Load")])
p("C11","References resolve through any chain without disturbing reading",
 "A reference, anywhere a value is expected (in the middle of reading an object, a stream's length, filters or parameters, a cross-reference trailer), resolves to the value or stream finally reached through any chain of references; a chain that loops or reaches an undefined object resolves to null. Resolving never changes what is read afterwards, and resolving again gives the same result.",
 ["inputs","histories"],"all reference graphs x all orders of lookups",
 "Three two-object files test one hop, one self loop and one missing object.",
 ["pdf/reference.go","pdf/parser.go","pdf/dictionary.go","pdf/array.go"],
 [("resolution with loop guard","pdf/reference.go resolve"),("offset save/restore","pdf/reference.go Resolve, ResolveStream; pdf/parser.go CurrentOffset, Seek")])
p("C12","No input crashes, hangs or exhausts the parser",
 "For every byte sequence given as input file and every password, parsing returns (with or without an error) in time and memory reasonable (at most quadratic) for the size of the input and of its decoded streams, without a panic or fatal fault, and the output files exist. This includes documents crafted with extreme, negative, self-referential or deeply nested structures.",
 ["inputs","fault_sequences"],"all byte strings, explored by structure-aware mutation of generated documents, hostile value substitution and (thorough tier) coverage-guided mutation",
 "Tests contain about 15 hand-made malformed files, each for one token-level defect; the tool's purpose is hostile input.",
 ["pdf/parser.go","pdf/filters.go","pdf/encryption.go","pdf/font.go","pdf/object.go","pdf/dictionary.go","pdf/pdf.go"],
 [("end-of-file handling of all readers","pdf/parser.go"),("loop guards","pdf/parser.go loadXref; pdf/reference.go resolve; pdf/dictionary.go ResolveKids, getNameTreeMap"),("range checks","pdf/filters.go ReversePredictor; pdf/parser.go loadXrefStream; pdf/encryption.go Init")])
p("C13","Page text is extracted completely and in order",
 "For every page tree and every page content (one stream, or an array of streams, directly or by reference), contents.txt holds exactly one line per text-showing operation inside text objects (Tj, ', \", TJ), in page order and operation order, holding all its string operands decoded with the font in effect, whatever other operators and operands surround them. Fonts come from the page's own or inherited resources; text in an unknown font is passed through unchanged.",
 ["inputs"],"all page trees x content operation sequences x font resources x stream layouts",
 "No unit test extracts text at all.",
 ["pdf/page.go","pdf/dictionary.go","pdf/parser.go","pdf/object.go"],
 [("content interpretation","pdf/page.go Page.Extract, extract"),("operand collection","pdf/parser.go ReadCommand"),("page order","pdf/dictionary.go GetPageTree, ResolveKids")])
p("C14","Character codes are translated by the font's ToUnicode map",
 "For every ToUnicode map built from single-code and range sections (ranges with one start value or an array of values, any number of sections, codes of one to four bytes, all codes of one map equally long, no empty destination) every shown string is output as the concatenation of the destination values of its codes, ranges counting upwards from their start value, and codes without a mapping are output as they are.",
 ["inputs"],"all ToUnicode maps of uniform code length x all strings",
 "The only cmap test checks that loading a large map finishes, not what it maps.",
 ["pdf/font.go","pdf/page.go"],[("cmap reading","pdf/font.go NewFont"),("decoding","pdf/font.go Decode; pdf/utility.go BytesToInt")])
p("C15","Every URL, script and launch command is extracted",
 "Wherever they occur in a document (annotation actions, open actions, additional actions, chained next actions, URL name trees, base URIs, nested directly or by reference, script as string or as stream), every URL appears in urls.txt, every script in javascript.js and every launch command with its parameters in commands.txt, each as its exact bytes on a line. Nothing else appears in these files.",
 ["inputs"],"all documents built from action dictionaries in all placements, direct and indirect",
 "No unit test covers extraction.",
 ["pdf/action.go","pdf/object.go","pdf/file.go","pdf/dictionary.go"],
 [("object walk","pdf/object.go extract"),("actions","pdf/action.go Extract"),("file specifications","pdf/file.go Extract"),("name trees","pdf/dictionary.go GetNameTreeMap")])
p("C16","Embedded and external files are extracted and listed exactly",
 "Every embedded file reachable through the embedded-file name tree, a file specification of an action or attachment, or a form (XFA as stream or as array, direct or by reference) is written byte for byte to a file named by its MD5 in the output directory, and files.txt lists that hash with its path. External files are listed with the all-zero hash, URL file specifications go to urls.txt, and no other file is created.",
 ["inputs"],"all name trees, file specifications, forms, file contents and names (including hostile names)",
 "No unit test covers extraction.",
 ["pdf/file.go","pdf/object.go","pdf/output.go","pdf/dictionary.go"],
 [("file specification","pdf/file.go Extract"),("dump","pdf/output.go DumpFile"),("name tree walk","pdf/dictionary.go getNameTreeMap"),("forms","pdf/object.go extract")])
p("C17","raw.pdf holds every live object once, decrypted and decoded",
 "raw.pdf contains, for every object in use, exactly one definition with its object and generation number, its value, and its decrypted and decoded stream if it has one, in PDF syntax that a reader of the file reads back as the same values (for strings and names that need no escaping). Deleted objects do not appear.",
 ["inputs","histories"],"all documents (values, streams, filters, encryption, revisions)",
 "No unit test looks at raw.pdf; number formatting is never tested.",
 ["pdf/pdf.go","pdf/object.go","pdf/number.go","pdf/dictionary.go","pdf/array.go","pdf/name.go","pdf/string.go","pdf/reference.go"],
 [("object loop","pdf/pdf.go Parse"),("serialisation","String methods in pdf/*.go")])
p("C18","errors.txt reports each abnormality and only abnormalities",
 "Each documented abnormality present in an object that is read (invalid dictionary key type, invalid hex or octal or name escape, missing dictionary value, unclosed array, dictionary, hex string, stream, string, escape or octal, needless escapes) puts its documented message in errors.txt, and a well-formed document spelled without needless octal or name escapes leaves errors.txt empty. errors.txt never contains anything but the documented messages.",
 ["inputs"],"all documents x every kind of abnormality at every nesting position",
 "Tests parse malformed files without an output attached, so no diagnostic is ever checked.",
 ["pdf/parser.go","pdf/errors.go","pdf/output.go"],[("diagnostics","pdf/parser.go log_error call sites"),("messages","pdf/errors.go")])
p("C19","Malformed syntax is recovered without losing the surrounding content",
 "Malformed tokens are read leniently by fixed rules: constructs left open at the end of the file keep everything read so far; a dictionary entry whose key is not a name is skipped while its other entries are kept; characters that are not hex digits are ignored in hex strings; a bad name escape takes its valid digits padded with zero and resumes at the offending character; a too large octal code uses its first two digits; stray closing brackets act as null values. Malformed objects never hide or change other objects in the file.",
 ["inputs","fault_sequences"],"all token sequences, balanced or not, cut at any byte",
 "About 15 fixed malformed files, most of which only check that parsing ends.",
 ["pdf/parser.go"],[("lenient readers","pdf/parser.go ReadObject, ReadArray, ReadDictionary, ReadString, ReadHexString, ReadName")])
p("C20","The command line tool never touches anything but its output directory",
 "Without the overwrite flag an existing output directory (or file) is left exactly as it was and nothing is parsed; with the flag, or when it does not exist, it is replaced by exactly the documented files plus extracted files; a missing input file leaves the directory alone. Errors are reported on standard error. The input file (which lies outside the output directory) and everything outside the output directory are never changed, whatever names and paths the document contains, and the password given is the one used.",
 ["inputs","configurations"],"all combinations of flags, existing targets, inputs, passwords and hostile file names",
 "The tool and its flags have no tests.",
 ["main.go","pdf/pdf.go","pdf/output.go"],[("overwrite guard","main.go main"),("output creation","pdf/output.go NewOutput, DumpFile"),("order open-input then create-output","pdf/pdf.go Parse")])
p("C21","Runs are independent: same input, same result, alone, repeated or concurrent",
 "The result of parsing a document depends only on its bytes and the password: it is the same (up to the order of independent items) after any sequence of other parses, successful or failed, and while other documents are parsed concurrently in the same process. Every parse releases the files it opened, and the library works without any set-up beyond the documented call.",
 ["histories","schedules"],"all sequences and concurrent mixes of parses over documents that differ in fonts, encryption and errors",
 "Tests parse one document per test and never call the documented entry point.",
 ["pdf/pdf.go","pdf/output.go","pdf/font.go","pdf/encryption.go","pdf/logger.go","pdf/parser.go"],
 [("per-call state","pdf/pdf.go Parse, pdf/parser.go NewParser"),("close","pdf/output.go Close"),("shared package variables","pdf/font.go FontDefault, pdf/encryption.go padding_string")])
p("C22","Typed lookups succeed exactly when the value has the type asked for",
 "For every array or dictionary, every index or key and every typed lookup (array, boolean, bytes, dictionary, integer, name, number, object, reference, stream, string), the lookup succeeds exactly when an entry exists there and, after following references, has that type, and then returns exactly that value. Otherwise it reports failure with an empty value, for any index and key, without failing in any other way.",
 ["inputs"],"all containers x keys and indices (negative, out of range) x lookup types, direct and by reference",
 "Tests call three lookups, always with the matching type and an existing key.",
 ["pdf/array.go","pdf/dictionary.go"],[("typed getters","pdf/array.go, pdf/dictionary.go")])
p("C23","Cyclic and shared structures are walked once and completely",
 "In page trees, name trees, previous-section chains, action chains and reference chains that contain cycles or shared nodes, processing ends and every item reachable is extracted: each page's text once per page tree, each name-tree entry of each node once, each cross-reference section applied in order. Items on the part without cycles are extracted exactly as if the cycle were not there.",
 ["inputs"],"all finite graphs of page-tree, name-tree, xref-section, action and stream-parameter references",
 "Tests have one self-referencing object and one two-section xref loop.",
 ["pdf/dictionary.go","pdf/reference.go","pdf/parser.go","pdf/action.go"],
 [("visited sets","pdf/dictionary.go ResolveKids, getNameTreeMap; pdf/parser.go loadXref; pdf/reference.go resolve")])
p("C24","Extraction depends on content, not on representation",
 "Two files that represent the same logical document (renumbered or reordered objects, values direct or indirect, other token spellings, other stream filters, cross-reference table, stream or none, one revision or several, encrypted or not) produce the same extracted text, URLs, scripts, commands and files. The order may differ only between independent objects.",
 ["inputs","configurations"],"all logical documents x pairs of representations",
 "No test compares two representations, and no test runs extraction.",
 ["pdf/pdf.go","pdf/parser.go","pdf/object.go","pdf/page.go","pdf/file.go","pdf/filters.go","pdf/encryption.go"],
 [("whole pipeline","pdf/pdf.go Parse")])
p("C25","A source that fails to deliver is survived; what it delivered is read exactly",
 "When reads of the underlying source fail (for good from some offset on, or at some calls only, with any error, with or without data delivered along with it), loading and reading end without panic and every object asked for is answered. If all reads beyond some offset fail, loading falls back to scanning what can be read, and every object of an unencrypted single-revision file that lies completely in the readable part (and whose stream dictionary refers to nothing else) is read exactly as written. Once reads succeed again, objects are read by the same parser, and by a new one on the same source, exactly as if nothing had failed.",
 ["inputs","fault_sequences"],"all documents x read failures at any offset and at any sequence of calls",
 "Tests read complete files from healthy sources only.",
 ["pdf/parser.go","pdf/pdf.go","pdf/reference.go"],
 [("reading primitives","pdf/parser.go Seek, ReadObject, consumeComment, ReadStream"),("fallback","pdf/parser.go Load, findObjects"),("reading on demand","pdf/parser.go GetObject")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
