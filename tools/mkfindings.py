#!/usr/bin/env python3
# Source of /verif/known_findings.txt (run: python3 tools/mkfindings.py)
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 ("C09", "object-streams", "objects inside object streams (cross-reference entries of type 2) are never read: a catalog in the file whose open action is object 3 of an /ObjStm yields an empty urls.txt. Supporting them is a feature, not a small repair."),
 ("C09", "xref-in-text", "every occurrence of the word xref is taken for a cross-reference section: a content stream holding `xref 0 0 trailer<</Encrypt<<>>>>` makes an unencrypted document fail with an encryption error. Telling text from sections needs a redesign of the scan."),
 ("C12", "unclosed-dictionaries", "the cost of unclosed dictionaries that contain object headers is quadratic: 500 times `1 0 obj<<` (4.5 KB) writes megabytes of errors.txt, 3000 times (27 KB) half a gigabyte. Ending dictionaries at the next object header would change how malformed files are read."),
]
FIXED = [
 ("C21", "9e9bf6d", "library use without setting Verbose panicked"),
 ("C21", "427303c", "the errors file stayed open"),
 ("C01", "fed716b", "fractions of real numbers were weighed wrongly (0.25 read as 0.7)"),
 ("C17", "86a97c9", "numbers were printed in exponent notation"),
 ("C02", "123a8d3", "dictionaries, end of stream markers and startxref were misread across buffer boundaries"),
 ("C04", "0b3e360", "the last partial group of ASCII85 data was decoded wrongly"),
 ("C05", "daab85f", "PNG predictors 10 to 14 ignored the algorithm in the row's tag"),
 ("C05", "2a33996", "PNG predictors used the previous byte instead of the previous pixel"),
 ("C12", "ea88690", "huge predictor dimensions overflowed and panicked"),
 ("C07", "06265a1", "AES data kept its initialization vector and padding"),
 ("C08", "66f6dcd", "a short U entry panicked"),
 ("C07", "b492750", "crypt filter lengths in bits were rejected or panicked"),
 ("C07", "9bdaab6", "crypt filters given by reference were not found"),
 ("C07", "84d48a5", "the embedded file crypt filter was looked up under the wrong name"),
 ("C07", "76e0569", "absent StmF and StrF were not the identity"),
 ("C10", "0684050", "correct cross-reference entries were replaced and wrong ones kept"),
 ("C09", "a21892c", "cross-reference streams with zero, odd or huge field widths were misread or panicked"),
 ("C11", "c5e5a5b", "resolving a value read the stream too and looped when its parameters referred back"),
 ("C16", "40943dc", "a reference to an object without a stream counted as a stream (indirect arrays of streams were lost)"),
 ("C23", "7070ee7", "a kids array by reference was walked again and again"),
 ("C03", "13a02d8", "stream data containing the end marker was cut off in spite of a right length"),
 ("C13", "0af524d", "TJ arrays of mixed strings and numbers lost text"),
 ("C15", "554e8cf", "launch actions with a plain path were not logged"),
 ("C16", "d1ba5cd", "URL file specifications (FS is a name) were not recognised"),
 ("C18", "1f79b8f", "an empty unclosed stream was not reported"),
 ("C13", "bb1ba82", "streams of a contents array were read separately"),
 ("C13", "e767fd4", "the font was reset by each text block"),
 ("C13", "e577b3a", "resources inherited from the page tree were ignored"),
 ("C14", "b6f6cd7", "ranges of character maps were counted wrongly, arrays were ignored, huge ranges exhausted memory"),
 ("C15", "2b2d62d", "chained (Next) actions were lost"),
 ("C16", "731083c", "files given only under UF, DOS, Mac or Unix were lost"),
 ("C16", "750410e", "file attachment annotations were lost"),
 ("C12", "d696a75", "deeply nested objects overflowed the stack"),
 ("C07", "491e5f1", "version 4 without Length used a 40 bit key"),
 ("C15", "1e3e766", "actions in objects that are arrays were lost"),
 ("C13", "59069a3", "data of inline images was read as operations"),
 ("C09", "480e8af", "object headers in comments were taken for objects"),
 ("C10", "10e45c7", "cross-reference entries with an invalid flag deleted objects"),
 ("C10", "465285f", "a start pointer to an ordinary object loaded that object as a cross-reference section"),
 ("C19", "88ac6bf", "a percent sign in a hex string started a comment"),
 ("C23", "fa89979", "the root of a tree or first action of a chain was walked twice when the tree leads back to it"),
 ("C07", "b198c63", "strings of an encryption dictionary behind several references were decrypted"),
 ("C12", "87ace73", "kids already visited were read again each time (cost)"),
]
with open(os.path.join(HERE, "known_findings.txt"), "w") as f:
    f.write("# Generated by tools/mkfindings.py. The inputs of the findings are in harness/known.go.\n")
    for p, k, d in FINDINGS: f.write("KNOWN-FINDING: property=%s [%s] %s\n" % (p, k, d))
    for p, c, d in FIXED: f.write("fixed: property=%s %s %s\n" % (p, c, d))
