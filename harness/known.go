package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// plainFile writes objects with a table or, if xs is given, a stream of cross-references.
func plainFile(objs []string, trailer string) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.7\n")
	var offs []int
	for _, o := range objs {
		offs = append(offs, b.Len())
		b.WriteString(o + "\n")
	}
	at := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for _, o := range offs {
		fmt.Fprintf(&b, "%010d 00000 n \n", o)
	}
	fmt.Fprintf(&b, "trailer<</Size %d%s>>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, trailer, at)
	return b.Bytes()
}

func init() {
	knownRepros["object-streams"] = func(t *T) bool {
		var b bytes.Buffer
		b.WriteString("%PDF-1.5\n")
		o1 := b.Len()
		b.WriteString("1 0 obj<</Type/Catalog/OpenAction 3 0 R>>endobj\n")
		o2 := b.Len()
		body := "3 0 <</S/URI/URI(http://in/objstm)>>"
		fmt.Fprintf(&b, "2 0 obj<</Type/ObjStm/N 1/First 4/Length %d>>stream\n%s\nendstream endobj\n", len(body), body)
		o4 := b.Len()
		x := string([]byte{0, 0, 0, 0, 1, 0, byte(o1), 0, 1, 0, byte(o2), 0, 2, 0, 2, 0, 1, 0, byte(o4), 0})
		fmt.Fprintf(&b, "4 0 obj<</Type/XRef/W[1 2 1]/Size 5/Root 1 0 R/Length %d>>stream\n%s\nendstream endobj\nstartxref\n%d\n%%%%EOF\n", len(x), x, o4)
		o := t.parse(b.Bytes(), "")
		return !strings.Contains(string(o.URLs), "http://in/objstm")
	}
	knownRepros["xref-in-text"] = func(t *T) bool {
		text := "xref\n0 0\ntrailer<</Encrypt<<>>>>"
		data := plainFile([]string{"1 0 obj<</Type/Catalog/OpenAction<</S/URI/URI(http://u)>>>>endobj",
			fmt.Sprintf("2 0 obj<</Length %d>>stream\n%s\nendstream endobj", len(text), text)}, "/Root 1 0 R")
		o := t.parse(data, "")
		return o.Err != nil || !strings.Contains(string(o.URLs), "http://u")
	}
	knownRepros["unclosed-dictionaries"] = func(t *T) bool {
		data := []byte("%PDF-1.7\n" + strings.Repeat("1 0 obj<<", 500))
		o := t.parse(data, "")
		return len(o.Errors) > 500*len(data)
	}
	_ = pdf.Parse
}
