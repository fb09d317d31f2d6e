package main

import (
	"bytes"
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{ID: "C12", Quick: 12000, Thorough: 400000,
		Rule: "A case is a hostile input and a password: a generated document (pages, fonts, character maps, actions, files, all filters, encryption, several revisions) whose values, streams, keys, references or bytes are mutated; a document with one construct nested, chained or repeated many times; malformed objects; a soup of PDF tokens; or arbitrary bytes. Parsing must return, without panic, within a CPU and memory budget, with all documented output files present; then every object is read through the library. Non-trivial: the input has at least one object header or cross-reference section that survived.",
		Gen:  genC12})
}

// ---- mutation of values

// slots counts the places in a value.
func slots(v V) int {
	n := 1
	switch x := v.(type) {
	case Arr:
		for _, e := range x {
			n += slots(e)
		}
	case Dict:
		for _, e := range x {
			n += slots(e.V)
		}
	}
	return n
}

// replaceSlot returns v with place k replaced by what f makes of it.
func replaceSlot(v V, k *int, key string, f func(key string, v V) V) V {
	if *k == 0 {
		*k--
		return f(key, v)
	}
	*k--
	switch x := v.(type) {
	case Arr:
		r := make(Arr, len(x))
		for i, e := range x {
			r[i] = e
			if *k >= 0 {
				r[i] = replaceSlot(e, k, key, f)
			}
		}
		return r
	case Dict:
		r := make(Dict, len(x))
		for i, e := range x {
			r[i] = e
			if *k >= 0 {
				r[i].V = replaceSlot(e.V, k, e.K, f)
			}
		}
		return r
	}
	return v
}

var extremes = []int64{-1, 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 4095, 4096, 65535, 65536, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, -(1 << 31), 1<<32 - 1, 1 << 32, 1 << 40, 1<<53 + 1, 1<<62 - 1, 1 << 62, -(1 << 62), 1<<63 - 1, -1 << 63, -2, -255}

var extremeReals = []string{"0.5", "-0.5", "1e10", "9999999999999999999999", "-9999999999999999999999", "99999999999999999999999999999999999999999999999999999999999999999999999999999999.9", "0.00000000000000000000000000000001", ".", "-", "+", "--5", "1.2.3", "4294967296.5", "9223372036854775807", "9223372036854775808", "18446744073709551616"}

var knownNames = []string{"Type", "Page", "Pages", "Catalog", "Kids", "Contents", "Resources", "Font", "ToUnicode", "Encoding", "Parent", "Names", "EmbeddedFiles", "JavaScript", "URLS", "URI", "S", "A", "AA", "JS", "Launch", "GoToR", "GoToE", "SubmitForm", "ImportData", "F", "UF", "EF", "FS", "URL", "Win", "Mac", "Unix", "DOS", "P", "Next", "OpenAction", "AcroForm", "XFA", "Filter", "DecodeParms", "Length", "FlateDecode", "LZWDecode", "ASCII85Decode", "ASCIIHexDecode", "RunLengthDecode", "DCTDecode", "Crypt", "JBIG2Decode", "Predictor", "Colors", "BitsPerComponent", "Columns", "EarlyChange", "XRef", "ObjStm", "N", "First", "Extends", "W", "Index", "Size", "Root", "Info", "ID", "Prev", "Encrypt", "V", "R", "O", "U", "CF", "StmF", "StrF", "EFF", "StdCF", "Identity", "CFM", "AESV2", "V2", "None", "EncryptMetadata", "EmbeddedFile", "XRefStm", "Base", "Annots", "Action", "Count", "Limits", "T", "WinAnsiEncoding", "Identity-H", "Differences", "Name"}

type mutator struct {
	s    *Src
	nums []int // object numbers of the document

	filters map[int]bool // objects that are filter names or lists of them
}

// isExpanding tells filters whose output can be far longer than their input.
func isExpanding(f string) bool {
	switch f {
	case "FlateDecode", "Fl", "LZWDecode", "LZW", "RunLengthDecode", "RL":
		return true
	}
	return false
}

func hasFilter(v V) bool {
	switch x := v.(type) {
	case Name:
		return isExpanding(string(x))
	case Ref: // may lead to one
		return true
	case Arr:
		for _, e := range x {
			if hasFilter(e) {
				return true
			}
		}
	}
	return false
}

func (m *mutator) ref() Ref {
	s := m.s
	if len(m.nums) > 0 && !s.P(12) {
		return Ref{m.nums[s.N(len(m.nums))], pick(s, 0, 0, 0, 0, 1, 65535)}
	}
	return Ref{pick(s, 0, 1, 2, 5, 99999, 1<<31-1), 0}
}

func (m *mutator) integer() V { return Int(extremes[m.s.N(len(extremes))]) }

func (m *mutator) nested(n int) V {
	var v V = m.scalar()
	for ; n > 0; n-- {
		if m.s.N(2) == 0 {
			v = Arr{v}
		} else {
			v = Dict{{pick(m.s, "A", "Kids", "Next", "Names", "K", "Parent", "Filter"), v}}
		}
	}
	return v
}

func (m *mutator) scalar() V {
	s := m.s
	switch s.W(4, 4, 1, 3, 2, 1, 1, 1) {
	case 0:
		return m.integer()
	case 1:
		return m.ref()
	case 2:
		return Kw(extremeReals[s.N(len(extremeReals))])
	case 3:
		return Name(knownNames[s.N(len(knownNames))])
	case 4:
		return Str(s.Raw(s.Small(40)))
	case 5:
		return Bool(s.Bool())
	case 6:
		return Null{}
	}
	return Kw(pick(s, "R", "obj", "endobj", "stream", "endstream", "true", "xref", "trailer", "f", "n", "BT", "Tj", "0R", "]", ">>", "}", ")"))
}

// hostile makes a value for the given key.
func (m *mutator) hostile(key string, old V) V {
	s := m.s
	if s.P(50) {
		ints := func(n int) V {
			a := Arr{}
			for ; n > 0; n-- {
				a = append(a, m.integer())
			}
			return a
		}
		switch key {
		case "W":
			return pick[V](s, Arr{Int(1), Int(2), Int(1)}, ints(3), ints(s.Small(5)), Arr{Int(0), Int(0), Int(0)}, Arr{Int(8), Int(8), Int(8)}, Arr{Int(1), Int(1 << 30), Int(1)})
		case "Index":
			return pick[V](s, Arr{Int(0), m.integer()}, Arr{m.integer(), m.integer()}, ints(s.Small(7)), Arr{m.integer(), Int(1 << 40)})
		case "Filter":
			a := Arr{}
			for k := s.Small(12); k > 0; k-- {
				f := pick(s, "FlateDecode", "LZWDecode", "ASCII85Decode", "ASCIIHexDecode", "RunLengthDecode", "Crypt", "DCTDecode", "Fl", "AHx", "A85", "LZW", "RL", "None")
				if len(a) >= 2 && isExpanding(f) {
					f = "ASCII85Decode"
				}
				a = append(a, Name(f))
			}
			if len(a) > 0 && s.Bool() {
				return a[0]
			}
			return a
		case "DecodeParms":
			d := Dict{}
			for _, k := range []string{"Predictor", "Colors", "BitsPerComponent", "Columns", "EarlyChange", "Name"} {
				if s.P(60) {
					v := m.integer()
					if k == "Predictor" {
						v = Int(pick(s, 2, 10, 11, 12, 13, 14, 15, 1, 3, 16, 99, -1))
					}
					if s.P(10) {
						v = m.scalar()
					}
					d = append(d, KV{k, v})
				}
			}
			if s.Bool() {
				return Arr{d, m.scalar(), d}
			}
			return d
		case "Kids", "Names", "Annots", "Contents", "Next", "A", "Parent", "XFA":
			if s.Bool() {
				return m.ref()
			}
			a := Arr{}
			for k := s.Int(1, 6); k > 0; k-- {
				a = append(a, m.ref())
			}
			return a
		case "Length", "Size", "Count", "Prev", "V", "R", "P", "Predictor", "Colors", "Columns", "BitsPerComponent", "EarlyChange", "N", "First":
			if s.P(80) {
				return m.integer()
			}
			return m.scalar()
		}
	}
	switch s.W(8, 2, 2, 1) {
	case 1:
		a := Arr{}
		for k := s.Small(5); k > 0; k-- {
			a = append(a, m.scalar())
		}
		return a
	case 2:
		d := Dict{}
		for k := s.Small(5); k > 0; k-- {
			d = append(d, KV{knownNames[s.N(len(knownNames))], m.scalar()})
		}
		return d
	case 3:
		return m.nested(s.Int(1, 30))
	}
	return m.scalar()
}

func (m *mutator) mutateValue(v V) V {
	s := m.s
	k := s.N(slots(v))
	return replaceSlot(v, &k, "", func(key string, old V) V {
		switch d := old.(type) {
		case Dict:
			switch s.W(3, 2, 2, 2, 1) {
			case 0: // an entry more
				return append(append(Dict{}, d...), KV{knownNames[s.N(len(knownNames))], m.hostile("", nil)})
			case 1: // an entry less
				if len(d) > 0 {
					i := s.N(len(d))
					return append(append(Dict{}, d[:i]...), d[i+1:]...)
				}
			case 2: // another key
				if len(d) > 0 {
					r := append(Dict{}, d...)
					r[s.N(len(r))].K = knownNames[s.N(len(knownNames))]
					return r
				}
			case 3: // swapped values
				if len(d) > 1 {
					r := append(Dict{}, d...)
					i, j := s.N(len(r)), s.N(len(r))
					r[i].V, r[j].V = r[j].V, r[i].V
					return r
				}
			}
		case Arr:
			switch s.W(3, 2, 2, 2) {
			case 0:
				i := s.N(len(d) + 1)
				return append(append(append(Arr{}, d[:i]...), m.hostile(key, nil)), d[i:]...)
			case 1:
				if len(d) > 0 {
					i := s.N(len(d))
					return append(append(Arr{}, d[:i]...), d[i+1:]...)
				}
			case 2:
				r := append(Arr{}, d...)
				for _, e := range d { // no bombs, see genC12
					switch x := e.(type) {
					case Name:
						if isExpanding(string(x)) {
							return r
						}
					case Ref:
						if m.filters[x.Num] {
							return r
						}
					}
				}
				for k := s.Int(1, 20); k > 0 && len(r) < 4000; k-- {
					r = append(r, d...)
				}
				return r
			}
		}
		return m.hostile(key, old)
	})
}

// ---- mutation of bytes

var soupTokens = []string{"<<", ">>", "[", "]", "(", ")", "<", ">", "/", "%", "{", "}", "\\", "obj", "endobj", "1 0 obj", "2 0 obj\n", "stream\n", "stream\r\n", "stream", "\nendstream", "endstream endobj", "xref\n", "xref\n0 1\n", "0000000000 65535 f \n", "0000000015 00000 n \n", "trailer\n", "trailer<<", "startxref\n", "startxref\n0\n%%EOF", "%%EOF", "R", "1 0 R", "2 0 R", "0 0 R", "null", "true", "false", "/Type", "/Pages", "/Root 1 0 R", "/Size 5", "/Prev 0", "/Length 5", "/Length 1 0 R", "/Filter", "/FlateDecode", "/ASCII85Decode", "/LZWDecode", "/RunLengthDecode", "/ASCIIHexDecode", "/Kids[1 0 R]", "/Parent 1 0 R", "/Contents 2 0 R", "/Names", "/XFA", "/A", "/Next", "/S/URI", "/URI(u)", "/S/Launch", "/JS", "/F", "/EF", "/W[1 2 1]", "/Index[0 5]", "/Type/XRef", "/Encrypt", "/Predictor 12", "/Columns 3", "BT", "ET", "Tj", "TJ", "'", "\"", "Tf", "q", "Q", "BI", "ID", "EI", "begincmap", "endcmap", "beginbfchar", "endbfchar", "beginbfrange", "endbfrange", "begincodespacerange", "endcodespacerange", "1 beginbfrange", "<00><ff><0041>", "<0000><ffff>[<41>]", "<00>", "<ffffffff>", "<>", "()", "\x00", "\xff", "\r", "\n", "\r\n", " ", "~>", "z", "<~", "e", "E5", "-", "+", ".", "0", "-1", "1", "65535", "4294967295", "9999999999999999999999", "1e309", "16#FF", "#00", "#", "#4", "\\(", "\\)", "\\\r\n", "\\777", "\\8", "<</", "/A<<", "[[", "((", "%\r", "%obj", "%PDF-1.7\n"}

var numberRe = regexp.MustCompile(`[0-9]+`)

func mutateBytes(s *Src, b []byte, nums []int) []byte {
	if len(b) == 0 {
		return []byte(soupTokens[s.N(len(soupTokens))])
	}
	at := func() int { return s.N(len(b) + 1) }
	splice := func(i, j int, mid []byte) []byte {
		return append(append(append([]byte{}, b[:i]...), mid...), b[j:]...)
	}
	switch s.W(5, 3, 5, 3, 2, 1, 3, 1) {
	case 0: // number
		m := numberRe.FindAllIndex(b, -1)
		if len(m) > 0 {
			x := m[s.N(len(m))]
			v := fmt.Sprint(extremes[s.N(len(extremes))])
			if s.P(40) {
				v = fmt.Sprint(s.N(40))
			} else if s.P(20) {
				v = extremeReals[s.N(len(extremeReals))]
			}
			return splice(x[0], x[1], []byte(v))
		}
	case 1: // delete
		i := at()
		return splice(i, min(len(b), i+pick(s, 1, 2, 5, 20, 200)), nil)
	case 2: // insert tokens
		i := at()
		var t []byte
		for k := s.Int(1, 3); k > 0; k-- {
			t = append(t, soupTokens[s.N(len(soupTokens))]...)
		}
		return splice(i, i, t)
	case 3: // change a byte
		i := s.N(len(b))
		r := append([]byte{}, b...)
		r[i] = byte(s.N(256))
		return r
	case 4: // copy a part elsewhere
		i := at()
		j := min(len(b), i+pick(s, 3, 10, 50, 300))
		k := at()
		if bytes.Contains(b[i:j], []byte("code")) {
			break // no bombs, see genC12
		}
		return splice(k, k, append([]byte{}, b[i:j]...))
	case 5: // cut off
		return append([]byte{}, b[:at()]...)
	case 6: // one token by another
		i := at()
		for i < len(b) && !isWS(b[i]) && !isDelim(b[i]) {
			i++
		}
		j := i + 1
		for j < len(b) && !isWS(b[j]) && !isDelim(b[j]) {
			j++
		}
		if i < len(b) {
			return splice(i, min(j, len(b)), []byte(" "+soupTokens[s.N(len(soupTokens))]+" "))
		}
	case 7: // repeat a part many times
		i := at()
		j := min(len(b), i+pick(s, 1, 3, 10, 40))
		n := pick(s, 10, 100, 1000)
		if bytes.Contains(b[i:j], []byte("code")) || bytes.Contains(b[i:j], []byte("R")) {
			break // no bombs, see genC12
		}
		for n*(j-i) > 12000 {
			n /= 2
		}
		if bytes.Contains(b[i:j], []byte("bj")) {
			n = min(n, 100) // see the known finding on quadratic cost
		}
		return splice(i, i, bytes.Repeat(b[i:j], n))
	}
	return splice(at(), len(b), nil)
}

// ---- repeated and nested constructs

func repeated(s *Src) (data []byte, what string) {
	var b bytes.Buffer
	n := pick(s, 3, 50, 999, 1000, 1001, 3000, 10000)
	b.WriteString("%PDF-1.7\n")
	rep := func(x string) string {
		k := n
		if strings.Contains(x, "obj") {
			k = min(k, 300) // see the known finding on quadratic cost
		}
		k = min(k, 40000/(len(x)+1)+1)
		return strings.Repeat(x, k)
	}
	// wraps content as object 4, content stream of the only page
	page := func(content []byte) {
		b.WriteString("1 0 obj<</Type/Catalog/Pages 2 0 R>>endobj\n2 0 obj<</Type/Pages/Kids[3 0 R]/Count 1>>endobj\n3 0 obj<</Type/Page/Parent 2 0 R/Resources<</Font<</F1 5 0 R>>>>/Contents 4 0 R>>endobj\n5 0 obj<</Type/Font/ToUnicode 6 0 R>>endobj\n")
		f := ""
		if s.Bool() {
			content = encFlate(s, content, false)
			f = "/Filter/FlateDecode"
		}
		fmt.Fprintf(&b, "4 0 obj<</Length %d%s>>stream\n", len(content), f)
		b.Write(content)
		b.WriteString("\nendstream endobj\n")
	}
	root := "/Root 1 0 R"
	open := pick(s, "[", "<<", "<</K", "(", "[<<", "<</A[", "<", "<</Kids[", "{", "%", "1 0 obj<<", "1 0 obj[", "q ", "BT ", "BI ", "/F1 1 Tf ")
	switch s.N(16) {
	case 14:
		k := s.Int(1, 9)
		what = fmt.Sprintf("%d cross-reference sections in any order", k)
		b.WriteString("1 0 obj<</Type/Catalog/OpenAction<</S/URI/URI(u)>>>>endobj\n")
		// all sections are equally long, so that their offsets are known
		const size = 260
		base := b.Len()
		at := func() int { return base + size*s.N(k) + pick(s, 0, 0, 0, 0, 0, 1, -1, 5) }
		for i := 0; i < k; i++ {
			links := ""
			for _, key := range []string{"Prev", "XRefStm"} {
				if s.P(map[string]int{"Prev": 90, "XRefStm": 30}[key]) {
					links += fmt.Sprintf("/%s %d", key, at())
				}
			}
			sec := ""
			if s.Bool() {
				sec = fmt.Sprintf("xref\n0 2\n0000000000 65535 f \n0000000009 00000 n \ntrailer<</Size 2/Root 1 0 R%s>>\n", links)
			} else {
				sec = fmt.Sprintf("%d 0 obj<</Type/XRef/Size 2/W[1 2 1]/Root 1 0 R/Length 8%s>>stream\n\x00\x00\x00\xff\x01\x00\x09\x00\nendstream endobj\n", 20+i, links)
			}
			b.WriteString(sec + strings.Repeat(" ", size-1-len(sec)) + "\n")
		}
		fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF", at())
		return b.Bytes(), what
	case 15:
		k := s.Int(1, 12)
		what = fmt.Sprintf("%d objects that refer to each other in any way", k)
		b.WriteString("1 0 obj<</Type/Catalog/Pages 2 0 R/OpenAction 2 0 R/AcroForm 2 0 R/Names 2 0 R/A 2 0 R/EmbeddedFiles 3 0 R/JavaScript 3 0 R/URLS 3 0 R/URI 3 0 R>>endobj\n")
		for i := 2; i < 2+k; i++ {
			ref := func() string {
				if s.P(15) {
					return fmt.Sprintf("[%d 0 R(n)%d 0 R]", s.Int(1, k+3), s.Int(1, k+3))
				}
				if s.P(10) {
					return fmt.Sprintf("<</%s %d 0 R>>", knownNames[s.N(len(knownNames))], s.Int(1, k+3))
				}
				return fmt.Sprintf("%d 0 R", s.Int(1, k+3))
			}
			switch s.W(6, 2, 1) {
			case 0:
				fmt.Fprintf(&b, "%d 0 obj<<", i)
				if s.P(60) {
					b.WriteString(pick(s, "/Type/Pages", "/Type/Page", "/S/URI/URI(u)", "/S/Launch/F(f)", "/S/JavaScript/JS(j)", "/Type/Filespec/F(f)", "/S/Launch/Win<</F(f)>>", "/Type/Font"))
				}
				for j := s.Int(1, 6); j > 0; j-- {
					key := pick(s, "Kids", "Parent", "Names", "Next", "A", "AA", "OpenAction", "Contents", "Resources", "Font", "ToUnicode", "EF", "F", "UF", "JS", "URI", "XFA", "Annots", "Win", "FS", "Base", "Length", "Filter", "DecodeParms", "F1", knownNames[s.N(len(knownNames))])
					fmt.Fprintf(&b, "/%s %s", key, ref())
				}
				if s.P(30) {
					fmt.Fprintf(&b, "/Length %s>>stream\nBT/F1 1 Tf(x)Tj ET\nendstream endobj\n", pick(s, "19", ref()))
				} else {
					b.WriteString(">>endobj\n")
				}
			case 1:
				fmt.Fprintf(&b, "%d 0 obj[", i)
				for j := s.Int(1, 6); j > 0; j-- {
					b.WriteString(pick(s, "(n)", "") + ref() + " ")
				}
				b.WriteString("]endobj\n")
			case 2:
				fmt.Fprintf(&b, "%d 0 obj %s endobj\n", i, ref())
			}
		}
	case 0:
		what = fmt.Sprintf("object opening %q %d times", open, n)
		b.WriteString("1 0 obj" + rep(open) + pick(s, "", "\nendobj\n", ">>]>>endobj"))
	case 1:
		what = fmt.Sprintf("contents opening %q %d times", open, n)
		page([]byte("BT /F1 1 Tf " + rep(open) + " (x) Tj ET"))
	case 2:
		what = fmt.Sprintf("%d nested values that are closed again", n)
		p := [][2]string{{"[", "]"}, {"<</K ", ">>"}, {"(", ")"}, {"<</Kids[", "]>>"}, {"<</A<</S/URI/URI(u)/Next ", ">>>>"}, {"<</S/JavaScript/JS(j)/Next[", "]>>"}}[s.N(6)]
		b.WriteString("1 0 obj<</OpenAction " + rep(p[0]) + "1" + rep(p[1]) + ">>endobj\n")
	case 3:
		what = fmt.Sprintf("chain of %d references", n)
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, "%d 0 obj %d 0 R endobj\n", i, i+1)
		}
		fmt.Fprintf(&b, "%d 0 obj<</OpenAction 1 0 R/Contents 1 0 R/Length 1 0 R/Kids 1 0 R>>endobj\n", n+2)
	case 4:
		key := pick(s, "Kids", "Next", "Parent", "Names", "A", "Contents", "Resources")
		what = fmt.Sprintf("chain of %d dictionaries by /%s", n, key)
		b.WriteString("1 0 obj<</Type/Catalog/Pages 2 0 R/OpenAction 2 0 R/Names<</EmbeddedFiles 2 0 R/JavaScript 2 0 R/URLS 2 0 R>>>>endobj\n")
		arr := s.Bool()
		for i := 2; i <= n+1; i++ {
			if arr {
				fmt.Fprintf(&b, "%d 0 obj<</S/URI/URI(u)/%s[%d 0 R]>>endobj\n", i, key, i+1)
			} else {
				fmt.Fprintf(&b, "%d 0 obj<</S/URI/URI(u)/%s %d 0 R>>endobj\n", i, key, i+1)
			}
		}
	case 5:
		k := min(n, 200)
		what = fmt.Sprintf("page tree node with %d kids that all point at each other", k)
		var kids strings.Builder
		for i := 0; i < k; i++ {
			fmt.Fprintf(&kids, "%d 0 R ", 2+i%17)
		}
		b.WriteString("1 0 obj<</Type/Catalog/Pages 2 0 R/Names<</EmbeddedFiles 2 0 R>>>>endobj\n")
		for i := 2; i < 19; i++ {
			fmt.Fprintf(&b, "%d 0 obj<</Type/Pages/Kids[%s]/Parent %d 0 R/Next[%s]>>endobj\n", i, kids.String(), 2+s.N(17), kids.String())
		}
	case 6:
		k := min(n, 100)
		what = fmt.Sprintf("chain of %d cross-reference sections", k)
		b.WriteString("1 0 obj<</Type/Catalog>>endobj\n")
		prev := pick(s, 0, 9, 1<<30)
		for i := 0; i < k; i++ {
			at := b.Len()
			fmt.Fprintf(&b, "xref\n0 2\n0000000000 65535 f \n0000000009 00000 n \ntrailer<</Size 2/Root 1 0 R/Prev %d>>\n", prev)
			prev = at
		}
		fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF", prev)
		return b.Bytes(), what
	case 7:
		what = fmt.Sprintf("cross-reference subsection with impossible numbers")
		b.WriteString("1 0 obj<</Type/Catalog>>endobj\n")
		at := b.Len()
		x := func() string { return fmt.Sprint(extremes[s.N(len(extremes))]) }
		fmt.Fprintf(&b, "xref\n%s %s\n0000000000 65535 f \n0000000009 00000 n \n%s %s\n0000000009 00000 n \ntrailer<</Size %s/Root 1 0 R/Prev %s>>\nstartxref\n%d\n%%%%EOF", x(), x(), x(), x(), x(), x(), at)
		return b.Bytes(), what
	case 8:
		what = "character map with huge ranges"
		var c strings.Builder
		c.WriteString("1 begincodespacerange <00> <FFFF> endcodespacerange\n")
		for k := s.Int(1, 5); k > 0; k-- {
			h := func() string { return fmt.Sprintf("<%x>", s.Raw(pick(s, 1, 2, 2, 3, 4, 4, 8, 0, 20))) }
			lo, hi := h(), h()
			if s.Bool() {
				lo, hi = pick(s, "<00>", "<0000>", "<00000000>"), pick(s, "<ff>", "<ffff>", "<ffffffff>", "<ffffffffffffffff>")
			}
			dst := h()
			if s.P(30) {
				dst = "[" + strings.Repeat(h(), s.Small(20)) + "]"
			}
			fmt.Fprintf(&c, "%d beginbfrange %s %s %s endbfrange\n", s.Small(200), lo, hi, dst)
			fmt.Fprintf(&c, "%d beginbfchar %s %s endbfchar\n", s.Small(200), h(), h())
		}
		page([]byte("BT /F1 1 Tf <00010203> Tj [(a) 1 (b)] TJ ET"))
		fmt.Fprintf(&b, "6 0 obj<</Length %d>>stream\n%s\nendstream endobj\n", c.Len(), c.String())
	case 9:
		t := soupTokens[s.N(len(soupTokens))]
		what = fmt.Sprintf("%d times %q", n, t)
		b.WriteString(pick(s, "", "1 0 obj", "xref\n", "trailer", "1 0 obj<</Length 5>>stream\n") + rep(t+pick(s, "", " ", "\n")))
	case 10:
		k := min(n, 300)
		what = fmt.Sprintf("%d objects opened and never closed", k)
		v := pick(s, "<<", "[", "(", "<", "<</A", "stream\n", "<<>>stream\n", "<</Length 1 0 R>>stream\n")
		for i := 1; i <= k; i++ {
			fmt.Fprintf(&b, "%d 0 obj%s", i, v)
		}
	case 11:
		what = "stream expanding to a large size"
		plain := bytes.Repeat([]byte(pick(s, "\x00", "[", "(", "<<", "(a)Tj ", "<</A ", "/F1 1 Tf ", "q ")), pick(s, 1000, 30000, 200000))
		content := encFlate(s, plain, false)
		pred := ""
		if s.P(40) {
			pred = fmt.Sprintf("/DecodeParms<</Predictor %d/Columns %d/Colors %d/BitsPerComponent %d>>", pick(s, 2, 12, 15), extremes[s.N(len(extremes))], extremes[s.N(len(extremes))], pick(s, 1, 8, 16, 32, 3))
		}
		b.WriteString("1 0 obj<</Type/Catalog/Pages 2 0 R/AcroForm<</XFA 4 0 R>>>>endobj\n2 0 obj<</Type/Pages/Kids[3 0 R]>>endobj\n3 0 obj<</Type/Page/Parent 2 0 R/Resources<</Font<</F1 5 0 R>>>>/Contents 4 0 R>>endobj\n5 0 obj<</ToUnicode 4 0 R>>endobj\n")
		fmt.Fprintf(&b, "4 0 obj<</Length %d/Filter/FlateDecode%s>>stream\n", len(content), pred)
		b.Write(content)
		b.WriteString("\nendstream endobj\n")
	case 12:
		what = fmt.Sprintf("%d filters", n)
		f := pick(s, "/ASCIIHexDecode", "/ASCII85Decode", "/RunLengthDecode", "/FlateDecode", "/LZWDecode", "/Crypt", "null", "1 0 R")
		if isExpanding(f[1:]) {
			n = min(n, 3)
		}
		fmt.Fprintf(&b, "1 0 obj<</Type/Catalog/AcroForm<</XFA 4 0 R>>>>endobj\n4 0 obj<</Length 40/Filter[%s]/DecodeParms[%s]>>stream\n%s\nendstream endobj\n", rep(f+" "), rep(pick(s, "null ", "<<>>", "1 0 R ", "")), "3030303030303030303030303030303030303030")
	case 13:
		what = fmt.Sprintf("name or number of %d bytes", n)
		b.WriteString("1 0 obj<</Type/Catalog/K" + pick(s, " ", "") + rep(pick(s, "a", "#41", "9", "-", ".", "0", "#", "\\", "1 ")) + ">>endobj\n")
	}
	if s.P(70) {
		fmt.Fprintf(&b, "trailer<<%s>>\n", root)
	}
	if s.P(20) {
		fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF", s.N(b.Len()))
	}
	return b.Bytes(), what
}

// megadeep nests values deeper than any stack allows for.
func megadeep(s *Src) (data []byte, what string) {
	open := pick(s, "[", "<<", "<</K", "[[[<<", "<</K[", "(", "<")
	n := s.Int(3000000, 5000000)
	nest := []byte(strings.Repeat(open, n/len(open)+1))
	var b bytes.Buffer
	b.WriteString("%PDF-1.7\n1 0 obj<</Type/Catalog/Pages 2 0 R>>endobj\n2 0 obj<</Type/Pages/Kids[3 0 R]/Count 1>>endobj\n3 0 obj<</Type/Page/Parent 2 0 R/Resources<</Font<</F1 5 0 R>>>>/Contents 4 0 R>>endobj\n5 0 obj<</Type/Font/ToUnicode 6 0 R>>endobj\n")
	place := s.N(4)
	stream := func(num int, content []byte) {
		f := ""
		if s.P(70) {
			content = encFlate(s, content, false)
			f = "/Filter/FlateDecode"
		}
		fmt.Fprintf(&b, "%d 0 obj<</Length %d%s>>stream\n", num, len(content), f)
		b.Write(content)
		b.WriteString("\nendstream endobj\n")
	}
	switch place {
	case 0:
		stream(4, append([]byte(pick(s, "", "BT ", "BT/F1 1 Tf(a)Tj ")), nest...))
	case 1:
		stream(4, []byte("BT/F1 1 Tf(a)Tj ET"))
		stream(6, append([]byte(pick(s, "1 beginbfrange <00> <05> ", "1 beginbfchar ", "")), nest...))
	case 2:
		b.WriteString("7 0 obj ")
		b.Write(nest)
	case 3:
		fmt.Fprintf(&b, "trailer<</Root 1 0 R/X ")
		b.Write(nest)
	}
	if place < 3 {
		b.WriteString("\ntrailer<</Root 1 0 R>>\n")
	}
	return b.Bytes(), fmt.Sprintf("%q opened to a depth of millions in %s", open, []string{"page content", "a character map", "an object", "the trailer"}[place])
}

// soupFile is a file of PDF-like tokens.
func soupFile(s *Src) []byte {
	var b bytes.Buffer
	if s.Bool() {
		b.WriteString("%PDF-1.4\n")
	}
	for k := s.Int(1, 120); k > 0; k-- {
		switch s.W(8, 1, 2) {
		case 0:
			b.WriteString(soupTokens[s.N(len(soupTokens))])
		case 1:
			b.Write(s.Raw(s.Small(10)))
		case 2:
			fmt.Fprint(&b, extremes[s.N(len(extremes))])
		}
		b.WriteString(pick(s, " ", "", "\n"))
	}
	return b.Bytes()
}

// hostileDoc is a well-written file with hostile contents.
func hostileDoc(s *Src) (data []byte, pw string, what string) {
	x := newX(s, s)
	x.indir = pick(s, 25, 0, 60)
	x.chainN = pick(s, 2, 0, 3)
	if s.P(15) {
		x.setCrypt(genCrypt(s, true))
		pw = string(x.doc.Crypt.User)
		if x.doc.Crypt.DictNum == 0 && s.P(30) {
			m := &mutator{s: s}
			for k := s.Int(1, 2); k > 0; k-- {
				x.doc.Crypt.trailerEncrypt = m.mutateValue(x.doc.Crypt.Dict)
			}
			what += "encryption dictionary "
		}
	}
	x.catalog(catOpts{pages: 75, actions: 50, files: 50})
	if s.P(25) {
		x.newRev(s.W(3, 2))
	}
	m := &mutator{s: s}
	for _, o := range x.doc.Revs[0].Objs {
		m.nums = append(m.nums, o.Num)
		if hasFilter(o.V) {
			if m.filters == nil {
				m.filters = map[int]bool{}
			}
			m.filters[o.Num] = true
		}
	}
	n := 0
	for k := s.Int(1, 4); k > 0; k-- {
		if len(x.doc.Revs[0].Objs) == 0 {
			break
		}
		o := x.doc.Revs[0].Objs[s.N(len(x.doc.Revs[0].Objs))]
		n++
		if o.HasStream && s.P(60) {
			switch s.W(3, 2, 1) {
			case 0: // the decoded text, mutated and stored as it is
				d, _ := o.V.(Dict)
				nd := Dict{}
				for _, e := range d {
					if e.K != "Filter" && e.K != "DecodeParms" && e.K != "Length" {
						nd = append(nd, e)
					}
				}
				data := o.Plain
				for j := s.Int(1, 6); j > 0; j-- {
					data = mutateBytes(s, data, m.nums)
				}
				if len(data) > 20000 {
					data = data[:20000]
				}
				o.Data, o.StmMethod = data, "Identity"
				o.V = append(nd, KV{"Length", Int(len(data))})
				what += "stream text; "
			case 1: // the stored bytes
				data := o.Data
				for j := s.Int(1, 3); j > 0; j-- {
					data = mutateBytes(s, data, m.nums)
				}
				if len(data) > 20000 {
					data = data[:20000]
				}
				o.Data = data
				what += "stream bytes; "
			case 2:
				o.V = m.mutateValue(o.V)
				what += "stream dictionary; "
			}
			continue
		}
		o.V = m.mutateValue(o.V)
		what += "value; "
	}
	if s.P(10) {
		x.doc.Revs[0].Extra = append(x.doc.Revs[0].Extra, KV{pick(s, "XRefStm", "Prev", "Root", "Size", "Encrypt", "ID", "W", "Index"), m.hostile(pick(s, "W", "Index", "Size"), nil)})
		what += "trailer; "
	}
	if s.P(10) {
		x.doc.Root = m.scalar()
		what += "root; "
	}
	if s.P(20) {
		x.doc.damage = func(ri int, es []xent) []xent {
			for k := s.Int(1, 3); k > 0 && len(es) > 0; k-- {
				e := &es[s.N(len(es))]
				switch s.N(4) {
				case 0:
					e.off = s.N(5000)
				case 1:
					e.num = pick(s, 0, 1, 7, 1<<20, s.N(50))
				case 2:
					e.free = !e.free
				case 3:
					e.gen = s.N(65536)
				}
			}
			return es
		}
		what += "cross-references; "
	}
	w := WOpts{fancy: s.P(70), plainXref: s.Bool()}
	if x.doc.damage == nil && s.P(15) {
		w.scramble = true
	} else if s.P(15) {
		for _, v := range x.doc.Revs {
			v.Kind = xrefNone
		}
		w.noStart = true
	}
	data = x.doc.write(s, w)
	return data, pw, fmt.Sprintf("%s with %d hostile changes: %s", x.doc.describe(), n, what)
}

var headRe = regexp.MustCompile(`[0-9]\s+[0-9]+\s*obj|xref`)

const allocLimit = 3 << 30 // bytes allocated in all by one parse of a small input

// Inputs whose streams unpack, through several expanding filters, to gigabytes
// are not generated: the cost of a parse is judged against the size of the
// input and of its unpacked streams.
func genC12(s *Src) *Case {
	var data []byte
	var pw, what string
	c := &Case{}
	limit := uint64(allocLimit)
	kind := s.W(50, 18, 20, 6, 6, 4)
	switch kind {
	case 0:
		data, pw, what = hostileDoc(s)
		if s.P(35) {
			for k := s.Int(1, 5); k > 0; k-- {
				data = mutateBytes(s, data, nil)
			}
			what += "and changed bytes"
		}
	case 1:
		x := newX(s, s)
		x.catalog(catOpts{pages: 75, actions: 50, files: 50})
		if s.P(20) {
			x.setCryptLate(s)
		}
		data = x.doc.write(s, WOpts{fancy: s.Bool(), plainXref: s.Bool()})
		for k := s.Int(1, 12); k > 0; k-- {
			data = mutateBytes(s, data, nil)
		}
		what = "document with changed bytes"
	case 2:
		if s.N(40) == 39 {
			data, what = megadeep(s)
			c.label("mega-deep")
			// a value is written once per level of nesting
			limit *= 16
			break
		}
		data, what = repeated(s)
		if s.P(15) {
			data = mutateBytes(s, data, nil)
		}
	case 3:
		if m := malformed(s, true); m != nil {
			data = m.data
		}
		what = "malformed objects"
	case 4:
		data = soupFile(s)
		what = "token soup"
	case 5:
		data = s.Data(3000)
		what = "bytes"
	}
	c.label([]string{"hostile-document", "changed-bytes", "repeated-construct", "malformed", "token-soup", "random-bytes"}[kind])
	if s.P(10) {
		pw = string(genPassword(s))
	}
	c.Files = map[string][]byte{"input.pdf": data}
	c.Key = []byte(pw)
	c.NonTrivial = headRe.Match(data)
	c.Desc = clip(fmt.Sprintf("%d bytes: %s", len(data), what), 300)
	c.Run = func(t *T) {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		cpu := cpuTime()
		o := t.parse(data, pw)
		cpu = cpuTime() - cpu
		runtime.ReadMemStats(&m1)
		for _, k := range []int{2, 5, 10} {
			if cpu > time.Duration(k)*time.Second {
				t.Label(fmt.Sprintf("cpu>%ds", k))
			}
		}
		if len(o.Missing) > 0 {
			t.Fail("missing", "output files missing: %v (error %v)", o.Missing, o.Err)
		}
		if n := m1.TotalAlloc - m0.TotalAlloc; n > limit {
			t.Fail("allocation", "parsing %d bytes of input allocated %d bytes", len(data), n)
		} else if n > limit/8 {
			t.Label("much-memory")
			if n > limit/2 {
				t.Label("very-much-memory")
			}
		}
		if o.Err != nil {
			t.Label("error-returned")
		}
		// the same through the library
		p, err := load(data, pw)
		if err != nil {
			return
		}
		for num := 0; num < 60; num++ {
			ob := p.GetObject(num)
			if ob == nil {
				t.Fail("nil-object", "GetObject(%d) returned nil", num)
			}
			if r, ok := ob.Value.(*pdf.Reference); ok && r != nil {
				r.Resolve()
				r.ResolveStream()
			}
		}
	}
	return c
}

// setCryptLate encrypts a document that is made already.
func (x *X) setCryptLate(s *Src) {
	x.doc.Crypt = genCrypt(s, true)
}
