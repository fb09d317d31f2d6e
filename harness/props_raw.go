package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{ID: "C17", Quick: 50000, Thorough: 750000,
		Rule: "A case is a document of random values and streams whose strings and names need no escaping, over 1 to 5 revisions, encrypted or not, with damaged cross-references or not; raw.pdf is read back by the harness's own reader and must hold each live object exactly once with its number, generation, value and decoded stream, and nothing else. Non-trivial: at least 3 live objects.",
		Gen:  genC17})
	register(&Prop{ID: "C18", Quick: 26000, Thorough: 390000,
		Rule: "A case is either a well-formed document (objects or extraction, encrypted, several revisions) for which errors.txt must be empty, or a file with malformed objects, possibly cut off, for which errors.txt must hold every message that the harness's own lenient reader calls for and no other. Non-trivial: a clean document of at least 3 objects, or at least one abnormality.",
		Gen:  genC18})
	register(&Prop{ID: "C19", Quick: 180000, Thorough: 2700000,
		Rule: "A case is a file mixing well-formed objects with objects made of random token sequences (stray and missing brackets, keys that are not names, bad escapes, bad hex digits), possibly cut off at any byte; every object is compared with what the harness's own lenient reader makes of the same bytes. Non-trivial: at least one malformed object or a cut inside an object.",
		Gen:  genC19})
}

// ---- malformed objects

// soup writes random tokens, balanced or not.
func soup(s *Src, l *Lex, n, depth int) {
	for ; n > 0; n-- {
		if depth > 0 && s.P(25) { // a container with soup of its own
			o, c := "[", "]"
			if s.Bool() {
				o, c = "<<", ">>"
			}
			l.token(o)
			if o == "<<" && s.P(70) {
				l.token("/" + pick(s, "A", "B", "Kk"))
			}
			soup(s, l, s.Small(5), depth-1)
			if s.P(88) {
				l.token(c)
			}
			continue
		}
		switch s.W(6, 3, 3, 2, 2, 2, 2, 1) {
		case 0:
			l.value(genValue(s, 1, &valOpts{maxStr: 12, refs: func(s *Src) Ref { return Ref{s.Int(1, 30), 0} }}))
		case 1: // key
			l.token("/" + pick(s, "A", "B", "C", "Dd", "E1"))
		case 2: // stray brackets
			l.token(pick(s, "]", ">>", ")", "> ", "]]", ">>>>", ")]"))
		case 3: // names
			l.token("/" + pick(s, "N", "") + pick(s, "#zz", "#4", "#4g", "#", "#4#41", "#G1", "##41", "#x#20", "#0", "#41#4", "a#2fb#", "#7", "#4 ", "#/X", "#5[") + pick(s, "", "tail", "z"))
			l.regular = true
		case 4: // strings
			l.token("(" + pick(s, "a", "", "\\(") + pick(s, "\\400", "\\777", "\\8", "\\9x", "\\08", "\\1234", "\\53", "\\0053", "\\q", "\\%", "\\418", "\\3776", "\\477", "\\7", "\\4008", "\\5(", "%", "\\\n", "\\\r\n3", "\\\r", "\\\r4") + pick(s, "b", "", "7", "\\)") + pick(s, ")", ")", ")", "))"))
			l.regular = false
		case 5: // hex strings
			l.token("<" + pick(s, "4g1", "4 1", "zz", "4", "(41)", "4%1", "/41", "[41", "<41", "41<", "4\n1x2", "%41", "414", "g", "-1", "4\x001", "\xff41", "4Z\f5", "{}") + ">")
			l.regular = false
		case 6: // words
			l.token(pick(s, "foo", "tru", "nul", "endob", "true1", "nullnull", "a-b", "{", "}", "trail", "'", "\"", "startx"))
		case 7: // open to the end
			if s.P(30) {
				l.token(pick(s, "(abc", "<41", "[", "<<", "(a\\", "<<[(", "<4", "((x)", "(a\\\r", "(\\4", "(\\41", "/N#", "/N#4"))
				l.regular = false
			}
		}
	}
}

type malDoc struct {
	b     *Builder
	bad   map[*Obj]bool
	data  []byte
	full  int
	cutAt int
}

// malformed builds a file with malformed objects.
func malformed(s *Src, allowCut bool) *malDoc {
	m := &malDoc{b: newBuilder(s), bad: map[*Obj]bool{}, cutAt: -1}
	b := m.b
	b.indir = 10
	vo := &valOpts{maxStr: 30, refs: func(s *Src) Ref { return Ref{s.Int(1, 30), 0} }}
	for k := s.Int(1, 6); k > 0; k-- {
		switch s.W(6, 3, 2) {
		case 0:
			o := b.reserve()
			l := &Lex{s: s, fancy: s.P(60)}
			l.raw("\n")
			shape := s.W(5, 5, 2)
			if shape == 0 {
				l.token("[")
			} else if shape == 1 {
				l.token("<<")
			}
			if s.P(2) { // deep, never closed or closed in part
				k := s.Int(20, 120)
				for i := 0; i < k; i++ {
					if shape != 1 || i > 0 && s.P(50) {
						l.token("[")
					} else {
						l.token("<<")
						l.token("/K")
					}
				}
				soup(s, l, s.Int(0, 3), 1)
				for i := s.N(3) * s.N(k); i > 0; i-- {
					l.token(pick(s, "]", "]", ">>"))
				}
			}
			soup(s, l, s.Int(1, 8), 2)
			if s.P(93) {
				if shape == 0 {
					l.token("]")
				} else if shape == 1 {
					l.token(">>")
				}
			}
			if s.P(90) {
				l.raw("\nendobj\n")
			} else {
				l.raw("\n")
			}
			o.Body = l.b.String()
			b.rev.Objs = append(b.rev.Objs, o)
			m.bad[o] = true
		case 1:
			b.add(genValue(s, 2, vo))
		case 2:
			b.addStream(genDict(s, 1, vo, s.Small(3)), s.Data(200))
		}
	}
	w := WOpts{fancy: s.P(60), plainXref: true}
	if s.P(35) {
		b.rev.Kind = xrefNone
		w.noStart = true
	}
	m.data = b.doc.write(s, w)
	if !b.doc.unambiguous() {
		return nil
	}
	m.full = len(m.data)
	if allowCut && s.P(45) {
		last := 0
		for _, o := range b.rev.Objs {
			last = max(last, b.doc.Built.Offsets[o])
		}
		// anywhere from the last objects on
		lo := 20
		if s.P(70) {
			lo = max(20, last-40)
		}
		m.cutAt = lo + s.N(max(1, len(m.data)-lo))
		if s.P(40) { // in the middle of something
			var at []int
			for i := max(lo, 3); i < len(m.data); i++ {
				d := m.data[i-3 : i]
				if bytes.IndexByte([]byte("\\#<>/(%"), d[2]) >= 0 || d[1] == '\\' || d[0] == '\\' || d[1] == '#' {
					at = append(at, i)
				}
			}
			if len(at) > 0 {
				m.cutAt = at[s.N(len(at))]
			}
		}
		m.data = m.data[:m.cutAt]
	}
	return m
}

// bodyAt is the position after the object header, if it is in the file.
func (m *malDoc) bodyAt(o *Obj) (int, bool) {
	at := m.b.doc.Built.Offsets[o]
	if at >= len(m.data) {
		return 0, false
	}
	h := headerRe.FindIndex(m.data[at:])
	if h == nil {
		return 0, false
	}
	return at + h[1], true
}

// whole reports whether the object is complete in the file.
func (m *malDoc) whole(o *Obj) bool {
	if m.cutAt < 0 {
		return true
	}
	at, ok := m.bodyAt(o)
	if !ok {
		return false
	}
	e := -1
	for _, x := range m.b.rev.Objs {
		if p := m.b.doc.Built.Offsets[x]; p > at && (e < 0 || p < e) {
			e = p
		}
	}
	return e >= 0 && e <= len(m.data)
}

var eolRe = regexp.MustCompile("\r\n?")

// sameEOL reads every line end as a line feed: in a string that is open to the
// end of the file it may be given either way.
func sameEOL(v V) V {
	switch x := v.(type) {
	case Str:
		return Str(eolRe.ReplaceAllString(string(x), "\n"))
	case Arr:
		r := Arr{}
		for _, e := range x {
			r = append(r, sameEOL(e))
		}
		return r
	case Dict:
		r := Dict{}
		for _, e := range x {
			r = append(r, KV{e.K, sameEOL(e.V)})
		}
		return r
	}
	return v
}

func sameEOLObj(o pdf.Object) pdf.Object {
	switch x := o.(type) {
	case pdf.String:
		return pdf.String(eolRe.ReplaceAllString(string(x), "\n"))
	case pdf.Array:
		r := pdf.Array{}
		for _, e := range x {
			r = append(r, sameEOLObj(e))
		}
		return r
	case pdf.Dictionary:
		r := pdf.Dictionary{}
		for k, e := range x {
			r[k] = sameEOLObj(e)
		}
		return r
	}
	return o
}

func nestingOf(v V) int {
	n := 0
	switch x := v.(type) {
	case Arr:
		for _, e := range x {
			n = max(n, nestingOf(e))
		}
	case Dict:
		for _, e := range x {
			n = max(n, nestingOf(e.V))
		}
	default:
		return 0
	}
	return n + 1
}

func genC19(s *Src) *Case {
	m := malformed(s, true)
	if m == nil {
		return discard()
	}
	b := m.b
	c := &Case{Files: map[string][]byte{"input.pdf": m.data}, NonTrivial: len(m.bad) > 0 || m.cutAt >= 0}
	type want struct {
		o *Obj
		v V
	}
	var wants []want
	for _, o := range b.rev.Objs {
		at, ok := m.bodyAt(o)
		if !ok {
			continue
		}
		r := newRefReader(m.data, at)
		v, _ := r.read()
		if nestingOf(v) > 500 {
			return discard()
		}
		wants = append(wants, want{o, sameEOL(v)})
		for k := range r.msg {
			c.label(strings.ReplaceAll(k, " ", "-"))
		}
	}
	if m.cutAt >= 0 {
		c.label("cut")
	}
	c.Desc = fmt.Sprintf("%d objects, %d malformed, cut at %d of %d", len(b.rev.Objs), len(m.bad), m.cutAt, m.full)
	for _, o := range b.rev.Objs {
		if m.bad[o] {
			c.Desc += clip(fmt.Sprintf(" %q", o.Body), 120)
		}
	}
	order := s.Perm(len(wants))
	if s.P(8) { // read again and again
		one := order
		for k := pick(s, 1, 1, 3, 50); k > 0; k-- {
			order = append(order, one...)
		}
	}
	data := m.data
	c.Run = func(t *T) {
		p, err := load(data, "")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		for _, i := range order {
			w := wants[i]
			got := p.GetObject(w.o.Num)
			if got == nil || got.Number != w.o.Num || got.Generation != w.o.Gen {
				t.Fail("object", "object %d %d is not read", w.o.Num, w.o.Gen)
			}
			if d := diff(sameEOLObj(got.Value), w.v); d != "" {
				kind := "lenient"
				if !m.bad[w.o] {
					kind = "other-object"
				}
				t.Fail(kind, "object %d: %s", w.o.Num, d)
			}
			// (what a cut stream refers to may be lost)
			if !m.bad[w.o] && m.whole(w.o) && !(m.cutAt >= 0 && w.o.HasStream && hasRefs(w.o.V)) {
				checkObj(t, p, w.o, "well-formed ")
			}
		}
	}
	return c
}

// ---- diagnostics

func genC18(s *Src) *Case {
	switch s.W(4, 2, 3) {
	case 1:
		return genC18Objects(s)
	case 2:
		return genC18Extract(s)
	}
	m := malformed(s, true)
	if m == nil {
		return discard()
	}
	b := m.b
	if s.P(10) && m.cutAt < 0 && b.rev.Kind == xrefNone {
		// a stream that never ends, last in the file
		m.data = append(append([]byte{}, m.data...), fmt.Sprintf("\n%d 0 obj\n<</Length %s>>\nstream\n%s", b.maxFree(), pick(s, "5", "0", "-1", "null", "99 0 R", "99999"), pick(s, "", "data", "endstrea", "\n", "endobj"))...)
	}
	req, opt := map[string]bool{}, map[string]bool{}
	objs := 0
	starts := objMarker.FindAllIndex(m.data, -1)
	for _, x := range starts {
		r := newRefReader(m.data, x[1])
		v, _ := r.read()
		objs++
		if nestingOf(v) > 500 {
			return discard()
		}
		for k := range r.msg {
			req[k] = true
		}
		for k := range r.opt {
			opt[k] = true
		}
		// a stream without an end
		if r.keyword("stream") {
			end := bytes.Contains(m.data[r.pos:], []byte("endstream"))
			// "streamX" is not the keyword
			if r.pos < len(m.data) && !isWS(m.data[r.pos]) && !isDelim(m.data[r.pos]) {
				continue
			}
			if !end {
				req[msgOpenStm] = true
			} else if d, ok := v.(Dict); ok && isNull(d.get("Length")) {
				opt[msgOpenStm] = false
			}
		}
	}
	// the trailer is read too, though it is no object
	if b.rev.Kind == xrefTable {
		from := min(len(m.data), b.doc.Built.Xrefs[0])
		if i := bytes.Index(m.data[from:], []byte("trailer")); i >= 0 {
			r := newRefReader(m.data, from+i+7)
			r.read()
			for k := range r.msg {
				opt[k] = true
			}
			for k := range r.opt {
				opt[k] = true
			}
		}
	}
	var want []string
	for k := range req {
		want = append(want, k)
	}
	sort.Strings(want)
	c := &Case{Files: map[string][]byte{"input.pdf": m.data}, NonTrivial: len(want) > 0}
	for _, k := range want {
		c.label(strings.ReplaceAll(k, " ", "-"))
	}
	c.label("malformed")
	c.Desc = fmt.Sprintf("%d objects, %d malformed, cut at %d of %d: %q", len(b.rev.Objs), len(m.bad), m.cutAt, m.full, want)
	data := m.data
	c.Run = func(t *T) {
		o := t.parse(data, "")
		if o.Err != nil {
			t.Fail("error", "parse returned %v", o.Err)
		}
		have := map[string]bool{}
		for _, l := range strings.SplitAfter(string(o.Errors), "\n") {
			if l == "" {
				continue
			}
			k := strings.TrimSuffix(l, "\n")
			known := false
			for _, a := range allMessages {
				known = known || a == k
			}
			if !known || k == l {
				t.Fail("undocumented", "errors.txt has %q", l)
			}
			have[k] = true
		}
		for _, k := range want {
			if !have[k] {
				t.Fail("unreported", "%q is not in errors.txt: %q", k, o.Errors)
			}
		}
		for k := range have {
			if !req[k] && !opt[k] {
				t.Fail("false-report", "%q is in errors.txt but nothing of that kind is in the file", k)
			}
		}
	}
	return c
}

func (b *Builder) maxFree() int { return b.doc.maxNum() + 1 }

func cleanCase(s *Src, doc *Doc, scramble bool) *Case {
	data := doc.write(s, WOpts{fancy: s.P(85), clean: true, scramble: scramble})
	if !doc.unambiguous() {
		return discard()
	}
	pw := ""
	if doc.Crypt != nil {
		pw = string(doc.Crypt.User)
	}
	n := len(doc.latest())
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: n >= 3, Desc: "clean: " + doc.describe()}
	c.label("clean")
	if doc.Crypt != nil {
		c.label("clean-encrypted")
	}
	c.Run = func(t *T) {
		o := t.parse(data, pw)
		if o.Err != nil {
			t.Fail("error", "parse returned %v", o.Err)
		}
		if len(o.Errors) > 0 {
			t.Fail("false-report", "the document is well formed, errors.txt has %q", clip(string(o.Errors), 300))
		}
		if len(o.Missing) > 0 {
			t.Fail("missing", "output files missing: %v", o.Missing)
		}
	}
	return c
}

// noBraces keeps braces out of names: whether they need an escape is disputed.
func noBraces(v V) V {
	switch x := v.(type) {
	case Name:
		return Name(strings.NewReplacer("{", "k", "}", "l").Replace(string(x)))
	case Arr:
		r := Arr{}
		for _, e := range x {
			r = append(r, noBraces(e))
		}
		return r
	case Dict:
		r := Dict{}
		for _, e := range x {
			r = append(r, KV{strings.NewReplacer("{", "k", "}", "l").Replace(e.K), noBraces(e.V)})
		}
		return r
	}
	return v
}

func genC18Objects(s *Src) *Case {
	b := newBuilder(s)
	if s.P(25) {
		b.setCrypt(genCrypt(s, true))
	}
	vo := &valOpts{maxStr: 40}
	vo.refs = func(s *Src) Ref { return Ref{s.Int(1, max(2, b.next)), 0} }
	for k := s.Int(1, 8); k > 0; k-- {
		if s.P(30) {
			b.addStream(genDict(s, 1, vo, s.Small(3)), s.Data(600))
		} else {
			b.add(genValue(s, 3, vo))
		}
	}
	if s.P(50) {
		history(b, s, s.Int(2, 4), vo)
	}
	for _, r := range b.doc.Revs {
		for _, o := range r.Objs {
			if !o.NoEnc {
				o.V = noBraces(o.V)
			}
		}
	}
	return cleanCase(s, b.doc, s.P(15))
}

func genC18Extract(s *Src) *Case {
	x := newX(s, s)
	if s.P(25) {
		x.setCrypt(genCrypt(s, true))
	}
	x.catalog(catOpts{pages: 70, actions: 60, files: 60})
	for _, o := range x.rev.Objs {
		if !o.NoEnc {
			o.V = noBraces(o.V)
		}
	}
	return cleanCase(s, x.doc, false)
}

// ---- raw.pdf

// tame keeps what raw.pdf can show without escapes.
func tame(v V) V {
	name := func(x string) string {
		b := []byte(x)
		for i, c := range b {
			if isWS(c) || isDelim(c) || c == '#' {
				b[i] = 'n'
			}
		}
		if len(b) == 0 {
			return "empty"
		}
		return string(b)
	}
	switch x := v.(type) {
	case Str:
		b := []byte(x)
		for i, c := range b {
			if strings.IndexByte("()\\\r", c) >= 0 {
				b[i] = '_'
			}
		}
		return Str(b)
	case Name:
		return Name(name(string(x)))
	case Arr:
		r := Arr{}
		for _, e := range x {
			r = append(r, tame(e))
		}
		return r
	case Dict:
		r := Dict{}
		for _, e := range x {
			k := name(e.K)
			if r.has(k) {
				continue
			}
			r = append(r, KV{k, tame(e.V)})
		}
		return r
	}
	return v
}

// isTame reports whether a value needs no escapes.
func isTame(v V) bool {
	a, b := show(v), show(tame(v))
	if d, ok := v.(Dict); ok {
		for _, e := range d {
			if s, ok := e.V.(Str); ok && tame(s) != V(s) {
				return false
			}
		}
	}
	return a == b
}

// plain is the value as a reader of the file sees it.
func plainValue(v V) V {
	switch x := v.(type) {
	case Kw:
		if n, err := strconv.Atoi(string(x)); err == nil {
			return Int(n)
		}
	case Arr:
		r := Arr{}
		for _, e := range x {
			r = append(r, plainValue(e))
		}
		return r
	case Dict:
		r := Dict{}
		for _, e := range x {
			r = append(r, KV{e.K, plainValue(e.V)})
		}
		return r
	}
	return v
}

// toObj turns a model value into the library's types.
func toObj(v V) pdf.Object {
	switch x := v.(type) {
	case Bool:
		return pdf.Keyword(fmt.Sprint(bool(x)))
	case Int:
		return pdf.Number(x)
	case Real:
		f, _ := strconv.ParseFloat(string(x), 64)
		return pdf.Number(f)
	case Str:
		return pdf.String(x)
	case Name:
		return pdf.Name(x)
	case Kw:
		return pdf.Keyword(x)
	case Ref:
		return &pdf.Reference{Number: x.Num, Generation: x.Gen}
	case Arr:
		r := pdf.Array{}
		for _, e := range x {
			r = append(r, toObj(e))
		}
		return r
	case Dict:
		r := pdf.Dictionary{}
		for _, e := range x {
			r[e.K] = toObj(e.V)
		}
		return r
	}
	return pdf.Keyword("null")
}

// checkRaw reads raw.pdf from start to end.
func checkRaw(t *T, raw []byte, want map[int]*Obj) {
	r := newRefReader(raw, 0)
	seen := map[int]bool{}
	for {
		r.ws()
		if r.eof() {
			break
		}
		num, g := r.digits(), ""
		r.ws()
		g = r.digits()
		if num == "" || g == "" || !r.keyword("obj") {
			t.Fail("syntax", "raw.pdf: no object header at %d: %q", r.pos, window(raw, r.pos))
		}
		n, _ := strconv.Atoi(num)
		gn, _ := strconv.Atoi(g)
		o := want[n]
		if o == nil {
			t.Fail("extra", "raw.pdf has object %d %d, which is not in use", n, gn)
		}
		if seen[n] {
			t.Fail("twice", "raw.pdf has object %d more than once", n)
		}
		seen[n] = true
		if gn != o.Gen {
			t.Fail("generation", "raw.pdf: object %d %d has generation %d", n, o.Gen, gn)
		}
		v, k := r.read()
		if k != rValue {
			t.Fail("syntax", "raw.pdf: object %d has no value", n)
		}
		if d := diff(toObj(v), plainValue(o.V)); d != "" {
			t.Fail("value", "raw.pdf: object %d: %s", n, d)
		}
		if o.HasStream {
			if !r.keyword("stream") {
				t.Fail("stream", "raw.pdf: object %d has no stream", n)
			}
			if bytes.HasPrefix(raw[r.pos:], []byte("\r\n")) {
				r.pos += 2
			} else if bytes.HasPrefix(raw[r.pos:], []byte("\n")) {
				r.pos++
			} else {
				t.Fail("syntax", "raw.pdf: object %d: no line end after stream", n)
			}
			if !bytes.HasPrefix(raw[r.pos:], o.Plain) {
				t.Fail("stream", "raw.pdf: object %d: stream %s", n, diffBytes(raw[r.pos:min(len(raw), r.pos+len(o.Plain))], o.Plain))
			}
			r.pos += len(o.Plain)
			rest := raw[r.pos:]
			m := regexp.MustCompile("^(\r\n|\n|\r)?endstream").Find(rest)
			if m == nil {
				t.Fail("stream", "raw.pdf: object %d: the stream goes on after its %d bytes with %q", n, len(o.Plain), window(rest, 0))
			}
			r.pos += len(m)
		}
		if !r.keyword("endobj") {
			t.Fail("syntax", "raw.pdf: object %d has no end: %q", n, window(raw, r.pos))
		}
	}
	for n := range want {
		if !seen[n] {
			t.Fail("missing", "raw.pdf does not have object %d", n)
		}
	}
}

func genC17(s *Src) *Case {
	b := newBuilder(s)
	b.indir = pick(s, 10, 0, 30)
	if s.P(30) {
		for try := 0; try < 6; try++ {
			c := genCrypt(s, true)
			if isTame(c.Dict) && tame(Str(c.ID)) == V(Str(c.ID)) {
				b.setCrypt(c)
				b.cryptOver = 25
				break
			}
		}
	}
	vo := &valOpts{maxStr: 40}
	vo.refs = func(s *Src) Ref { return Ref{s.Int(1, max(2, b.next)), 0} }
	for k := s.Int(1, 8); k > 0; k-- {
		if s.P(40) {
			b.addStream(genDict(s, 1, vo, s.Small(3)), s.Data(600))
		} else {
			b.add(genValue(s, 3, vo))
		}
	}
	w := WOpts{fancy: s.P(80), scramble: s.P(15)}
	kind := s.W(6, 1, 1)
	ch, del, re := 0, 0, 0
	if kind == 0 {
		ch, del, re = history(b, s, s.Int(1, 5), vo)
	} else {
		w.scramble = false
		if b.doc.Crypt == nil && kind == 1 {
			b.rev.Kind, w.noStart = xrefNone, true
		} else if kind == 2 {
			w.noStart = true
		}
	}
	for _, r := range b.doc.Revs {
		for _, o := range r.Objs {
			if !o.NoEnc {
				o.V = tame(o.V)
			}
		}
	}
	if s.P(30) { // a string given as a name of its own in the trailer is no object
		b.rev.Extra = Dict{{"Info", Ref{s.Int(1, max(2, b.next)), 0}}}
	}
	data := b.doc.write(s, w)
	if !b.doc.unambiguous() {
		return discard()
	}
	pw := ""
	if b.doc.Crypt != nil {
		pw = string(b.doc.Crypt.User)
	}
	want := b.doc.latest()
	for n, o := range b.doc.xobjs {
		want[n] = o
	}
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: len(want) >= 3}
	c.Desc = fmt.Sprintf("%s; %d redefined, %d deleted, %d added again, start pointer %v, scrambled %v", b.doc.describe(), ch, del, re, !w.noStart, w.scramble)
	if b.doc.Crypt != nil {
		c.label("encrypted")
	}
	if w.noStart {
		c.label("repaired")
	}
	if del > 0 {
		c.label("deleted")
	}
	for _, o := range want {
		if o.HasStream {
			c.label("streams")
			break
		}
	}
	c.Run = func(t *T) {
		o := t.parse(data, pw)
		if o.Err != nil {
			t.Fail("error", "parse returned %v", o.Err)
		}
		checkRaw(t, o.Raw, want)
	}
	return c
}

func hasRefs(v V) bool {
	switch x := v.(type) {
	case Ref:
		return true
	case Arr:
		for _, e := range x {
			if hasRefs(e) {
				return true
			}
		}
	case Dict:
		for _, e := range x {
			if hasRefs(e.V) {
				return true
			}
		}
	}
	return false
}
