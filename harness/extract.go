package main

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

const zeroHash = "00000000000000000000000000000000"

// Expect is what extraction has to produce, computed while the document is made.
type Expect struct {
	Text     []string // one block per page tree, each exact
	URLs     []string
	JS       []string
	Commands []string
	Files    []string // lines of files.txt
	Dumps    map[string][]byte
}

func (e *Expect) dump(path string, data []byte) {
	h := md5.Sum(data)
	x := hex.EncodeToString(h[:])
	e.Files = append(e.Files, x+":"+path)
	if e.Dumps == nil {
		e.Dumps = map[string][]byte{}
	}
	e.Dumps[x] = data
}

func withNL(x []string) []string {
	r := make([]string, len(x))
	for i := range x {
		r[i] = x[i] + "\n"
	}
	return r
}

func trimLines(b []byte) []byte {
	ls := strings.Split(string(b), "\n")
	for i := range ls {
		ls[i] = strings.TrimRight(ls[i], " ")
	}
	return []byte(strings.Join(ls, "\n"))
}

func (e *Expect) check(t *T, o *Out) {
	if o.Err != nil {
		t.Fail("error", "parse returned %v", o.Err)
	}
	if len(o.Missing) > 0 {
		t.Fail("missing", "output files missing: %v", o.Missing)
	}
	if d := sameBlocks(o.Text, e.Text); d != "" {
		t.Fail("contents.txt", "contents.txt: %s", d)
	}
	if d := sameBlocks(o.URLs, withNL(e.URLs)); d != "" {
		t.Fail("urls.txt", "urls.txt: %s", d)
	}
	if d := sameBlocks(o.JS, withNL(e.JS)); d != "" {
		t.Fail("javascript.js", "javascript.js: %s", d)
	}
	cmds := make([]string, len(e.Commands))
	for i, c := range e.Commands {
		cmds[i] = strings.TrimRight(c, " ") + "\n"
	}
	if d := sameBlocks(trimLines(o.Commands), cmds); d != "" {
		t.Fail("commands.txt", "commands.txt: %s", d)
	}
	if d := sameBlocks(o.FilesTxt, withNL(e.Files)); d != "" {
		t.Fail("files.txt", "files.txt: %s", d)
	}
	for n, want := range e.Dumps {
		got, ok := o.Files[n]
		if !ok {
			t.Fail("extracted", "extracted file %s (%d bytes) missing", n, len(want))
		}
		if d := diffBytes(got, want); d != "" {
			t.Fail("extracted", "extracted file %s: %s", n, d)
		}
	}
	for n := range o.Files {
		if _, ok := e.Dumps[n]; !ok {
			t.Fail("extracted", "unexpected file %q in the output directory", n)
		}
	}
}

// X builds a logical document with things to extract.
type X struct {
	*Builder      // its choices are those of representation
	s        *Src // choices of logical content
	fseq     int
	exp      Expect
	seq      int
	nl       int // percent of strings with line breaks
	fonts    int
	known    []*fontModel // fonts made so far
	labels   map[string]int
	tame     bool // strings that need no escaping
	deep     int
	bodies   [][]byte // files embedded so far
	names    []string // and what they are called
	paths    []string // file names to use (besides ordinary ones)
}

// newX: logic decides what the document says, rep how it is represented.
func newX(logic, rep *Src) *X {
	return &X{Builder: newBuilder(rep), s: logic, labels: map[string]int{}}
}

func (x *X) note(l string) { x.labels[l]++ }

// uniq makes a string that occurs nowhere else.
func (x *X) uniq(kind string) string {
	x.seq++
	s := x.s
	var tail string
	switch s.W(5, 3, 2) {
	case 1:
		n := s.Small(20)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + s.N(94))
		}
		tail = string(b)
	case 2:
		b := s.Raw(s.Small(20))
		for i := range b {
			if b[i] == '\n' {
				b[i] = ' '
			}
		}
		tail = strings.TrimRight(string(b), " ")
	}
	if x.tame {
		tail = ""
	}
	r := fmt.Sprintf("%s%d%s", kind, x.seq, tail)
	if s.P(4) && !x.tame && kind != "js" {
		r = pick(s, " ", "\xfe\xff", "\t ", "\x00", "\xef\xbb\xbf", "%", "-", "\xff\xfe", "\r", "/", "\\") + r
	}
	if x.nl > 0 && s.P(x.nl) {
		r += "\nline2 of " + fmt.Sprint(x.seq)
	}
	return r
}

func (x *X) path() string {
	s := x.s
	if len(x.paths) > 0 && s.P(60) {
		return x.paths[s.N(len(x.paths))]
	}
	switch s.W(4, 2, 1, 1) {
	case 1:
		x.seq++
		return fmt.Sprintf("../../../x%d/%s", x.seq, pick(s, "etc/passwd", "..", "a.txt", "/abs"))
	case 2:
		x.seq++
		return fmt.Sprintf("/C/Windows\\sys%d%s", x.seq, pick(s, ":x", " y", "$(reboot)", "%s%d", "'\""))
	case 3:
		return "file:" + x.uniq("p") // a colon within
	}
	return x.uniq("file")
}

// filler adds meaningless entries.
func (x *X) filler(d Dict) Dict {
	s := x.Builder.s
	for k := s.Small(2); k > 0; k-- {
		x.fseq++
		d = append(d, KV{fmt.Sprintf("Zz%d", x.fseq), genValue(s, 1, &valOpts{maxStr: 12})})
	}
	for s.P(15) {
		d = x.decoy(s, d)
	}
	if x.fancy {
		d = permDict(s, d)
	}
	return d
}

// decoy adds an entry that looks like something to extract but has the wrong type
// or stands in the wrong place.
func (x *X) decoy(s *Src, d Dict) Dict {
	x.fseq++
	if s.Bool() {
		k := pick(s, "JS", "URI", "A", "AA", "OpenAction", "URLS", "EmbeddedFiles", "Next", "Win", "XFA", "EF")
		if d.get(k) != nil || (k == "XFA" && d.get("Type") != nil) {
			return d
		}
		vals := []V{Int(4), Null{}, Bool(true), Real("1.5"), Ref{Num: 7654320}, Name("Decoy")}
		if k != "XFA" && k != "Next" {
			vals = append(vals, Arr{}, Arr{Int(0), Name("Fit")})
		}
		if k != "JS" && k != "URI" {
			vals = append(vals, Str("decoy"))
		}
		return append(d, KV{k, pick(s, vals...)})
	}
	text := Str(fmt.Sprintf("decoy%d", x.fseq))
	var v Dict
	switch s.N(7) {
	case 0:
		v = Dict{{"F", text}}
	case 1:
		v = Dict{{"UF", text}, {"F", text}, {"EF", Int(1)}}
	case 2:
		v = Dict{{"Subtype", Name(pick(s, "Link", "Movie", "fileattachment"))}, {"FS", text}}
	case 3:
		v = Dict{{"S", Name("Span")}, {"F", text}, {"P", text}}
	case 4:
		v = Dict{{"Base", text}}
	case 5:
		v = Dict{{"FS", Name("File")}, {"F", text}}
	case 6:
		v = Dict{{"Win", Dict{{"F", text}, {"P", text}}}}
	}
	var w V = v
	if s.P(30) {
		w = Arr{v}
	}
	return append(d, KV{fmt.Sprintf("Zy%d", x.fseq), w})
}

func (x *X) str(v string) V { return x.maybeRef(Str(v)) }

// embedded makes the stream of an embedded file.
func (x *X) embedded(data []byte) Ref {
	d := Dict{}
	if x.s.P(70) {
		d = append(d, KV{"Type", x.maybeRef(Name("EmbeddedFile"))})
	}
	if x.s.P(40) {
		d = append(d, KV{"Params", Dict{{"Size", Int(len(data))}}})
	}
	return x.addStream(d, data)
}

// fileSpec makes a file specification and records what it yields. command is
// set in a launch action.
func (x *X) fileSpec(command, allowString bool) V {
	s := x.s
	kind := s.W(4, 4, 2)
	if command && kind == 1 {
		kind = 0
	}
	if allowString && s.P(30) {
		p := x.path()
		if command {
			x.exp.Commands = append(x.exp.Commands, p)
		}
		x.exp.Files = append(x.exp.Files, zeroHash+":"+p)
		x.note("spec-string")
		return x.str(p)
	}
	d := Dict{}
	if s.Bool() {
		d = append(d, KV{"Type", Name(pick(s, "Filespec", "F"))})
	}
	p := x.path()
	if kind == 2 {
		p = x.uniq("http://spec/")
	}
	named := true
	if kind != 1 || s.P(90) {
		switch s.W(5, 2, 2) {
		case 0:
			d = append(d, KV{"F", x.str(p)})
		case 1:
			d = append(d, KV{"UF", x.str(p)})
		case 2:
			d = append(d, KV{"F", x.str(p)}, KV{"UF", x.str(x.uniq("other"))})
		}
	} else {
		named = false
	}
	switch kind {
	case 0:
		if s.P(10) {
			d = append(d, KV{"FS", Name("Other")})
		}
		if command {
			x.exp.Commands = append(x.exp.Commands, p)
		}
		x.exp.Files = append(x.exp.Files, zeroHash+":"+p)
		x.note("spec-external")
	case 1:
		data := s.Data(3000)
		if s.N(500) == 499 {
			data = s.Expand(pick(s, 1, 1, 1, 1, 16)*s.Int(20000, 140000), nil)
			x.note("big-file")
		}
		if len(x.bodies) > 0 && s.P(20) { // the same file again
			data = pick(s, x.bodies...)
			x.note("same-file")
		} else {
			if named && len(x.names) > 0 && s.P(10) { // another file of the same name
				p = pick(s, x.names...)
				for i, e := range d {
					if e.K == "F" || e.K == "UF" && d.get("F") == nil {
						d[i].V = x.str(p)
					}
				}
				x.note("same-name")
			}
			x.bodies = append(x.bodies, data)
			if named {
				x.names = append(x.names, p)
			}
		}
		ef := Dict{}
		key := "F"
		if s.P(30) {
			key = pick(s, "UF", "DOS", "Mac", "Unix")
		}
		if s.P(4) {
			ef = append(ef, KV{pick(s, "UF", "F", "Mac", "DOS", "Unix"), pick[V](s, Null{}, Ref{Num: 7654321})})
			if ef[0].K == key {
				ef = nil
			}
		}
		ef = append(ef, KV{key, x.embedded(data)})
		if key == "F" && s.P(20) {
			ef = Dict{ef[len(ef)-1], {"UF", ef[len(ef)-1].V}}
		}
		d = append(d, KV{"EF", x.maybeRef(x.filler(ef))})
		if !named {
			p = zeroHash
		}
		x.exp.dump(p, data)
		x.note("spec-embedded")
	case 2:
		d = append(d, KV{"FS", x.maybeRef(pick[V](s, Name("URL"), Name("URL"), Name("URL"), Str("URL")))})
		x.exp.URLs = append(x.exp.URLs, p)
		x.note("spec-url")
	}
	return x.maybeRef(x.filler(d))
}

func (x *X) js() V {
	src := x.uniq("app.alert(") + ")"
	if x.s.N(400) == 399 {
		src += strings.Repeat("x", x.s.Int(1000, 140000))
		x.note("long-js")
	}
	x.exp.JS = append(x.exp.JS, src)
	if x.s.P(35) {
		x.note("js-stream")
		r := x.addStream(Dict{}, []byte(src))
		if x.s.P(15) {
			return x.add(r)
		}
		return r
	}
	x.note("js-string")
	return x.str(src)
}

// action makes an action (chain) and records what it yields.
func (x *X) action(depth int) V {
	s := x.s
	d := Dict{}
	if s.P(30) {
		d = append(d, KV{"Type", Name("Action")})
	}
	kind := s.W(4, 4, 4, 2, 1, 2)
	name := func(n string) { d = append(d, KV{"S", x.maybeRef(Name(n))}) }
	switch kind {
	case 0:
		name("URI")
		u := x.uniq("http://u/")
		if s.P(2) {
			u = ""
		}
		x.exp.URLs = append(x.exp.URLs, u)
		d = append(d, KV{"URI", x.str(u)})
		x.note("uri")
	case 1:
		name(pick(s, "JavaScript", "Rendition"))
		d = append(d, KV{"JS", x.js()})
	case 2:
		name("Launch")
		form := s.W(3, 3, 1)
		if form != 1 {
			d = append(d, KV{"F", x.fileSpec(true, true)})
		}
		if form != 0 {
			win := Dict{}
			f := x.path()
			win = append(win, KV{"F", x.str(f)})
			cmd := f
			if s.P(70) {
				p := x.uniq("-arg ")
				win = append(win, KV{"P", x.str(p)})
				cmd += " " + p
			}
			if s.P(30) {
				win = append(win, KV{"O", Str("open")}, KV{"D", Str("c:\\")})
			}
			x.exp.Commands = append(x.exp.Commands, cmd)
			x.exp.Files = append(x.exp.Files, zeroHash+":"+f)
			d = append(d, KV{"Win", x.maybeRef(x.filler(win))})
			x.note("launch-win")
		}
		x.note("launch")
	case 3:
		name(pick(s, "GoToR", "ImportData", "SubmitForm", "Thread", "GoToE"))
		d = append(d, KV{"F", x.fileSpec(false, true)})
		x.note("file-action")
	case 4:
		name(pick(s, "GoTo", "Named", "Hide"))
		d = append(d, KV{"D", Arr{Int(0), Name("Fit")}})
	case 5:
		name("GoToR")
		d = append(d, KV{"F", x.fileSpec(false, true)}, KV{"NewWindow", Bool(true)})
	}
	if depth > 3 { // one of a long chain
		d = append(d, KV{"Next", x.action(depth - 1)})
	} else if depth > 0 && s.P(35) {
		x.note("next")
		if s.Bool() {
			d = append(d, KV{"Next", x.action(depth - 1)})
		} else {
			a := Arr{}
			for k := s.Int(1, 3); k > 0; k-- {
				a = append(a, x.action(depth-1))
			}
			d = append(d, KV{"Next", x.maybeRef(a)})
		}
	}
	return x.maybeRef(x.filler(d))
}

// many is a number of things, now and then a large one.
func (x *X) many(n int) int {
	if x.s.P(2) {
		x.note("many")
		return x.s.Int(10, 90)
	}
	return x.s.Small(n)
}

// treeDepth is the depth of a name tree, now and then a large one.
func (x *X) treeDepth(d int) int {
	if x.Builder.s.P(3) {
		return x.Builder.s.Int(5, 40)
	}
	return d
}

// nameTree distributes pairs over a random tree.
func (x *X) nameTree(pairs []V, depth int) Dict {
	s := x.Builder.s
	d := Dict{}
	n := len(pairs) / 2
	if depth <= 0 || n == 0 || depth <= 4 && !s.P(50) {
		d = append(d, KV{"Names", x.maybeRef(Arr(pairs))})
		return x.filler(d)
	}
	k := s.Int(1, 3)
	if depth > 4 {
		k = s.Int(1, 2)
	}
	kids := Arr{}
	at := 0
	for i := 0; i < k; i++ {
		to := n
		if i < k-1 {
			to = at + s.N(n-at+1)
		}
		down := depth - 1
		if i > 0 {
			down = min(down, 3)
		}
		kids = append(kids, x.add(x.nameTree(pairs[2*at:2*to], down)))
		at = to
	}
	return x.filler(append(d, KV{"Kids", x.maybeRef(kids)}))
}

// ---- fonts and page text

type fontModel struct {
	name  string
	width int
	m     map[string]string // code -> destination
	dict  V
}

func (f *fontModel) decode(b []byte) string {
	if f == nil || f.m == nil {
		return string(b)
	}
	var o strings.Builder
	for i := 0; i+f.width <= len(b); i += f.width {
		c := string(b[i : i+f.width])
		if v, ok := f.m[c]; ok {
			o.WriteString(v)
		} else {
			o.WriteString(c)
		}
	}
	return o.String()
}

func codeBytes(v, n int) string {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return string(b)
}

func addCount(b []byte, n int) []byte {
	r := append([]byte{}, b...)
	for i := len(r) - 1; i >= 0 && n > 0; i-- {
		n += int(r[i])
		r[i] = byte(n)
		n >>= 8
	}
	return r
}

// order is the order as given or any other.
func order(s *Src, n int) []int {
	if s.P(30) {
		return s.Perm(n)
	}
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

type cmapStats struct{ chars, ranges, arrays, sections, codes, carries int }

// genCMap makes a ToUnicode map and its text.
func genCMap(s *Src, size int) (*fontModel, []byte, cmapStats) {
	f := &fontModel{width: pick(s, 1, 2, 2, 3, 4), m: map[string]string{}}
	var st cmapStats
	l := &Lex{s: s, fancy: s.P(70), clean: true}
	hex := func(b string) { l.hexString([]byte(b)) }
	dest := func() []byte {
		n := pick(s, 2, 2, 2, 1, 4, 6, 3)
		if s.P(5) {
			n = s.Int(7, 40)
		}
		b := s.Raw(n)
		if s.Bool() && n >= 2 {
			b[0], b[1] = 0, byte(s.Int(32, 126))
		}
		return b
	}
	if s.P(80) {
		l.raw("/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def /CMapName /Adobe-Identity-UCS def /CMapType 2 def\n")
		l.raw("1 begincodespacerange ")
		hex(codeBytes(0, f.width))
		hex(codeBytes(1<<(8*f.width)-1, f.width))
		l.raw(" endcodespacerange\n")
	}
	limit := 1 << (8 * min(f.width, 2))
	next := s.N(limit/4 + 1) // codes are allotted upwards so that nothing is mapped twice
	if f.width > 2 && s.Bool() {
		next += s.N(1 << (8*f.width - 9))
		limit = 1 << (8 * f.width)
	}
	if s.P(15) { // codes with high leading bytes
		limit = 1 << (8 * f.width)
		next = limit/2 + s.N(limit/2)
		if s.P(20) {
			next = limit - 1 - s.N(min(300, limit/2))
		}
	}
	leap := pick(s, 0, 0, 15, 40)
	if leap > 0 && f.width > 2 {
		limit = 1 << (8 * f.width)
	}
	far := func() { // a code that differs from the last one in a higher byte
		if s.P(leap) {
			next += s.Int(1, 3) << (8 * s.N(f.width))
		}
	}
	sections := s.Small(size)
	var write []func()
	for k := 0; k < sections; k++ {
		st.sections++
		far()
		if s.Bool() {
			n := s.Int(1, 8)
			if s.P(10) {
				n = s.Int(1, 100)
			}
			var keys, vals []string
			for i := 0; i < n && next < limit; i++ {
				c := codeBytes(next, f.width)
				next += 1 + s.Small(9)
				far()
				v := string(dest())
				keys, vals = append(keys, c), append(vals, v)
				f.m[c] = v
				st.chars++
			}
			write = append(write, func() {
				l.token(fmt.Sprint(len(keys)))
				l.token("beginbfchar")
				l.raw("\n")
				for _, i := range order(s, len(keys)) {
					hex(keys[i])
					hex(vals[i])
				}
				l.token("endbfchar")
				l.raw("\n")
			})
			continue
		}
		n := s.Int(1, 5)
		type rng struct {
			lo, hi int
			arr    Arr
			dst    string
		}
		var rs []rng
		for i := 0; i < n && next < limit; i++ {
			r := rng{lo: next}
			r.hi = min(limit-1, next+s.Small(40))
			if s.P(8) {
				r.hi = min(limit-1, next+s.N(600))
			}
			next = r.hi + 1 + s.Small(5)
			far()
			if s.P(35) {
				for c := r.lo; c <= r.hi; c++ {
					v := string(dest())
					r.arr = append(r.arr, Str(v))
					f.m[codeBytes(c, f.width)] = v
				}
				st.arrays++
			} else {
				d := dest()
				// no wrap-around of the whole value
				if s.P(15) { // counting on carries over several bytes
					for j := max(1, len(d)-s.Int(1, 4)); j < len(d); j++ {
						d[j] = 255
					}
					st.carries++
				}
				if d[0] == 255 && len(d) > 1 {
					d[0] = 254
				}
				if len(d) == 1 {
					d[0] = byte(min(int(d[0]), max(0, 255-(r.hi-r.lo))))
					if r.hi-r.lo > 255 {
						d = []byte{0, 0}
					}
				}
				r.dst = string(d)
				for c := r.lo; c <= r.hi; c++ {
					f.m[codeBytes(c, f.width)] = string(addCount(d, c-r.lo))
				}
			}
			st.ranges++
			rs = append(rs, r)
		}
		write = append(write, func() {
			l.token(fmt.Sprint(len(rs)))
			l.token("beginbfrange")
			l.raw("\n")
			for _, i := range order(s, len(rs)) {
				r := rs[i]
				hex(codeBytes(r.lo, f.width))
				hex(codeBytes(r.hi, f.width))
				if r.arr != nil {
					l.token("[")
					for _, v := range r.arr {
						hex(string(v.(Str)))
					}
					l.token("]")
				} else {
					hex(r.dst)
				}
			}
			l.token("endbfrange")
			l.raw("\n")
		})
	}
	for _, i := range order(s, len(write)) {
		write[i]()
	}
	if s.P(80) {
		l.raw("\nendcmap CMapName currentdict /CMap defineresource pop end end")
	}
	st.codes = len(f.m)
	if st.chars+st.ranges == 0 {
		f.m = nil
		f.width = 1
	}
	return f, l.b.Bytes(), st
}

// font makes a font resource.
func (x *X) font() *fontModel {
	s := x.s
	x.fonts++
	d := Dict{{"Type", Name("Font")}}
	var f *fontModel
	if s.P(65) {
		var text []byte
		f, text, _ = genCMap(s, 4)
		d = append(d, KV{"ToUnicode", x.addStream(Dict{}, text)})
		x.note("font-cmap")
	} else {
		f = &fontModel{}
	}
	d = append(d, KV{"BaseFont", Name("F")})
	f.dict = x.maybeRef(x.filler(d))
	return f
}

func (x *X) fontSet() (map[string]*fontModel, V) {
	m := map[string]*fontModel{}
	fd := Dict{}
	if x.s.P(8) { // nothing is inherited by resources without fonts
		x.note("no-fonts")
		r := Dict{}
		if x.s.Bool() {
			r = append(r, KV{"ProcSet", Arr{Name("PDF")}})
		}
		if x.s.Bool() {
			r = append(r, KV{"Font", x.maybeRef(Dict{})})
		}
		return m, x.maybeRef(r)
	}
	for k := x.s.Small(3); k > 0; k-- {
		n := pick(x.s, "F1", "F2", "F3", "TT0", "A#B", "C2_0")
		if m[n] != nil {
			continue
		}
		var f *fontModel
		if len(x.known) > 0 && x.s.P(20) { // a font used elsewhere, perhaps by another name
			f = x.known[x.s.N(len(x.known))]
			x.note("font-shared")
		} else {
			f = x.font()
		}
		x.known = append(x.known, f)
		m[n] = f
		fd = append(fd, KV{n, f.dict})
	}
	r := Dict{{"Font", x.maybeRef(fd)}}
	if x.s.P(30) {
		r = append(r, KV{"ProcSet", Arr{Name("PDF"), Name("Text")}})
	}
	return m, x.maybeRef(x.filler(r))
}

// textString draws an operand for the font.
func (x *X) textString(f *fontModel) string {
	s := x.s
	if f == nil || f.m == nil {
		return string(genStr(s, 40))
	}
	var codes []string
	for c := range f.m {
		codes = append(codes, c)
	}
	sort.Strings(codes)
	var b strings.Builder
	for k := s.Small(12); k > 0; k-- {
		if s.P(85) && len(codes) > 0 {
			b.WriteString(codes[s.N(len(codes))])
		} else if s.Bool() && len(codes) > 0 {
			// close to a mapped code
			c := []byte(codes[s.N(len(codes))])
			c[s.N(len(c))] += pick(s, byte(1), 255, 128, 2)
			b.Write(c)
		} else {
			b.WriteString(string(s.Raw(f.width)))
		}
	}
	return b.String()
}

// eiRe matches what ends the data of an inline image.
var eiRe = regexp.MustCompile(`[\s\x00]EI\b`)

type contentTok struct {
	v    V
	op   string
	data []byte // verbatim bytes after the operator
}

// content makes a page's operations; text is what it shows.
func (x *X) content(fonts map[string]*fontModel) (toks []contentTok, text string) {
	s := x.s
	var names []string
	for n := range fonts {
		names = append(names, n)
	}
	sort.Strings(names)
	var cur *fontModel
	var stack []*fontModel
	op := func(name string, vs ...V) {
		for _, v := range vs {
			toks = append(toks, contentTok{v: v})
		}
		toks = append(toks, contentTok{op: name})
	}
	tf := func() {
		n := pick(s, "Nope", "F1", "F2", "F3", "TT0")
		if len(names) > 0 && s.P(90) {
			n = names[s.N(len(names))]
		}
		cur = fonts[n]
		op("Tf", Name(n), pick[V](s, Int(12), Real("9.5"), Int(0)))
	}
	noise := func(inText bool) {
		switch s.N(9) {
		case 0:
			op("Td", genInt(s), genReal(s))
		case 1:
			op("Tm", Int(1), Int(0), Int(0), Int(1), genInt(s), genInt(s))
		case 2:
			op(pick(s, "g", "G", "Tc", "Tw", "Tz", "TL", "w", "Ts"), genReal(s))
		case 3:
			op(pick(s, "T*", "EMC", "BX", "EX"))
		case 4:
			op("BDC", Name("Span"), Dict{{"ActualText", genStr(s, 10)}, {"MCID", Int(3)}, {"X", Bool(true)}})
		case 5:
			op(pick(s, "rg", "RG"), genReal(s), Int(0), Int(1))
		case 6:
			op("d", Arr{Int(3), Int(2)}, Int(0))
		case 7:
			op(pick(s, "gs", "cs", "BMC", "MP"), Name("R0"))
		case 8:
			op("TD", Int(0), Int(0))
		}
	}
	var out strings.Builder
	show := func() {
		switch s.W(4, 1, 1, 4) {
		case 0:
			v := x.textString(cur)
			op("Tj", Str(v))
			out.WriteString(cur.decode([]byte(v)) + "\n")
		case 1:
			v := x.textString(cur)
			op("'", Str(v))
			out.WriteString(cur.decode([]byte(v)) + "\n")
		case 2:
			v := x.textString(cur)
			op("\"", genInt(s), genReal(s), Str(v))
			out.WriteString(cur.decode([]byte(v)) + "\n")
		case 3:
			a := Arr{}
			all := ""
			k := s.Small(6)
			if s.P(1) {
				k = s.Int(30, 700)
				x.note("long-TJ")
			}
			for ; k > 0; k-- {
				if s.P(60) {
					v := x.textString(cur)
					a = append(a, Str(v))
					all += v
				} else {
					a = append(a, pick[V](s, genReal(s), genInt(s)))
				}
			}
			op("TJ", a)
			out.WriteString(cur.decode([]byte(all)) + "\n")
		}
		x.note("shown")
	}
	blocks := s.Small(4)
	for b := 0; b < blocks; b++ {
		for k := s.Small(3); k > 0; k-- {
			switch s.W(8, 4, 4, 2, 2, 1, 1) {
			case 6: // shows nothing outside of a text object
				switch s.N(3) {
				case 0:
					op("Tj", Str(x.textString(cur)))
				case 1:
					op("TJ", Arr{Str(x.textString(cur)), Int(-5)})
				case 2:
					op("'", Str(x.textString(cur)))
				}
				x.note("outside-text")
			case 5:
				op("BI", Name("W"), Int(3), Name("H"), Int(2), Name("BPC"), Int(8), Name("CS"), Name("G"))
				// BI comes before its entries
				bi := toks[len(toks)-1]
				copy(toks[len(toks)-8:], toks[len(toks)-9:len(toks)-1])
				toks[len(toks)-9] = bi
				if s.Bool() {
					toks = append(toks, contentTok{v: Name("IM")}, contentTok{v: Bool(true)})
				}
				data := s.Raw(s.Small(40))
				if s.Bool() {
					data = []byte(pick(s, "(", "<<", "BT (x) Tj ET", " ETBT[(", "%", "EIEI", " E I ", "<41"))
				}
				if s.P(30) { // EI that ends nothing
					data = append(data, pick(s, "xEI ", "\x01EI\n", "EIEI", " E I ", "\nEIx", "(EI)", "\x80EI\x00", "/EI ", " EI_1")...)
				}
				data = append([]byte(pick(s, " ", "\n", "\r\n", "\t")), data...)
				data = eiRe.ReplaceAll(data, []byte(" EJ"))
				end := pick(s, "\n", "\n", " ", "\r", "\r\n", "\t", "\f", "\x00")
				toks = append(toks, contentTok{op: "ID", data: append(data, end+"EI"...)})
				x.note("inline-image")
			case 0:
				noise(false)
			case 1:
				k := 1
				if s.P(2) {
					k = s.Int(5, 70)
					x.note("deep-q")
				}
				deep := k > 1
				for ; k > 0; k-- {
					op("q")
					stack = append(stack, cur)
					if deep && s.P(40) {
						tf()
					}
				}
				for deep && len(stack) > 0 && s.P(80) {
					for k = min(len(stack), s.Int(1, 20)); k > 0; k-- {
						op("Q")
						cur = stack[len(stack)-1]
						stack = stack[:len(stack)-1]
					}
					op("BT")
					show()
					op("ET")
				}
			case 2:
				k := 1
				if len(stack) > 4 {
					k = s.Int(1, len(stack))
				}
				for ; k > 0 && len(stack) > 0; k-- {
					op("Q")
					cur = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
			case 3:
				tf()
			case 4:
				op("re", Int(0), Int(0), Int(10), Int(10))
				op("f")
			}
		}
		op("BT")
		for k := s.Small(6); k > 0; k-- {
			switch s.W(2, 5, 2) {
			case 0:
				tf()
			case 1:
				show()
			case 2:
				noise(true)
			}
		}
		if b == blocks-1 && s.P(6) {
			x.note("no-end-of-text")
			break
		}
		op("ET")
	}
	return toks, out.String()
}

// contentStreams writes tokens into one or more streams.
func (x *X) contentStreams(toks []contentTok) V {
	s := x.Builder.s
	n := 1
	if s.P(40) {
		n = s.Int(1, 4)
	}
	var parts [][]byte
	at := 0
	for i := 0; i < n; i++ {
		to := len(toks)
		if i < n-1 {
			to = at + s.N(len(toks)-at+1)
		}
		l := &Lex{s: s, fancy: x.fancy && s.P(80)}
		for _, t := range toks[at:to] {
			if t.op != "" {
				l.token(t.op)
				l.raw(string(t.data))
				if !l.fancy {
					l.raw("\n")
				}
			} else {
				l.value(t.v)
			}
		}
		at = to
		part := l.b.Bytes()
		if s.P(4) { // of a size that programs like
			k := pick(s, 64, 256, 512, 1024, 4096)
			if s.P(30) {
				k = 1 + s.size(4200, 1)
			}
			part = append(bytes.Repeat([]byte(" "), (k-len(part)%k)%k), part...)
		}
		parts = append(parts, part)
	}
	var refs Arr
	for _, p := range parts {
		r := x.addStream(Dict{}, p)
		if s.P(8) {
			r = x.add(r)
		}
		if s.P(4) { // nothing to add
			refs = append(refs, pick[V](s, Null{}, Ref{Num: 7654321}, x.add(Null{})))
			x.note("contents-gap")
		}
		refs = append(refs, r)
	}
	if len(refs) == 1 && s.P(70) {
		return refs[0]
	}
	x.note("contents-array")
	return x.maybeRef(refs)
}

// page makes a leaf of the page tree.
func (x *X) page(parent *Obj, inherited map[string]*fontModel) (Ref, string) {
	s := x.s
	d := Dict{{"Type", Name("Page")}, {"Parent", parent.ref()}}
	fonts := inherited
	if s.P(65) || inherited == nil {
		var r V
		fonts, r = x.fontSet()
		d = append(d, KV{"Resources", r})
	} else {
		x.note("inherited-resources")
	}
	text := ""
	if s.P(92) {
		var toks []contentTok
		toks, text = x.content(fonts)
		d = append(d, KV{"Contents", x.contentStreams(toks)})
	}
	if s.P(15) {
		d = append(d, KV{"Annots", x.maybeRef(x.annots())})
	}
	if s.P(8) {
		d = append(d, KV{"AA", x.maybeRef(Dict{{pick(s, "O", "C"), x.action(1)}})})
	}
	return x.add(x.filler(d)), text
}

// aaKeys picks some of the events of additional actions.
func aaKeys(s *Src, names ...string) (r []string) {
	k := s.Small(4)
	for _, i := range s.Perm(len(names))[:k] {
		r = append(r, names[i])
	}
	return r
}

func (x *X) annots() Arr {
	s := x.s
	a := Arr{}
	for k := s.Int(1, 3); k > 0; k-- {
		d := Dict{{"Type", Name("Annot")}}
		switch s.W(4, 2, 2) {
		case 0:
			d = append(d, KV{"Subtype", x.maybeRef(Name("Link"))}, KV{"A", x.action(2)})
			x.note("annot-action")
		case 1:
			d = append(d, KV{"Subtype", x.maybeRef(Name("FileAttachment"))}, KV{"FS", x.fileSpec(false, true)})
			x.note("attachment")
		case 2:
			aa := Dict{}
			for _, n := range aaKeys(s, "E", "X", "D", "U", "Fo", "Bl", "PO", "PC", "PV", "PI", "K", "F", "V", "C") {
				aa = append(aa, KV{n, x.action(1)})
			}
			d = append(d, KV{"Subtype", Name("Widget")}, KV{"AA", x.maybeRef(aa)})
			x.note("additional-actions")
		}
		a = append(a, x.maybeRef(x.filler(d)))
	}
	return a
}

// pageTree makes a node with kids; the text of the leaves comes in order.
func (x *X) pageTree(parent *Obj, inherited map[string]*fontModel, depth, width int) (Ref, string) {
	s := x.s
	o := x.reserve()
	d := Dict{{"Type", Name("Pages")}}
	if parent != nil {
		d = append(d, KV{"Parent", parent.ref()})
	}
	fonts := inherited
	if s.P(35) {
		var r V
		fonts, r = x.fontSet()
		d = append(d, KV{"Resources", r})
	}
	kids := Arr{}
	text := ""
	n := s.Int(0, min(width, 3))
	if n == 0 && depth > 1 {
		n = 1
	}
	if width > 3 {
		n = s.Int(4, width)
	}
	for i := 0; i < n; i++ {
		var r Ref
		var t string
		if depth > 0 && (s.P(30) || depth > 2 && i == 0) {
			r, t = x.pageTree(o, fonts, depth-1, min(width, 3))
			x.note("nested-pages")
		} else {
			r, t = x.page(o, fonts)
		}
		kids = append(kids, r)
		text += t
	}
	d = append(d, KV{"Kids", x.maybeRef(kids)}, KV{"Count", Int(n)})
	x.define(o, x.filler(d))
	return o.ref(), text
}

// catalog assembles a whole document with everything extraction looks at.
type catOpts struct{ pages, actions, files int }

func (x *X) catalog(o catOpts) {
	s := x.s
	d := Dict{{"Type", Name("Catalog")}}
	if s.P(o.pages) {
		depth, width := 2, 3
		switch s.W(96, 2, 2) {
		case 1:
			depth, width = s.Int(3, 60), 2
			x.note("deep-pages")
		case 2:
			depth, width = 1, 45
			x.note("wide-pages")
		}
		r, text := x.pageTree(nil, nil, depth, width)
		x.exp.Text = append(x.exp.Text, text)
		d = append(d, KV{"Pages", r})
	}
	names := Dict{}
	if s.P(o.actions) {
		if s.P(50) {
			depth := 3
			if s.P(3) {
				depth = s.Int(4, 40)
				x.note("long-chain")
			}
			d = append(d, KV{"OpenAction", x.action(depth)})
			x.note("open-action")
		}
		if s.P(30) {
			aa := Dict{}
			for _, n := range aaKeys(s, "WC", "WS", "DS", "WP", "DP") {
				aa = append(aa, KV{n, x.action(2)})
			}
			d = append(d, KV{"AA", x.maybeRef(aa)})
		}
		if s.P(30) {
			base := x.uniq("http://base/")
			x.exp.URLs = append(x.exp.URLs, base)
			d = append(d, KV{"URI", x.maybeRef(Dict{{"Base", x.str(base)}})})
			x.note("base")
		}
		if s.P(30) {
			var pairs []V
			for k := x.many(5); k > 0; k-- {
				u := x.uniq("http://tree/")
				if s.P(2) {
					u = ""
				}
				x.exp.URLs = append(x.exp.URLs, u)
				pairs = append(pairs, x.str(u), x.maybeRef(Dict{{"Zt", Int(1)}}))
			}
			names = append(names, KV{"URLS", x.maybeRef(x.nameTree(pairs, x.treeDepth(2)))})
			x.note("url-tree")
		}
		if s.P(30) {
			var pairs []V
			for k := x.many(4); k > 0; k-- {
				pairs = append(pairs, x.str(x.uniq("js")), x.maybeRef(Dict{{"S", Name("JavaScript")}, {"JS", x.js()}}))
			}
			names = append(names, KV{"JavaScript", x.maybeRef(x.nameTree(pairs, x.treeDepth(2)))})
			x.note("js-tree")
		}
		if s.P(30) {
			// outline items
			first := x.add(x.filler(Dict{{"Title", Str("t")}, {"A", x.action(2)}}))
			d = append(d, KV{"Outlines", x.maybeRef(Dict{{"First", first}, {"Last", first}})})
			x.note("outline")
		}
	}
	if s.P(o.files) {
		if s.P(60) {
			var pairs []V
			for k := x.many(5); k > 0; k-- {
				pairs = append(pairs, x.str(x.uniq("name")), x.fileSpec(false, true))
			}
			names = append(names, KV{"EmbeddedFiles", x.maybeRef(x.nameTree(pairs, x.treeDepth(3)))})
			x.note("file-tree")
		}
		if s.P(40) {
			form := Dict{}
			if s.Bool() {
				data := s.Data(2000)
				form = append(form, KV{"XFA", x.addStream(Dict{}, data)})
				x.exp.dump("form.xml", data)
				x.note("xfa-stream")
			} else {
				a := Arr{}
				var all []byte
				for k := x.many(5); k > 0; k-- {
					part := s.Data(600)
					all = append(all, part...)
					r := x.addStream(Dict{}, part)
					if s.P(10) {
						r = x.add(r)
					}
					if s.P(90) {
						a = append(a, x.str(x.uniq("part")))
					}
					a = append(a, r)
					if s.P(5) {
						a = append(a, pick[V](s, Null{}, Int(1), Name("n"), Dict{}, Arr{}))
					}
				}
				form = append(form, KV{"XFA", x.maybeRef(a)})
				x.exp.dump("form.xml", all)
				x.note("xfa-array")
			}
			d = append(d, KV{"AcroForm", x.maybeRef(x.filler(form))})
		}
	}
	if s.P(20) {
		// a dictionary of nested direct containers with actions
		if s.P(20) { // deep, of direct containers
			var v V = x.maybeRef(Dict{{"A", x.action(1)}})
			for k := s.Int(1, 60); k > 0; k-- {
				if s.Bool() {
					v = Arr{v}
				} else {
					v = Dict{{pick(s, "Zc", "Zd"), v}}
				}
			}
			d = append(d, KV{"Zdeep", v})
			x.note("deep-nested")
		}
		d = append(d, KV{"PieceInfo", Dict{{"Zq", Arr{Int(1), x.maybeRef(Dict{{"A", x.action(1)}}), Arr{x.maybeRef(Dict{{"AA", Dict{{"U", x.action(0)}}}})}}}}})
		x.note("nested")
	}
	if len(names) > 0 {
		d = append(d, KV{"Names", x.maybeRef(names)})
	}
	x.doc.Root = x.add(x.filler(d))
}
