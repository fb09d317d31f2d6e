package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// Obj is one definition of an indirect object.
type Obj struct {
	Num, Gen  int
	V         V
	HasStream bool
	Plain     []byte // decoded contents
	Data      []byte // encoded contents, before encryption
	NoEnc     bool   // the encryption dictionary and xref streams are not encrypted
	StmMethod string // encryption method override of the stream
	EOL1      string // after the stream keyword
	EOL2      string // before the end marker
	NoEnd     bool   // no end markers at all (stream runs to the end of the file)
	Body      string // verbatim text between "obj" and "endobj" instead of V
}

const (
	xrefTable = iota
	xrefStream
	xrefNone
)

type Rev struct {
	Objs    []*Obj
	Frees   map[int]int // deleted number -> next generation
	Kind    int
	XrefNum int // number of the xref stream object
	Extra   Dict
	NoPrev  bool
	between []string // verbatim text before object i
}

type WOpts struct {
	fancy     bool
	clean     bool
	pad       int
	padMax    int
	plainWS   bool
	scramble  bool // physical order of everything is arbitrary
	noStart   bool
	plainXref bool // no filters on cross-reference streams
	noFill    bool // gaps in sections are not filled with free entries
	tail      string
	header    string
}

type Doc struct {
	Revs    []*Rev
	Root    V
	Crypt   *Crypt
	damage  func(ri int, es []xent) []xent // changes the entries of a section
	altered []xent                         // entries as damaged
	xobjs   map[int]*Obj                   // cross-reference streams, as objects
	Built   struct {
		Bytes   []byte
		Offsets map[*Obj]int
		Xrefs   []int // offset of the xref section of each revision
		Start   int   // value written after startxref
		StartAt int   // offset of the last startxref keyword
	}
}

func (d *Doc) latest() map[int]*Obj {
	m := map[int]*Obj{}
	for _, r := range d.Revs {
		for n := range r.Frees {
			delete(m, n)
		}
		for _, o := range r.Objs {
			m[o.Num] = o
		}
	}
	return m
}

func (d *Doc) methodOf(o *Obj) string {
	if d.Crypt == nil || o.NoEnc {
		return "None"
	}
	if o.StmMethod != "" {
		return o.StmMethod
	}
	if dd, ok := o.V.(Dict); ok {
		t := dd.get("Type")
		if r, ok := t.(Ref); ok {
			t = resolveIn(d.latest(), r).V
		}
		if n, ok := t.(Name); ok && n == "EmbeddedFile" {
			return d.Crypt.fileMethod()
		}
	}
	return d.Crypt.stmMethod()
}

// sealed is the stored form of the stream.
func (d *Doc) sealed(s *Src, o *Obj) []byte {
	m := d.methodOf(o)
	if m == "None" || m == "Identity" {
		return o.Data
	}
	return d.Crypt.encrypt(s, m, o.Num, o.Gen, o.Data)
}

func (o WOpts) lex(s *Src) *Lex {
	return &Lex{s: s, fancy: o.fancy, clean: o.clean, pad: o.pad, padMax: o.padMax, plainWS: o.plainWS}
}

// objText writes an object. sealed is its stream as stored.
func (d *Doc) objText(s *Src, w WOpts, o *Obj, stored []byte) []byte {
	l := w.lex(s)
	if d.Crypt != nil && !o.NoEnc {
		m := d.Crypt.strMethod()
		if m != "Identity" && m != "None" {
			l.enc = func(b []byte) []byte { return d.Crypt.encrypt(s, m, o.Num, o.Gen, b) }
		}
	}
	l.raw(fmt.Sprint(o.Num))
	l.kw(fmt.Sprint(o.Gen))
	l.kw("obj")
	if o.Body != "" {
		l.raw(o.Body)
		return l.b.Bytes()
	}
	l.value(o.V)
	if o.HasStream {
		l.kw("stream")
		l.raw(o.EOL1)
		l.b.Write(stored)
		if o.NoEnd {
			return l.b.Bytes()
		}
		l.raw(o.EOL2)
		l.raw("endstream")
	}
	l.kw("endobj")
	l.raw(pickEOL(s, w))
	return l.b.Bytes()
}

func pickEOL(s *Src, w WOpts) string {
	if !w.fancy {
		return "\n"
	}
	return pick(s, "\n", "\r\n", "\r", " ", "\n\n")
}

func digitsNeeded(v int) int {
	n := 1
	for v >= 256 {
		v >>= 8
		n++
	}
	return n
}

type xent struct {
	num, off, gen int
	free          bool
}

func (d *Doc) entries(ri int, offs map[*Obj]int, xrefOff int) []xent {
	r := d.Revs[ri]
	m := map[int]xent{}
	if ri == 0 {
		m[0] = xent{0, 0, 65535, true}
	}
	for n, g := range r.Frees {
		m[n] = xent{n, 0, g, true}
	}
	for _, o := range r.Objs {
		m[o.Num] = xent{o.Num, offs[o], o.Gen, false}
	}
	if r.Kind == xrefStream {
		m[r.XrefNum] = xent{r.XrefNum, xrefOff, 0, false}
	}
	var es []xent
	for _, e := range m {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].num < es[j].num })
	// free entries form a chain
	next := 0
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].free {
			es[i].off = next
			next = es[i].num
		}
	}
	return es
}

// sections splits entries into runs; small gaps may be filled with free entries.
func sections(s *Src, es []xent, vary bool) [][]xent {
	var out [][]xent
	for _, e := range es {
		if len(out) > 0 {
			last := out[len(out)-1]
			n := last[len(last)-1].num
			if e.num == n+1 && !(vary && s.P(5)) {
				out[len(out)-1] = append(last, e)
				continue
			}
			// fill only in a first revision: a free entry would delete older objects
			if es[0].num == 0 && e.num-n < 8 && e.num > n+1 && !vary {
				for k := n + 1; k < e.num; k++ {
					last = append(last, xent{k, 0, 65535, true})
				}
				out[len(out)-1] = append(last, e)
				continue
			}
		}
		out = append(out, []xent{e})
	}
	return out
}

func (d *Doc) trailer(ri int, w WOpts, prev int) Dict {
	r := d.Revs[ri]
	size := 1
	for k := 0; k <= ri; k++ {
		for _, o := range d.Revs[k].Objs {
			size = max(size, o.Num+1)
		}
		size = max(size, d.Revs[k].XrefNum+1)
	}
	t := Dict{{"Size", Int(size)}}
	if d.Root != nil {
		t = append(t, KV{"Root", d.Root})
	}
	if prev >= 0 && !r.NoPrev {
		if w.scramble {
			t = append(t, KV{"Prev", fixedInt(prev)})
		} else {
			t = append(t, KV{"Prev", Int(prev)})
		}
	}
	if d.Crypt != nil {
		switch {
		case d.Crypt.trailerEncrypt != nil:
			t = append(t, KV{"Encrypt", d.Crypt.trailerEncrypt})
		case d.Crypt.DictNum > 0:
			t = append(t, KV{"Encrypt", Ref{d.Crypt.DictNum, d.Crypt.DictGen}})
		default:
			t = append(t, KV{"Encrypt", d.Crypt.Dict})
		}
		if d.Crypt.trailerID == nil {
			// the second part changes from one revision to the next
			second := append([]byte{}, d.Crypt.ID...)
			if len(second) > 0 {
				second[0] = 'a' + byte(len(r.Objs)%26)
			}
			t = append(t, KV{"ID", Arr{Str(d.Crypt.ID), Str(second)}})
		} else if *d.Crypt.trailerID != nil {
			t = append(t, KV{"ID", *d.Crypt.trailerID})
		}
	}
	return append(t, r.Extra...)
}

// fixedInt is a number of constant width, so that layouts do not depend on it
type fixed10 struct{}

func fixedInt(n int) V { return Kw(fmt.Sprintf("%010d", n)) }

// xrefText writes the cross-reference section of revision ri.
func (d *Doc) xrefText(s *Src, w WOpts, ri int, offs map[*Obj]int, prev, self int) []byte {
	r := d.Revs[ri]
	es := d.entries(ri, offs, self)
	if d.damage != nil {
		es = d.damage(ri, es)
		d.altered = append(d.altered, es...)
	}
	if r.Kind == xrefTable {
		var b bytes.Buffer
		b.WriteString("xref" + pick(s, "\n", "\r\n", "\r", " \n"))
		eol := pick(s, " \n", "\r\n", " \r")
		for _, sec := range sections(s, es, w.fancy || w.noFill || d.damage != nil) {
			if w.fancy && s.P(6) { // an empty subsection
				fmt.Fprintf(&b, "%d 0%s", pick(s, 0, sec[0].num), pick(s, "\n", "\r\n", " \n"))
			}
			fmt.Fprintf(&b, "%d %d%s", sec[0].num, len(sec), pick(s, "\n", "\r\n", " \n"))
			for _, e := range sec {
				k := "n"
				if e.free {
					k = "f"
				}
				fmt.Fprintf(&b, "%010d %05d %s%s", e.off, e.gen, k, eol)
			}
		}
		l := w.lex(s)
		l.plainWS = true
		l.raw("trailer")
		l.value(d.trailer(ri, w, prev))
		l.raw(pick(s, "\n", "\r\n", "\r"))
		b.Write(l.b.Bytes())
		return b.Bytes()
	}
	// cross-reference stream
	secs := sections(s, es, w.fancy || w.noFill || d.damage != nil)
	w0, w1, w2 := 1, 1, 1
	allUsed, noGen := true, true
	for _, sec := range secs {
		for _, e := range sec {
			w1 = max(w1, digitsNeeded(e.off))
			w2 = max(w2, digitsNeeded(e.gen))
			if e.free {
				allUsed = false
			}
			if e.gen != 0 {
				noGen = false
			}
		}
	}
	if w.scramble {
		w1 = 4
	}
	if w.fancy {
		if allUsed && s.Bool() {
			w0 = 0
		} else {
			w0 = pick(s, 1, 1, 2, 3)
		}
		w1 += s.Small(4)
		if noGen && s.Bool() {
			w2 = 0
		} else {
			w2 += s.N(3)
		}
	}
	if w.fancy && s.P(8) { // wider than any number needs
		w0, w1 = w0+s.N(10), w1+s.N(10)
		if w0 > 3 && s.Bool() {
			w0 = 1
		}
		if w2 > 0 {
			w2 += s.N(10)
		}
	}
	var data []byte
	put := func(v, n int) {
		for i := n - 1; i >= 0; i-- {
			if i >= 8 {
				data = append(data, 0)
			} else {
				data = append(data, byte(v>>(8*i)))
			}
		}
	}
	index := Arr{}
	for _, sec := range secs {
		if w.fancy && s.P(6) {
			index = append(index, Int(pick(s, 0, sec[0].num)), Int(0))
		}
		index = append(index, Int(sec[0].num), Int(len(sec)))
		for _, e := range sec {
			t := 1
			if e.free {
				t = 0
			}
			put(t, w0)
			put(e.off, w1)
			put(e.gen, w2)
		}
	}
	t := d.trailer(ri, w, prev)
	t = append(t, KV{"Type", Name("XRef")}, KV{"W", Arr{Int(w0), Int(w1), Int(w2)}})
	size := int(t.get("Size").(Int))
	if !(len(secs) == 1 && secs[0][0].num == 0 && len(secs[0]) == size && s.Bool()) {
		t = append(t, KV{"Index", index})
	}
	n := 0
	if !w.scramble && !w.plainXref {
		n = s.Small(2)
	}
	st, enc := encChain(s, data, n, w.fancy, true)
	f, p := chainEntries(s, st, w.fancy)
	if f != nil {
		t = append(t, KV{"Filter", f})
	}
	if p != nil {
		t = append(t, KV{"DecodeParms", p})
	}
	t = append(t, KV{"Length", Int(len(enc))})
	if w.fancy {
		t = permDict(s, t)
	}
	o := &Obj{Num: r.XrefNum, V: t, HasStream: true, NoEnc: true, EOL1: "\n", EOL2: "\n", Plain: data}
	if d.xobjs == nil {
		d.xobjs = map[int]*Obj{}
	}
	d.xobjs[o.Num] = o
	return d.objText(s, w, o, enc)
}

func permDict(s *Src, d Dict) Dict {
	if !s.Bool() {
		return d
	}
	r := Dict{}
	for _, i := range s.Perm(len(d)) {
		r = append(r, d[i])
	}
	return r
}

func startText(s *Src, w WOpts, off int) string {
	e := "\n"
	if w.fancy {
		e = pick(s, "\n", "\r\n", "\r")
	}
	return "startxref" + e + fmt.Sprint(off) + e + "%%EOF"
}

// write lays the document out.
func (d *Doc) write(s *Src, w WOpts) []byte {
	if w.header == "" {
		w.header = "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n"
	}
	d.Built.Offsets = map[*Obj]int{}
	d.Built.Xrefs = make([]int, len(d.Revs))
	d.Built.StartAt = -1
	var out bytes.Buffer
	out.WriteString(w.header)
	gap := func() {
		l := w.lex(s)
		if w.fancy {
			l.sep(false)
			out.Write(l.b.Bytes())
		}
	}
	if w.scramble {
		d.writeScrambled(s, w, &out)
		out.WriteString(w.tail)
		d.Built.Bytes = out.Bytes()
		return d.Built.Bytes
	}
	prev := -1
	for ri, r := range d.Revs {
		order := make([]int, len(r.Objs))
		for i := range order {
			order[i] = i
		}
		if w.fancy && s.Bool() {
			order = s.Perm(len(r.Objs))
		}
		// an object without end markers must be last in the file
		for k, i := range order {
			if r.Objs[i].NoEnd {
				order = append(append(append([]int{}, order[:k]...), order[k+1:]...), i)
				break
			}
		}
		for k, i := range order {
			o := r.Objs[i]
			gap()
			if k < len(r.between) {
				out.WriteString(r.between[k])
			}
			d.Built.Offsets[o] = out.Len()
			out.Write(d.objText(s, w, o, d.sealed(s, o)))
		}
		if r.Kind == xrefNone {
			continue
		}
		gap()
		self := out.Len()
		d.Built.Xrefs[ri] = self
		out.Write(d.xrefText(s, w, ri, d.Built.Offsets, prev, self))
		prev = self
		if !w.noStart {
			d.Built.StartAt = out.Len()
			out.WriteString(startText(s, w, self))
			if ri < len(d.Revs)-1 {
				out.WriteString("\n")
			}
		}
		d.Built.Start = self
	}
	if w.tail != "" {
		out.WriteString(w.tail)
	} else {
		out.WriteString(pick(s, "\n", "", "\r\n", "\r", " \n\n"))
	}
	d.Built.Bytes = out.Bytes()
	return d.Built.Bytes
}

// writeScrambled puts objects and xref sections of all revisions in an
// arbitrary physical order (only the start pointer comes last).
func (d *Doc) writeScrambled(s *Src, w WOpts, out *bytes.Buffer) {
	type chunk struct {
		o    *Obj
		rev  int
		text []byte
		seed uint64
	}
	var cs []*chunk
	for ri, r := range d.Revs {
		for _, o := range r.Objs {
			cs = append(cs, &chunk{o: o, text: d.objText(s, w, o, d.sealed(s, o))})
		}
		if r.Kind != xrefNone {
			cs = append(cs, &chunk{rev: ri, seed: uint64(s.N(1 << 30))})
		}
	}
	perm := s.Perm(len(cs))
	var prevs []int = make([]int, len(d.Revs))
	// two rounds: sizes of the sections do not depend on the offsets
	for round := 0; round < 2; round++ {
		pos := out.Len()
		for _, i := range perm {
			c := cs[i]
			if c.o != nil {
				d.Built.Offsets[c.o] = pos
			} else {
				prev := -1
				for k := c.rev - 1; k >= 0; k-- {
					if d.Revs[k].Kind != xrefNone {
						prev = prevs[k]
						break
					}
				}
				c.text = d.xrefText(NewSrc(c.seed, "xref", 0), w, c.rev, d.Built.Offsets, prev, pos)
				prevs[c.rev] = pos
				d.Built.Xrefs[c.rev] = pos
			}
			pos += len(c.text) + 1
		}
	}
	// final round with all offsets known
	pos := out.Len()
	start := -1
	for _, i := range perm {
		c := cs[i]
		if c.o == nil {
			prev := -1
			for k := c.rev - 1; k >= 0; k-- {
				if d.Revs[k].Kind != xrefNone {
					prev = prevs[k]
					break
				}
			}
			c.text = d.xrefText(NewSrc(c.seed, "xref", 0), w, c.rev, d.Built.Offsets, prev, pos)
			if prevs[c.rev] != pos {
				panic("scrambled layout is not stable")
			}
		}
		out.Write(c.text)
		out.WriteByte('\n')
		pos += len(c.text) + 1
	}
	for k := range d.Revs {
		if d.Revs[k].Kind != xrefNone {
			start = prevs[k]
		}
	}
	if start >= 0 && !w.noStart {
		d.Built.StartAt = out.Len()
		d.Built.Start = start
		out.WriteString(startText(s, w, start) + "\n")
	}
}

var objMarker = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)

// clean reports whether only the intended texts look like object headers or
// cross-reference sections; other files are outside the domain of the checks.
func (d *Doc) unambiguous() bool {
	n := 0
	starts := map[int]bool{}
	for _, r := range d.Revs {
		for _, o := range r.Objs {
			starts[d.Built.Offsets[o]] = true
		}
	}
	for ri, r := range d.Revs {
		if r.Kind == xrefStream {
			starts[d.Built.Xrefs[ri]] = true
		}
		if r.Kind == xrefTable {
			n++
		}
	}
	b := d.Built.Bytes
	at := 0
	found := 0
	for {
		m := objMarker.FindIndex(b[at:])
		if m == nil {
			break
		}
		if !starts[at+m[0]] {
			return false
		}
		found++
		at += m[1]
	}
	if found != len(starts) {
		return false
	}
	if bytes.Count(b, []byte("xref")) != n+bytes.Count(b, []byte("startxref")) {
		return false
	}
	return true
}

func (d *Doc) describe() string {
	var b strings.Builder
	for i, r := range d.Revs {
		fmt.Fprintf(&b, "rev%d(%s %d objs", i, []string{"table", "xrefstream", "noxref"}[r.Kind], len(r.Objs))
		if len(r.Frees) > 0 {
			fmt.Fprintf(&b, " %d frees", len(r.Frees))
		}
		b.WriteString(") ")
	}
	if d.Crypt != nil {
		b.WriteString("encrypted " + d.Crypt.String())
	}
	return b.String()
}

// ---- building documents

type Builder struct {
	s         *Src
	doc       *Doc
	rev       *Rev
	next      int
	mode      int // 0 dense, 1 gaps, 2 sparse
	gens      int // percent of objects with a generation
	block     []int
	fancy     bool
	indir     int // percent of values made indirect by maybeRef
	crypts    bool
	chainN    int // most filters per stream
	noPred    bool
	cryptOver int // percent of streams with a crypt filter of their own
}

func newBuilder(s *Src) *Builder {
	b := &Builder{s: s, doc: &Doc{}, next: 1, fancy: true, indir: 25, chainN: 2}
	b.mode = s.W(6, 3, 1)
	if s.P(20) {
		b.gens = 40
	}
	b.newRev(s.W(3, 2))
	return b
}

func (b *Builder) newRev(kind int) *Rev {
	r := &Rev{Kind: kind, Frees: map[int]int{}}
	b.doc.Revs = append(b.doc.Revs, r)
	b.rev = r
	if kind == xrefStream {
		r.XrefNum = b.newNum()
	}
	return r
}

func (b *Builder) newNum() int {
	if len(b.block) == 0 {
		switch b.mode {
		case 0:
			b.block = []int{b.next}
			b.next++
			if b.s.P(10) { // a block in random order
				for i := 0; i < 5; i++ {
					b.block = append(b.block, b.next)
					b.next++
				}
				p := b.s.Perm(len(b.block))
				nb := make([]int, len(p))
				for i := range p {
					nb[i] = b.block[p[i]]
				}
				b.block = nb
			}
		case 1:
			b.next += b.s.Small(9)
			b.block = []int{b.next}
			b.next++
		case 2:
			b.next += b.s.N(60000)
			b.block = []int{b.next}
			b.next++
		}
	}
	n := b.block[0]
	b.block = b.block[1:]
	return n
}

func (b *Builder) gen() int {
	if b.gens > 0 && b.s.P(b.gens) {
		return pick(b.s, 1, 2, 255, 256, 65534, b.s.Int(1, 65535))
	}
	return 0
}

// reserve allots a number for an object that is defined later
func (b *Builder) reserve() *Obj {
	o := &Obj{Num: b.newNum(), Gen: b.gen()}
	return o
}

func (o *Obj) ref() Ref { return Ref{o.Num, o.Gen} }

func (b *Builder) define(o *Obj, v V) Ref {
	o.V = v
	b.rev.Objs = append(b.rev.Objs, o)
	return o.ref()
}

func (b *Builder) add(v V) Ref {
	o := b.reserve()
	return b.define(o, v)
}

// maybeRef makes a value indirect now and then, possibly through a chain.
func (b *Builder) maybeRef(v V) V {
	if b.indir > 0 && b.s.P(b.indir) {
		r := b.add(v)
		if b.s.P(15) {
			return b.add(r)
		}
		return r
	}
	return v
}

// setStream encodes plain for o with a random chain and completes its dictionary.
func (b *Builder) setStream(o *Obj, d Dict, plain []byte) Ref {
	n := 0
	if b.chainN > 0 {
		n = b.s.Small(b.chainN)
	}
	st, enc := encChain(b.s, plain, n, b.fancy, !b.noPred)
	if c := b.doc.Crypt; c != nil && c.V == 4 && b.s.P(b.cryptOver) {
		e := &encStage{filter: "Crypt"}
		names := append([]string{"Identity", ""}, c.cfOrder...)
		n := names[b.s.N(len(names))]
		o.StmMethod = c.method(n)
		if n != "" || b.s.P(30) {
			e.parms = Dict{}
			if b.s.Bool() {
				e.parms = append(e.parms, KV{"Type", Name("CryptFilterDecodeParms")})
			}
			if n != "" {
				e.parms = append(e.parms, KV{"Name", Name(n)})
			}
		}
		st = append([]*encStage{e}, st...)
	}
	f, p := chainEntries(b.s, st, b.fancy)
	if f != nil {
		d = append(d, KV{"Filter", b.deepRef(f)})
	}
	if p != nil {
		d = append(d, KV{"DecodeParms", b.deepRef(p)})
	}
	return b.rawStream(o, d, enc, plain)
}

// deepRef makes a value or its elements indirect now and then.
func (b *Builder) deepRef(v V) V {
	switch x := v.(type) {
	case Arr:
		r := Arr{}
		for _, e := range x {
			r = append(r, b.deepRef(e))
		}
		v = r
	case Dict:
		r := Dict{}
		for _, e := range x {
			r = append(r, KV{e.K, b.deepRef(e.V)})
		}
		v = r
	}
	if isNull(v) {
		return v
	}
	if b.indir > 0 && b.s.P(max(1, b.indir/3)) {
		return b.add(v)
	}
	return v
}

// rawStream stores enc as the stream of o; the length is completed from the
// stored size, which depends on the encryption.
func (b *Builder) rawStream(o *Obj, d Dict, enc, plain []byte) Ref {
	o.HasStream, o.Data, o.Plain = true, enc, plain
	o.EOL1 = pick(b.s, "\n", "\r\n")
	o.EOL2 = pick(b.s, "\n", "\r\n", "\r", "")
	o.V = d
	size := len(enc)
	switch b.doc.methodOf(o) {
	case "AESV2":
		size = 16 + len(enc) + 16 - len(enc)%16
	}
	d = append(d, KV{"Length", b.maybeRef(Int(size))})
	if b.fancy {
		d = permDict(b.s, d)
	}
	return b.define(o, d)
}

func (b *Builder) addStream(d Dict, plain []byte) Ref {
	return b.setStream(b.reserve(), d, plain)
}

// encrypt the document; must be called before any stream is added.
func (b *Builder) setCrypt(c *Crypt) {
	b.doc.Crypt = c
	if b.s.Bool() {
		o := &Obj{Num: b.newNum(), NoEnc: true}
		o.Gen = b.gen()
		c.DictNum, c.DictGen = o.Num, o.Gen
		o.V = c.Dict
		b.rev.Objs = append(b.rev.Objs, o)
		if c.trailerEncrypt == nil && b.s.P(8) { // through another reference
			c.trailerEncrypt = b.add(o.ref())
			b.rev.Objs[len(b.rev.Objs)-1].NoEnc = true
		}
	}
}
