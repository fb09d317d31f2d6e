package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{ID: "C09", Quick: 70000, Thorough: 1050000,
		Rule: "A case is a history of 1 to 22 (mostly up to 7) revisions that add, redefine, delete and re-add objects, each recorded by a table or a stream (random widths, subsections, filters), laid out in order or in arbitrary physical order, with or without decoy object definitions in strings, streams and comments; every object number is then read and compared with the last revision's definition. Non-trivial: at least 2 revisions and at least one redefinition or deletion.",
		Gen:  genC09})
	register(&Prop{ID: "C10", Quick: 80000, Thorough: 1200000,
		Rule: "A case is a document whose cross-references are removed, shifted, altered, incomplete, cut off or unreachable; every object written in the file must still be read (object by object, or by comparing the extraction with what was put in). Non-trivial: the damage concerns at least 2 objects.",
		Gen:  genC10})
}

func (d *Doc) maxNum() int {
	m := 0
	for _, r := range d.Revs {
		for _, o := range r.Objs {
			m = max(m, o.Num)
		}
		m = max(m, r.XrefNum)
	}
	return m
}

// checkGone expects an object that is not defined.
func checkGone(t *T, p *pdf.Parser, n int) {
	g := p.GetObject(n)
	if g == nil {
		t.Fail("gone", "object %d: nil", n)
	}
	if d := diff(g.Value, Null{}); d != "" {
		t.Fail("gone", "object %d is deleted or was never defined: %s", n, d)
	}
	if g.Stream != nil {
		t.Fail("gone", "object %d is deleted or was never defined but has a stream", n)
	}
}

// history adds revisions that change objects at random.
func history(b *Builder, s *Src, revs int, vo *valOpts) (changes, deletes, readds int) {
	live := map[int]*Obj{}
	freeGen := map[int]int{}
	for _, o := range b.rev.Objs {
		live[o.Num] = o
	}
	for k := 1; k < revs; k++ {
		b.newRev(s.W(3, 2))
		touched := map[int]bool{}
		for j := s.Int(1, 6); j > 0; j-- {
			var nums []int
			for n := range live {
				nums = append(nums, n)
			}
			sortInts(nums)
			def := func(o *Obj) {
				before := len(b.rev.Objs)
				if s.P(35) {
					b.setStream(o, genDict(s, 1, vo, s.Small(3)), s.Data(600))
				} else {
					b.define(o, genValue(s, 3, vo))
				}
				for _, x := range b.rev.Objs[before:] { // includes helper objects
					touched[x.Num] = true
					live[x.Num] = x
				}
			}
			switch s.W(4, 2, 2, 2) {
			case 0: // redefine
				if len(nums) == 0 {
					continue
				}
				n := nums[s.N(len(nums))]
				if touched[n] || live[n].NoEnc || usedInStream(b.doc, n) {
					continue
				}
				def(&Obj{Num: n, Gen: live[n].Gen})
				changes++
			case 1: // delete
				if len(nums) == 0 {
					continue
				}
				n := nums[s.N(len(nums))]
				if touched[n] || live[n].NoEnc || usedInStream(b.doc, n) || live[n].Gen >= 65535 {
					continue
				}
				b.rev.Frees[n] = live[n].Gen + 1
				freeGen[n] = live[n].Gen + 1
				touched[n] = true
				delete(live, n)
				deletes++
			case 2: // re-add
				var fs []int
				for n := range freeGen {
					fs = append(fs, n)
				}
				sortInts(fs)
				if len(fs) == 0 {
					continue
				}
				n := fs[s.N(len(fs))]
				if touched[n] {
					continue
				}
				g := freeGen[n]
				delete(freeGen, n)
				def(&Obj{Num: n, Gen: g})
				readds++
			case 3: // new
				def(b.reserve())
			}
		}
	}
	return
}

func genC09(s *Src) *Case {
	b := newBuilder(s)
	b.indir = pick(s, 10, 0, 30)
	if s.P(20) {
		b.setCrypt(genCrypt(s, true))
	}
	vo := &valOpts{maxStr: 40}
	vo.refs = func(s *Src) Ref { return Ref{s.Int(1, max(2, b.next)), 0} }
	for k := s.Int(1, 8); k > 0; k-- {
		if s.P(30) {
			b.addStream(genDict(s, 1, vo, s.Small(3)), s.Data(600))
		} else {
			b.add(genValue(s, 3, vo))
		}
	}
	revs := s.Int(1, 7)
	if s.P(5) {
		revs = s.Int(8, 22)
	}
	ch, del, re := history(b, s, revs, vo)
	latest := b.doc.latest()
	// decoys for numbers that some cross-reference mentions
	decoys := 0
	known := map[int]bool{}
	for _, r := range b.doc.Revs {
		for _, o := range r.Objs {
			known[o.Num] = true
		}
	}
	if s.P(40) {
		var nums []int
		for n := range known {
			nums = append(nums, n)
		}
		sortInts(nums)
		mk := func() string {
			n := nums[s.N(len(nums))]
			g := 0
			if o := latest[n]; o != nil {
				g = o.Gen
			}
			return fmt.Sprintf("%d %d obj%s", n, g, pick(s, " (evil) endobj", "\n<</Evil true>>\nendobj\n", "[", " <</Length 3>>stream\nabc\nendstream endobj ", " null"))
		}
		for _, r := range b.doc.Revs {
			for _, o := range r.Objs {
				if s.P(20) {
					r.between = append(r.between, "%"+strings.Map(func(c rune) rune {
						if c == '\n' {
							return ' '
						}
						return c
					}, mk())+"\n")
					decoys++
				} else {
					r.between = append(r.between, "")
				}
				if d, ok := o.V.(Dict); ok && !o.NoEnc && s.P(20) && !d.has("Zdecoy") {
					o.V = append(append(Dict{}, d...), KV{"Zdecoy", Str(mk())})
					decoys++
				}
			}
		}
		// and in the contents of a stream
		if s.Bool() {
			data := []byte("q\n" + mk() + "\n" + mk())
			o := b.reserve()
			b.chainN = 0
			b.setStream(o, Dict{}, data)
			for _, o := range b.rev.Objs {
				known[o.Num] = true
			}
			latest = b.doc.latest()
			decoys++
		}
	}
	w := WOpts{fancy: s.P(80), scramble: s.P(20)}
	data := b.doc.write(s, w)
	if decoys == 0 && !b.doc.unambiguous() {
		return discard()
	}
	if bytes.Count(data, []byte("xref")) != xrefWords(b.doc, data) {
		return discard()
	}
	pw := ""
	if b.doc.Crypt != nil {
		pw = string(b.doc.Crypt.User)
	}
	var gone []int
	for n := range known {
		if latest[n] == nil {
			gone = append(gone, n)
		}
	}
	sortInts(gone)
	xnums := map[int]bool{}
	for _, r := range b.doc.Revs {
		xnums[r.XrefNum] = true
	}
	// numbers of texts that look like definitions may be taken for objects
	looks := map[int]bool{}
	for _, m := range objMarker.FindAll(data, -1) {
		n, _ := strconv.Atoi(string(m[:len(m)-len(bytes.TrimLeft(m, "0123456789"))]))
		looks[n] = true
	}
	for k := 0; k < 3; k++ {
		n := s.N(b.doc.maxNum() + 20)
		if !known[n] && !xnums[n] && !looks[n] {
			gone = append(gone, n)
		}
	}
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: revs >= 2 && ch+del > 0}
	c.Desc = fmt.Sprintf("%s; %d redefined, %d deleted, %d added again, %d decoys, scrambled %v", b.doc.describe(), ch, del, re, decoys, w.scramble)
	if ch > 0 {
		c.label("redefined")
	}
	if del > 0 {
		c.label("deleted")
	}
	if re > 0 {
		c.label("re-added")
	}
	if decoys > 0 {
		c.label("decoys")
	}
	if w.scramble {
		c.label("scrambled")
	}
	objs := sortedObjs(latest)
	order := s.Perm(len(objs))
	c.Run = func(t *T) {
		p, err := load(data, pw)
		if err != nil {
			t.Fail("load", "%v", err)
		}
		for _, i := range order {
			checkObj(t, p, objs[i], "")
		}
		for _, n := range gone {
			checkGone(t, p, n)
		}
	}
	return c
}

// xrefWords is the number of times xref has to occur.
func xrefWords(d *Doc, data []byte) int {
	n := bytes.Count(data, []byte("startxref"))
	for _, r := range d.Revs {
		if r.Kind == xrefTable {
			n++
		}
	}
	return n
}

var headerRe = regexp.MustCompile(`^([\s\x00]|(%[^\r\n]*))*(\d+)([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)

// headerAt reports the object header at an offset (after white space).
func headerAt(data []byte, off int) (num, pos int, ok bool) {
	if off < 0 || off >= len(data) {
		return
	}
	m := headerRe.FindSubmatchIndex(data[off:])
	if m == nil {
		return
	}
	num, _ = strconv.Atoi(string(data[off+m[6] : off+m[7]]))
	return num, off + m[6], true
}

var sectionRe = regexp.MustCompile(`^([\s\x00]|(%[^\r\n]*))*xref`)

// sectionAt reports whether a cross-reference section follows an offset.
func (d *Doc) sectionAt(data []byte, off, shift int) bool {
	if off < 0 || off >= len(data) {
		return false
	}
	if sectionRe.Match(data[off:]) {
		return true
	}
	m := headerRe.FindIndex(data[off:])
	for ri, r := range d.Revs {
		if m != nil && r.Kind == xrefStream {
			// also when the offset is amid the digits of the number
			at := shift + d.Built.Xrefs[ri]
			if h := headerRe.FindIndex(data[at:]); h != nil && at+h[1] == off+m[1] {
				return true
			}
		}
	}
	return false
}

func genC10(s *Src) *Case {
	if s.P(35) {
		return genC10Extract(s)
	}
	b := newBuilder(s)
	b.indir = pick(s, 10, 0, 30)
	const (
		noXref = iota
		noStart
		wrongStart
		shift
		altered
		dropped
		cut
		garbled
	)
	kind := s.N(8)
	if kind >= wrongStart && kind <= dropped && s.P(15) {
		b.setCrypt(genCrypt(s, true))
	}
	vo := &valOpts{maxStr: 40}
	vo.refs = func(s *Src) Ref { return Ref{s.Int(1, max(2, b.next)), 0} }
	for k := s.Int(1, 8); k > 0; k-- {
		if s.P(30) {
			b.addStream(genDict(s, 1, vo, s.Small(3)), s.Data(600))
		} else {
			b.add(genValue(s, 3, vo))
		}
	}
	switch {
	case kind <= shift:
		history(b, s, s.Int(1, 4), vo)
	default:
		for k := s.Small(2); k > 0; k-- { // revisions that only add
			b.newRev(s.W(3, 2))
			for j := s.Int(1, 3); j > 0; j-- {
				b.add(genValue(s, 2, vo))
			}
		}
	}
	broken := map[int]bool{}
	streams := false
	for _, r := range b.doc.Revs {
		streams = streams || r.Kind == xrefStream && kind != noXref
	}
	// (an object with an open end can take up the dictionary of a cross-reference
	// stream behind it, and is then one itself)
	if kind != garbled && !streams && s.P(50) { // malformed objects among the others
		for _, r := range b.doc.Revs {
			for k := s.Small(3); k > 0; k-- {
				o := b.reserve()
				o.Body = "\n" + pick(s, brokenBodies...)
				if s.P(80) {
					o.Body += "\nendobj\n"
				}
				broken[o.Num] = true
				i := s.N(len(r.Objs) + 1)
				r.Objs = append(r.Objs[:i:i], append([]*Obj{o}, r.Objs[i:]...)...)
			}
		}
	}
	w := WOpts{fancy: s.P(80)}
	if kind == noXref {
		for _, r := range b.doc.Revs {
			r.Kind = xrefNone
		}
		w.noStart = true
	}
	w.noStart = w.noStart || kind == noStart
	desc := ""
	touched := 0
	if kind == altered || kind == dropped {
		pct := pick(s, 30, 100, 60)
		b.doc.damage = func(ri int, es []xent) []xent {
			r := b.doc.Revs[ri]
			var out []xent
			for _, e := range es {
				if !e.free && e.num != r.XrefNum && s.P(pct) && !b.doc.Crypt.uses(e.num) {
					touched++
					if kind == dropped {
						continue
					}
					wrong := false
					switch s.N(5) {
					case 0:
						e.off = 0
					case 1:
						e.off = max(0, e.off+pick(s, -1, 1, 2, 5, -3, 10, -20))
					case 2:
						e.off = s.N(3000)
					case 3:
						e.off = pick(s, 99999999, 9999999, 1234567)
						wrong = true
					case 4:
						var offs []int
						for _, o := range r.Objs {
							offs = append(offs, b.doc.Built.Offsets[o])
						}
						e.off = offs[s.N(len(offs))]
						for _, o := range r.Objs {
							wrong = wrong || b.doc.Built.Offsets[o] == e.off && o.Num != e.num
						}
					}
					if wrong && s.P(30) { // nothing in the entry is right
						e.gen = s.Int(0, 65535)
					}
				}
				out = append(out, e)
			}
			return out
		}
	}
	if kind == cut {
		w.plainXref = true
	}
	// an older section that calls an object of a lost one free would be right about it
	w.noFill = kind >= altered
	if s.P(40) { // other text between the objects
		junk := []string{"endobj\n", "<<\n", "(\n", "((\n", "[ ]\n", "stream\n", "%PDF-1.4\n", "\xff\xfe\x00 \x01\n", "12 0 ob\n", "trailer\n", "endstream\n", "%%EOF\n", "7 0 R\n", ">>\n", "12 13 14\n", "/Name\n", "% a (comment\n"}
		for _, r := range b.doc.Revs {
			for range r.Objs {
				if s.P(30) {
					r.between = append(r.between, "\n"+pick(s, junk...))
				} else {
					r.between = append(r.between, "")
				}
			}
		}
		desc += "junk between objects; "
	}
	data := b.doc.write(s, w)
	if !b.doc.unambiguous() {
		return discard()
	}
	latest := b.doc.latest()
	multi := false
	seen := map[int]bool{}
	for _, r := range b.doc.Revs {
		for _, o := range r.Objs {
			multi = multi || seen[o.Num]
			seen[o.Num] = true
		}
	}
	gone := map[int]bool{}
	for n := range seen {
		if latest[n] == nil {
			gone[n] = true
		}
	}
	switch kind {
	case noXref:
		// last definition in the file, deleted objects are back
		at := map[int]int{}
		latest = map[int]*Obj{}
		for _, r := range b.doc.Revs {
			for _, o := range r.Objs {
				if off := b.doc.Built.Offsets[o]; latest[o.Num] == nil || off > at[o.Num] {
					latest[o.Num], at[o.Num] = o, off
				}
			}
		}
		gone = nil
		touched = len(latest)
	case noStart:
		touched = len(latest)
	case wrongStart:
		off := pick(s, 0, 1, s.N(len(data)), s.N(len(data)), len(data)-1, len(data)+s.N(1000), 1<<40)
		d2, ok := replaceStart(b.doc, data, fmt.Sprint(off))
		if !ok {
			return discard()
		}
		desc += fmt.Sprintf("startxref %d instead of %d; ", off, b.doc.Built.Start)
		data = d2
		if b.doc.sectionAt(data, off, 0) {
			return discard() // an older section
		}
		touched = 2
	case shift:
		n := pick(s, 1, 2, 7, 1000, s.Int(1, 200))
		pre := "% " + strings.Repeat("-", max(0, n-3)) + "\n"
		pre = pre[:min(len(pre), max(n, 3))]
		for ri, r := range b.doc.Revs {
			for _, e := range b.doc.entries(ri, b.doc.Built.Offsets, b.doc.Built.Xrefs[ri]) {
				if e.free {
					continue
				}
				if m, pos, ok := headerAt(append([]byte(pre), data...), e.off); ok && m == e.num && pos != e.off+len(pre) {
					return discard() // finds another definition, or something that looks like one
				}
			}
			if r.Kind != xrefNone && b.doc.sectionAt(append([]byte(pre), data...), b.doc.Built.Xrefs[ri], len(pre)) {
				return discard() // an older section
			}
		}
		data = append([]byte(pre), data...)
		desc += fmt.Sprintf("everything is %d bytes later; ", len(pre))
		touched = len(latest)
	case altered:
		for _, r := range b.doc.altered {
			if m, pos, ok := headerAt(data, r.off); ok && m == r.num && pos != b.doc.offsetOf(r.num) {
				return discard()
			}
		}
	case cut:
		last := len(b.doc.Revs) - 1
		from := b.doc.Built.Xrefs[last]
		at := from + s.N(len(data)-from)
		if b.doc.Revs[last].Kind == xrefStream && s.Bool() {
			// within the header or dictionary
			at = from + s.N(min(len(data)-from, 120))
		}
		data = data[:at]
		desc += fmt.Sprintf("cut at %d, %d bytes into the last cross-reference; ", at, at-from)
		touched = len(b.doc.Revs[last].Objs)
	case garbled:
		// one word of a cross-reference section is unreadable
		ri := s.N(len(b.doc.Revs))
		at := b.doc.Built.Xrefs[ri]
		words := []string{"xref", "trailer", "0 1", "/Prev", "/Size"}
		if b.doc.Revs[ri].Kind == xrefStream {
			words = []string{" obj", "XRef", "stream", "/W", "endobj"}
		}
		word := pick(s, words...)
		end := len(data)
		if ri+1 < len(b.doc.Revs) {
			for _, o := range b.doc.Revs[ri+1].Objs {
				end = min(end, b.doc.Built.Offsets[o])
			}
		}
		i := bytes.Index(data[at:end], []byte(word))
		if i < 0 {
			return discard()
		}
		data = append([]byte{}, data...)
		for k := range word {
			data[at+i+k] = pick(s, byte('?'), ' ', 'Q', '0', 'f', '9')
			if word == "0 1" { // (not another number, which would call that object free)
				data[at+i+k] = pick(s, byte('?'), 'Q')
			}
		}
		desc += fmt.Sprintf("%q of the cross-reference of revision %d became %q; ", word, ri, data[at+i:at+i+len(word)])
		touched = len(b.doc.Revs[ri].Objs)
	}
	pw := ""
	if b.doc.Crypt != nil {
		pw = string(b.doc.Crypt.User)
	}
	name := []string{"no-xref", "no-startxref", "wrong-startxref", "shifted", "altered", "dropped", "cut", "garbled"}[kind]
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: touched >= 2}
	c.Desc = fmt.Sprintf("%s: %s %s", name, desc, b.doc.describe())
	c.label(name)
	if b.doc.Crypt != nil {
		c.label("encrypted")
	}
	objs := sortedObjs(latest)
	c.Run = func(t *T) {
		p, err := load(data, pw)
		if err != nil {
			t.Fail("load", "%v", err)
		}
		for _, o := range objs {
			if broken[o.Num] {
				if got := p.GetObject(o.Num); got == nil || got.Number != o.Num || got.Generation != o.Gen {
					t.Fail("broken-object", "the malformed object %d %d is not read", o.Num, o.Gen)
				}
				continue
			}
			checkObj(t, p, o, "")
		}
		for n := range gone {
			checkGone(t, p, n)
		}
	}
	return c
}

// brokenBodies are contents of objects that are cut short or malformed.
var brokenBodies = []string{"<</A 1", "<</A [1 2", "<</A/B/C(abc)", "(abc", "<</A (abc", "[1 2 3", "[[<<", "<41", "<</A <41", "<< 1 2 3", "",
	"<</A 1>>\nstream\nabc", "<</A/B/Length 3>>\nstream\nabc", "<</Length 30000>>\nstream\nabc", "<</A 1>>>>", "] ] >>", "endstream", "<</Type/XRef>>",
	"/Name <<", "((((", "<<<<<<", "<</A<</B<</C 1>>", "/A#", "(\\", "12 0 R"}

func (d *Doc) offsetOf(num int) int {
	at := -1
	for _, r := range d.Revs {
		for _, o := range r.Objs {
			if o.Num == num {
				at = d.Built.Offsets[o]
			}
		}
	}
	return at
}

// replaceStart changes the number after the last startxref.
func replaceStart(d *Doc, data []byte, v string) ([]byte, bool) {
	i := bytes.LastIndex(data, []byte("startxref"))
	if i < 0 {
		return nil, false
	}
	old := fmt.Sprint(d.Built.Start)
	j := bytes.Index(data[i:], []byte(old))
	if j < 0 {
		return nil, false
	}
	r := append([]byte{}, data[:i+j]...)
	r = append(r, v...)
	return append(r, data[i+j+len(old):]...), true
}

// genC10Extract damages a document with things to extract.
func genC10Extract(s *Src) *Case {
	x := newX(s, s)
	x.catalog(catOpts{pages: 60, actions: 60, files: 60})
	kind := s.N(4)
	name := []string{"no-xref", "no-startxref", "unlisted", "shifted"}[kind]
	w := WOpts{fancy: s.P(80)}
	unlisted := 0
	switch kind {
	case 0:
		x.rev.Kind = xrefNone
		w.noStart = true
	case 1:
		w.noStart = true
	case 2:
		pct := pick(s, 20, 50, 100)
		x.doc.damage = func(ri int, es []xent) []xent {
			var out []xent
			for _, e := range es {
				if !e.free && e.num != x.doc.Revs[ri].XrefNum && s.P(pct) {
					unlisted++
					continue
				}
				out = append(out, e)
			}
			return out
		}
	}
	data := x.doc.write(s, w)
	if !x.doc.unambiguous() {
		return discard()
	}
	if kind == 3 {
		pre := []byte(strings.Repeat("x", s.Int(1, 100)) + "\n")
		data = append(pre, data...)
		for _, e := range x.doc.entries(0, x.doc.Built.Offsets, x.doc.Built.Xrefs[0]) {
			if m, pos, ok := headerAt(data, e.off); ok && !e.free && m == e.num && pos != e.off+len(pre) {
				return discard()
			}
		}
	}
	n := len(x.exp.URLs) + len(x.exp.JS) + len(x.exp.Commands) + len(x.exp.Files) + len(x.exp.Text)
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: n >= 2}
	c.Desc = name + " (extraction): " + x.describe()
	c.label("extraction-" + name)
	exp := x.exp
	c.Run = func(t *T) { exp.check(t, t.parse(data, "")) }
	return c
}
