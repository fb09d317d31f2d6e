package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func countNodes(v V) int {
	n := 1
	switch x := v.(type) {
	case Arr:
		for _, e := range x {
			n += countNodes(e)
		}
	case Dict:
		for _, e := range x {
			n += countNodes(e.V)
		}
	}
	return n
}

func kinds(v V, m map[string]bool) {
	switch x := v.(type) {
	case nil, Null:
		m["null"] = true
	case Arr:
		m["array"] = true
		for _, e := range x {
			kinds(e, m)
		}
	case Dict:
		m["dict"] = true
		for _, e := range x {
			kinds(e.V, m)
		}
	case Str:
		m["string"] = true
	case Name:
		m["name"] = true
	case Int:
		m["int"] = true
	case Real:
		m["real"] = true
	case Ref:
		m["ref"] = true
	case Bool:
		m["bool"] = true
	}
}

// discard is a case outside the domain.
func discard() *Case {
	return &Case{Desc: "(outside the domain)", Labels: []string{"discarded"}, Run: func(t *T) {}}
}

// checkObj compares the object the parser reads with its latest definition.
func checkObj(t *T, p *pdf.Parser, o *Obj, what string) {
	got := p.GetObject(o.Num)
	if got == nil {
		t.Fail("object", "%sobject %d: nil", what, o.Num)
	}
	if got.Number != o.Num || got.Generation != o.Gen {
		t.Fail("object", "%sobject %d %d: read as %d %d", what, o.Num, o.Gen, got.Number, got.Generation)
	}
	if d := diff(got.Value, o.V); d != "" {
		t.Fail("value", "%sobject %d: %s", what, o.Num, d)
	}
	if !o.HasStream {
		if got.Stream != nil {
			t.Fail("stream", "%sobject %d: has a stream but should not", what, o.Num)
		}
		return
	}
	if d := diffBytes(got.Stream, o.Plain); d != "" {
		t.Fail("stream", "%sobject %d %s: stream %s", what, o.Num, clip(show(o.V), 200), d)
	}
}

func init() {
	register(&Prop{ID: "C01", Quick: 240000, Thorough: 3600000,
		Rule: "A case is a file with 1 to 6 objects holding random value trees, each token in a random legal spelling, with random white space and comments, read through a random cross-reference form. Non-trivial: at least 6 value nodes of at least 3 kinds.",
		Gen:  genC01})
	register(&Prop{ID: "C02", Quick: 24000, Thorough: 360000,
		Rule: "A case is a document (objects, streams, possibly encrypted or in several revisions) with fillers of up to 9000 bytes between tokens, read whole, one byte at a time and in random pieces. Non-trivial: the file is longer than 4096 bytes, so that reads cross the parser's buffer.",
		Gen:  genC02})
	register(&Prop{ID: "C03", Quick: 200000, Thorough: 3000000,
		Rule: "A case is a file of several unfiltered streams with adversarial contents (line ends, end markers, object headers), each with a length that is right (direct, indirect), absent or wrong. Non-trivial: at least one stream is not empty.",
		Gen:  genC03})
}

func genC01(s *Src) *Case {
	b := newBuilder(s)
	n := s.Int(1, 6)
	var objs []*Obj
	for i := 0; i < n; i++ {
		objs = append(objs, b.reserve())
	}
	vo := &valOpts{refs: func(s *Src) Ref {
		if s.P(70) {
			return objs[s.N(len(objs))].ref()
		}
		return Ref{s.Int(1, 100000), pick(s, 0, 1, 65535, 7)}
	}}
	if s.P(4) {
		vo.maxStr = 6000
	}
	huge := s.N(300) == 299
	nodes := 0
	km := map[string]bool{}
	for _, o := range objs {
		var v V
		switch {
		case huge: // very long strings and names
			v = Arr{Str(s.Expand(s.Int(4000, 140000), pick(s, nil, []byte("ab()\\\r\n"), []byte("x")))), Name(s.Expand(s.Int(100, 5000), []byte("ab#/ \x80"))), Int(7)}
		case s.P(3): // deep nesting
			v = genValue(s, 1, vo)
			depth := s.Int(2, pick(s, 40, 300, 900))
			asDict := s.Bool()
			for k := 0; k < depth; k++ {
				if asDict && s.Bool() {
					v = Dict{{"K", v}}
				} else {
					v = Arr{v}
				}
			}
		case s.P(3): // many elements
			a := Arr{}
			for k := s.Int(100, pick(s, 700, 700, 700, 700, 9000)); k > 0; k-- {
				a = append(a, genValue(s, 0, &valOpts{maxStr: 8, refs: vo.refs}))
			}
			v = a
			if s.P(30) { // many entries
				d := Dict{}
				for i, e := range a {
					d = append(d, KV{fmt.Sprintf("K%d", i), e})
				}
				v = d
			}
		case s.P(2): // many parentheses
			k := s.Int(20, pick(s, 140, 300, 3000))
			v = Arr{Str(strings.Repeat("(", k) + string(s.Raw(s.Small(5))) + strings.Repeat(")", k+s.N(2))), Int(5)}
		default:
			v = genValue(s, s.Int(1, 5), vo)
		}
		nodes += countNodes(v)
		kinds(v, km)
		b.define(o, v)
	}
	w := WOpts{fancy: true}
	if s.P(10) {
		w.pad, w.padMax = 5, 200
	}
	data := b.doc.write(s, w)
	if !b.doc.unambiguous() {
		return discard()
	}
	order := s.Perm(len(objs))
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: nodes >= 6 && len(km) >= 3}
	var ds []string
	for _, o := range objs {
		ds = append(ds, fmt.Sprintf("%d %d obj %s", o.Num, o.Gen, show(o.V)))
	}
	c.Desc = clip(strings.Join(ds, "; "), 300)
	for k := range km {
		c.label(k)
	}
	c.Run = func(t *T) {
		p, err := load(data, "")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		for round := 0; round < 2; round++ {
			for _, i := range order {
				checkObj(t, p, objs[i], "")
			}
		}
	}
	return c
}

// randomDoc builds a document with values and streams, in one or more revisions.
func randomDoc(s *Src, maxObjs int, crypt bool, vo *valOpts) *Builder {
	b := newBuilder(s)
	if crypt {
		b.setCrypt(genCrypt(s, true))
	}
	var refs []Ref
	if vo == nil {
		vo = &valOpts{}
	}
	vo.refs = func(s *Src) Ref {
		if len(refs) > 0 && s.P(80) {
			return refs[s.N(len(refs))]
		}
		return Ref{s.Int(1, 1000), 0}
	}
	n := s.Int(1, maxObjs)
	for i := 0; i < n; i++ {
		if s.P(40) {
			d := genDict(s, 2, vo, s.Small(4))
			refs = append(refs, b.addStream(d, s.Data(1500)))
		} else {
			refs = append(refs, b.add(genValue(s, 3, vo)))
		}
	}
	return b
}

var tokenRe = regexp.MustCompile(`<<|>>|[a-zA-Z]+|[0-9]+ [0-9]+ (R|obj)|[0-9]+|\(|/[^ /<>()\[\]%]*|\r\n`)

var (
	xrefRe   = regexp.MustCompile(`\bxref|startxref|trailer|/Prev [0-9]+|/XRef`)
	streamRe = regexp.MustCompile("stream\r?\n|endstream")
	markRe   = regexp.MustCompile(`xref|[0-9]+ [0-9]+ obj|endobj|stream|endstream|/Length [0-9]+`)
)

func genC02(s *Src) *Case {
	b := randomDoc(s, 5, s.P(35), nil)
	// a later revision now and then
	if s.P(40) {
		old := b.rev.Objs
		b.newRev(s.W(1, 1))
		for k := s.Int(1, 3); k > 0; k-- {
			o := old[s.N(len(old))]
			if o.NoEnc || o.HasStream {
				continue
			}
			dup := false
			for _, x := range b.rev.Objs {
				if x.Num == o.Num {
					dup = true
				}
			}
			if _, isInt := o.V.(Int); isInt || dup {
				continue // may be the length of a stream
			}
			if usedInStream(b.doc, o.Num) {
				continue
			}
			b.define(&Obj{Num: o.Num, Gen: o.Gen}, genValue(s, 2, &valOpts{}))
		}
	}
	w := WOpts{fancy: true, pad: pick(s, 3, 12, 30), padMax: pick(s, 300, 4200, 9000)}
	if s.P(15) {
		w.pad = 0
	}
	w.header = "%PDF-1.7\n"
	if s.Bool() {
		// a filler that puts the first object anywhere around a buffer boundary
		n := 4096*s.Int(0, 2) + s.N(4096)
		w.header += "%" + strings.Repeat("-", n) + "\n"
	}
	w.noStart = s.P(25)
	tee := s.tee()
	data := b.doc.write(tee, w)
	if s.P(50) {
		// a filler that puts some token across the boundary of a block
		m := tokenRe.FindAllIndex(data[len(w.header):], -1)
		if s.Bool() {
			re := []*regexp.Regexp{xrefRe, markRe}[s.N(2)]
			if k := re.FindAllIndex(data[len(w.header):], -1); len(k) > 0 {
				m = k
			}
		}
		if len(m) > 0 {
			x := m[s.N(len(m))]
			at := len(w.header) + x[0] + s.N(x[1]-x[0]+1)
			block := pick(s, 4096, 4096, 4096, 8192, 16384, 32768, 65536)
			w.header += "%" + strings.Repeat("-", (2*block-at%block-2)%block) + "\n"
			data = b.doc.write(ReplaySrc(tee.rec), w)
		}
	}
	if !b.doc.unambiguous() {
		return discard()
	}
	pw := ""
	if b.doc.Crypt != nil {
		pw = string(b.doc.Crypt.User)
	}
	latest := b.doc.latest()
	chunkKind := s.N(3)
	chunkSeed := int64(s.N(1 << 20))
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: len(data) > 4096}
	c.Desc = fmt.Sprintf("%s %d bytes, filler up to %d, reader kind %d", b.doc.describe(), len(data), w.padMax, chunkKind)
	if b.doc.Crypt != nil {
		c.label("encrypted")
	}
	c.label(fmt.Sprintf("reader%d", chunkKind))
	c.Run = func(t *T) {
		rnd := rand.New(rand.NewSource(chunkSeed))
		src := bytes.NewReader(data)
		var p *pdf.Parser
		switch chunkKind {
		case 0:
			p = pdf.NewParser(src, nil)
		case 1:
			p = pdf.NewParser(&slowReader{src, func() int { return 1 }}, nil)
		default:
			p = pdf.NewParser(&slowReader{src, func() int { return 1 + rnd.Intn(40) }}, nil)
		}
		if err := p.Load(pw); err != nil {
			t.Fail("load", "%v", err)
		}
		for _, o := range sortedObjs(latest) {
			checkObj(t, p, o, "")
		}
	}
	return c
}

func sortedObjs(m map[int]*Obj) []*Obj {
	var ns []int
	for n := range m {
		ns = append(ns, n)
	}
	sortInts(ns)
	var r []*Obj
	for _, n := range ns {
		r = append(r, m[n])
	}
	return r
}

// usedInStream: the object takes part in reading some stream.
func usedInStream(d *Doc, num int) bool {
	for _, r := range d.Revs {
		for _, o := range r.Objs {
			if dd, ok := o.V.(Dict); ok && o.HasStream {
				for _, k := range []string{"Length", "Filter", "DecodeParms", "Type"} {
					if refersTo(d, dd.get(k), num, 0) {
						return true
					}
				}
			}
		}
	}
	return d.Crypt.uses(num)
}

func refersTo(d *Doc, v V, num, depth int) bool {
	if depth > 20 {
		return true
	}
	switch x := v.(type) {
	case Ref:
		if x.Num == num {
			return true
		}
		for _, r := range d.Revs {
			for _, o := range r.Objs {
				if o.Num == x.Num && refersTo(d, o.V, num, depth+1) {
					return true
				}
			}
		}
	case Arr:
		for _, e := range x {
			if refersTo(d, e, num, depth+1) {
				return true
			}
		}
	case Dict:
		for _, e := range x {
			if refersTo(d, e.V, num, depth+1) {
				return true
			}
		}
	}
	return false
}

// streamBytes are contents that are hard to delimit.
func streamBytes(s *Src, withEnd bool) []byte {
	if s.P(30) {
		return s.Data(5000)
	}
	var b []byte
	parts := []string{"\n", "\r", "\r\n", "endstrea", "endobj", "stream\r\n", "stream", " ", "\x00", "e", "en", "endst", "endstreaendstrea", "text", "m", "eendstrea", "%", "<<", ")", "endst ream"}
	if withEnd {
		parts = append(parts, "endstream", "\nendstream\n", "endstream\nendobj\n", "endstreamendstream")
	}
	for k := s.Small(12); k > 0; k-- {
		if s.P(20) {
			b = append(b, s.Raw(s.Int(1, 6))...)
		} else {
			b = append(b, parts[s.N(len(parts))]...)
		}
	}
	if s.P(10) {
		b = append(s.Expand(s.N(pick(s, 9000, 9000, 9000, 9000, 140000)), nil), b...)
	}
	return b
}

func trimOneEOL(b []byte) []byte {
	if bytes.HasSuffix(b, []byte("\r\n")) {
		return b[:len(b)-2]
	}
	if bytes.HasSuffix(b, []byte("\n")) || bytes.HasSuffix(b, []byte("\r")) {
		return b[:len(b)-1]
	}
	return b
}

func genC03(s *Src) *Case {
	b := newBuilder(s)
	n := s.Int(1, 4)
	c := &Case{Files: map[string][]byte{}}
	var descs []string
	for i := 0; i < n; i++ {
		o := b.reserve()
		mode := s.W(4, 3, 3, 3, 1)
		if mode == 4 && i < n-1 {
			mode = 0
		}
		o.HasStream = true
		o.EOL1 = pick(s, "\n", "\r\n")
		d := genDict(s, 1, &valOpts{}, s.Small(3))
		if s.N(200) == 199 { // the data begins about a buffer away
			d = append(d, KV{"Zpad", Str(strings.Repeat("p", s.Int(4000, 4100)))})
		}
		sized := mode <= 1
		o.Data = streamBytes(s, sized)
		o.EOL2 = pick(s, "\n", "\r\n", "\r", "")
		if !sized && bytes.Contains(o.Data, []byte("endstream")) {
			o.Data = bytes.ReplaceAll(o.Data, []byte("endstream"), []byte("endxstream"))
		}
		switch mode {
		case 0:
			o.Plain = o.Data
			d = append(d, KV{"Length", Int(len(o.Data))})
		case 1:
			o.Plain = o.Data
			r := V(b.add(Int(len(o.Data))))
			if s.P(20) {
				r = b.add(r)
			}
			d = append(d, KV{"Length", r})
		case 2, 3: // absent or wrong
			body := append(append([]byte{}, o.Data...), o.EOL2...)
			// the data ends at the first end marker, which could begin earlier
			if k := bytes.Index(append(append([]byte{}, body...), "endstream"...), []byte("endstream")); k != len(body) {
				return discard()
			}
			o.Plain = trimOneEOL(body)
			if mode == 3 {
				wrong := pick(s, len(o.Data)+1+s.N(50), max(0, len(o.Data)-1-s.N(20)), 0, 1<<30, len(o.Data)+100000, -1-s.N(9))
				// a length that happens to be followed by an end marker is not wrong
				if wrong >= 0 && wrong <= len(body) {
					rest := append(append([]byte{}, body[wrong:]...), "endstream"...)
					for _, e := range []string{"", "\n", "\r", "\r\n"} {
						if bytes.HasPrefix(rest, []byte(e+"endstream")) {
							return discard()
						}
					}
				}
				if wrong > len(body) {
					c.label("wrong-too-long")
				}
				d = append(d, KV{"Length", pick[V](s, Int(wrong), Int(wrong), Name("x"), Ref{999999, 0}, Null{})})
			}
		case 4: // runs to the end of the file
			o.NoEnd = true
			o.Plain = o.Data
			if bytes.Contains(o.Data, []byte("endstream")) {
				return discard()
			}
			b.rev.Kind = xrefNone
		}
		c.label([]string{"direct", "indirect", "absent", "wrong", "unterminated"}[mode])
		if len(o.Data) > 0 {
			c.NonTrivial = true
		}
		b.define(o, permDict(s, d))
		descs = append(descs, fmt.Sprintf("%s %d bytes %s", []string{"direct", "indirect", "absent", "wrong", "unterminated"}[mode], len(o.Data), clip(fmt.Sprintf("%q", o.Data), 60)))
	}
	w := WOpts{fancy: true}
	if b.rev.Kind == xrefNone {
		w.tail = ""
	}
	// text between objects must not extend an unterminated stream
	w.header = "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n"
	tee := s.tee()
	data := b.doc.write(tee, w)
	if s.P(20) {
		// a filler that puts a marker of a stream across the boundary of a block
		if m := streamRe.FindAllIndex(data, -1); len(m) > 0 {
			x := m[s.N(len(m))]
			at := x[0] + s.N(x[1]-x[0]+4)
			block := pick(s, 4096, 4096, 8192)
			w.header += "%" + strings.Repeat("-", (2*block-at%block-2)%block) + "\n"
			data = b.doc.write(ReplaySrc(tee.rec), w)
			c.label("across-block")
		}
	}
	if b.rev.Kind == xrefNone {
		for _, o := range b.rev.Objs {
			if o.NoEnd {
				i := bytes.LastIndex(data, []byte("stream"+o.EOL1))
				at := b.doc.Built.Offsets[o]
				i = at + bytes.Index(data[at:], []byte("stream"+o.EOL1))
				o.Plain = data[i+6+len(o.EOL1):]
			}
		}
	}
	if !b.doc.unambiguous() {
		return discard()
	}
	// a wrong length must not reach a later end marker by accident
	for _, o := range b.rev.Objs {
		if !o.HasStream {
			continue
		}
		if l, ok := o.V.(Dict).get("Length").(Int); ok && int(l) >= 0 && int(l) != len(o.Data) {
			at := b.doc.Built.Offsets[o]
			i := at + bytes.Index(data[at:], append([]byte("stream"+o.EOL1), o.Data...)) + 6 + len(o.EOL1) + int(l)
			if i < len(data) {
				rest := data[i:]
				for _, e := range []string{"", "\n", "\r", "\r\n"} {
					if bytes.HasPrefix(rest, []byte(e+"endstream")) {
						return discard()
					}
				}
			}
		}
	}
	c.Files["input.pdf"] = data
	c.Desc = clip(strings.Join(descs, "; "), 300)
	objs := b.rev.Objs
	step := 0
	if s.P(10) {
		step = s.Int(1, 20)
		c.label("slow-reader")
	}
	c.Run = func(t *T) {
		var src io.ReadSeeker = bytes.NewReader(data)
		if step > 0 {
			src = &slowReader{bytes.NewReader(data), func() int { return step }}
		}
		p := pdf.NewParser(src, nil)
		err := p.Load("")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		for _, o := range objs {
			checkObj(t, p, o, "")
		}
	}
	return c
}
