package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Prop{ID: "C24", Quick: 16000, Thorough: 240000,
		Rule: "A case is one random logical document (pages, actions, files) represented twice with independent choices of object numbers and order, direct or indirect values, spellings, filters, cross-reference form, revisions (older ones hold stale definitions) and encryption; both are parsed and the outputs compared with each other and with what the logical document says. Non-trivial: at least 2 extracted items and at least one of encryption, several revisions, rebuilt or scrambled cross-references.",
		Gen:  genC24})
}

func sortedLines(b []byte) string {
	l := strings.SplitAfter(string(b), "\n")
	sort.Strings(l)
	return strings.Join(l, "")
}

// rep is one representation of a logical document.
type rep struct {
	x       *X
	data    []byte
	pw      string
	what    string
	special bool
}

func genRep(logic, s *Src, o catOpts) *rep {
	x := newX(logic, s)
	r := &rep{x: x}
	x.indir = pick(s, 25, 0, 60)
	x.chainN = pick(s, 2, 0, 3)
	if s.P(30) {
		x.setCrypt(genCrypt(s, true))
		r.special = true
	}
	x.catalog(o)
	// hold some definitions back for later revisions; older ones get something else
	revs := 1
	if s.P(45) {
		revs = s.Int(2, 4)
		r.special = true
		all := x.rev.Objs
		first := x.rev
		first.Objs = nil
		lists := make([][]*Obj, revs)
		for _, o := range all {
			k := 0
			if s.P(40) && !o.NoEnc {
				k = s.Int(1, revs-1)
				for j := 0; j < k; j++ {
					if s.P(35) {
						lists[j] = append(lists[j], staleOf(x, s, o))
					}
				}
			}
			lists[k] = append(lists[k], o)
		}
		first.Objs = lists[0]
		for k := 1; k < revs; k++ {
			x.newRev(s.W(3, 2))
			x.rev.Objs = lists[k]
		}
	}
	w := WOpts{fancy: s.P(85)}
	switch s.W(6, 2, 2) {
	case 1:
		w.scramble = true
		r.special = true
	case 2:
		if x.doc.Crypt == nil {
			for _, v := range x.doc.Revs {
				v.Kind = xrefNone
			}
			w.noStart = true
			r.special = true
		}
	}
	r.data = x.doc.write(s, w)
	if x.doc.Crypt != nil {
		r.pw = string(x.doc.Crypt.User)
	}
	r.what = fmt.Sprintf("%s scrambled %v", x.doc.describe(), w.scramble)
	return r
}

// staleOf is an outdated definition of an object.
func staleOf(x *X, s *Src, o *Obj) *Obj {
	old := &Obj{Num: o.Num, Gen: o.Gen, EOL1: "\n", EOL2: "\n"}
	switch s.N(5) {
	case 0:
		old.V = Null{}
	case 1:
		old.V = Dict{{"S", Name("URI")}, {"URI", Str("http://stale/")}}
	case 2:
		old.V = Dict{{"JS", Str("stale()")}, {"F", Str("stale")}, {"A", Dict{{"S", Name("Launch")}, {"F", Str("stale.exe")}}}}
	case 3:
		data := []byte("BT (stale) Tj ET")
		old.HasStream, old.Data, old.Plain = true, data, data
		n := len(data)
		if x.doc.methodOf(old) == "AESV2" {
			n += 32 - n%16
		}
		old.V = Dict{{"Length", Int(n)}}
	case 4:
		old.V = Arr{Dict{{"AA", Dict{{"O", Dict{{"S", Name("URI")}, {"URI", Str("http://stale/aa")}}}}}}}
	}
	return old
}

func genC24(s *Src) *Case {
	o := catOpts{pages: 60, actions: 60, files: 60}
	logic := s.tee()
	a := genRep(logic, s, o)
	b := genRep(ReplaySrc(logic.rec), s, o)
	if !a.x.doc.unambiguous() || !b.x.doc.unambiguous() {
		return discard()
	}
	ea, eb := a.x.exp, b.x.exp
	if fmt.Sprint(ea) != fmt.Sprint(eb) {
		panic(fmt.Sprintf("the two representations say different things:\n%v\n%v", ea, eb))
	}
	n := len(ea.URLs) + len(ea.JS) + len(ea.Commands) + len(ea.Files) + len(ea.Text)
	c := &Case{Files: map[string][]byte{"a.pdf": a.data, "b.pdf": b.data}, NonTrivial: n >= 2 && (a.special || b.special)}
	c.Desc = clip("A: "+a.what+" B: "+b.what+"; "+a.x.describe(), 500)
	for _, r := range []*rep{a, b} {
		if r.x.doc.Crypt != nil {
			c.label("encrypted")
		}
		if len(r.x.doc.Revs) > 1 {
			c.label("revisions")
		}
		c.label([]string{"table", "xref-stream", "no-xref"}[r.x.doc.Revs[0].Kind])
	}
	if (a.x.doc.Crypt == nil) != (b.x.doc.Crypt == nil) {
		c.label("one-encrypted")
	}
	c.Run = func(t *T) {
		oa := t.parse(a.data, a.pw)
		ea.check(t, oa)
		ob := t.parse(b.data, b.pw)
		eb.check(t, ob)
		for _, f := range []struct {
			n    string
			x, y []byte
		}{{"contents.txt", oa.Text, ob.Text}, {"urls.txt", oa.URLs, ob.URLs}, {"javascript.js", oa.JS, ob.JS}, {"commands.txt", oa.Commands, ob.Commands}, {"files.txt", oa.FilesTxt, ob.FilesTxt}} {
			if sortedLines(f.x) != sortedLines(f.y) {
				t.Fail("representation", "%s: %q for one representation, %q for the other", f.n, clip(string(f.x), 400), clip(string(f.y), 400))
			}
		}
	}
	return c
}
