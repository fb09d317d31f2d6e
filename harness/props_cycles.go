package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{ID: "C23", Quick: 32000, Thorough: 480000,
		Rule: "A case is a document in which page trees, name trees, chains of actions and previous-section pointers are random graphs (shared nodes, cycles through any node including the root and through kids arrays, references to nothing), compared with a reference walk that visits each node once. Non-trivial: at least one edge leads to a node that was visited before.",
		Gen:  genC23})
}

// cyc builds documents with cyclic structures.
type cyc struct {
	*Builder
	s    *Src
	exp  Expect
	seq  int
	back int // edges to nodes that are visited already
	what []string
}

func (c *cyc) uniq(p string) string { c.seq++; return fmt.Sprintf("%s%d", p, c.seq) }

// via puts references in between now and then.
func (c *cyc) via(r Ref) V {
	for c.s.P(8) {
		r = c.add(r)
	}
	return r
}

// edges draws the kids of n nodes: mostly a tree, with extra edges to anywhere.
func (c *cyc) edges(n int) [][]int {
	s := c.s
	e := make([][]int, n)
	shape := s.W(4, 2, 1)
	for i := 1; i < n; i++ {
		p := 0
		switch shape {
		case 0:
			p = s.N(i)
		case 1: // a path
			p = i - 1
		}
		e[p] = append(e[p], i)
	}
	for k := s.Small(5); k > 0; k-- {
		p := s.N(n)
		at := s.N(len(e[p]) + 1)
		to := s.N(n)
		e[p] = append(e[p][:at:at], append([]int{to}, e[p][at:]...)...)
	}
	return e
}

// walk visits each node once, in depth-first order.
func (c *cyc) walk(e [][]int, at int, seen []bool, visit func(int)) {
	if seen[at] {
		c.back++
		return
	}
	seen[at] = true
	visit(at)
	for _, k := range e[at] {
		c.walk(e, k, seen, visit)
	}
}

// kids makes the Kids entry with references to nothing thrown in.
func (c *cyc) kidRefs(nodes []*Obj, es []int) Arr {
	s := c.s
	a := Arr{}
	junk := func() {
		if s.P(6) {
			a = append(a, pick(s, V(Null{}), V(Ref{99999, 0}), V(Int(7)), V(Ref{0, 0})))
		}
	}
	for _, k := range es {
		junk()
		a = append(a, c.via(nodes[k].ref()))
	}
	junk()
	return a
}

func (c *cyc) reserveN(n int) []*Obj {
	var r []*Obj
	for i := 0; i < n; i++ {
		r = append(r, c.reserve())
	}
	return r
}

func (c *cyc) pages(d Dict) Dict {
	s := c.s
	n := s.Int(1, 10)
	if s.P(3) {
		n = s.Int(50, 300)
	}
	nodes := c.reserveN(n)
	e := c.edges(n)
	text := make([]string, n)
	for i, o := range nodes {
		nd := Dict{{"Type", Name(pick(s, "Pages", "Page"))}}
		if i > 0 && s.P(30) {
			nd = append(nd, KV{"Parent", nodes[s.N(i)].ref()})
		}
		if len(e[i]) > 0 || s.P(20) {
			kids := V(c.kidRefs(nodes, e[i]))
			if s.P(20) {
				kids = c.add(kids)
			}
			nd = append(nd, KV{"Kids", kids}, KV{"Count", Int(len(e[i]))})
		}
		if s.P(80) {
			t := c.uniq("page")
			text[i] = t + "\n"
			nd = append(nd, KV{"Contents", c.addStream(Dict{}, []byte("BT ("+t+") Tj ET"))})
		}
		if s.P(20) {
			nd = append(nd, KV{"Resources", Dict{{"Font", Dict{}}}})
		}
		c.define(o, nd)
	}
	var sb strings.Builder
	before := c.back
	c.walk(e, 0, make([]bool, n), func(i int) { sb.WriteString(text[i]) })
	c.exp.Text = append(c.exp.Text, sb.String())
	c.what = append(c.what, fmt.Sprintf("pages %v (%d again)", clip(fmt.Sprint(e), 150), c.back-before))
	return append(d, KV{"Pages", c.via(nodes[0].ref())})
}

// nameTree makes a cyclic name tree whose entries are made by entry (which
// records what one visit yields).
func (c *cyc) nameTree(key string, entry func() ([]V, func())) V {
	s := c.s
	n := s.Int(1, 8)
	if s.P(3) {
		n = s.Int(50, 200)
	}
	nodes := c.reserveN(n)
	e := c.edges(n)
	visits := make([]func(), n)
	sharedArrays := 0
	for i, o := range nodes {
		nd := Dict{}
		var fs []func()
		if s.P(75) {
			var pairs Arr
			for k := s.Small(2); k >= 0; k-- {
				v, f := entry()
				pairs = append(pairs, v...)
				fs = append(fs, f)
			}
			nd = append(nd, KV{"Names", c.maybeRef(pairs)})
		}
		if len(e[i]) > 0 || s.P(15) {
			refs := c.kidRefs(nodes, e[i])
			kids := V(refs)
			if s.P(35) {
				ko := c.reserve()
				if s.P(35) {
					// the array holds a node given directly, whose kids are the array again
					v, f := entry()
					refs = append(refs, Dict{{"Names", Arr(v)}, {"Kids", ko.ref()}})
					prev := fs
					fs = append([]func(){}, prev...)
					fs = append(fs, f)
					c.back++
					sharedArrays++
				}
				kids = c.define(ko, refs)
			}
			nd = append(nd, KV{"Kids", kids})
		}
		visits[i] = func() {
			for _, f := range fs {
				f()
			}
		}
		c.define(o, permDict(s, nd))
	}
	before := c.back
	c.walk(e, 0, make([]bool, n), func(i int) { visits[i]() })
	c.what = append(c.what, fmt.Sprintf("%s %v (%d again, %d arrays that hold themselves)", key, clip(fmt.Sprint(e), 150), c.back-before, sharedArrays))
	if s.P(15) { // the root itself given directly
		for _, o := range c.rev.Objs {
			if o == nodes[0] {
				root := o.V
				for _, k := range e {
					for _, x := range k {
						if x == 0 {
							return nodes[0].ref() // its entries are found again below
						}
					}
				}
				return root
			}
		}
	}
	return c.via(nodes[0].ref())
}

// actions makes a graph of chained actions with some starting points.
func (c *cyc) actions(d Dict) Dict {
	s := c.s
	n := s.Int(1, 8)
	if s.P(3) {
		n = s.Int(50, 200)
	}
	nodes := c.reserveN(n)
	e := c.edges(n)
	yield := make([]func(), n)
	for i, o := range nodes {
		var a Dict
		switch s.N(3) {
		case 0:
			f := c.uniq("cmd")
			a = Dict{{"S", Name("Launch")}, {"Win", Dict{{"F", Str(f)}, {"P", Str("-x")}}}}
			yield[i] = func() {
				c.exp.Commands = append(c.exp.Commands, f+" -x")
				c.exp.Files = append(c.exp.Files, zeroHash+":"+f)
			}
		case 1:
			f := c.uniq("file")
			a = Dict{{"S", Name("GoToR")}, {"F", Str(f)}}
			yield[i] = func() { c.exp.Files = append(c.exp.Files, zeroHash+":"+f) }
		case 2:
			u := c.uniq("http://u")
			a = Dict{{"S", Name("GoToR")}, {"F", Dict{{"FS", Name("URL")}, {"F", Str(u)}}}}
			yield[i] = func() { c.exp.URLs = append(c.exp.URLs, u) }
		}
		switch {
		case len(e[i]) == 1 && s.Bool():
			a = append(a, KV{"Next", c.via(nodes[e[i][0]].ref())})
		case len(e[i]) > 0:
			refs := c.kidRefs(nodes, e[i])
			next := V(refs)
			if s.P(30) {
				ko := c.reserve()
				if s.P(40) {
					// the array holds an action given directly that is followed by the array again
					f := c.uniq("direct")
					at := s.N(len(refs) + 1)
					refs = append(refs[:at:at], append(Arr{Dict{{"S", Name("GoToR")}, {"F", Str(f)}, {"Next", c.via(ko.ref())}}}, refs[at:]...)...)
					y := yield[i]
					yield[i] = func() {
						y()
						c.exp.Files = append(c.exp.Files, zeroHash+":"+f)
					}
					c.back++
				}
				next = c.define(ko, refs)
			}
			a = append(a, KV{"Next", next})
		}
		c.define(o, permDict(s, a))
	}
	start := func() V {
		k := s.N(n)
		c.walk(e, k, make([]bool, n), func(i int) { yield[i]() })
		return c.via(nodes[k].ref())
	}
	before := c.back
	d = append(d, KV{"OpenAction", start()})
	if s.P(40) {
		aa := Dict{}
		for _, k := range []string{"WC", "WS"} {
			if s.Bool() {
				aa = append(aa, KV{k, start()})
			}
		}
		d = append(d, KV{"AA", c.maybeRef(aa)})
	}
	if s.P(40) {
		c.add(Dict{{"Type", Name("Annot")}, {"A", start()}})
	}
	c.what = append(c.what, fmt.Sprintf("actions %v (%d again)", clip(fmt.Sprint(e), 150), c.back-before))
	return d
}

func genC23(s *Src) *Case {
	if s.P(30) {
		return genC23Prev(s)
	}
	c := &cyc{Builder: newBuilder(s), s: s}
	c.indir = pick(s, 10, 0)
	if s.P(10) {
		c.setCrypt(genCrypt(s, true))
	}
	d := Dict{{"Type", Name("Catalog")}}
	kind := s.W(3, 2, 2, 3)
	if kind == 0 || kind == 3 && s.Bool() {
		d = c.pages(d)
	}
	names := Dict{}
	if kind == 1 || kind == 3 && s.Bool() {
		embed := func() ([]V, func()) {
			n := c.uniq("att")
			switch s.N(3) {
			case 0:
				data := []byte("contents of " + n)
				r := c.addStream(Dict{}, data)
				v := V(Dict{{"F", Str(n)}, {"EF", Dict{{"F", r}}}})
				return []V{Str(n), c.maybeRef(v)}, func() { c.exp.dump(n, data) }
			case 1:
				return []V{Str(n), Str(n)}, func() { c.exp.Files = append(c.exp.Files, zeroHash+":"+n) }
			}
			return []V{Str(n), c.maybeRef(Dict{{"F", Str(n)}})}, func() { c.exp.Files = append(c.exp.Files, zeroHash+":"+n) }
		}
		names = append(names, KV{"EmbeddedFiles", c.nameTree("files", embed)})
	}
	if kind == 2 || kind == 3 && s.Bool() {
		url := func() ([]V, func()) {
			n := c.uniq("http://n")
			return []V{Str(n), Dict{{"Zt", Int(1)}}}, func() { c.exp.URLs = append(c.exp.URLs, n) }
		}
		names = append(names, KV{"URLS", c.nameTree("urls", url)})
	}
	if kind == 3 && s.Bool() {
		d = c.actions(d)
	}
	if len(names) > 0 {
		d = append(d, KV{"Names", c.maybeRef(names)})
	}
	c.doc.Root = c.add(d)
	data := c.doc.write(s, WOpts{fancy: s.P(60)})
	if !c.doc.unambiguous() {
		return discard()
	}
	pw := ""
	if c.doc.Crypt != nil {
		pw = string(c.doc.Crypt.User)
	}
	cs := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: c.back > 0}
	cs.Desc = clip(strings.Join(c.what, "; "), 500)
	for _, w := range c.what {
		cs.label(strings.Fields(w)[0])
	}
	if c.back > 0 {
		cs.label("cyclic-or-shared")
	}
	exp := c.exp
	cs.Run = func(t *T) { exp.check(t, t.parse(data, pw)) }
	return cs
}

// genC23Prev: chains of sections that run in circles.
func genC23Prev(s *Src) *Case {
	b := newBuilder(s)
	b.indir = pick(s, 10, 0)
	vo := &valOpts{maxStr: 20, refs: func(s *Src) Ref { return Ref{s.Int(1, max(2, b.next)), 0} }}
	for k := s.Int(1, 5); k > 0; k-- {
		if s.P(20) {
			b.addStream(genDict(s, 1, vo, 1), s.Data(100))
		} else {
			b.add(genValue(s, 2, vo))
		}
	}
	revs := s.Int(1, 6)
	if s.P(5) {
		revs = s.Int(20, 60)
	}
	ch, del, re := history(b, s, revs, vo)
	// the oldest section has a predecessor: any section, or nothing that is one
	target := s.N(len(b.doc.Revs))
	kind := s.W(5, 1, 1)
	var off int
	b.doc.Revs[0].Extra = Dict{{"Prev", Kw("0000000000")}}
	w := WOpts{fancy: s.P(60), plainXref: true}
	data := b.doc.write(s, w)
	if !b.doc.unambiguous() {
		return discard()
	}
	switch kind {
	case 0:
		off = b.doc.Built.Xrefs[target]
	case 1:
		off = s.N(len(data) + 50)
		if b.doc.sectionAt(data, off, 0) {
			return discard()
		}
	case 2:
		off = pick(s, 0, 999999999, len(data))
	}
	i := strings.Index(string(data), "0000000000")
	for i >= 0 && !strings.Contains(string(data[max(0, i-40):i]), "Prev") {
		j := strings.Index(string(data[i+10:]), "0000000000")
		if j < 0 {
			i = -1
			break
		}
		i += 10 + j
	}
	if i < 0 {
		return discard() // spelt in another way
	}
	data = append([]byte{}, data...)
	copy(data[i:], fmt.Sprintf("%010d", off))
	latest := b.doc.latest()
	gone := map[int]bool{}
	for _, r := range b.doc.Revs {
		for n := range r.Frees {
			if latest[n] == nil {
				gone[n] = true
			}
		}
	}
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: kind == 0}
	c.Desc = fmt.Sprintf("%s; %d redefined, %d deleted, %d added again; the oldest section's Prev is %d (%s)", b.doc.describe(), ch, del, re, off, []string{fmt.Sprint("that of revision ", target), "no section", "out of place"}[kind])
	c.label("sections")
	if kind == 0 {
		c.label("cyclic-or-shared")
	}
	objs := sortedObjs(latest)
	c.Run = func(t *T) {
		p, err := load(data, "")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		for _, o := range objs {
			checkObj(t, p, o, "")
		}
		for n := range gone {
			checkGone(t, p, n)
		}
	}
	return c
}
