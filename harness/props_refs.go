package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{ID: "C11", Quick: 120000, Thorough: 1800000,
		Rule: "A case is a document whose objects form a random reference graph (chains, loops, undefined and deleted ends, references as stream lengths, filters and parameters), and a random sequence of reads, resolutions and typed lookups on values obtained earlier; each result is compared with the model. Non-trivial: at least 2 references that are part of a chain, a loop, or end nowhere, and at least 5 operations.",
		Gen:  genC11})
	register(&Prop{ID: "C22", Quick: 60000, Thorough: 900000,
		Rule: "A case is a random array and a random dictionary with values of every kind, direct and through reference chains, loops and undefined references; every typed lookup is made at every index and key and at others (negative, past the end, extreme, absent, misspelt). Non-trivial: at least 3 entries of at least 2 kinds.",
		Gen:  genC22})
}

// graph is a document with a reference graph.
type graph struct {
	b      *Builder
	vals   []*Obj // objects with a final value
	links  []*Obj // objects that are references
	nodes  []Ref  // everything that can be referred to
	odd    int    // links that are chained, looped or dangling
	absent []int
}

// target is any reference in the document.
func (g *graph) target(s *Src) Ref {
	if len(g.nodes) == 0 || s.P(12) {
		return g.nowhere(s)
	}
	return g.nodes[s.N(len(g.nodes))]
}

func (g *graph) nowhere(s *Src) Ref {
	g.odd++
	if s.P(20) {
		return Ref{pick(s, 0, 99999999, 2147483647, 1000000, 1<<32+s.Int(1, 9), 1<<33+s.Int(1, 9)), pick(s, 0, 65535)}
	}
	return Ref{g.b.doc.maxNum() + s.Int(70000, 70010), 0}
}

// resolve follows references in the model.
func resolveIn(latest map[int]*Obj, r Ref) *Obj {
	seen := map[int]bool{}
	for !seen[r.Num] {
		seen[r.Num] = true
		o := latest[r.Num]
		if o == nil {
			return &Obj{V: Null{}}
		}
		n, ok := o.V.(Ref)
		if !ok {
			return o
		}
		r = n
	}
	return &Obj{V: Null{}}
}

// chain makes v indirect through n further references.
func (g *graph) chain(v V, n int) V {
	b := g.b
	x := b.add(v)
	g.nodes = append(g.nodes, x)
	for ; n > 0; n-- {
		o := b.reserve()
		x = b.define(o, x)
		g.nodes = append(g.nodes, x)
		g.odd++
	}
	return x
}

func genGraph(s *Src, crypt bool) *graph {
	g := &graph{b: newBuilder(s)}
	b := g.b
	b.indir = 0
	if crypt && s.P(20) {
		b.setCrypt(genCrypt(s, true))
	}
	// references to objects that are defined further on
	var later []*Obj
	for k := s.Int(1, 8); k > 0; k-- {
		o := b.reserve()
		later = append(later, o)
		g.nodes = append(g.nodes, o.ref())
	}
	vo := &valOpts{maxStr: 30, refs: func(s *Src) Ref { return g.target(s) }}
	for k := s.Small(5); k > 0; k-- {
		g.nodes = append(g.nodes, b.add(genValue(s, 2, vo)))
	}
	for k := s.Small(3); k > 0; k-- {
		g.stream(s, vo)
	}
	if s.P(35) { // long ways to the same
		for k := s.Int(1, 2); k > 0; k-- {
			if r, ok := g.chain(g.target(s), s.Int(3, pick(s, 6, 12, 60))).(Ref); ok {
				g.nodes = append(g.nodes, r)
				g.odd++
			}
		}
	}
	for _, o := range later {
		switch s.W(4, 5, 2, 1) {
		case 0:
			b.define(o, genValue(s, 3, vo))
		case 1: // a link: chains and loops arise
			if s.P(15) {
				b.define(o, o.ref())
			} else {
				b.define(o, g.target(s))
			}
			g.odd++
		case 2:
			g.streamOf(s, o, vo)
		case 3: // never defined
			g.odd++
		}
	}
	return g
}

func (g *graph) stream(s *Src, vo *valOpts) {
	o := g.b.reserve()
	g.nodes = append(g.nodes, o.ref())
	g.streamOf(s, o, vo)
}

// streamOf defines a stream whose length, filters and parameters are references.
func (g *graph) streamOf(s *Src, o *Obj, vo *valOpts) {
	b := g.b
	d := genDict(s, 1, vo, s.Small(3))
	var out Dict
	for _, e := range d {
		if e.K != "Filter" && e.K != "DecodeParms" && e.K != "Length" && e.K != "Type" && e.K != "F" {
			out = append(out, e)
		}
	}
	d = out
	plain := s.Data(300)
	st, enc := encChain(s, plain, s.Small(3), true, true)
	f, p := chainEntries(s, st, true)
	in := func(v V) V {
		if s.P(45) {
			return g.chain(v, s.Small(3))
		}
		return v
	}
	deep := func(v V) V {
		switch x := v.(type) {
		case Arr:
			r := Arr{}
			for _, e := range x {
				if isNull(e) && s.P(50) {
					r = append(r, g.loop(s))
				} else {
					r = append(r, in(e))
				}
			}
			v = r
		case Dict:
			r := Dict{}
			for _, e := range x {
				r = append(r, KV{e.K, in(e.V)})
			}
			v = r
		}
		return in(v)
	}
	text := !strings.Contains(string(enc), "endstream") && (len(enc) == 0 || strings.IndexByte("\r\n", enc[len(enc)-1]) < 0)
	switch {
	case f == nil && s.P(40): // no filter, told through a reference to nothing
		d = append(d, KV{"Filter", g.loop(s)})
	case f != nil:
		d = append(d, KV{"Filter", deep(f)})
	}
	if p != nil {
		d = append(d, KV{"DecodeParms", deep(p)})
	} else if s.P(30) {
		d = append(d, KV{"DecodeParms", g.loop(s)})
	}
	o.HasStream, o.Data, o.Plain = true, enc, plain
	o.EOL1, o.EOL2 = pick(s, "\n", "\r\n"), pick(s, "\n", "\r\n", "\r")
	o.V = d
	m := b.doc.methodOf(o)
	size := len(enc)
	if m == "AESV2" {
		size = 16 + len(enc) + 16 - len(enc)%16
	}
	switch {
	case text && (m == "None" || m == "Identity") && s.P(25): // the length is nowhere
		d = append(d, KV{"Length", g.loop(s)})
	default:
		d = append(d, KV{"Length", in(Int(size))})
	}
	b.define(o, permDict(s, d))
}

// loop is a reference that resolves to null.
func (g *graph) loop(s *Src) V {
	g.odd++
	switch s.N(4) {
	case 0:
		return g.nowhere(s)
	case 1: // to itself
		o := g.b.reserve()
		return g.b.define(o, o.ref())
	case 2: // a chain that runs into a loop
		a, b := g.b.reserve(), g.b.reserve()
		g.b.define(a, b.ref())
		g.b.define(b, a.ref())
		return g.chain(a.ref(), s.Small(3))
	}
	return g.chain(g.nowhere(s), s.Small(3))
}

func (g *graph) write(s *Src) ([]byte, string, bool) {
	b := g.b
	w := WOpts{fancy: s.P(70), scramble: s.P(20)}
	data := b.doc.write(s, w)
	pw := ""
	if b.doc.Crypt != nil {
		pw = string(b.doc.Crypt.User)
	}
	return data, pw, b.doc.unambiguous()
}

// checkValue compares any value obtained with the model.
func checkResolved(t *T, latest map[int]*Obj, r *pdf.Reference, m Ref, stream bool) {
	if stream {
		got := r.ResolveStream()
		o := resolveIn(latest, m)
		if !o.HasStream {
			if got != nil {
				t.Fail("resolve-stream", "%d %d R resolves to no stream but got %d bytes", m.Num, m.Gen, len(got))
			}
			return
		}
		if got == nil {
			t.Fail("resolve-stream", "%d %d R resolves to a stream of %d bytes, got none", m.Num, m.Gen, len(o.Plain))
		}
		if d := diffBytes(got, o.Plain); d != "" {
			t.Fail("resolve-stream", "%d %d R: %s", m.Num, m.Gen, d)
		}
		return
	}
	if d := diff(r.Resolve(), resolveIn(latest, m).V); d != "" {
		t.Fail("resolve", "%d %d R: %s", m.Num, m.Gen, d)
	}
}

// refsOf lists the references in a value as read, with their model.
func refsOf(got pdf.Object, v V, out *[]refPair) {
	switch x := v.(type) {
	case Ref:
		if r, ok := got.(*pdf.Reference); ok {
			*out = append(*out, refPair{r, x})
		}
	case Arr:
		if a, ok := got.(pdf.Array); ok {
			for i := range x {
				if i < len(a) {
					refsOf(a[i], x[i], out)
				}
			}
		}
	case Dict:
		if d, ok := got.(pdf.Dictionary); ok {
			for _, e := range x {
				refsOf(d[e.K], e.V, out)
			}
		}
	}
}

type refPair struct {
	r *pdf.Reference
	m Ref
}

func genC11(s *Src) *Case {
	g := genGraph(s, true)
	b := g.b
	// a later revision redirects some links
	if s.P(30) {
		objs := append([]*Obj{}, b.rev.Objs...)
		b.newRev(s.W(3, 2))
		for _, o := range objs {
			if _, ok := o.V.(Ref); ok && s.P(40) && !usedInStream(b.doc, o.Num) {
				if s.P(30) && o.Gen < 65535 {
					b.rev.Frees[o.Num] = o.Gen + 1
				} else {
					b.define(&Obj{Num: o.Num, Gen: o.Gen}, pick(s, V(g.target(s)), V(Int(s.N(100))), V(Str("new"))))
				}
			}
		}
	}
	// trees, which lookups may walk
	if s.P(40) {
		top := Dict{}
		for _, k := range []string{"Pages", "Names"} {
			var kids Arr
			for n := s.Int(1, 4); n > 0; n-- {
				kid := Dict{{"Leaf", Int(s.N(100))}}
				if s.P(30) {
					kid = append(kid, KV{"Resources", Dict{{"Own", Bool(true)}}})
				}
				if s.P(30) {
					kid = append(kid, KV{"Kids", Arr{g.target(s)}})
				}
				if s.P(50) {
					kid = append(kid, KV{"Names", Arr{Str("n"), g.target(s)}})
				}
				kids = append(kids, b.add(kid))
			}
			d := Dict{{"Kids", kids}, {"Resources", Dict{{"Font", Dict{}}}}, {"Names", Arr{Str("k"), Int(1)}}}
			if s.Bool() {
				top = append(top, KV{k, b.add(d)})
			} else {
				top = append(top, KV{k, d})
			}
		}
		b.add(top)
		b.add(top)
	}
	data, pw, ok := g.write(s)
	if !ok {
		return discard()
	}
	latest := b.doc.latest()
	objs := sortedObjs(latest)
	if len(objs) == 0 {
		return discard()
	}
	// operations: encoded as pairs of draws
	type op struct{ kind, a, b int }
	var ops []op
	for k := s.Int(1, 40); k > 0; k-- {
		ops = append(ops, op{s.W(3, 4, 2, 3, 1), s.N(1 << 16), s.N(1 << 16)})
	}
	gone := b.doc.maxNum() + 5
	xn := b.doc.xobjs
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: g.odd >= 2 && len(ops) >= 5}
	c.Desc = fmt.Sprintf("%s; %d odd links, %d operations", b.doc.describe(), g.odd, len(ops))
	if b.doc.Crypt != nil {
		c.label("encrypted")
	}
	if len(b.doc.Revs) > 1 {
		c.label("redirected")
	}
	for _, o := range objs {
		if r, ok := o.V.(Ref); ok {
			f := resolveIn(latest, r)
			switch {
			case f.HasStream:
				c.label("link-to-stream")
			case isNull(f.V):
				c.label("link-to-null")
			default:
				c.label("link-to-value")
			}
		}
	}
	c.Run = func(t *T) {
		p, err := load(data, pw)
		if err != nil {
			t.Fail("load", "%v", err)
		}
		var held []refPair
		type pair struct {
			got pdf.Object
			m   V
		}
		var vals []pair
		for _, op := range ops {
			before := position(p)
			switch op.kind {
			case 0: // read an object
				o := objs[op.a%len(objs)]
				checkObj(t, p, o, "")
				got := p.GetObject(o.Num)
				vals = append(vals, pair{got.Value, o.V})
				refsOf(got.Value, o.V, &held)
			case 1: // resolve a reference met earlier
				if len(held) > 0 {
					h := held[op.a%len(held)]
					checkResolved(t, latest, h.r, h.m, op.b%3 == 0)
					if op.b%2 == 0 { // again
						checkResolved(t, latest, h.r, h.m, op.b%5 == 0)
					}
				}
			case 2: // a value obtained earlier has not changed
				if len(vals) > 0 {
					v := vals[op.a%len(vals)]
					if d := diff(v.got, v.m); d != "" {
						t.Fail("changed", "a value read earlier: %s", d)
					}
				}
			case 3: // look something up in it
				if len(vals) > 0 {
					v := vals[op.a%len(vals)]
					lookupAny(t, latest, v.got, v.m, op.b)
				}
			case 4: // an object that is not defined
				if xn[gone] == nil {
					checkGone(t, p, gone)
				}
			}
			if after := position(p); (op.kind == 1 || op.kind == 3) && after != before {
				t.Fail("position", "resolving or looking up moves the position of the parser from %d to %d", before, after)
			}
		}
		// everything reads as at first
		for _, o := range objs {
			checkObj(t, p, o, "after all operations, ")
		}
	}
	return c
}

// position is where the parser would go on reading, if it tells.
func position(p *pdf.Parser) int64 {
	if x, ok := interface{}(p).(interface{ CurrentOffset() int64 }); ok {
		return x.CurrentOffset()
	}
	return 0
}

// lookupAny looks one entry of a container up and walks trees in it.
func lookupAny(t *T, latest map[int]*Obj, got pdf.Object, m V, n int) {
	switch x := m.(type) {
	case Arr:
		if a, ok := got.(pdf.Array); ok && len(x) > 0 {
			i := n % len(x)
			checkLookups(t, latest, arrayLookups(a, i), x[i], true, fmt.Sprintf("[%d]", i))
		}
	case Dict:
		if d, ok := got.(pdf.Dictionary); ok && len(x) > 0 {
			e := x[n%len(x)]
			checkLookups(t, latest, dictLookups(d, e.K), e.V, true, fmt.Sprintf("/%q", e.K))
			if n%3 == 0 {
				d.GetNameTreeMap(e.K)
				d.GetPageTree(e.K)
				if x := diff(d[e.K], e.V); x != "" {
					// the tree given directly may take up inherited resources, nothing else
					if _, direct := e.V.(Dict); !direct {
						t.Fail("changed", "after walking /%q: %s", e.K, x)
					}
				}
			}
		}
	}
}

// lookups is every typed lookup at one place.
type lookups struct {
	arr     func() (pdf.Array, bool)
	boolean func() (bool, bool)
	bytes   func() ([]byte, bool)
	dict    func() (pdf.Dictionary, bool)
	int     func() (int, bool)
	int64   func() (int64, bool)
	name    func() (string, bool)
	number  func() (pdf.Number, bool)
	object  func() (pdf.Object, bool)
	stream  func() ([]byte, bool)
	str     func() (string, bool)
	ref     func() (*pdf.Reference, bool)
}

func arrayLookups(a pdf.Array, i int) *lookups {
	return &lookups{
		arr:     func() (pdf.Array, bool) { return a.GetArray(i) },
		boolean: func() (bool, bool) { return a.GetBool(i) },
		bytes:   func() ([]byte, bool) { return a.GetBytes(i) },
		dict:    func() (pdf.Dictionary, bool) { return a.GetDictionary(i) },
		int:     func() (int, bool) { return a.GetInt(i) },
		int64:   func() (int64, bool) { return a.GetInt64(i) },
		name:    func() (string, bool) { return a.GetName(i) },
		number:  func() (pdf.Number, bool) { return a.GetNumber(i) },
		object:  func() (pdf.Object, bool) { return a.GetObject(i) },
		stream:  func() ([]byte, bool) { return a.GetStream(i) },
		str:     func() (string, bool) { return a.GetString(i) },
	}
}

func dictLookups(d pdf.Dictionary, k string) *lookups {
	return &lookups{
		arr:     func() (pdf.Array, bool) { return d.GetArray(k) },
		boolean: func() (bool, bool) { return d.GetBool(k) },
		bytes:   func() ([]byte, bool) { return d.GetBytes(k) },
		dict:    func() (pdf.Dictionary, bool) { return d.GetDictionary(k) },
		int:     func() (int, bool) { return d.GetInt(k) },
		int64:   func() (int64, bool) { return d.GetInt64(k) },
		name:    func() (string, bool) { return d.GetName(k) },
		number:  func() (pdf.Number, bool) { return d.GetNumber(k) },
		object:  func() (pdf.Object, bool) { return d.GetObject(k) },
		stream:  func() ([]byte, bool) { return d.GetStream(k) },
		str:     func() (string, bool) { return d.GetString(k) },
		ref:     func() (*pdf.Reference, bool) { return d.GetReference(k) },
	}
}

// checkLookups makes every lookup; v is the entry's value if there is one.
func checkLookups(t *T, latest map[int]*Obj, l *lookups, v V, exists bool, at string) {
	var o = &Obj{V: Null{}}
	if exists {
		o = &Obj{V: v}
		if r, ok := v.(Ref); ok {
			o = resolveIn(latest, r)
		}
	}
	is := func(kind string, ok, want, empty bool) {
		if ok != want {
			t.Fail(kind, "%s holds %s (exists %v): lookup as %s gives success %v", at, clip(show(v), 200), exists, kind, ok)
		}
		if !ok && !empty {
			t.Fail(kind, "%s holds %s (exists %v): failed lookup as %s gives a value", at, clip(show(v), 200), exists, kind)
		}
	}
	same := func(kind, d string) {
		if d != "" {
			t.Fail(kind, "%s holds %s: lookup as %s: %s", at, clip(show(v), 200), kind, d)
		}
	}
	a, ok := l.arr()
	w, isA := o.V.(Arr)
	if is("array", ok, isA, len(a) == 0); ok {
		same("array", diff(a, w))
	}
	bv, ok := l.boolean()
	wb, isB := o.V.(Bool)
	is("boolean", ok, isB, !bv)
	if ok && bv != bool(wb) {
		same("boolean", fmt.Sprintf("got %v", bv))
	}
	ws, isS := o.V.(Str)
	sv, ok := l.str()
	if is("string", ok, isS, sv == ""); ok && sv != string(ws) {
		same("string", fmt.Sprintf("got %q", sv))
	}
	by, ok := l.bytes()
	if is("bytes", ok, isS, len(by) == 0); ok && string(by) != string(ws) {
		same("bytes", fmt.Sprintf("got %q", by))
	}
	d, ok := l.dict()
	wd, isD := o.V.(Dict)
	if is("dictionary", ok, isD, len(d) == 0); ok {
		same("dictionary", diff(d, wd))
	}
	wi, isI := o.V.(Int)
	_, isR := o.V.(Real)
	if !isR && !(isI && (wi > 1<<53 || wi < -(1<<53))) {
		n, ok := l.int()
		if is("integer", ok, isI, n == 0); ok && n != int(wi) {
			same("integer", fmt.Sprintf("got %v", n))
		}
		n64, ok := l.int64()
		if is("integer", ok, isI, n64 == 0); ok && n64 != int64(wi) {
			same("integer", fmt.Sprintf("got %v", n64))
		}
	}
	num, ok := l.number()
	if is("number", ok, isI || isR, num == 0); ok {
		same("number", diff(num, o.V))
	}
	nm, ok := l.name()
	wn, isN := o.V.(Name)
	if is("name", ok, isN, nm == ""); ok && nm != string(wn) {
		same("name", fmt.Sprintf("got %q", nm))
	}
	ob, ok := l.object()
	if !exists || !isNull(o.V) { // an entry with a null value equals no entry
		is("object", ok, exists, true)
	}
	same("object", diff(ob, o.V))
	st, ok := l.stream()
	if is("stream", ok, o.HasStream, len(st) == 0); ok {
		same("stream", diffBytes(st, o.Plain))
	}
	if l.ref != nil {
		r, ok := l.ref()
		wr, isRef := v.(Ref)
		if is("reference", ok, exists && isRef, r == nil); ok {
			same("reference", diff(r, wr))
		}
	}
}

func genC22(s *Src) *Case {
	g := genGraph(s, false)
	b := g.b
	vo := &valOpts{maxStr: pick(s, 20, 20, 20, 20, 400), refs: func(s *Src) Ref { return g.target(s) }}
	entry := func() V {
		v := pickKind(s, vo, g)
		if _, ok := v.(Ref); !ok && s.P(30) {
			return g.chain(v, s.Small(4))
		}
		return v
	}
	a := Arr{}
	for k := s.Int(1, 8); k > 0; k-- {
		a = append(a, entry())
	}
	d := Dict{}
	for k := s.Int(1, 8); k > 0; k-- {
		n := pick(s, "A", "Type", "Kids", "Length", genName(s), genName(s), "key")
		if !d.has(n) {
			d = append(d, KV{n, entry()})
		}
	}
	ao, do := b.reserve(), b.reserve()
	b.define(ao, a)
	b.define(do, d)
	data, pw, ok := g.write(s)
	if !ok {
		return discard()
	}
	latest := b.doc.latest()
	idx := []int{-1, -2, len(a), len(a) + 1, math.MaxInt64, math.MinInt64, 1 << 31, -(1 << 31), s.N(1 << 20), -s.N(1 << 20)}
	for i := range a {
		idx = append(idx, i, -i-1, len(a)+i)
	}
	keys := []string{"", "Missing", "a", "type", genName(s)}
	for _, e := range d {
		keys = append(keys, e.K, e.K+" ", "/"+e.K, e.K+"\x00", strings.ToLower(e.K))
		if len(e.K) > 0 {
			keys = append(keys, e.K[:len(e.K)-1])
		}
	}
	km := map[string]bool{}
	for _, e := range a {
		kinds(e, km)
	}
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: len(a)+len(d) >= 3 && len(km) >= 2}
	c.Desc = clip(fmt.Sprintf("array %s, dictionary %s", show(a), show(d)), 500)
	for _, v := range append(append(Arr{}, a...), vals(d)...) {
		k := fmt.Sprintf("%T", v)
		k = k[strings.LastIndexByte(k, '.')+1:]
		if r, ok := v.(Ref); ok {
			f := resolveIn(latest, r)
			k = "to-" + fmt.Sprintf("%T", f.V)[5:]
			if f.HasStream {
				k = "to-stream"
			}
		}
		c.label(k)
	}
	order := s.Perm(len(idx))
	korder := s.Perm(len(keys))
	c.Run = func(t *T) {
		p, err := load(data, pw)
		if err != nil {
			t.Fail("load", "%v", err)
		}
		av, ok := p.GetObject(ao.Num).Value.(pdf.Array)
		dv, ok2 := p.GetObject(do.Num).Value.(pdf.Dictionary)
		if !ok || !ok2 {
			t.Fail("value", "the containers are read as something else")
		}
		for _, i := range order {
			i := idx[i]
			in := i >= 0 && i < len(a)
			var v V
			if in {
				v = a[i]
			}
			checkLookups(t, latest, arrayLookups(av, i), v, in, fmt.Sprintf("[%d] of %d", i, len(a)))
			checkLookups(t, latest, arrayLookups(nil, i), nil, false, fmt.Sprintf("[%d] of the nil array", i))
		}
		for _, i := range korder {
			k := keys[i]
			v := d.get(k)
			checkLookups(t, latest, dictLookups(dv, k), v, v != nil, fmt.Sprintf("/%q", k))
			checkLookups(t, latest, dictLookups(nil, k), nil, false, fmt.Sprintf("/%q of the nil dictionary", k))
		}
		if x := diff(p.GetObject(ao.Num).Value, a); x != "" {
			t.Fail("changed", "after the lookups: %s", x)
		}
		if x := diff(av, a); x != "" {
			t.Fail("changed", "after the lookups: %s", x)
		}
		if x := diff(dv, d); x != "" {
			t.Fail("changed", "after the lookups: %s", x)
		}
	}
	return c
}

func vals(d Dict) Arr {
	r := Arr{}
	for _, e := range d {
		r = append(r, e.V)
	}
	return r
}

// pickKind makes a value of an evenly chosen kind.
func pickKind(s *Src, vo *valOpts, g *graph) V {
	switch s.N(13) {
	case 12:
		return Kw(pick(s, "truex", "True", "TRUE", "nul", "nulll", "Null", "falsee", "fals", "t", "f", "n", "tru", "FALSE", "endob", "xtrue"))
	case 0:
		return Null{}
	case 1:
		return Bool(s.Bool())
	case 2:
		return genInt(s)
	case 3:
		return genReal(s)
	case 4:
		return genStr(s, pick(s, 20, 20, 20, 400))
	case 5:
		return Name(genName(s))
	case 6:
		return Arr{}
	case 7:
		return Dict{}
	case 8:
		return Arr{genValue(s, 1, vo), Int(1)}
	case 9:
		return genDict(s, 1, vo, 2)
	case 10:
		return pick(s, V(Str("")), V(Name("true")), V(Str("null")), V(Int(0)), V(Real("0.0")), V(Name("")), V(Str("true")))
	}
	return g.target(s)
}
