package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{ID: "C25", Quick: 60000, Thorough: 900000,
		Rule: "A case is a document (one revision, not encrypted) read through a source whose reads fail: (a) from some offset on, for good; (b) at some calls while the document is loaded; (c) at some calls between successful phases of a random sequence of reads, resolutions and lookups. Failures differ in the error, in whether bytes are delivered along with it and in whether it persists. Non-trivial: a failure was met and at least one object lies in the readable part or is read after the failures.",
		Gen:  genC25})
}

// faultySource fails reads as told.
type faultySource struct {
	r     *bytes.Reader
	from  int64 // reads at or beyond fail (-1: none)
	next  int   // this many reads succeed, then fail (-1: none)
	fails int   // this many fail then (-1: all)
	part  bool  // deliver what is before along with the error
	piece int   // most bytes per read (0: any)
	err   error
	met   int
}

func (f *faultySource) Read(p []byte) (int, error) {
	if f.piece > 0 && len(p) > f.piece {
		p = p[:f.piece]
	}
	if f.next == 0 && f.fails != 0 {
		if f.fails > 0 {
			f.fails--
		}
		f.met++
		return 0, f.err
	}
	if f.next > 0 {
		f.next--
	}
	if f.from >= 0 {
		at, _ := f.r.Seek(0, io.SeekCurrent)
		if at >= f.from {
			f.met++
			return 0, f.err
		}
		if int64(len(p)) >= f.from-at {
			n, _ := f.r.Read(p[:f.from-at])
			if f.part {
				f.met++
				return n, f.err
			}
			return n, nil
		}
	}
	return f.r.Read(p)
}

func (f *faultySource) Seek(o int64, w int) (int64, error) { return f.r.Seek(o, w) }

func (f *faultySource) heal() { f.from, f.next = -1, -1 }

var faults = []error{errors.New("input/output error"), io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, io.ErrClosedPipe, io.EOF}

func genC25(s *Src) *Case {
	b := randomDoc(s, 12, false, &valOpts{maxStr: pick(s, 0, 0, 3000)})
	w := WOpts{fancy: s.P(60)}
	if s.P(40) {
		w.pad, w.padMax = pick(s, 3, 12), pick(s, 300, 4200)
	}
	if s.P(30) {
		b.rev.Kind = xrefNone
		w.noStart = true
	}
	data := b.doc.write(s, w)
	if !b.doc.unambiguous() {
		return discard()
	}
	objs := b.rev.Objs
	c := &Case{Files: map[string][]byte{"input.pdf": data}}
	src := func() *faultySource {
		return &faultySource{r: bytes.NewReader(data), from: -1, next: -1, fails: -1}
	}
	fault := pick(s, faults...)
	part, piece := s.Bool(), pick(s, 0, 0, 0, 1, 7, 512)
	kind := s.W(4, 2, 4)
	c.label([]string{"from-an-offset", "while-loading", "after-loading"}[kind])
	c.label(fmt.Sprintf("error %v", fault))
	order := s.Perm(len(objs))
	// every object can be asked for, and must be something
	ask := func(t *T, p *pdf.Parser) {
		for _, i := range order {
			got := p.GetObject(objs[i].Num)
			if got == nil || got.Value == nil {
				t.Fail("nil-object", "object %d: nil while reads fail", objs[i].Num)
			}
			if got.Number != objs[i].Num {
				t.Fail("number", "asked for object %d, got %d", objs[i].Num, got.Number)
			}
			if r, ok := got.Value.(*pdf.Reference); ok && r != nil {
				r.Resolve()
				r.ResolveStream()
			}
			if d, ok := got.Value.(pdf.Dictionary); ok {
				for k := range d {
					d.GetObject(k)
					d.GetStream(k)
				}
			}
		}
	}
	switch kind {
	case 0:
		at := int64(s.N(len(data) + 1))
		if s.Bool() && len(objs) > 0 { // near an object
			o := objs[s.N(len(objs))]
			at = int64(min(len(data), b.doc.Built.Offsets[o]+s.N(200)))
		}
		m := &malDoc{b: b, data: data[:at], cutAt: int(at), full: len(data)}
		var whole []*Obj
		for _, i := range order {
			o := objs[i]
			if m.whole(o) && !(o.HasStream && hasRefs(o.V)) {
				whole = append(whole, o)
			}
		}
		c.NonTrivial = len(whole) > 0
		c.Desc = fmt.Sprintf("%d objects, %d in the readable part, reads at %d of %d fail with %v", len(objs), len(whole), at, len(data), fault)
		c.Run = func(t *T) {
			f := src()
			f.from, f.err, f.part, f.piece = at, fault, part, piece
			p := pdf.NewParser(f, nil)
			if err := p.Load(""); err != nil {
				t.Fail("load", "%v", err)
			}
			ask(t, p)
			for _, o := range whole {
				checkObj(t, p, o, "in the readable part: ")
			}
			if f.met == 0 && int(at) < len(data) {
				t.Label("not-met")
			}
		}
		if s.P(10) { // the real file, cut, through the whole program
			c.label("parse")
			run := c.Run
			c.Run = func(t *T) {
				run(t)
				dir := filepath.Join(t.dir, "isdir.pdf")
				os.MkdirAll(dir, 0755)
				out := filepath.Join(t.dir, "dirout")
				err := pdf.Parse(dir, "", out) // a directory opens but each read fails
				for _, n := range []string{"raw.pdf", "contents.txt", "files.txt", "urls.txt"} {
					b, rerr := os.ReadFile(filepath.Join(out, n))
					if (err == nil && rerr != nil) || len(b) > 0 {
						t.Fail("unreadable", "parsing a directory (error %v): %s holds %d bytes (%v)", err, n, len(b), rerr)
					}
				}
			}
		}
	case 1:
		first, n := s.N(12), pick(s, 1, 1, 2, 5, -1)
		c.NonTrivial = true
		c.Desc = fmt.Sprintf("%d objects; after %d reads %d reads fail with %v while loading", len(objs), first, n, fault)
		c.Run = func(t *T) {
			f := src()
			f.next, f.fails, f.err, f.part, f.piece = first, n, fault, part, piece
			p := pdf.NewParser(f, nil)
			p.Load("") // may fail or not
			if f.met == 0 {
				t.Label("not-met")
			}
			ask(t, p)
			// a fresh parser on the same source, now healthy
			f.heal()
			q := pdf.NewParser(f, nil)
			if err := q.Load(""); err != nil {
				t.Fail("load", "after the failures: %v", err)
			}
			for _, o := range objs {
				checkObj(t, q, o, "with a new parser after the failures: ")
			}
		}
	case 2:
		type phase struct {
			first, n int
			ask      []int
		}
		var ph []phase
		for k := s.Int(1, 5); k > 0; k-- {
			x := phase{s.N(4), pick(s, 1, 1, 2, 3, -1), nil}
			for j := s.Int(1, 4); j > 0; j-- {
				x.ask = append(x.ask, s.N(len(objs)))
			}
			ph = append(ph, x)
		}
		c.NonTrivial = true
		c.Desc = fmt.Sprintf("%d objects; %d phases of failing reads (%v) after loading", len(objs), len(ph), fault)
		c.Run = func(t *T) {
			f := src()
			f.err, f.part, f.piece = fault, part, piece
			p := pdf.NewParser(f, nil)
			if err := p.Load(""); err != nil {
				t.Fail("load", "%v", err)
			}
			for _, x := range ph {
				f.next, f.fails = x.first, x.n
				for _, i := range x.ask {
					if got := p.GetObject(objs[i].Num); got == nil || got.Value == nil {
						t.Fail("nil-object", "object %d: nil while reads fail", objs[i].Num)
					}
				}
				f.heal()
				for _, i := range order[:(len(order)+1)/2] {
					checkObj(t, p, objs[i], "after failing reads: ")
				}
			}
			ask(t, p)
			for _, o := range objs {
				checkObj(t, p, o, "in the end: ")
			}
			if f.met == 0 {
				t.Label("not-met")
			}
		}
	}
	return c
}
