package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{ID: "C13", Quick: 36000, Thorough: 540000,
		Rule: "A case is a document with a random page tree (nested nodes, inherited resources), random fonts with and without ToUnicode maps, and pages whose random operations are split over one or more streams; contents.txt must be exactly the text the generator's own interpretation of the operations gives. Non-trivial: at least 2 text-showing operations.",
		Gen: func(s *Src) *Case {
			x := newX(s, s)
			x.catalog(catOpts{pages: 100})
			return x.finish(s, func() bool { return x.labels["shown"] >= 2 })
		}})
	register(&Prop{ID: "C14", Quick: 45000, Thorough: 675000,
		Rule: "A case is a page showing random strings in 1 to 3 fonts whose ToUnicode maps have random single-code and range sections (start values and arrays) for codes of 1 to 4 bytes; contents.txt must be the strings translated by the generator's map. Non-trivial: the maps have at least 3 codes and at least one mapped code is shown.",
		Gen:  genC14})
	register(&Prop{ID: "C15", Quick: 60000, Thorough: 900000,
		Rule: "A case is a document with random actions (URI, script, launch, remote go-to ...) at random places (open action, additional actions, annotations, outlines, chained next actions, name trees, base URI), directly or by reference, some strings with line breaks; urls.txt, javascript.js and commands.txt must hold exactly the generated items, one per line. Non-trivial: at least 2 items.",
		Gen: func(s *Src) *Case {
			x := newX(s, s)
			if s.P(15) {
				x.nl = 20
			}
			x.catalog(catOpts{pages: 30, actions: 100})
			n := len(x.exp.URLs) + len(x.exp.JS) + len(x.exp.Commands)
			return x.finish(s, func() bool { return n >= 2 })
		}})
	register(&Prop{ID: "C16", Quick: 36000, Thorough: 540000,
		Rule: "A case is a document with embedded, external and URL file specifications in a file name tree, actions and attachments, and XFA forms as stream or array; files.txt must list exactly them, each embedded file must be in the output directory under its MD5 with its exact bytes, and nothing else may be there. Non-trivial: at least one embedded file or form.",
		Gen: func(s *Src) *Case {
			x := newX(s, s)
			x.catalog(catOpts{pages: 30, actions: 40, files: 100})
			return x.finish(s, func() bool { return len(x.exp.Dumps) > 0 })
		}})
}

// finish writes the document and makes the case that parses it.
func (x *X) finish(s *Src, nontrivial func() bool) *Case {
	w := WOpts{fancy: s.P(85)}
	data := x.doc.write(s, w)
	if !x.doc.unambiguous() {
		return discard()
	}
	pw := ""
	if x.doc.Crypt != nil {
		pw = string(x.doc.Crypt.User)
	}
	c := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: nontrivial()}
	for l := range x.labels {
		c.label(l)
	}
	c.Desc = x.describe()
	exp := x.exp
	c.Run = func(t *T) { exp.check(t, t.parse(data, pw)) }
	return c
}

func (x *X) describe() string {
	var p []string
	if len(x.exp.Text) > 0 {
		p = append(p, fmt.Sprintf("text %q", clip(strings.Join(x.exp.Text, ""), 80)))
	}
	if len(x.exp.URLs) > 0 {
		p = append(p, fmt.Sprintf("urls %q", x.exp.URLs))
	}
	if len(x.exp.JS) > 0 {
		p = append(p, fmt.Sprintf("scripts %q", x.exp.JS))
	}
	if len(x.exp.Commands) > 0 {
		p = append(p, fmt.Sprintf("commands %q", x.exp.Commands))
	}
	if len(x.exp.Files) > 0 {
		p = append(p, fmt.Sprintf("files %q", x.exp.Files))
	}
	return clip(x.doc.describe()+strings.Join(p, "; "), 400)
}

func genC14(s *Src) *Case {
	x := newX(s, s)
	m := map[string]*fontModel{}
	fd := Dict{}
	var names []string
	codes := 0
	for k := s.Int(1, 3); k > 0; k-- {
		n := fmt.Sprintf("F%d", k)
		f, text, st := genCMap(s, pick(s, 3, 8))
		codes += st.codes
		f.dict = x.maybeRef(Dict{{"Type", Name("Font")}, {"ToUnicode", x.addStream(Dict{}, text)}})
		if st.arrays > 0 {
			x.note("array-range")
		}
		if st.ranges > st.arrays {
			x.note("range")
		}
		if st.chars > 0 {
			x.note("chars")
		}
		if st.sections > 1 {
			x.note("several-sections")
		}
		x.note(fmt.Sprintf("width%d", f.width))
		m[n] = f
		names = append(names, n)
		fd = append(fd, KV{n, f.dict})
	}
	var toks []contentTok
	var out strings.Builder
	mapped := false
	for k := s.Int(1, 5); k > 0; k-- {
		n := names[s.N(len(names))]
		f := m[n]
		toks = append(toks, contentTok{op: "BT"}, contentTok{v: Name(n)}, contentTok{v: Int(9)}, contentTok{op: "Tf"})
		for j := s.Int(1, 4); j > 0; j-- {
			v := x.textString(f)
			if f.m != nil {
				for i := 0; i+f.width <= len(v); i += f.width {
					if _, ok := f.m[v[i:i+f.width]]; ok {
						mapped = true
					}
				}
			}
			if s.Bool() {
				toks = append(toks, contentTok{v: Str(v)}, contentTok{op: "Tj"})
			} else {
				// an array splits the string anywhere, even within a code
				a := Arr{}
				for rest := v; ; {
					i := s.N(len(rest) + 1)
					a = append(a, Str(rest[:i]))
					rest = rest[i:]
					if rest == "" {
						break
					}
					if s.Bool() {
						a = append(a, Int(-50))
					}
					if len(a) > 8 {
						a = append(a, Str(rest))
						break
					}
				}
				toks = append(toks, contentTok{v: a}, contentTok{op: "TJ"})
			}
			out.WriteString(f.decode([]byte(v)) + "\n")
		}
		toks = append(toks, contentTok{op: "ET"})
	}
	kids := x.reserve()
	page := x.add(Dict{{"Type", Name("Page")}, {"Parent", kids.ref()}, {"Resources", Dict{{"Font", x.maybeRef(fd)}}}, {"Contents", x.contentStreams(toks)}})
	x.define(kids, Dict{{"Type", Name("Pages")}, {"Kids", Arr{page}}, {"Count", Int(1)}})
	x.doc.Root = x.add(Dict{{"Type", Name("Catalog")}, {"Pages", kids.ref()}})
	x.exp.Text = []string{out.String()}
	return x.finish(s, func() bool { return codes >= 3 && mapped })
}
