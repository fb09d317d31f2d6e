package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{ID: "C07", Quick: 60000, Thorough: 900000,
		Rule: "A case is a document encrypted by the generator's own standard security handler (RC4 40 to 128 bits, AES-128, any choice of crypt filters and per-stream overrides, user and owner passwords of 0 to 50 bytes), either random objects and streams compared object by object with their plaintext, or a document with text, actions and files whose extraction must equal what was put in. Non-trivial: at least two encrypted strings or streams.",
		Gen:  genC07})
	register(&Prop{ID: "C08", Quick: 36000, Thorough: 540000,
		Rule: "A case is an encrypted document with things to extract, opened with a wrong password (random, a prefix or extension of the right one, empty, the owner's), or with its encryption dictionary damaged (entries missing, of other types, unsupported, hostile, or with one bit of an entry changed that the key depends on); the documented error must come back and the output must be empty. Non-trivial: the document has at least one item to extract.",
		Gen:  genC08})
}

func countStr(v V) int {
	switch x := v.(type) {
	case Str:
		if len(x) > 0 {
			return 1
		}
	case Arr:
		n := 0
		for _, e := range x {
			n += countStr(e)
		}
		return n
	case Dict:
		n := 0
		for _, e := range x {
			n += countStr(e.V)
		}
		return n
	}
	return 0
}

func genC07(s *Src) *Case {
	if s.P(45) {
		x := newX(s, s)
		x.setCrypt(genCrypt(s, true))
		x.cryptOver = pick(s, 0, 20)
		x.catalog(catOpts{pages: 60, actions: 60, files: 60})
		x.note("extraction")
		return x.finish(s, func() bool {
			return len(x.exp.URLs)+len(x.exp.JS)+len(x.exp.Commands)+len(x.exp.Files)+len(x.exp.Text) >= 2
		})
	}
	b := newBuilder(s)
	c := genCrypt(s, true)
	b.setCrypt(c)
	b.cryptOver = pick(s, 0, 30)
	items := 0
	vo := &valOpts{maxStr: pick(s, 60, 300)}
	for k := s.Int(1, 8); k > 0; k-- {
		switch s.W(5, 4, 2, 1) {
		case 0:
			v := genValue(s, 3, vo)
			items += countStr(v)
			b.add(v)
		case 1:
			d := genDict(s, 2, vo, s.Small(4))
			b.addStream(d.with("Zz", genStr(s, 20)), s.Data(1500))
			items += 2
		case 2:
			d := Dict{{"Type", Name("EmbeddedFile")}}
			b.addStream(d, s.Data(1500))
			items++
		case 3:
			// metadata that is left in the clear says so with an identity filter
			d := Dict{{"Type", Name("Metadata")}, {"Subtype", Name("XML")}}
			over := b.cryptOver
			if !c.EncMeta && c.V == 4 {
				data := s.Data(300)
				o := b.reserve()
				o.StmMethod = "Identity"
				d = append(d, KV{"Filter", Arr{Name("Crypt")}}, KV{"DecodeParms", Arr{Dict{{"Name", Name("Identity")}}}})
				b.rawStream(o, d, data, data)
			} else {
				b.addStream(d, s.Data(300))
			}
			b.cryptOver = over
		}
	}
	// strings as direct elements of containers, at any depth
	b.add(Arr{genStr(s, 30), Dict{{"A", genStr(s, 30)}, {"B", Arr{genStr(s, 10)}}}})
	data := b.doc.write(s, WOpts{fancy: s.P(80)})
	if !b.doc.unambiguous() {
		return discard()
	}
	cs := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: items >= 2, Desc: b.doc.describe()}
	cs.label(fmt.Sprintf("V%dR%d", c.V, c.R))
	if c.V == 4 {
		cs.label("str-" + c.strMethod())
		cs.label("stm-" + c.stmMethod())
		if c.fileMethod() != c.stmMethod() {
			cs.label("own-file-filter")
		}
	}
	latest := b.doc.latest()
	for _, o := range latest {
		if o.StmMethod != "" {
			cs.label("override")
			break
		}
	}
	order := s.Perm(len(latest))
	xrefNums := []int{}
	for _, r := range b.doc.Revs {
		if r.Kind == xrefStream {
			xrefNums = append(xrefNums, r.XrefNum)
		}
	}
	cs.Run = func(t *T) {
		p, err := load(data, string(c.User))
		if err != nil {
			t.Fail("load", "the right password was refused: %v", err)
		}
		objs := sortedObjs(latest)
		for round := 0; round < 2; round++ {
			for _, i := range order {
				checkObj(t, p, objs[i], "")
			}
		}
		// cross-reference streams are read as written
		for _, n := range xrefNums {
			d, ok := p.GetObject(n).Value.(pdf.Dictionary)
			if !ok {
				t.Fail("xref", "cross-reference stream %d is not a dictionary", n)
			}
			ids, _ := d.GetArray("ID")
			if id, _ := ids.GetString(0); id != string(c.ID) {
				t.Fail("xref", "the ID string of cross-reference stream %d was changed: %q, want %q", n, id, c.ID)
			}
		}
	}
	return cs
}

// failing checks that a parse that must fail extracts nothing.
func (t *T) failing(data []byte, pw string, want []error, what string) {
	o := t.parse(data, pw)
	ok := false
	for _, w := range want {
		if (w == nil && o.Err == nil) || (w != nil && errors.Is(o.Err, w)) {
			ok = true
		}
	}
	if !ok {
		t.Fail("wrong-error", "%s: parse returned %v, want %v", what, o.Err, want)
	}
	if len(o.Missing) > 0 {
		t.Fail("missing", "%s: output files missing: %v", what, o.Missing)
	}
	if o.Err == nil {
		return
	}
	for _, f := range []struct {
		n string
		b []byte
	}{{"commands.txt", o.Commands}, {"contents.txt", o.Text}, {"files.txt", o.FilesTxt}, {"javascript.js", o.JS}, {"urls.txt", o.URLs}, {"raw.pdf", o.Raw}} {
		if len(f.b) > 0 {
			t.Fail("content", "%s: %s is not empty: %q", what, f.n, clip(string(f.b), 200))
		}
	}
	if len(o.Files) > 0 {
		t.Fail("content", "%s: files were extracted", what)
	}
}

func genC08(s *Src) *Case {
	x := newX(s, s)
	c := genCrypt(s, true)
	right := string(c.User)
	what := ""
	var want []error
	pw := right
	kind := s.W(5, 3, 3, 2, 3)
	switch kind {
	case 4: // an entry that the password is verified with is changed
		want = []error{pdf.EncryptionPasswordError, pdf.EncryptionError}
		flip := func(b []byte, n int) []byte {
			b = append([]byte{}, b...)
			b[s.N(n)] ^= byte(1 << s.N(8))
			return b
		}
		switch k := s.N(7); k {
		case 0:
			n := 16
			if c.R == 2 {
				n = 32
			}
			c.Dict = c.Dict.with("U", Str(flip(c.U, n)))
			what = "changed U"
		case 1:
			if c.R != 2 {
				return discard()
			}
			c.Dict = c.Dict.with("U", Str(c.U[:pick(s, 0, 31, 16, s.N(32))]))
			what = "cut U"
		case 2:
			c.Dict = c.Dict.with("O", Str(flip(c.O, 32)))
			what = "changed O"
		case 3:
			c.Dict = c.Dict.with("P", Int(int32(uint32(c.P)^1<<s.N(32))))
			what = "changed P"
		case 4:
			if len(c.ID) == 0 {
				return discard()
			}
			var v V = Arr{Str(flip(c.ID, len(c.ID))), Str(c.ID)}
			c.trailerID = &v
			what = "changed ID"
		case 5:
			if c.R < 4 {
				return discard()
			}
			c.Dict = c.Dict.with("EncryptMetadata", Bool(!c.EncMeta))
			what = "changed EncryptMetadata"
		case 6:
			n := 8 * s.Int(5, 16)
			if c.V != 2 || n == 8*c.KeyLen {
				return discard()
			}
			c.Dict = c.Dict.with("Length", Int(n))
			what = "changed Length"
		}
	case 0: // wrong password
		for k := 0; k < 20; k++ {
			switch s.N(8) {
			case 0:
				pw = string(genPassword(s))
			case 1:
				pw = ""
			case 2:
				pw = string(c.Owner)
			case 3:
				pw = right + string(s.Raw(s.Int(1, 3)))
			case 4:
				if right != "" {
					pw = right[:s.N(len(right))]
				}
			case 5:
				if right != "" {
					b := []byte(right)
					b[s.N(len(b))] ^= byte(1 << s.N(8))
					pw = string(b)
				}
			case 6:
				pw = string(bytes.ToUpper([]byte(right)))
			case 7:
				if len(right) > 1 {
					pw = right[1:] + right[:1]
				}
			}
			if !bytes.Equal(pad32([]byte(pw)), pad32([]byte(right))) {
				break
			}
		}
		if bytes.Equal(pad32([]byte(pw)), pad32([]byte(right))) {
			return discard()
		}
		what = fmt.Sprintf("password %q instead of %q", pw, right)
		want = []error{pdf.EncryptionPasswordError}
	case 1: // unsupported
		want = []error{pdf.EncryptionUnsupported}
		switch s.N(3) {
		case 0:
			v := pick[V](s, Name("Foo.Sec"), Name("standard"), Name(""), Str("Standard"), Int(1), nil, Null{})
			what = "Filter " + show(v)
			c.Dict = c.Dict.with("Filter", v)
		case 1:
			v := pick[V](s, Int(0), Int(3), Int(5), Int(6), Int(-1), Int(1000000), Name("4"), Str("2"), nil, Null{})
			what = "V " + show(v)
			c.Dict = c.Dict.with("V", v)
		case 2:
			v := pick[V](s, Int(0), Int(1), Int(5), Int(6), Int(-2), Int(65536+3), Name("3"), nil, Null{}, Arr{Int(3)})
			what = "R " + show(v)
			c.Dict = c.Dict.with("R", v)
		}
	case 2: // missing entries
		want = []error{pdf.EncryptionError}
		k := pick(s, "O", "U", "P", "ID", "Encrypt", "shortU")
		v := pick[V](s, nil, Null{}, Int(3), Name("x"), Arr{}, Dict{}, Bool(true))
		if k == "P" {
			v = pick[V](s, nil, Null{}, Name("x"), Str("1234"), Arr{}, Dict{})
		}
		if k == "ID" {
			v = pick[V](s, nil, Null{}, Int(3), Name("x"), Arr{}, Dict{}, Str("0123456789012345"), Arr{Int(1)}, Arr{Name("x"), Str("abc")})
		}
		what = k + " " + show(v)
		switch k {
		case "ID", "Encrypt":
			// set in the trailer below
			if k == "Encrypt" {
				v = pick[V](s, Int(3), Name("Standard"), Arr{}, Str("x"))
				what = k + " " + show(v)
				c.trailerEncrypt = v
			} else {
				c.trailerID = &v
			}
		case "shortU":
			if c.R < 3 {
				return discard()
			}
			c.Dict = c.Dict.with("U", Str(c.U[:s.N(16)]))
			what = "short U"
		default:
			c.Dict = c.Dict.with(k, v)
		}
	case 3: // anything at all
		want = []error{pdf.EncryptionPasswordError, pdf.EncryptionUnsupported, pdf.EncryptionError, nil}
		for k := s.Int(1, 4); k > 0; k-- {
			key := pick(s, "O", "U", "P", "Length", "CF", "StmF", "StrF", "EFF", "V", "R", "EncryptMetadata")
			v := hostileValue(s, 2)
			if key == "CF" && s.P(60) {
				cf := Dict{}
				for _, n := range []string{"StdCF", "Identity", "Other"} {
					if s.Bool() {
						cf = append(cf, KV{n, Dict{{"CFM", pick[V](s, Name("AESV2"), Name("V2"), Name("None"), Name("AESV3"), hostileValue(s, 1))}, {"Length", hostileValue(s, 1)}}})
					}
				}
				v = cf
			}
			c.Dict = c.Dict.with(key, v)
			what += key + " " + clip(show(v), 60) + " "
		}
	}
	// entries without a value are left out
	d := Dict{}
	for _, e := range c.Dict {
		if e.V != nil {
			d = append(d, e)
		}
	}
	c.Dict = d
	x.setCrypt(c)
	x.catalog(catOpts{pages: 70, actions: 70, files: 70})
	data := x.doc.write(s, WOpts{fancy: s.P(80)})
	if !x.doc.unambiguous() {
		return discard()
	}
	n := len(x.exp.URLs) + len(x.exp.JS) + len(x.exp.Commands) + len(x.exp.Files) + len(x.exp.Text)
	cs := &Case{Files: map[string][]byte{"input.pdf": data}, NonTrivial: n > 0}
	cs.Desc = clip(what+" in "+c.String(), 300)
	cs.label([]string{"wrong-password", "unsupported", "missing-entry", "hostile", "tampered"}[kind])
	cs.label(fmt.Sprintf("V%dR%d", c.V, c.R))
	cs.Run = func(t *T) {
		t.failing(data, pw, want, what)
		if kind != 3 {
			p := pdf.NewParser(bytes.NewReader(data), nil)
			err := p.Load(pw)
			ok := false
			for _, w := range want {
				ok = ok || errors.Is(err, w)
			}
			if !ok {
				t.Fail("wrong-error", "%s: load returned %v, want %v", what, err, want)
			}
			if kind == 0 {
				// the right password still works
				if err := p.Load(right); err != nil {
					t.Fail("wrong-error", "the right password gives %v after %s", err, what)
				}
			}
		}
	}
	return cs
}

// hostileValue is a value nobody expects where it is put.
func hostileValue(s *Src, depth int) V {
	switch s.N(11) {
	case 0:
		return Null{}
	case 1:
		return Int(pick(s, -1, 0, 1, 7, 39, 129, 1<<31-1, 1<<31, -(1 << 31), 1<<62, -(1 << 62)))
	case 2:
		return Real(pick(s, "0.5", "-0.1", "1e10", "99999999999999999999999999999999", "4.0"))
	case 3:
		return Name(pick(s, "", "Standard", "Identity", "V2", "StdCF", "AESV2"))
	case 4:
		return Str(s.Raw(s.Small(40)))
	case 5:
		return Bool(s.Bool())
	case 6:
		return Ref{s.N(12), 0}
	case 7:
		return Arr{}
	case 8:
		return Dict{}
	case 9:
		if depth > 0 {
			a := Arr{}
			for k := s.Small(4); k > 0; k-- {
				a = append(a, hostileValue(s, depth-1))
			}
			return a
		}
	case 10:
		if depth > 0 {
			return Dict{{"CFM", hostileValue(s, depth-1)}, {"Length", hostileValue(s, depth-1)}, {"Name", hostileValue(s, depth-1)}}
		}
	}
	return Int(s.Small(100))
}
