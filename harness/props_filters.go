package main

import (
	"bytes"
	"fmt"
	"strings"
)

func init() {
	register(&Prop{ID: "C04", Quick: 70000, Thorough: 1050000,
		Rule: "A case is a file with 1 to 3 streams, each random data under a random chain of 0 to 4 encodings with random encoder choices, parameter layouts and references. Non-trivial: at least one chain has a filter and at least 4 bytes of data.",
		Gen:  genC04})
	register(&Prop{ID: "C05", Quick: 220000, Thorough: 3300000,
		Rule: "A case is random image-like data under a random predictor (PNG row algorithms or TIFF), colours, bits and columns, compressed with Flate or LZW. Non-trivial: at least two rows, or one row of at least two pixels.",
		Gen:  genC05})
	register(&Prop{ID: "C06", Quick: 240000, Thorough: 3600000,
		Rule: "A case is the encoding of random data by one filter (sometimes predicted), cut at a random point, or complete with garbage after the end marker, or named with an unsupported filter. Non-trivial: cut strictly inside, with at least 4 bytes of data.",
		Gen:  genC06})
}

func bigData(s *Src) []byte {
	switch s.W(6, 3, 1) {
	case 0:
		return s.Data(400)
	case 1:
		return s.Data(5000)
	}
	return s.Data(70000)
}

func chainNames(st []*encStage) string {
	var n []string
	for _, e := range st {
		x := e.filter
		if e.parms != nil {
			x += show(e.parms)
		}
		n = append(n, x)
	}
	return "[" + strings.Join(n, " ") + "]"
}

func genC04(s *Src) *Case {
	b := newBuilder(s)
	b.indir = pick(s, 0, 30, 60)
	c := &Case{Files: map[string][]byte{}}
	var ds []string
	for k := s.Int(1, 3); k > 0; k-- {
		plain := bigData(s)
		n := s.W(1, 6, 4, 2, 1)
		st, enc := encChain(s, plain, n, true, true)
		f, p := chainEntries(s, st, true)
		d := genDict(s, 1, &valOpts{}, s.Small(2))
		// layouts equivalent to the usual ones
		if fa, ok := f.(Arr); ok && len(fa) == 1 && s.P(30) {
			if pa, ok := p.(Arr); ok && len(pa) == 1 {
				if pd, ok := pa[0].(Dict); ok {
					p = pd
				}
			}
		}
		if _, ok := f.(Name); ok && s.P(20) {
			if pd, ok := p.(Dict); ok {
				p = Arr{pd}
			}
		}
		if f != nil {
			d = append(d, KV{"Filter", b.deepRef(f)})
		}
		if p != nil {
			d = append(d, KV{"DecodeParms", b.deepRef(p)})
		}
		b.rawStream(b.reserve(), d, enc, plain)
		for _, e := range st {
			c.label(e.filter)
		}
		c.label(fmt.Sprintf("chain%d", len(st)))
		if len(st) > 0 && len(plain) >= 4 {
			c.NonTrivial = true
		}
		ds = append(ds, fmt.Sprintf("%d bytes %s filter=%s parms=%s", len(plain), chainNames(st), show(f), show(p)))
	}
	data := b.doc.write(s, WOpts{fancy: true})
	if !b.doc.unambiguous() {
		return discard()
	}
	c.Files["input.pdf"] = data
	c.Desc = clip(strings.Join(ds, "; "), 300)
	objs := b.rev.Objs
	c.Run = func(t *T) {
		p, err := load(data, "")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		for _, o := range objs {
			checkObj(t, p, o, "")
		}
	}
	return c
}

func genC05(s *Src) *Case {
	b := newBuilder(s)
	b.indir = pick(s, 0, 20)
	p := genPredictor(s)
	rows := s.Small(12)
	most := 20000
	if s.N(1000) >= 996 { // a wide image
		p.Columns = s.Int(300, 70000)
		p.Colors = pick(s, p.Colors, 8, 32)
		rows = s.Int(1, 3)
		most = 1 << 20
	}
	rb := p.rowBytes()
	n := rows * rb
	partial := s.P(30)
	if partial {
		n += s.N(rb + 1)
	}
	if n > most {
		n = most
	}
	var plain []byte
	switch s.N(3) {
	case 0:
		plain = s.Expand(n, nil)
	case 1: // smooth
		plain = make([]byte, n)
		v := s.N(256)
		step := s.Expand(n, []byte{0, 1, 2, 255, 254, 0, 0, 7})
		for i := range plain {
			v += int(step[i])
			plain[i] = byte(v)
		}
	case 2:
		plain = s.Expand(n, []byte{0, 255, 128, 127, 1})
	}
	if p.Predictor == 2 && p.Bits == 16 && n%2 == 1 {
		plain = plain[:n-1]
	}
	pre := p.apply(s, plain)
	filter := pick(s, "FlateDecode", "LZWDecode")
	parms := p.parms(s)
	var enc []byte
	if filter == "FlateDecode" {
		enc = encFlate(s, pre, true)
	} else {
		early := 1 - s.N(2)
		enc = encLZW(s, pre, early, true)
		if early == 0 || s.Bool() {
			parms = append(parms, KV{"EarlyChange", Int(early)})
		}
	}
	var fv, pv V = Name(filter), permDict(s, parms)
	if s.P(25) {
		st := encStageOf(s, pick(s, "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode"), enc, true, false)
		enc = st.out
		fv, pv = Arr{Name(st.filter), Name(filter)}, Arr{Null{}, pv}
	}
	d := Dict{{"Filter", b.deepRef(fv)}, {"DecodeParms", b.deepRef(pv)}}
	o := b.reserve()
	b.rawStream(o, d, enc, plain)
	data := b.doc.write(s, WOpts{})
	if !b.doc.unambiguous() {
		return discard()
	}
	c := &Case{Files: map[string][]byte{"input.pdf": data}}
	c.NonTrivial = len(plain) > rb || (len(plain) > 1 && p.Columns > 1)
	c.Desc = fmt.Sprintf("%s predictor %d colors %d bits %d columns %d, %d bytes (%d per row), rows %v", filter, p.Predictor, p.Colors, p.Bits, p.Columns, len(plain), rb, clip(fmt.Sprint(p.rows), 40))
	c.label(fmt.Sprintf("pred%d", p.Predictor))
	c.label(fmt.Sprintf("bits%d", p.Bits))
	for _, r := range p.rows {
		c.label(fmt.Sprintf("rowalg%d", r))
	}
	if len(plain)%rb != 0 {
		c.label("partial-row")
	}
	c.Run = func(t *T) {
		p, err := load(data, "")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		checkObj(t, p, o, "")
	}
	return c
}

func genC06(s *Src) *Case {
	b := newBuilder(s)
	c := &Case{Files: map[string][]byte{}}
	plain := s.Data(pick(s, 60, 600, 6000))
	mode := s.W(7, 3, 1)
	filter := pick(s, "FlateDecode", "LZWDecode", "RunLengthDecode", "ASCII85Decode", "ASCIIHexDecode")
	var enc, want []byte
	parms := Dict(nil)
	early := 1
	isPred := false
	switch filter {
	case "FlateDecode", "LZWDecode":
		pre := plain
		if s.P(35) {
			p := genPredictor(s)
			if p.Bits == 16 {
				p.Bits = 8 // the first half of a 16 bit sample says nothing about its value
			}
			pre = p.apply(s, plain)
			parms = p.parms(s)
			isPred = true
		}
		if filter == "FlateDecode" {
			enc = encFlate(s, pre, true)
		} else {
			early = 1 - s.N(2)
			enc = encLZW(s, pre, early, true)
			if early == 0 {
				parms = append(parms, KV{"EarlyChange", Int(0)})
			}
		}
	default:
		enc = encStageOf(s, filter, plain, true, false).out
	}
	var f V = Name(filter)
	switch mode {
	case 0: // cut
		full := enc
		cut := s.N(len(enc) + 1)
		if s.P(30) {
			cut = min(len(enc), s.N(24))
		}
		enc = enc[:len(enc)-cut]
		if s.P(50) {
			enc = full[:cut]
		}
		c.label("cut-" + filter)
		c.NonTrivial = len(plain) >= 4 && len(enc) < len(full) && len(enc) > 0
		switch filter {
		case "ASCIIHexDecode":
			want = refHex(enc)
		case "ASCII85Decode":
			want = refA85(enc)
		case "RunLengthDecode":
			want = refRL(enc)
		default:
			// decoders may look ahead by up to two bytes
			some := false
			decodable := func(e []byte) int {
				var part []byte
				if filter == "FlateDecode" {
					part, _ = refInflate(e)
				} else {
					part = refLZW(e, early)
				}
				n := len(part)
				some = some || n > 0
				if pv, _ := parms.get("Predictor").(Int); pv >= 10 {
					rb := predRowBytes(parms) + 1
					n = n - (n+rb-1)/rb
				}
				return min(n, len(plain))
			}
			hi := decodable(enc)
			lo := hi
			if filter == "FlateDecode" {
				lo = decodable(enc[:max(0, len(enc)-2)])
			}
			d := Dict{{"Filter", f}}
			if parms != nil {
				d = append(d, KV{"DecodeParms", parms})
			}
			return finishC06cut(s, c, b, d, enc, plain, lo, hi, !some && len(plain) > 0, fmt.Sprintf("cut %s parms %s", filter, show(parms)))
		}
		if !isPred && filter != "FlateDecode" && filter != "LZWDecode" && len(want) > 0 {
			// sanity of the oracle: complete units are a prefix
			k := len(want)
			if k > 4 && !bytes.HasPrefix(plain, want[:k-4]) {
				panic("oracle of C06 is wrong for " + filter)
			}
		}
	case 1: // garbage after the end
		garbage := s.Raw(s.Int(1, 20))
		switch filter {
		case "RunLengthDecode":
			if len(enc) == 0 || enc[len(enc)-1] != 128 || !bytes.Equal(refRL(enc[:len(enc)-1]), plain) {
				enc = append(enc, 128) // an explicit end is needed
			}
			if !bytes.Equal(refRL(append(append([]byte{}, enc...), garbage...)), plain) {
				return discard()
			}
		}
		enc = append(append([]byte{}, enc...), garbage...)
		want = plain
		c.label("garbage-" + filter)
		c.NonTrivial = len(plain) >= 4
	case 2: // unsupported filter, alone or after supported ones
		name := pick(s, "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode", "Foo", "flatedecode", "FlateDecod", "")
		parms = nil
		c.label("unsupported")
		c.NonTrivial = len(plain) >= 4
		if s.Bool() {
			st := encStageOf(s, filter, plain, true, false)
			enc, want = st.out, plain
			f = Arr{Name(filter), Name(name)}
			var pv V = Null{}
			if st.parms != nil {
				pv = st.parms
			}
			d := Dict{{"Filter", f}, {"DecodeParms", Arr{pv, Null{}}}}
			return finishC06(s, c, b, d, enc, want, plain, "unsupported after "+filter)
		}
		f, enc, want = Name(name), plain, plain
	}
	d := Dict{{"Filter", f}}
	if parms != nil {
		d = append(d, KV{"DecodeParms", parms})
	}
	return finishC06(s, c, b, d, enc, want, plain, fmt.Sprintf("mode %d %s parms %s", mode, filter, show(parms)))
}

func predRowBytes(parms Dict) int {
	get := func(k string, def int) int {
		if v, ok := parms.get(k).(Int); ok {
			return int(v)
		}
		return def
	}
	return (get("Colors", 1)*get("BitsPerComponent", 8)*get("Columns", 1) + 7) / 8
}

func finishC06(s *Src, c *Case, b *Builder, d Dict, enc, want, plain []byte, what string) *Case {
	o := b.reserve()
	b.rawStream(o, d, enc, want)
	data := b.doc.write(s, WOpts{})
	if !b.doc.unambiguous() {
		return discard()
	}
	c.Files["input.pdf"] = data
	c.Desc = fmt.Sprintf("%s: %d of the encoded bytes of %d bytes, want %d", what, len(enc), len(plain), len(want))
	c.Run = func(t *T) {
		p, err := load(data, "")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		checkObj(t, p, o, what+": ")
	}
	return c
}

// finishC06cut: the stream must be a prefix of the data with lo to hi bytes, or
// the stored bytes if nothing can be decoded (which nothing says for certain).
func finishC06cut(s *Src, c *Case, b *Builder, d Dict, enc, plain []byte, lo, hi int, nothing bool, what string) *Case {
	o := b.reserve()
	b.rawStream(o, d, enc, nil)
	data := b.doc.write(s, WOpts{})
	if !b.doc.unambiguous() {
		return discard()
	}
	c.Files["input.pdf"] = data
	c.Desc = fmt.Sprintf("%s: %d encoded bytes of %d bytes, decodable %d to %d", what, len(enc), len(plain), lo, hi)
	c.Run = func(t *T) {
		p, err := load(data, "")
		if err != nil {
			t.Fail("load", "%v", err)
		}
		got := p.GetObject(o.Num).Stream
		if lo == 0 && bytes.Equal(got, enc) {
			return
		}
		if nothing {
			t.Fail("stream", "%s: nothing can be decoded, but the stored bytes are not kept: %s", c.Desc, diffBytes(got, enc))
		}
		if !bytes.HasPrefix(plain, got) {
			t.Fail("stream", "%s: not a prefix: %s", c.Desc, diffBytes(got, plain))
		}
		if len(got) < lo || len(got) > hi {
			t.Fail("stream", "%s: %d bytes decoded", c.Desc, len(got))
		}
	}
	return c
}
