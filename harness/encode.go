package main

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"fmt"
)

// Encoders for the stream filters, written from the PDF specification.

func encHex(s *Src, data []byte, fancy bool) []byte {
	var b bytes.Buffer
	ws := func() {
		if fancy && s.P(5) {
			b.WriteString(pick(s, " ", "\n", "\r\n", "\t", "\x00", "\f", "\r"))
		}
	}
	quick := !fancy || len(data) > 400
	for i, c := range data {
		if quick {
			fmt.Fprintf(&b, "%02X", c)
			if i%40 == 39 {
				b.WriteByte('\n')
			}
			continue
		}
		ws()
		b.WriteByte(hexDigit(s, true, c>>4))
		if i == len(data)-1 && c&15 == 0 && s.Bool() {
			continue
		}
		ws()
		b.WriteByte(hexDigit(s, true, c&15))
	}
	if fancy {
		ws()
	}
	b.WriteByte('>')
	return b.Bytes()
}

func encA85(s *Src, data []byte, fancy bool) []byte {
	var b bytes.Buffer
	vary := fancy && len(data) <= 600
	n := 0
	put := func(c byte) {
		if vary && s.P(4) {
			b.WriteString(pick(s, " ", "\n", "\r\n", "\t", "\x00", "\f", "\r"))
		}
		b.WriteByte(c)
		if n++; n%72 == 0 && fancy {
			b.WriteByte('\n')
		}
	}
	for i := 0; i < len(data); i += 4 {
		g := data[i:min(i+4, len(data))]
		var v uint32
		for k := 0; k < 4; k++ {
			v <<= 8
			if k < len(g) {
				v |= uint32(g[k])
			}
		}
		if v == 0 && len(g) == 4 {
			put('z')
			continue
		}
		var d [5]byte
		for k := 4; k >= 0; k-- {
			d[k] = byte(v%85) + '!'
			v /= 85
		}
		for k := 0; k < len(g)+1; k++ {
			put(d[k])
		}
	}
	b.WriteString("~>")
	return b.Bytes()
}

func encRL(s *Src, data []byte, fancy bool) []byte {
	var b bytes.Buffer
	for i := 0; i < len(data); {
		run := 1
		for i+run < len(data) && run < 128 && data[i+run] == data[i] {
			run++
		}
		useRun := run >= 2
		if fancy && s.P(30) {
			useRun = !useRun
		}
		if useRun && run >= 2 {
			if fancy && s.P(20) {
				run = s.Int(2, run)
			}
			b.WriteByte(byte(257 - run))
			b.WriteByte(data[i])
			i += run
		} else {
			n := 1
			if fancy {
				n = s.Int(1, min(128, len(data)-i))
			} else {
				for i+n < len(data) && n < 128 && data[i+n] != data[i+n-1] {
					n++
				}
			}
			b.WriteByte(byte(n - 1))
			b.Write(data[i : i+n])
			i += n
		}
	}
	if !(fancy && s.P(20)) {
		b.WriteByte(128)
	}
	return b.Bytes()
}

func encFlate(s *Src, data []byte, fancy bool) []byte {
	level := 6
	if fancy {
		level = pick(s, 6, 0, 1, 9, flate.HuffmanOnly)
	}
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, level)
	if fancy && len(data) > 1 && s.P(30) {
		k := s.N(len(data))
		w.Write(data[:k])
		w.Flush()
		w.Write(data[k:])
	} else {
		w.Write(data)
	}
	w.Close()
	return b.Bytes()
}

type bitWriter struct {
	b    []byte
	acc  uint32
	bits uint
}

func (w *bitWriter) put(code uint32, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		w.acc = w.acc<<1 | (code>>uint(i))&1
		if w.bits++; w.bits == 8 {
			w.b = append(w.b, byte(w.acc))
			w.acc, w.bits = 0, 0
		}
	}
}

func (w *bitWriter) flush() []byte {
	if w.bits > 0 {
		w.b = append(w.b, byte(w.acc<<(8-w.bits)))
		w.acc, w.bits = 0, 0
	}
	return w.b
}

// encLZW encodes with 9 to 12 bit codes, MSB first. early is 0 or 1.
func encLZW(s *Src, data []byte, early int, fancy bool) []byte {
	var w bitWriter
	const clear, eod = 256, 257
	table := map[string]uint32{}
	next, width := uint32(258), uint(9)
	reset := func() {
		table = map[string]uint32{}
		next, width = 258, 9
	}
	clearAt := uint32(4093) // leave the last entries unused, as the codes must fit 12 bits
	if fancy && s.P(30) {
		clearAt = uint32(s.Int(258, 4093))
	}
	w.put(clear, width)
	emitted := false // a code was emitted since the last clear
	emit := func(code uint32) {
		w.put(code, width)
		// the decoder adds an entry for every code but the first after a clear
		if emitted {
			next++
		}
		emitted = true
		if width < 12 && int(next)+early >= 1<<width {
			width++
		}
	}
	codeOf := func(x []byte) uint32 {
		if len(x) == 1 {
			return uint32(x[0])
		}
		return table[string(x)]
	}
	var cur []byte
	for _, c := range data {
		if len(cur) == 0 {
			cur = append(cur, c)
			continue
		}
		ext := append(append([]byte{}, cur...), c)
		if _, ok := table[string(ext)]; ok && !(fancy && len(data) < 300 && s.P(3)) {
			cur = ext
			continue
		}
		// the entry the decoder will add after the following code
		idx := next
		if emitted {
			idx = next + 1
		}
		emit(codeOf(cur))
		if _, ok := table[string(ext)]; !ok {
			table[string(ext)] = idx
		}
		if next >= clearAt {
			w.put(clear, width)
			reset()
			emitted = false
		}
		cur = []byte{c}
	}
	if len(cur) > 0 {
		emit(codeOf(cur))
	}
	w.put(eod, width)
	return w.flush()
}

// ---- predictors

type predictor struct {
	Predictor, Colors, Bits, Columns int
	rows                             []int // PNG algorithm of each row
}

func (p *predictor) rowBytes() int { return (p.Colors*p.Bits*p.Columns + 7) / 8 }

func getSample(row []byte, i, bits int) int {
	switch bits {
	case 8:
		return int(row[i])
	case 16:
		return int(row[2*i])<<8 | int(row[2*i+1])
	}
	bit := i * bits
	return int(row[bit/8]>>(8-bits-bit%8)) & (1<<bits - 1)
}

func setSample(row []byte, i, bits, v int) {
	switch bits {
	case 8:
		row[i] = byte(v)
		return
	case 16:
		row[2*i], row[2*i+1] = byte(v>>8), byte(v)
		return
	}
	bit := i * bits
	sh := uint(8 - bits - bit%8)
	m := byte(1<<bits-1) << sh
	row[bit/8] = row[bit/8]&^m | byte(v)<<sh&m
}

func paeth(a, b, c int) int {
	p := a + b - c
	abs := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

// apply predicts data (the forward direction).
func (p *predictor) apply(s *Src, data []byte) []byte {
	rb := p.rowBytes()
	switch {
	case p.Predictor == 2:
		out := append([]byte{}, data...)
		for r := 0; r < len(out); r += rb {
			row := out[r:min(r+rb, len(out))]
			n := min(len(row)*8/p.Bits, p.Colors*p.Columns)
			for i := n - 1; i >= p.Colors; i-- {
				d := getSample(row, i, p.Bits) - getSample(row, i-p.Colors, p.Bits)
				setSample(row, i, p.Bits, d&(1<<p.Bits-1))
			}
		}
		return out
	case p.Predictor >= 10:
		var out []byte
		bpp := (p.Colors*p.Bits + 7) / 8
		prev := make([]byte, rb)
		fixed := -1
		if s.P(30) {
			fixed = s.N(5)
		}
		for r := 0; r < len(data); r += rb {
			row := data[r:min(r+rb, len(data))]
			alg := fixed
			if alg < 0 {
				alg = s.N(5)
			}
			p.rows = append(p.rows, alg)
			out = append(out, byte(alg))
			for i, c := range row {
				a, b, d := 0, int(prev[i]), 0
				if i >= bpp {
					a, d = int(row[i-bpp]), int(prev[i-bpp])
				}
				x := int(c)
				switch alg {
				case 1:
					x -= a
				case 2:
					x -= b
				case 3:
					x -= (a + b) / 2
				case 4:
					x -= paeth(a, b, d)
				}
				out = append(out, byte(x))
			}
			copy(prev, row)
		}
		return out
	}
	return data
}

func genPredictor(s *Src) *predictor {
	p := &predictor{}
	p.Predictor = pick(s, 12, 15, 10, 11, 13, 14, 2, 2)
	p.Colors = pick(s, 1, 3, 4, 2, 5)
	p.Bits = pick(s, 8, 1, 2, 4, 16)
	p.Columns = s.Int(1, 3)
	switch s.N(3) {
	case 1:
		p.Columns = s.Int(1, 20)
	case 2:
		p.Columns = s.Int(1, 300)
	}
	return p
}

// parms of the predictor, leaving out defaults sometimes
func (p *predictor) parms(s *Src) Dict {
	d := Dict{{"Predictor", Int(p.Predictor)}}
	if p.Colors != 1 || s.Bool() {
		d = append(d, KV{"Colors", Int(p.Colors)})
	}
	if p.Bits != 8 || s.Bool() {
		d = append(d, KV{"BitsPerComponent", Int(p.Bits)})
	}
	if p.Columns != 1 || s.Bool() {
		d = append(d, KV{"Columns", Int(p.Columns)})
	}
	return d
}

// ---- chains

type encStage struct {
	filter string
	parms  Dict // nil: none
	in     []byte
	out    []byte
}

// encStageOf encodes data for one filter.
func encStageOf(s *Src, filter string, data []byte, fancy, pred bool) *encStage {
	st := &encStage{filter: filter, in: data}
	switch filter {
	case "ASCIIHexDecode":
		st.out = encHex(s, data, fancy)
	case "ASCII85Decode":
		st.out = encA85(s, data, fancy)
	case "RunLengthDecode":
		st.out = encRL(s, data, fancy)
	case "FlateDecode", "LZWDecode":
		if pred && s.P(35) {
			p := genPredictor(s)
			// whole samples only, so that a partial row is well defined
			if p.Predictor == 2 && p.Bits == 16 && len(data)%2 == 1 {
				p.Bits = 8
			}
			data = p.apply(s, data)
			st.parms = p.parms(s)
		} else if pred && s.P(10) {
			st.parms = Dict{{"Predictor", Int(1)}}
			if s.Bool() {
				st.parms = append(st.parms, KV{"Columns", Int(s.Int(1, 9))}, KV{"Colors", Int(3)})
			}
		}
		if filter == "FlateDecode" {
			st.out = encFlate(s, data, fancy)
		} else {
			early := 1
			if s.Bool() {
				early = 0
			}
			st.out = encLZW(s, data, early, fancy)
			if early == 0 || s.P(25) {
				st.parms = append(st.parms, KV{"EarlyChange", Int(early)})
			}
		}
	default:
		st.out = data
	}
	return st
}

var filterNames = []string{"FlateDecode", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "LZWDecode"}

// encChain encodes data for n random filters; result[0] is decoded first.
func encChain(s *Src, data []byte, n int, fancy, pred bool) ([]*encStage, []byte) {
	var st []*encStage
	for i := 0; i < n; i++ {
		e := encStageOf(s, pick(s, filterNames...), data, fancy, pred)
		st = append([]*encStage{e}, st...)
		data = e.out
	}
	return st, data
}

// chainEntries makes the Filter and DecodeParms entries of a chain.
func chainEntries(s *Src, st []*encStage, vary bool) (filter, parms V) {
	if len(st) == 0 {
		if vary && s.P(15) {
			return Arr{}, nil
		}
		if vary && s.P(10) {
			return Null{}, nil
		}
		return nil, nil
	}
	hasParms := false
	fa, pa := Arr{}, Arr{}
	for _, e := range st {
		fa = append(fa, Name(e.filter))
		if e.parms != nil {
			hasParms = true
			pa = append(pa, e.parms)
		} else if vary && s.P(25) {
			pa = append(pa, Dict{})
		} else {
			pa = append(pa, Null{})
		}
	}
	if len(st) == 1 && !(vary && s.P(40)) {
		filter = fa[0]
		if hasParms {
			parms = pa[0]
			// a one element array goes with a plain name only in lenient readers
		} else if vary && s.P(15) {
			parms = pick[V](s, Null{}, Dict{})
		}
		return
	}
	filter = fa
	if hasParms || (vary && s.P(30)) {
		// trailing nulls may be left out only if the reader pairs by index
		parms = pa
	}
	return
}
