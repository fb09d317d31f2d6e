package main

// Small independent decoders, used as oracles for cut or damaged data. They
// decode as much as is present and report nothing else.

func refHex(b []byte) []byte {
	var out []byte
	hi, have := byte(0), false
	for _, c := range b {
		if isWS(c) {
			continue
		}
		if c == '>' {
			break
		}
		var d byte
		switch {
		case c >= '0' && c <= '9':
			d = c - '0'
		case c >= 'a' && c <= 'f':
			d = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			d = c - 'A' + 10
		default:
			continue
		}
		if have {
			out = append(out, hi<<4|d)
		}
		hi, have = d, !have
	}
	if have {
		out = append(out, hi<<4)
	}
	return out
}

func refA85(b []byte) []byte {
	var out []byte
	var g []byte
	for _, c := range b {
		if c == '~' {
			break
		}
		if isWS(c) {
			continue
		}
		if c == 'z' && len(g) == 0 {
			out = append(out, 0, 0, 0, 0)
			continue
		}
		g = append(g, c-'!')
		if len(g) == 5 {
			out = append(out, a85group(g)...)
			g = nil
		}
	}
	if n := len(g); n > 1 {
		for len(g) < 5 {
			g = append(g, 84)
		}
		out = append(out, a85group(g)[:n-1]...)
	}
	return out
}

func a85group(g []byte) []byte {
	v := uint64(0)
	for _, d := range g {
		v = v*85 + uint64(d)
	}
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func refRL(b []byte) []byte {
	var out []byte
	for i := 0; i < len(b); {
		n := int(b[i])
		i++
		if n == 128 {
			break
		}
		if n < 128 {
			e := min(i+n+1, len(b))
			out = append(out, b[i:e]...)
			i = e
		} else if i < len(b) {
			for k := 0; k < 257-n; k++ {
				out = append(out, b[i])
			}
			i++
		}
	}
	return out
}

func refLZW(b []byte, early int) []byte {
	var out []byte
	pos := 0
	table := make([][]byte, 258, 4096)
	for i := 0; i < 256; i++ {
		table[i] = []byte{byte(i)}
	}
	width := 9
	var prev []byte
	for {
		if pos+width > len(b)*8 {
			return out
		}
		code := 0
		for i := 0; i < width; i++ {
			code = code<<1 | int(b[pos/8]>>(7-pos%8))&1
			pos++
		}
		if code == 256 {
			table, width, prev = table[:258], 9, nil
			continue
		}
		if code == 257 {
			return out
		}
		var e []byte
		if code < len(table) {
			e = table[code]
		} else if code == len(table) && prev != nil {
			e = append(append([]byte{}, prev...), prev[0])
		} else {
			return out
		}
		out = append(out, e...)
		if prev != nil && len(table) < 4096 {
			table = append(table, append(append([]byte{}, prev...), e[0]))
		}
		prev = e
		for width < 12 && len(table)+early >= 1<<width {
			width++
		}
	}
}

type bitReader struct {
	b   []byte
	pos int
	eof bool
}

func (r *bitReader) bit() int {
	if r.pos >= len(r.b)*8 {
		r.eof = true
		return 0
	}
	v := int(r.b[r.pos/8]>>(r.pos%8)) & 1
	r.pos++
	return v
}

func (r *bitReader) bits(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v |= r.bit() << i
	}
	return v
}

type huff struct{ count, symbol []int }

func mkHuff(lens []int) huff {
	h := huff{make([]int, 16), make([]int, len(lens))}
	for _, l := range lens {
		h.count[l]++
	}
	offs := make([]int, 16)
	for i := 1; i < 15; i++ {
		offs[i+1] = offs[i] + h.count[i]
	}
	for s, l := range lens {
		if l != 0 {
			h.symbol[offs[l]] = s
			offs[l]++
		}
	}
	h.count[0] = 0
	return h
}

func (h huff) read(r *bitReader) int {
	code, first, index := 0, 0, 0
	for l := 1; l <= 15; l++ {
		code |= r.bit()
		if r.eof {
			return -1
		}
		c := h.count[l]
		if code-c < first {
			return h.symbol[index+code-first]
		}
		index += c
		first = (first + c) << 1
		code <<= 1
	}
	return -1
}

// refInflate decodes a zlib stream as far as it goes; ok is false when not
// even the header can be read.
func refInflate(b []byte) (out []byte, ok bool) {
	if len(b) < 2 || b[0]&15 != 8 || (int(b[0])<<8|int(b[1]))%31 != 0 || b[1]&0x20 != 0 {
		return nil, false
	}
	r := &bitReader{b: b[2:]}
	lb := []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
	le := []int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
	db := []int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
	de := []int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
	for {
		last := r.bit()
		typ := r.bits(2)
		if r.eof {
			return out, true
		}
		switch typ {
		case 0:
			r.pos = (r.pos + 7) / 8 * 8
			n := r.bits(16)
			r.bits(16)
			for i := 0; i < n; i++ {
				c := r.bits(8)
				if r.eof {
					return out, true
				}
				out = append(out, byte(c))
			}
		case 1, 2:
			var lit, dist huff
			if typ == 1 {
				l := make([]int, 288)
				for i := range l {
					switch {
					case i < 144:
						l[i] = 8
					case i < 256:
						l[i] = 9
					case i < 280:
						l[i] = 7
					default:
						l[i] = 8
					}
				}
				lit = mkHuff(l)
				d := make([]int, 30)
				for i := range d {
					d[i] = 5
				}
				dist = mkHuff(d)
			} else {
				nl, nd, nc := r.bits(5)+257, r.bits(5)+1, r.bits(4)+4
				cl := make([]int, 19)
				for i := 0; i < nc; i++ {
					cl[[]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}[i]] = r.bits(3)
				}
				ch := mkHuff(cl)
				var l []int
				for len(l) < nl+nd {
					s := ch.read(r)
					if s < 0 || r.eof {
						return out, true
					}
					switch {
					case s < 16:
						l = append(l, s)
					case s == 16:
						if len(l) == 0 {
							return out, true
						}
						p := l[len(l)-1]
						for k := 3 + r.bits(2); k > 0; k-- {
							l = append(l, p)
						}
					case s == 17:
						for k := 3 + r.bits(3); k > 0; k-- {
							l = append(l, 0)
						}
					default:
						for k := 11 + r.bits(7); k > 0; k-- {
							l = append(l, 0)
						}
					}
				}
				if r.eof {
					return out, true
				}
				lit, dist = mkHuff(l[:nl]), mkHuff(l[nl:])
			}
			for {
				s := lit.read(r)
				if s < 0 || r.eof {
					return out, true
				}
				if s == 256 {
					break
				}
				if s < 256 {
					out = append(out, byte(s))
					continue
				}
				s -= 257
				n := lb[s] + r.bits(le[s])
				ds := dist.read(r)
				if ds < 0 || r.eof {
					return out, true
				}
				d := db[ds] + r.bits(de[ds])
				if r.eof || d > len(out) {
					return out, true
				}
				for k := 0; k < n; k++ {
					out = append(out, out[len(out)-d])
				}
			}
		default:
			return out, true
		}
		if last == 1 {
			return out, true
		}
	}
}
