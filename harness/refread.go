package main

import (
	"bytes"
	"strconv"
)

// refReader reads objects by the lenient rules of the properties (written
// from their statements, independent of the code under test) and notes which
// documented abnormalities it met.
type refReader struct {
	b   []byte
	pos int
	msg map[string]bool // must be reported
	opt map[string]bool // may be reported
}

const (
	msgKeyType   = "invalid dictionary key type"
	msgHexChar   = "invalid hex string character"
	msgNameChar  = "invalid name escape character"
	msgOctal     = "invalid octal in string"
	msgNoValue   = "missing dictionary value"
	msgOpenArr   = "unclosed array"
	msgOpenDict  = "unclosed dictionary"
	msgOpenHex   = "unclosed hex string"
	msgOpenStm   = "unclosed stream"
	msgOpenStr   = "unclosed string"
	msgOpenEsc   = "unclosed escape in string"
	msgOpenOct   = "unclosed octal in string"
	msgNeedlessN = "unnecessary espace sequence in name"
	msgNeedlessS = "unnecessary espace sequence in string"
)

var allMessages = []string{msgKeyType, msgHexChar, msgNameChar, msgOctal, msgNoValue, msgOpenArr, msgOpenDict, msgOpenHex, msgOpenStm, msgOpenStr, msgOpenEsc, msgOpenOct, msgNeedlessN, msgNeedlessS}

func newRefReader(b []byte, pos int) *refReader {
	return &refReader{b: b, pos: pos, msg: map[string]bool{}, opt: map[string]bool{}}
}

const (
	rValue = iota
	rEOF
	rCloseArr
	rCloseDict
	rCloseOther
)

func (r *refReader) eof() bool { return r.pos >= len(r.b) }

func (r *refReader) ws() {
	for !r.eof() {
		c := r.b[r.pos]
		if c == '%' {
			for !r.eof() && r.b[r.pos] != '\n' && r.b[r.pos] != '\r' {
				r.pos++
			}
		} else if isWS(c) {
			r.pos++
		} else {
			return
		}
	}
}

func (r *refReader) word() string {
	at := r.pos
	for !r.eof() && !isWS(r.b[r.pos]) && !isDelim(r.b[r.pos]) {
		r.pos++
	}
	return string(r.b[at:r.pos])
}

func (r *refReader) read() (V, int) {
	r.ws()
	if r.eof() {
		return Null{}, rEOF
	}
	c := r.b[r.pos]
	two := c
	if r.pos+1 < len(r.b) {
		two = r.b[r.pos+1]
	} else {
		two = 0
	}
	switch {
	case c == '/':
		return r.name(), rValue
	case c == '[':
		r.pos++
		a := Arr{}
		for {
			v, k := r.read()
			if k == rEOF {
				r.msg[msgOpenArr] = true
				return a, rValue
			}
			if k == rCloseArr {
				return a, rValue
			}
			a = append(a, v)
		}
	case c == ']':
		r.pos++
		return Null{}, rCloseArr
	case c == '(':
		return r.str(), rValue
	case c == ')':
		r.pos++
		return Null{}, rCloseOther
	case c == '<' && two == '<':
		r.pos += 2
		d := Dict{}
		for {
			k, t := r.read()
			if t == rEOF {
				r.msg[msgOpenDict] = true
				return d, rValue
			}
			if t == rCloseDict {
				return d, rValue
			}
			n, ok := k.(Name)
			if !ok {
				r.msg[msgKeyType] = true
				continue
			}
			v, t := r.read()
			if t == rEOF || t == rCloseDict {
				r.msg[msgNoValue] = true
				if t == rEOF {
					r.opt[msgOpenDict] = true
				}
				return d, rValue
			}
			d = d.with(string(n), v)
		}
	case c == '>' && two == '>':
		r.pos += 2
		return Null{}, rCloseDict
	case c == '<':
		return r.hex(), rValue
	case c == '>':
		r.pos++
		return Null{}, rCloseOther
	case c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.':
		return r.number(), rValue
	}
	switch w := r.word(); w {
	case "true":
		return Bool(true), rValue
	case "false":
		return Bool(false), rValue
	case "null":
		return Null{}, rValue
	default:
		return Kw(w), rValue
	}
}

func (r *refReader) digits() string {
	at := r.pos
	for !r.eof() && r.b[r.pos] >= '0' && r.b[r.pos] <= '9' {
		r.pos++
	}
	return string(r.b[at:r.pos])
}

func (r *refReader) number() V {
	sign := ""
	if c := r.b[r.pos]; c == '-' || c == '+' {
		if c == '-' {
			sign = "-"
		}
		r.pos++
	}
	ip := r.digits()
	if !r.eof() && r.b[r.pos] == '.' {
		r.pos++
		return Real(sign + "0" + ip + "." + r.digits() + "0")
	}
	// a reference?
	if sign == "" {
		at := r.pos
		r.ws()
		if g := r.digits(); g != "" {
			r.ws()
			if r.word() == "R" {
				n, _ := strconv.Atoi(ip)
				gn, _ := strconv.Atoi(g)
				return Ref{n, gn}
			}
		}
		r.pos = at
	}
	return Real(sign + "0" + ip + ".0")
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (r *refReader) name() V {
	r.pos++
	var o []byte
	for !r.eof() {
		c := r.b[r.pos]
		if isWS(c) || isDelim(c) {
			break
		}
		r.pos++
		if c != '#' {
			o = append(o, c)
			continue
		}
		v, n := 0, 0
		bad := false
		for n < 2 && !r.eof() {
			h := hexVal(r.b[r.pos])
			if h < 0 {
				bad = true
				break
			}
			v = v*16 + h
			n++
			r.pos++
		}
		whole := n == 2
		for ; n < 2; n++ {
			v *= 16
		}
		if bad {
			r.msg[msgNameChar] = true
		}
		if c := byte(v); c >= '!' && c <= '~' && c != '#' && !isDelim(c) {
			if whole && c != '{' && c != '}' {
				r.msg[msgNeedlessN] = true
			} else {
				r.opt[msgNeedlessN] = true
			}
		}
		o = append(o, byte(v))
	}
	return Name(o)
}

func (r *refReader) str() V {
	r.pos++
	var o []byte
	open := 1
	for {
		if r.eof() {
			r.msg[msgOpenStr] = true
			return Str(o)
		}
		c := r.b[r.pos]
		r.pos++
		if c == '(' {
			open++
		} else if c == ')' {
			if open--; open == 0 {
				return Str(o)
			}
		}
		if c != '\\' {
			o = append(o, c)
			continue
		}
		if r.eof() {
			r.msg[msgOpenEsc] = true
			r.opt[msgOpenStr] = true
			return Str(append(o, '\\'))
		}
		c = r.b[r.pos]
		r.pos++
		switch {
		case c == '\n':
			continue
		case c == '\r':
			if r.eof() {
				r.opt[msgOpenEsc], r.opt[msgOpenStr] = true, true
				return Str(o)
			} else if r.b[r.pos] == '\n' {
				r.pos++
			}
			continue
		case c == 'n':
			c = '\n'
		case c == 'r':
			c = '\r'
		case c == 't':
			c = '\t'
		case c == 'b':
			c = '\b'
		case c == 'f':
			c = '\f'
		case c >= '0' && c <= '7':
			v, n := int(c-'0'), 1
			for n < 3 && !r.eof() && r.b[r.pos] >= '0' && r.b[r.pos] <= '7' {
				nv := v*8 + int(r.b[r.pos]-'0')
				if nv > 255 {
					r.msg[msgOctal] = true
					break
				}
				v = nv
				n++
				r.pos++
			}
			unfinished := n < 3 && r.eof()
			if unfinished {
				r.msg[msgOpenOct] = true
			}
			c = byte(v)
			if c >= '!' && c <= '~' && c != '\\' && c != '(' && c != ')' {
				if unfinished {
					r.opt[msgNeedlessS] = true
				} else {
					r.msg[msgNeedlessS] = true
				}
			}
		}
		o = append(o, c)
	}
}

func (r *refReader) hex() V {
	r.pos++
	var o []byte
	half := -1
	for {
		if r.eof() {
			r.msg[msgOpenHex] = true
			break
		}
		c := r.b[r.pos]
		r.pos++
		if c == '>' {
			break
		}
		if isWS(c) {
			continue
		}
		h := hexVal(c)
		if h < 0 {
			r.msg[msgHexChar] = true
			continue
		}
		if half < 0 {
			half = h
		} else {
			o = append(o, byte(half*16+h))
			half = -1
		}
	}
	if half >= 0 {
		o = append(o, byte(half*16))
	}
	return Str(o)
}

// keyword reads an expected word.
func (r *refReader) keyword(w string) bool {
	r.ws()
	if !bytes.HasPrefix(r.b[r.pos:], []byte(w)) {
		return false
	}
	r.pos += len(w)
	return true
}
