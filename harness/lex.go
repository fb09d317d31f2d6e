package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Lex writes tokens in randomly chosen legal spellings.
type Lex struct {
	s       *Src
	b       bytes.Buffer
	fancy   bool // vary spellings; otherwise the plainest ones
	clean   bool // no needless octal or name escapes (errors.txt must stay empty)
	pad     int  // percent chance of a long filler between tokens
	padMax  int
	regular bool                // last byte written is a regular character
	enc     func([]byte) []byte // string encryption
	plainWS bool                // never comments
	fast    bool                // long strings with bulk spelling
}

func isWS(c byte) bool    { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }
func isDelim(c byte) bool { return strings.IndexByte("()<>[]/%", c) >= 0 }
func isRegular(c byte) bool {
	return !isWS(c) && !isDelim(c) && c != '{' && c != '}'
}

func (l *Lex) raw(s string) {
	if s == "" {
		return
	}
	l.b.WriteString(s)
	c := s[len(s)-1]
	l.regular = !isWS(c) && !isDelim(c)
}

var commentBytes = func() []byte {
	// no letters that could spell obj, xref or endstream
	var b []byte
	for c := 1; c < 256; c++ {
		switch byte(c) {
		case 'j', 'f', 'm', 'J', 'F', 'M', '\r', '\n':
			continue
		}
		b = append(b, byte(c))
	}
	return b
}()

// sep writes optional (or, if need, at least one) white space.
func (l *Lex) sep(need bool) {
	if !l.fancy {
		if need {
			l.raw(" ")
		}
		return
	}
	if l.pad > 0 && l.s.P(l.pad) {
		l.filler(l.s.N(l.padMax + 1))
		if need && !l.endsSep() {
			l.raw(" ")
		}
		return
	}
	n := 0
	switch l.s.W(6, 3, 1) {
	case 1:
		n = 1
	case 2:
		n = l.s.Int(1, 4)
	}
	if need && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		l.wsUnit()
	}
}

func (l *Lex) endsSep() bool {
	b := l.b.Bytes()
	return len(b) > 0 && isWS(b[len(b)-1])
}

func (l *Lex) wsUnit() {
	switch l.s.W(6, 2, 1, 1, 1, 1, 1, 2) {
	case 0:
		l.raw(" ")
	case 1:
		l.raw("\n")
	case 2:
		l.raw("\r\n")
	case 3:
		l.raw("\r")
	case 4:
		l.raw("\t")
	case 5:
		l.raw("\f")
	case 6:
		l.raw("\x00")
	case 7:
		if l.plainWS {
			l.raw(" ")
			return
		}
		n := l.s.N(12)
		b := []byte{'%'}
		for i := 0; i < n; i++ {
			b = append(b, commentBytes[l.s.N(len(commentBytes))])
		}
		l.raw(string(b) + pick(l.s, "\n", "\r", "\r\n"))
	}
}

// filler writes about n bytes of white space or comment.
func (l *Lex) filler(n int) {
	if n <= 0 {
		return
	}
	if l.plainWS || l.s.Bool() || n < 3 {
		l.raw(strings.Repeat(pick(l.s, " ", "\n", "\r", "\x00"), n))
		return
	}
	l.raw("%" + strings.Repeat(pick(l.s, "x", "(", "<", ")", "%", "]", " ", "7"), n-2) + pick(l.s, "\n", "\r"))
}

// token writes t, separated from the preceding token if both are regular.
func (l *Lex) token(t string) {
	need := l.regular && len(t) > 0 && !isWS(t[0]) && !isDelim(t[0])
	l.sep(need)
	l.raw(t)
}

func (l *Lex) kw(t string) { l.token(t) }

func (l *Lex) intSpelling(n int64) string {
	if !l.fancy {
		return fmt.Sprint(n)
	}
	sign := ""
	v := fmt.Sprint(n)
	if n < 0 {
		sign, v = "-", v[1:]
	} else if l.s.P(12) {
		sign = "+"
	} else if n == 0 && l.s.P(6) {
		sign = "-"
	}
	if l.s.P(10) {
		v = strings.Repeat("0", l.s.Int(1, 4)) + v
	}
	return sign + v
}

func (l *Lex) realSpelling(r string) string {
	if !l.fancy {
		return r
	}
	sign := ""
	if r[0] == '-' {
		sign, r = "-", r[1:]
	} else if l.s.P(12) {
		sign = "+"
	}
	i := strings.IndexByte(r, '.')
	if i < 0 && l.s.Bool() {
		return sign + r
	}
	if i < 0 {
		r += "."
		i = len(r) - 1
	}
	ip, fp := r[:i], r[i+1:]
	if l.s.P(10) {
		ip = strings.Repeat("0", l.s.Int(1, 3)) + ip
	}
	if strings.Trim(ip, "0") == "" && fp != "" && l.s.Bool() {
		ip = ""
	}
	if l.s.P(10) {
		fp += strings.Repeat("0", l.s.Int(1, 3))
	}
	if strings.Trim(fp, "0") == "" && ip != "" && l.s.Bool() {
		fp = ""
	}
	return sign + ip + "." + fp
}

func hexDigit(s *Src, fancy bool, d byte) byte {
	if d < 10 {
		return '0' + d
	}
	if fancy && s.Bool() {
		return 'a' + d - 10
	}
	return 'A' + d - 10
}

// edge raises a probability for the characters next to those that need no escape.
func edge(c byte, pct int) int {
	switch c {
	case '!', '~', '"', '}', ' ', 0x7f:
		return max(pct, 50)
	}
	return pct
}

func (l *Lex) nameSpelling(n string) string {
	var b strings.Builder
	b.WriteByte('/')
	for i := 0; i < len(n); i++ {
		c := n[i]
		must := isWS(c) || isDelim(c) || c == '#' || c == '{' || c == '}'
		printable := c >= '!' && c <= '~'
		esc := must || !printable
		if l.fancy && !must {
			if printable {
				esc = !l.clean && l.s.P(edge(c, 15))
			} else {
				esc = l.s.P(70)
			}
		}
		if esc {
			b.WriteByte('#')
			b.WriteByte(hexDigit(l.s, l.fancy, c>>4))
			b.WriteByte(hexDigit(l.s, l.fancy, c&15))
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (l *Lex) hexString(data []byte) {
	l.sep(false)
	var b strings.Builder
	b.WriteByte('<')
	ws := func() {
		if l.fancy && l.s.P(8) {
			b.WriteString(pick(l.s, " ", "\n", "\r\n", "\t", "\x00", "\f", "\r"))
		}
		if l.fancy && l.pad > 0 && l.s.P(1) {
			b.WriteString(strings.Repeat(" ", l.s.N(l.padMax+1)))
		}
	}
	quick := len(data) > 400
	for i, c := range data {
		if quick {
			fmt.Fprintf(&b, "%02x", c)
			continue
		}
		ws()
		b.WriteByte(hexDigit(l.s, l.fancy, c>>4))
		if i == len(data)-1 && c&15 == 0 && l.fancy && l.s.Bool() {
			continue // odd number of digits
		}
		ws()
		b.WriteByte(hexDigit(l.s, l.fancy, c&15))
	}
	if l.fancy {
		ws()
	}
	b.WriteByte('>')
	l.raw(b.String())
}

func (l *Lex) litString(data []byte) {
	l.sep(false)
	var b strings.Builder
	b.WriteByte('(')
	// match parentheses; matched pairs may stay unescaped
	match := map[int]int{}
	var st []int
	for i, c := range data {
		if c == '(' {
			st = append(st, i)
		} else if c == ')' && len(st) > 0 {
			match[i] = st[len(st)-1]
			st = st[:len(st)-1]
		}
	}
	rawParen := map[int]bool{}
	escapes := 30
	if len(match) > 20 {
		escapes = pick(l.s, 30, 0, 2)
	}
	for i := range data {
		if o, ok := match[i]; ok && (!l.fancy || escapes == 0 || !l.s.P(escapes)) {
			rawParen[i], rawParen[o] = true, true
		}
	}
	quick := len(data) > 400
	vary := l.fancy && !quick
	octals := 12
	if vary && l.s.P(12) {
		octals = 60
	}
	pendingCR := false // a continuation ended in CR: next byte must not be a raw LF
	shortOctal := false
	for i, c := range data {
		if vary && l.s.P(4) {
			eol := pick(l.s, "\n", "\r\n", "\r")
			b.WriteString("\\" + eol)
			pendingCR = eol == "\r"
			shortOctal = false
		}
		octal := func() {
			if vary && l.s.Bool() {
				o := fmt.Sprintf("%o", c)
				b.WriteString("\\" + o)
				shortOctal = len(o) < 3
			} else {
				fmt.Fprintf(&b, "\\%03o", c)
				shortOctal = false
			}
		}
		needless := c >= '!' && c <= '~' && c != '\\' && c != '(' && c != ')'
		esc := ""
		switch c {
		case '\n':
			esc = "\\n"
		case '\r':
			esc = "\\r"
		case '\t':
			esc = "\\t"
		case '\b':
			esc = "\\b"
		case '\f':
			esc = "\\f"
		case '(', ')', '\\':
			esc = "\\" + string(rune(c))
		}
		must := c == '\r' || c == '\\' || ((c == '(' || c == ')') && !rawParen[i]) || (c == '\n' && pendingCR)
		if shortOctal && c >= '0' && c <= '7' {
			// a digit would continue the octal code: break it up
			if !l.clean && vary && l.s.Bool() {
				shortOctal = false
				octal()
			} else {
				b.WriteString("\\\n" + string(rune(c)))
			}
			shortOctal, pendingCR = false, false
			continue
		}
		shortOctal = false
		switch {
		case must:
			if vary && l.s.P(30) {
				octal()
			} else {
				b.WriteString(esc)
			}
		case (c == '(' || c == ')') && rawParen[i]:
			b.WriteByte(c)
		case vary && esc != "" && l.s.Bool():
			b.WriteString(esc)
		case vary && !(needless && l.clean) && l.s.P(edge(c, octals)):
			octal()
		case vary && needless && !(c >= '0' && c <= '7') && strings.IndexByte("nrtbf", c) < 0 && l.s.P(3):
			b.WriteByte('\\') // a backslash before any other character is ignored
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
		pendingCR = false
	}
	if vary && l.s.P(4) {
		b.WriteString("\\" + pick(l.s, "\n", "\r\n", "\r"))
	}
	b.WriteByte(')')
	l.raw(b.String())
}

func (l *Lex) str(data []byte) {
	if l.enc != nil {
		data = l.enc(data)
	}
	if l.fancy {
		if l.s.P(35) {
			l.hexString(data)
		} else {
			l.litString(data)
		}
		return
	}
	bin := false
	for _, c := range data {
		if c < 32 || c > 126 {
			bin = true
		}
	}
	if bin {
		l.hexString(data)
	} else {
		l.litString(data)
	}
}

func (l *Lex) value(v V) {
	switch x := v.(type) {
	case nil, Null:
		l.token("null")
	case Bool:
		l.token(fmt.Sprint(bool(x)))
	case Int:
		l.token(l.intSpelling(int64(x)))
	case Real:
		l.token(l.realSpelling(string(x)))
	case Str:
		l.str([]byte(x))
	case Name:
		l.token(l.nameSpelling(string(x)))
		l.regular = true
	case Kw:
		l.token(string(x))
	case Ref:
		if l.fancy && l.s.P(5) {
			l.token(fmt.Sprintf("%s%d", strings.Repeat("0", l.s.Int(1, 3)), x.Num))
		} else {
			l.token(fmt.Sprint(x.Num))
		}
		if l.fancy && l.s.P(3) {
			l.token(fmt.Sprintf("0%d", x.Gen))
		} else {
			l.token(fmt.Sprint(x.Gen))
		}
		l.token("R")
	case Arr:
		l.token("[")
		for _, e := range x {
			l.value(e)
		}
		l.token("]")
	case Dict:
		l.token("<<")
		for _, e := range x {
			l.token(l.nameSpelling(e.K))
			l.regular = true
			l.value(e.V)
		}
		l.token(">>")
	default:
		panic(fmt.Sprintf("lex: %T", v))
	}
}

// ---- random values

var namePool = []string{"Type", "Kids", "Count", "Aa", "B", "Subtype", "Contents", "Na.me", "X1", "Foo", "A;Name_With-Various***Chars?", "1.2", "$$", "@pattern", "Bar", "Widths"}

func genName(s *Src) string {
	switch s.W(50, 30, 20, 3) {
	case 0:
		return pick(s, namePool...)
	case 3:
		if d := theDict().Strings; len(d) > 0 {
			return pick(s, d...)
		}
	case 1:
		n := s.Small(12)
		if s.P(4) {
			n = s.Int(13, 300)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('!' + s.N(94))
		}
		return string(b)
	}
	n := s.Small(16)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.N(256))
	}
	return string(b)
}

func genStr(s *Src, maxLen int) Str {
	switch s.W(3, 3, 3, 1) {
	case 0:
		n := s.Small(min(20, maxLen))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + s.N(95))
		}
		return Str(b)
	case 1:
		return Str(s.Raw(s.Small(min(24, maxLen))))
	case 2: // characters that matter to the lexer
		al := []byte("()\\\\()%<>/#[]01789\x01\x03\x7fnrt\n\r\x00\b\f ")
		n := s.Small(min(30, maxLen))
		b := make([]byte, n)
		for i := range b {
			b[i] = al[s.N(len(al))]
		}
		return Str(b)
	}
	if d := theDict().Strings; len(d) > 0 && maxLen >= 10 && s.P(10) {
		x := pick(s, d...)
		return Str(x[:min(len(x), maxLen)])
	}
	return Str(s.Expand(s.Len(maxLen), nil))
}

func genReal(s *Src) Real {
	var b strings.Builder
	if s.P(40) {
		b.WriteByte('-')
	}
	if s.P(4) { // an integer too large for any integer type
		b.WriteByte(byte('1' + s.N(9)))
		for i := s.Int(14, 40); i > 0; i-- {
			b.WriteByte(byte('0' + s.N(10)))
		}
		return Real(b.String())
	}
	n := s.Int(0, 7)
	d := s.Int(0, 8)
	if s.P(10) {
		n, d = s.Int(0, 20), s.Int(0, 30)
	}
	if n+d == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		b.WriteByte(byte('0' + s.N(10)))
	}
	if n == 0 {
		b.WriteByte('0')
	}
	b.WriteByte('.')
	for i := 0; i < d; i++ {
		b.WriteByte(byte('0' + s.N(10)))
	}
	return Real(b.String())
}

func genInt(s *Src) Int {
	var v int64
	switch s.W(40, 30, 20, 10, 10, 3) {
	case 0:
		v = int64(s.N(10))
	case 5:
		if d := theDict().Ints; len(d) > 0 {
			v = int64(pick(s, d...))
		}
	case 1:
		v = int64(s.N(1000))
	case 2:
		v = int64(s.N(1 << 31))
	case 3:
		v = int64(s.N(1 << 53))
	case 4:
		v = pick(s, int64(1<<31-1), 1<<31, 1<<32, 4294967295, 65535, 65536, 1<<53-1)
	}
	if s.P(30) {
		v = -v
	}
	return Int(v)
}

type valOpts struct {
	refs   func(s *Src) Ref
	maxStr int
	noNull bool
}

func genValue(s *Src, depth int, o *valOpts) V {
	k := s.W(2, 2, 4, 3, 4, 4, 3, 3, 3)
	if depth <= 0 && k >= 7 {
		k = k - 5
	}
	switch k {
	case 0:
		if o.noNull {
			return Bool(true)
		}
		return Null{}
	case 1:
		return Bool(s.Bool())
	case 2:
		return genInt(s)
	case 3:
		return genReal(s)
	case 4:
		m := o.maxStr
		if m == 0 {
			m = 60
		}
		return genStr(s, m)
	case 5:
		return Name(genName(s))
	case 6:
		if o.refs == nil {
			return genInt(s)
		}
		return o.refs(s)
	case 7:
		n := s.Small(6)
		a := Arr{}
		for i := 0; i < n; i++ {
			a = append(a, genValue(s, depth-1, o))
		}
		return a
	}
	return genDict(s, depth, o, s.Small(6))
}

func genDict(s *Src, depth int, o *valOpts, n int) Dict {
	d := Dict{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := genName(s)
		if seen[k] || reservedKey[k] {
			continue
		}
		seen[k] = true
		d = append(d, KV{k, genValue(s, depth-1, o)})
	}
	return d
}

// keys with a meaning for the file structure are not used as random keys
var reservedKey = map[string]bool{"Prev": true, "Encrypt": true, "ID": true, "Size": true, "W": true, "Index": true, "Length": true, "Filter": true, "DecodeParms": true,
	// nor are the keys that extraction looks at
	"JS": true, "URI": true, "A": true, "AA": true, "OpenAction": true, "XFA": true, "Pages": true, "URLS": true, "EmbeddedFiles": true, "FS": true}
