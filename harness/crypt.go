package main

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
)

// Crypt is a standard security handler (encrypting side), from ISO 32000-1 7.6.
type Crypt struct {
	V, R           int
	KeyLen         int // bytes
	User           []byte
	Owner          []byte
	ID             []byte
	P              int32
	EncMeta        bool
	key            []byte
	O, U           []byte
	StmF           string // V4: name of filters, "" absent
	StrF           string
	EFF            string
	CF             map[string]string // V4: filter name -> CFM
	cfOrder        []string
	Dict           Dict
	trailerEncrypt V   // replaces the Encrypt entry
	trailerID      *V  // replaces the ID entry
	DictNum        int // object number of the encryption dictionary, 0: direct
	DictGen        int
}

var padStr = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

func pad32(p []byte) []byte {
	return append(append([]byte{}, p...), padStr...)[:32]
}

func rc4x(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

func xorKey(k []byte, i int) []byte {
	r := make([]byte, len(k))
	for j := range k {
		r[j] = k[j] ^ byte(i)
	}
	return r
}

// compute fills O, U and the file key (algorithms 2, 3, 4 and 5).
func (c *Crypt) compute(s *Src) {
	n := c.KeyLen
	h := md5.Sum(pad32(c.Owner))
	ok := h[:]
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			x := md5.Sum(ok[:n])
			ok = x[:]
		}
	}
	ok = ok[:n]
	if c.R == 2 {
		ok = ok[:5]
	}
	c.O = rc4x(ok, pad32(c.User))
	if c.R >= 3 {
		for i := 1; i <= 19; i++ {
			c.O = rc4x(xorKey(ok, i), c.O)
		}
	}
	c.key = c.fileKey(c.User)
	c.U = c.computeU(c.key)
	if c.R >= 3 {
		c.U = append(c.U, s.Raw(16)...)
	}
}

func (c *Crypt) fileKey(pw []byte) []byte {
	m := append([]byte{}, pad32(pw)...)
	m = append(m, c.O...)
	p := uint32(c.P)
	m = append(m, byte(p), byte(p>>8), byte(p>>16), byte(p>>24))
	m = append(m, c.ID...)
	if c.R >= 4 && !c.EncMeta {
		m = append(m, 0xff, 0xff, 0xff, 0xff)
	}
	h := md5.Sum(m)
	k := h[:]
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			x := md5.Sum(k[:c.KeyLen])
			k = x[:]
		}
	}
	return append([]byte{}, k[:c.KeyLen]...)
}

func (c *Crypt) computeU(key []byte) []byte {
	if c.R == 2 {
		return rc4x(key, padStr)
	}
	h := md5.Sum(append(append([]byte{}, padStr...), c.ID...))
	u := rc4x(key, h[:])
	for i := 1; i <= 19; i++ {
		u = rc4x(xorKey(key, i), u)
	}
	return u
}

func (c *Crypt) objKey(num, gen int, isAES bool) []byte {
	m := append([]byte{}, c.key...)
	m = append(m, byte(num), byte(num>>8), byte(num>>16), byte(gen), byte(gen>>8))
	if isAES {
		m = append(m, 's', 'A', 'l', 'T')
	}
	h := md5.Sum(m)
	return append([]byte{}, h[:min(len(c.key)+5, 16)]...)
}

// encrypt encrypts data of object num gen with method cfm.
func (c *Crypt) encrypt(s *Src, cfm string, num, gen int, data []byte) []byte {
	switch cfm {
	case "None", "Identity":
		return data
	case "V2":
		return rc4x(c.objKey(num, gen, false), data)
	case "AESV2":
		k := c.objKey(num, gen, true)
		b, err := aes.NewCipher(k)
		if err != nil {
			panic(fmt.Sprint("aes key ", len(k)))
		}
		iv := s.Expand(16, nil)
		pad := 16 - len(data)%16
		p := append([]byte{}, data...)
		for i := 0; i < pad; i++ {
			p = append(p, byte(pad))
		}
		out := make([]byte, len(p))
		cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, p)
		return append(iv, out...)
	}
	panic("cfm " + cfm)
}

func (c *Crypt) method(name string) string {
	if c.V < 4 {
		return "V2"
	}
	if name == "" || name == "Identity" {
		return "Identity"
	}
	return c.CF[name]
}

func (c *Crypt) strMethod() string { return c.method(c.StrF) }
func (c *Crypt) stmMethod() string { return c.method(c.StmF) }
func (c *Crypt) fileMethod() string {
	if c.V >= 4 && c.EFF != "" {
		return c.method(c.EFF)
	}
	return c.method(c.StmF)
}

func genPassword(s *Src) []byte {
	switch s.W(3, 4, 1, 1, 1) {
	case 0:
		return nil
	case 1:
		n := s.Int(1, 12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + s.N(94))
		}
		if s.P(15) { // white space belongs to it
			w := pick(s, " ", "\t", "\n", "\r\n", "  ")
			switch s.N(3) {
			case 0:
				b = append(b, w...)
			case 1:
				b = append([]byte(w), b...)
			default:
				b = append(append([]byte(w), b...), ' ')
			}
		}
		return b
	case 2:
		return s.Raw(s.Int(1, 31))
	case 3:
		return s.Expand(32, nil)
	}
	return s.Expand(s.Int(33, 50), []byte("abcdefghijklmnopqrstuvwxyz"))
}

// genCrypt draws a handler. vary false gives the most usual ones only.
func genCrypt(s *Src, vary bool) *Crypt {
	c := &Crypt{EncMeta: true, CF: map[string]string{}}
	kind := s.W(2, 1, 4, 3, 5)
	switch kind {
	case 0:
		c.V, c.R, c.KeyLen = 1, 2, 5
	case 1:
		c.V, c.R, c.KeyLen = 1, 3, 5
	case 2:
		c.V, c.R, c.KeyLen = 2, 3, pick(s, 16, 5, 16, s.Int(5, 16))
	default:
		c.V, c.R, c.KeyLen = 4, 4, 16
	}
	c.User = genPassword(s)
	c.Owner = genPassword(s)
	if s.Bool() {
		c.ID = s.Raw(16)
	} else {
		c.ID = s.Raw(s.Small(40))
	}
	c.P = int32(uint32(s.N(1<<31))<<1 | uint32(s.N(2)))
	if s.Bool() {
		c.P = -44
	}
	if c.V >= 2 && vary {
		c.EncMeta = !s.P(25) // only meaningful from V 4, ignored before
	}
	d := Dict{{"Filter", Name("Standard")}, {"V", Int(c.V)}, {"R", Int(c.R)}}
	if c.V == 1 {
		if vary && s.P(30) {
			d = append(d, KV{"Length", Int(pick(s, 40, 128))}) // not used with V 1
		}
	} else if c.V == 2 {
		if !(c.KeyLen == 5 && s.Bool()) {
			d = append(d, KV{"Length", Int(8 * c.KeyLen)})
		}
	} else {
		if !(vary && s.P(30)) {
			d = append(d, KV{"Length", Int(128)})
		}
	}
	if !c.EncMeta {
		d = append(d, KV{"EncryptMetadata", Bool(false)})
	} else if c.V >= 4 && s.P(20) {
		d = append(d, KV{"EncryptMetadata", Bool(true)})
	}
	if c.V == 4 {
		names := []string{"StdCF"}
		if vary && s.Bool() {
			names = append(names, pick(s, "Other", "X#Y", "Z"))
		}
		if vary && s.P(30) {
			names = append(names, "Third")
		}
		cf := Dict{}
		for i, n := range names {
			m := pick(s, "AESV2", "V2")
			if i > 0 && s.P(25) {
				m = "None"
			}
			c.CF[n] = m
			c.cfOrder = append(c.cfOrder, n)
			e := Dict{{"CFM", Name(m)}}
			if s.Bool() {
				e = append(e, KV{"Type", Name("CryptFilter")})
			}
			switch s.N(3) {
			case 0:
				e = append(e, KV{"Length", Int(16)})
			case 1:
				if vary {
					e = append(e, KV{"Length", Int(128)})
				}
			}
			if s.Bool() {
				e = append(e, KV{"AuthEvent", Name("DocOpen")})
			}
			cf = append(cf, KV{n, e})
		}
		choose := func(absentPct int) string {
			if vary && s.P(absentPct) {
				return ""
			}
			if vary && s.P(15) {
				return "Identity"
			}
			return names[s.N(len(names))]
		}
		c.StmF, c.StrF = choose(8), choose(8)
		if vary {
			c.EFF = choose(50)
		}
		d = append(d, KV{"CF", cf})
		if c.StmF != "" {
			d = append(d, KV{"StmF", Name(c.StmF)})
		}
		if c.StrF != "" {
			d = append(d, KV{"StrF", Name(c.StrF)})
		}
		if c.EFF != "" {
			d = append(d, KV{"EFF", Name(c.EFF)})
		}
	}
	c.compute(s)
	p := Int(c.P)
	if vary && s.P(20) {
		p = Int(uint32(c.P)) // the same bits as an unsigned number, as some writers do
	}
	d = append(d, KV{"O", Str(c.O)}, KV{"U", Str(c.U)}, KV{"P", p})
	c.Dict = d
	return c
}

func (c *Crypt) String() string {
	return fmt.Sprintf("V%d R%d key %d bits pw %q StmF=%s StrF=%s EFF=%s CF=%v meta=%v", c.V, c.R, c.KeyLen*8, c.User, c.StmF, c.StrF, c.EFF, c.CF, c.EncMeta)
}

// uses says whether the encryption dictionary is this object or led to by it.
func (c *Crypt) uses(num int) bool {
	if c == nil {
		return false
	}
	r, ok := c.trailerEncrypt.(Ref)
	return c.DictNum == num && num > 0 || ok && r.Num == num
}
