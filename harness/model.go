package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// Model values. Written from the PDF specification, independent of /repo.
type V interface{}
type Null struct{}
type Bool bool
type Int int64
type Real string // decimal digits with optional sign and point
type Str string
type Name string
type Arr []V
type KV struct {
	K string
	V V
}
type Dict []KV
type Ref struct{ Num, Gen int }
type Kw string // any other keyword

func (d Dict) get(k string) V {
	for _, e := range d {
		if e.K == k {
			return e.V
		}
	}
	return nil
}

func (d Dict) has(k string) bool { return d.get(k) != nil }

func (d Dict) with(k string, v V) Dict {
	var r Dict
	for _, e := range d {
		if e.K != k {
			r = append(r, e)
		}
	}
	return append(r, KV{k, v})
}

func show(v V) string {
	switch x := v.(type) {
	case nil, Null:
		return "null"
	case Bool:
		return fmt.Sprint(bool(x))
	case Int:
		return fmt.Sprint(int64(x))
	case Real:
		return string(x)
	case Str:
		if len(x) > 60 {
			return fmt.Sprintf("(%d bytes %q...)", len(x), string(x[:40]))
		}
		return fmt.Sprintf("(%q)", string(x))
	case Name:
		return "/" + strconv.Quote(string(x))
	case Ref:
		return fmt.Sprintf("%d %d R", x.Num, x.Gen)
	case Kw:
		return "kw:" + string(x)
	case Arr:
		var p []string
		for _, e := range x {
			p = append(p, show(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Dict:
		var p []string
		for _, e := range x {
			p = append(p, show(Name(e.K))+" "+show(e.V))
		}
		return "<<" + strings.Join(p, " ") + ">>"
	}
	return fmt.Sprintf("?%T", v)
}

func showObj(o pdf.Object) string {
	switch x := o.(type) {
	case nil:
		return "<nil>"
	case pdf.String:
		return show(Str(x))
	case pdf.Name:
		return show(Name(x))
	case pdf.Number:
		return strconv.FormatFloat(float64(x), 'g', -1, 64)
	case pdf.Keyword:
		return "kw:" + string(x)
	case *pdf.Reference:
		return fmt.Sprintf("%d %d R", x.Number, x.Generation)
	case pdf.Array:
		var p []string
		for _, e := range x {
			p = append(p, showObj(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case pdf.Dictionary:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var p []string
		for _, k := range ks {
			p = append(p, show(Name(k))+" "+showObj(x[k]))
		}
		return "<<" + strings.Join(p, " ") + ">>"
	}
	return fmt.Sprintf("?%T", o)
}

func isNull(v V) bool {
	switch v.(type) {
	case nil, Null:
		return true
	}
	return false
}

func closeTo(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-12*math.Max(math.Abs(a), math.Abs(b)) || d <= 1e-13
}

// diff compares a read object with the model value; "" means equal.
func diff(got pdf.Object, want V) string {
	bad := func() string { return fmt.Sprintf("got %s, want %s", clip(showObj(got), 400), clip(show(want), 400)) }
	switch w := want.(type) {
	case nil, Null:
		if k, ok := got.(pdf.Keyword); !ok || k != "null" {
			return bad()
		}
	case Bool:
		if k, ok := got.(pdf.Keyword); !ok || string(k) != fmt.Sprint(bool(w)) {
			return bad()
		}
	case Kw:
		if k, ok := got.(pdf.Keyword); !ok || string(k) != string(w) {
			return bad()
		}
	case Int:
		if n, ok := got.(pdf.Number); !ok || float64(n) != float64(w) {
			return bad()
		}
	case Real:
		f, _ := strconv.ParseFloat(string(w), 64)
		if n, ok := got.(pdf.Number); !ok || !closeTo(float64(n), f) {
			return bad()
		}
	case Str:
		if s, ok := got.(pdf.String); !ok || string(s) != string(w) {
			return bad()
		}
	case Name:
		if s, ok := got.(pdf.Name); !ok || string(s) != string(w) {
			return bad()
		}
	case Ref:
		if r, ok := got.(*pdf.Reference); !ok || r == nil || r.Number != w.Num || r.Generation != w.Gen {
			return bad()
		}
	case Arr:
		a, ok := got.(pdf.Array)
		if !ok || len(a) != len(w) {
			return bad()
		}
		for i := range w {
			if d := diff(a[i], w[i]); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case Dict:
		d, ok := got.(pdf.Dictionary)
		if !ok {
			return bad()
		}
		n := 0
		for _, e := range w {
			g, ok := d[e.K]
			if !ok {
				if isNull(e.V) { // an entry with a null value equals no entry
					continue
				}
				return fmt.Sprintf("key %q missing (got keys of %s)", e.K, clip(showObj(got), 300))
			}
			n++
			if x := diff(g, e.V); x != "" {
				return fmt.Sprintf("/%s: %s", e.K, x)
			}
		}
		if n != len(d) {
			return "extra keys: " + bad()
		}
	default:
		return fmt.Sprintf("harness: unknown model value %T", want)
	}
	return ""
}

func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d bytes, first difference at %d: got %q want %q", len(got), len(want), i, window(got, i), window(want, i))
}

func window(b []byte, i int) []byte {
	lo, hi := max(0, i-12), min(len(b), i+40)
	if lo > hi {
		return nil
	}
	return b[lo:hi]
}
