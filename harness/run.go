package main

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// Out is what one run of the documented entry point produced.
type Out struct {
	Err      error
	Commands []byte
	Text     []byte
	Errors   []byte
	JS       []byte
	URLs     []byte
	FilesTxt []byte
	Raw      []byte
	Files    map[string][]byte // everything else in the directory
	Missing  []string          // documented files that do not exist
}

func parseAt(dir string, data []byte, password string) *Out {
	in := filepath.Join(dir, "in.pdf")
	if err := os.WriteFile(in, data, 0644); err != nil {
		panic(err)
	}
	out := filepath.Join(dir, "out")
	err := pdf.Parse(in, password, out)
	o := readOut(out)
	o.Err = err
	os.RemoveAll(out)
	return o
}

func readOut(dir string) *Out {
	o := &Out{Files: map[string][]byte{}}
	for _, f := range []struct {
		name string
		to   *[]byte
	}{{"commands.txt", &o.Commands}, {"contents.txt", &o.Text}, {"errors.txt", &o.Errors}, {"javascript.js", &o.JS},
		{"urls.txt", &o.URLs}, {"files.txt", &o.FilesTxt}, {"raw.pdf", &o.Raw}} {
		b, err := os.ReadFile(filepath.Join(dir, f.name))
		if err != nil {
			o.Missing = append(o.Missing, f.name)
		}
		*f.to = b
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		switch e.Name() {
		case "commands.txt", "contents.txt", "errors.txt", "javascript.js", "urls.txt", "files.txt", "raw.pdf":
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		o.Files[e.Name()] = b
	}
	return o
}

func (t *T) parse(data []byte, password string) *Out { return parseAt(t.dir, data, password) }

// load opens a document for reading objects.
func load(data []byte, password string) (*pdf.Parser, error) {
	p := pdf.NewParser(bytes.NewReader(data), nil)
	return p, p.Load(password)
}

// slowReader delivers at most n bytes at a time.
type slowReader struct {
	r *bytes.Reader
	n func() int
}

func (r *slowReader) Read(p []byte) (int, error) {
	if k := r.n(); len(p) > k {
		p = p[:k]
	}
	return r.r.Read(p)
}

func (r *slowReader) Seek(o int64, w int) (int64, error) { return r.r.Seek(o, w) }

var _ io.ReadSeeker = &slowReader{}

func sameErr(err, want error) bool { return errors.Is(err, want) }

// lineTree checks got against lines known to come in groups: the content must
// be some interleaving-free ordering of the given blocks (each block verbatim).
func sameBlocks(got []byte, blocks []string) string {
	// order independent: compare multisets of lines when no block holds line breaks,
	// otherwise search for a tiling
	want := strings.Join(blocks, "")
	if len(want) != len(got) {
		return blockDiff(got, blocks)
	}
	if string(got) == want {
		return ""
	}
	simple := true
	for _, b := range blocks {
		if strings.Count(b, "\n") != 1 {
			simple = false
		}
	}
	if simple {
		a := strings.SplitAfter(string(got), "\n")
		b := strings.SplitAfter(want, "\n")
		sort.Strings(a)
		sort.Strings(b)
		for i := range a {
			if i >= len(b) || a[i] != b[i] {
				return blockDiff(got, blocks)
			}
		}
		if len(a) != len(b) {
			return blockDiff(got, blocks)
		}
		return ""
	}
	// tiling by backtracking over distinct blocks
	count := map[string]int{}
	var keys []string
	for _, b := range blocks {
		if count[b] == 0 {
			keys = append(keys, b)
		}
		count[b]++
	}
	sort.Slice(keys, func(i, j int) bool { return len(keys[i]) > len(keys[j]) })
	steps := 0
	var rec func(rest string) bool
	rec = func(rest string) bool {
		if steps++; steps > 20000 {
			return true // undecided: do not raise an alarm
		}
		if rest == "" {
			return true
		}
		for _, k := range keys {
			if count[k] > 0 && k != "" && strings.HasPrefix(rest, k) {
				count[k]--
				if rec(rest[len(k):]) {
					return true
				}
				count[k]++
			}
		}
		return false
	}
	if rec(string(got)) {
		return ""
	}
	return blockDiff(got, blocks)
}

func blockDiff(got []byte, blocks []string) string {
	have := map[string]int{}
	for _, l := range strings.SplitAfter(string(got), "\n") {
		have[l]++
	}
	var missing []string
	for _, b := range blocks {
		for _, l := range strings.SplitAfter(b, "\n") {
			if l == "" {
				continue
			}
			if have[l] > 0 {
				have[l]--
			} else {
				missing = append(missing, l)
			}
		}
	}
	var extra []string
	for l, n := range have {
		for ; n > 0 && l != ""; n-- {
			extra = append(extra, l)
		}
	}
	sort.Strings(extra)
	q := func(x []string) string {
		var b strings.Builder
		for i, l := range x {
			if i > 6 {
				b.WriteString("...")
				break
			}
			b.WriteString(clip(strings.TrimSuffix(showBytes(l), ""), 160) + " ")
		}
		return b.String()
	}
	return "missing lines: " + q(missing) + " extra lines: " + q(extra)
}

func showBytes(s string) string {
	return show(Str(s))
}
