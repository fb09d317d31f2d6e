package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func init() {
	register(&Prop{ID: "C21", Quick: 1200, Thorough: 30000,
		Rule: "A case is a pool of 2 to 4 jobs (documents with different fonts, files, encryption and passwords right or wrong, malformed and hostile files, impossible inputs and targets) and three histories over them: a random sequence in one process, the same in 2 to 6 concurrent goroutines, and reads of objects from several open documents in random interleaving. Every result must be the one the command line tool gives in a fresh process for that job alone (and, where the generator knows it, the expected one), and no file may stay open. The harness is built with the race detector. Non-trivial: at least 2 different jobs are in the histories.",
		Gen:  genC21})
}

type job struct {
	doc     *cliDoc
	pw      string
	missing bool // the input does not exist
	isDir   bool // the input is a directory
	badOut  bool // the output directory cannot be made
	what    string
}

// view is the result of a job without the order of independent items.
type view struct {
	err   string
	files map[string]string
}

func sortedBytes(b []byte) string {
	var n [256]int
	for _, c := range b {
		n[c]++
	}
	return fmt.Sprint(n)
}

func viewOf(o *Out, err string) *view {
	v := &view{err: err, files: map[string]string{}}
	for n, b := range map[string][]byte{"commands.txt": o.Commands, "contents.txt": o.Text, "errors.txt": o.Errors, "javascript.js": o.JS, "urls.txt": o.URLs, "files.txt": o.FilesTxt} {
		v.files[n] = sortedLines(b)
	}
	v.files["raw.pdf"] = sortedBytes(o.Raw)
	for _, m := range o.Missing {
		v.files[m] = "(missing)"
	}
	for n, b := range o.Files {
		v.files["extracted "+n] = string(b)
	}
	return v
}

func (v *view) diff(w *view) string {
	if v.err != w.err {
		return fmt.Sprintf("error %q and %q", v.err, w.err)
	}
	var ks []string
	for k := range v.files {
		ks = append(ks, k)
	}
	for k := range w.files {
		if _, ok := v.files[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, aok := v.files[k]
		b, bok := w.files[k]
		if aok != bok || a != b {
			return fmt.Sprintf("%s is %q and %q", k, clip(a, 400), clip(b, 400))
		}
	}
	return ""
}

// lay prepares the input and output of a job below dir.
func (j *job) lay(dir string) (in, out string) {
	os.MkdirAll(dir, 0755)
	in, out = filepath.Join(dir, "in.pdf"), filepath.Join(dir, "out")
	switch {
	case j.missing:
		in = filepath.Join(dir, "nothing.pdf")
	case j.isDir:
		os.MkdirAll(in, 0755)
	default:
		os.WriteFile(in, j.doc.data, 0644)
	}
	if j.badOut {
		out = filepath.Join(dir, "in.pdf", "out")
	}
	return
}

// strip removes the directory, which differs from run to run, from messages.
func strip(msg, dir string) string { return strings.ReplaceAll(strings.TrimSpace(msg), dir, "DIR") }

func (j *job) run(dir string) *view {
	in, out := j.lay(dir)
	err := pdf.Parse(in, j.pw, out)
	o := readOut(out)
	msg := ""
	if err != nil {
		msg = strip(err.Error(), dir)
	}
	v := viewOf(o, msg)
	os.RemoveAll(dir)
	return v
}

func (j *job) fresh(t *T, dir string) (*view, time.Duration) {
	in, out := j.lay(dir)
	args := []string{in, out}
	if j.pw != "" {
		args = []string{"-p", j.pw, in, out}
	}
	if j.badOut {
		args = append([]string{"-f"}, args...)
	}
	r := runCLI(filepath.Dir(dir), args...)
	t.ended(r, "a fresh process")
	o := readOut(out)
	v := viewOf(o, strip(r.stderr, dir))
	if j.doc.exp != nil && !j.missing && !j.isDir && !j.badOut && (!j.doc.crypt || !passwordDiffers(j.pw, j.doc.pw)) {
		j.doc.exp.check(t, o)
	}
	os.RemoveAll(dir)
	return v, r.cpu
}

func genC21(s *Src) *Case {
	var jobs []*job
	for k := s.Int(2, 4); k > 0; k-- {
		j := &job{}
		if s.P(20) {
			d, pw, _ := hostileDoc(s)
			j.doc, j.pw = &cliDoc{data: d, what: "hostile document"}, pw
			if strings.IndexByte(pw, 0) >= 0 {
				j.pw = ""
			}
		} else {
			j.doc = genCLIDoc(s, nil)
			j.pw = j.doc.pw
		}
		switch s.W(10, 2, 1, 1, 1) {
		case 1:
			j.pw = pick(s, "wrong", "", "secret")
		case 2:
			j.missing = true
		case 3:
			j.isDir = true
		case 4:
			j.badOut = true
		}
		j.what = fmt.Sprintf("%s password %q missing %v dir %v bad-out %v", j.doc.what, j.pw, j.missing, j.isDir, j.badOut)
		jobs = append(jobs, j)
	}
	var seq []int
	for k := s.Int(2, 6); k > 0; k-- {
		seq = append(seq, s.N(len(jobs)))
	}
	var lanes [][]int
	lanesN := s.Int(2, 6)
	for i := 0; i < lanesN; i++ {
		var l []int
		for k := s.Int(1, 4); k > 0; k-- {
			l = append(l, s.N(len(jobs)))
		}
		lanes = append(lanes, l)
	}
	type readOp struct{ j, num int }
	var reads []readOp
	for k := s.N(40); k > 0; k-- {
		reads = append(reads, readOp{s.N(len(jobs)), s.N(14)})
	}
	c := &Case{Files: map[string][]byte{}}
	distinct := map[int]bool{}
	for _, k := range seq {
		distinct[k] = true
	}
	c.NonTrivial = len(distinct) >= 2
	var desc []string
	for i, j := range jobs {
		c.Files[fmt.Sprintf("job%d.pdf", i)] = j.doc.data
		desc = append(desc, fmt.Sprintf("job%d: %s", i, j.what))
		c.label(j.doc.what[:min(len(j.doc.what), 9)])
	}
	c.Desc = clip(fmt.Sprintf("%s; sequence %v; concurrent %v; %d interleaved reads", strings.Join(desc, "; "), seq, lanes, len(reads)), 600)
	c.Key = []byte(c.Desc)
	c.Run = func(t *T) {
		runs := make([]int, len(jobs))
		for _, k := range seq {
			runs[k]++
		}
		for _, l := range lanes {
			for _, k := range l {
				runs[k]++
			}
		}
		for _, r := range reads {
			runs[r.j]++
		}
		base := make([]*view, len(jobs))
		for i, j := range jobs {
			var cpu time.Duration
			base[i], cpu = j.fresh(t, filepath.Join(t.dir, fmt.Sprintf("fresh%d", i)))
			if time.Duration(runs[i])*cpu > 500*time.Millisecond || len(j.doc.data) > 200000 {
				// too much to run many times under the race detector
				base[i] = nil
				t.Label("expensive-job")
			}
		}
		// one after the other, with nothing collected behind our back
		fds := func() int {
			// ours: others are opened by the runtime and the watchdog
			n := 0
			es, _ := os.ReadDir("/proc/self/fd")
			for _, e := range es {
				if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, t.dir) {
					n++
				}
			}
			return n
		}
		old := debug.SetGCPercent(-1)
		before := fds()
		for n, k := range seq {
			if base[k] == nil {
				continue
			}
			v := jobs[k].run(filepath.Join(t.dir, fmt.Sprintf("seq%d", n)))
			if d := base[k].diff(v); d != "" {
				debug.SetGCPercent(old)
				t.Fail("sequence", "job %d as number %d of the sequence %v, compared with a fresh process: %s", k, n+1, seq, d)
			}
		}
		after := fds()
		debug.SetGCPercent(old)
		if after > before {
			t.Fail("open-files", "%d parses left %d files open", len(seq), after-before)
		}
		// at the same time
		var wg sync.WaitGroup
		msgs := make([]string, len(lanes))
		start := make(chan struct{})
		for l := range lanes {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n, k := range lanes[l] {
					if base[k] == nil {
						continue
					}
					v := jobs[k].run(filepath.Join(t.dir, fmt.Sprintf("lane%d-%d", l, n)))
					if d := base[k].diff(v); d != "" && msgs[l] == "" {
						msgs[l] = fmt.Sprintf("job %d in lane %d of %v, compared with a fresh process: %s", k, l, lanes, d)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, m := range msgs {
			if m != "" {
				t.Fail("concurrent", "%s", m)
			}
		}
		// several documents open at once
		var ps []*pdf.Parser
		alone := map[readOp]string{}
		for i, j := range jobs {
			var p *pdf.Parser
			err := errors.New("not run")
			if base[i] != nil {
				p, err = load(j.doc.data, j.pw)
			}
			if err != nil {
				p = nil
			}
			ps = append(ps, p)
		}
		for _, r := range reads {
			if ps[r.j] == nil {
				continue
			}
			if _, ok := alone[r]; !ok {
				p, _ := load(jobs[r.j].doc.data, jobs[r.j].pw)
				alone[r] = objView(p.GetObject(r.num))
			}
		}
		for n, r := range reads {
			if ps[r.j] == nil {
				continue
			}
			if got := objView(ps[r.j].GetObject(r.num)); got != alone[r] {
				t.Fail("interleaved", "read %d of %v (job, object): %s, alone %s", n, reads, clip(got, 300), clip(alone[r], 300))
			}
		}
	}
	return c
}

func objView(o *pdf.IndirectObject) string {
	return fmt.Sprintf("%d %d %s %x", o.Number, o.Generation, showObj(o.Value), o.Stream)
}
