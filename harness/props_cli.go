package main

import (
	"bytes"
	"context"
	"crypto/md5"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

func init() {
	register(&Prop{ID: "C20", Quick: 6000, Thorough: 90000,
		Rule: "A case is a scratch tree of files, directories and symbolic links, 1 to 3 documents (some encrypted, some malformed, naming files by relative, absolute and climbing paths), and a history of 1 to 4 runs of the real command line tool with random flags, passwords, inputs (also missing or unreadable ones) and output targets (new, nested, existing directories with contents, files, links, impossible ones). After each run everything outside the target must be as it was, and the target must be untouched or exactly the expected output. Non-trivial: a target existed before some run.",
		Gen:  genC20})
}

// ---- running the command line tool

type cliResult struct {
	stdout, stderr string
	code           int
	killed         string
	cpu            time.Duration
}

// runCLI runs the built tool in a process of its own.
func runCLI(cwd string, args ...string) *cliResult {
	cli := os.Getenv("PDFVERIF_CLI")
	if cli == "" {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: no command line tool built")
		os.Exit(43)
	}
	childRunning.Add(1)
	defer childRunning.Add(-1)
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cli, args...)
	cmd.Dir = cwd
	cmd.Env = []string{"GOMAXPROCS=2", "HOME=" + cwd, "PATH=/usr/bin:/bin"}
	var so, se tailBuffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: cannot start the tool:", err)
		os.Exit(43)
	}
	lim := struct{ cur, max uint64 }{20, 22}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), 0 /* RLIMIT_CPU */, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	err := cmd.Wait()
	r := &cliResult{stdout: so.String(), stderr: se.String()}
	if ps := cmd.ProcessState; ps != nil {
		r.cpu = ps.UserTime() + ps.SystemTime()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		r.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			switch {
			case ws.Signal() == syscall.SIGXCPU:
				r.killed = "hang"
			case ctx.Err() != nil:
				r.killed = "blocked"
			default:
				// killed by something else: no verdict
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR: the tool was ended by", ws.Signal())
				os.Exit(43)
			}
		}
	}
	return r
}

// ended fails the case if the tool did not end by itself.
func (t *T) ended(r *cliResult, what string) {
	if r.killed != "" {
		t.Fail(r.killed, "%s: the tool did not end", what)
	}
	if r.code == 2 && strings.Contains(r.stderr, "goroutine ") {
		t.Fail("panic", "%s: %s", what, clip(r.stderr, 1500))
	}
}

// ---- trees

type node struct {
	mode  os.FileMode
	size  int64
	sum   [16]byte
	link  string
	mtime time.Time
}

// snapshot records everything below root but not below skip.
func snapshot(root string, skip string) map[string]node {
	m := map[string]node{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi == nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if skip != "" && p == skip {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		n := node{mode: fi.Mode()}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			n.link, _ = os.Readlink(p)
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			n.size, n.sum, n.mtime = fi.Size(), md5.Sum(b), fi.ModTime()
		}
		m[rel] = n
		return nil
	})
	return m
}

func snapDiff(a, b map[string]node, allow func(string) bool) string {
	var out []string
	for p, x := range a {
		y, ok := b[p]
		if !ok {
			out = append(out, p+" is gone")
		} else if x != y {
			out = append(out, fmt.Sprintf("%s changed (%v %d bytes -> %v %d bytes)", p, x.mode, x.size, y.mode, y.size))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok && !allow(p) {
			out = append(out, p+" appeared")
		}
	}
	sort.Strings(out)
	if len(out) > 5 {
		out = out[:5]
	}
	return strings.Join(out, "; ")
}

// ---- C20

type cliDoc struct {
	data  []byte
	pw    string
	crypt bool
	exp   *Expect // nil: the outcome is not specified
	what  string
}

func genCLIDoc(s *Src, paths []string) *cliDoc {
	for try := 0; try < 4; try++ {
		switch s.W(6, 1, 1) {
		case 0:
			x := newX(s, s)
			x.paths = paths
			d := &cliDoc{what: "document"}
			if s.P(30) {
				x.setCrypt(genCrypt(s, true))
				d.pw, d.crypt = string(x.doc.Crypt.User), true
				if bytes.IndexByte(x.doc.Crypt.User, 0) >= 0 {
					continue // cannot be given on a command line
				}
				d.what = fmt.Sprintf("encrypted document (password %q)", d.pw)
			}
			x.catalog(catOpts{pages: 40, actions: 40, files: 90})
			d.data = x.doc.write(s, WOpts{fancy: s.P(50)})
			if !x.doc.unambiguous() {
				continue
			}
			e := x.exp
			d.exp = &e
			return d
		case 1:
			if m := malformed(s, true); m != nil {
				return &cliDoc{data: m.data, what: "malformed document"}
			}
		case 2:
			return &cliDoc{data: s.Data(500), what: "arbitrary bytes"}
		}
	}
	return &cliDoc{data: []byte("%PDF-1.7\n"), what: "nearly nothing"}
}

// target is an output directory argument.
type target struct {
	arg  string // as given; @ stands for the absolute path of the working directory
	path string // where that is, relative to the working directory
	kind string
}

func genC20(s *Src) *Case {
	canaries := []string{"keep.txt", "sub/keep.bin", "sub/deep/x.txt", "../up.txt", "../../upup.txt", "evil.txt", "sub2/contents.txt"}
	paths := []string{"../evil.txt", "../keep.txt", "../../up.txt", "../../../upup.txt", "keep.txt", "sub/keep.bin", "/proc/self/cwd/evil.txt", "/proc/self/cwd/sub/deep/x.txt", "/proc/self/cwd/new.txt", "../new.txt", "../sub/new.txt", "..", ".", "/", "", "../", "contents.txt", "errors.txt", "raw.pdf", "urls.txt", "./a/b", "a/../../new2.txt", "..\\evil.txt", "in0.pdf", "../in0.pdf", "con\x00tents", "link/x", "-f", "~", "$HOME/x"}
	nd := s.Int(1, 3)
	var docs []*cliDoc
	for i := 0; i < nd; i++ {
		docs = append(docs, genCLIDoc(s, paths))
	}
	targets := []target{
		{"out", "out", "new"}, {"new/deep/out", "new/deep/out", "nested new"}, {"full", "full", "full directory"},
		{"empty", "empty", "empty directory"}, {"file", "file", "file"}, {"keep.txt/out", "keep.txt/out", "below a file"},
		{"link", "link", "link to a directory"}, {"flink", "flink", "link to a file"}, {"full/nested", "full/nested", "directory in a directory"},
		{"sub3/out", "sub3/out", "new in a directory"}, {"ro/out", "ro/out", "in a read-only directory"},
	}
	type op struct {
		doc          int // -1 missing, -2 unreadable, -3 a directory
		tgt          target
		args         []string
		overwrite    bool
		pw           string
		usage        bool
		input        string
		text         string
		wrongPw      bool
		flagsInvalid bool
	}
	var ops []op
	existing := false
	for k := s.Int(1, 4); k > 0; k-- {
		var o op
		o.tgt = targets[s.N(len(targets))]
		if s.P(50) && len(ops) > 0 {
			o.tgt = ops[s.N(len(ops))].tgt
			o.tgt.arg = o.tgt.path
		}
		switch s.W(5, 1, 1, 1, 1) {
		case 1:
			o.tgt.arg += "/"
		case 2:
			o.tgt.arg = "./" + o.tgt.arg
		case 3:
			o.tgt.arg = "@@CWD@@/" + o.tgt.arg
		case 4:
			o.tgt.arg = "sub/../" + o.tgt.arg
		}
		if strings.HasSuffix(o.tgt.arg, "/") && o.tgt.path == "link" {
			o.tgt.arg = "link" // "link/" names the directory it leads to
		}
		o.doc = s.N(nd)
		o.input = fmt.Sprintf("in%d.pdf", o.doc)
		switch s.W(12, 1, 1) {
		case 1:
			o.doc, o.input = -1, pick(s, "missing.pdf", "keep.txt/x", "nodir/x.pdf", "")
		case 2:
			o.doc, o.input = -2, "unreadable.pdf"
		}
		if s.P(20) && o.input != "" {
			o.input = "@@CWD@@/" + o.input
		}
		var flags []string
		switch s.W(5, 3, 1, 1, 1) {
		case 1:
			flags, o.overwrite = append(flags, "-f"), true
		case 2:
			flags, o.overwrite = append(flags, "--f"), true
		case 3:
			flags, o.overwrite = append(flags, "-f=true"), true
		case 4:
			flags = append(flags, "-f=false")
		}
		if s.P(25) {
			flags = append(flags, pick(s, "-v", "--v", "-v=true"))
		}
		if s.P(15) {
			flags = append(flags, "-v=false")
		}
		right := o.doc >= 0 && docs[o.doc].crypt && s.P(75)
		switch {
		case right:
			o.pw = docs[o.doc].pw
		case s.P(30):
			o.pw = pick(s, "wrong", "secret", "a b", "-f", "")
		}
		if o.pw != "" || s.P(10) {
			switch s.N(3) {
			case 0:
				flags = append(flags, "-p", o.pw)
			case 1:
				flags = append(flags, "-p="+o.pw)
			case 2:
				flags = append(flags, "--p="+o.pw)
			}
			if s.Bool() && len(flags) > 1 && flags[len(flags)-2] != "-p" {
				flags = append([]string{flags[len(flags)-1]}, flags[:len(flags)-1]...)
			}
		}
		o.args = append(flags, o.input, o.tgt.arg)
		switch s.W(20, 1, 1, 1) {
		case 1:
			o.usage, o.args = true, o.args[:len(o.args)-1]
		case 2:
			o.usage, o.args = true, append(o.args, pick(s, "extra", "sub", "-f"))
		case 3:
			o.usage, o.args = true, append([]string{pick(s, "-x", "--force", "-f=maybe", "-out")}, o.args...)
		}
		if o.doc >= 0 && docs[o.doc].crypt {
			o.wrongPw = passwordDiffers(o.pw, docs[o.doc].pw)
		}
		if k := o.tgt.kind; strings.Contains(k, "directory") || strings.Contains(k, "file") || strings.Contains(k, "link") {
			existing = true
		}
		ops = append(ops, o)
	}
	hostileIn := s.N(4)
	c := &Case{Files: map[string][]byte{}, NonTrivial: existing || len(ops) > 1}
	var desc []string
	for i, d := range docs {
		c.Files[fmt.Sprintf("in%d.pdf", i)] = d.data
		desc = append(desc, fmt.Sprintf("in%d: %s", i, d.what))
	}
	for _, o := range ops {
		desc = append(desc, fmt.Sprintf("pdfparser %q", o.args))
		c.label("target " + o.tgt.kind)
		if o.overwrite {
			c.label("overwrite")
		}
		if o.usage {
			c.label("usage")
		}
		if o.wrongPw {
			c.label("wrong-password")
		}
		if o.doc < 0 {
			c.label("no-input")
		}
	}
	c.Desc = clip(strings.Join(desc, "; "), 600)
	c.Key = []byte(c.Desc)
	c.Run = func(t *T) {
		top := filepath.Dir(filepath.Dir(filepath.Dir(t.dir))) // jN
		w := filepath.Join(t.dir, "w")
		must := func(err error) {
			if err != nil {
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
				os.Exit(43)
			}
		}
		put := func(rel, data string) {
			p := filepath.Join(w, rel)
			must(os.MkdirAll(filepath.Dir(p), 0755))
			must(os.WriteFile(p, []byte(data), 0644))
		}
		for _, p := range canaries {
			put(p, "canary "+p)
		}
		put("file", "an existing file")
		put("full/old.txt", "old")
		put("full/contents.txt", "old contents")
		put("full/sub/deep/old2.txt", "old")
		put("full/nested/old3.txt", "old")
		put("linked/kept.txt", "kept")
		put("unreadable.pdf", "secret")
		must(os.Chmod(filepath.Join(w, "unreadable.pdf"), 0))
		must(os.MkdirAll(filepath.Join(w, "empty"), 0755))
		must(os.MkdirAll(filepath.Join(w, "sub3"), 0755))
		must(os.MkdirAll(filepath.Join(w, "ro"), 0755))
		must(os.Symlink("linked", filepath.Join(w, "link")))
		must(os.Symlink("keep.txt", filepath.Join(w, "flink")))
		switch hostileIn {
		case 1: // entries that collide with the output
			must(os.Symlink("../keep.txt", filepath.Join(w, "full", "urls.txt")))
			must(os.Symlink("../sub", filepath.Join(w, "full", "zlink")))
			must(os.MkdirAll(filepath.Join(w, "full", "raw.pdf", "x"), 0755))
		case 2:
			must(os.Symlink("/proc/self/cwd/sub/keep.bin", filepath.Join(w, "empty", "errors.txt")))
			must(os.Symlink("..", filepath.Join(w, "full", "up")))
		case 3:
			for _, d := range docs {
				if d.exp != nil {
					for n := range d.exp.Dumps {
						os.Remove(filepath.Join(w, "full", n))
						must(os.Symlink("../evil.txt", filepath.Join(w, "full", n)))
					}
				}
			}
			must(os.Link(filepath.Join(w, "keep.txt"), filepath.Join(w, "full", "commands.txt")))
		}
		for i, d := range docs {
			put(fmt.Sprintf("in%d.pdf", i), string(d.data))
		}
		must(os.Chmod(filepath.Join(w, "ro"), 0555))
		defer os.Chmod(filepath.Join(w, "ro"), 0755)
		for i, o := range ops {
			var args []string
			for _, a := range o.args {
				args = append(args, strings.Replace(a, "@@CWD@@/", w+"/", 1))
			}
			what := fmt.Sprintf("run %d %q", i+1, o.args)
			dst := filepath.Join(w, o.tgt.path)
			_, serr := os.Stat(dst)
			exists := serr == nil || !os.IsNotExist(serr)
			possible := o.tgt.kind != "below a file" && (os.Geteuid() == 0 || o.tgt.kind != "in a read-only directory")
			if os.Geteuid() == 0 && o.doc == -2 {
				continue // nothing is unreadable
			}
			before := snapshot(top, "")
			r := runCLI(w, args...)
			t.ended(r, what)
			if o.usage || (exists && !o.overwrite) || o.doc < 0 || !possible {
				after := snapshot(top, "")
				if d := snapDiff(before, after, func(string) bool { return false }); d != "" {
					t.Fail("touched", "%s had to leave everything as it was: %s", what, d)
				}
				if o.usage && r.code == 0 {
					t.Fail("usage", "%s: a usage error ends with code 0", what)
				}
				if r.stdout == "" && r.stderr == "" {
					t.Fail("silent", "%s did nothing and said nothing", what)
				}
				t.Label("left-alone")
				continue
			}
			// everything else is as it was
			b2 := map[string]node{}
			rel, _ := filepath.Rel(top, dst)
			for p, n := range before {
				if p != rel && !strings.HasPrefix(p, rel+"/") {
					b2[p] = n
				}
			}
			after := snapshot(top, dst)
			if d := snapDiff(b2, after, func(p string) bool { return strings.HasPrefix(rel, p+"/") }); d != "" {
				t.Fail("touched", "%s changed something outside its output directory: %s", what, d)
			}
			fi, err := os.Lstat(dst)
			if err != nil || !fi.IsDir() {
				t.Fail("no-output", "%s: there is no output directory (%v)", what, err)
			}
			es, _ := os.ReadDir(dst)
			for _, e := range es {
				if !e.Type().IsRegular() {
					t.Fail("not-a-file", "%s: %s in the output directory is not a regular file", what, e.Name())
				}
			}
			out := readOut(dst)
			if len(out.Missing) > 0 {
				t.Fail("missing", "%s: missing %v", what, out.Missing)
			}
			for n := range out.Files {
				if len(n) != 32 || strings.Trim(n, "0123456789abcdef") != "" {
					t.Fail("leftover", "%s: %q in the output directory", what, n)
				}
			}
			d := docs[o.doc]
			switch {
			case o.wrongPw:
				for n, b := range map[string][]byte{"commands.txt": out.Commands, "contents.txt": out.Text, "javascript.js": out.JS, "urls.txt": out.URLs, "files.txt": out.FilesTxt, "raw.pdf": out.Raw} {
					if len(b) > 0 {
						t.Fail("wrong-password", "%s: the password is wrong but %s has %q", what, n, clip(string(b), 200))
					}
				}
				if len(out.Files) > 0 {
					t.Fail("wrong-password", "%s: the password is wrong but files are extracted", what)
				}
				if r.stderr == "" {
					t.Fail("silent", "%s: the password is wrong and nothing is reported", what)
				}
				t.Label("refused")
			case d.exp != nil:
				d.exp.check(t, out)
				t.Label("extracted")
			}
		}
	}
	return c
}

// passwordDiffers: passwords count up to 32 bytes.
func passwordDiffers(a, b string) bool {
	return !bytes.Equal(pad32([]byte(a)), pad32([]byte(b)))
}
