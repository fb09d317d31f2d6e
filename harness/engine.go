package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one generated case, ready to run.
type Case struct {
	Desc       string            // short human readable description
	Labels     []string          // classification
	NonTrivial bool              // by the property's stated rule
	Key        []byte            // identity of the case, for distinctness
	Files      map[string][]byte // what a person needs to see: input.pdf, ...
	Run        func(t *T)
}

func (c *Case) label(l string) { c.Labels = append(c.Labels, l) }

// Prop is an executable property.
type Prop struct {
	ID       string
	Rule     string
	Gen      func(s *Src) *Case
	Quick    int
	Thorough int
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T is handed to a running case.
type T struct {
	dir    string // scratch directory of this case
	labels []string
}

type failure struct{ kind, msg string }

func (t *T) Fail(kind, format string, a ...interface{}) {
	panic(failure{kind, fmt.Sprintf(format, a...)})
}

func (t *T) Label(l string) { t.labels = append(t.labels, l) }

// ---------------------------------------------------------------- worker

type req struct {
	Op      string   `json:"op"` // batch | exec | describe
	Seed    uint64   `json:"seed,omitempty"`
	From    int      `json:"from,omitempty"`
	To      int      `json:"to,omitempty"`
	Choices []uint64 `json:"choices,omitempty"`
}

type outcome struct {
	Index   int      `json:"index"`
	Kind    string   `json:"kind,omitempty"` // empty: passed
	Msg     string   `json:"msg,omitempty"`
	Choices []uint64 `json:"choices,omitempty"`
	Desc    string   `json:"desc,omitempty"`
}

type resp struct {
	Done    bool              `json:"done"`
	Cases   int               `json:"cases"`
	Keys    []string          `json:"keys,omitempty"` // hashes of non-trivial cases
	Labels  map[string]int    `json:"labels,omitempty"`
	Samples []string          `json:"samples,omitempty"`
	Fail    *outcome          `json:"fail,omitempty"`
	Desc    string            `json:"desc,omitempty"`
	Choices []uint64          `json:"choices,omitempty"`
	Files   map[string]string `json:"files,omitempty"` // hex
}

const cpuLimit = 20 * time.Second // CPU time of one case; usual cases take milliseconds
const blockedTurns = 1200         // of 50 ms
const memLimit = 3 << 30          // resident bytes of a worker

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// childBusy: a process the case started is running; it has limits of its own.
var childRunning atomic.Int32

func childBusy() bool { return childRunning.Load() > 0 }

var caseCPUStart struct {
	sync.Mutex
	at     time.Duration
	active bool
}

func watchdog() {
	// A case that waits for something for ever uses no CPU time. It is told
	// from a starved machine by counting our own turns: in blockedTurns of them
	// the process did next to nothing.
	turns, turnCPU, turnCase := 0, time.Duration(0), time.Duration(-1)
	for {
		time.Sleep(50 * time.Millisecond)
		caseCPUStart.Lock()
		active, at := caseCPUStart.active, caseCPUStart.at
		caseCPUStart.Unlock()
		if !active {
			turns = 0
			continue
		}
		if at != turnCase || turns == 0 {
			turns, turnCase, turnCPU = 0, at, cpuTime()
		}
		if turns++; turns >= blockedTurns {
			if childBusy() {
				turns = 0
				continue
			}
			if used := cpuTime() - turnCPU; used < time.Second {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.WriteString("CASE-BLOCKED: the case waits for something that does not happen\n")
				os.Stderr.Write(buf[:min(n, 6000)])
				os.Exit(44)
			}
			turns = 0
		}
		if cpuTime()-at > cpuLimit {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			os.Stderr.WriteString("CASE-HANG: no result within the CPU limit\n")
			os.Stderr.Write(buf[:min(n, 6000)])
			os.Exit(41)
		}
		if rss() > memLimit {
			os.Stderr.WriteString("CASE-MEMORY: resident memory above the limit\n")
			os.Exit(42)
		}
	}
}

var scratchRoot string
var realStdout *os.File

func runCase(c *Case, n int) (o outcome, labels []string) {
	dir := filepath.Join(scratchRoot, "j"+strconv.Itoa(n), "a", "b", "c")
	t := &T{dir: dir}
	top := filepath.Join(scratchRoot, "j"+strconv.Itoa(n))
	defer os.RemoveAll(top)
	if err := os.MkdirAll(dir, 0755); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: cannot create scratch directory:", err)
		os.Exit(43)
	}
	caseCPUStart.Lock()
	caseCPUStart.at, caseCPUStart.active = cpuTime(), true
	caseCPUStart.Unlock()
	defer func() {
		caseCPUStart.Lock()
		caseCPUStart.active = false
		caseCPUStart.Unlock()
		labels = t.labels
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				o.Kind, o.Msg = f.kind, f.msg
				return
			}
			o.Kind = "panic"
			st := string(debug.Stack())
			o.Msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
			if !strings.Contains(st, "pdfparser/pdf.") {
				// The case was generated without running the code under test,
				// so it is what that code returned that the comparison tripped over.
				o.Msg = "the comparison failed on what the code returned: " + o.Msg
			}
		}
	}()
	c.Run(t)
	return
}

func trimStack(s string) string {
	i := strings.Index(s, "panic(")
	if i >= 0 {
		s = s[i:]
	}
	if len(s) > 1800 {
		s = s[:1800]
	}
	return s
}

func genCase(p *Prop, s *Src) (c *Case) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR: generator of %s panicked: %v\n%s\n", p.ID, r, debug.Stack())
			os.Exit(43)
		}
	}()
	return p.Gen(s)
}

func keyHash(c *Case) string {
	h := sha256.New()
	h.Write(c.Key)
	var names []string
	for n := range c.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(h, "|%s|%d|", n, len(c.Files[n]))
		h.Write(c.Files[n])
	}
	return hex.EncodeToString(h.Sum(nil)[:9])
}

func workerMain(p *Prop) {
	debug.SetMaxStack(96 << 20)
	debug.SetGCPercent(200)
	realStdout = os.NewFile(3, "resp")
	idx, _ := os.OpenFile(filepath.Join(scratchRoot, "current"), os.O_CREATE|os.O_RDWR, 0644)
	go watchdog()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(realStdout)
	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r req
		if err := json.Unmarshal(line, &r); err != nil {
			os.Exit(43)
		}
		switch r.Op {
		case "batch":
			res := resp{Done: true, Labels: map[string]int{}}
			for i := r.From; i < r.To; i++ {
				idx.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
				s := NewSrc(r.Seed, p.ID, i)
				c := genCase(p, s)
				n++
				o, labels := runCase(c, n)
				res.Cases++
				for _, l := range c.Labels {
					res.Labels[l]++
				}
				for _, l := range labels {
					res.Labels[l]++
				}
				if c.NonTrivial {
					res.Keys = append(res.Keys, keyHash(c))
				}
				if i%997 == 5 || (i < 40 && i%8 == 3) {
					res.Samples = append(res.Samples, fmt.Sprintf("#%d %s", i, c.Desc))
				}
				if o.Kind != "" {
					o.Index, o.Choices, o.Desc = i, s.rec, c.Desc
					res.Fail = &o
					break
				}
			}
			out.Encode(res)
		case "known": // the listed findings that still fail
			res := resp{Done: true, Labels: map[string]int{}}
			for k, f := range knownRepros {
				n++
				c := &Case{Run: func(t *T) {
					if f(t) {
						t.Label("fails")
					}
				}}
				if o, labels := runCase(c, n); o.Kind != "" || len(labels) > 0 {
					res.Labels[k] = 1
				}
			}
			out.Encode(res)
		case "gen": // choices of a case, without running it
			s := NewSrc(r.Seed, p.ID, r.From)
			c := genCase(p, s)
			out.Encode(resp{Done: true, Choices: s.rec, Desc: c.Desc})
		case "exec":
			s := ReplaySrc(r.Choices)
			c := genCase(p, s)
			n++
			o, _ := runCase(c, n)
			res := resp{Done: true, Cases: 1, Choices: s.rec, Desc: c.Desc}
			if o.Kind != "" {
				o.Choices, o.Desc = s.rec, c.Desc
				res.Fail = &o
			}
			out.Encode(res)
		case "describe":
			s := ReplaySrc(r.Choices)
			c := genCase(p, s)
			res := resp{Done: true, Choices: s.rec, Desc: c.Desc, Files: map[string]string{}}
			for k, v := range c.Files {
				res.Files[k] = hex.EncodeToString(v)
			}
			out.Encode(res)
		}
	}
}

// ---------------------------------------------------------------- driver

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errBuf *tailBuffer
	dir    string
}

type tailBuffer struct {
	sync.Mutex
	head, tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.Lock()
	defer t.Unlock()
	n := len(p)
	if room := 4000 - len(t.head); room > 0 {
		k := min(room, len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 2000 {
		t.tail = t.tail[len(t.tail)-2000:]
	}
	return n, nil
}

func (t *tailBuffer) String() string {
	t.Lock()
	defer t.Unlock()
	return string(t.head) + string(t.tail)
}

var workRoot string
var workerSeq int
var workerMu sync.Mutex
var unprivileged = true

func startWorker(prop string) (*worker, error) {
	workerMu.Lock()
	workerSeq++
	id := workerSeq
	workerMu.Unlock()
	dir := filepath.Join(workRoot, fmt.Sprintf("w%d", id))
	if err := os.MkdirAll(dir, 0755); err != nil {
		return nil, err
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", "-prop", prop, "-scratch", dir)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "TMPDIR="+dir, "HOME="+dir, "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	if unprivileged && os.Getuid() == 0 {
		os.Chown(dir, 65534, 65534)
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}, Pdeathsig: syscall.SIGKILL}
	} else {
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	in, _ := cmd.StdinPipe()
	w := &worker{cmd: cmd, in: in, errBuf: &tailBuffer{}, dir: dir}
	cmd.Stderr = w.errBuf
	cmd.Stdout = nil
	runtime.LockOSThread() // Pdeathsig is tied to the starting thread
	err = cmd.Start()
	pw.Close()
	if err != nil {
		pr.Close()
		if unprivileged && os.Getuid() == 0 {
			unprivileged = false // containment then rests on the scratch layout
			return startWorker(prop)
		}
		return nil, err
	}
	w.out = bufio.NewReaderSize(pr, 1<<20)
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.RemoveAll(w.dir)
}

type crash struct {
	kind, msg string
	harness   bool
}

// call sends a request; a nil response comes with the worker's crash.
func (w *worker) call(r req) (*resp, *crash) {
	b, _ := json.Marshal(r)
	b = append(b, '\n')
	if _, err := w.in.Write(b); err == nil {
		line, err := w.out.ReadBytes('\n')
		if err == nil {
			var res resp
			if json.Unmarshal(line, &res) == nil {
				return &res, nil
			}
		}
	}
	err := w.cmd.Wait()
	msg := w.errBuf.String()
	code := -1
	sig := ""
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			sig = ws.Signal().String()
		}
	}
	c := &crash{msg: msg}
	switch {
	case code == 41:
		c.kind = "hang"
	case code == 42:
		c.kind = "memory"
	case code == 66 && strings.Contains(msg, "DATA RACE"):
		c.kind = "race"
	case code == 44:
		c.kind = "blocked"
	case code == 43 || strings.Contains(msg, "HARNESS-ERROR"):
		c.kind, c.harness = "harness", true
	case strings.Contains(msg, "stack overflow") || strings.Contains(msg, "goroutine stack exceeds"):
		c.kind = "stack-overflow"
	case strings.Contains(msg, "fatal error: runtime: cannot allocate memory") || strings.Contains(msg, "out of memory"):
		c.kind = "memory"
	case strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:"):
		c.kind = "fatal"
	case sig != "":
		// killed from outside (for instance by the system's memory manager)
		c.kind, c.harness = "killed by "+sig, true
	default:
		c.kind, c.harness = fmt.Sprintf("worker ended with code %d", code), true
	}
	return nil, c
}

func (w *worker) current() int {
	b, _ := os.ReadFile(filepath.Join(w.dir, "current"))
	n, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return -1
	}
	return n
}

type result struct {
	cases   int
	keys    map[string]bool
	labels  map[string]int
	samples []string
	fail    *outcome
	harness string
}

// explore runs cases [0,total) of p and returns the failing case of lowest index.
func explore(p *Prop, seed uint64, total int, nworkers int) *result {
	res := &result{keys: map[string]bool{}, labels: map[string]int{}}
	var mu sync.Mutex
	next, limit := 0, total
	batch := max(4, min(100, total/(nworkers*8)+1))
	var wg sync.WaitGroup
	for k := 0; k < nworkers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				if next >= limit || res.harness != "" {
					mu.Unlock()
					return
				}
				from := next
				to := min(from+batch, limit)
				next = to
				mu.Unlock()
				for from < to {
					if w == nil {
						var err error
						if w, err = startWorker(p.ID); err != nil {
							mu.Lock()
							res.harness = "cannot start worker: " + err.Error()
							mu.Unlock()
							return
						}
					}
					r, cr := w.call(req{Op: "batch", Seed: seed, From: from, To: to})
					var o *outcome
					if cr != nil {
						i := w.current()
						os.RemoveAll(w.dir)
						w = nil
						if cr.harness || i < from || i >= to {
							mu.Lock()
							res.harness = fmt.Sprintf("worker failed at case %d: %s: %s", i, cr.kind, cr.msg)
							mu.Unlock()
							return
						}
						o = &outcome{Index: i, Kind: cr.kind, Msg: cr.msg}
						mu.Lock()
						res.cases += i - from + 1
						mu.Unlock()
					} else {
						mu.Lock()
						res.cases += r.Cases
						for _, k := range r.Keys {
							res.keys[k] = true
						}
						for l, n := range r.Labels {
							res.labels[l] += n
						}
						res.samples = append(res.samples, r.Samples...)
						mu.Unlock()
						o = r.Fail
					}
					if o != nil {
						mu.Lock()
						if res.fail == nil || o.Index < res.fail.Index {
							res.fail = o
						}
						limit = min(limit, o.Index) // only lower indices matter now
						mu.Unlock()
					}
					break
				}
			}
		}()
	}
	wg.Wait()
	return res
}

type execer struct {
	prop string
	w    *worker
}

// exec runs one case given by its choices in a worker; retried once on harness trouble.
func (e *execer) exec(ch []uint64) (*outcome, []uint64, string) {
	for try := 0; try < 2; try++ {
		if e.w == nil {
			w, err := startWorker(e.prop)
			if err != nil {
				return nil, nil, err.Error()
			}
			e.w = w
		}
		r, cr := e.w.call(req{Op: "exec", Choices: ch})
		if cr != nil {
			os.RemoveAll(e.w.dir)
			e.w = nil
			if cr.harness {
				continue
			}
			return &outcome{Kind: cr.kind, Msg: cr.msg, Choices: ch}, ch, ""
		}
		return r.Fail, r.Choices, ""
	}
	return nil, nil, "worker failed repeatedly"
}

func (e *execer) close() {
	if e.w != nil {
		e.w.stop()
		e.w = nil
	}
}

func trimZeros(ch []uint64) []uint64 {
	for len(ch) > 0 && ch[len(ch)-1] == 0 {
		ch = ch[:len(ch)-1]
	}
	return ch
}

// shrink minimises failing choices, keeping the kind of failure.
func shrink(e *execer, best *outcome, attempts int, budget time.Duration) *outcome {
	kind := best.Kind
	cur := trimZeros(append([]uint64{}, best.Choices...))
	start := time.Now()
	tries := 0
	if kind == "blocked" {
		attempts = 0
	}
	if kind == "hang" || kind == "memory" {
		attempts = min(attempts, 12)
	}
	try := func(ch []uint64) bool {
		if tries >= attempts || time.Since(start) > budget {
			return false
		}
		tries++
		o, rec, herr := e.exec(ch)
		if herr != "" || o == nil || o.Kind != kind {
			return false
		}
		if rec != nil && len(rec) <= len(ch) {
			ch = rec
		}
		cur = trimZeros(append([]uint64{}, ch...))
		best = o
		best.Choices = cur
		return true
	}
	for improved := true; improved && tries < attempts && time.Since(start) < budget; {
		improved = false
		for size := max(1, len(cur)/4); size >= 1; size /= 2 {
			for i := 0; i < len(cur); i += size {
				c := append([]uint64{}, cur...)
				changed := false
				for j := i; j < min(i+size, len(c)); j++ {
					if c[j] != 0 {
						c[j], changed = 0, true
					}
				}
				if changed && try(c) {
					improved = true
				}
				if tries >= attempts || time.Since(start) > budget {
					break
				}
			}
		}
		for size := max(1, len(cur)/2); size >= 1; size /= 2 {
			for i := len(cur) - size; i >= 0; {
				if i+size > len(cur) {
					i = len(cur) - size
					if i < 0 {
						break
					}
				}
				c := append(append([]uint64{}, cur[:i]...), cur[i+size:]...)
				if try(c) {
					improved = true
				}
				i -= size
				if tries >= attempts || time.Since(start) > budget {
					break
				}
			}
		}
		for i := 0; i < len(cur); i++ {
			for cur[i] > 0 && tries < attempts && time.Since(start) < budget {
				c := append([]uint64{}, cur...)
				c[i] /= 2
				if try(c) {
					improved = true
					if i >= len(cur) {
						break
					}
					continue
				}
				c = append([]uint64{}, cur...)
				c[i]--
				if !try(c) {
					break
				}
				improved = true
				if i >= len(cur) {
					break
				}
			}
		}
	}
	return best
}
