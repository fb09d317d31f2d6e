package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(2)
}

type replayFile struct {
	Property string            `json:"property"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Desc     string            `json:"case"`
	Seed     uint64            `json:"seed"`
	Index    int               `json:"index"`
	Choices  []uint64          `json:"choices"`
	Files    map[string]string `json:"files_hex"`
	Dict     *dictionary       `json:"dictionary,omitempty"` // steers the generator, so it belongs to the case
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: pdfverif check|worker|replay|list|show ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	propID := fs.String("prop", "", "property")
	scratch := fs.String("scratch", "", "scratch directory")
	verif := fs.String("verif", "/verif", "directory for evidence and replays")
	cases := fs.Int("cases", 0, "number of cases (default: by tier)")
	index := fs.Int("index", 0, "case index (show)")
	cliPath := fs.String("cli", os.Getenv("PDFVERIF_CLI"), "path of the built command line tool")
	fs.Parse(os.Args[2:])
	if *cliPath != "" {
		os.Setenv("PDFVERIF_CLI", *cliPath)
	}
	switch os.Args[1] {
	case "harvest":
		printDict(fs.Arg(0))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Quick, props[id].Thorough)
		}
	case "worker":
		p := props[*propID]
		if p == nil {
			fatal("no property %q", *propID)
		}
		scratchRoot = *scratch
		workerMain(p)
	case "check":
		os.Exit(check(*propID, *verif, *cases))
	case "show":
		p := props[*propID]
		seed := seedFromEnv()
		c := p.Gen(NewSrc(seed, p.ID, *index))
		fmt.Printf("%s\nlabels %v nontrivial %v\n", c.Desc, c.Labels, c.NonTrivial)
		for n, b := range c.Files {
			fmt.Printf("---- %s (%d bytes)\n%s\n", n, len(b), b)
		}
	case "dump": // the files of the first cases, for instance as seeds of a fuzzer
		p := props[*propID]
		for i := 0; i < *cases; i++ {
			c := p.Gen(NewSrc(seedFromEnv(), p.ID, i))
			for n, b := range c.Files {
				os.WriteFile(filepath.Join(*scratch, fmt.Sprintf("%s-%d-%s", p.ID, i, n)), b, 0644)
			}
		}
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func seedFromEnv() uint64 {
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			seed = uint64(n)
		} else {
			seed = hashStr(v)
		}
	}
	return seed
}

func makeWorkRoot() func() {
	base := os.Getenv("PDFVERIF_TMP")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "pdfverif-work-")
	if err != nil {
		fatal("%v", err)
	}
	os.Chmod(dir, 0755)
	workRoot = dir
	return func() { os.RemoveAll(dir) }
}

func check(id, verif string, cases int) int {
	p := props[id]
	if p == nil {
		fatal("no property %q", id)
	}
	seed := seedFromEnv()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if cases == 0 {
		cases = p.Quick
		if tier == "thorough" {
			cases = p.Thorough
		}
	}
	cleanup := makeWorkRoot()
	code := 2
	func() {
		defer cleanup()
		code = checkIn(p, seed, tier, verif, cases)
	}()
	return code
}

func checkIn(p *Prop, seed uint64, tier, verif string, cases int) int {
	start := time.Now()
	nw := runtime.NumCPU()
	if nw < 2 {
		nw = 2
	}
	if nw > 8 {
		nw = 8
	}
	if n, err := strconv.Atoi(os.Getenv("PDFVERIF_WORKERS")); err == nil && n > 0 {
		nw = n
	}
	res := explore(p, seed, cases, nw)
	if res.harness != "" {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR:", res.harness)
		return 2
	}
	violations := 0
	var known []string
	ex := &execer{prop: p.ID}
	defer ex.close()
	var conf *outcome
	if f := res.fail; f != nil {
		if f.Choices == nil {
			w, err := startWorker(p.ID)
			if err != nil {
				fatal("%v", err)
			}
			r, cr := w.call(req{Op: "gen", Seed: seed, From: f.Index})
			if cr != nil {
				fmt.Fprintln(os.Stderr, "CHECK-ERROR: cannot generate case again:", cr.msg)
				return 2
			}
			f.Choices, f.Desc = r.Choices, r.Desc
			w.stop()
		}
		// confirm in a fresh process; a case that depends on map iteration
		// order can pass now and then
		for try := 0; try < 12 && conf == nil; try++ {
			o, _, herr := ex.exec(f.Choices)
			if herr != "" {
				fmt.Fprintln(os.Stderr, "CHECK-ERROR:", herr)
				return 2
			}
			conf = o
			if (f.Kind == "hang" || f.Kind == "memory" || f.Kind == "blocked") && try >= 1 {
				break
			}
		}
		if conf == nil && (f.Kind == "hang" || f.Kind == "memory" || f.Kind == "blocked") {
			// a limit reached once and not again says something about the load of
			// the machine, not about the code
			fmt.Fprintf(os.Stderr, "note: case %d ended with %s once and not again: %s\n", f.Index, f.Kind, f.Msg)
			res.fail = nil
		}
	}
	if f := res.fail; f != nil {
		if conf != nil {
			f.Kind, f.Msg = conf.Kind, conf.Msg
		} // otherwise: failed once by observation, not again in 12 runs; still a real observation
		best := f
		if conf != nil && os.Getenv("PDFVERIF_NOSHRINK") == "" {
			attempts, budget := 8000, 40*time.Second
			if tier == "thorough" {
				attempts, budget = 40000, 240*time.Second
			}
			best = shrink(ex, f, attempts, budget)
		}
		violations = 1
		rf := replayFile{Property: p.ID, Kind: best.Kind, Msg: best.Msg, Desc: best.Desc, Seed: seed, Index: f.Index, Choices: best.Choices, Files: map[string]string{}, Dict: theDict()}
		if w, err := startWorker(p.ID); err == nil {
			if r, cr := w.call(req{Op: "describe", Choices: best.Choices}); cr == nil {
				rf.Desc = r.Desc
				rf.Files = r.Files
				w.stop()
			}
		}
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d.json", p.ID, seed, f.Index))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("case %d (seed %d), shrunk to %d choices\nkind: %s\ncase: %s\n%s\n", f.Index, seed, len(best.Choices), best.Kind, rf.Desc, clip(best.Msg, 3000))
		for n, h := range rf.Files {
			d, _ := hex.DecodeString(h)
			if len(d) <= 1500 {
				fmt.Printf("---- %s\n%q\n", n, d)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	known, kerr := checkKnown(p.ID, verif, ex)
	if kerr != "" {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR:", kerr)
		return 2
	}
	for _, k := range known {
		fmt.Println(k)
	}
	sort.Strings(res.samples)
	if len(res.samples) > 12 {
		res.samples = res.samples[:12]
	}
	if len(res.samples) == 0 {
		res.samples = []string{"(the exploration stopped before a sampled case)"}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         res.cases,
			"distinct_nontrivial": len(res.keys),
			"rule":                p.Rule,
			"samples":             res.samples,
			"labels":              res.labels,
			"known_findings":      known,
		},
		"assumptions": append([]string{"the generators, encoders and oracles in /verif/harness follow the PDF specification", "the Go toolchain and standard library are trusted"}, p.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR:", err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1fs, labels %s\n", p.ID, res.cases, len(res.keys), time.Since(start).Seconds(), labelString(res.labels))
	if violations > 0 {
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func labelString(m map[string]int) string {
	var k []string
	for l := range m {
		k = append(k, l)
	}
	sort.Strings(k)
	var sb strings.Builder
	for _, l := range k {
		fmt.Fprintf(&sb, "%s=%d ", l, m[l])
	}
	return sb.String()
}

// knownRepros runs the input of each listed finding; true: it still fails.
// The inputs are outside the domain of the generators, so that listing a
// finding suppresses nothing else.
var knownRepros = map[string]func(t *T) bool{}

// checkKnown returns the lines of the listed findings of a property that still fail.
func checkKnown(id, verif string, ex *execer) ([]string, string) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil, ""
	}
	var lines []string
	for _, line := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(line, "KNOWN-FINDING: property="+id+" ") {
			lines = append(lines, line)
		}
	}
	if len(lines) == 0 {
		return nil, ""
	}
	w, err := startWorker(id)
	if err != nil {
		return nil, err.Error()
	}
	r, cr := w.call(req{Op: "known"})
	if cr != nil {
		return nil, "" // the case search reports such faults
	}
	w.stop()
	var out []string
	for _, line := range lines {
		i, j := strings.Index(line, "["), strings.Index(line, "]")
		if i < 0 || j < i || r.Labels[line[i+1:j]] > 0 {
			out = append(out, line)
		} else {
			fmt.Println("note: listed finding does not fail any more:", line)
		}
	}
	return out, ""
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	defer makeWorkRoot()()
	if rf.Dict != nil {
		d, _ := json.Marshal(rf.Dict)
		f := filepath.Join(workRoot, "dictionary")
		os.WriteFile(f, d, 0644)
		os.Setenv("PDFVERIF_DICT", f)
	}
	ex := &execer{prop: rf.Property}
	defer ex.close()
	o, _, herr := ex.exec(rf.Choices)
	if herr != "" {
		fatal("%s", herr)
	}
	if o == nil {
		fmt.Println("the case passes")
		return 0
	}
	fmt.Printf("%s: %s\n%s\nVIOLATION property=%s replay=%s\n", o.Kind, o.Desc, o.Msg, rf.Property, path)
	return 1
}
