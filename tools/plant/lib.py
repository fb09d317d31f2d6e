# Helpers of the demonstration: build the tool from the current directory, run it on a document.
import hashlib, os, re, subprocess, sys, tempfile, zlib
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on",
           GOFLAGS="-mod=mod -buildvcs=false", HOME=os.environ.get("HOME", "/root"))
if os.path.isdir("/opt/veriftools/go1.27.3/bin"):
    ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV.get("PATH", "/usr/bin:/bin")
TMP = sys.argv[1]
TOOL = os.path.join(TMP, "pdfparser")

def build():
    if not os.path.exists(TOOL):
        subprocess.run(["go", "build", "-o", TOOL, "."], check=True, env=ENV)

def ser(v):
    return v if isinstance(v, bytes) else v.encode("latin-1")

def obj(n, v, g=0):
    """v: text of the value, or (text of the dictionary without <<>>, stream data)"""
    if isinstance(v, tuple):
        d, s = ser(v[0]), ser(v[1])
        if b"/Length" not in d: d += b"/Length %d" % len(s)
        return b"%d %d obj\n<<" % (n, g) + d + b">>\nstream\n" + s + b"\nendstream\nendobj\n"
    return b"%d %d obj\n" % (n, g) + ser(v) + b"\nendobj\n"

def pdf(objs, trailer="", gens={}, head=b"%PDF-1.7\n"):
    out, offs = head, {}
    for n, v in objs.items():
        offs[n] = len(out)
        out += obj(n, v, gens.get(n, 0))
    x = len(out)
    size = max(objs) + 1
    out += b"xref\n0 %d\n" % size
    for n in range(size):
        out += b"%010d %05d n \n" % (offs[n], gens.get(n, 0)) if n in offs else b"0000000000 65535 f \n"
    return out + b"trailer\n<</Size %d /Root 1 0 R %s>>\nstartxref\n%d\n%%%%EOF\n" % (size, ser(trailer), x)

def run(data, password=None, args=(), timeout=60):
    """The files of the output directory, by name."""
    build()
    d = tempfile.mkdtemp(dir=TMP)
    f, o = os.path.join(d, "in.pdf"), os.path.join(d, "out")
    open(f, "wb").write(data)
    cmd = [TOOL] + list(args) + (["-p", password] if password is not None else []) + [f, o]
    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout))
        resource.setrlimit(resource.RLIMIT_DATA, (4 << 30, 4 << 30))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit, timeout=280, cwd=d)
    res = {n: open(os.path.join(o, n), "rb").read() for n in os.listdir(o)} if os.path.isdir(o) else {}
    res["rc"], res["err"] = r.returncode, r.stderr
    return res

def raw(res, n):
    m = re.search(rb"(?:^|\n)%d (\d+) obj\n(.*?)\nendobj" % n, res["raw.pdf"], re.S)
    return m.group(2) if m else None

def md5(b): return hashlib.md5(b).hexdigest()

def gorun(code):
    """Runs a Go program that imports the library."""
    d = tempfile.mkdtemp(dir=TMP)
    open(os.path.join(d, "main.go"), "w").write(code)
    open(os.path.join(d, "go.mod"), "w").write(
        "module demo\n\ngo 1.23\n\nrequire (\n\tgithub.com/KarmaPenny/pdfparser v0.0.0\n\tgolang.org/x/image v0.47.0\n)\n\n"
        "replace github.com/KarmaPenny/pdfparser => %s\n" % os.getcwd())
    open(os.path.join(d, "go.sum"), "w").write(open("go.sum").read())
    return subprocess.run(["go", "run", "."], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=280)

FAULTY = '''package main
import ("bytes"; "errors"; "fmt"; "os"; "time"; "github.com/KarmaPenny/pdfparser/pdf")
type src struct { *bytes.Reader; from int64; bad bool }
func (s *src) Read(p []byte) (int, error) {
	at, _ := s.Reader.Seek(0, 1)
	if s.bad && at >= s.from { return 0, errors.New("input/output error") }
	if s.bad && int64(len(p)) > s.from - at {
		n, _ := s.Reader.Read(p[:s.from - at])
		return n, errors.New("input/output error")
	}
	return s.Reader.Read(p)
}
func main() {
	go func() { time.Sleep(20 * time.Second); fmt.Println("endless"); os.Exit(3) }()
	data, _ := os.ReadFile(%s)
	s := &src{bytes.NewReader(data), %d, %s}
	p := pdf.NewParser(s, nil)
	fmt.Println(p.Load(""))
	%s
}'''

def expect(got, want, what):
    if got != want:
        print("%s: got %r, want %r" % (what, got, want))
        sys.exit(1)
