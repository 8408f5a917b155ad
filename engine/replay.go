package main

// Native replay of counterexamples against the real code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Replayer holds the test binaries built for one check run.
type Replayer struct {
	e    *Engine
	dir  string
	bins map[string]string
	errs map[string]string
}

func newReplayer(e *Engine) (*Replayer, error) {
	d, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		return nil, err
	}
	return &Replayer{e: e, dir: d, bins: map[string]string{}, errs: map[string]string{}}, nil
}

func (r *Replayer) close() {
	if strings.HasPrefix(r.dir, os.TempDir()) && os.Getenv("GOSYM_KEEP") == "" {
		os.RemoveAll(r.dir)
	}
}

func modDir(repo, mod string) (string, error) {
	c := exec.Command("go", "list", "-mod=readonly", "-m", "-f", "{{.Dir}}", mod)
	c.Dir = repo
	b, err := c.Output()
	if err != nil {
		return "", fmt.Errorf("%s: %v", mod, err)
	}
	return strings.TrimSpace(string(b)), nil
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if i.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if !i.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0644)
	})
}

// hookFunc renames function fn (optionally a method of recv) in a source file
// and adds a wrapper that consults the table first. result builds the return
// statement from v *big.Int.
func hookFunc(src []byte, recv, fn, ufName, lookup string, skipRecv bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != fn || (recv == "") != (fd.Recv == nil) {
			continue
		}
		show := func(n interface{}) string {
			var b bytes.Buffer
			format.Node(&b, fset, n)
			return b.String()
		}
		if recv != "" && !strings.HasSuffix(show(fd.Recv.List[0].Type), recv) {
			continue
		}
		var params, args []string
		k := 0
		for _, p := range fd.Type.Params.List {
			n := len(p.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				nm := fmt.Sprintf("verifA%d", k)
				k++
				params = append(params, nm+" "+show(p.Type))
				if _, el := p.Type.(*ast.Ellipsis); el {
					nm += "..."
				}
				args = append(args, nm)
			}
		}
		rt := ""
		if fd.Type.Results != nil && len(fd.Type.Results.List) == 1 {
			rt = show(fd.Type.Results.List[0].Type)
		}
		res := ""
		switch rt {
		case "bool":
			res = "return verifV.Sign() != 0"
		case "[32]byte", "[Size256]byte":
			res = "var verifR [32]byte; verifV.FillBytes(verifR[:]); return verifR"
		case "*Point":
			res = "verifB := make([]byte, 64); verifV.FillBytes(verifB); return &Point{new(big.Int).SetBytes(verifB[:32]), new(big.Int).SetBytes(verifB[32:])}"
		case "uint64", "uint32", "uint16", "uint8", "int", "int64", "uint":
			res = "return " + rt + "(verifV.Uint64())"
		default:
			return nil, false, fmt.Errorf("hook of %s with result %s", fn, rt)
		}
		rc, call := "", "verifReal"+fn
		if fd.Recv != nil {
			rc = "(verifS " + show(fd.Recv.List[0].Type) + ") "
			call = "verifS.verifReal" + fn
		}
		var keys []string
		for _, a := range args {
			keys = append(keys, strings.TrimSuffix(a, "..."))
		}
		if fd.Recv != nil && !skipRecv {
			keys = append([]string{"verifS"}, keys...)
		}
		w := fmt.Sprintf("\nfunc %s%s(%s) %s {\n\tif verifV, verifOK := %s(%q, %s); verifOK {\n\t\t%s\n\t}\n\treturn %s(%s)\n}\n", rc, fn, strings.Join(params, ", "), rt, lookup, ufName,
			strings.Join(keys, ", "), res, call, strings.Join(args, ", "))
		off := fset.Position(fd.Name.Pos()).Offset
		out := append([]byte(nil), src[:off]...)
		out = append(out, "verifReal"+fn...)
		out = append(out, src[off+len(fn):]...)
		out = append(out, w...)
		return out, true, nil
	}
	return src, false, nil
}

const hookVar = `package %s

import "math/big"

// VerifHook is the table lookup installed by the replay.
var VerifHook = func(name string, args ...interface{}) (*big.Int, bool) { return nil, false }

func init() { _ = big.NewInt }
`

// hookModule makes a copy of a dependency with hooks installed.
func (r *Replayer) hookModule(mod, sub string, hooks [][3]string) (string, error) {
	src, err := modDir(r.e.repo, mod)
	if err != nil {
		return "", err
	}
	dst := filepath.Join(r.dir, "mod-"+filepath.Base(mod))
	if _, err := os.Stat(dst); err == nil {
		return dst, nil
	}
	if err := copyTree(src, dst); err != nil {
		return "", err
	}
	pd := filepath.Join(dst, sub)
	fs, _ := filepath.Glob(filepath.Join(pd, "*.go"))
	pkg := filepath.Base(mod)
	if sub != "" {
		pkg = filepath.Base(sub)
	}
	for _, h := range hooks {
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return "", err
			}
			n, ok, err := hookFunc(b, h[0], h[1], h[2], "VerifHook", true)
			if err != nil {
				return "", err
			}
			if ok {
				if err := os.WriteFile(f, n, 0644); err != nil {
					return "", err
				}
			}
		}
	}
	for _, f := range fs { // the lifted y coordinates
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		n := bytes.Replace(b, []byte("\tp.X = x\n\tp.Y = y\n"), []byte("\tif v, ok := VerifHook(\"liftx\", x, sign&1); ok {\n\t\ty = v\n\t}\n\tp.X = x\n\tp.Y = y\n"), 1)
		n = bytes.Replace(n, []byte("\t\tpoints[i].Y = y\n"), []byte("\t\tif v, ok := VerifHook(\"liftx\", x, isNonResidue[i/8]>>(i%8)&1); ok {\n\t\t\ty = v\n\t\t}\n\t\tpoints[i].Y = y\n"), 1)
		n = bytes.Replace(n, []byte("func ModSqrtFast(x *big.Int) *big.Int {\n"), []byte("func ModSqrtFast(x *big.Int) *big.Int {\n\tif x.BitLen() <= 1024 {\n\t\tvar b [128]byte\n\t\tx.FillBytes(b[:])\n\t\tif v, ok := VerifHook(\"modsqrt\", b); ok {\n\t\t\treturn v\n\t\t}\n\t}\n"), 1)
		if !bytes.Equal(n, b) {
			if err := os.WriteFile(f, n, 0644); err != nil {
				return "", err
			}
		}
	}
	err = os.WriteFile(filepath.Join(pd, "zz_verif_hook.go"), []byte(fmt.Sprintf(hookVar, pkg)), 0644)
	return dst, err
}

const fakeSha = `package sha256

import (
	"crypto/sha256"
	"hash"

	"github.com/dblokhin/gringo/verifnd"
)

const (
	Size      = 32
	BlockSize = 64
)

func Sum256(b []byte) [32]byte {
	if v, ok := verifnd.Lookup("sha256", b); ok {
		var r [32]byte
		v.FillBytes(r[:])
		return r
	}
	return sha256.Sum256(b)
}

type sha struct{ b []byte }

func (s *sha) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }
func (s *sha) Sum(in []byte) []byte        { d := Sum256(s.b); return append(in, d[:]...) }
func (s *sha) Reset()                      { s.b = nil }
func (s *sha) Size() int                   { return 32 }
func (s *sha) BlockSize() int              { return 64 }

func New() hash.Hash { return &sha{} }
`

const fakeCryptoRand = `package rand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/dblokhin/gringo/verifnd"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) {
	if verifnd.RandRead(b) {
		return len(b), nil
	}
	return rand.Read(b)
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
`

const fakeMathRand = `package rand

import (
	"math/rand"

	"github.com/dblokhin/gringo/verifnd"
)

func Uint64() uint64 {
	if v, ok := verifnd.RandU64(); ok {
		return v
	}
	draws++
	return draws * 0x9e3779b97f4a7c15 // as in the model
}

var draws uint64

func Uint32() uint32     { return uint32(Uint64()) }
func Int63() int64       { return int64(Uint64() >> 1) }
func Int() int           { return int(Int63()) }
func Intn(n int) int     { return int(Uint64() % uint64(n)) }
func Seed(n int64)       { rand.Seed(n) }
func Perm(n int) []int   { return rand.Perm(n) }
func Float64() float64   { return rand.Float64() }
func Shuffle(n int, f func(i, j int)) { rand.Shuffle(n, f) }
func New(s rand.Source) *rand.Rand { return rand.New(s) }
func NewSource(n int64) rand.Source { return rand.NewSource(n) }
`

const glue = `package %s

import (
	"testing"

	"github.com/dblokhin/gringo/verifnd"
	"github.com/yoss22/bulletproofs"
	"golang.org/x/crypto/blake2b"
	"os"
	"math/big"
)

func TestVerifReplay(t *testing.T) {
	verifnd.IsQR = func(y *big.Int) bool {
		if v, ok := verifnd.Lookup("isqr", y); ok {
			return v.Sign() != 0
		}
		return bulletproofs.IsQuadraticResidue(y)
	}
	bulletproofs.VerifHook = verifnd.Lookup
	blake2b.VerifHook = verifnd.Lookup
	switch os.Getenv("VERIF_HARNESS") {
%s	default:
		t.Fatal("unknown harness")
	}
}
`

// binary builds the replay binary of a package.
func (r *Replayer) binary(pkgDir string, race bool) (string, error) {
	key := pkgDir
	if race {
		key += " race"
	}
	if b, ok := r.bins[key]; ok {
		return b, nil
	}
	if s, ok := r.errs[key]; ok {
		return "", fmt.Errorf("%s", s)
	}
	b, err := r.build(pkgDir, race)
	if err != nil {
		r.errs[key] = err.Error()
		return "", err
	}
	r.bins[key] = b
	return b, nil
}

func (r *Replayer) build(pkgDir string, race bool) (string, error) {
	e := r.e
	bp, err := r.hookModule("github.com/yoss22/bulletproofs", "", [][3]string{
		{"Prover", "Verify", "rangeproof"}, {"", "ScalarMulPoint", "scalarmul"}, {"", "SumPoints", "sumpoints"},
		{"", "IsQuadraticResidue", "isqr"}})
	if err != nil {
		return "", err
	}
	xc, err := r.hookModule("golang.org/x/crypto", "blake2b", [][3]string{{"", "Sum256", "blake2b256"}})
	if err != nil {
		return "", err
	}
	gm, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return "", err
	}
	gm = append(gm, fmt.Sprintf("\nreplace github.com/yoss22/bulletproofs => %s\nreplace golang.org/x/crypto => %s\n", bp, xc)...)
	modfile := filepath.Join(r.dir, "go.mod")
	if err := os.WriteFile(modfile, gm, 0644); err != nil {
		return "", err
	}
	if b, err := os.ReadFile(filepath.Join(e.repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(r.dir, "go.sum"), b, 0644)
	}
	for _, m := range []string{bp, xc} {
		if _, err := os.Stat(filepath.Join(m, "go.mod")); err != nil {
			n := "github.com/yoss22/bulletproofs"
			if m == xc {
				n = "golang.org/x/crypto"
			}
			os.WriteFile(filepath.Join(m, "go.mod"), []byte("module "+n+"\n"), 0644)
		}
	}
	rep := map[string]string{}
	put := func(path string, content []byte) error {
		f := filepath.Join(r.dir, fmt.Sprintf("ov%d_%s", len(rep), filepath.Base(path)))
		rep[path] = f
		return os.WriteFile(f, content, 0644)
	}
	// hide the repository's own tests of this package
	tests, _ := filepath.Glob(filepath.Join(e.repo, pkgDir, "*_test.go"))
	for _, t := range tests {
		rep[t] = ""
	}
	var cases []string
	pkgName := ""
	for over, src := range e.files {
		if strings.Contains(over, "/verifshim/") {
			continue
		}
		dir := filepath.Dir(over)
		if strings.Contains(over, "/verifnd/") || dir == filepath.Join(e.repo, pkgDir) {
			b, err := os.ReadFile(src)
			if err != nil {
				return "", err
			}
			if !strings.Contains(over, "/verifnd/") {
				b, _ = instrument(b, over)
				b = bytes.Replace(b, []byte(`"crypto/sha256"`), []byte(`"`+modPath+`/verifnd/sha256"`), 1)
				b, _ = scriptClock(b)
			}
			if err := put(over, b); err != nil {
				return "", err
			}
		}
	}
	seen := map[string]bool{}
	ufs := map[string]bool{}
	for _, h := range e.harnesses {
		if h.PkgDir != pkgDir {
			continue
		}
		pkgName = h.fn.Pkg.Pkg.Name()
		if !seen[h.Name] {
			seen[h.Name] = true
			cases = append(cases, fmt.Sprintf("\tcase %q:\n\t\tverifnd.Run(%s)\n", h.Name, h.Name))
		}
		for _, u := range h.UFList {
			ufs[u] = true
		}
	}
	sort.Strings(cases)
	fixMaps := false
	// source rewriting of the repository's packages: sha256 and hooked functions
	err = filepath.Walk(e.repo, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() && strings.HasPrefix(i.Name(), ".") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || i.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ch := false
		if filepath.Dir(p) == filepath.Join(e.repo, pkgDir) {
			b, ch = instrument(b, p)
			fixMaps = fixMaps || dialRE.Match(b)
		}
		if n, ok := dialShim(b); ok {
			b, ch = n, true
		}
		if bytes.Contains(b, []byte(`"crypto/sha256"`)) {
			b = bytes.Replace(b, []byte(`"crypto/sha256"`), []byte(`"`+modPath+`/verifnd/sha256"`), 1)
			ch = true
		}
		for _, k := range []string{"crypto/rand", "math/rand"} {
			if q := []byte(`"` + k + `"`); bytes.Contains(b, q) {
				b = bytes.Replace(b, q, []byte(`"`+modPath+`/verifnd/`+k+`"`), 1)
				ch = true
			}
		}
		if n, ok := scriptClock(b); ok {
			b, ch = n, true
		}
		rel, _ := filepath.Rel(e.repo, filepath.Dir(p))
		for u := range ufs {
			k := strings.LastIndex(u, ".")
			if u[:k] != modPath+"/"+rel {
				continue
			}
			n, ok, err := hookFunc(b, "", u[k+1:], u, "verifnd.Lookup", false)
			if err != nil {
				return err
			}
			if ok {
				b = n
				ch = true
				if !bytes.Contains(b, []byte(ndPkg+`"`)) {
					b = addImport(b, ndPkg)
				}
			}
		}
		if ch {
			return put(p, b)
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	if fixMaps { // small maps are iterated in the order of insertion, as in the model
		p := filepath.Join(goroot(), "src/internal/runtime/maps/table.go")
		if b, err := os.ReadFile(p); err == nil {
			if err := put(p, bytes.ReplaceAll(b, []byte("= rand()\n"), []byte("= 0 * rand()\n"))); err != nil {
				return "", err
			}
		}
	}
	if err := put(filepath.Join(e.repo, "verifnd/sha256/sha256.go"), []byte(fakeSha)); err != nil {
		return "", err
	}
	if err := put(filepath.Join(e.repo, "verifnd/crypto/rand/rand.go"), []byte(fakeCryptoRand)); err != nil {
		return "", err
	}
	if err := put(filepath.Join(e.repo, "verifnd/math/rand/rand.go"), []byte(fakeMathRand)); err != nil {
		return "", err
	}
	if err := put(filepath.Join(e.repo, pkgDir, "zz_verif_replay_test.go"), []byte(fmt.Sprintf(glue, pkgName, strings.Join(cases, "")))); err != nil {
		return "", err
	}
	ov := filepath.Join(r.dir, "overlay.json")
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	if err := os.WriteFile(ov, j, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, "bin-"+strings.ReplaceAll(pkgDir, "/", "_"))
	args := []string{"test", "-c", "-mod=mod", "-modfile", modfile, "-overlay", ov, "-vet=off"}
	if race {
		bin += "-race"
		args = append(args, "-race")
	}
	c := exec.Command("go", append(args, "-o", bin, "./"+pkgDir)...)
	c.Dir = e.repo
	c.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off")
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v: %s", err, out)
	}
	return bin, nil
}

// scriptClock makes a file read the counterexample's clock.
func scriptClock(b []byte) ([]byte, bool) {
	if !bytes.Contains(b, []byte("time.Now()")) {
		return b, false
	}
	b = bytes.ReplaceAll(b, []byte("time.Now()"), []byte("verifnd.Now()"))
	b = append(append([]byte(nil), b...), "\nvar _ = time.Now\n"...)
	return inlineImport(b, ndPkg), true
}

func addImport(b []byte, path string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", b, parser.ImportsOnly)
	if err != nil {
		return b
	}
	off := fset.Position(f.Name.End()).Offset
	return append(append(append([]byte(nil), b[:off]...), ("\n\nimport \""+path+"\"\n")...), b[off:]...)
}

type replayOut struct {
	text     string
	failed   []string
	covers   map[string]bool
	panicked string
	done     bool
	hang     bool
	alloc    bool
	assume   bool
	oom      bool
}

func (r *Replayer) run(pkgDir, harness, file string, race, gate bool, until string) (*replayOut, error) {
	bin, err := r.binary(pkgDir, race)
	if err != nil {
		return nil, err
	}
	lim := fmt.Sprint(8 << 20)
	if race {
		lim = "unlimited"
	}
	c := exec.Command("bash", "-c", fmt.Sprintf("ulimit -v %s; exec %q -test.run '^TestVerifReplay$' -test.timeout 60s -test.v", lim, bin))
	wd := filepath.Join(r.dir, "wd")
	os.MkdirAll(wd, 0755)
	c.Dir = wd
	c.Env = append(os.Environ(), "VERIF_REPLAY="+file, "VERIF_HARNESS="+harness, "VERIF_TIER="+r.e.tier)
	if until != "" {
		c.Env = append(c.Env, "VERIF_UNTIL="+until)
	}
	if !gate {
		c.Env = append(c.Env, "VERIF_GATE=0")
	}
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	if err := c.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(90*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	o := &replayOut{text: buf.String(), covers: map[string]bool{}}
	for _, l := range strings.Split(o.text, "\n") {
		switch {
		case strings.HasPrefix(l, "VERIF-REPLAY: assert-failed: "):
			o.failed = append(o.failed, l[len("VERIF-REPLAY: assert-failed: "):])
		case strings.HasPrefix(l, "VERIF-REPLAY: cover: "):
			o.covers[l[len("VERIF-REPLAY: cover: "):]] = true
		case strings.HasPrefix(l, "VERIF-REPLAY: panic: "):
			o.panicked = l[len("VERIF-REPLAY: panic: "):]
		case strings.HasPrefix(l, "panic: ") && !strings.Contains(l, "test timed out"):
			o.panicked = l
		case strings.HasPrefix(l, "fatal error: all goroutines are asleep"):
			o.hang = true
		case strings.HasPrefix(l, "fatal error: "):
			o.panicked = l
			if strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
				o.oom = true
			}
		case strings.HasPrefix(l, "VERIF-REPLAY: done"):
			o.done = true
		case strings.HasPrefix(l, "VERIF-REPLAY: hang"), strings.HasPrefix(l, "panic: test timed out"):
			o.hang = true
		case strings.HasPrefix(l, "VERIF-REPLAY: alloc: "):
			o.alloc = true
		case strings.HasPrefix(l, "VERIF-REPLAY: assume-failed"):
			o.assume = true
		}
	}
	return o, nil
}

// confirm replays a violation; the string says what was observed.
func (r *Replayer) confirm(v *Violation, file string) (bool, string) {
	tries := 1
	if len(v.Sched) > 0 || v.Kind == "deadlock" || v.Kind == "race" {
		tries = 16
	}
	t0 := time.Now()
	last := ""
	for i := 0; i < tries; i++ {
		if i > 1 && time.Since(t0) > 90*time.Second {
			break
		}
		o, err := r.run(v.Pkg, v.Harness, file, v.Kind == "race", i%4 != 3, "")
		if err != nil {
			return false, err.Error()
		}
		if o.assume {
			last = "an assumption of the harness does not hold natively"
			continue
		}
		switch v.Kind {
		case "assert":
			if strings.HasPrefix(v.Msg, "single allocation stays within") {
				if o.alloc || o.oom || o.panicked != "" {
					return true, "allocation: " + firstLine(o)
				}
			}
			for _, f := range o.failed {
				if f == v.Msg {
					return true, "assertion failed natively: " + f
				}
			}
			if len(o.failed) > 0 {
				return true, "assertion failed natively: " + o.failed[0]
			}
			if o.panicked != "" {
				return true, "panic natively: " + o.panicked
			}
		case "panic":
			if o.panicked != "" {
				return true, "panic natively: " + o.panicked
			}
		case "exit":
			if !o.done && !o.hang {
				return true, "process exited natively"
			}
		case "race":
			if raceSeen(o.text, v.Msg) {
				return true, "reported by the race detector"
			}
		case "deadlock":
			if o.hang {
				return true, "deadlock natively"
			}
		}
		last = "not reproduced natively"
		if len(o.text) > 0 {
			last += ": " + tail(o.text, 300)
		}
	}
	return false, last
}

func firstLine(o *replayOut) string {
	if o.panicked != "" {
		return o.panicked
	}
	return "limit exceeded"
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}

// cmdReplay reruns a stored counterexample: gosym replay FILE
func cmdReplay(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: gosym replay FILE [repo [verif]]")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	e := &Engine{repo: "/repo", verif: "/verif", tier: "quick"}
	if len(args) > 1 {
		e.repo = args[1]
	}
	if len(args) > 2 {
		e.verif = args[2]
	}
	if t := os.Getenv("VERIF_TIER"); t != "" {
		e.tier = t
	}
	if err := e.load(v.Property); err != nil {
		fmt.Println(err)
		return 2
	}
	r, err := newReplayer(e)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer r.close()
	f, _ := filepath.Abs(args[0])
	ok, s := r.confirm(&v, f)
	fmt.Println(ok, s)
	if ok {
		return 1
	}
	return 0
}

var racePos = regexp.MustCompile(`[\w./-]+\.go:\d+`)

// raceSeen looks for a report of the race detector that names both places.
func raceSeen(text, msg string) bool {
	want := racePos.FindAllString(msg, -1)
	for _, b := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		b, _, _ = strings.Cut(b, "==================")
		all := true
		for _, w := range want {
			all = all && strings.Contains(b, "/"+w)
		}
		if all {
			return true
		}
	}
	return false
}

func goroot() string {
	o, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(o))
}
