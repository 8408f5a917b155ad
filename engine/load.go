package main

// Loading /repo with the harness overlay and building SSA.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dblokhin/gringo"

type Engine struct {
	repo, verif string
	tier        string
	prog        *ssa.Program
	fset        *token.FileSet
	rtErr       types.Type
	shim        *ssa.Package
	redirects   map[string]*ssa.Function
	sizes       types.Sizes
	knownIDs    map[string]bool
	harnesses   []*Harness
	dropped     []string
	files       map[string]string // overlay path -> source path
	verbose     bool
}

type Harness struct {
	Name     string
	Property string
	PkgPath  string
	PkgDir   string
	Bound    string
	UF       map[string]bool
	UFList   []string
	Shards   int
	Shard    int
	fn       *ssa.Function
	opt      map[string]string
	covers   []string
	file     string
}

func (h *Harness) id() string {
	if h.Shards > 1 {
		return fmt.Sprintf("%s[%d/%d]", h.Name, h.Shard, h.Shards)
	}
	return h.Name
}

var redirectNames = map[string]string{
	"encoding/binary.Read":                               "BinaryRead",
	"encoding/binary.Write":                              "BinaryWrite",
	"encoding/binary.Size":                               "BinarySize",
	"fmt.Errorf":                                         "Errorf",
	"crypto/sha256.New":                                  "NewSha256",
	"(*sync.Pool).Get":                                   "PoolGet",
	"(*sync.Pool).Put":                                   "PoolPut",
	"(*github.com/yoss22/bulletproofs.Point).Read":       "PointRead",
	"github.com/yoss22/bulletproofs.DeserializePoints":   "DeserializePoints",
	"github.com/btcsuite/btcd/btcec.S256":                "S256",
	"(*github.com/yoss22/bulletproofs.Point).Bytes":      "PointBytes",
	"github.com/yoss22/bulletproofs.SerializePoints":     "SerializePoints",
	"(*github.com/yoss22/bulletproofs.BulletProof).Read": "BulletProofRead",
}

// skipInit lists packages whose initialisation is not interpreted; their
// globals are unusable (poison).
func (e *Engine) skipInit(path string) bool {
	switch path {
	case "golang.org/x/crypto/blake2b", "github.com/btcsuite/btcd/btcec", "reflect", "runtime", "os", "syscall", "fmt",
		"crypto/sha256", "crypto/elliptic", "crypto/rand", "net/http", "database/sql", "testing", "unicode", "log", "internal/cpu",
		"internal/poll", "internal/godebug", "internal/testlog", "time/tzdata", "crypto/ecdsa", "crypto":
		return true
	}
	return strings.HasPrefix(path, "github.com/sirupsen/") || strings.HasPrefix(path, "github.com/go-sql-driver") ||
		strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto/internal/") || strings.HasPrefix(path, "internal/runtime/")
}

func (e *Engine) redirect(name string) *ssa.Function { return e.redirects[name] }

func (e *Engine) lookup(t types.Type, m *types.Func) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// harnessFiles finds the harness sources for a property: files with a
// directive naming it plus common*.go of the same directory.
func (e *Engine) harnessFiles(prop string, skip map[string]bool) (map[string]string, []string, error) {
	root := filepath.Join(e.verif, "harness")
	files := map[string]string{}
	var pkgs []string
	ds, err := filepath.Glob(filepath.Join(root, "*"))
	if err != nil {
		return nil, nil, err
	}
	for _, d := range ds {
		rel, _ := filepath.Rel(root, d)
		if st, err := os.Stat(d); err != nil || !st.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		use := false
		var add []string
		for _, f := range fs {
			if skip[f] {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			if strings.HasPrefix(filepath.Base(f), "common") {
				add = append(add, f)
				continue
			}
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//verif:harness ") {
					for _, w := range strings.Fields(l) {
						if strings.HasPrefix(w, "property=") {
							for _, p := range strings.Split(w[9:], ",") {
								if p == prop || prop == "" {
									use = true
									add = append(add, f)
								}
							}
						}
					}
				}
			}
		}
		if !use {
			continue
		}
		pkgs = append(pkgs, rel)
		for _, f := range add {
			files[filepath.Join(e.repo, rel, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	sort.Strings(pkgs)
	return files, pkgs, nil
}

func (e *Engine) overlayPkgs() map[string]string {
	files := map[string]string{}
	for _, p := range []string{"verifnd", "verifshim"} {
		fs, _ := filepath.Glob(filepath.Join(e.verif, "overlay", p, "*.go"))
		for _, f := range fs {
			files[filepath.Join(e.repo, p, filepath.Base(f))] = f
		}
	}
	return files
}

func (e *Engine) load(prop string) error {
	skip := map[string]bool{}
	for round := 0; round < 12; round++ {
		files, pkgs, err := e.harnessFiles(prop, skip)
		if err != nil {
			return err
		}
		if len(pkgs) == 0 {
			return fmt.Errorf("no harness for property %s; dropped: %s", prop, strings.Join(e.dropped, "; "))
		}
		over := map[string][]byte{}
		src := map[string]string{}
		for _, m := range []map[string]string{files, e.overlayPkgs()} {
			for k, v := range m {
				b, err := os.ReadFile(v)
				if err != nil {
					return err
				}
				over[k] = b
				src[k] = v
			}
		}
		for _, p := range pkgs { // outgoing connections
			fs, _ := filepath.Glob(filepath.Join(e.repo, p, "*.go"))
			for _, f := range fs {
				if b, err := os.ReadFile(f); err == nil && over[f] == nil && !strings.HasSuffix(f, "_test.go") {
					if n, ok := dialShim(b); ok {
						over[f] = n
					}
				}
			}
		}
		e.files = src
		e.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax,
			Dir:        e.repo,
			Env:        append(os.Environ(), "CGO_ENABLED=0", "GOARCH=mips64le", "GOFLAGS=-mod=readonly"),
			BuildFlags: []string{"-tags=purego,math_big_pure_go"},
			Overlay:    over,
			Fset:       e.fset,
		}
		pats := []string{"./verifnd", "./verifshim"}
		for _, p := range pkgs {
			pats = append(pats, "./"+p)
		}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return err
		}
		bad := false
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				f := er.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if h, ok := files[f]; ok {
					if !skip[h] {
						skip[h] = true
						bad = true
						e.dropped = append(e.dropped, fmt.Sprintf("%s: %s", filepath.Base(h), er.Msg))
					}
				} else {
					other = append(other, er.Error())
				}
			}
		})
		if bad {
			continue
		}
		if len(other) > 0 {
			return fmt.Errorf("the repository does not type-check: %s", strings.Join(other[:min(len(other), 3)], "; "))
		}
		prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		e.prog = prog
		prog.Build()
		e.sizes = types.SizesFor("gc", "amd64")
		e.redirects = map[string]*ssa.Function{}
		for i, p := range ps {
			switch p.PkgPath {
			case shimPkg:
				e.shim = spkgs[i]
				for n, s := range redirectNames {
					if f := spkgs[i].Func(s); f != nil {
						e.redirects[n] = f
					}
				}
			case ndPkg:
				e.rtErr = spkgs[i].Type("RuntimeError").Type()
			}
		}
		for i, p := range ps {
			e.findHarnesses(prop, p, spkgs[i], files)
		}
		sort.SliceStable(e.harnesses, func(i, j int) bool { return e.harnesses[i].Name < e.harnesses[j].Name })
		return nil
	}
	return fmt.Errorf("harness files do not compile: %v", e.dropped)
}

func (e *Engine) findHarnesses(prop string, p *packages.Package, sp *ssa.Package, files map[string]string) {
	for _, f := range p.Syntax {
		name := e.fset.Position(f.Pos()).Filename
		if files[name] == "" {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			var bound []string
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//verif:bound ") {
					bound = append(bound, strings.TrimSpace(c.Text[len("//verif:bound "):]))
				}
			}
			for _, c := range fd.Doc.List {
				if !strings.HasPrefix(c.Text, "//verif:harness ") {
					continue
				}
				kv := map[string]string{}
				for _, w := range strings.Fields(c.Text)[1:] {
					k, v, _ := strings.Cut(w, "=")
					kv[k] = v
				}
				for _, pr := range strings.Split(kv["property"], ",") {
					if prop != "" && pr != prop {
						continue
					}
					o := map[string]string{}
					for k, v := range kv {
						if !strings.HasPrefix(k, "t.") {
							o[k] = v
						}
					}
					if e.tier == "thorough" {
						for k, v := range kv {
							if strings.HasPrefix(k, "t.") {
								o[k[2:]] = v
							}
						}
					}
					switch o["tier"] {
					case "", "both", e.tier:
					default:
						continue
					}
					h := &Harness{Name: fd.Name.Name, Property: pr, PkgPath: p.PkgPath, Bound: strings.Join(bound, " "), opt: o,
						fn: sp.Func(fd.Name.Name), file: name, Shards: 1, UF: map[string]bool{}}
					h.PkgDir = strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
					if u := o["uf"]; u != "" {
						for _, n := range strings.Split(u, ";") {
							full := p.PkgPath + "." + n
							if strings.Contains(n, "/") {
								full = n
							}
							h.UF[full] = true
							h.UFList = append(h.UFList, full)
						}
					}
					h.covers = findCovers(h.fn)
					n, _ := strconv.Atoi(o["shards"])
					if n <= 1 {
						e.harnesses = append(e.harnesses, h)
						continue
					}
					for i := 0; i < n; i++ {
						c := *h
						c.Shards, c.Shard = n, i
						e.harnesses = append(e.harnesses, &c)
					}
				}
			}
		}
	}
}

// findCovers lists the constant Cover names reachable in harness code.
func findCovers(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	set := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.String() == ndPkg+".Cover" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						set[s] = true
					}
					continue
				}
				if g.Pkg == fn.Pkg && strings.Contains(fn.Prog.Fset.Position(g.Pos()).Filename, "zz_verif_") {
					walk(g)
				}
			}
		}
	}
	walk(fn)
	var l []string
	for s := range set {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}
