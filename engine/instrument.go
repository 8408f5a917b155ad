package main

// Source rewriting. dialShim redirects outgoing connections to the harness
// (model and replay); instrument makes synchronisation operations wait for
// their turn in a counterexample's schedule (replay). Lines keep their numbers.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"sort"
)

var (
	timerRE = regexp.MustCompile(`\btime\.(After|NewTimer|NewTicker|AfterFunc|Tick)\(|\btime\.(Timer|Ticker)\b`)
	timeRE  = regexp.MustCompile(`\btime\.`)
	isRE    = regexp.MustCompile(`\berrors\.Is\(`)
	syncRE  = regexp.MustCompile(`\bsync\.(Map|Cond|NewCond)\b`)
)

var dialRE = regexp.MustCompile(`\bnet\.(DialTCP|DialTimeout|Dial)\(`)

func inlineImport(b []byte, path string) []byte {
	if bytes.Contains(b, []byte(`"`+path+`"`)) {
		return b
	}
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", b, parser.ImportsOnly)
	if err != nil {
		return b
	}
	off := int(f.Name.End()) - 1
	return append(append(append([]byte(nil), b[:off]...), (`; import "`+path+`"`)...), b[off:]...)
}

// dialShim lets a file's outgoing TCP connections be answered by the harness,
// its timers go by the harness's time, and sync.Map and sync.Cond are simple ones.
func dialShim(b []byte) ([]byte, bool) {
	dials, timers, syncs, is := dialRE.Match(b), timerRE.Match(b), syncRE.Match(b), isRE.Match(b)
	if !dials && !timers && !syncs && !is {
		return b, false
	}
	if dials {
		b = dialRE.ReplaceAll(b, []byte("verifnd.$1("))
		b = append(append([]byte(nil), b...), "\nvar _ net.Conn\n"...)
	}
	if timers {
		b = timerRE.ReplaceAllFunc(b, func(m []byte) []byte { return timeRE.ReplaceAll(m, []byte("verifnd.")) })
		b = append(append([]byte(nil), b...), "\nvar _ time.Duration\n"...)
	}
	if syncs {
		b = syncRE.ReplaceAll(b, []byte("verifnd.$1"))
		b = append(append([]byte(nil), b...), "\nvar _ sync.Mutex\n"...)
	}
	if is {
		b = isRE.ReplaceAll(b, []byte("verifnd.Is("))
		b = append(append([]byte(nil), b...), "\nvar _ = errors.New\n"...)
	}
	return inlineImport(b, ndPkg), true
}

var syncMethods = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Wait": true, "Done": true, "Add": true,
	"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "WaitIdle": true, "Sleep": true, "Gosched": true}

// syncOp finds a synchronisation operation outside function literals.
func syncOp(n ast.Node) bool {
	found := false
	if n == nil {
		return false
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.SelectorExpr:
				if id, ok := f.X.(*ast.Ident); ok && id.Name == "atomic" || syncMethods[f.Sel.Name] {
					found = true
				}
			case *ast.Ident:
				found = found || f.Name == "close"
			}
		}
		return true
	})
	return found
}

func instrument(b []byte, path string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, 0)
	if err != nil {
		return b, false
	}
	type ins struct {
		off int
		s   string
	}
	var l []ins
	site := func(n ast.Node) string {
		return fmt.Sprintf("%q", fmt.Sprintf("%s:%d", filepath.Base(path), fset.Position(n.Pos()).Line))
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			t := s
			for {
				if lb, ok := t.(*ast.LabeledStmt); ok {
					t = lb.Stmt
					continue
				}
				break
			}
			hit := false
			var at ast.Node = t
			switch t := t.(type) {
			case *ast.BlockStmt, *ast.DeferStmt, *ast.RangeStmt, *ast.TypeSwitchStmt, *ast.CommClause, *ast.CaseClause:
			case *ast.SelectStmt, *ast.GoStmt:
				hit = true
			case *ast.IfStmt:
				hit = t.Init != nil && syncOp(t.Init) || syncOp(t.Cond)
			case *ast.SwitchStmt:
				hit = t.Init != nil && syncOp(t.Init) || t.Tag != nil && syncOp(t.Tag)
			case *ast.ForStmt:
				hit = t.Init != nil && syncOp(t.Init)
				if t.Cond != nil && syncOp(t.Cond) {
					l = append(l, ins{off(t.Cond.Pos()), "verifnd.YieldT(" + site(t.Cond) + ") && ("}, ins{off(t.Cond.End()), ")"})
				}
			case *ast.AssignStmt:
				hit = syncOp(t)
				for _, r := range t.Rhs { // multi-line calls: where the operation is
					at = r
				}
			default:
				hit = syncOp(t)
			}
			if hit {
				l = append(l, ins{off(s.Pos()), "verifnd.Yield(" + site(at) + "); "})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	sleep := bytes.Contains(b, []byte("time.Sleep("))
	if len(l) == 0 && !sleep {
		return b, false
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].off < l[j].off })
	var o []byte
	k := 0
	for _, i := range l {
		o = append(append(o, b[k:i.off]...), i.s...)
		k = i.off
	}
	o = append(o, b[k:]...)
	if sleep {
		o = bytes.ReplaceAll(o, []byte("time.Sleep("), []byte("verifnd.Sleep("))
		o = append(o, "\nvar _ = time.Sleep\n"...)
	}
	return inlineImport(o, ndPkg), true
}
