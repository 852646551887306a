package lens

// C03: restoring puts the source tree back. A tree of packages is generated,
// a history of injections, line insertions, commits and restores is run on it,
// and the tree is compared with the snapshot taken before the first injection.

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func init() {
	vfRule("a history is non-trivial if at some point before a restore the tree differed from the snapshot")
}

// c03Tree is vfTree with modes.
func c03Tree(dir string) map[string]string {
	out := vfTree(dir)
	for p, v := range out {
		if info, err := os.Lstat(filepath.Join(dir, p)); err == nil && info.Mode()&os.ModeSymlink == 0 {
			out[p] = fmt.Sprintf("%o ", info.Mode().Perm()) + v
		}
	}
	return out
}

type c03File struct {
	dir, name string // package directory, file name
	pkg       string
	funcs     []string // idents without package
	via       string   // other path leading to the same file, "" if none
}

func (f *c03File) path(root string) string { return filepath.Join(root, f.dir, f.name) }

var c03Funcs = []func(n int) (ident, src string){
	func(n int) (string, string) {
		return fmt.Sprintf("F%d", n), fmt.Sprintf("// F%d does things.\nfunc F%d(a int) int {\n\tb := a + 1\n\tif b > 2 { // cond\n\t\treturn g(b, 1)\n\t}\n\treturn b\n}\n", n, n)
	},
	func(n int) (string, string) {
		return fmt.Sprintf("T.M%d", n), fmt.Sprintf("func (t T) M%d(s string) (r string, err error) {\n\tdefer func() { r += \"x\" }()\n\tr = `raw\n\tline`\n\tg(1, 2)\n\treturn\n}\n", n)
	},
	func(n int) (string, string) {
		return fmt.Sprintf("*T.P%d", n), fmt.Sprintf("func (t *T) P%d() {\n\tfor i := 0; i < 3; i++ {\n\t\tt.x += g(i, i)\n\t}\n}\n", n)
	},
	func(n int) (string, string) {
		return fmt.Sprintf("G%d", n), fmt.Sprintf("func G%d[K comparable](k K) (K, error) {\n\tvar z K\n\tif k == z {\n\t\treturn z, nil\n\t}\n\treturn k, nil\n}\n", n)
	},
	func(n int) (string, string) {
		return fmt.Sprintf("E%d", n), fmt.Sprintf("func E%d() {}\n", n)
	},
	func(n int) (string, string) { // declared only
		return fmt.Sprintf("A%d", n), fmt.Sprintf("func A%d(x int) int\n", n)
	},
	func(n int) (string, string) {
		return fmt.Sprintf("X%d", n), fmt.Sprintf("//go:noinline\nfunc X%d(a ...string) error {\n\tswitch len(a) {\n\tcase 0:\n\t\tpanic(\"x\")\n\tcase 1:\n\t\treturn nil\n\tdefault:\n\t\t_ = g(len(a), 2)\n\t}\n\treturn nil\n}\n", n)
	},
}

func c03Source(rt *rapid.T, f *c03File, main bool) string {
	var b strings.Builder
	if rapid.IntRange(0, 5).Draw(rt, "tag") == 0 {
		b.WriteString("//go:build !never\n\n")
	}
	if rapid.IntRange(0, 3).Draw(rt, "doc") == 0 {
		b.WriteString("// Package doc.\n")
	}
	b.WriteString("package " + f.pkg + "\n\n")
	if main {
		b.WriteString("type T struct{ x int }\n\nfunc g(a, b int) int { return a * b }\n\n")
	}
	f.funcs = nil
	for i := range rapid.IntRange(1, 4).Draw(rt, "funcs") {
		id, src := c03Funcs[rapid.IntRange(0, len(c03Funcs)-1).Draw(rt, "fkind")](len(f.name)*1000 + i)
		f.funcs = append(f.funcs, id)
		b.WriteString(src)
		b.WriteString(strings.Repeat("\n", rapid.IntRange(0, 2).Draw(rt, "gap")))
	}
	s := b.String()
	switch rapid.IntRange(0, 7).Draw(rt, "shape") {
	case 0:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 1:
		s = strings.TrimRight(s, "\n")
	case 2:
		s = strings.ReplaceAll(s, "\t", "    ")
	case 3:
		s += "\n// trailing comment"
	}
	return s
}

type c03Proj struct {
	root  string
	files []*c03File
	dirs  []string
}

func c03Gen(rt *rapid.T) *c03Proj {
	base := vfDir("c03")
	p := &c03Proj{root: filepath.Join(base, "proj")}
	must := func(err error) {
		if err != nil {
			vfHarnessErr("%v", err)
		}
	}
	for d := range rapid.IntRange(1, 3).Draw(rt, "pkgs") {
		dir := []string{"a", "b", "a/sub"}[d]
		p.dirs = append(p.dirs, dir)
		for i := range rapid.IntRange(1, 3).Draw(rt, "files") {
			f := &c03File{dir: dir, pkg: "p" + filepath.Base(dir), name: []string{"x.go", "yy.go", "zzz_test.go"}[i]}
			vfWrite(f.path(p.root), c03Source(rt, f, i == 0))
			p.files = append(p.files, f)
			switch rapid.IntRange(0, 6).Draw(rt, "link") {
			case 0: // the file of the package is a link to a file elsewhere
				real := filepath.Join(base, "proj", "real", fmt.Sprintf("%d_%d.go", d, i))
				must(os.MkdirAll(filepath.Dir(real), 0o755))
				must(os.Rename(f.path(p.root), real))
				rel, _ := filepath.Rel(filepath.Dir(f.path(p.root)), real)
				must(os.Symlink(rapid.SampledFrom([]string{rel, real}).Draw(rt, "abs"), f.path(p.root)))
			case 1: // the directory is also reached through a link
				l := filepath.Join(p.root, "link"+filepath.Base(dir))
				if _, err := os.Lstat(l); err != nil {
					must(os.Symlink(filepath.Join(p.root, dir), l))
				}
				f.via = filepath.Join(l, f.name)
			case 2:
				f.via = p.root + "/./" + f.dir + "//" + f.name
			}
			if m := rapid.SampledFrom([]os.FileMode{0, 0, 0o600, 0o755, 0o640, 0o444, 0o664}).Draw(rt, "mode"); m != 0 {
				must(os.Chmod(f.path(p.root), m))
			}
			switch rapid.IntRange(0, 7).Draw(rt, "taken") {
			case 0:
				vfWrite(f.path(p.root)+".bkp", "a backup of the user\n")
			case 1:
				must(os.MkdirAll(f.path(p.root)+".bkp", 0o755))
			case 2:
				vfWrite(f.path(p.root)+".bkp", "1\n")
				vfWrite(f.path(p.root)+".bkp1", "2\n")
			case 3:
				must(os.Symlink("nowhere", f.path(p.root)+".bkp"))
			}
		}
		if rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
			vfWrite(filepath.Join(p.root, dir, "data.txt"), "data")
		}
	}
	if rapid.IntRange(0, 4).Draw(rt, "broken") == 0 {
		vfWrite(filepath.Join(p.root, "broken", "x.go"), "package broken\n\nfunc F( {\n")
		p.dirs = append(p.dirs, "broken")
		p.files = append(p.files, &c03File{dir: "broken", name: "x.go", pkg: "broken", funcs: []string{"F"}})
	}
	if rapid.IntRange(0, 4).Draw(rt, "mixed") == 0 {
		vfWrite(filepath.Join(p.root, "mixed", "x.go"), "package one\n\nfunc F() {\n\tprintln()\n}\n")
		vfWrite(filepath.Join(p.root, "mixed", "y.go"), "package two\n")
		p.dirs = append(p.dirs, "mixed")
		p.files = append(p.files, &c03File{dir: "mixed", name: "x.go", pkg: "one", funcs: []string{"F"}})
	}
	vfWrite(filepath.Join(p.root, "go.mod"), "module example.com/c03\n\ngo 1.24\n")
	p.dirs = append(p.dirs, "nodir")
	return p
}

type c03Op struct {
	kind string
	file *c03File
	fn   string
	path string
	dir  string
	mask uint32
}

func (o c03Op) String() string {
	switch {
	case o.kind == "client":
		return "client(" + o.dir + ")"
	case o.file == nil:
		return o.kind
	case o.kind == "commitfile":
		return "commitfile(" + o.file.dir + "/" + o.file.name + ")"
	}
	return fmt.Sprintf("%s(%s/%s %s)", o.kind, o.file.dir, o.file.name, o.fn)
}

// In a concurrent batch each file has one spelling and files are committed one
// by one, as the analysis does.
func c03GenOp(rt *rapid.T, p *c03Proj, batch bool) c03Op {
	kinds := []string{"entry", "finish", "panic", "return", "call", "lines", "lines", "client", "client", "commitfile", "commitfile", "commit"}
	if batch {
		kinds = kinds[:len(kinds)-1]
	}
	o := c03Op{kind: rapid.SampledFrom(kinds).Draw(rt, "op")}
	if o.kind == "client" {
		o.dir = rapid.SampledFrom(p.dirs).Draw(rt, "dir")
		return o
	}
	if o.kind == "commit" {
		return o
	}
	o.file = rapid.SampledFrom(p.files).Draw(rt, "file")
	o.path = o.file.path(p.root)
	if o.file.via != "" && !batch && rapid.Bool().Draw(rt, "via") {
		o.path = o.file.via
	}
	o.fn = rapid.SampledFrom(o.file.funcs).Draw(rt, "fn")
	if rapid.IntRange(0, 11).Draw(rt, "bad") == 0 {
		o.fn = "Missing"
	}
	if rapid.IntRange(0, 19).Draw(rt, "nofile") == 0 {
		o.path = filepath.Join(p.root, o.file.dir, "missing.go")
	}
	o.mask = rapid.Uint32().Draw(rt, "mask")
	return o
}

// run applies the operation; the error is not judged here, only the tree is.
func (o c03Op) run(m *ASTModifier, root string) {
	fn := &Function{FilePath: o.path}
	if o.file != nil {
		fn.PackageName = "example.com/c03/" + o.file.dir
		fn.FunctionIdent = fn.PackageName + ":" + o.fn
		fn.FunctionName = o.fn[strings.LastIndex(o.fn, ".")+1:]
	}
	switch o.kind {
	case "entry":
		_, _ = m.InjectFuncPointEntry(fn)
	case "finish":
		_, _ = m.InjectFuncPointFinish(fn)
	case "panic":
		_, _ = m.InjectFuncPointPanic(fn)
	case "return":
		_, _ = m.InjectFuncPointReturnStates(fn)
	case "call":
		_, _ = m.InjectFuncPointBeforeCall(fn, func(c *ast.CallExpr) (any, bool) {
			id, ok := c.Fun.(*ast.Ident)
			return 1, ok && id.Name == "g"
		})
	case "lines":
		_ = m.InsertFuncLines(fn, func(i int, _ string) (string, bool) {
			if o.mask>>(i%16)&1 == 1 {
				return "// mutator-disable-next-line *", o.mask>>(16+i%16)&3 != 0
			}
			return "", true
		})
	case "client":
		_ = m.InjectASTClient(filepath.Join(root, o.dir), 4567, 5, 100)
	case "commitfile":
		_ = m.CommitFile(o.path)
	case "commit":
		_ = m.Commit()
	}
}

func TestC03History(t *testing.T) {
	cache := vfDir("c03cache")
	goenv := []string{"GOCACHE=" + cache, "GOFLAGS="}
	vfRun(t, 260, 6000, func(rt *rapid.T) {
		p := c03Gen(rt)
		defer os.RemoveAll(filepath.Dir(p.root))
		m := &ASTModifier{}
		var hist []string
		changed := false
		classes := map[string]bool{}
		rounds := rapid.IntRange(1, 3).Draw(rt, "rounds")
		for round := range rounds {
			if round > 0 && rapid.IntRange(0, 2).Draw(rt, "edit") == 0 {
				// the project changes between rounds
				f := rapid.SampledFrom(p.files).Draw(rt, "edited")
				if f.pkg != "broken" && f.pkg != "one" {
					vfWrite(f.path(p.root), c03Source(rt, f, f.name == "x.go"))
					hist = append(hist, "edit("+f.dir+"/"+f.name+")")
					classes["edited between rounds"] = true
				}
			}
			snap := c03Tree(filepath.Dir(p.root))
			for range rapid.IntRange(1, 9).Draw(rt, "ops") {
				if rapid.IntRange(0, 4).Draw(rt, "conc") == 0 {
					var wg sync.WaitGroup
					var names []string
					for range rapid.IntRange(2, 6).Draw(rt, "batch") {
						o := c03GenOp(rt, p, true)
						if o.kind == "client" && slices.Contains(names, o.String()) {
							continue // one injection for each directory, as the analysis does
						}
						names = append(names, o.String())
						wg.Add(1)
						go func() { defer wg.Done(); o.run(m, p.root) }()
					}
					vfMustReturn(120*time.Second, "a batch of operations: "+strings.Join(names, ", "), wg.Wait)
					hist = append(hist, "{"+strings.Join(names, " ")+"}")
					classes["concurrent"] = true
				} else {
					o := c03GenOp(rt, p, false)
					hist = append(hist, o.String())
					o.run(m, p.root)
				}
			}
			if rapid.IntRange(0, 3).Draw(rt, "final") != 0 {
				hist = append(hist, "commit")
				_ = m.Commit()
			}
			during := c03Tree(filepath.Dir(p.root))
			if vfTreeDiff(snap, during) != "" {
				changed = true
			}
			// the program under analysis, or whoever else, may remove files meanwhile
			var made []string
			for _, f := range vfKeys(during) {
				if _, old := snap[f]; !old {
					made = append(made, f)
				}
			}
			if len(made) > 0 && rapid.IntRange(0, 3).Draw(rt, "interference") == 0 {
				victim := rapid.SampledFrom(made).Draw(rt, "victim")
				if err := os.Remove(filepath.Join(filepath.Dir(p.root), victim)); err != nil {
					vfHarnessErr("%v", err)
				}
				hist = append(hist, "remove("+victim+") restore")
				errs := m.Restore(goenv)
				after := c03Tree(filepath.Dir(p.root))
				lost := false
				for f := range snap { // the file the backup of which is gone
					if strings.HasPrefix(victim, f+".bkp") && after[f] == during[f] && after[f] != snap[f] {
						after[f], lost = snap[f], true
						break
					}
				}
				if d := vfTreeDiff(snap, after); d != "" {
					rt.Fatalf("one file was removed, and others are not as before after restoring\nhistory: %s\nerrors: %v\n%s", strings.Join(hist, " "), errs, d)
				}
				if lost && len(errs) == 0 {
					rt.Fatalf("restore does not report that it could not restore the file\nhistory: %s", strings.Join(hist, " "))
				}
				classes["file removed before restoring"] = true
				if lost {
					classes["backup lost"] = true
					break
				}
			}
			for range rapid.IntRange(1, 2).Draw(rt, "restores") {
				hist = append(hist, "restore")
				errs := m.Restore(goenv)
				if d := vfTreeDiff(snap, c03Tree(filepath.Dir(p.root))); d != "" {
					rt.Fatalf("the tree is not as before after restoring\nhistory: %s\nerrors: %v\n%s", strings.Join(hist, " "), errs, d)
				}
				if len(errs) > 0 {
					rt.Fatalf("restore reports errors although nothing failed: %v\nhistory: %s", errs, strings.Join(hist, " "))
				}
			}
			if rapid.IntRange(0, 2).Draw(rt, "late") == 0 { // nothing may come back
				hist = append(hist, "commit")
				_ = m.Commit()
				for _, f := range p.files {
					_ = m.CommitFile(f.path(p.root))
				}
				if d := vfTreeDiff(snap, c03Tree(filepath.Dir(p.root))); d != "" {
					rt.Fatalf("a commit after restoring with no edits in between changes the tree\nhistory: %s\n%s", strings.Join(hist, " "), d)
				}
			}
		}
		if rounds > 1 {
			classes["several rounds"] = true
		}
		vfCase("history", changed, strings.Join(hist, " "), vfKeys(classes)...)
	})
}

// TestC03Update runs the module update with no tests to execute: the sources
// are instrumented, the update is made and all is put back, whatever fails on
// the way.
func TestC03Update(t *testing.T) {
	base := vfDir("c03upd")
	if err := os.Setenv("GOCACHE", filepath.Join(base, "gocache")); err != nil {
		vfHarnessErr("%v", err)
	}
	proxy, gopath, modcache := mpEnv(base)
	dep := func(v string) map[string]string {
		return map[string]string{"go.mod": "module example.com/dep\n\ngo 1.24\n", "d.go": "package dep\n\n// D is it.\nfunc D(a int) int {\n\tif a > 3 {\n\t\treturn " + v + "\n\t}\n\treturn a\n}\n", "in/i.go": "package in\n\nfunc I() (r int) { r = " + v + "; return }\n"}
	}
	mpPublish(proxy, "example.com/dep", "v1.0.0", dep("1"))
	mpPublish(proxy, "example.com/dep", "v1.1.0", dep("2"))
	env := []string{"GOPATH=" + gopath, "GOMODCACHE=" + modcache}
	depDir := filepath.Join(modcache, "example.com/dep@v1.0.0")
	fresh := func(dir string, files map[string]string) {
		for _, n := range vfKeys(files) {
			vfWrite(filepath.Join(dir, n), files[n])
		}
	}
	seedDir := filepath.Join(base, "seed")
	fresh(seedDir, map[string]string{"go.mod": "module example.com/seed\n\ngo 1.24\n", "s.go": "package seed\n"})
	mpGo(seedDir, env, "mod", "download", "example.com/dep@v1.0.0", "example.com/dep@v1.1.0")
	mpGo(seedDir, env, "get", "example.com/dep@v1.0.0")
	goSum := vfRead(filepath.Join(seedDir, "go.sum"))
	i := 0
	vfRun(t, 150, 3000, func(rt *rapid.T) {
		i++
		root := filepath.Join(base, fmt.Sprintf("p%d", i), "proj")
		defer os.RemoveAll(filepath.Dir(root))
		work := rapid.IntRange(0, 2).Draw(rt, "workspace") == 0
		mods := []string{"."}
		if work {
			mods = rapid.SampledFrom([][]string{{"."}, {".", "m1"}, {"m1", "m2"}, {"m1"}}).Draw(rt, "modules")
			s := "go 1.24\n\nuse (\n"
			for _, m := range mods {
				s += "\t./" + strings.TrimPrefix(m, "./") + "\n"
			}
			vfWrite(filepath.Join(root, "go.work"), s+")\n")
			if rapid.Bool().Draw(rt, "worksum") {
				vfWrite(filepath.Join(root, "go.work.sum"), goSum)
			}
		}
		fault := rapid.SampledFrom([]string{"none", "none", "no such version", "no such module", "tidy", "pre", "post", "missing function", "unparsable"}).Draw(rt, "fault")
		var callers []*CallerFunction
		for k, m := range mods {
			dir := filepath.Join(root, m)
			imp := "import \"example.com/dep\"\n"
			if fault == "tidy" && k == len(mods)-1 {
				imp += "import _ \"example.com/none/x\"\n"
			}
			vfWrite(filepath.Join(dir, "f.go"), fmt.Sprintf("package p%d\n\n%s\n// F calls.\nfunc F(a int) int {\n\tr := dep.D(a)\n\treturn r\n}\n", k, imp))
			indirect := rapid.SampledFrom([]string{"", " // indirect"}).Draw(rt, "indirect")
			vfWrite(filepath.Join(dir, "go.mod"), fmt.Sprintf("module example.com/p%d // keep\n\ngo 1.24\n\nrequire example.com/dep v1.0.0%s\n", k, indirect))
			if rapid.IntRange(0, 2).Draw(rt, "sum") != 0 {
				vfWrite(filepath.Join(dir, "go.sum"), goSum)
			}
			for _, n := range []string{"go.mod", "go.sum", "f.go"} {
				switch rapid.IntRange(0, 5).Draw(rt, "bkp") {
				case 0:
					vfWrite(filepath.Join(dir, n+".bkp"), "of the user\n")
				case 1:
					if err := os.MkdirAll(filepath.Join(dir, n+".bkp"), 0o755); err != nil {
						vfHarnessErr("%v", err)
					}
				}
				if rapid.IntRange(0, 4).Draw(rt, "mode") == 0 {
					_ = os.Chmod(filepath.Join(dir, n), 0o600)
				}
			}
			pkg := fmt.Sprintf("example.com/p%d", k)
			name := "F"
			if fault == "missing function" {
				name = "Gone"
			}
			callers = append(callers, &CallerFunction{Function: Function{FilePath: filepath.Join(dir, "f.go"), PackageName: pkg, FunctionIdent: pkg + ":" + name, FunctionName: name}})
			if fault == "unparsable" && k == len(mods)-1 {
				vfWrite(filepath.Join(dir, "f.go"), "package p\nfunc F( {\n")
			}
		}
		mc := &ModuleChange{Name: "example.com/dep", PriorVersion: "v1.0.0", NewVersion: "v1.1.0", GoVersion: "1.24"}
		switch fault {
		case "no such version":
			mc.NewVersion = "v1.7.0"
		case "no such module":
			mc.Name = "example.com/none"
		}
		reach := ReachableModuleChange{}
		for _, d := range []struct{ file, pkg, name string }{{"d.go", "example.com/dep", "D"}, {"in/i.go", "example.com/dep/in", "I"}} {
			mf := &ModuleFunction{Function: Function{FilePath: filepath.Join(depDir, d.file), PackageName: d.pkg, FunctionIdent: d.pkg + ":" + d.name, FunctionName: d.name}, Module: mc}
			if rapid.Bool().Draw(rt, "reach") {
				reach[mf.FunctionIdent] = mf
			}
		}
		ext := func(fail bool) func(m *ASTModifier) (map[uint32]*string, error) {
			return func(m *ASTModifier) (map[uint32]*string, error) {
				fn := &callers[0].Function
				id, err := m.InjectFuncPointEntry(fn)
				if fail {
					return nil, fmt.Errorf("extension failed")
				}
				return map[uint32]*string{id: &fn.FunctionIdent}, err
			}
		}
		var pre, post func(m *ASTModifier) (map[uint32]*string, error)
		if fault == "pre" || rapid.IntRange(0, 3).Draw(rt, "ext") == 0 {
			pre = ext(fault == "pre")
		}
		if fault == "post" || rapid.IntRange(0, 3).Draw(rt, "ext2") == 0 {
			post = ext(fault == "post")
		}
		snap, snapDep := c03Tree(root), c03Tree(depDir)
		_, _, _, _, _, err := RunModuleUpdateAnalysis(gopath, modcache, root, 0, NewMemStorage(), 5, 100,
			[]*ModuleChange{mc}, reach, callers, nil, pre, post)
		d := vfTreeDiff(snap, c03Tree(root))
		if d == "" {
			d = vfTreeDiff(snapDep, c03Tree(depDir))
		}
		desc := fmt.Sprintf("workspace=%v modules=%v fault=%s pre=%v post=%v", work, mods, fault, pre != nil, post != nil)
		if d != "" {
			rt.Fatalf("the tree is not as before after the update analysis (error %v)\n%s\n%s", err, desc, d)
		}
		if err == nil && fault != "none" {
			rt.Fatalf("the update analysis succeeded although a step failed\n%s", desc)
		}
		vfCase("update", true, fmt.Sprint(desc, vfKeys(snap)), "fault: "+fault)
	})
}
