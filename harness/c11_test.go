package lens

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/version"
	"maps"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"golang.org/x/mod/module"
	"golang.org/x/mod/semver"
	"pgregory.net/rapid"
)

// One version of a generated module.
type c11Version struct {
	version string
	goVer   string
	deps    map[string]string
	funcs   map[string]*gsFunc // by ident
	files   map[string]string
}

type c11Module struct {
	path     string
	versions []*c11Version
	changed  map[[2]int]map[string]string // (old, new) version index -> ident -> edit kind
}

var c11Pkgs = []string{"", "sub", "internal/in", "sub/deep"}

func c11PkgName(dir string) string {
	if dir == "" {
		return "root"
	}
	return filepath.Base(dir)
}

func c11NewFunc(rt *rapid.T, pkg string, n int) *gsFunc {
	f := &gsFunc{Pkg: pkg, Params: "acc int, s string", Result: rapid.SampledFrom([]string{"", "int", "string", "(int, error)"}).Draw(rt, "result")}
	f.Recv = rapid.SampledFrom([]string{"", "", "T", "*T", "*U", "G[K]", "*G[K]", "*P[K, V]"}).Draw(rt, "recv")
	f.Name = rapid.SampledFrom([]string{"F", "f", "Run", "String", "Get"}).Draw(rt, "name")
	if n >= 0 {
		f.Name += fmt.Sprint(n)
	}
	if f.Recv == "" && rapid.IntRange(0, 4).Draw(rt, "generic") == 0 {
		f.TParam = "[Q any]"
	}
	f.Stmts = gsStmts(rt, 4)
	f.File = rapid.SampledFrom([]string{"a.go", "b.go"}).Draw(rt, "file")
	return f
}

// c11Render writes the files of a version.
func c11Render(rt *rapid.T, modPath string, v *c11Version, salt int) {
	v.files = map[string]string{}
	var b strings.Builder
	fmt.Fprintf(&b, "module %s\n\n", modPath)
	if v.goVer != "" {
		fmt.Fprintf(&b, "go %s\n", v.goVer)
	}
	for _, d := range slices.Sorted(maps.Keys(v.deps)) {
		fmt.Fprintf(&b, "\nrequire %s %s\n", d, v.deps[d])
	}
	v.files["go.mod"] = b.String()
	byFile := map[string][]*gsFunc{}
	for _, id := range slices.Sorted(maps.Keys(v.funcs)) {
		f := v.funcs[id]
		p := filepath.Join(f.Pkg, f.File)
		byFile[p] = append(byFile[p], f)
	}
	pkgs := map[string]bool{}
	for _, p := range slices.Sorted(maps.Keys(byFile)) {
		dir := filepath.Dir(p)
		if dir == "." {
			dir = ""
		}
		pkgs[dir] = true
		fs := byFile[p]
		fs = rapid.Permutation(fs).Draw(rt, "order")
		noise := rapid.SampledFrom([]int{0, 3, 10}).Draw(rt, "noise")
		var s strings.Builder
		if rapid.Bool().Draw(rt, "head") {
			s.WriteString("// Header comment.\n\n")
		}
		fmt.Fprintf(&s, "package %s\n\n", c11PkgName(dir))
		for _, f := range fs {
			if rapid.IntRange(0, 3).Draw(rt, "doc") == 0 {
				fmt.Fprintf(&s, "// %s has a comment %d.\n", f.Name, gsInt(rt))
			}
			if rapid.IntRange(0, 5).Draw(rt, "var") == 0 {
				fmt.Fprintf(&s, "\nvar _ = %d\n\n", gsInt(rt))
			}
			s.WriteString(gsLayout(rt, f.source(), noise))
			s.WriteString("\n")
		}
		v.files[p] = s.String()
	}
	for _, dir := range slices.Sorted(maps.Keys(pkgs)) {
		v.files[filepath.Join(dir, "types.go")] = fmt.Sprintf("package %s\n\ntype T struct{ A [%d]int }\ntype U []int\ntype G[K any] struct{ V K }\ntype P[K comparable, V any] struct{ M map[K]V }\n", c11PkgName(dir), salt)
		// code which does not belong to the packages, different in every version
		v.files[filepath.Join(dir, "x_test.go")] = fmt.Sprintf("package %s\n\nfunc F1() int { return %d }\n\nfunc helper() int { return %d }\n", c11PkgName(dir)+"_test", salt, salt)
		v.files[filepath.Join(dir, "ignored.go")] = fmt.Sprintf("//go:build ignore\n\npackage %s\n\nfunc ignored() int { return %d }\n", c11PkgName(dir), salt)
		v.files[filepath.Join(dir, "testdata", "data.go")] = fmt.Sprintf("package data\n\nfunc data() int { return %d }\n", salt)
	}
	v.files["nested/go.mod"] = "module " + modPath + "/nested\n"
	v.files["nested/n.go"] = fmt.Sprintf("package nested\n\nfunc F1() int { return %d }\n", salt)
}

func (m *c11Module) dir(cache string, v *c11Version) string {
	ep, err := module.EscapePath(m.path)
	if err != nil {
		vfHarnessErr("%v", err)
	}
	ev, err := module.EscapeVersion(v.version)
	if err != nil {
		vfHarnessErr("%v", err)
	}
	return filepath.Join(cache, ep+"@"+ev)
}

func (m *c11Module) write(cache string) {
	for _, v := range m.versions {
		for p, s := range v.files {
			vfWrite(filepath.Join(m.dir(cache, v), p), s)
		}
	}
}

var c11GoVersions = []string{"1.17", "1.20", "1.21rc2", "1.21.3", "1.22", "1.22.0", "1.23.1"}

func c11GenModule(rt *rapid.T, path string, nver int, funcs int) *c11Module {
	m := &c11Module{path: path, changed: map[[2]int]map[string]string{}}
	pool := []string{"v1.0.0", "v1.1.0", "v1.2.0-RC1", "v1.2.0", "v1.10.0"}
	if strings.HasSuffix(path, "/v2") {
		pool = []string{"v2.0.0-Beta", "v2.0.0", "v2.3.0", "v2.10.0"}
	}
	var prev *c11Version
	for i := range nver {
		v := &c11Version{version: pool[i], deps: map[string]string{}, funcs: map[string]*gsFunc{}, goVer: rapid.SampledFrom(c11GoVersions).Draw(rt, "go")}
		if prev == nil {
			for _, dir := range c11Pkgs[:rapid.IntRange(1, len(c11Pkgs)).Draw(rt, "npkgs")] {
				for k := range rapid.IntRange(1, funcs).Draw(rt, "nfuncs") {
					f := c11NewFunc(rt, dir, rapid.SampledFrom([]int{k, 1}).Draw(rt, "n"))
					v.funcs[f.ident(path)] = f
				}
			}
		} else {
			dropPkg := ""
			if rapid.IntRange(0, 9).Draw(rt, "droppkg") == 0 {
				dropPkg = "sub"
			}
			for _, id := range slices.Sorted(maps.Keys(prev.funcs)) {
				f := prev.funcs[id].clone()
				if f.Pkg != "" && f.Pkg == dropPkg {
					continue
				}
				switch rapid.SampledFrom([]string{"keep", "keep", "keep", "edit", "edit", "remove", "move", "movepkg"}).Draw(rt, "op") {
				case "keep":
				case "edit":
					f, _ = gsEdit(rt, f)
				case "remove":
					continue
				case "move":
					f.File = rapid.SampledFrom([]string{"a.go", "b.go", "c.go"}).Draw(rt, "to")
				case "movepkg":
					f.Pkg = rapid.SampledFrom(c11Pkgs).Draw(rt, "topkg")
					if f.Pkg == dropPkg {
						f.Pkg = ""
					}
					if v.funcs[f.ident(path)] != nil || prev.funcs[f.ident(path)] != nil {
						f.Pkg = prev.funcs[id].Pkg
					}
				}
				v.funcs[f.ident(path)] = f
			}
			for range rapid.IntRange(0, 2).Draw(rt, "added") {
				f := c11NewFunc(rt, "", rapid.IntRange(20, 30).Draw(rt, "n"))
				if v.funcs[f.ident(path)] == nil && prev.funcs[f.ident(path)] == nil {
					v.funcs[f.ident(path)] = f
				}
			}
		}
		m.versions = append(m.versions, v)
		prev = v
	}
	return m
}

func (m *c11Module) index(version string) int {
	return slices.IndexFunc(m.versions, func(v *c11Version) bool { return v.version == version })
}

// diff is the set of functions in both versions with different code.
func (m *c11Module) diff(from, to int) map[string]bool {
	out := map[string]bool{}
	for id, f := range m.versions[from].funcs {
		g := m.versions[to].funcs[id]
		if g != nil && !slices.Equal(gsTokens(f.source()), gsTokens(g.source())) {
			out[id] = true
		}
	}
	return out
}

// c11CheckFunc compares one reported function with the old file's text.
func c11CheckFunc(rt *rapid.T, cache string, m *c11Module, from, to int, fn *ModuleFunction) {
	old := m.versions[from]
	f := old.funcs[fn.FunctionIdent]
	path := filepath.Join(m.dir(cache, old), f.Pkg, f.File)
	pkg := m.path
	if f.Pkg != "" {
		pkg += "/" + f.Pkg
	}
	if fn.FunctionName != f.Name || fn.PackageName != pkg || fn.FilePath != path {
		rt.Fatalf("%s: name %q package %q file %q, want %q %q %q", fn.FunctionIdent, fn.FunctionName, fn.PackageName, fn.FilePath, f.Name, pkg, path)
	}
	if fn.Module == nil || fn.Module.Name != m.path || fn.Module.PriorVersion != old.version || fn.Module.NewVersion != m.versions[to].version {
		rt.Fatalf("%s: module %+v, want %s %s -> %s", fn.FunctionIdent, fn.Module, m.path, old.version, m.versions[to].version)
	}
	if got, want := gsTokens(fn.Definition), gsTokens(f.source()); !slices.Equal(got, want) {
		rt.Fatalf("%s: definition\n%s\nis not the old code\n%s", fn.FunctionIdent, fn.Definition, f.source())
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
	if err != nil {
		vfHarnessErr("generated file does not parse: %v\n%s", err, vfRead(path))
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != f.Name || fd.Recv == nil != (f.Recv == "") {
			continue
		}
		if f.Recv != "" {
			s := vfRead(path)
			text := s[fset.Position(fd.Recv.List[0].Type.Pos()).Offset:fset.Position(fd.Recv.List[0].Type.End()).Offset]
			if strings.Join(gsTokens(text), "") != strings.Join(gsTokens(f.Recv), "") {
				continue
			}
		}
		if got, want := int(fn.EntryLineNumber), fset.Position(fd.Pos()).Line; got != want {
			rt.Fatalf("%s: entry line %d, want %d\n%s", fn.FunctionIdent, got, want, vfRead(path))
		}
		lines := map[uint32]bool{}
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				lines[uint32(fset.Position(x.Pos()).Line)] = true
			}
			return true
		}
		ast.Inspect(fd.Body, walk)
		var got []uint32
		for _, r := range fn.ReturnPoints {
			got = append(got, r.Line)
		}
		want := slices.Sorted(maps.Keys(lines))
		if !slices.Equal(got, want) {
			rt.Fatalf("%s: return points %v, want %v\n%s", fn.FunctionIdent, got, want, vfRead(path))
		}
		return
	}
	vfHarnessErr("%s not found in %s\n%s", fn.FunctionIdent, path, vfRead(path))
}

func c11Subsequence(a, b []string) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] != x {
			j++
		}
		if j == len(b) {
			return false
		}
		j++
	}
	return true
}

func c11Check(rt *rapid.T, cache string, mods map[string]*c11Module, data map[string][]*ModuleFunction, want map[string][2]int, listed map[string]bool) {
	for name := range data {
		if _, ok := want[name]; !ok {
			rt.Fatalf("module %s was analyzed, expected only %v", name, vfKeys(want))
		}
	}
	for name, fromTo := range want {
		m := mods[name]
		exp := m.diff(fromTo[0], fromTo[1])
		fns, ok := data[name]
		if !ok && (listed[name] || len(exp) > 0) {
			rt.Fatalf("module %s %v is missing from the result (expected %v)", name, fromTo, vfKeys(exp))
		}
		got := map[string]bool{}
		for _, fn := range fns {
			if got[fn.FunctionIdent] {
				rt.Fatalf("%s reported twice", fn.FunctionIdent)
			}
			got[fn.FunctionIdent] = true
			if !exp[fn.FunctionIdent] {
				msg := ""
				if o, n := m.versions[fromTo[0]].funcs[fn.FunctionIdent], m.versions[fromTo[1]].funcs[fn.FunctionIdent]; o != nil && n != nil {
					msg = "\n" + m.versions[fromTo[0]].files[filepath.Join(o.Pkg, o.File)] + "\n----\n" + m.versions[fromTo[1]].files[filepath.Join(n.Pkg, n.File)]
				}
				rt.Fatalf("%s is reported as changed, but its code is the same in both versions or it is not in both%s", fn.FunctionIdent, msg)
			}
			c11CheckFunc(rt, cache, m, fromTo[0], fromTo[1], fn)
		}
		for id := range exp {
			if !got[id] {
				rt.Fatalf("changed function %s is not reported; old:\n%s\nnew:\n%s", id, m.versions[fromTo[0]].funcs[id].source(), m.versions[fromTo[1]].funcs[id].source())
			}
		}
	}
}

func TestC11Changes(t *testing.T) {
	vfRule("changes: two versions of generated modules with random edits, moves, comments and layout, listed in random order and repetition; non-trivial = at least one changed and one unchanged function")
	vfRun(t, 60, 1500, func(rt *rapid.T) {
		cache := vfDir("c11")
		defer os.RemoveAll(cache)
		paths := rapid.Permutation([]string{"example.com/alpha", "example.com/Alpha/v2", "example.com/alpha/beta", "other.org/x-y_z"}).Draw(rt, "paths")
		n := rapid.IntRange(1, 3).Draw(rt, "nmods")
		mods := map[string]*c11Module{}
		want := map[string][2]int{}
		listed := map[string]bool{}
		var list []*ModuleChange
		for _, p := range paths[:n] {
			m := c11GenModule(rt, p, 2, 5)
			for i, v := range m.versions {
				c11Render(rt, p, v, i+1)
			}
			m.write(cache)
			mods[p] = m
			from, to := 0, 1
			if rapid.IntRange(0, 7).Draw(rt, "down") == 0 {
				from, to = 1, 0
			}
			want[p], listed[p] = [2]int{from, to}, true
			for range rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "repeat") {
				list = append(list, &ModuleChange{Name: p, PriorVersion: m.versions[from].version, NewVersion: m.versions[to].version})
			}
		}
		list = rapid.Permutation(list).Draw(rt, "list")
		radius := rapid.IntRange(0, 2).Draw(rt, "radius")
		data, pkgs, err := AnalyzeModuleChanges(cache, false, "", list, radius)
		if err != nil {
			rt.Fatalf("analysis failed: %v", err)
		}
		c11Check(rt, cache, mods, data, want, listed)
		changed, total := 0, 0
		for p, m := range mods {
			fromTo := want[p]
			changed += len(m.diff(fromTo[0], fromTo[1]))
			total += len(m.versions[fromTo[0]].funcs)
			neu := m.versions[fromTo[1]]
			mc := list[slices.IndexFunc(list, func(c *ModuleChange) bool { return c.Name == p })]
			wantGo := m.versions[0].goVer
			if version.Compare("go"+m.versions[1].goVer, "go"+wantGo) < 0 {
				wantGo = m.versions[1].goVer
			}
			if version.Compare("go"+mc.GoVersion, "go"+wantGo) != 0 && version.Compare("go"+strings.TrimSuffix(mc.GoVersion, ".0"), "go"+strings.TrimSuffix(wantGo, ".0")) != 0 {
				rt.Fatalf("%s: go version %q, want the oldest of %q and %q", p, mc.GoVersion, m.versions[0].goVer, m.versions[1].goVer)
			}
			// the new packages hold exactly the functions of the new version
			all, err := ExtractModuleFunctionsFromPackages(pkgs[p], &ModuleChange{Name: p})
			if err != nil {
				rt.Fatalf("extracting functions: %v", err)
			}
			newDefs := map[string]string{}
			for _, fn := range all {
				if newDefs[fn.FunctionIdent] != "" {
					rt.Fatalf("%s extracted twice", fn.FunctionIdent)
				}
				newDefs[fn.FunctionIdent] = fn.Definition
			}
			if got, exp := vfKeys(newDefs), vfKeys(neu.funcs); !reflect.DeepEqual(got, exp) {
				rt.Fatalf("functions of the new version %v, want %v", got, exp)
			}
			for id, def := range newDefs {
				if !slices.Equal(gsTokens(def), gsTokens(neu.funcs[id].source())) {
					rt.Fatalf("definition of %s in the new version:\n%s\nwant the code\n%s", id, def, neu.funcs[id].source())
				}
			}
			for _, fn := range data[p] {
				lines := strings.Split(fn.Definition, "\n")
				if len(fn.LineChangeBitmap) != len(lines) {
					rt.Fatalf("%s: %d line marks for %d lines", fn.FunctionIdent, len(fn.LineChangeBitmap), len(lines))
				}
				var kept []string
				for i, l := range lines {
					if !fn.LineChangeBitmap[i] {
						kept = append(kept, l)
					}
				}
				if !c11Subsequence(kept, strings.Split(newDefs[fn.FunctionIdent], "\n")) {
					rt.Fatalf("%s: lines %q are not marked as changed, but are not all in the new code\n%s", fn.FunctionIdent, kept, newDefs[fn.FunctionIdent])
				}
			}
		}
		var desc []string
		for _, mc := range list {
			desc = append(desc, fmt.Sprintf("%s %s->%s changed=%v of %d", mc.Name, mc.PriorVersion, mc.NewVersion, vfKeys(mods[mc.Name].diff(want[mc.Name][0], want[mc.Name][1])), len(mods[mc.Name].versions[0].funcs)))
		}
		vfCase("changes", changed > 0 && changed < total, strings.Join(desc, "; "), fmt.Sprintf("modules=%d", n))
	})
}

func TestC11Transitive(t *testing.T) {
	vfRule("transitive: modules requiring versions of each other and a project requiring some of them; one or two modules are updated; non-trivial = a dependency is followed")
	vfRun(t, 25, 600, func(rt *rapid.T) {
		cache, proj := vfDir("c11"), vfDir("c11")
		defer os.RemoveAll(cache)
		defer os.RemoveAll(proj)
		names := []string{"example.com/a", "example.com/b", "example.com/c", "example.com/d", "example.com/e"}
		mods := map[string]*c11Module{}
		for _, p := range names {
			mods[p] = c11GenModule(rt, p, 4, 1)
		}
		for i, p := range names {
			for vi, v := range mods[p].versions {
				v.goVer = "1.20"
				for j, d := range names {
					if i != j && rapid.IntRange(0, 2).Draw(rt, "dep") == 0 {
						lo := 0
						if rapid.Bool().Draw(rt, "atleast") {
							lo = vi
						}
						v.deps[d] = mods[d].versions[rapid.IntRange(lo, 3).Draw(rt, "depver")].version
					}
				}
				c11Render(rt, p, v, vi+1)
			}
			mods[p].write(cache)
		}
		// the project
		projVer := map[string]int{}
		var gm strings.Builder
		gm.WriteString("module example.com/project\n\ngo 1.21\n")
		for _, p := range names {
			if rapid.IntRange(0, 4).Draw(rt, "inproject") > 0 {
				projVer[p] = rapid.IntRange(0, 3).Draw(rt, "projver")
				fmt.Fprintf(&gm, "require %s %s\n", p, mods[p].versions[projVer[p]].version)
			}
		}
		vfWrite(filepath.Join(proj, "go.mod"), gm.String())
		// the update
		var list []*ModuleChange
		want := map[string][2]int{}
		listed := map[string]bool{}
		for _, p := range rapid.Permutation(names).Draw(rt, "listed")[:rapid.IntRange(1, 2).Draw(rt, "nlisted")] {
			from, ok := projVer[p]
			if !ok || from == 3 {
				from = 0
			}
			to := rapid.IntRange(from+1, 3).Draw(rt, "to")
			list = append(list, &ModuleChange{Name: p, PriorVersion: mods[p].versions[from].version, NewVersion: mods[p].versions[to].version})
			want[p], listed[p] = [2]int{from, to}, true
		}
		// model: by levels, the highest version of a level, only upgrades of what the project has
		level := maps.Clone(want)
		for len(level) > 0 {
			next := map[string][2]int{}
			for p, ft := range level {
				oldV, newV := mods[p].versions[ft[0]], mods[p].versions[ft[1]]
				for d, dv := range newV.deps {
					if oldV.deps[d] == dv {
						continue
					}
					pv, ok := projVer[d]
					if !ok || semver.Compare(dv, mods[d].versions[pv].version) <= 0 {
						continue
					}
					if _, done := want[d]; done {
						continue
					}
					to := mods[d].index(dv)
					if cur, ok := next[d]; !ok || cur[1] < to {
						next[d] = [2]int{pv, to}
					}
				}
			}
			maps.Copy(want, next)
			level = next
		}
		transitive := rapid.IntRange(0, 4).Draw(rt, "transitive") > 0
		if !transitive {
			for p := range want {
				if !listed[p] {
					delete(want, p)
				}
			}
		}
		data, pkgs, err := AnalyzeModuleChanges(cache, transitive, proj, list, 0)
		if err != nil {
			rt.Fatalf("analysis failed: %v", err)
		}
		c11Check(rt, cache, mods, data, want, listed)
		for p, ft := range want {
			if !listed[p] && len(mods[p].diff(ft[0], ft[1])) == 0 {
				continue
			}
			all, err := ExtractModuleFunctionsFromPackages(pkgs[p], &ModuleChange{Name: p})
			if err != nil {
				rt.Fatalf("extracting functions: %v", err)
			}
			var got []string
			for _, fn := range all {
				got = append(got, fn.FunctionIdent)
			}
			sort.Strings(got)
			if exp := vfKeys(mods[p].versions[ft[1]].funcs); !reflect.DeepEqual(got, exp) && len(got)+len(exp) > 0 {
				rt.Fatalf("functions of the new version of %s %v, want %v", p, got, exp)
			}
		}
		var desc []string
		for p, ft := range want {
			desc = append(desc, fmt.Sprintf("%s %s->%s listed=%v changed=%v", p, mods[p].versions[ft[0]].version, mods[p].versions[ft[1]].version, listed[p], vfKeys(mods[p].diff(ft[0], ft[1]))))
		}
		sort.Strings(desc)
		vfCase("transitive", len(want) > len(listed), strings.Join(desc, "; "), fmt.Sprintf("followed=%d", len(want)-len(listed)))
	})
}
