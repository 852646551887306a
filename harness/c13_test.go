package lens

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func init() {
	vfRule("a case is one (project, changed functions) pair; non-trivial if some project function reaches a changed function through at least one other function and some does not reach any")
}

func TestC13Callers(t *testing.T) {
	vfRun(t, 250, 5000, func(rt *rapid.T) {
		p := cgGen(rt, rapid.IntRange(10, 60).Draw(rt, "n"), nil)
		defer os.RemoveAll(p.dir)
		p.write()
		var changed []int
		var mods []*ModuleFunction
		for _, v := range p.fns {
			if v.pkg.module && v.kind != "helper" && rapid.IntRange(0, 1).Draw(rt, "changed") == 0 {
				changed = append(changed, v.id)
				mods = append(mods, &ModuleFunction{Function: Function{FilePath: filepath.Join(p.dir, v.pkg.dir, v.file), PackageName: v.pkg.path, FunctionIdent: v.ident, FunctionName: v.name}})
			}
		}
		if rapid.IntRange(0, 4).Draw(rt, "unknown") == 0 {
			mods = append(mods, &ModuleFunction{Function: Function{PackageName: "example.com/dep", FunctionIdent: "example.com/dep:Gone", FunctionName: "Gone"}})
		}
		callers, reachable, _, _, _, err := CallerStaticAnalysis(mods, p.root, "", "")
		if err != nil {
			// the project compiles, so there is no reason to fail
			c13Vet(p)
			rt.Fatalf("analysis failed: %v\n%s", err, c13Dump(p))
		}
		got := map[string]*CallerFunction{}
		for _, c := range callers {
			if got[c.FunctionIdent] != nil {
				rt.Fatalf("%s is reported twice\n%s", c.FunctionIdent, c13Dump(p))
			}
			got[c.FunctionIdent] = c
		}
		stop := func(f *cgFn) bool { return f.root }
		known := map[string]bool{}
		chain, none := false, false
		reached := map[string]bool{}
		for _, u := range p.fns {
			if u.pkg.module || u.root {
				continue
			}
			known[u.ident] = true
			var want, may []string
			for _, ch := range changed {
				if p.reach(ch, false, stop)[u.id] {
					want = append(want, p.fns[ch].ident)
				}
				if p.reach(ch, true, stop)[u.id] {
					may = append(may, p.fns[ch].ident)
				}
			}
			if u.hidden {
				delete(known, u.ident)
				if got[u.ident] != nil {
					known[u.ident] = true // files for generated code are not instrumented
				}
				continue
			}
			for _, w := range want {
				reached[w] = true
			}
			if len(want) == 0 {
				none = true
			}
			c := got[u.ident]
			if c == nil {
				if len(want) > 0 {
					rt.Fatalf("%s reaches %v but is not reported\n%s", u.ident, want, c13Dump(p))
				}
				continue
			}
			var have []string
			for _, f := range c.ChangeFunctions {
				have = append(have, f.FunctionIdent)
			}
			sort.Strings(have)
			for i := 1; i < len(have); i++ {
				if have[i] == have[i-1] {
					rt.Fatalf("%s lists %s twice\n%s", u.ident, have[i], c13Dump(p))
				}
			}
			if d := c13Missing(want, have); d != "" {
				rt.Fatalf("%s reaches %s, which is not reported\n%s", u.ident, d, c13Dump(p))
			}
			if d := c13Missing(have, may); d != "" {
				rt.Fatalf("%s is reported to reach %s, but nothing in it leads there\n%s", u.ident, d, c13Dump(p))
			}
			if len(have) > 0 && !c13Direct(u, changed) {
				chain = true
			}
			c13Location(rt, p, u, &c.Function)
		}
		for id := range got {
			if !known[id] {
				rt.Fatalf("%s is reported, which is no function of the project that can be called from elsewhere\n%s", id, c13Dump(p))
			}
		}
		for id := range reached {
			if reachable[id] == nil {
				rt.Fatalf("%s is reached by the project, but not listed as reachable\n%s", id, c13Dump(p))
			}
		}
		for id, f := range reachable {
			if f.FunctionIdent != id {
				rt.Fatalf("%s is listed as reachable under %s", f.FunctionIdent, id)
			}
			ok := false
			for _, c := range callers {
				for _, g := range c.ChangeFunctions {
					ok = ok || g.FunctionIdent == id
				}
			}
			if !ok {
				rt.Fatalf("%s is listed as reachable without a caller", id)
			}
		}
		vfCase("callers", chain && none, c13Dump(p), vfKeys(p.forms)...)
	})
}

func c13Direct(u *cgFn, changed []int) bool {
	for _, v := range u.must {
		for _, c := range changed {
			if v == c {
				return true
			}
		}
	}
	return false
}

// c13Missing gives the elements of a that are not in b.
func c13Missing(a, b []string) string {
	var out []string
	for _, x := range a {
		found := false
		for _, y := range b {
			found = found || x == y
		}
		if !found {
			out = append(out, x)
		}
	}
	return strings.Join(out, ", ")
}

func c13Location(rt *rapid.T, p *cgProj, u *cgFn, f *Function) {
	if want := filepath.Join(p.dir, u.pkg.dir, u.file); f.FilePath != want {
		rt.Fatalf("%s is in %s, reported in %s", u.ident, want, f.FilePath)
	}
	if f.PackageName != u.pkgPath() {
		rt.Fatalf("%s is in package %s, reported in %s", u.ident, u.pkgPath(), f.PackageName)
	}
	if f.FunctionName != u.name {
		rt.Fatalf("the name of %s is %s, reported as %s", u.ident, u.name, f.FunctionName)
	}
	if u.shape < 0 {
		return
	}
	_, head := u.header()
	if l := p.lines(u, p.final(head)); !l[int(f.EntryLineNumber)] {
		rt.Fatalf("%s starts at line %v, reported at %d\n%s", u.ident, l, f.EntryLineNumber, c13Dump(p))
	}
	if f.ReturnPanic != u.noRets {
		rt.Fatalf("%s only panics: %v, reported: %v\n%s", u.ident, u.noRets, f.ReturnPanic, c13Dump(p))
	}
	points := map[int]bool{}
	for _, r := range f.ReturnPoints {
		if points[int(r.Line)] {
			rt.Fatalf("%s has return line %d twice", u.ident, r.Line)
		}
		points[int(r.Line)] = true
	}
	rets := p.lines(u, fmt.Sprintf("//@ret%d", u.id))
	for l := range rets {
		if !points[l] {
			rt.Fatalf("%s returns at line %d, which is not among its return points %v\n%s", u.ident, l, f.ReturnPoints, c13Dump(p))
		}
	}
	if u.shape != 2 && u.shape != 3 && u.shape != 5 && len(points) != len(rets) {
		rt.Fatalf("%s returns at lines %v, reported %v\n%s", u.ident, rets, f.ReturnPoints, c13Dump(p))
	}
}

func c13Vet(p *cgProj) {
	for _, d := range []string{".", "lib", "app"} {
		if _, err := os.Stat(filepath.Join(p.root, d, "go.mod")); err == nil {
			mpGo(filepath.Join(p.root, d), nil, "vet", "-unusedresult=false", "-asmdecl", "./...")
		}
	}
}

func c13Dump(p *cgProj) string {
	t := vfTree(p.dir)
	var b strings.Builder
	for _, k := range vfKeys(t) {
		if strings.HasSuffix(k, ".go") && !strings.HasSuffix(k, "zero.go") {
			fmt.Fprintf(&b, "---- %s\n%s", k, t[k])
		}
	}
	return b.String()
}

// TestC13UnusedGeneric: methods of generic types the project does not instantiate.
func TestC13UnusedGeneric(t *testing.T) {
	dir := vfDir("c13g")
	defer os.RemoveAll(dir)
	vfWrite(filepath.Join(dir, "dep/go.mod"), "module example.com/dep\n\ngo 1.24\n")
	vfWrite(filepath.Join(dir, "dep/x.go"), "package dep\n\nfunc F() int { return 0 }\n")
	vfWrite(filepath.Join(dir, "proj/go.mod"), "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n\nreplace example.com/dep => ../dep\n")
	vfWrite(filepath.Join(dir, "proj/x.go"), "package proj\n\nimport \"example.com/dep\"\n\ntype T[K any] struct{ x K }\n\nfunc (t *T[K]) M() int { return dep.F() }\n")
	vfWrite(filepath.Join(dir, "proj/x_test.go"), "package proj\n\nimport \"testing\"\n\nfunc TestM(t *testing.T) { (&T[int]{}).M() }\n")
	callers, _, _, _, _, err := CallerStaticAnalysis([]*ModuleFunction{{Function: Function{PackageName: "example.com/dep", FunctionIdent: "example.com/dep:F", FunctionName: "F"}}}, filepath.Join(dir, "proj"), "", "")
	if err != nil {
		t.Fatal(err)
	}
	vfKnown("method of a generic type instantiated only in tests", len(callers) == 0)
}
