package lens

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func init() {
	vfRule("a case is one (project, tests, relevant functions) triple; non-trivial if some test reaches a relevant function only through other functions, some test reaches none, and some function that only looks like a test reaches one")
}

// c14Tests adds tests and functions that only look like tests.
func c14Tests(rt *rapid.T, p *cgProj, base []*cgFn) {
	group := &cgFn{id: len(p.fns), pkg: p.pkgs[2], kind: "group", ident: "group", shape: -1}
	p.fns = append(p.fns, group)
	var units []*cgPkg
	for _, q := range p.pkgs {
		if !q.module {
			units = append(units, q)
		}
	}
	for _, q := range units {
		for _, ext := range []bool{false, true} {
			if ext && q.name == "main" { // nothing to import
				continue
			}
			if rapid.IntRange(0, 3).Draw(rt, "notests") == 0 {
				continue
			}
			file := "x_test.go"
			if ext {
				file = "x_ext_test.go"
			}
			c14File(rt, p, q, file, base, group)
		}
	}
	// functions of the project the standard library may call, as far as types go
	for _, f := range p.fns {
		if f.kind == "helper" && f.name == "main" && !strings.Contains(f.ident, "*") {
			group.may = append(group.may, f.id)
		}
	}
}

func c14File(rt *rapid.T, p *cgProj, q *cgPkg, file string, base []*cgFn, group *cgFn) {
	var can []*cgFn
	for _, v := range base {
		if v.pkg == q || v.pkg.level < q.level {
			can = append(can, v)
		}
	}
	if len(can) == 0 {
		return
	}
	// helpers of the tests
	nb := len(p.fns)
	for range rapid.IntRange(0, 4).Draw(rt, "helpers") {
		h := p.newFn(rt, q, file, rapid.SampledFrom(cgKinds).Draw(rt, "kind"))
		p.callTo(rt, h, rapid.SampledFrom(can).Draw(rt, "helpercallee"))
		can = append(can, h)
	}
	helpers := append([]*cgFn(nil), p.fns[nb:]...)
	defer func() {
		for _, h := range helpers {
			if h.kind != "helper" {
				p.emit(h)
			}
		}
	}()
	n := rapid.IntRange(1, 7).Draw(rt, "tests")
	for range n {
		p.next++
		k := p.next
		kind := rapid.SampledFrom([]string{"test", "test", "test", "test", "test", "test", "bench", "example", "fuzz", "testmain", "odd", "odd"}).Draw(rt, "testkind")
		u := &cgFn{id: len(p.fns), pkg: q, file: file, kind: kind, shape: -1}
		sig := "(t *testing.T)"
		switch kind {
		case "test":
			u.isTest = true
			u.name = fmt.Sprintf(rapid.SampledFrom([]string{"TestX%d", "Test%d", "Test_x%d", "TestÄ%d", "TestMain%d", "TestBenchmark%d"}).Draw(rt, "testname"), k)
		case "bench":
			u.name, sig = fmt.Sprintf("BenchmarkX%d", k), "(t *testing.B)"
		case "example":
			u.name, sig = fmt.Sprintf("Example_x%d", k), "()"
		case "fuzz":
			u.name, sig = fmt.Sprintf("FuzzX%d", k), "(t *testing.F)"
		case "testmain":
			if p.mains["M"+q.path] {
				continue
			}
			p.mains["M"+q.path] = true
			u.name, sig = "TestMain", "(t *testing.M)"
		case "odd": // looks like a test, but go test does not take it
			u.name = fmt.Sprintf(rapid.SampledFrom([]string{"Testhelper%d", "Testäh%d", "test%d", "MyTest%d"}).Draw(rt, "oddname"), k)
		}
		if kind != "test" {
			group.may = append(group.may, u.id)
		}
		if kind != "example" {
			q.imp(file, "testing")
		}
		u.ident = u.pkgPath() + ":" + u.name
		p.fns = append(p.fns, u)
		for range rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "testcalls") {
			nm := len(u.must)
			p.callTo(rt, u, rapid.SampledFrom(can).Draw(rt, "testcallee"))
			callees := append([]int(nil), u.must[nm:]...)
			s := u.calls[len(u.calls)-1]
			p.next++
			j := p.next
			isT := kind == "test" || kind == "odd"
			how := rapid.IntRange(0, 13).Draw(rt, "testform")
			switch {
			case isT && how == 0:
				s = fmt.Sprintf("t.Run(\"a\", func(t *testing.T) { %s })", s)
				c14Std(p, u, group, callees)
				p.forms["t.Run"] = true
			case isT && how == 1:
				s = fmt.Sprintf("for _, c := range []struct{ f func(*testing.T) }{{func(t *testing.T) { %s }}} {\n\t\tt.Run(\"t\", c.f)\n\t}", s)
				c14Std(p, u, group, callees)
				p.forms["table"] = true
			case isT && how == 2:
				s = fmt.Sprintf("t.Cleanup(func() { %s })", s)
				c14Std(p, u, group, callees)
				p.forms["t.Cleanup"] = true
			case isT && how == 3:
				h := p.helper(u, fmt.Sprintf("sub%d", j), fmt.Sprintf("func sub%d(t *testing.T) {\n\t%s\n}\n\n", j, s))
				h.must, u.must = callees, append(u.must[:nm], h.id)
				s = fmt.Sprintf("t.Run(\"s\", sub%d)", j)
				c14Std(p, u, group, []int{h.id})
				p.forms["t.Run of a function"] = true
			case isT && (how == 4 || how == 5): // a method named like a test
				name := fmt.Sprintf("TestM%d", j)
				h := p.helper(u, name, fmt.Sprintf("type S%d struct{}\n\nfunc (*S%d) %s(t *testing.T) {\n\t%s\n}\n\n", j, j, name, s))
				h.ident = fmt.Sprintf("%s:*S%d.%s", u.pkgPath(), j, name)
				h.must, u.must = callees, append(u.must[:nm], h.id)
				s = fmt.Sprintf("(&S%d{}).%s(t)", j, name)
				p.forms["method named like a test"] = true
			case isT && (how == 6 || how == 7): // a function named almost like a test
				name := fmt.Sprintf("Testcase%d", j)
				h := p.helper(u, name, fmt.Sprintf("func %s(t *testing.T) {\n\t%s\n}\n\n", name, s))
				h.must, u.must = callees, append(u.must[:nm], h.id)
				group.may = append(group.may, h.id)
				s = name + "(t)"
				p.forms["function named almost like a test"] = true
			case isT && how == 8 && !cgExt(file): // named like a test, but not in a test file
				name := fmt.Sprintf("TestUtil%d", j)
				save := u.file
				u.file = "testutil.go"
				h := p.helper(u, name, fmt.Sprintf("func %s(t *testing.T) {\n\tcall%d(t)\n}\n\nvar call%d = func(t *testing.T) {}\n\n", name, j, j))
				u.file = save
				q.imp("testutil.go", "testing")
				q.text(file, "func init() { call%d = func(t *testing.T) { %s } }\n\n", j, s)
				h.must, u.must = callees, append(u.must[:nm], h.id)
				group.may = append(group.may, callees...)
				group.may = append(group.may, h.id)
				// the call through the variable may be any function taking a *testing.T
				h.may = append(h.may, group.id)
				s = name + "(t)"
				p.forms["test function outside of test files"] = true
			case isT && how == 9:
				s = "t.Parallel()\n\t" + s
				u.may = append(u.may, group.id)
			case kind == "fuzz":
				s = fmt.Sprintf("t.Fuzz(func(t *testing.T, x%d int) { %s })", j, s)
				if how < 5 || len(u.calls) > 1 {
					s = u.calls[len(u.calls)-1]
				}
			case kind == "testmain":
				s += "\n\tt.Run()"
			}
			u.calls[len(u.calls)-1] = s
		}
		q.text(file, "func %s%s {\n", u.name, sig)
		for _, c := range u.calls {
			q.text(file, "\t%s\n", c)
		}
		q.text(file, "}\n\n")
	}
}

// c14Std records that u makes the standard library call a function literal
// leading to the callees; for an analysis by types any such call may lead to
// the literals of all others.
func c14Std(p *cgProj, u, group *cgFn, callees []int) {
	u.may = append(u.may, group.id)
	group.may = append(group.may, callees...)
}

func TestC14TestsA(t *testing.T) { c14Prop(t, 0) }
func TestC14TestsB(t *testing.T) { c14Prop(t, 1) }
func TestC14TestsC(t *testing.T) { c14Prop(t, 2) }

func c14Prop(t *testing.T, shard int) {
	t.Parallel()
	vfRun(t, 16, 150, func(rt *rapid.T) {
		for range shard { // the shards see different cases of one seed
			rapid.Uint64().Draw(rt, "shard")
		}
		p := cgGen(rt, rapid.IntRange(12, 40).Draw(rt, "n"), func(p *cgProj, base []*cgFn) { c14Tests(rt, p, base) })
		defer os.RemoveAll(p.dir)
		p.write()
		var callers []*CallerFunction
		var relevant []int
		sparse := rapid.SampledFrom([]int{1, 3, 3}).Draw(rt, "sparse")
		for _, v := range p.fns {
			if v.pkg.module || v.root || v.kind == "group" || strings.HasSuffix(v.file, "_test.go") {
				continue
			}
			if rapid.IntRange(0, sparse).Draw(rt, "relevant") == 0 {
				relevant = append(relevant, v.id)
				callers = append(callers, &CallerFunction{Function: Function{FilePath: filepath.Join(p.dir, v.pkg.dir, v.file), PackageName: v.pkg.path, FunctionIdent: v.ident, FunctionName: v.name}})
			}
		}
		if rapid.IntRange(0, 4).Draw(rt, "unknown") == 0 {
			callers = append(callers, &CallerFunction{Function: Function{PackageName: "example.com/proj", FunctionIdent: "example.com/proj:Gone", FunctionName: "Gone"}})
		}
		tests, err := TestStaticAnalysis(callers, p.root, "", "")
		if err != nil {
			c13Vet(p)
			rt.Fatalf("analysis failed: %v\n%s", err, c13Dump(p))
		}
		got := map[string]*TestFunction{}
		for _, f := range tests {
			if got[f.FunctionIdent] != nil {
				rt.Fatalf("%s is selected twice\n%s", f.FunctionIdent, c13Dump(p))
			}
			got[f.FunctionIdent] = f
		}
		stopMust := func(f *cgFn) bool { return f.root || f.isTest }
		stopMay := func(f *cgFn) bool { return f.root }
		must, may := map[int]map[int]bool{}, map[int]map[int]bool{}
		for _, r := range relevant {
			must[r] = p.reach(r, false, stopMust)
			may[r] = p.reach(r, true, stopMay)
		}
		chain, none, decoy := false, false, false
		for _, u := range p.fns {
			if !u.isTest {
				for _, r := range relevant {
					decoy = decoy || strings.HasSuffix(u.file, "_test.go") && must[r][u.id]
				}
				if f := got[u.ident]; f != nil {
					rt.Fatalf("%s is selected, which is no test\n%s", u.ident, c13Dump(p))
				}
				continue
			}
			var want, can []string
			for _, r := range relevant {
				if must[r][u.id] {
					want = append(want, p.fns[r].ident)
				}
				if may[r][u.id] {
					can = append(can, p.fns[r].ident)
				}
			}
			f := got[u.ident]
			none = none || f == nil
			if f == nil {
				if len(want) > 0 {
					rt.Fatalf("%s reaches %v but is not selected\n%s", u.ident, want, c13Dump(p))
				}
				continue
			}
			delete(got, u.ident)
			var have []string
			for _, c := range f.Targets {
				have = append(have, c.FunctionIdent)
				ok := false
				for _, d := range callers {
					ok = ok || c == d
				}
				if !ok {
					rt.Fatalf("%s is linked to a function other than those given", u.ident)
				}
			}
			sort.Strings(have)
			for i := 1; i < len(have); i++ {
				if have[i] == have[i-1] {
					rt.Fatalf("%s is linked to %s twice\n%s", u.ident, have[i], c13Dump(p))
				}
			}
			if d := c13Missing(want, have); d != "" {
				rt.Fatalf("%s reaches %s, to which it is not linked\n%s", u.ident, d, c13Dump(p))
			}
			if d := c13Missing(have, can); d != "" {
				rt.Fatalf("%s is linked to %s, but nothing in it leads there\n%s", u.ident, d, c13Dump(p))
			}
			for _, w := range want {
				direct := false
				for _, v := range u.must {
					direct = direct || p.fns[v].ident == w
				}
				chain = chain || !direct
			}
			c13Location(rt, p, u, &f.Function)
			if l := p.lines(u, "func "+u.name+"("); !l[int(f.EntryLineNumber)] {
				rt.Fatalf("%s starts at line %v, reported at %d", u.ident, l, f.EntryLineNumber)
			}
		}
		for id := range got {
			rt.Fatalf("%s is selected, which is no test of the project\n%s", id, c13Dump(p))
		}
		vfCase("tests", chain && none && decoy, c13Dump(p), vfKeys(p.forms)...)
	})
}
