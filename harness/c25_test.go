package lens

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"net"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"
)

// A function of the updated module and how its behaviour changes.
type c25Func struct {
	name         string
	kind         string // type of its result
	via          string // where its arithmetic is: direct, in (internal package), other (transitive module)
	change       string // none, text, always, above, panic
	a, b, d, lim int
	used         bool // reachable from the project
}

// value is the function's number for an argument, and whether it panics.
func (f *c25Func) value(neu bool, x int) (int, bool) {
	v := x*f.a + f.b
	if neu {
		switch f.change {
		case "always":
			v += f.d
		case "above":
			if x > f.lim {
				v += f.d
			}
		case "panic":
			if x > f.lim {
				return 0, true
			}
		}
	}
	return v, false
}

// num is the value the callers compute from the result.
func (f *c25Func) num(neu bool, x int) int {
	v, _ := f.value(neu, x)
	if f.kind == "str" {
		return len(fmt.Sprint("s", v))
	}
	return v
}

func (f *c25Func) typ() string {
	return map[string]string{"int": "int", "str": "string", "slice": "[]int", "rec": "Rec", "ptr": "*Rec", "map": "map[string]int", "err": "(int, error)"}[f.kind]
}

func (f *c25Func) expr() string {
	return map[string]string{"int": "got", "str": "len(got)", "slice": "got[1]", "rec": "got.B.V", "ptr": "got.B.V", "map": "got[\"v\"]"}[f.kind]
}

func (f *c25Func) usesFmt() bool { return f.kind == "str" || f.kind == "err" }

// core is the changed arithmetic, as statements setting v.
func (f *c25Func) core(neu bool) string {
	if !neu {
		return fmt.Sprintf("\tv := x*%d + %d\n", f.a, f.b)
	}
	switch f.change {
	case "text":
		return fmt.Sprintf("\tv := %d\n\tv += %d * x\n", f.b, f.a)
	case "always":
		return fmt.Sprintf("\tv := x*%d + %d\n", f.a, f.b+f.d)
	case "above":
		return fmt.Sprintf("\tv := x*%d + %d\n\tif x > %d {\n\t\tv += %d\n\t}\n", f.a, f.b, f.lim, f.d)
	case "panic":
		return fmt.Sprintf("\tif x > %d {\n\t\tpanic(\"too large\")\n\t}\n\tv := x*%d + %d\n", f.lim, f.a, f.b)
	}
	return fmt.Sprintf("\tv := x*%d + %d // the same\n", f.a, f.b)
}

func (f *c25Func) source(neu bool) (dep, in, other string) {
	body := f.core(neu)
	switch f.via {
	case "in":
		in = fmt.Sprintf("// G%s computes.\nfunc G%s(x int) int {\n%s\treturn v\n}\n\n", f.name, f.name, body)
		body = "\tv := in.G" + f.name + "(x)\n"
	case "other":
		other = fmt.Sprintf("func O%s(x int) int {\n%s\treturn v\n}\n\n", f.name, body)
		body = "\tv := other.O" + f.name + "(x)\n"
	}
	ret := map[string]string{
		"int": "\treturn v\n", "str": "\treturn fmt.Sprint(\"s\", v)\n", "slice": "\treturn []int{x, v}\n", "rec": "\treturn Rec{A: x, B: Sub{V: v}}\n",
		"ptr": "\treturn &Rec{A: x, B: Sub{V: v}}\n", "map": "\treturn map[string]int{\"x\": x, \"v\": v}\n",
		"err": "\tif v%3 == 0 {\n\t\treturn 0, fmt.Errorf(\"bad %d\", v)\n\t}\n\treturn v, nil\n",
	}[f.kind]
	dep = fmt.Sprintf("func %s(x int) %s {\n%s%s}\n\n", f.name, f.typ(), body, ret)
	return
}

// A function of the project.
type c25Caller struct {
	name, tmpl string
	pkg        int
	f          *c25Func
	inner      *c25Caller
	lim        int
}

type c25Frame map[string]string

type c25World struct {
	neu    bool
	frames map[string][]c25Frame // caller and stack -> calls in order
	panics map[string]int
}

// eval runs the model of a caller; it returns the int result of those which have one.
func (w *c25World) eval(c *c25Caller, x int, stack string) int {
	stack = c.name + "<" + stack
	emit := func(kv ...any) {
		fr := c25Frame{}
		for i := 0; i < len(kv); i += 2 {
			fr[kv[i].(string)] = fmt.Sprint(kv[i+1])
		}
		w.frames[c.name+"|"+stack] = append(w.frames[c.name+"|"+stack], fr)
	}
	if c.tmpl == "chain" {
		h := w.eval(c.inner, x, stack)
		emit("x", x, "h", h, "ret!", h+1)
		return h + 1
	}
	v, bad := c.f.value(w.neu, x)
	n := c.f.num(w.neu, x)
	switch c.tmpl {
	case "direct", "unstable":
		emit("x", x, "before", x*2, "got", v, "n", n, "after", x*2+n, "ret", x*2+n)
		return x*2 + n
	case "early":
		if n > c.lim {
			emit("x", x, "got", v, "n", n, "big", n-c.lim, "ret!", n-c.lim+0)
			return n - c.lim
		}
		emit("x", x, "got", v, "n", n, "rest", n%7, "ret", n%7)
		return n % 7
	case "void":
		emit("x", x, "got", v, "p", n)
	case "err":
		if v%3 == 0 {
			emit("x", x, "v", 0, "err", v, "ret!", fmt.Sprint("e", v))
		} else {
			emit("x", x, "v", v, "err", nil, "ret!", v+1)
		}
	case "loop":
		var all []int
		for i := range x%4 + 1 {
			all = append(all, c.f.num(w.neu, i))
		}
		emit("x", x, "all", all, "ret", all)
	case "closure":
		a, b := c.f.num(w.neu, x), c.f.num(w.neu, x+1)
		emit("x", x, "a", a, "b", b, "ret!", a*1000+b)
	case "goroutine":
		emit("x", x, "v", n, "ret", n)
	case "method":
		emit("x", x, "got", v, "res", n, "ret", n, "?s", n)
	case "generic":
		emit("x", x, "t", "t", "got", v, "n", n, "ret", n)
	case "recover":
		if bad {
			w.panics[c.name]++
		} else {
			emit("x", x, "got", v, "ret!", n+1)
		}
	}
	return 0
}

func (c *c25Caller) source() string {
	call := func(arg string) string { return "dep." + c.f.name + "(" + arg + ")" }
	switch c.tmpl {
	case "chain":
		return fmt.Sprintf("func %s(x int) int {\n\th := %s(x)\n\treturn h + 1\n}\n", c.name, c.inner.name)
	case "direct":
		return fmt.Sprintf("// %s calls.\nfunc %s(x int) int {\n\tbefore := x * 2\n\tgot := %s\n\tn := %s\n\tafter := before + n\n\treturn after\n}\n", c.name, c.name, call("x"), c.f.expr())
	case "unstable":
		return fmt.Sprintf("func %s(x int) int {\n\tnow := time.Now().UnixNano()\n\tbefore := x * 2\n\tgot := %s\n\tn := %s\n\tjitter := now + int64(n)\n\t_ = jitter\n\tafter := before + n\n\treturn after\n}\n", c.name, call("x"), c.f.expr())
	case "early":
		return fmt.Sprintf("func %s(x int) int {\n\tgot := %s\n\tn := %s\n\tif n > %d {\n\t\tbig := n - %d\n\t\treturn big + 0\n\t}\n\trest := n %% 7\n\treturn rest\n}\n", c.name, call("x"), c.f.expr(), c.lim, c.lim)
	case "void":
		return fmt.Sprintf("func %s(x int, p *Box) {\n\tgot := %s\n\tp.V = %s\n\tp.N++\n}\n", c.name, call("x"), c.f.expr())
	case "err":
		return fmt.Sprintf("func %s(x int) (int, error) {\n\tv, err := %s\n\tif err != nil {\n\t\treturn 0, fmt.Errorf(\"wrapped: %%w\", err)\n\t}\n\treturn v + 1, nil\n}\n", c.name, call("x"))
	case "loop":
		return fmt.Sprintf("func %s(x int) []int {\n\tvar all []int\n\tfor i := 0; i < x%%4+1; i++ {\n\t\tgot := %s\n\t\tall = append(all, %s)\n\t}\n\treturn all\n}\n", c.name, call("i"), c.f.expr())
	case "closure":
		return fmt.Sprintf("type t%s int\n\nfunc %s(x int) int {\n\tf := func(y t%s) int {\n\t\tgot := %s\n\t\treturn %s\n\t}\n\ta := f(t%s(x))\n\tb := f(t%s(x + 1))\n\treturn a*1000 + b\n}\n", c.name, c.name, c.name, call("int(y)"), c.f.expr(), c.name, c.name) // types of their own: calls of values are judged by type
	case "goroutine":
		return fmt.Sprintf("type t%s int\n\nfunc %s(x int) int {\n\tch := make(chan int)\n\tgo func(y t%s) {\n\t\tgot := %s\n\t\tch <- %s\n\t}(t%s(x))\n\tv := <-ch\n\treturn v\n}\n", c.name, c.name, c.name, call("int(y)"), c.f.expr(), c.name)
	case "method":
		return fmt.Sprintf("func (s *Svc) %s(x int) (res int) {\n\tgot := %s\n\ts.Total += %s\n\tres = s.Total\n\treturn\n}\n", c.name, call("x"), c.f.expr())
	case "generic":
		return fmt.Sprintf("func %s[T any](x int, t T) (T, int) {\n\tgot := %s\n\tn := %s\n\treturn t, n\n}\n", c.name, call("x"), c.f.expr())
	case "recover":
		return fmt.Sprintf("func %s(x int) (n int, err error) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\terr = fmt.Errorf(\"recovered: %%v\", r)\n\t\t}\n\t}()\n\tgot := %s\n\treturn %s + 1, nil\n}\n", c.name, call("x"), c.f.expr())
	}
	panic(c.tmpl)
}

// use is a statement of a test calling it.
func (c *c25Caller) use(x string) string {
	switch c.tmpl {
	case "void":
		return c.name + "(" + x + ", &Box{})"
	case "method":
		return "(&Svc{})." + c.name + "(" + x + ")"
	case "generic":
		return c.name + "(" + x + ", \"t\")"
	}
	return c.name + "(" + x + ")"
}

type c25Call struct {
	c *c25Caller
	x int
}

type c25Test struct {
	name  string
	pkg   int
	calls []c25Call
	form  string // plain, table, sub, helper
	check *c25Call
	fails bool
}

func (t *c25Test) source() string {
	var b strings.Builder
	helper := ""
	if t.form == "helper" {
		helper = "run" + t.name
		fmt.Fprintf(&b, "type %sArg struct{}\n\nfunc %s(%sArg) {\n", helper, helper, helper)
	} else {
		fmt.Fprintf(&b, "func %s(t *testing.T) {\n", t.name)
	}
	for i := 0; i < len(t.calls); {
		j := i
		for j < len(t.calls) && t.calls[j].c == t.calls[i].c {
			j++
		}
		c := t.calls[i].c
		var xs []string
		for _, k := range t.calls[i:j] {
			xs = append(xs, fmt.Sprint(k.x))
		}
		switch t.form {
		case "table":
			fmt.Fprintf(&b, "\tfor _, x := range []int{%s} {\n\t\t%s\n\t}\n", strings.Join(xs, ", "), c.use("x"))
		case "sub":
			fmt.Fprintf(&b, "\tfor _, x := range []int{%s} {\n\t\tt.Run(\"x\", func(t *testing.T) {\n\t\t\t%s\n\t\t})\n\t}\n", strings.Join(xs, ", "), c.use("x"))
		default:
			for _, x := range xs {
				fmt.Fprintf(&b, "\t%s\n", c.use(x))
			}
		}
		i = j
	}
	if helper != "" {
		fmt.Fprintf(&b, "}\n\nfunc %s(t *testing.T) {\n\t%s(%sArg{})\n", t.name, helper, helper)
	}
	if t.check != nil {
		w := &c25World{frames: map[string][]c25Frame{}, panics: map[string]int{}}
		fmt.Fprintf(&b, "\tif got := %s(%d); got != %d {\n\t\tt.Fatalf(\"got %%d\", got)\n\t}\n", t.check.c.name, t.check.x, w.eval(t.check.c, t.check.x, ""))
	}
	if t.fails {
		b.WriteString("\tt.Error(\"always\")\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// What an analysis found.
type c25Facts struct {
	changed     []string
	callers     []string
	callerOf    map[string][]string
	reachable   []string
	tests       []string
	reached     int
	skipped     int
	checks      int
	same, diff  int
	reports     map[string]TestReport
	reportCalls int
}

type c25Changes struct {
	ModuleChangeProvider
	f *c25Facts
}

func (p c25Changes) AnalyzeModuleChanges(config Config, ex bool, l []*ModuleChange, r int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	a, b, err := p.ModuleChangeProvider.AnalyzeModuleChanges(config, ex, l, r)
	for _, fs := range a {
		for _, f := range fs {
			p.f.changed = append(p.f.changed, f.FunctionIdent)
		}
	}
	sort.Strings(p.f.changed)
	return a, b, err
}

type c25Callers struct {
	CallerAnalysisProvider
	f *c25Facts
}

func (p c25Callers) PerformCallerStaticAnalysis(config Config, mc []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	a, b, err := p.CallerAnalysisProvider.PerformCallerStaticAnalysis(config, mc)
	p.f.callerOf = map[string][]string{}
	for _, c := range a {
		p.f.callers = append(p.f.callers, c.FunctionName)
		for _, ch := range c.ChangeFunctions {
			p.f.callerOf[c.FunctionName] = append(p.f.callerOf[c.FunctionName], ch.FunctionName)
		}
		sort.Strings(p.f.callerOf[c.FunctionName])
	}
	sort.Strings(p.f.callers)
	for _, m := range b {
		p.f.reachable = append(p.f.reachable, m.FunctionName)
	}
	sort.Strings(p.f.reachable)
	return a, b, err
}

type c25Report struct {
	ReportWriter
	f *c25Facts
}

func (p c25Report) WriteReportFiles(jsonPath, chartPath string, startTime time.Time,
	analysisTime, testDiscoveryTime, testExecutionTime, mutationTime time.Duration,
	changedModules []*ModuleChange, checkedModules []string, moduleChangeCount, moduleChangesReachedInTesting, untrackedModuleFuncs, projectFieldChecks int,
	callingFunctions []*CallerFunction, testFunctions []*TestFunction, sameCount, diffCount int,
	testReports []TestReport, globalMutations MutationResult) error {
	p.f.reportCalls++
	for _, t := range testFunctions {
		p.f.tests = append(p.f.tests, t.FunctionName)
	}
	sort.Strings(p.f.tests)
	p.f.reached, p.f.skipped, p.f.checks, p.f.same, p.f.diff = moduleChangesReachedInTesting, untrackedModuleFuncs, projectFieldChecks, sameCount, diffCount
	p.f.reports = map[string]TestReport{}
	for _, r := range testReports {
		p.f.reports[r.OriginalResult.TestFunction.FunctionName] = r
	}
	if len(p.f.changed) != moduleChangeCount {
		return errors.New("harness: changed count differs")
	}
	return p.ReportWriter.WriteReportFiles(jsonPath, chartPath, startTime, analysisTime, testDiscoveryTime, testExecutionTime, mutationTime, changedModules, checkedModules, moduleChangeCount, moduleChangesReachedInTesting, untrackedModuleFuncs, projectFieldChecks, callingFunctions, testFunctions, sameCount, diffCount, testReports, globalMutations)
}

func c25Ports() int {
	for p := 21000 + os.Getpid()*8%8000; p < 32000; p += 8 {
		ok := true
		for i := range 8 {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p+i))
			if err != nil {
				ok = false
				break
			}
			_ = l.Close()
		}
		if ok {
			return p
		}
	}
	vfHarnessErr("no free ports")
	return 0
}

// c25GoShim lets "go clean -cache" start over from a cache that only holds the standard library, instead of an empty one:
// compiling it again for every run would take all of the time.
const c25GoShim = `#!/bin/bash
if [ "$1" = clean ]; then
	case " $* " in *" -cache "*)
		rm -rf %[1]s
		cp -a %[2]s %[1]s
		exit 0;;
	esac
fi
exec %[3]s "$@"
`

func TestC25Analysis(t *testing.T) {
	vfRule("analysis: generated module versions (result kinds x changes: none, textual only, always, above a bound, panic; directly, in an internal package, in a transitive module), projects of many caller shapes and tests (plain, tables, subtests, helpers, asserting, failing), analyzed end to end by the engine; non-trivial = some tested caller must be reported and some must not")
	base := vfDir("c25")
	cache, seed, bin := filepath.Join(base, "gocache"), filepath.Join(base, "seed"), filepath.Join(base, "bin")
	proxy, gopath, modcache := mpEnv(base)
	if err := os.Setenv("GOCACHE", seed); err != nil {
		vfHarnessErr("%v", err)
	}
	// fill the seed: the standard library packages which a test with the monitor client uses
	prime := filepath.Join(base, "prime")
	vfWrite(filepath.Join(prime, "go.mod"), "module example.com/prime\n\ngo 1.24\n")
	vfWrite(filepath.Join(prime, "p.go"), "package prime\n\nimport (\n\t\"fmt\"\n\t\"time\"\n)\n\nfunc P() { fmt.Println(time.Now()) }\n")
	vfWrite(filepath.Join(prime, "p_test.go"), "package prime\n\nimport \"testing\"\n\nfunc TestP(t *testing.T) {}\n")
	ed := &ASTModifier{}
	if err := ed.InjectASTClient(prime, 0, 5, 100); err != nil {
		t.Fatalf("client: %v", err)
	}
	mpGo(prime, nil, "test", ".")
	real := strings.TrimSpace(mpGo(prime, nil, "env", "GOROOT")) + "/bin/go"
	vfWrite(filepath.Join(bin, "go"), fmt.Sprintf(c25GoShim, cache, seed, real))
	if err := os.Chmod(filepath.Join(bin, "go"), 0o755); err != nil {
		vfHarnessErr("%v", err)
	}
	_ = os.Setenv("GOCACHE", cache)
	_ = os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	tmp := filepath.Join(base, "tmp")
	if err := os.MkdirAll(tmp, 0o755); err != nil {
		vfHarnessErr("%v", err)
	}
	_ = os.Setenv("TMPDIR", tmp)
	k := 0
	vfRun(t, 12, 150, func(rt *rapid.T) {
		k++
		c25Case(rt, base, proxy, gopath, modcache, tmp, k)
	})
}

func c25Case(rt *rapid.T, base, proxy, gopath, modcache, tmp string, k int) {
	depMod, otherMod := fmt.Sprintf("example.com/dep%d", k), fmt.Sprintf("example.com/other%d", k)

	// the module
	var funcs []*c25Func
	hasOther := false
	for i := range rapid.IntRange(4, 12).Draw(rt, "funcs") {
		f := &c25Func{name: fmt.Sprintf("F%d", i), kind: rapid.SampledFrom([]string{"int", "int", "str", "slice", "rec", "ptr", "map", "err"}).Draw(rt, "kind"),
			via:    rapid.SampledFrom([]string{"direct", "direct", "in", "other"}).Draw(rt, "via"),
			change: rapid.SampledFrom([]string{"none", "text", "always", "always", "above", "above", "panic"}).Draw(rt, "change"),
			a:      rapid.IntRange(1, 9).Draw(rt, "a"), b: rapid.IntRange(0, 90).Draw(rt, "b"), d: rapid.IntRange(1, 9).Draw(rt, "d"), lim: rapid.IntRange(0, 5).Draw(rt, "lim")}
		if f.kind == "err" && f.change == "panic" {
			f.change = "always"
		}
		hasOther = hasOther || f.via == "other"
		funcs = append(funcs, f)
	}
	files := map[bool]map[string]string{}
	otherSrc := map[bool]string{}
	for _, neu := range []bool{false, true} {
		var d, in, other strings.Builder
		for _, f := range funcs {
			a, b, c := f.source(neu)
			d.WriteString(a)
			in.WriteString(b)
			other.WriteString(c)
		}
		imports := "import (\n\t\"fmt\"\n"
		tail := "var _ = fmt.Sprint\n\ntype Sub struct{ V int }\n\ntype Rec struct {\n\tA int\n\tB Sub\n}\n\n"
		mod := "module " + depMod + "\n\ngo 1.24\n"
		v := "v1.0.0"
		if neu {
			v = "v1.1.0"
		}
		if hasOther {
			imports += "\t\"" + otherMod + "\"\n"
			mod += "\nrequire " + otherMod + " " + v + "\n"
			otherSrc[neu] = "package other\n\n" + other.String()
		}
		imports += "\t\"" + depMod + "/in\"\n)\n\nvar _ = in.Zero\n\n"
		files[neu] = map[string]string{"go.mod": mod, "d.go": "package dep\n\n" + imports + tail + d.String() + fmt.Sprintf("type lonely struct{}\n\nfunc Lonely(lonely) bool { return %t }\n", neu), "in/in.go": "package in\n\nconst Zero = 0\n\n" + in.String()}
		if hasOther {
			otherImport := strings.Replace(files[neu]["d.go"], "\""+otherMod+"\"", "other \""+otherMod+"\"", 1)
			files[neu]["d.go"] = otherImport
			mpPublish(proxy, otherMod, v, map[string]string{"go.mod": "module " + otherMod + "\n\ngo 1.24\n", "o.go": otherSrc[neu]})
		}
		mpPublish(proxy, depMod, v, files[neu])
	}

	// the project
	workspace := rapid.IntRange(0, 2).Draw(rt, "workspace") == 0
	dirs := []string{"", "sub"}
	var callers []*c25Caller
	byName := map[string]*c25Caller{}
	for i := range rapid.IntRange(4, 14).Draw(rt, "callers") {
		c := &c25Caller{name: fmt.Sprintf("C%d", i), pkg: rapid.IntRange(0, 1).Draw(rt, "pkg"), f: rapid.SampledFrom(funcs).Draw(rt, "callee"), lim: rapid.IntRange(0, 60).Draw(rt, "limit")}
		tm := []string{"direct", "direct", "unstable", "early", "void", "loop", "closure", "goroutine", "method", "generic", "recover"}
		if c.f.change == "panic" {
			tm = []string{"recover"}
		} else if c.f.kind == "err" {
			tm = []string{"err"}
		}
		var inner []*c25Caller
		for _, o := range callers {
			if o.pkg == c.pkg && slices.Contains([]string{"direct", "early", "chain", "unstable"}, o.tmpl) {
				inner = append(inner, o)
			}
		}
		c.tmpl = rapid.SampledFrom(tm).Draw(rt, "template")
		if len(inner) > 0 && rapid.IntRange(0, 3).Draw(rt, "chain") == 0 {
			c.tmpl, c.inner = "chain", rapid.SampledFrom(inner).Draw(rt, "inner")
			c.f = c.inner.f
		}
		c.f.used = true
		callers = append(callers, c)
		byName[c.name] = c
	}
	var tests []*c25Test
	for i := range rapid.IntRange(1, 7).Draw(rt, "tests") {
		tt := &c25Test{name: fmt.Sprintf("Test%d", i), pkg: rapid.IntRange(0, 1).Draw(rt, "tpkg"), form: rapid.SampledFrom([]string{"plain", "table", "sub", "helper"}).Draw(rt, "form"), fails: rapid.IntRange(0, 9).Draw(rt, "fails") == 0}
		seen := map[*c25Caller]bool{}
		var own, checkable []*c25Caller
		for _, c := range callers {
			if c.pkg == tt.pkg {
				own = append(own, c)
				if c.tmpl == "direct" || c.tmpl == "chain" || c.tmpl == "early" {
					checkable = append(checkable, c)
				}
			}
		}
		for range rapid.IntRange(0, 5).Draw(rt, "groups") {
			if len(own) == 0 {
				break
			}
			c := rapid.SampledFrom(own).Draw(rt, "called")
			n := rapid.IntRange(1, 4).Draw(rt, "times")
			if c.tmpl == "recover" {
				n = 1
				if seen[c] {
					continue
				}
			}
			seen[c] = true
			for range n {
				tt.calls = append(tt.calls, c25Call{c, rapid.IntRange(0, 9).Draw(rt, "x")})
			}
		}
		if len(checkable) > 0 && rapid.IntRange(0, 2).Draw(rt, "check") == 0 {
			tt.check = &c25Call{rapid.SampledFrom(checkable).Draw(rt, "checked"), rapid.IntRange(0, 9).Draw(rt, "x")}
		}
		tests = append(tests, tt)
	}
	work := filepath.Join(base, fmt.Sprintf("case%d", k))
	project := filepath.Join(work, "project")
	env := []string{"GOPATH=" + gopath, "GOMODCACHE=" + modcache}
	for p, dir := range dirs {
		var b, tb strings.Builder
		b.WriteString("package app\n\nimport (\n\t\"fmt\"\n\t\"time\"\n\n\tdep \"" + depMod + "\"\n)\n\nvar _, _, _ = fmt.Sprint, time.Now, dep.Rec{}\n\ntype Box struct{ V, N int }\n\ntype Svc struct{ Total int }\n\nfunc plain(x int) int { return x }\n\n")
		tb.WriteString("package app\n\nimport \"testing\"\n\nfunc TestPlain(t *testing.T) { plain(1) }\n\n")
		for _, c := range callers {
			if c.pkg == p {
				b.WriteString(c.source() + "\n")
			}
		}
		for _, tt := range tests {
			if tt.pkg == p {
				tb.WriteString(tt.source() + "\n")
			}
		}
		vfWrite(filepath.Join(project, dir, "a.go"), b.String())
		vfWrite(filepath.Join(project, dir, "a_test.go"), tb.String())
		if p == 0 || workspace {
			vfWrite(filepath.Join(project, dir, "go.mod"), fmt.Sprintf("module example.com/app%s\n\ngo 1.24\n\nrequire %s v1.0.0\n", dir, depMod))
		}
	}
	if workspace {
		vfWrite(filepath.Join(project, "go.work"), "go 1.24\n\nuse (\n\t.\n\t./sub\n)\n")
	}
	mpGo(project, env, "mod", "tidy")
	dl := []string{"mod", "download", depMod + "@v1.0.0", depMod + "@v1.1.0"}
	if hasOther {
		dl = append(dl, otherMod+"@v1.0.0", otherMod+"@v1.1.0")
	}
	mpGo(project, env, dl...)
	if workspace {
		mpGo(filepath.Join(project, "sub"), env, "mod", "tidy")
	}

	// the expectations
	changedFn := func(f *c25Func) string {
		if f.change == "none" {
			return ""
		}
		return map[string]string{"direct": "", "in": "G", "other": "O"}[f.via] + f.name
	}
	wantChanged := []string{"Lonely"}
	var wantReachable, wantCallers []string
	for _, f := range funcs {
		if n := changedFn(f); n != "" {
			wantChanged = append(wantChanged, n)
			if f.used {
				wantReachable = append(wantReachable, n)
			}
		}
	}
	affected := map[string]bool{}
	for _, c := range callers {
		if changedFn(c.f) != "" {
			affected[c.name] = true
			wantCallers = append(wantCallers, c.name)
		}
	}
	sort.Strings(wantChanged)
	sort.Strings(wantReachable)
	sort.Strings(wantCallers)
	var wantTests []string
	mayTests := map[string]bool{}
	reached := map[string]bool{}
	type expect struct {
		changes  map[string]map[string]bool // caller -> variables which differ, "ret!" if the result must be named
		any      bool
		fails    [2]bool
		panicked bool
	}
	wants := map[string]*expect{}
	mustAny, mustNot := false, false
	for _, tt := range tests {
		sel := false
		calls := tt.calls
		if tt.check != nil {
			calls = append(slices.Clone(calls), *tt.check)
		}
		for _, cl := range calls {
			sel = sel || affected[cl.c.name]
		}
		if !sel {
			if tt.check != nil || tt.fails || tt.form == "sub" || slices.ContainsFunc(calls, func(cl c25Call) bool { return cl.c.tmpl == "err" || cl.c.tmpl == "recover" || cl.c.f.usesFmt() }) {
				mayTests[tt.name] = true // the testing package calls function values, such as the subtests of others, and so does fmt, through String methods of the regexp package
			}
			continue
		}
		wantTests = append(wantTests, tt.name)
		ws := [2]*c25World{}
		ex := &expect{changes: map[string]map[string]bool{}}
		for v := range 2 {
			ws[v] = &c25World{neu: v == 1, frames: map[string][]c25Frame{}, panics: map[string]int{}}
			for _, cl := range tt.calls {
				ws[v].eval(cl.c, cl.x, "")
			}
			ex.fails[v] = tt.fails
			if tt.check != nil {
				got := ws[v].eval(tt.check.c, tt.check.x, "check")
				old := (&c25World{frames: map[string][]c25Frame{}, panics: map[string]int{}}).eval(tt.check.c, tt.check.x, "")
				ex.fails[v] = ex.fails[v] || got != old
			}
		}
		for _, cl := range calls {
			if n := changedFn(cl.c.f); n != "" {
				reached[n] = true
			}
		}
		ex.panicked = len(ws[1].panics) > 0
		ex.any = ex.panicked
		for key, olds := range ws[0].frames {
			name := strings.SplitN(key, "|", 2)[0]
			if !affected[name] {
				continue
			}
			news := ws[1].frames[key]
			for i, o := range olds {
				if i >= len(news) {
					ex.any = true
					continue
				}
				for vr, ov := range o {
					nv, ok := news[i][vr]
					if !ok && strings.HasPrefix(vr, "ret") {
						alt := map[string]string{"ret": "ret!", "ret!": "ret"}[vr]
						nv, ok = news[i][alt]
						if nv == ov {
							continue
						}
						ex.any = true
						// named differently on both sides, or equally named by chance
						if ex.changes[name] == nil {
							ex.changes[name] = map[string]bool{}
						}
						ex.changes[name]["ret"] = ex.changes[name]["ret"] || false
						ex.changes[name]["~ret"] = true
						continue
					}
					if !ok {
						ex.any = true
						continue
					}
					if ov != nv {
						ex.any = true
						if ex.changes[name] == nil {
							ex.changes[name] = map[string]bool{}
						}
						if ov == "<nil>" || nv == "<nil>" {
							vr = "?" + vr // nil has no parts which could be compared: a difference, but of no named field
						}
						ex.changes[name][vr] = true
					}
				}
			}
			if len(ex.changes[name]) > 0 {
				mustAny = true
			} else {
				mustNot = true
			}
		}
		wants[tt.name] = ex
	}
	sort.Strings(wantTests)
	if len(wantTests) == 0 {
		reached = map[string]bool{}
	}

	var desc strings.Builder
	fmt.Fprintf(&desc, "workspace=%t", workspace)
	for _, f := range funcs {
		fmt.Fprintf(&desc, " %s:%s/%s/%s", f.name, f.kind, f.via, f.change)
	}
	for _, c := range callers {
		fmt.Fprintf(&desc, " %s:%s(%s)", c.name, c.tmpl, c.f.name)
	}
	for _, tt := range tests {
		fmt.Fprintf(&desc, " %s:%s", tt.name, tt.form)
		for _, cl := range tt.calls {
			fmt.Fprintf(&desc, ",%s(%d)", cl.c.name, cl.x)
		}
		if tt.check != nil {
			fmt.Fprintf(&desc, ",check %s(%d)", tt.check.c.name, tt.check.x)
		}
	}
	vfNote(desc.String())

	cfg := func() *Config {
		return &Config{ProjectDir: project, AstMonitorPort: c25Ports(), MaxFieldRecurse: 5, MaxFieldLen: 4096, CacheMB: 20, MutationScope: "none", MutationMode: "fast", MutationTests: "targeted",
			TimeMultiplier: 100, Gopath: gopath, Gomodcache: modcache, ReportJsonFile: filepath.Join(work, "report.json")}
	}
	how := rapid.SampledFrom([]string{"module", "modules", "gomod"}).Draw(rt, "how")
	if workspace && how == "gomod" {
		how = "gowork"
	}
	if how == "gomod" || how == "gowork" {
		// what an update would give
		other := filepath.Join(work, "updated")
		if err := CopyDir(context.Background(), project, other, nil); err != nil {
			vfHarnessErr("%v", err)
		}
		mpGo(other, env, "get", depMod+"@v1.1.0")
		if workspace {
			mpGo(filepath.Join(other, "sub"), env, "get", depMod+"@v1.1.0")
		}
	}
	tmpCopy := rapid.IntRange(0, 5).Draw(rt, "tmpcopy") == 0
	snap := func() map[string]string {
		out := map[string]string{}
		for _, d := range []string{project, filepath.Join(modcache, "example.com")} {
			for p, s := range c25Tree(d) {
				out[filepath.Join(d, p)] = s
			}
		}
		return out
	}
	defer os.RemoveAll(work)
	attempts := 0
	var run func() *c25Facts
	run = func() *c25Facts {
		f := &c25Facts{}
		c := cfg()
		c.TmpCopy = tmpCopy
		switch how {
		case "module":
			c.ModuleVersionFlag = depMod + "@v1.1.0"
		case "modules":
			c.ModulesVersionFlag = depMod + "@v1.1.0"
		case "gomod":
			c.UpdatedGoModFile = filepath.Join(work, "updated", "go.mod")
		case "gowork":
			c.UpdatedGoWorkFile = filepath.Join(work, "updated", "go.work")
		}
		e := NewAnalysisEngineWithProviders(c, c25Changes{&DefaultModuleChangeProvider{}, f}, c25Callers{&DefaultCallerAnalysisProvider{}, f}, &DefaultTestProvider{}, &DefaultUpdateAnalysisProvider{}, &DefaultMutationTester{}, &DefaultTestResultAnalyzer{}, &DefaultStorageProvider{CacheMB: 20}, c25Report{&DefaultReportWriter{}, f})
		before := snap()
		stdout := os.Stdout // it prints what failing tests print
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
			defer null.Close()
		}
		err := e.Run()
		os.Stdout = stdout
		if err != nil && strings.Contains(err.Error(), "address already in use") && attempts < 5 {
			attempts++ // another process took the port meanwhile
			return run()
		}
		if err != nil {
			rt.Fatalf("the analysis failed: %v\n%s", err, desc.String())
		}
		if d := vfTreeDiff(before, snap()); d != "" {
			rt.Fatalf("project or module cache are not as before:\n%s\n%s", d, desc.String())
		}
		left, _ := os.ReadDir(tmp)
		for _, l := range left {
			if strings.HasPrefix(l.Name(), "patchlens-") || strings.HasPrefix(l.Name(), "lens") {
				rt.Fatalf("left behind: %s", l.Name())
			}
		}
		if f.reportCalls != 1 {
			rt.Fatalf("%d reports", f.reportCalls)
		}
		if _, err := os.Stat(filepath.Join(work, "report.json")); err != nil {
			rt.Fatalf("no report: %v", err)
		}
		return f
	}
	f := run()
	tests1 := slices.Clone(f.tests)

	short := func(ids []string) []string {
		var out []string
		for _, s := range ids {
			out = append(out, s[strings.LastIndexAny(s, ":.)")+1:])
		}
		sort.Strings(out)
		return out
	}
	if got := short(f.changed); !slices.Equal(got, wantChanged) {
		rt.Fatalf("changed functions %v, want %v\n%s", got, wantChanged, desc.String())
	}
	if !slices.Equal(f.callers, wantCallers) || !slices.Equal(f.reachable, wantReachable) {
		rt.Fatalf("callers %v of %v, want %v of %v\n%s", f.callers, f.reachable, wantCallers, wantReachable, desc.String())
	}
	for _, c := range callers {
		if n := changedFn(c.f); n != "" && !slices.Equal(f.callerOf[c.name], []string{n}) {
			rt.Fatalf("%s calls %v, want %s", c.name, f.callerOf[c.name], n)
		}
	}
	f.tests = slices.DeleteFunc(f.tests, func(n string) bool {
		if mayTests[n] {
			if r, ok := f.reports[n]; !ok || r.SameFieldCount+r.DiffFieldCount > 0 {
				rt.Fatalf("%s calls no changed function, but its report is %v: %+v", n, ok, r)
			}
			delete(f.reports, n)
		}
		return mayTests[n]
	})
	if !slices.Equal(f.tests, wantTests) {
		rt.Fatalf("tests %v, want %v\n%s", f.tests, wantTests, desc.String())
	}
	if f.reached != len(reached) || f.skipped != 0 {
		rt.Fatalf("%d changed functions reached by tests and %d skipped, want %v\n%s", f.reached, f.skipped, vfKeys(reached), desc.String())
	}
	if got := vfKeys(f.reports); !slices.Equal(got, wantTests) {
		rt.Fatalf("reports for %v, want %v", got, wantTests)
	}
	same, diff := 0, 0
	found := func(r TestReport) map[string][]string {
		out := map[string][]string{}
		for ident, fields := range r.CallerFieldChanges {
			n := short([]string{ident})[0]
			if byName[n] == nil {
				rt.Fatalf("changes of unknown function %q", ident)
			}
			set := map[string]bool{}
			for fn := range fields {
				set[strings.SplitN(fn, ".", 2)[0]] = true
			}
			out[n] = slices.Sorted(maps.Keys(set))
		}
		return out
	}
	for name, ex := range wants {
		r := f.reports[name]
		same, diff = same+r.SameFieldCount, diff+r.DiffFieldCount
		if r.OriginalResult.TestFailure != ex.fails[0] || r.PostUpdateResult.TestFailure != ex.fails[1] {
			rt.Fatalf("%s failed %t before and %t after, want %v\n%s", name, r.OriginalResult.TestFailure, r.PostUpdateResult.TestFailure, ex.fails, desc.String())
		}
		if want := ex.fails[1] && !ex.fails[0]; (r.TestRegressionCount == 1) != want || r.TestRegressionCount > 1 {
			rt.Fatalf("%s: %d regressions, want %t", name, r.TestRegressionCount, want)
		}
		if (r.DiffFieldCount > 0) != ex.any {
			rt.Fatalf("%s: %d differences, want some: %t (%v)\n%s", name, r.DiffFieldCount, ex.any, r.CallerFieldChanges, desc.String())
		}
		got := found(r)
		for n, vars := range ex.changes {
			for v := range vars {
				if strings.HasPrefix(v, "?") || v == "ret" || v == "~ret" {
					continue
				}
				if v == "ret!" {
					if !slices.ContainsFunc(got[n], func(s string) bool { return strings.HasPrefix(s, "ret") }) {
						rt.Fatalf("%s: the result of %s differs, but only %v is reported\n%s", name, n, got[n], desc.String())
					}
					continue
				}
				if !slices.Contains(got[n], v) {
					rt.Fatalf("%s: %s of %s differs, but only %v is reported\n%s\n%s", name, v, n, got[n], byName[n].source(), desc.String())
				}
			}
		}
		for n, vars := range got {
			for _, v := range vars {
				w := ex.changes[n]
				ok := w[v] || w["?"+v] || v == "recv" && w["?s"] || (strings.HasPrefix(v, "ret")) && (w["ret"] || w["ret!"] || w["~ret"])
				if !ok {
					rt.Fatalf("%s: %s of %s is reported as different, but is not: %v\n%s\n%s", name, v, n, r.CallerFieldChanges, byName[n].source(), desc.String())
				}
			}
		}
	}
	if f.same != same || f.diff != diff {
		rt.Fatalf("totals %d/%d, want %d/%d", f.same, f.diff, same, diff)
	}
	if rapid.IntRange(0, 2).Draw(rt, "again") == 0 && len(wantTests) > 0 {
		g := run()
		for name := range wants {
			if a, b := fmt.Sprint(f.reports[name].CallerFieldChanges), fmt.Sprint(g.reports[name].CallerFieldChanges); a != b {
				rt.Fatalf("%s: the second analysis finds\n%s\nthe first found\n%s", name, b, a)
			}
		}
		if f.reached != g.reached || f.same != g.same || f.diff != g.diff || f.checks != g.checks || !slices.Equal(tests1, g.tests) || !slices.Equal(f.callers, g.callers) {
			rt.Fatalf("the second analysis differs: reached %d/%d same %d/%d diff %d/%d checks %d/%d", f.reached, g.reached, f.same, g.same, f.diff, g.diff, f.checks, g.checks)
		}
	}
	cl := []string{"how:" + how}
	if workspace {
		cl = append(cl, "workspace")
	}
	if tmpCopy {
		cl = append(cl, "tmpcopy")
	}
	vfCase("Analysis", mustAny && mustNot, desc.String(), cl...)
}

// c25Tree is a snapshot with modes.
func c25Tree(dir string) map[string]string {
	out := map[string]string{}
	for p, s := range vfTree(dir) {
		st, err := os.Lstat(filepath.Join(dir, p))
		if err != nil {
			vfHarnessErr("%v", err)
		}
		out[p] = st.Mode().String() + "\n" + s
	}
	return out
}
