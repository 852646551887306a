package lens

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"
)

// One analysis outcome, in plain data.
type c20Outcome struct {
	Modules  []ModuleChange
	Checked  []string
	Callers  map[string][]string // caller ident -> changed function idents (with repeats)
	CallDup  []string            // caller idents listed a second time
	Tests    []string            // test names
	Reports  []c20Report
	Changed  int
	Hit      int
	Skipped  int
	Checks   int
	Same     int
	Diff     int
	Mut, Squ int
}

type c20Report struct {
	Name          string
	PreFail, Fail bool
	DiffCount     int
	Hits          int
	Fields        map[string]map[string]string
	Times         map[string]PerformanceTimeChange
}

// A test is named with its package, if that is another one.
func c20Ident(name string) string {
	if strings.Contains(name, "/") {
		return "example.com/proj/" + strings.Replace(name, "/", ".", 1)
	}
	return "example.com/proj/pkg." + name
}

func c20Short(name string) string { return name[strings.Index(name, "/")+1:] }

func c20Gen(t *rapid.T) c20Outcome {
	count := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 500), rapid.IntRange(0, 200000), rapid.Just(0))
	var o c20Outcome
	for i := range rapid.IntRange(0, 4).Draw(t, "modules") {
		m := ModuleChange{Name: fmt.Sprintf("example.com/m%d", i), PriorVersion: "v1.0.0",
			NewVersion: fmt.Sprintf("v1.%d.0", i+1), Indirect: rapid.Bool().Draw(t, "indirect"), GoVersion: "1.21"}
		o.Modules = append(o.Modules, m)
		o.Checked = append(o.Checked, m.Name)
	}
	o.Callers = map[string][]string{}
	funcs := []string{"A", "B", "C", "d", "(T).M", "(*T).P", "g$1"}
	for range rapid.IntRange(0, 6).Draw(t, "callers") {
		id := "example.com/proj." + rapid.SampledFrom(funcs).Draw(t, "caller")
		for range rapid.IntRange(0, 4).Draw(t, "changes") {
			o.Callers[id] = append(o.Callers[id], "example.com/m0."+rapid.SampledFrom(funcs).Draw(t, "change"))
		}
		if _, ok := o.Callers[id]; !ok {
			o.Callers[id] = nil
		}
		if rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
			o.CallDup = append(o.CallDup, id)
		}
	}
	seen := map[string]bool{}
	for range rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 14}).Draw(t, "tests") {
		n := rapid.SampledFrom([]string{"Test", "TestGen_", "TestGen", "Test_"}).Draw(t, "prefix") +
			rapid.SampledFrom([]string{"A", "B", "C", "Dd", "E9", "F", "Gen_", "H"}).Draw(t, "name") +
			strconv.Itoa(rapid.IntRange(0, 3).Draw(t, "n"))
		if len(o.Tests) > 0 && rapid.IntRange(0, 3).Draw(t, "samename") == 0 {
			n = c20Short(rapid.SampledFrom(o.Tests).Draw(t, "other"))
		}
		n = rapid.SampledFrom([]string{"", "", "b/", "sub/"}).Draw(t, "testpkg") + n
		if !seen[n] {
			seen[n] = true
			o.Tests = append(o.Tests, n)
		}
	}
	for _, n := range o.Tests {
		if rapid.IntRange(0, 4).Draw(t, "reported") == 0 {
			continue
		}
		r := c20Report{Name: n, PreFail: rapid.IntRange(0, 4).Draw(t, "prefail") == 0, Fail: rapid.IntRange(0, 3).Draw(t, "fail") == 0,
			Hits: rapid.IntRange(0, 5).Draw(t, "hits"), Fields: map[string]map[string]string{}, Times: map[string]PerformanceTimeChange{}}
		for range rapid.IntRange(0, 4).Draw(t, "fieldcallers") {
			id := "example.com/proj." + rapid.SampledFrom(funcs).Draw(t, "fcaller")
			if r.Fields[id] == nil {
				r.Fields[id] = map[string]string{}
			}
			for range rapid.IntRange(1, 3).Draw(t, "fields") {
				f := rapid.SampledFrom([]string{"x", "y.z", "m[a]", "ret0", "err", "a very long field name that will not fit into the table"}).Draw(t, "field")
				if _, ok := r.Fields[id][f]; !ok {
					r.DiffCount++
				}
				r.Fields[id][f] = rapid.SampledFrom([]string{"1 -> 2", "\t1 -> 2\n", "<nil> & \"q\"", "", "ä→b", "a\nb", " \n"}).Draw(t, "diff")
			}
		}
		for range rapid.IntRange(0, 3).Draw(t, "times") {
			pre, post := uint32(rapid.SampledFrom([]int{0, 1, 7, 500, 3000, 90000}).Draw(t, "pre")), uint32(rapid.SampledFrom([]int{0, 1, 7, 500, 3000, 200000}).Draw(t, "post"))
			r.Times["example.com/proj."+rapid.SampledFrom(funcs).Draw(t, "tcaller")] = PerformanceTimeChange{
				TimeDiff: time.Duration(int64(post)-int64(pre)) * time.Millisecond, PreTimeMs: pre, PostTimeMs: post}
		}
		o.Reports = append(o.Reports, r)
	}
	// a changed function is hit or skipped only if reachable, and reachable only if changed
	reach := map[string]bool{}
	for _, ch := range o.Callers {
		for _, c := range ch {
			reach[c] = true
		}
	}
	o.Changed, o.Checks = len(reach)+count.Draw(t, "changed"), count.Draw(t, "checks")
	o.Hit = rapid.IntRange(0, len(reach)).Draw(t, "hit")
	o.Skipped = rapid.IntRange(0, len(reach)-o.Hit).Draw(t, "skipped")
	o.Same, o.Diff, o.Mut = count.Draw(t, "same"), count.Draw(t, "diff"), count.Draw(t, "mut")
	if o.Mut > 0 {
		o.Squ = rapid.IntRange(0, o.Mut).Draw(t, "squashed")
	}
	return o
}

// c20Args builds fresh inputs; perm orders the lists.
type c20Args struct {
	modules []*ModuleChange
	callers []*CallerFunction
	tests   []*TestFunction
	reports []TestReport
}

func c20Build(o c20Outcome, perm func(n int) []int) c20Args {
	var a c20Args
	for _, i := range perm(len(o.Modules)) {
		m := o.Modules[i]
		a.modules = append(a.modules, &m)
	}
	ids := append(vfKeys(o.Callers), o.CallDup...)
	for _, i := range perm(len(ids)) {
		c := &CallerFunction{Function: Function{FunctionIdent: ids[i], FunctionName: ids[i][strings.LastIndex(ids[i], ".")+1:]}}
		ch := o.Callers[ids[i]]
		for _, j := range perm(len(ch)) {
			c.ChangeFunctions = append(c.ChangeFunctions, &ModuleFunction{Function: Function{FunctionIdent: ch[j]}})
		}
		a.callers = append(a.callers, c)
	}
	for _, i := range perm(len(o.Tests)) {
		a.tests = append(a.tests, &TestFunction{Function: Function{FunctionIdent: c20Ident(o.Tests[i]), FunctionName: c20Short(o.Tests[i])}})
	}
	for _, i := range perm(len(o.Reports)) {
		r := o.Reports[i]
		tf := MinimumTestFunction{FunctionIdent: c20Ident(r.Name), FunctionName: c20Short(r.Name)}
		tr := TestReport{OriginalResult: TestResult{TestFunction: tf, TestFailure: r.PreFail, ModuleChangesHit: r.Hits},
			PostUpdateResult:   TestResult{TestFunction: tf, TestFailure: r.Fail},
			CallerFieldChanges: map[string]map[string]string{}, CallerTimeChanges: map[string]PerformanceTimeChange{}, DiffFieldCount: r.DiffCount}
		for k, m := range r.Fields {
			tr.CallerFieldChanges[k] = map[string]string{}
			for f, v := range m {
				tr.CallerFieldChanges[k][f] = v
			}
		}
		for k, v := range r.Times {
			tr.CallerTimeChanges[k] = v
		}
		a.reports = append(a.reports, tr)
	}
	return a
}

func c20Identity(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// c20Model is the report the outcome must give.
func c20Model(o c20Outcome) ReportMetrics {
	set := map[string]bool{}
	for _, ch := range o.Callers {
		for _, c := range ch {
			set[c] = true
		}
	}
	reach := vfKeys(set)
	callers := vfKeys(o.Callers)
	var tests []string
	gen := 0
	for _, n := range o.Tests {
		tests = append(tests, c20Ident(n))
		if strings.HasPrefix(c20Short(n), "TestGen_") {
			gen++
		}
	}
	sort.Strings(tests)
	m := ReportMetrics{}
	var direct []ModuleChange
	for _, c := range o.Modules {
		if !c.Indirect {
			direct = append(direct, c)
		}
	}
	root := ModuleChange{}
	if len(o.Modules) == 1 {
		root = o.Modules[0]
	} else if len(direct) == 1 {
		root = direct[0]
	}
	m.Module = ModuleMetrics{RootModuleName: root.Name, RootModuleStartVersion: root.PriorVersion, RootModuleUpdateVersion: root.NewVersion,
		ChangedModules: o.Checked, ChangedModuleCount: len(o.Checked), ChangeFuncCount: o.Changed,
		ReachableChangedFunctions: reach, ReachableChangedFuncCount: len(reach), UntrackedModuleFuncCount: o.Skipped}
	v := ValidationMetrics{RelevantProjectFunctions: callers, RelevantProjectFuncCount: len(callers),
		RelevantTestFunctions: tests, RelevantTestFuncCount: len(tests), ProjectFieldCheckPoints: o.Checks,
		ModuleChangeHitInTestCount: o.Hit, TestFieldMatchCount: o.Same, TestFieldDiffCount: o.Diff,
		GeneratedTestFuncCount: gen, MutationCount: o.Mut, MutationsSquashed: o.Squ}
	reps := append([]c20Report(nil), o.Reports...)
	sort.Slice(reps, func(i, j int) bool { return c20Ident(reps[i].Name) < c20Ident(reps[j].Name) })
	for _, r := range reps {
		d := TestDetail{TestFunctionIdent: c20Ident(r.Name), TestFunctionName: c20Short(r.Name), BaselineFailure: r.PreFail,
			PassRegression: !r.PreFail && r.Fail, DiffFieldCount: r.DiffCount, ModuleChangeHitCount: r.Hits,
			FieldChanges: map[string]map[string]string{}}
		for k, f := range r.Fields {
			d.FieldChanges[k] = map[string]string{}
			for n, s := range f {
				d.FieldChanges[k][n] = strings.TrimSpace(s)
			}
		}
		v.TestDetails = append(v.TestDetails, d)
		for _, k := range vfKeys(r.Times) {
			tc := r.Times[k]
			v.PerformanceChanges = append(v.PerformanceChanges, PerformanceChange{TestFunctionIdent: d.TestFunctionIdent, TestFunctionName: c20Short(r.Name),
				CallerIdent: k, TimeDiffMs: int64(tc.PostTimeMs) - int64(tc.PreTimeMs), PreTimeMs: tc.PreTimeMs, PostTimeMs: tc.PostTimeMs})
		}
	}
	m.Validation = v
	return m
}

// c20Canon makes two reports comparable: empty and absent lists are the same.
func c20Canon(m ReportMetrics) string {
	m.GeneratedAt, m.RunDuration = time.Time{}, 0
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		vfHarnessErr("marshal: %v", err)
	}
	var x any
	_ = json.Unmarshal(b, &x)
	var drop func(v any) any
	drop = func(v any) any {
		switch v := v.(type) {
		case map[string]any:
			for k, e := range v {
				e = drop(e)
				if e == nil {
					delete(v, k)
				} else {
					v[k] = e
				}
			}
			if len(v) == 0 {
				return nil
			}
		case []any:
			if len(v) == 0 {
				return nil
			}
			for i := range v {
				v[i] = drop(v[i])
			}
		}
		return v
	}
	b, _ = json.MarshalIndent(drop(x), "", " ")
	return string(b)
}

func c20Write(rt *rapid.T, dir string, o c20Outcome, perm func(int) []int, start time.Time) (ReportMetrics, string, string) {
	a := c20Build(o, perm)
	jp, cp := filepath.Join(dir, "r.json"), filepath.Join(dir, "r.svg")
	_ = os.Remove(jp)
	_ = os.Remove(cp)
	w := &DefaultReportWriter{}
	if err := w.WriteReportFiles(jp, cp, start, 5*time.Second, 4*time.Second, 3*time.Second, 2*time.Second,
		a.modules, o.Checked, o.Changed, o.Hit, o.Skipped, o.Checks, a.callers, a.tests,
		o.Same, o.Diff, a.reports, MutationResult{MutationCount: o.Mut, SquashedCount: o.Squ}); err != nil {
		rt.Fatalf("report not written: %v", err)
	}
	raw := vfRead(jp)
	var got ReportMetrics
	dec := json.NewDecoder(strings.NewReader(raw))
	if err := dec.Decode(&got); err != nil {
		rt.Fatalf("report unreadable: %v", err)
	}
	if !got.GeneratedAt.Equal(start) {
		rt.Fatalf("generated_at %v, want %v", got.GeneratedAt, start)
	}
	if got.RunDuration < 20000 || got.RunDuration > 20000+600000 {
		rt.Fatalf("run_ms %d for a run started 20 s ago", got.RunDuration)
	}
	if got.AnalysisDuration != 5000 || got.TestDiscoveryDuration != 4000 || got.FieldCheckDuration != 3000 || got.MutationDuration != 2000 {
		rt.Fatalf("durations %d %d %d %d, want 5000 4000 3000 2000", got.AnalysisDuration, got.TestDiscoveryDuration, got.FieldCheckDuration, got.MutationDuration)
	}
	got.AnalysisDuration, got.TestDiscoveryDuration, got.FieldCheckDuration, got.MutationDuration = 0, 0, 0, 0
	raw = regexp.MustCompile(`"run_ms": \d+`).ReplaceAllString(raw, "")
	return got, raw, vfRead(cp)
}

var c20Text = regexp.MustCompile(`(?s)<text[^>]*>([^<]*)</text>`)

func c20Texts(svg string) []string {
	var out []string
	for _, m := range c20Text.FindAllStringSubmatch(svg, -1) {
		out = append(out, html.UnescapeString(m[1]))
	}
	return out
}

// c20Label finds the first text ending in suffix after the given title.
func c20Label(texts []string, title, suffix string) (string, bool) {
	on := false
	for _, s := range texts {
		if strings.HasPrefix(s, title) {
			on = true
		} else if on && strings.HasSuffix(s, suffix) {
			return strings.TrimSuffix(s, suffix), true
		}
	}
	return "", false
}

func c20Percent(rt *rapid.T, texts []string, title, suffix string, want float64, less bool) {
	s, ok := c20Label(texts, title, suffix)
	if !ok {
		rt.Fatalf("chart %q shows no %q label: %q", title, suffix, texts)
	}
	v, err := strconv.ParseFloat(strings.ReplaceAll(s, ",", ""), 64)
	if err != nil {
		rt.Fatalf("chart %q label %q: %v", title, s, err)
	}
	if math.Abs(v-want) > 0.11 {
		rt.Fatalf("chart %q shows %s%%, the outcome is %.3f%%", title, s, want)
	}
	if less && v >= 100 {
		rt.Fatalf("chart %q shows %s%% though not everything succeeded", title, s)
	}
}

func c20Charts(rt *rapid.T, o c20Outcome, want ReportMetrics, svg string) {
	if !strings.Contains(svg, "</svg>") {
		rt.Fatalf("chart file is not an SVG document")
	}
	texts := c20Texts(svg)
	reach := float64(want.Module.ReachableChangedFuncCount)
	if want.Module.RootModuleName != "" {
		title := want.Module.RootModuleName + "@" + want.Module.RootModuleStartVersion + "->" + want.Module.RootModuleUpdateVersion
		found := false
		for _, s := range texts {
			found = found || s == title
		}
		if !found {
			rt.Fatalf("chart has no title %q: %q", title, texts)
		}
	}
	if o.Changed > 0 && float64(o.Changed) >= reach {
		c20Percent(rt, texts, "Module Change Impact", "%", 100*reach/float64(o.Changed), false)
	}
	if reach > 0 && float64(o.Hit+o.Skipped) <= reach {
		c20Percent(rt, texts, "Changed Module Function Coverage", "%", 100*float64(o.Hit+o.Skipped)/reach, false)
	}
	if o.Same+o.Diff > 0 {
		c20Percent(rt, texts, "Field Stability", "%", 100*float64(o.Same)/float64(o.Same+o.Diff), o.Diff > 0)
	}
	if o.Mut > 0 {
		c20Percent(rt, texts, "Mutations Squashed", "%", 100*float64(o.Squ)/float64(o.Mut), o.Squ < o.Mut)
	}
	var pre, post float64
	for _, r := range o.Reports {
		for _, tc := range r.Times {
			pre += float64(tc.PreTimeMs)
			post += float64(tc.PostTimeMs)
		}
	}
	if pre > 0 && post <= pre {
		c20Percent(rt, texts, "Performance Change", "% faster", 100-100*post/pre, false)
	} else if pre > 0 && post/pre < 1000 { // larger numbers are shown rounded
		s, ok := c20Label(texts, "Performance Change", "% slower")
		if !ok {
			rt.Fatalf("no slower label: %q", texts)
		}
		if !strings.ContainsAny(s, "kM") {
			c20Percent(rt, texts, "Performance Change", "% slower", 100*post/pre-100, false)
		}
	}
	// the table of risky tests: exactly the regressions and the tests with changed fields
	table := []string{}
	on := false
	for _, s := range texts {
		if s == "Test Name" {
			on = true
		}
		if on {
			table = append(table, s)
		}
	}
	shown := map[string]int{}
	order := []string{}
	for _, s := range table {
		if strings.HasPrefix(s, "Test") && s != "Test Name" {
			shown[s]++
			order = append(order, s)
		}
	}
	risky := map[string][]int{} // ranks of the risky tests of a name
	nrisky := 0
	for _, r := range o.Reports {
		if r.DiffCount > 0 || (!r.PreFail && r.Fail) {
			k := 0
			n := c20Short(r.Name)
			// project tests come before generated ones, and regressions first among them
			if strings.HasPrefix(n, GeneratedTestFunctionPrefix) {
				k = 2
			}
			if r.PreFail || !r.Fail {
				k++
			}
			risky[n] = append(risky[n], k)
			nrisky++
		}
	}
	for n, c := range shown {
		if c > len(risky[n]) {
			rt.Fatalf("risky tests table lists %s %d times, there are %d", n, c, len(risky[n]))
		}
	}
	if len(order) != min(nrisky, 10) {
		rt.Fatalf("risky tests table lists %v of %v", order, vfKeys(risky))
	}
	worst := 0
	for _, n := range order {
		if len(risky[n]) > 1 { // of several tests, it does not say which is meant
			continue
		}
		if risky[n][0] < worst {
			rt.Fatalf("risky tests table lists %s after less risky tests: %v", n, order)
		}
		worst = risky[n][0]
	}
	for n, ks := range risky {
		if shown[n] == 0 && slices.Max(ks) < worst {
			rt.Fatalf("risky tests table leaves out %s in favour of a less risky test: %v", n, order)
		}
	}
}

func TestC20Report(t *testing.T) {
	vfRule("report: a random analysis outcome written by the report writer and read back; non-trivial = at least two callers or two test reports")
	dir := vfDir("c20")
	vfRun(t, 220, 4000, func(rt *rapid.T) {
		o := c20Gen(rt)
		b, _ := json.Marshal(o)
		vfNote(string(b))
		start := time.Now().Add(-20 * time.Second).Round(0)
		want := c20Model(o)
		got, raw, svg := c20Write(rt, dir, o, c20Identity, start)
		if w, g := c20Canon(want), c20Canon(got); w != g {
			rt.Fatalf("report differs from the outcome\nwant %s\ngot  %s", w, g)
		}
		c20Charts(rt, o, want, svg)
		for range rapid.IntRange(1, 2).Draw(rt, "perms") {
			_, raw2, svg2 := c20Write(rt, dir, o, func(n int) []int {
				return rapid.Permutation(c20Identity(n)).Draw(rt, "perm")
			}, start)
			if raw != raw2 {
				rt.Fatalf("the same outcome in another order gives another report\n%s\n---\n%s", raw, raw2)
			}
			if svg != svg2 {
				rt.Fatalf("the same outcome in another order gives another chart: %q vs %q", c20Texts(svg), c20Texts(svg2))
			}
		}
		vfCase("report", len(o.Callers) >= 2 || len(o.Reports) >= 2, string(b))
	})
}

func TestC20ChartsFromReport(t *testing.T) {
	vfRule("charts: any stored report (counts unrelated to each other) rendered to PNG; non-trivial = at least one test detail")
	vfRun(t, 25, 600, func(rt *rapid.T) {
		o := c20Gen(rt)
		m := c20Model(o)
		if rapid.Bool().Draw(rt, "odd") {
			m.Module.ReachableChangedFuncCount = rapid.IntRange(0, m.Module.ChangeFuncCount).Draw(rt, "reach")
			m.Module.RootModuleName = rapid.SampledFrom([]string{"", "m", strings.Repeat("example.com/long/", 20), "<&>"}).Draw(rt, "name")
			m.Validation.ModuleChangeHitInTestCount = rapid.IntRange(0, m.Module.ReachableChangedFuncCount).Draw(rt, "hits")
			m.Module.UntrackedModuleFuncCount = rapid.IntRange(0, m.Module.ReachableChangedFuncCount-m.Validation.ModuleChangeHitInTestCount).Draw(rt, "untracked")
		}
		b, _ := json.Marshal(m)
		vfNote(string(b))
		var back ReportMetrics
		if err := json.Unmarshal(b, &back); err != nil {
			vfHarnessErr("%v", err)
		}
		out, err := RenderReportChartsFromJson(back)
		if err != nil {
			rt.Fatalf("charts not rendered: %v", err)
		}
		img, err := png.Decode(bytes.NewReader(out))
		if err != nil {
			rt.Fatalf("chart is not a PNG image: %v", err)
		}
		if img.Bounds().Dx() < 100 || img.Bounds().Dy() < 100 {
			rt.Fatalf("chart size %v", img.Bounds())
		}
		again, err := RenderReportChartsFromJson(back)
		if err != nil || !bytes.Equal(out, again) {
			rt.Fatalf("rendering the same report twice gives different charts (%v)", err)
		}
		vfCase("charts", len(m.Validation.TestDetails) > 0, string(b))
	})
}

// ---- the engine hands the analysed facts to the report

type c20Engine struct {
	o          c20Outcome
	a          c20Args
	stop       string // where the analysis ends: "", "nochange", "nocaller", "notest"
	fail       string // which stage fails
	calls      []string
	got        []any
	mutArgs    []bool
	store      *c20Store
	pre, post  Storage
	reach      ReachableModuleChange
	radius     int
	transitive bool
}

type c20Store struct {
	Storage
	closed int
}

func (s *c20Store) Close() { s.closed++ }

var c20Boom = errors.New("stage failed on purpose")

func (e *c20Engine) stage(n string) error {
	e.calls = append(e.calls, n)
	if e.fail == n {
		return c20Boom
	}
	return nil
}

func (e *c20Engine) changes() map[string][]*ModuleFunction {
	out := map[string][]*ModuleFunction{}
	for _, n := range e.o.Checked {
		out[n] = nil
	}
	if e.stop != "nochange" {
		for i := range e.o.Changed {
			n := e.o.Checked[i%len(e.o.Checked)]
			out[n] = append(out[n], &ModuleFunction{Function: Function{FunctionIdent: fmt.Sprintf("%s.F%d", n, i)}})
		}
	}
	return out
}

func (e *c20Engine) AnalyzeModuleChanges(_ Config, tr bool, _ []*ModuleChange, radius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	e.transitive, e.radius = tr, radius
	return e.changes(), nil, e.stage("changes")
}

func (e *c20Engine) PerformCallerStaticAnalysis(_ Config, mc []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	if len(mc) != e.o.Changed {
		panic(fmt.Sprintf("caller analysis was given %d of %d changed functions", len(mc), e.o.Changed))
	}
	if e.stop == "nocaller" {
		return nil, nil, e.stage("callers")
	}
	return e.a.callers, e.reach, e.stage("callers")
}

func (e *c20Engine) ProvideTests(_ Config, c []*CallerFunction) ([]*TestFunction, error) {
	if len(c) != len(e.a.callers) {
		panic("test discovery was not given all callers")
	}
	if e.stop == "notest" {
		return nil, e.stage("tests")
	}
	return e.a.tests, e.stage("tests")
}

func (e *c20Engine) RunModuleUpdateAnalysis(_ Config, s Storage, m []*ModuleChange, r ReachableModuleChange, c []*CallerFunction, tf []*TestFunction) (int, int, int, Storage, Storage, error) {
	if s != Storage(e.store) || e.store.closed > 0 || len(c) != len(e.a.callers) || len(tf) != len(e.a.tests) || len(r) != len(e.reach) {
		panic("test execution was not given the analysed functions and an open storage")
	}
	return e.o.Checks, e.o.Hit, e.o.Skipped, e.pre, e.post, e.stage("run")
}

func (e *c20Engine) RunMutationTesting(_ Config, fast, line, targeted bool, mc []*ModuleFunction, tf []*TestFunction) (MutationResult, error) {
	e.mutArgs = []bool{fast, line, targeted}
	if len(mc) != e.o.Changed || len(tf) != len(e.a.tests) {
		panic("mutation testing was not given all changed functions and tests")
	}
	return MutationResult{MutationCount: e.o.Mut, SquashedCount: e.o.Squ}, e.stage("mutation")
}

func (e *c20Engine) CompareTestResults(pre, post Storage, mult int) (int, int, []TestReport, error) {
	if pre != e.pre || post != e.post || e.store.closed > 0 || mult != 7 {
		panic("comparison was given other results, a closed storage or another time multiplier")
	}
	return e.o.Same, e.o.Diff, e.a.reports, e.stage("compare")
}

func (e *c20Engine) NewStorage() (Storage, error) { return e.store, e.stage("storage") }
func (e *c20Engine) Cleanup()                     {}

func (e *c20Engine) WriteReportFiles(jf, cf string, start time.Time, t1, t2, t3, t4 time.Duration,
	cm []*ModuleChange, checked []string, n, hit, skipped, checks int, c []*CallerFunction, tf []*TestFunction,
	same, diff int, tr []TestReport, mu MutationResult) error {
	if e.got != nil {
		panic("report written twice")
	}
	e.got = []any{jf, cf, len(cm), checked, n, hit, skipped, checks, len(c), len(tf), same, diff, len(tr), mu}
	if t1 < 0 || t2 < 0 || t3 < 0 || t4 < 0 || time.Since(start) < 0 {
		panic("negative duration")
	}
	return e.stage("report")
}

func TestC20Engine(t *testing.T) {
	vfRule("engine: the analysis stages replaced by stand-ins returning random outcomes, early ends and failures; non-trivial = every run")
	c09QuietLocal(t)
	dir := vfDir("c20e")
	vfWrite(filepath.Join(dir, "go.mod"), "module example.com/proj\n\ngo 1.21\n\nrequire (\n\texample.com/m0 v1.0.0\n\texample.com/m1 v1.0.0 // indirect\n)\n")
	vfRun(t, 400, 6000, func(rt *rapid.T) {
		o := c20Gen(rt)
		o.Changed = rapid.IntRange(1, 40).Draw(rt, "nchanged")
		if len(o.Checked) == 0 {
			o.Checked = []string{"example.com/m0"}
		}
		if len(o.Callers) == 0 {
			o.Callers["example.com/proj.A"] = []string{"example.com/m0.A"}
		}
		if len(o.Tests) == 0 {
			o.Tests = []string{"TestA"}
		}
		e := &c20Engine{o: o, a: c20Build(o, c20Identity), store: &c20Store{}, pre: NewMemStorage(), post: NewMemStorage(), reach: ReachableModuleChange{"x": nil}}
		e.stop = rapid.SampledFrom([]string{"", "", "", "nochange", "nocaller", "notest"}).Draw(rt, "stop")
		e.fail = rapid.SampledFrom([]string{"", "", "", "", "changes", "callers", "tests", "storage", "run", "mutation", "compare", "report"}).Draw(rt, "fail")
		scope := rapid.SampledFrom([]string{"function", "line", "area", "none"}).Draw(rt, "scope")
		mode := rapid.SampledFrom([]string{"full", "fast"}).Draw(rt, "mode")
		mtests := rapid.SampledFrom([]string{"full", "targeted"}).Draw(rt, "mtests")
		cfg := &Config{ProjectDir: dir, ModuleVersionFlag: "example.com/m0@v1.5.0", ModulesVersionFlag: "example.com/m1@v1.1.0", AstMonitorPort: 44440, MaxFieldRecurse: 3, MaxFieldLen: 100,
			CacheMB: 10, TimeMultiplier: 7, MutationScope: scope, MutationMode: mode, MutationTests: mtests,
			ReportJsonFile: filepath.Join(dir, "out", "r.json"), ReportChartsFile: filepath.Join(dir, "out", "r.png"), Gopath: dir, Gomodcache: dir}
		key := fmt.Sprintf("stop=%q fail=%q scope=%s mode=%s tests=%s changed=%d", e.stop, e.fail, scope, mode, mtests, o.Changed)
		vfNote(key)
		err := NewAnalysisEngineWithProviders(cfg, e, e, e, e, e, e, e, e).Run()
		stages := []string{"changes"}
		n, callers, tests := 0, 0, 0
		want := []any{}
		full := false
		switch e.stop {
		case "nochange":
		case "nocaller":
			stages = append(stages, "callers")
			n = o.Changed
		case "notest":
			stages = append(stages, "callers", "tests")
			n, callers = o.Changed, len(e.a.callers)
		default:
			full = true
			stages = append(stages, "callers", "tests", "storage", "run")
			if scope != "none" {
				stages = append(stages, "mutation")
			}
			stages = append(stages, "compare")
			n, callers, tests = o.Changed, len(e.a.callers), len(e.a.tests)
		}
		checked := append([]string(nil), o.Checked...)
		sort.Strings(checked)
		want = []any{cfg.ReportJsonFile, cfg.ReportChartsFile, 2, checked, n, 0, 0, 0, callers, tests, 0, 0, 0, MutationResult{}}
		if full {
			mu := MutationResult{}
			if scope != "none" {
				mu = MutationResult{MutationCount: o.Mut, SquashedCount: o.Squ}
			}
			want = []any{cfg.ReportJsonFile, cfg.ReportChartsFile, 2, checked, n, o.Hit, o.Skipped, o.Checks, callers, tests, o.Same, o.Diff, len(e.a.reports), mu}
		}
		stages = append(stages, "report")
		failed := false
		for i, s := range stages {
			if s == e.fail {
				stages, failed = stages[:i+1], true
				break
			}
		}
		ran := map[string]int{}
		for _, s := range e.calls {
			ran[s]++
		}
		for _, s := range stages {
			if ran[s] != 1 {
				rt.Fatalf("%s: stage %s ran %d times: %v", key, s, ran[s], e.calls)
			}
		}
		if failed != (err != nil) {
			rt.Fatalf("%s: error %v", key, err)
		}
		reported := e.got != nil
		if failed && e.fail != "report" && reported {
			rt.Fatalf("%s: a report was written although stage %s failed", key, e.fail)
		}
		if !failed && !reflect.DeepEqual(e.got, want) {
			rt.Fatalf("%s: report was given\n%v, analysed were\n%v", key, e.got, want)
		}
		if ran["storage"] > 0 && e.fail != "storage" && e.store.closed == 0 {
			rt.Fatalf("%s: storage left open", key)
		}
		if ran["mutation"] > 0 && !reflect.DeepEqual(e.mutArgs, []bool{mode == "fast", scope == "line" || scope == "area", mtests == "targeted"}) {
			rt.Fatalf("%s: mutation testing was run with fast,line,targeted = %v", key, e.mutArgs)
		}
		if (e.radius > 0) != (scope == "area") || !e.transitive {
			rt.Fatalf("%s: changed lines widened by %d, transitive %v", key, e.radius, e.transitive)
		}
		vfCase("engine", true, key, "stop:"+e.stop, "fail:"+e.fail)
	})
}

func c09QuietLocal(t *testing.T) {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return
	}
	os.Stdout = null
	t.Cleanup(func() { os.Stdout = old; _ = null.Close() })
}
