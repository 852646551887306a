package lens

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

var c08Files = []string{"./a.go", "./pkg/b.go", "./vendor/x/v.go", "dep@v1.0.0/d.go", "/src/fmt/print.go", "./c.go"}

func c08IsProject(f string) bool {
	return strings.HasPrefix(f, "./") && !strings.HasPrefix(f, "./vendor/")
}

func c08GenStack(t *rapid.T, l string) []StackFrame {
	n := rapid.IntRange(0, 3).Draw(t, l+"n")
	var out []StackFrame
	for i := 0; i < n; i++ {
		out = append(out, StackFrame{File: rapid.SampledFrom(c08Files).Draw(t, l+"f"),
			Line: uint32(rapid.IntRange(1, 3).Draw(t, l+"l")), Function: rapid.SampledFrom([]string{"p.F", "p.G"}).Draw(t, l+"fn")})
	}
	return out
}

func c08GenFrames(t *rapid.T, l string, stacks [][]StackFrame) map[string][]CallFrame {
	out := map[string][]CallFrame{}
	for i := rapid.IntRange(0, 3).Draw(t, l+"idn"); i > 0; i-- {
		id := rapid.SampledFrom(vfIdents).Draw(t, l+"id")
		var fs []CallFrame
		for j := rapid.IntRange(0, 5).Draw(t, l+"fn"); j > 0; j-- {
			fs = append(fs, CallFrame{FieldValues: vfGenFields(t, l, 2, 3), Stack: rapid.SampledFrom(stacks).Draw(t, l+"st"),
				TimeMillis: uint32(rapid.IntRange(0, 6).Draw(t, l+"t"))})
		}
		out[id] = fs
	}
	return out
}

func c08CopyFrames(m map[string][]CallFrame) map[string][]CallFrame {
	if m == nil {
		return nil
	}
	out := map[string][]CallFrame{}
	for k, fs := range m {
		cp := make([]CallFrame, len(fs))
		for i, f := range fs {
			cp[i] = CallFrame{FieldValues: vfCopyFields(f.FieldValues), Stack: append([]StackFrame(nil), f.Stack...), TimeMillis: f.TimeMillis}
		}
		out[k] = cp
	}
	return out
}

func c08PerturbFrames(t *rapid.T, l string, m map[string][]CallFrame, stacks [][]StackFrame) map[string][]CallFrame {
	out := c08CopyFrames(m)
	for _, id := range vfKeys(out) {
		fs := out[id]
		for i := range fs {
			if rapid.IntRange(0, 2).Draw(t, l+"chg") == 0 {
				fs[i].FieldValues = vfPerturb(t, l, fs[i].FieldValues, 2)
			}
			if rapid.IntRange(0, 4).Draw(t, l+"time") == 0 {
				fs[i].TimeMillis = uint32(rapid.IntRange(0, 6).Draw(t, l+"t"))
			}
			// line numbers and foreign frames may differ between runs
			for j := range fs[i].Stack {
				fs[i].Stack[j].Line += uint32(rapid.IntRange(0, 1).Draw(t, l+"line"))
			}
			if rapid.IntRange(0, 4).Draw(t, l+"for") == 0 {
				fs[i].Stack = append([]StackFrame{{File: "/src/rt.go", Line: 1, Function: "rt.X"}}, fs[i].Stack...)
			}
		}
		switch rapid.IntRange(0, 6).Draw(t, l+"op") {
		case 0:
			delete(out, id)
			continue
		case 1:
			if len(fs) > 0 {
				i := rapid.IntRange(0, len(fs)-1).Draw(t, l+"del")
				fs = append(fs[:i], fs[i+1:]...)
			}
		case 2:
			i := rapid.IntRange(0, len(fs)).Draw(t, l+"ins")
			nf := CallFrame{FieldValues: vfGenFields(t, l, 1, 2), Stack: rapid.SampledFrom(stacks).Draw(t, l+"ist"), TimeMillis: uint32(rapid.IntRange(0, 6).Draw(t, l+"it"))}
			fs = append(fs[:i], append([]CallFrame{nf}, fs[i:]...)...)
		case 3:
			if len(fs) > 1 {
				i := rapid.IntRange(0, len(fs)-2).Draw(t, l+"swap")
				fs[i], fs[i+1] = fs[i+1], fs[i]
			}
		}
		out[id] = fs
	}
	if rapid.IntRange(0, 4).Draw(t, l+"addc") == 0 {
		id := rapid.SampledFrom(vfIdents).Draw(t, l+"addid")
		if _, ok := out[id]; !ok {
			out[id] = []CallFrame{{FieldValues: vfGenFields(t, l, 1, 2), TimeMillis: 1}}
		}
	}
	return out
}

// model: path identity is the sequence of (file, function) of the relevant frames.
func c08Path(s []StackFrame, projectOnly bool) string {
	var sb strings.Builder
	for _, f := range s {
		if !projectOnly || c08IsProject(f.File) {
			fmt.Fprintf(&sb, "(%s %s)", f.File, f.Function)
		}
	}
	return sb.String()
}

func c08ModelFields(a, b FieldValues) FieldValues {
	out := FieldValues{}
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			continue
		}
		xl, yl := len(x.Children) == 0, len(y.Children) == 0
		if xl && yl && x.Value == y.Value {
			out[k] = &FieldValue{Value: x.Value}
		} else if !xl && !yl {
			if c := c08ModelFields(x.Children, y.Children); len(c) > 0 {
				out[k] = &FieldValue{Children: c}
			}
		}
	}
	return out
}

func c08ByTime(fs []CallFrame) []CallFrame {
	out := append([]CallFrame(nil), fs...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].TimeMillis < out[j].TimeMillis })
	return out
}

func c08ModelFrames(a, b map[string][]CallFrame, projectOnly bool) (map[string][]CallFrame, int) {
	out := map[string][]CallFrame{}
	matched := 0
	for id, fa := range a {
		fb, ok := b[id]
		if !ok {
			continue
		}
		nth := map[string]int{}
		sb := c08ByTime(fb)
		res := []CallFrame{}
		for _, x := range c08ByTime(fa) {
			p := c08Path(x.Stack, projectOnly)
			k := nth[p]
			nth[p]++
			for _, y := range sb {
				if c08Path(y.Stack, projectOnly) != p {
					continue
				}
				if k > 0 {
					k--
					continue
				}
				res = append(res, CallFrame{FieldValues: c08ModelFields(x.FieldValues, y.FieldValues), Stack: x.Stack, TimeMillis: x.TimeMillis})
				matched++
				break
			}
		}
		out[id] = res
	}
	return out, matched
}

func c08ModelPanics(a, b map[string][]string) map[string][]string {
	out := map[string][]string{}
	for id, la := range a {
		left := append([]string(nil), b[id]...)
		for _, m := range la {
			for i, n := range left {
				if n == m {
					out[id] = append(out[id], m)
					left = append(left[:i], left[i+1:]...)
					break
				}
			}
		}
	}
	return out
}

// callers and panic lists with nothing in them are the same as absent ones
func c08Norm(r TestResult) TestResult {
	for _, m := range []map[string][]CallFrame{r.CallerResults, r.ExtensionFrames} {
		for k, v := range m {
			if len(v) == 0 {
				delete(m, k)
			}
		}
	}
	for _, m := range []map[string][]string{r.ProjectPanics, r.ModulePanics} {
		for k, v := range m {
			if len(v) == 0 {
				delete(m, k)
			}
		}
	}
	return r
}

func TestC08Stable(t *testing.T) {
	vfRule("pairs of runs of one test, the second a perturbation of the first (values, missing/extra/reordered calls and callers, line and library frame noise); non-trivial when at least one call matches and the runs differ")
	vfRun(t, 20000, 300000, func(rt *rapid.T) {
		stacks := [][]StackFrame{nil, c08GenStack(rt, "s1"), c08GenStack(rt, "s2"), c08GenStack(rt, "s3")}
		r1 := TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "m.TestA", FunctionName: "TestA"},
			CallerResults: c08GenFrames(rt, "c", stacks), ExtensionFrames: c08GenFrames(rt, "e", stacks),
			ProjectPanics: vfGenPanics(rt, "pp"), ModulePanics: vfGenPanics(rt, "mp"),
			ModuleChangesHit: rapid.IntRange(0, 9).Draw(rt, "hit"), TestFailure: rapid.Bool().Draw(rt, "f1")}
		r2 := TestResult{TestFunction: r1.TestFunction, CallerResults: c08PerturbFrames(rt, "pc", r1.CallerResults, stacks),
			ExtensionFrames: c08PerturbFrames(rt, "pe", r1.ExtensionFrames, stacks),
			ProjectPanics:   r1.ProjectPanics, ModulePanics: r1.ModulePanics,
			ModuleChangesHit: r1.ModuleChangesHit, TestFailure: rapid.Bool().Draw(rt, "f2")}
		if rapid.Bool().Draw(rt, "pd") {
			r2.ProjectPanics = vfGenPanics(rt, "pp2")
			r2.ModulePanics = vfGenPanics(rt, "mp2")
		}
		want := TestResult{TestFunction: r1.TestFunction, ModuleChangesHit: r1.ModuleChangesHit, TestFailure: r1.TestFailure || r2.TestFailure,
			ProjectPanics: c08ModelPanics(r1.ProjectPanics, r2.ProjectPanics), ModulePanics: c08ModelPanics(r1.ModulePanics, r2.ModulePanics)}
		var m1, m2 int
		want.CallerResults, m1 = c08ModelFrames(r1.CallerResults, r2.CallerResults, true)
		want.ExtensionFrames, m2 = c08ModelFrames(r1.ExtensionFrames, r2.ExtensionFrames, false)
		desc := vfCanonResult(r1) + "\n   vs " + vfCanonResult(r2)
		vfCase("stable", m1+m2 > 0 && vfCanonResult(r1) != vfCanonResult(r2), desc)
		in1 := TestResult{TestFunction: r1.TestFunction, CallerResults: c08CopyFrames(r1.CallerResults), ExtensionFrames: c08CopyFrames(r1.ExtensionFrames), ProjectPanics: r1.ProjectPanics, ModulePanics: r1.ModulePanics, ModuleChangesHit: r1.ModuleChangesHit, TestFailure: r1.TestFailure}
		in2 := r2
		in2.CallerResults, in2.ExtensionFrames = c08CopyFrames(r2.CallerResults), c08CopyFrames(r2.ExtensionFrames)
		got := testResultStableFields(in1, in2)
		if g, w := vfCanonResult(c08Norm(got)), vfCanonResult(c08Norm(want)); g != w {
			rt.Fatalf("runs %s\n got %s\nwant %s", desc, g, w)
		}
		// a run compared with itself is entirely stable
		self := testResultStableFields(
			TestResult{TestFunction: r1.TestFunction, CallerResults: c08CopyFrames(r1.CallerResults), ExtensionFrames: c08CopyFrames(r1.ExtensionFrames), ProjectPanics: r1.ProjectPanics, ModulePanics: r1.ModulePanics, ModuleChangesHit: r1.ModuleChangesHit, TestFailure: r1.TestFailure},
			TestResult{TestFunction: r1.TestFunction, CallerResults: c08CopyFrames(r1.CallerResults), ExtensionFrames: c08CopyFrames(r1.ExtensionFrames), ProjectPanics: r1.ProjectPanics, ModulePanics: r1.ModulePanics, ModuleChangesHit: r1.ModuleChangesHit, TestFailure: r1.TestFailure})
		for _, p := range [][2]map[string][]CallFrame{{r1.CallerResults, self.CallerResults}, {r1.ExtensionFrames, self.ExtensionFrames}} {
			for id, fs := range p[0] {
				if len(p[1][id]) != len(fs) {
					rt.Fatalf("self comparison lost frames of %s: %d of %d", id, len(p[1][id]), len(fs))
				}
				for i, f := range c08ByTime(fs) {
					if g, w := c08Leaves(p[1][id][i].FieldValues), c08Leaves(f.FieldValues); g != w {
						rt.Fatalf("self comparison changed %s[%d]: %s -> %s", id, i, w, g)
					}
				}
			}
		}
	})
}

func c08Leaves(f FieldValues) string {
	var out []string
	var walk func(p string, m FieldValues)
	walk = func(p string, m FieldValues) {
		for k, v := range m {
			if len(v.Children) > 0 {
				walk(p+"/"+k, v.Children)
			} else {
				out = append(out, fmt.Sprintf("%s/%s=%q", p, k, v.Value))
			}
		}
	}
	walk("", f)
	sort.Strings(out)
	return strings.Join(out, ",")
}
