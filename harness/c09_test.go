package lens

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func c09Flatten(f FieldValues) map[string]string {
	out := map[string]string{}
	var walk func(p string, m FieldValues)
	walk = func(p string, m FieldValues) {
		for k, v := range m {
			if len(v.Children) > 0 {
				walk(p+k+".", v.Children)
			} else {
				out[p+k] = v.Value
			}
		}
	}
	walk("", f)
	return out
}

type c09Expect struct {
	same, diff, regress int
	changed             map[string]map[string][][2]string // caller -> field -> differing value pairs
	times               map[string][][2]uint32            // caller -> qualifying (pre, post) intervals
	failPre, failPost   bool
}

func c09Model(pre, post TestResult, mult uint32) c09Expect {
	e := c09Expect{changed: map[string]map[string][][2]string{}, times: map[string][][2]uint32{}, failPre: pre.TestFailure, failPost: post.TestFailure}
	for id, frames := range pre.CallerResults {
		nth := map[string]int{}
		var lastPre, lastPost uint32
		for _, f := range frames {
			p := c08Path(f.Stack, true)
			k := nth[p]
			nth[p]++
			var m *CallFrame
			for i := range post.CallerResults[id] {
				if c08Path(post.CallerResults[id][i].Stack, true) == p {
					if k == 0 {
						m = &post.CallerResults[id][i]
						break
					}
					k--
				}
			}
			a := c09Flatten(f.FieldValues)
			if m == nil {
				e.diff += len(a)
				continue
			}
			b := c09Flatten(m.FieldValues)
			for n, v := range a {
				w, ok := b[n]
				switch {
				case !ok:
					e.diff++
				case v == w:
					e.same++
				default:
					e.diff++
					if e.changed[id] == nil {
						e.changed[id] = map[string][][2]string{}
					}
					e.changed[id][n] = append(e.changed[id][n], [2]string{v, w})
				}
			}
			if f.TimeMillis > 0 && m.TimeMillis > 0 && f.TimeMillis >= lastPre && m.TimeMillis >= lastPost {
				pi, qi := f.TimeMillis-lastPre, m.TimeMillis-lastPost
				if qi > mult*max(1, pi) || pi > mult*max(1, qi) {
					e.times[id] = append(e.times[id], [2]uint32{pi, qi})
				}
			}
			lastPre, lastPost = f.TimeMillis, m.TimeMillis
		}
	}
	for _, pp := range [][2]map[string][]string{{pre.ProjectPanics, post.ProjectPanics}, {pre.ModulePanics, post.ModulePanics}} {
		ids := map[string]bool{}
		for k := range pp[0] {
			ids[k] = true
		}
		for k := range pp[1] {
			ids[k] = true
		}
		for id := range ids {
			n := map[string]int{}
			for _, m := range pp[0][id] {
				n[m]++
			}
			for _, m := range pp[1][id] {
				n[m]--
			}
			for _, c := range n {
				if c < 0 {
					c = -c
				}
				e.diff += c
			}
		}
	}
	if !pre.TestFailure && post.TestFailure {
		e.regress = 1
	}
	return e
}

func c09Times(t *rapid.T, l string, m map[string][]CallFrame) {
	for _, id := range vfKeys(m) {
		cur := uint32(rapid.IntRange(0, 50).Draw(t, l+"t0"))
		for i := range m[id] {
			cur += uint32(rapid.SampledFrom([]int{0, 1, 2, 3, 10, 40, 400, 5000}).Draw(t, l+"dt"))
			m[id][i].TimeMillis = cur
		}
	}
}

func c09Gen(rt *rapid.T, l string) (TestResult, TestResult) {
	stacks := [][]StackFrame{nil, c08GenStack(rt, l+"s1"), c08GenStack(rt, l+"s2")}
	pre := TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "m.Test" + l, FunctionName: "Test" + l},
		CallerResults: c08GenFrames(rt, l+"c", stacks), ProjectPanics: vfGenPanics(rt, l+"pp"), ModulePanics: vfGenPanics(rt, l+"mp"),
		ModuleChangesHit: rapid.IntRange(0, 9).Draw(rt, l+"hit"), TestFailure: rapid.Bool().Draw(rt, l+"f1")}
	c09Times(rt, l+"a", pre.CallerResults)
	post := pre
	post.TestFailure = rapid.Bool().Draw(rt, l+"f2")
	switch rapid.IntRange(0, 3).Draw(rt, l+"kind") {
	case 0: // identical
		post.TestFailure = pre.TestFailure
		post.CallerResults = c08CopyFrames(pre.CallerResults)
	case 1: // only timing
		post.CallerResults = c08CopyFrames(pre.CallerResults)
		c09Times(rt, l+"b", post.CallerResults)
	default:
		post.CallerResults = c08PerturbFrames(rt, l+"p", pre.CallerResults, stacks)
		if rapid.Bool().Draw(rt, l+"bt") {
			c09Times(rt, l+"b", post.CallerResults)
		}
		if rapid.Bool().Draw(rt, l+"pd") {
			post.ProjectPanics = vfGenPanics(rt, l+"pp2")
			post.ModulePanics = vfGenPanics(rt, l+"mp2")
		}
	}
	return pre, post
}

func c09Quiet() func() {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		vfHarnessErr("devnull: %v", err)
	}
	os.Stdout = null
	return func() { os.Stdout = old; _ = null.Close() }
}

func TestC09Compare(t *testing.T) {
	defer c09Quiet()()
	vfRule("sets of tests with stored results before and after, after being a perturbation (values, calls, callers, panics, failures, timing) of before; non-trivial when something differs and something is the same")
	vfRun(t, 8000, 120000, func(rt *rapid.T) {
		preS, postS := NewMemStorage(), NewMemStorage()
		defer preS.Close()
		defer postS.Close()
		mult := rapid.IntRange(1, 10).Draw(rt, "mult")
		want := map[string]c09Expect{}
		pres := map[string]TestResult{}
		var desc []string
		totSame, totDiff := 0, 0
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "tests"); i < n; i++ {
			pre, post := c09Gen(rt, fmt.Sprintf("T%d", i))
			id := pre.TestFunction.FunctionIdent
			where := rapid.IntRange(0, 9).Draw(rt, "where")
			a, err := pre.MarshalMsgpack()
			if err != nil {
				rt.Fatalf("marshal: %v", err)
			}
			b, err := post.MarshalMsgpack()
			if err != nil {
				rt.Fatalf("marshal: %v", err)
			}
			desc = append(desc, fmt.Sprintf("[%d] %s => %s", where, vfCanonResult(pre), vfCanonResult(post)))
			if where != 0 {
				if err := preS.SaveState(id, a); err != nil {
					rt.Fatalf("save: %v", err)
				}
			}
			if where != 1 {
				if err := postS.SaveState(id, b); err != nil {
					rt.Fatalf("save: %v", err)
				}
			}
			if where > 1 {
				e := c09Model(pre, post, uint32(mult))
				want[id] = e
				pres[id] = pre
				totSame += e.same
				totDiff += e.diff
			}
		}
		vfCase("compare", totSame > 0 && totDiff > 0, strings.Join(desc, "\n"))
		same, diff, reports, err := (&DefaultTestResultAnalyzer{}).CompareTestResults(preS, postS, mult)
		fail := func(f string, a ...any) {
			rt.Fatalf("%s\nmult=%d\n%s", fmt.Sprintf(f, a...), mult, strings.Join(desc, "\n"))
		}
		if err != nil {
			fail("error: %v", err)
		}
		if same != totSame || diff != totDiff {
			fail("totals: same %d want %d, diff %d want %d", same, totSame, diff, totDiff)
		}
		if len(reports) != len(want) {
			fail("%d reports, want one for each of the %d tests with both results", len(reports), len(want))
		}
		seen := map[string]bool{}
		for _, r := range reports {
			id := r.OriginalResult.TestFunction.FunctionIdent
			e, ok := want[id]
			if !ok || seen[id] {
				fail("unexpected or repeated report for %q", id)
			}
			seen[id] = true
			if r.PostUpdateResult.TestFunction.FunctionIdent != id || r.OriginalResult.TestFailure != e.failPre || r.PostUpdateResult.TestFailure != e.failPost ||
				r.OriginalResult.ModuleChangesHit != pres[id].ModuleChangesHit {
				fail("report for %s carries wrong test facts %+v", id, r)
			}
			if r.SameFieldCount != e.same || r.DiffFieldCount != e.diff || r.TestRegressionCount != e.regress {
				fail("%s: same %d/%d diff %d/%d regress %d/%d (got/want)", id, r.SameFieldCount, e.same, r.DiffFieldCount, e.diff, r.TestRegressionCount, e.regress)
			}
			if g, w := c09FieldSet(r.CallerFieldChanges), c09FieldSet(e.changed); g != w {
				fail("%s: changed fields %s want %s", id, g, w)
			}
			for caller, fields := range e.changed {
				for f, pairs := range fields {
					if !c09Describes(r.CallerFieldChanges[caller][f], pairs) {
						fail("%s: %s.%s change %q describes none of %q", id, caller, f, r.CallerFieldChanges[caller][f], pairs)
					}
				}
			}
			for _, c := range vfKeys(e.times) {
				tc, ok := r.CallerTimeChanges[c]
				if !ok {
					fail("%s: time change of %s not reported, intervals %v", id, c, e.times[c])
				}
				found := false
				var best int64
				for _, iv := range e.times[c] {
					best = max(best, int64(iv[1])-int64(iv[0]), int64(iv[0])-int64(iv[1]))
				}
				for _, iv := range e.times[c] {
					if d := int64(iv[1]) - int64(iv[0]); d != best && d != -best {
						continue // not the most significant one
					}
					if iv[0] == tc.PreTimeMs && iv[1] == tc.PostTimeMs && tc.TimeDiff.Milliseconds() == int64(iv[1])-int64(iv[0]) {
						found = true
					}
				}
				if !found {
					fail("%s: time change %+v of %s is none of %v", id, tc, c, e.times[c])
				}
			}
			for c := range r.CallerTimeChanges {
				if _, ok := e.times[c]; !ok {
					fail("%s: time change of %s reported but there is none", id, c)
				}
			}
		}
	})
}

func c09FieldSet[V any](m map[string]map[string]V) string {
	var out []string
	for c, fs := range m {
		for f := range fs {
			out = append(out, c+"#"+f)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// c09Describes: the text names both values of one of the pairs.
func c09Describes(text string, pairs [][2]string) bool {
	for _, p := range pairs {
		if text != "" && strings.Contains(text, c09Shown(p[0])) && strings.Contains(text, c09Shown(p[1])) {
			return true
		}
	}
	return false
}

func c09Shown(v string) string {
	if strings.HasPrefix(v, HashFieldValuePrefix) {
		return v[len(v)-4:]
	}
	return v
}

func TestC09DiffText(t *testing.T) {
	vfRule("value pairs; the explanation is empty exactly for equal values and shows every line present on one side only; non-trivial when the pair differs")
	line := rapid.SampledFrom([]string{"", "a", "b", "longer line", " x", "1"})
	vfRun(t, 10000, 100000, func(rt *rapid.T) {
		gen := func(l string) string {
			s := strings.Join(rapid.SliceOfN(line, 0, 6).Draw(rt, l), "\n")
			if rapid.IntRange(0, 5).Draw(rt, l+"h") == 0 {
				s = HashFieldValuePrefix + s
			}
			return s
		}
		a, b := gen("a"), gen("b")
		if rapid.IntRange(0, 5).Draw(rt, "eq") == 0 {
			b = a
		}
		d := (&DefaultTestResultAnalyzer{}).DiffValues(a, b)
		vfCase("difftext", a != b, fmt.Sprintf("%q %q", a, b))
		if (d == "") != (a == b) {
			rt.Fatalf("DiffValues(%q, %q) = %q", a, b, d)
		}
		if a == b || strings.HasPrefix(a, HashFieldValuePrefix) || strings.HasPrefix(b, HashFieldValuePrefix) {
			return
		}
		la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
		in := func(x string, l []string) bool {
			for _, y := range l {
				if x == y {
					return true
				}
			}
			return false
		}
		for _, x := range la {
			if !in(x, lb) && !strings.Contains(d, x) {
				rt.Fatalf("DiffValues(%q, %q) = %q does not show %q", a, b, d, x)
			}
		}
		for _, x := range lb {
			if !in(x, la) && !strings.Contains(d, x) {
				rt.Fatalf("DiffValues(%q, %q) = %q does not show %q", a, b, d, x)
			}
		}
	})
}
