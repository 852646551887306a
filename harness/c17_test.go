package lens

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// c17Finish waits for the collection to complete and returns its result. The
// optional harness file replaces it by the function the analyzer itself uses.
var c17Finish = func(m *testMonitor) (TestResult, []string) {
	m.wait.Wait()
	return TestResult{CallerResults: m.callerFrames, ExtensionFrames: m.extensionFrames, ProjectPanics: m.projectPanics, ModulePanics: m.modulePanics, ModuleChangesHit: -1}, nil
}

type c17World struct {
	state, ppanic, entry, mpanic, ext map[uint32]*string
	ids                               []uint32 // all ids in use
}

// c17GenWorld: point ids of the five kinds, several state points per function.
func c17GenWorld(rt *rapid.T) *c17World {
	w := &c17World{state: map[uint32]*string{}, ppanic: map[uint32]*string{}, entry: map[uint32]*string{}, mpanic: map[uint32]*string{}, ext: map[uint32]*string{}}
	next := uint32(rapid.IntRange(0, 300).Draw(rt, "first"))
	add := func(m map[uint32]*string, name string) {
		next++
		n := name
		m[next] = &n
		w.ids = append(w.ids, next)
	}
	for i := 0; i < rapid.IntRange(1, 5).Draw(rt, "callers"); i++ {
		for k := rapid.IntRange(1, 3).Draw(rt, "points"); k > 0; k-- {
			add(w.state, fmt.Sprintf("proj:F%d", i))
		}
		add(w.ppanic, fmt.Sprintf("proj:F%d", i))
	}
	for i := 0; i < rapid.IntRange(0, 4).Draw(rt, "mods"); i++ {
		add(w.entry, fmt.Sprintf("mod:M%d", i))
		add(w.mpanic, fmt.Sprintf("mod:M%d", i))
	}
	for i := 0; i < rapid.IntRange(0, 2).Draw(rt, "exts"); i++ {
		add(w.ext, fmt.Sprintf("ext:E%d", i))
	}
	return w
}

type c17Msg struct {
	kind  string // state, point, panic
	id    uint32
	token string
	time  int64
	stack []lensMonitorStackFrame
	nest  bool
}

func (m c17Msg) String() string { return fmt.Sprintf("%s#%d(%s)", m.kind, m.id, m.token) }

const c17Proj, c17Root = "/work/proj", "/usr/lib/go"

var c17Files = []struct{ abs, want string }{{"/work/proj/a.go", "./a.go"}, {"/work/proj/sub/b.go", "./sub/b.go"}, {"/usr/lib/go/src/testing/testing.go", "/src/testing/testing.go"}, {"/root/go/pkg/mod/x.y/z@v1.0.0/z.go", "x.y/z@v1.0.0/z.go"}}

func c17GenMsg(rt *rapid.T, w *c17World, token string) c17Msg {
	m := c17Msg{token: token, time: rapid.Int64Range(0, 5_000_000_000).Draw(rt, "time"), nest: rapid.Bool().Draw(rt, "nest")}
	m.kind = rapid.SampledFrom([]string{"state", "state", "state", "state", "point", "panic"}).Draw(rt, "mkind")
	if rapid.IntRange(0, 9).Draw(rt, "unk") == 0 {
		m.id = rapid.SampledFrom([]uint32{0, 900001, 1<<32 - 1, w.ids[0] - 1, w.ids[len(w.ids)-1] + 1}).Draw(rt, "uid")
	} else if rapid.IntRange(0, 9).Draw(rt, "any") == 0 {
		m.id = rapid.SampledFrom(w.ids).Draw(rt, "anyid") // possibly of another kind
	} else {
		var ids []uint32
		for _, id := range w.ids {
			_, s := w.state[id]
			_, x := w.ext[id]
			_, e := w.entry[id]
			_, p := w.ppanic[id]
			_, q := w.mpanic[id]
			if (m.kind == "state" && (s || x)) || (m.kind == "point" && e) || (m.kind == "panic" && (p || q)) {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			ids = w.ids
		}
		m.id = rapid.SampledFrom(ids).Draw(rt, "id")
	}
	for i := rapid.IntRange(0, 4).Draw(rt, "depth"); i > 0; i-- {
		m.stack = append(m.stack, lensMonitorStackFrame{File: c17Files[rapid.IntRange(0, len(c17Files)-1).Draw(rt, "file")].abs, Function: rapid.SampledFrom([]string{"p.F", "p.G", "testing.tRunner"}).Draw(rt, "fn"), Line: uint(rapid.IntRange(1, 9).Draw(rt, "line"))})
	}
	return m
}

func (m c17Msg) send(h astPointHandler) {
	switch m.kind {
	case "point":
		h.HandleFuncPoint(LensMonitorMessagePoint{PointID: m.id, TimeNS: m.time, Stack: m.stack})
	case "panic":
		h.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: m.id, TimeNS: m.time, Message: m.token})
	default:
		h.HandleFuncPointState(LensMonitorMessagePointState{PointID: m.id, TimeNS: m.time, Stack: m.stack, Fields: m.fields()})
	}
}

func (m c17Msg) fields() []LensMonitorField {
	fs := []LensMonitorField{{Name: "tok", Type: "string", Value: m.token}}
	if m.nest {
		fs = append(fs, LensMonitorField{Name: "s", Type: "p.T", Children: []LensMonitorField{{Name: "a", Type: "string", Value: "in " + m.token}, {Name: "n", Type: "int", Value: int64(len(m.token))}}})
	}
	return fs
}

// c17Frame renders a collected frame.
func c17Frame(f CallFrame) string {
	var sb strings.Builder
	for _, s := range f.Stack {
		fmt.Fprintf(&sb, "%s:%d:%s|", s.File, s.Line, s.Function)
	}
	fmt.Fprintf(&sb, " t=%d %s", f.TimeMillis, c17Fields(f.FieldValues))
	return sb.String()
}

func c17Fields(fv FieldValues) string {
	var parts []string
	for k, v := range fv {
		if v == nil {
			parts = append(parts, k+"=<nil>")
		} else if len(v.Children) > 0 {
			parts = append(parts, k+"={"+c17Fields(v.Children)+"}")
		} else {
			parts = append(parts, k+"="+v.Value)
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, ",")
}

func (m c17Msg) want() string {
	var sb strings.Builder
	for _, s := range m.stack {
		for _, f := range c17Files {
			if f.abs == s.File {
				fmt.Fprintf(&sb, "%s:%d:%s|", f.want, s.Line, s.Function)
			}
		}
	}
	fields := "tok=" + m.token
	if m.nest {
		fields = fmt.Sprintf("s={a=in %s,n=%d},tok=%s", m.token, len(m.token), m.token)
	}
	fmt.Fprintf(&sb, " t=%d %s", (m.time+500_000)/1_000_000, fields)
	return sb.String()
}

// c17Compare checks collected frames (or panics) per function against the
// messages of each goroutine: same multiset, goroutine order kept.
func c17Compare(what string, got map[string][]string, want map[string][][]string) string {
	for ident, seqs := range want {
		var all []string
		for _, s := range seqs {
			all = append(all, s...)
		}
		g := append([]string{}, got[ident]...)
		a := append([]string{}, all...)
		sort.Strings(g)
		sort.Strings(a)
		if strings.Join(g, "\n") != strings.Join(a, "\n") {
			return fmt.Sprintf("%s of %s:\n%s\nwant:\n%s", what, ident, strings.Join(g, "\n"), strings.Join(a, "\n"))
		}
		for gi, s := range seqs {
			i := 0
			for _, x := range got[ident] {
				if i < len(s) && x == s[i] {
					i++
				}
			}
			if i != len(s) {
				return fmt.Sprintf("%s of %s not in the order goroutine %d sent them:\n%s\nsent:\n%s", what, ident, gi, strings.Join(got[ident], "\n"), strings.Join(s, "\n"))
			}
		}
	}
	for ident, g := range got {
		if len(g) > 0 && want[ident] == nil {
			return fmt.Sprintf("%s of %s were never sent: %v", what, ident, g)
		}
	}
	return ""
}

// c17Judge compares a result with the sequences sent by each goroutine.
func c17Judge(w *c17World, seqs [][]c17Msg, res TestResult, reached []string) string {
	wantState, wantExt, wantPP, wantMP := map[string][][]string{}, map[string][][]string{}, map[string][][]string{}, map[string][][]string{}
	hit := map[string]bool{}
	for gi, seq := range seqs {
		put := func(m map[string][][]string, ident, s string) {
			if m[ident] == nil {
				m[ident] = make([][]string, len(seqs))
			}
			m[ident][gi] = append(m[ident][gi], s)
		}
		for _, m := range seq {
			switch m.kind {
			case "state":
				if p, ok := w.ext[m.id]; ok {
					put(wantExt, *p, m.want())
				} else if p, ok := w.state[m.id]; ok {
					put(wantState, *p, m.want())
				}
			case "panic":
				if p, ok := w.ppanic[m.id]; ok {
					put(wantPP, *p, m.token)
				} else if p, ok := w.mpanic[m.id]; ok {
					put(wantMP, *p, m.token)
				}
			case "point":
				if p, ok := w.entry[m.id]; ok {
					hit[*p] = true
				}
			}
		}
	}
	frames := func(in map[string][]CallFrame) map[string][]string {
		out := map[string][]string{}
		for k, fs := range in {
			for _, f := range fs {
				out[k] = append(out[k], c17Frame(f))
			}
		}
		return out
	}
	for _, c := range []struct {
		what string
		got  map[string][]string
		want map[string][][]string
	}{{"calls", frames(res.CallerResults), wantState}, {"extension calls", frames(res.ExtensionFrames), wantExt}, {"project panics", res.ProjectPanics, wantPP}, {"module panics", res.ModulePanics, wantMP}} {
		if d := c17Compare(c.what, c.got, c.want); d != "" {
			return d
		}
	}
	if res.ModuleChangesHit >= 0 {
		if res.ModuleChangesHit != len(hit) {
			return fmt.Sprintf("%d reached changed functions counted, want %d", res.ModuleChangesHit, len(hit))
		}
		if a, b := strings.Join(reached, " "), strings.Join(vfKeys(hit), " "); a != b {
			return fmt.Sprintf("reached changed functions %q, want %q", a, b)
		}
	}
	return ""
}

func c17GenSeqs(rt *rapid.T, w *c17World, maxG, maxN int) (seqs [][]c17Msg, n int) {
	seqs = make([][]c17Msg, rapid.IntRange(1, maxG).Draw(rt, "goroutines"))
	for g := range seqs {
		for i := rapid.IntRange(0, maxN).Draw(rt, "msgs"); i > 0; i-- {
			seqs[g] = append(seqs[g], c17GenMsg(rt, w, fmt.Sprintf("g%d-%d", g, len(seqs[g]))))
			n++
		}
	}
	return
}

func TestC17Concurrent(t *testing.T) {
	vfRule("up to 8 goroutines deliver random sequences of state, point and panic messages (known ids, ids of another kind, unknown ids) to one collector at once; non-trivial = two or more goroutines and 6 or more messages")
	vfRun(t, 1500, 30000, func(rt *rapid.T) {
		w := c17GenWorld(rt)
		seqs, n := c17GenSeqs(rt, w, 8, 12)
		desc := fmt.Sprint(seqs)
		m := newTestMonitor(nil, c17Root, c17Proj, w.state, w.ppanic, w.entry, w.mpanic, w.ext)
		vfCase("concurrent", len(seqs) > 1 && n >= 6, desc)
		var res TestResult
		var reached []string
		vfMustReturn(90*time.Second, "collection did not complete: "+desc, func() {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, s := range seqs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for i, x := range s {
						x.send(m)
						if i%3 == 2 {
							runtime.Gosched()
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			res, reached = c17Finish(m)
		})
		if d := c17Judge(w, seqs, res, reached); d != "" {
			rt.Fatalf("%s\nsent: %s", d, desc)
		}
	})
}

// With baseline results, a call keeps only the fields that were stable in the
// baseline for the same call (k-th call of the function with the same project
// call path); the call itself is still recorded.
func TestC17Stable(t *testing.T) {
	vfRule("a history of state messages collected against baseline results with random frames and field sets; non-trivial = a message loses some but not all fields")
	vfRun(t, 2500, 50000, func(rt *rapid.T) {
		w := c17GenWorld(rt)
		idents := map[string]bool{}
		for _, p := range w.state {
			idents[*p] = true
		}
		stacks := [][]lensMonitorStackFrame{
			{{File: "/work/proj/a.go", Function: "p.F", Line: 3}},
			{{File: "/work/proj/a.go", Function: "p.G", Line: 3}},
			{{File: "/work/proj/a.go", Function: "p.F", Line: 3}, {File: "/usr/lib/go/src/testing/testing.go", Function: "t", Line: 9}},
			{{File: "/work/proj/a.go", Function: "p.F", Line: 3}, {File: "/work/proj/a_test.go", Function: "p.T", Line: 8}},
		}
		trimmed := func(i int) []StackFrame {
			var out []StackFrame
			for _, f := range stacks[i] {
				for _, c := range []struct{ abs, want string }{{"/work/proj/a.go", "./a.go"}, {"/work/proj/a_test.go", "./a_test.go"}, {"/usr/lib/go/src/testing/testing.go", "/src/testing/testing.go"}} {
					if c.abs == f.File {
						out = append(out, StackFrame{File: c.want, Function: f.Function, Line: uint32(f.Line)})
					}
				}
			}
			return out
		}
		pathKey := []int{0, 1, 0, 2} // stacks 0 and 2 differ only outside the project
		names := []string{"tok", "s", "x"}
		type sf struct {
			path   int
			fields map[string]bool
		}
		stable := map[string][]sf{}
		base := map[string][]CallFrame{}
		for _, id := range vfKeys(idents) {
			if rapid.IntRange(0, 4).Draw(rt, "absent") == 0 {
				continue
			}
			base[id] = nil
			for k := rapid.IntRange(0, 4).Draw(rt, "sframes"); k > 0; k-- {
				st := rapid.IntRange(0, 3).Draw(rt, "sstack")
				e := sf{pathKey[st], map[string]bool{}}
				fv := FieldValues{}
				for _, n := range names {
					if rapid.Bool().Draw(rt, "keep") {
						e.fields[n] = true
						fv[n] = &FieldValue{Value: "old"}
					}
				}
				stable[id] = append(stable[id], e)
				base[id] = append(base[id], CallFrame{Stack: trimmed(st), FieldValues: fv})
			}
		}
		m := newTestMonitor(&monitorStableResults{caller: base}, c17Root, c17Proj, w.state, w.ppanic, w.entry, w.mpanic, w.ext)
		var ids []uint32
		for _, id := range w.ids {
			if w.state[id] != nil {
				ids = append(ids, id)
			}
		}
		want := map[string][]string{}
		seen := map[string]int{}
		partial := false
		var desc []string
		for i := 0; i < rapid.IntRange(1, 10).Draw(rt, "n"); i++ {
			id := rapid.SampledFrom(ids).Draw(rt, "id")
			st := rapid.IntRange(0, 3).Draw(rt, "stack")
			msg := c17Msg{kind: "state", id: id, token: fmt.Sprint("m", i), nest: true, stack: stacks[st]}
			msg.send(m)
			ident := *w.state[id]
			desc = append(desc, fmt.Sprintf("%s/%d", ident, st))
			k := fmt.Sprint(ident, pathKey[st])
			occ := seen[k]
			seen[k]++
			keep := map[string]bool{}
			for _, e := range stable[ident] {
				if e.path == pathKey[st] {
					if occ == 0 {
						keep = e.fields
						break
					}
					occ--
				}
			}
			var parts []string
			if keep["s"] {
				parts = append(parts, fmt.Sprintf("s={a=in %s,n=%d}", msg.token, len(msg.token)))
			}
			if keep["tok"] {
				parts = append(parts, "tok="+msg.token)
			}
			partial = partial || len(parts) == 1
			want[ident] = append(want[ident], strings.Join(parts, ","))
		}
		key := fmt.Sprint(stable, desc)
		vfCase("stable", partial, key)
		var res TestResult
		vfMustReturn(90*time.Second, "collection did not complete", func() { res, _ = c17Finish(m) })
		got := map[string][]string{}
		for k, fs := range res.CallerResults {
			for _, f := range fs {
				got[k] = append(got[k], c17Fields(f.FieldValues))
			}
		}
		if a, b := fmt.Sprint(got), fmt.Sprint(want); a != b {
			rt.Fatalf("kept fields %v\nwant %v\nbaseline %v\nsent %v", a, b, stable, desc)
		}
	})
}

func c17Caller() (string, string) { // the function and file calling the caller
	pc, file, _, _ := runtime.Caller(2)
	return runtime.FuncForPC(pc).Name(), file
}

// c17Send uses the real client (encoding, HTTP) and returns its own identity.
func c17Send(m c17Msg) (fn, file string) {
	switch m.kind {
	case "point":
		sendLensPointMessage(m.id)
	case "panic":
		sendLensPointRecoveryMessage(m.id, m.token)
	default:
		snaps := []lensMonitorFieldSnapshot{{Name: "tok", Val: m.token}}
		if m.nest {
			snaps = append(snaps, lensMonitorFieldSnapshot{Name: "s", Val: struct {
				a string
				n int
			}{"in " + m.token, len(m.token)}})
		}
		sendLensPointStateMessage(m.id, snaps...)
	}
	return "", ""
}

func TestC17HTTP(t *testing.T) {
	vfRule("the real client functions send from up to 6 goroutines to the real server, whose collector is replaced between rounds; non-trivial = two or more goroutines and 6 or more messages")
	port, err := strconv.Atoi(os.Getenv("LENS_MONITOR_PORT"))
	if err != nil {
		t.Skip("no port")
	}
	_, self, _, _ := runtime.Caller(0)
	srv, err := astExecServerStart("127.0.0.1", port, newTestMonitor(nil, "", "/x", nil, nil, nil, nil, nil), 4096)
	if err != nil {
		vfHarnessErr("server: %v", err)
	}
	defer func() {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		_ = srv.Stop(ctx)
	}()
	vfRun(t, 250, 4000, func(rt *rapid.T) {
		w := c17GenWorld(rt)
		for round := rapid.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
			seqs, n := c17GenSeqs(rt, w, 6, 8)
			m := newTestMonitor(nil, "/usr/lib/go", filepath.Dir(self), w.state, w.ppanic, w.entry, w.mpanic, w.ext)
			if err := srv.SetPointHandler(m); err != nil {
				rt.Fatalf("handler: %v", err)
			}
			desc := fmt.Sprint(seqs)
			vfCase("http", len(seqs) > 1 && n >= 6, desc)
			var res TestResult
			var reached []string
			vfMustReturn(120*time.Second, "collection did not complete: "+desc, func() {
				var wg sync.WaitGroup
				for _, s := range seqs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for _, x := range s {
							c17Send(x)
						}
					}()
				}
				wg.Wait()
				res, reached = c17Finish(m)
			})
			// Stacks and times are real here: check them for themselves, then
			// reduce to the fields.
			for k, fs := range res.CallerResults {
				for i := range fs {
					if len(fs[i].Stack) == 0 || !strings.HasSuffix(fs[i].Stack[0].Function, ".c17Send") || fs[i].Stack[0].File != "./"+filepath.Base(self) || fs[i].Stack[0].Line == 0 {
						rt.Fatalf("call of %s has stack %+v", k, fs[i].Stack)
					}
					fs[i].Stack, fs[i].TimeMillis = nil, 0
				}
			}
			for _, fs := range res.ExtensionFrames {
				for i := range fs {
					fs[i].Stack, fs[i].TimeMillis = nil, 0
				}
			}
			for _, s := range seqs {
				for i := range s {
					s[i].stack, s[i].time = nil, 0
				}
			}
			if d := c17Judge(w, seqs, res, reached); d != "" {
				rt.Fatalf("%s\nsent: %s", d, desc)
			}
		}
	})
}

// Whatever the client sends arrives as fields with those values: distinct
// values give distinct fields.
func TestC17Fields(t *testing.T) {
	vfRule("pairs of slices of strings or ints, and of byte slices, captured as fields; non-trivial = they differ")
	vfRun(t, 3000, 40000, func(rt *rapid.T) {
		word := rapid.SampledFrom([]string{"", "a", "b", "a b", "]", "[a", "a\" \"b", "\\", " "})
		gen := func() (interface{}, string) {
			switch kindOf := rapid.IntRange(0, 1).Draw(rt, "kind"); kindOf {
			case 0:
				s := rapid.SliceOfN(word, 0, 3).Draw(rt, "s")
				return s, fmt.Sprintf("%q", s)
			default:
				s := rapid.SliceOfN(rapid.Int64Range(-20, 20), 0, 200).Draw(rt, "i")
				return s, fmt.Sprintf("%d", s)
			}
		}
		get := func(v interface{}) string {
			var buf bytes.Buffer
			lensEncodeMessagePointState(&buf, 7, 0, nil, []lensMonitorFieldSnapshot{{Name: "v", Val: v}})
			msg, err := newLensReader(&buf, 1024).decodeMessagePointState()
			if err != nil {
				rt.Fatalf("decode: %v", err)
			}
			fv := FieldValues{}
			for _, f := range msg.Fields {
				collectFields(fv, f.Name, f.Value, f.Type, f.Children, "")
			}
			return c17Fields(fv)
		}
		a, da := gen()
		b, db := gen()
		vfCase("fields", da != db, da+" vs "+db)
		if ga, gb := get(a), get(b); (ga == gb) != (da == db) {
			rt.Fatalf("%s is captured as %s, %s as %s", da, ga, db, gb)
		}
	})
}
