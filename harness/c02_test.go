package lens

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// pgRefMarks gives the reference program entry, exit and panic messages of its own.
const pgRefPanicBase, pgRefEntryBase, pgRefFinishBase = 2000000, 3000000, 4000000

func (p *pgProg) writeRef(dir string) {
	for i, f := range p.funcs {
		head, body, _ := strings.Cut(f.ref, "@{@")
		f.ref = head + "{\n" + fmt.Sprintf("defer sendLensPointMessage(%d)\nsendLensPointMessage(%d)\ndefer func() {\nif zp := recover(); zp != nil {\nsendLensPointRecoveryMessage(%d, zp)\npanic(zp)\n}\n}()\n", pgRefFinishBase+i, pgRefEntryBase+i, pgRefPanicBase+i) + body
	}
	p.write(dir, true)
}

type c02Event struct {
	fn     int
	kind   string
	refID  int
	fields []LensMonitorField
	msg    string
}

func (e c02Event) String() string {
	var fs []string
	for _, f := range e.fields {
		fs = append(fs, f.Name+"="+c02Show(f))
	}
	return fmt.Sprintf("%s of F%d %s{%s}", e.kind, e.fn, e.msg, strings.Join(fs, ", "))
}

func c02Show(f LensMonitorField) string {
	var cs []string
	for _, c := range f.Children {
		cs = append(cs, c.Name+"="+c02Show(c))
	}
	s := fmt.Sprintf("%s %#v", f.Type, f.Value)
	if len(cs) > 0 {
		s += "{" + strings.Join(cs, ", ") + "}"
	}
	return s
}

// c02Same compares two captured values; the static type a nil or interface was captured with is not compared.
func c02Same(a, b LensMonitorField) bool {
	if len(a.Children) != len(b.Children) || !reflect.DeepEqual(a.Value, b.Value) {
		return false
	}
	for i := range a.Children {
		if a.Children[i].Name != b.Children[i].Name || !c02Same(a.Children[i], b.Children[i]) {
			return false
		}
	}
	return true
}

// c02Events is the sequence of messages of one kind.
func c02Events(rec *pgRecorder, p *pgProg, pts *pgPoints, fail func(string, ...any)) map[string][]c02Event {
	out := map[string][]c02Event{}
	refFn := map[int]int{}
	for i, f := range p.funcs {
		for id := range f.returns {
			refFn[id] = i
		}
	}
	add := func(id uint32, wire string, e c02Event) {
		if pts == nil {
			switch {
			case id >= pgRefFinishBase:
				e.fn, e.kind = int(id)-pgRefFinishBase, "finish"
			case id >= pgRefEntryBase:
				e.fn, e.kind = int(id)-pgRefEntryBase, "entry"
			case id >= pgRefPanicBase:
				e.fn, e.kind = int(id)-pgRefPanicBase, "panic"
			default:
				fn, ok := refFn[int(id)]
				if !ok {
					vfHarnessErr("unknown reference point %d", id)
				}
				e.fn, e.kind, e.refID = fn, "return", int(id)
			}
		} else {
			kind, ok := pts.kind[id]
			if !ok {
				fail("message for point %d, which was not given for any function", id)
			}
			e.fn, e.kind = pts.fn[id], kind
		}
		want := map[string]string{"return": "state", "entry": "point", "finish": "point", "panic": "panic"}[e.kind]
		if want != wire {
			fail("point %d of kind %s sent a %s message", id, e.kind, wire)
		}
		out[e.kind] = append(out[e.kind], e)
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	for _, m := range rec.states {
		add(m.PointID, "state", c02Event{fields: m.Fields})
	}
	for _, m := range rec.points {
		add(m.PointID, "point", c02Event{})
	}
	for _, m := range rec.panics {
		add(m.PointID, "panic", c02Event{msg: m.Message})
	}
	return out
}

// c02Match says in which way a captured return does not match the reference, "" if it does.
func c02Match(p *pgProg, want, got c02Event) string {
	r := p.funcs[want.fn].returns[want.refID]
	byName := map[string]LensMonitorField{}
	for _, f := range got.fields {
		if _, dup := byName[f.Name]; dup {
			return "captures " + f.Name + " twice"
		}
		byName[f.Name] = f
	}
	allowed := map[string]bool{}
	for n := range r.consts {
		allowed[n] = true
	}
	var names []string
	for _, w := range want.fields {
		if !strings.HasPrefix(w.Name, "#") {
			allowed[w.Name] = true
			names = append(names, w.Name)
			g, ok := byName[w.Name]
			if !ok {
				return "does not capture " + w.Name
			}
			if !c02Same(w, g) {
				return fmt.Sprintf("captures %s as %s, it was %s", w.Name, c02Show(g), c02Show(w))
			}
			continue
		}
		i := w.Name[1:]
		var idx int
		_, _ = fmt.Sscan(i, &idx)
		found := false
		for _, cand := range []string{"ret" + i, "rec" + i, r.idents[idx]} {
			g, ok := byName[cand]
			if cand == "" || !ok {
				continue
			}
			found = true
			allowed[cand] = true
			if !c02Same(w, g) {
				return fmt.Sprintf("captures result %s (as %s) as %s, it was %s", i, cand, c02Show(g), c02Show(w))
			}
		}
		if !found {
			return "does not capture result " + i
		}
	}
	sort.Strings(names)
	for n := range byName {
		if !allowed[n] {
			return fmt.Sprintf("captures %s, visible are %v", n, names)
		}
	}
	return ""
}

func TestC02CapturedA(t *testing.T) { c02Prop(t, 0) }
func TestC02CapturedB(t *testing.T) { c02Prop(t, 1) }
func TestC02CapturedC(t *testing.T) { c02Prop(t, 2) }

func c02Prop(t *testing.T, shard int) {
	t.Parallel()
	vfRule("return points are added to at least four functions and at least ten returns are taken, in programs with at least three different statement forms")
	rec, srv := pgServer(t)
	vfRun(t, 16, 250, func(rt *rapid.T) {
		for range shard { // the shards see different cases of one seed
			rapid.Uint64().Draw(rt, "shard")
		}
		p, forms := pgGenProg(rt, rapid.IntRange(1, 14).Draw(rt, "nfuncs"))
		inst, ref := vfDir("c02i"), vfDir("c02r")
		defer func() { _ = os.RemoveAll(ref); _ = os.RemoveAll(inst) }()
		p.write(inst, false)
		p.writeRef(ref)
		if err := (&ASTModifier{}).InjectASTClient(ref, 0, 10, p.maxLen()); err != nil {
			rt.Fatalf("InjectASTClient: %v", err)
		}
		bin, msg := pgBuild(ref, p.test)
		if bin == "" {
			vfHarnessErr("reference program does not compile: %s", pgErrSource(ref, msg))
		}
		pts := pgInject(rt, p, inst, []string{"return", "panic", "entry", "finish"}, true, rt.Fatalf)
		ibin, msg := pgBuild(inst, p.test)
		if ibin == "" {
			rt.Fatalf("the instrumented package does not compile: %s", pgErrSource(inst, msg))
		}
		rec.reset()
		out := pgRun(bin, srv.Port())
		want := c02Events(rec, p, nil, rt.Fatalf)
		if strings.Contains(out, "too many steps") {
			return
		}
		rec.reset()
		pgRun(ibin, srv.Port())
		got := c02Events(rec, p, pts, rt.Fatalf)
		for _, kind := range []string{"return", "panic", "entry", "finish"} {
			ws, gs := want[kind], got[kind]
			var use []c02Event
			for _, w := range ws {
				if pts.kinds[w.fn][kind] {
					use = append(use, w)
				}
			}
			ws = use
			for i := 0; i < len(ws) || i < len(gs); i++ {
				var bad string
				fn := -1
				switch {
				case i >= len(ws):
					bad, fn = "sends a message although nothing more happened: "+gs[i].String(), gs[i].fn
				case i >= len(gs):
					bad, fn = "sends no message for "+ws[i].String(), ws[i].fn
				case ws[i].fn != gs[i].fn:
					bad, fn = "sends "+gs[i].String()+" where the program had "+ws[i].String(), ws[i].fn
				case kind == "return":
					if bad = c02Match(p, ws[i], gs[i]); bad != "" {
						bad, fn = bad+"\n expected "+ws[i].String()+"\n received "+gs[i].String(), ws[i].fn
					}
				case kind == "panic" && ws[i].msg != gs[i].msg:
					bad, fn = "reports the panic "+gs[i].msg+" instead of "+ws[i].msg, ws[i].fn
				}
				if bad != "" {
					rt.Fatalf("%s message %d: F%d %s\n--- source\n%s\n--- instrumented\n%s", kind, i, fn, bad, p.funcs[fn].plain, pgSourceOf(p, inst, fn))
				}
			}
		}
		n := 0
		for _, k := range pts.kinds {
			if k["return"] {
				n++
			}
		}
		vfCase("C02Captured", n >= 4 && len(want["return"]) >= 10 && len(forms) >= 3, fmt.Sprintf("%d funcs, %d returns, %d panics %v", len(p.funcs), len(want["return"]), len(want["panic"]), vfKeys(forms)), vfKeys(forms)...)
	})
}
