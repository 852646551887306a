package lens

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// pgInject adds monitoring points to the functions of a written program: kinds
// of points, their order and the commits in between are drawn. It returns the
// point ids per function.
type pgPoints struct {
	fn    map[uint32]int    // point id -> function
	kind  map[uint32]string // point id -> kind
	kinds []map[string]bool // function -> kinds added
}

func pgInject(rt *rapid.T, p *pgProg, dir string, kinds []string, all bool, fail func(string, ...any)) *pgPoints {
	const pkg = "example.com/prog"
	pts := &pgPoints{fn: map[uint32]int{}, kind: map[uint32]string{}}
	m := &ASTModifier{}
	if err := m.InjectASTClient(dir, 0, 10, p.maxLen()); err != nil {
		fail("InjectASTClient: %v", err)
	}
	type op struct {
		f    int
		kind string
	}
	var ops []op
	for i := range p.funcs {
		pts.kinds = append(pts.kinds, map[string]bool{})
		for _, k := range kinds {
			if all || rapid.Bool().Draw(rt, "inject "+k) {
				ops = append(ops, op{i, k})
				pts.kinds[i][k] = true
				if k == "return" && rapid.IntRange(0, 7).Draw(rt, "again") == 0 {
					ops = append(ops, op{i, k}) // adds nothing the second time
				}
			}
		}
	}
	for i := len(ops) - 1; i > 0; i-- {
		j := rapid.IntRange(0, i).Draw(rt, "swap")
		ops[i], ops[j] = ops[j], ops[i]
	}
	done := map[int]bool{}
	for _, o := range ops {
		f := p.funcs[o.f]
		fn := &Function{FilePath: filepath.Join(dir, f.file), PackageName: pkg, FunctionIdent: f.ident(pkg), FunctionName: f.name}
		var ids []uint32
		var err error
		switch o.kind {
		case "return":
			ids, err = m.InjectFuncPointReturnStates(fn)
			if err == nil && (len(ids) == 0) != done[o.f] {
				fail("%d points for the returns of %s, added before: %v", len(ids), f.name, done[o.f])
			}
			done[o.f] = true
		case "panic", "entry", "finish":
			var id uint32
			switch o.kind {
			case "panic":
				id, err = m.InjectFuncPointPanic(fn)
			case "entry":
				id, err = m.InjectFuncPointEntry(fn)
			case "finish":
				id, err = m.InjectFuncPointFinish(fn)
			}
			ids = []uint32{id}
		}
		if err != nil {
			fail("injecting %s points into %s: %v", o.kind, f.name, err)
		}
		for _, id := range ids {
			if _, dup := pts.fn[id]; dup || id == 0 {
				fail("point id %d given twice", id)
			}
			pts.fn[id], pts.kind[id] = o.f, o.kind
		}
		switch rapid.IntRange(0, 9).Draw(rt, "commit") {
		case 8:
			if err := m.CommitFile(fn.FilePath); err != nil {
				fail("CommitFile: %v", err)
			}
		case 9:
			if err := m.Commit(); err != nil {
				fail("Commit: %v", err)
			}
		}
	}
	if err := m.Commit(); err != nil {
		fail("Commit: %v", err)
	}
	return pts
}

// pgErrSource shows the lines a compiler message is about.
func pgErrSource(dir, msg string) string {
	var b strings.Builder
	b.WriteString(vfClip(msg))
	shown := 0
	for _, l := range strings.Split(msg, "\n") {
		var file string
		var line int
		parts := strings.SplitN(l, ":", 3)
		if len(parts) < 3 || shown >= 2 {
			continue
		}
		file = strings.TrimPrefix(parts[0], "./")
		if _, err := fmt.Sscan(parts[1], &line); err != nil || line == 0 {
			continue
		}
		data, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			continue
		}
		shown++
		src := strings.Split(string(data), "\n")
		fmt.Fprintf(&b, "\n--- %s\n%s", l, strings.Join(src[max(0, line-8):min(len(src), line+5)], "\n"))
	}
	return b.String()
}

func TestC01BehaviourA(t *testing.T) { c01Prop(t, 0) }
func TestC01BehaviourB(t *testing.T) { c01Prop(t, 1) }
func TestC01BehaviourC(t *testing.T) { c01Prop(t, 2) }

func c01Prop(t *testing.T, shard int) {
	t.Parallel()
	vfRule("at least four functions carry points, some with return points, and the program makes at least ten observable steps")
	_, srv := pgServer(t)
	vfRun(t, 16, 250, func(rt *rapid.T) {
		for range shard { // the shards see different cases of one seed
			rapid.Uint64().Draw(rt, "shard")
		}
		p, forms := pgGenProg(rt, rapid.IntRange(1, 14).Draw(rt, "nfuncs"))
		plain, inst := vfDir("c01p"), vfDir("c01i")
		defer func() { _ = os.RemoveAll(plain); _ = os.RemoveAll(inst) }()
		p.write(plain, false)
		p.write(inst, false)
		bin, msg := pgBuild(plain, p.test)
		if bin == "" {
			vfHarnessErr("generated program does not compile: %s", pgErrSource(plain, msg))
		}
		pts := pgInject(rt, p, inst, []string{"return", "panic", "entry", "finish"}, false, rt.Fatalf)
		ibin, msg := pgBuild(inst, p.test)
		if ibin == "" {
			rt.Fatalf("the instrumented package does not compile: %s", pgErrSource(inst, msg))
		}
		want := pgRun(bin, srv.Port())
		got := pgRun(ibin, srv.Port())
		if want != got {
			rt.Fatalf("behaviour differs at %s\n--- in\n%s", pgFirstDiff(want, got), pgAround(p, inst, want, got))
		}
		n := 0
		ret := false
		for _, k := range pts.kinds {
			if len(k) > 0 {
				n++
			}
			ret = ret || k["return"]
		}
		vfCase("C01Behaviour", n >= 4 && ret && strings.Count(want, "\n") >= 10, fmt.Sprintf("%d funcs %v", len(p.funcs), vfKeys(forms)), vfKeys(forms)...)
	})
}

// pgAround is the instrumented source of the call at which the outputs part.
func pgAround(p *pgProg, dir, a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	name := ""
	for i := 0; i < len(al) && i < len(bl); i++ {
		if strings.HasPrefix(al[i], "call ") && al[i] == bl[i] {
			name = strings.TrimPrefix(al[i], "call ")
		}
		if al[i] != bl[i] {
			break
		}
	}
	for i, f := range p.funcs {
		if f.name == name {
			return f.plain + "\n--- instrumented\n" + pgSourceOf(p, dir, i)
		}
	}
	return ""
}
