package lens

import (
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// The stand-in for go-mutesting: records how it was started and the files it was given, runs the exec script for every
// planned mutant, and reports like the real tool.
const c24Tool = `#!/usr/bin/env python3
import json, os, subprocess, sys
rec = os.environ['C24_REC']
plan = json.load(open(os.path.join(rec, 'plan.json')))
opts, files, args = {}, [], sys.argv[1:]
while args:
    a = args.pop(0)
    if a in ('--exec', '--match', '--disable', '--exec-timeout', '--blacklist', '--config'):
        opts.setdefault(a, []).append(args.pop(0))
    elif a.startswith('--') and '=' in a:
        k, v = a.split('=', 1)
        opts.setdefault(k, []).append(v)
    elif a.startswith('--'):
        opts.setdefault(a, []).append('')
    else:
        files.append(a)
def save(name, v):
    with open(os.path.join(rec, name), 'w') as f:
        json.dump(v, f)
def read(p):
    with open(p, encoding='utf-8', newline='') as f:
        return f.read()
content = {f: read(f) for f in files}
save('start.json', {'opts': opts, 'files': files, 'cwd': os.getcwd(), 'content': content})
if plan['garbage']:
    print('nothing to see here (6 passed)')
    sys.exit(0)
if plan['fail'] == 'start':
    sys.exit(3)
score = {'passed': 0, 'failed': 0, 'skipped': 0}
res = []
for i, m in enumerate(plan['mutants']):
    if m['file'] not in content:
        res.append({'ran': False})
        continue
    d = os.path.join(rec, 'mutant%d' % i)
    os.makedirs(d)
    text = content[m['file']]
    if m['reformat']:
        text = '\n'.join(l.replace('\t', '    ') for l in text.split('\n'))
    text += '\n// mutant %d\n' % i
    with open(os.path.join(d, 'mutated.go'), 'w', newline='') as f:
        f.write(text)
    with open(os.path.join(d, 'output'), 'w') as f:
        f.write(m['output'])
    with open(os.path.join(d, 'exit'), 'w') as f:
        f.write(str(m['exit']))
    env = dict(os.environ, C24_MUT=d, MUTATE_CHANGED=os.path.join(d, 'mutated.go'), MUTATE_ORIGINAL=m['file'], MUTATE_PACKAGE='example.com/m', MUTATE_DEBUG='false', MUTATE_VERBOSE='false')
    p = subprocess.run(opts['--exec'][0].split(' '), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    res.append({'ran': True, 'rc': p.returncode, 'restored': read(m['file']) == content[m['file']],
        'left': sorted(n for n in os.listdir(os.path.dirname(m['file'])) if n.startswith(os.path.basename(m['file']) + '.') and not n.endswith('.bkp')), 'out': p.stdout.decode('utf-8', 'replace')[-400:]})
    if p.returncode == 0:
        score['passed'] += 1
        print('PASS "%s" with checksum 0' % m['file'])
    elif p.returncode == 1:
        score['failed'] += 1
        print('FAIL "%s" with checksum 0' % m['file'])
    else:
        score['skipped'] += 1
        print('SKIP "%s" with checksum 0' % m['file'])
    save('results.json', res)
    if plan['fail'] == str(i):
        sys.exit(1)
save('results.json', res)
total = sum(score.values())
if plan['report']:
    save(os.path.join(os.getcwd(), 'report.json'), {'stats': total})
print('The mutation score is %f (%d passed, %d failed, %d duplicated, %d skipped, total is %d)' % (score['passed'] / (total or 1), score['passed'], score['failed'], plan['duplicated'], score['skipped'], total))
`

const c24Go = `#!/bin/bash
if [ "$1" != test ]; then
	printf '%s\n' "$*" >> "$C24_REC/other"
	exit 0
fi
k=0
while [ -e "$C24_MUT/argv.$k" ]; do k=$((k+1)); done
printf '%s\0' "$@" > "$C24_MUT/argv.$k"
pwd > "$C24_MUT/cwd"
cp "$MUTATE_ORIGINAL" "$C24_MUT/original"
cat "$C24_MUT/output"
exit "$(cat "$C24_MUT/exit")"
`

// A unit is the smallest code which is edited on its own.
type c24Unit struct {
	num     int
	changed bool
}

type c24Item struct {
	kind    string
	prefix  []string // comments and blank lines before
	trail   string
	units   []*c24Unit
	body    []*c24Item
	deleted bool
	fixed   bool // neither deleted nor preceded by additions
	added   []int
}

type c24Func struct {
	name, recv string
	items      []*c24Item
	edited     bool // differs in the new version
	oldEdited  bool // a line of the old version differs
	doc        int
}

func (f *c24Func) text() string { return "(" + f.recv + ") " + f.name }

type c24Gen struct {
	rt   *rapid.T
	next int
}

func (g *c24Gen) num() int { g.next++; return 1000 + g.next }

func (g *c24Gen) unit() *c24Unit { return &c24Unit{num: g.num()} }

func (g *c24Gen) items(depth, max int) []*c24Item {
	var out []*c24Item
	n := rapid.IntRange(1, max).Draw(g.rt, "items")
	for i := 0; i < n; i++ {
		kinds := []string{"simple", "simple", "pair", "call", "raw", "oneif", "str"}
		if depth > 0 && i < n-1 {
			kinds = append(kinds, "if", "for", "switch", "else")
		}
		it := &c24Item{kind: rapid.SampledFrom(kinds).Draw(g.rt, "kind"), units: []*c24Unit{g.unit()}}
		switch it.kind {
		case "pair", "raw", "oneif":
			it.units = append(it.units, g.unit())
		case "call":
			it.units = append(it.units, g.unit(), g.unit())
		case "for":
			it.units = append(it.units, g.unit())
			it.body = g.items(depth-1, 3)
		case "if", "switch", "else":
			it.body = g.items(depth-1, 3)
			if it.kind != "if" {
				it.units = append(it.units, g.unit())
			}
		}
		if i > 0 && len(out[i-1].body) > 0 {
			it.fixed = true
		}
		if rapid.IntRange(0, 2).Draw(g.rt, "prefix") == 0 {
			it.fixed = true
			it.prefix = rapid.SampledFrom([][]string{{"// comment"}, {""}, {"/* one", "two */"}, {"// a", "", "// b"}, {"/* x := 1", "}", "*/"}, {"", "//go:note", "// c"}}).Draw(g.rt, "comment")
		}
		if rapid.IntRange(0, 4).Draw(g.rt, "trail") == 0 {
			it.trail = rapid.SampledFrom([]string{" // after", " /* after */"}).Draw(g.rt, "trailing")
		}
		out = append(out, it)
	}
	out[len(out)-1].fixed = true
	return out
}

func (g *c24Gen) edit(f *c24Func) {
	var walk func(its []*c24Item)
	rate := rapid.IntRange(1, 6).Draw(g.rt, "rate")
	mode := rapid.SampledFrom([]string{"all", "all", "add"}).Draw(g.rt, "mode")
	walk = func(its []*c24Item) {
		for _, it := range its {
			if !it.fixed && rapid.IntRange(0, rate).Draw(g.rt, "add") == 0 {
				it.added = append(it.added, g.num())
				f.edited = true
			}
			if mode == "add" {
				walk(it.body)
				continue
			}
			if !it.fixed && it.kind == "simple" && rapid.IntRange(0, rate+1).Draw(g.rt, "del") == 0 {
				it.deleted, it.units[0].changed = true, true
				f.edited, f.oldEdited = true, true
				continue
			}
			for _, u := range it.units {
				if rapid.IntRange(0, rate).Draw(g.rt, "change") == 0 {
					u.changed = true
					f.edited, f.oldEdited = true, true
				}
			}
			walk(it.body)
		}
	}
	walk(f.items)
}

// c24Line tells which units a line of the old source holds.
type c24Line struct {
	fn    *c24Func
	units []*c24Unit
}

func (f *c24Func) render(g *c24Gen, neu bool, text *[]string, lines *[]c24Line) {
	emit := func(s string, us ...*c24Unit) {
		*text = append(*text, s)
		*lines = append(*lines, c24Line{f, us})
	}
	val := func(u *c24Unit) int {
		if neu && u.changed {
			return u.num + 500000
		}
		return u.num
	}
	var walk func(its []*c24Item, ind string)
	walk = func(its []*c24Item, ind string) {
		for _, it := range its {
			if neu {
				for _, a := range it.added {
					emit(fmt.Sprintf("%sacc += %d", ind, a))
				}
			}
			for _, p := range it.prefix {
				emit(ind + p)
			}
			if neu && it.deleted {
				continue
			}
			u := it.units
			switch it.kind {
			case "simple":
				emit(fmt.Sprintf("%sacc += %d%s", ind, val(u[0]), it.trail), u[0])
			case "str":
				emit(fmt.Sprintf("%ss += \"// %d `\"%s", ind, val(u[0]), it.trail), u[0])
			case "pair":
				emit(fmt.Sprintf("%sacc += %d; acc *= %d%s", ind, val(u[0]), val(u[1]), it.trail), u[0], u[1])
			case "oneif":
				emit(fmt.Sprintf("%sif acc > %d { acc -= %d }%s", ind, val(u[0]), val(u[1]), it.trail), u[0], u[1])
			case "call":
				emit(fmt.Sprintf("%sacc += sum(%d,%s", ind, val(u[0]), it.trail), u[0])
				emit(fmt.Sprintf("%s\t%d,", ind, val(u[1])), u[1])
				emit(fmt.Sprintf("%s\tacc-%d,", ind, val(u[2])), u[2])
				emit(ind + ")")
			case "raw":
				emit(fmt.Sprintf("%ss += `raw %d", ind, val(u[0])), u[0], u[1])
				emit(fmt.Sprintf("acc += %d // no code", val(u[1])))
				emit("` + s" + it.trail)
			case "if":
				emit(fmt.Sprintf("%sif acc > %d {%s", ind, val(u[0]), it.trail), u[0])
				walk(it.body, ind+"\t")
				emit(ind + "}")
			case "else":
				emit(fmt.Sprintf("%sif acc < %d {%s", ind, val(u[0]), it.trail), u[0])
				walk(it.body, ind+"\t")
				emit(fmt.Sprintf("%s} else if acc == %d {", ind, val(u[1])), u[1])
				emit(fmt.Sprintf("%s\tacc = -%d", ind, u[1].num))
				emit(ind + "}")
			case "for":
				emit(fmt.Sprintf("%sfor i := %d; i < acc; i += %d {%s", ind, val(u[0]), val(u[1]), it.trail), u[0], u[1])
				walk(it.body, ind+"\t")
				emit(ind + "}")
			case "switch":
				emit(fmt.Sprintf("%sswitch acc + %d {%s", ind, val(u[0]), it.trail), u[0])
				emit(fmt.Sprintf("%scase %d:", ind, val(u[1])), u[1])
				walk(it.body, ind+"\t")
				emit(ind + "}")
			}
		}
	}
	recv := ""
	if f.recv != "" {
		recv = "(t " + f.recv + ") "
	}
	if f.doc > 0 {
		emit(fmt.Sprintf("// %s has a comment.", f.name))
	}
	if f.doc == 2 {
		emit("func " + recv + f.name + "(")
		emit("\tacc int, // first")
		emit("\ts string,")
		emit(") (int, string) {")
	} else {
		emit("func " + recv + f.name + "(acc int, s string) (int, string) {")
	}
	walk(f.items, "\t")
	emit("\treturn acc, s")
	emit("}")
	emit("")
}

type c24File struct {
	rel   string
	funcs []*c24Func
	data  int // lines of a table
	text  string
	lines []c24Line
}

func (f *c24File) render(g *c24Gen, neu bool) string {
	text := []string{"package " + c11PkgNameOf(f.rel), ""}
	lines := make([]c24Line, 2)
	if f.data > 0 {
		text, lines = append(text, "var table = []string{"), append(lines, c24Line{})
		for i := range f.data {
			text, lines = append(text, fmt.Sprintf("\t\"this is entry number %d of the long table of this file\",", i)), append(lines, c24Line{})
		}
		text, lines = append(text, "}", ""), append(lines, c24Line{}, c24Line{})
	}
	for _, fn := range f.funcs {
		fn.render(g, neu, &text, &lines)
	}
	if !neu {
		f.lines = lines
		f.text = strings.Join(text, "\n")
	}
	return strings.Join(text, "\n")
}

func c11PkgNameOf(rel string) string {
	if d := filepath.Dir(rel); d != "." {
		return filepath.Base(d)
	}
	return "root"
}

type c24Mutant struct {
	File     string `json:"file"`
	Exit     int    `json:"exit"`
	Output   string `json:"output"`
	Reformat bool   `json:"reformat"`
}

var c24Outcomes = []struct {
	exit   int
	output string
	killed bool
}{
	{0, "ok  \texample.com/p\t0.01s\n", false},
	{0, "?   \texample.com/p\t[no test files]\nok  \texample.com/p/q\t0.01s\n", false},
	{1, "--- FAIL: TestA (0.00s)\n    a_test.go:3: bad\nFAIL\nFAIL\texample.com/p\t0.01s\nFAIL\n", true},
	{1, "panic: boom\n\ngoroutine 1 [running]:\nFAIL\texample.com/p\t0.01s\nFAIL\n", true},
	{1, "panic: test timed out after 30s\nFAIL\texample.com/p\t30.01s\nFAIL\n", true},
	{1, "--- FAIL: TestA (0.00s)\n    a_test.go:3: got FAIL\texample.com/p [build failed]\nFAIL\nFAIL\texample.com/p\t0.01s\nFAIL\n", true},
	{1, "# example.com/m\n../m.go:3:2: undefined: x\nFAIL\texample.com/p [build failed]\nok  \texample.com/q\t0.01s\nFAIL\n", false},
	{1, "# example.com/m\nm.go:1:1: expected 'package'\nFAIL\texample.com/p [setup failed]\nFAIL\n", false},
	{2, "go: no such flag\n", false},
	{3, "", false},
	{137, "Killed\n", false},
}

func TestC24Mutation(t *testing.T) {
	vfRule("mutation: generated old and new versions of modules with functions of colliding names in a scratch module cache, analyzed by AnalyzeModuleChanges; RunMutationTesting with a stand-in tool playing generated outcomes per mutant; non-trivial = at least two mutants with different outcomes in files with changed and unchanged functions, or a failure of the tool or the sources")
	bin := vfDir("c24bin")
	defer os.RemoveAll(bin)
	for n, s := range map[string]string{"go-mutesting": c24Tool, "go": c24Go} {
		vfWrite(filepath.Join(bin, n), s)
		if err := os.Chmod(filepath.Join(bin, n), 0o755); err != nil {
			vfHarnessErr("%v", err)
		}
	}
	path := os.Getenv("PATH")
	vfRun(t, 130, 2500, func(rt *rapid.T) { c24Case(rt, bin, path) })
}

var c24Names = []string{"Get", "GetAll", "Reset", "Set", "get", "Ge", "Run"}
var c24Recvs = []string{"", "", "T", "*T", "U"}

func c24Case(rt *rapid.T, bin, path string) {
	work := vfDir("c24")
	defer os.RemoveAll(work)
	cache, rec, tmp := filepath.Join(work, "mod cache"), filepath.Join(work, "rec"), filepath.Join(work, "tmp")
	for _, d := range []string{cache, rec, tmp} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			vfHarnessErr("%v", err)
		}
	}
	g := &c24Gen{rt: rt}

	// the modules
	files := map[string]*c24File{} // by absolute path of the old version
	var list []*ModuleChange
	for _, mod := range []string{"example.com/alpha", "example.com/Beta"}[:rapid.IntRange(1, 2).Draw(rt, "mods")] {
		dir := filepath.Join(cache, strings.ReplaceAll(mod, "Beta", "!beta"))
		rels := []string{"a.go", "b.go", "sub/a.go", "sub/it's.go"}
		anyFunc := false
		pkgs := map[string]bool{}
		used := map[string]bool{}
		for _, rel := range rels {
			if rapid.IntRange(0, 2).Draw(rt, "file") == 0 && (anyFunc || rel != "sub/it's.go") {
				continue
			}
			f := &c24File{rel: rel}
			if rapid.IntRange(0, 19).Draw(rt, "big") == 0 {
				f.data = 3000
			}
			for range rapid.IntRange(1, 4).Draw(rt, "funcs") {
				fn := &c24Func{name: rapid.SampledFrom(c24Names).Draw(rt, "name"), recv: rapid.SampledFrom(c24Recvs).Draw(rt, "recv"), doc: rapid.IntRange(0, 2).Draw(rt, "doc")}
				key := filepath.Dir(rel) + " " + strings.TrimPrefix(fn.recv, "*") + "." + fn.name
				if used[key] {
					continue
				}
				used[key] = true
				fn.items = g.items(2, 5)
				if rapid.IntRange(0, 2).Draw(rt, "edited") > 0 {
					g.edit(fn)
				}
				f.funcs = append(f.funcs, fn)
				anyFunc = true
			}
			pkgs[filepath.Dir(rel)] = true
			for _, v := range []string{"v1.0.0", "v1.1.0"} {
				vfWrite(filepath.Join(dir+"@"+v, rel), f.render(g, v == "v1.1.0"))
			}
			files[filepath.Join(dir+"@v1.0.0", rel)] = f
		}
		for _, v := range []string{"v1.0.0", "v1.1.0"} {
			vfWrite(filepath.Join(dir+"@"+v, "go.mod"), "module "+mod+"\n\ngo 1.21\n")
			for p := range pkgs {
				vfWrite(filepath.Join(dir+"@"+v, p, "types.go"), "package "+c11PkgNameOf(filepath.Join(p, "x"))+"\n\ntype T struct{}\ntype U []int\n\nfunc sum(n ...int) int { return len(n) }\n")
			}
		}
		list = append(list, &ModuleChange{Name: mod, PriorVersion: "v1.0.0", NewVersion: "v1.1.0"})
	}
	radius := rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "radius")
	data, _, err := AnalyzeModuleChanges(cache, false, "", list, radius)
	if err != nil {
		rt.Fatalf("analysis failed: %v", err)
	}
	var changes []*ModuleFunction
	for _, m := range slices.Sorted(maps.Keys(data)) {
		changes = append(changes, data[m]...)
	}
	changes = rapid.Permutation(changes).Draw(rt, "order")
	if n := len(changes); n > 0 && rapid.IntRange(0, 4).Draw(rt, "subset") == 0 {
		changes = changes[:rapid.IntRange(0, n).Draw(rt, "keep")]
	}

	// what each of them is
	byFn := map[*c24Func]bool{}
	fnOf := map[*ModuleFunction]*c24Func{}
	for _, c := range changes {
		f := files[c.FilePath]
		if f == nil {
			rt.Fatalf("changed function %s is in unknown file %s", c.FunctionIdent, c.FilePath)
		}
		start := int(c.EntryLineNumber) - 1
		if start < 0 || start >= len(f.lines) || f.lines[start].fn == nil || f.lines[start].fn.name != c.FunctionName || !f.lines[start].fn.edited {
			rt.Fatalf("changed function %s at %s:%d is not a function which was changed there\n%s", c.FunctionIdent, c.FilePath, c.EntryLineNumber, f.text)
		}
		byFn[f.lines[start].fn], fnOf[c] = true, f.lines[start].fn
	}

	// the project
	project := filepath.Join(work, rapid.SampledFrom([]string{"project", "my project", "p'q", "a$HOME"}).Draw(rt, "project"))
	wantDirs := map[string]bool{}
	if rapid.Bool().Draw(rt, "workspace") {
		var b strings.Builder
		b.WriteString("go 1.21\n\n")
		dirs := rapid.Permutation([]string{".", "sub/m", "a b", "x'y", "$HOME", "st*r", "../outside", "./dot"}).Draw(rt, "dirs")
		for _, d := range dirs[:rapid.IntRange(1, 5).Draw(rt, "ndirs")] {
			fmt.Fprintf(&b, "use %q\n", d)
			vfWrite(filepath.Join(project, d, "go.mod"), "module example.com/"+regexp.MustCompile(`[^a-z]`).ReplaceAllString(d, "")+"\n\ngo 1.21\n")
			wantDirs[filepath.Join(project, d)] = true
		}
		vfWrite(filepath.Join(project, "go.work"), b.String())
	} else {
		vfWrite(filepath.Join(project, "go.mod"), "module example.com/project\n\ngo 1.21\n")
		wantDirs[project] = true
	}
	vfWrite(filepath.Join(project, "main.go"), "package main\n\nfunc main() {}\n")
	reportMode := os.FileMode(0)
	if rapid.IntRange(0, 2).Draw(rt, "hasReport") == 0 {
		vfWrite(filepath.Join(project, "report.json"), "{\"mine\": true}\n")
		reportMode = rapid.SampledFrom([]os.FileMode{0o644, 0o600, 0o444}).Draw(rt, "reportMode")
		if err := os.Chmod(filepath.Join(project, "report.json"), reportMode); err != nil {
			vfHarnessErr("%v", err)
		}
	}

	// the tests
	var tests []*TestFunction
	reach := map[string]map[string]bool{} // file -> tests
	for i := range rapid.IntRange(0, 8).Draw(rt, "tests") {
		tf := &TestFunction{Function: Function{FunctionName: rapid.SampledFrom([]string{"TestA", "TestAB", "TestB", "TestGet", "Test_x", "TestÄ", "FuzzA", "Test"}).Draw(rt, "test"), PackageName: fmt.Sprintf("example.com/project/p%d", i), FilePath: filepath.Join(project, fmt.Sprintf("p%d_test.go", i))}}
		tf.FunctionIdent = tf.PackageName + "." + tf.FunctionName
		for range rapid.IntRange(0, 2).Draw(rt, "targets") {
			caller := &CallerFunction{Function: Function{FunctionName: "caller"}}
			for _, c := range changes {
				if rapid.IntRange(0, 2).Draw(rt, "calls") == 0 {
					caller.ChangeFunctions = append(caller.ChangeFunctions, c)
					if reach[c.FilePath] == nil {
						reach[c.FilePath] = map[string]bool{}
					}
					reach[c.FilePath][tf.FunctionName] = true
				}
			}
			tf.Targets = append(tf.Targets, caller)
		}
		tests = append(tests, tf)
	}

	fast, lineScoped, targeted := rapid.Bool().Draw(rt, "fast"), rapid.IntRange(0, 2).Draw(rt, "scoped") > 0, rapid.IntRange(0, 2).Draw(rt, "targeted") > 0

	// the expectations
	names, wantFiles := map[string]bool{}, map[string]bool{}
	for _, c := range changes {
		if lineScoped && !slices.Contains(c.LineChangeBitmap, true) {
			if fnOf[c].oldEdited {
				rt.Fatalf("%s: no line is marked as changed, but lines of the old code were", c.FunctionIdent)
			}
			continue
		}
		if lineScoped && radius == 0 && !fnOf[c].oldEdited {
			rt.Fatalf("%s: a line is marked as changed, but the new code only has additions: %v\n%s", c.FunctionIdent, c.LineChangeBitmap, c.Definition)
		}
		names[fnOf[c].name] = true
		wantFiles[c.FilePath] = true
	}

	fault := rapid.SampledFrom([]string{"", "", "", "", "", "", "fail", "garbage", "nobitmap", "nofile", "unparsable", "notool", "nomod"}).Draw(rt, "fault")
	mutants := []c24Mutant{}
	var outcome []int
	if fl := slices.Sorted(maps.Keys(wantFiles)); len(fl) > 0 {
		for range rapid.IntRange(0, 6).Draw(rt, "mutants") {
			o := rapid.IntRange(0, len(c24Outcomes)-1).Draw(rt, "outcome")
			mutants = append(mutants, c24Mutant{rapid.SampledFrom(fl).Draw(rt, "mutated"), c24Outcomes[o].exit, c24Outcomes[o].output, rapid.IntRange(0, 3).Draw(rt, "reformat") == 0})
			outcome = append(outcome, o)
		}
	}
	plan := map[string]any{"mutants": mutants, "garbage": fault == "garbage", "fail": "", "report": rapid.IntRange(0, 3).Draw(rt, "report") > 0, "duplicated": rapid.IntRange(0, 3).Draw(rt, "duplicated")}
	wantErr := ""
	runs := len(wantFiles) > 0
	switch fault {
	case "fail":
		plan["fail"] = "start"
		if len(mutants) > 0 && rapid.Bool().Draw(rt, "later") {
			plan["fail"] = fmt.Sprint(rapid.IntRange(0, len(mutants)-1).Draw(rt, "at"))
		}
		if runs {
			wantErr = "the tool failed"
		}
	case "garbage":
		if runs {
			wantErr = "the tool reported no score"
		}
	case "notool":
		if runs {
			wantErr = "there is no tool"
		}
	case "nobitmap":
		if len(changes) > 0 && lineScoped {
			rapid.SampledFrom(changes).Draw(rt, "which").LineChangeBitmap = nil
			wantErr = "a function lacks its changed lines"
		}
	case "nofile", "unparsable":
		if lineScoped && runs {
			p := rapid.SampledFrom(slices.Sorted(maps.Keys(wantFiles))).Draw(rt, "which")
			if fault == "nofile" {
				if err := os.Remove(p); err != nil {
					vfHarnessErr("%v", err)
				}
			} else {
				vfWrite(p, "package x\n\nfunc (\n")
			}
			wantErr = "a source cannot be read"
		}
	case "nomod":
		if runs && !rapid.Bool().Draw(rt, "nomodskip") {
			for _, n := range []string{"go.mod", "go.work"} {
				_ = os.Remove(filepath.Join(project, n))
			}
			wantErr = "the project has no module"
		}
	}
	b, err := json.Marshal(plan)
	if err != nil {
		vfHarnessErr("%v", err)
	}
	vfWrite(filepath.Join(rec, "plan.json"), string(b))

	var desc strings.Builder
	fmt.Fprintf(&desc, "fast=%t scoped=%t targeted=%t radius=%d fault=%q mutants=%v tests=%d", fast, lineScoped, targeted, radius, fault, outcome, len(tests))
	for _, p := range slices.Sorted(maps.Keys(files)) {
		fmt.Fprintf(&desc, "\n%s:", strings.TrimPrefix(p, cache))
		for _, fn := range files[p].funcs {
			fmt.Fprintf(&desc, " %s edited=%t,%t", fn.text(), fn.edited, fn.oldEdited)
		}
	}

	modes := func() map[string]string {
		out := map[string]string{}
		for _, d := range []string{project, cache, tmp, filepath.Join(work, "outside")} {
			for p, s := range vfTree(d) {
				st, err := os.Lstat(filepath.Join(d, p))
				if err != nil {
					vfHarnessErr("%v", err)
				}
				out[filepath.Join(d, p)] = st.Mode().String() + "\n" + s
			}
		}
		return out
	}
	before := modes()

	// run
	env := map[string]string{"PATH": bin + ":" + path, "C24_REC": rec, "TMPDIR": tmp}
	if fault == "notool" {
		env["PATH"] = path
	}
	for k, v := range env {
		old, had := os.LookupEnv(k)
		os.Setenv(k, v)
		defer func() {
			if had {
				os.Setenv(k, old)
			} else {
				os.Unsetenv(k)
			}
		}()
	}
	scratch := filepath.Join(work, "gopath")
	if fault == "notool" { // the real go command cleans the cache
		old, had := os.LookupEnv("GOCACHE")
		os.Setenv("GOCACHE", filepath.Join(work, "gocache"))
		defer func() {
			if had {
				os.Setenv("GOCACHE", old)
			} else {
				os.Unsetenv("GOCACHE")
			}
		}()
	}
	res, err := RunMutationTesting(scratch, cache, project, fast, lineScoped, targeted, changes, tests)

	if d := vfTreeDiff(before, modes()); d != "" {
		rt.Fatalf("files are not as before:\n%s\n%s", d, desc.String())
	}
	if wantErr != "" {
		if err == nil {
			rt.Fatalf("no error although %s, result %+v\n%s", wantErr, res, desc.String())
		}
		if res != (MutationResult{}) {
			rt.Fatalf("a result besides the error: %+v %v", res, err)
		}
	} else if err != nil {
		rt.Fatalf("failed: %v\n%s", err, desc.String())
	}
	var start struct {
		Opts    map[string][]string
		Files   []string
		Cwd     string
		Content map[string]string
	}
	sb, rerr := os.ReadFile(filepath.Join(rec, "start.json"))
	if rerr != nil {
		if wantErr == "" && runs {
			rt.Fatalf("no mutation although functions were changed\n%s", desc.String())
		}
		if wantErr == "" && res != (MutationResult{}) {
			rt.Fatalf("result %+v without mutation", res)
		}
		vfCase("Mutation", wantErr != "", desc.String(), "fault:"+fault, "notrun")
		return
	}
	if wantErr != "" && fault != "fail" && fault != "garbage" {
		rt.Fatalf("mutation was started although %s", wantErr)
	}
	if err := json.Unmarshal(sb, &start); err != nil {
		vfHarnessErr("%v", err)
	}
	if !runs {
		rt.Fatalf("mutation was started without anything to mutate: %v\n%s", start, desc.String())
	}

	// how the tool was started
	if real, err := filepath.EvalSymlinks(project); err != nil || start.Cwd != real {
		rt.Fatalf("mutation ran in %q, want %q", start.Cwd, project)
	}
	if got := slices.Sorted(slices.Values(start.Files)); !slices.Equal(got, slices.Sorted(maps.Keys(wantFiles))) {
		rt.Fatalf("mutated files %q, want %q\n%s", got, vfKeys(wantFiles), desc.String())
	}
	if len(start.Opts["--match"]) != 1 || len(start.Opts["--exec"]) != 1 {
		rt.Fatalf("options %v", start.Opts)
	}
	match, err := regexp.Compile(start.Opts["--match"][0])
	if err != nil {
		rt.Fatalf("match: %v", err)
	}
	for _, n := range append([]string{"sum", "GetA", "etA", "Reset2", "", "T", "main"}, c24Names...) {
		if got := match.MatchString(n); got != names[n] {
			rt.Fatalf("match %q of function %q: %t, want %t\n%s", match, n, got, names[n], desc.String())
		}
	}
	if dis := start.Opts["--disable"]; (len(dis) > 0) != fast {
		rt.Fatalf("fast=%t disables %q", fast, dis)
	}

	// the scope
	partial := false
	for p, text := range start.Content {
		f := files[p]
		if !slices.Equal(gsTokens(text), gsTokens(f.text)) {
			rt.Fatalf("mutation gets other code:\n%s\n---- of\n%s", text, f.text)
		}
		orig := strings.Split(f.text, "\n")
		disabled := make([]bool, len(orig))
		i := 0
		next := false
		for _, l := range strings.Split(text, "\n") {
			if strings.TrimSpace(l) == "// mutator-disable-next-line *" {
				next = true
				continue
			}
			if i >= len(orig) || l != orig[i] {
				rt.Fatalf("line %d of %s differs from the source: %q", i+1, p, l)
			}
			disabled[i], next = next, false
			i++
		}
		if i != len(orig) {
			rt.Fatalf("%s has %d lines, want %d", p, i, len(orig))
		}
		for i, l := range f.lines {
			if l.fn == nil || len(l.units) == 0 {
				continue
			}
			changed := slices.ContainsFunc(l.units, func(u *c24Unit) bool { return u.changed })
			switch {
			case !lineScoped:
				if disabled[i] {
					rt.Fatalf("%s:%d is excluded although mutations are not limited to lines: %s", p, i+1, orig[i])
				}
			case !byFn[l.fn]:
			case changed && disabled[i]:
				rt.Fatalf("%s:%d was changed, but is not mutated: %s\n%s", p, i+1, orig[i], text)
			case !changed && !disabled[i] && radius == 0 && l.fn.oldEdited:
				rt.Fatalf("%s:%d was not changed, but is mutated: %s\n%s\n%s", p, i+1, orig[i], text, desc.String())
			}
		}
		for _, fn := range f.funcs {
			if !byFn[fn] {
				partial = true
			}
		}
	}

	// the mutants
	var results []struct {
		Ran, Restored bool
		Rc            int
		Left          []string
		Out           string
	}
	if rb, err := os.ReadFile(filepath.Join(rec, "results.json")); err == nil {
		if err := json.Unmarshal(rb, &results); err != nil {
			vfHarnessErr("%v", err)
		}
	}
	killed := 0
	kinds := map[int]bool{}
	for i, r := range results {
		m, o := mutants[i], c24Outcomes[outcome[i]]
		if !r.Ran {
			vfHarnessErr("mutant %d did not run", i)
		}
		if !r.Restored || len(r.Left) > 0 {
			rt.Fatalf("mutant %d: original restored %t, left %q", i, r.Restored, r.Left)
		}
		dir := filepath.Join(rec, fmt.Sprintf("mutant%d", i))
		calls, _ := filepath.Glob(filepath.Join(dir, "argv.*"))
		want := reach[m.File]
		if targeted && len(want) == 0 {
			if len(calls) != 0 || r.Rc == 0 || r.Rc == 1 {
				rt.Fatalf("mutant %d of %s is reached by no test, but %d test runs, exit %d", i, m.File, len(calls), r.Rc)
			}
			continue
		}
		if len(calls) != 1 {
			rt.Fatalf("mutant %d: %d test runs, want 1 (output %q)", i, len(calls), r.Out)
		}
		if got := vfRead(filepath.Join(dir, "original")); got != vfRead(filepath.Join(dir, "mutated.go")) {
			rt.Fatalf("mutant %d: the tests ran with\n%s\nwhich is not the mutant", i, got)
		}
		kinds[outcome[i]] = true
		if o.killed {
			killed++
		}
		if got := r.Rc == 0; got != o.killed {
			rt.Fatalf("mutant %d with test exit %d and output %q: counted as detected %t (exit %d, %q)", i, o.exit, o.output, got, r.Rc, r.Out)
		}
		if got := r.Rc == 1; got != (o.exit == 0) {
			rt.Fatalf("mutant %d with test exit %d and output %q: counted as alive %t (exit %d, %q)", i, o.exit, o.output, got, r.Rc, r.Out)
		}
		argv := strings.Split(strings.TrimSuffix(vfRead(calls[0]), "\x00"), "\x00")
		var pkgs []string
		run := ""
		for k := 1; k < len(argv); k++ {
			switch a := argv[k]; {
			case a == "-run" || a == "-test.run":
				k++
				run = argv[k]
			case strings.HasPrefix(a, "-run="):
				run = strings.TrimPrefix(a, "-run=")
			case strings.HasPrefix(a, "-"):
			default:
				pkgs = append(pkgs, a)
			}
		}
		gotDirs := map[string]bool{}
		cwd := strings.TrimSuffix(vfRead(filepath.Join(dir, "cwd")), "\n")
		for _, p := range pkgs {
			d, ok := strings.CutSuffix(p, "/...")
			if !ok || !filepath.IsAbs(d) && d != "." && d != ".." && !strings.HasPrefix(d, "./") && !strings.HasPrefix(d, "../") {
				rt.Fatalf("mutant %d: packages %q", i, pkgs)
			}
			if !filepath.IsAbs(d) {
				d = filepath.Join(cwd, d)
			}
			gotDirs[d] = true
		}
		if !maps.Equal(gotDirs, wantDirs) {
			rt.Fatalf("mutant %d: tests of %q, want %q", i, vfKeys(gotDirs), vfKeys(wantDirs))
		}
		if !targeted {
			if run != "" {
				rt.Fatalf("mutant %d: all tests are asked for, but -run %q", i, run)
			}
			continue
		}
		re, err := regexp.Compile(run)
		if err != nil {
			rt.Fatalf("pattern %q: %v", run, err)
		}
		for _, n := range []string{"TestA", "TestAB", "TestB", "TestGet", "Test_x", "TestÄ", "FuzzA", "Test", "TestC", "TestABC", "XTestA"} {
			if re.MatchString(n) != want[n] {
				rt.Fatalf("mutant %d of %s: pattern %q for test %s: %t, want %t", i, m.File, run, n, !want[n], want[n])
			}
		}
	}
	if wantErr == "" {
		if len(results) != len(mutants) {
			vfHarnessErr("%d results for %d mutants", len(results), len(mutants))
		}
		if res.MutationCount != len(mutants) || res.SquashedCount != killed {
			rt.Fatalf("%d mutants, %d of them detected, but the result is %+v (outcomes %v)\n%s", len(mutants), killed, res, outcome, desc.String())
		}
	}
	cl := []string{"fault:" + fault}
	if lineScoped {
		cl = append(cl, "scoped")
	}
	if targeted {
		cl = append(cl, "targeted")
	}
	if partial {
		cl = append(cl, "partial")
	}
	vfCase("Mutation", wantErr != "" || len(kinds) > 1 && partial, desc.String(), cl...)
}
