package lens

// Generated projects with a known call graph. Every function has parameters of
// its own types and every interface method its own name, so that dynamic calls
// can only lead where the generator put them; the few places where a static
// analysis cannot know better are kept as "may" edges.

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type cgPkg struct {
	dir, path, name string // directory (relative to the root), import path, package name
	module          bool   // belongs to the dependency
	level           int
	files           map[string]*cgFileText
	imports         map[string]map[string]bool // file -> import paths
}

type cgFileText struct {
	body strings.Builder
}

type cgFn struct {
	id      int
	pkg     *cgPkg
	file    string
	kind    string
	ident   string
	name    string
	must    []int // functions surely reachable from here in one step
	may     []int // functions a static analysis may see reachable in addition
	root    bool  // main and init
	hidden  bool  // in a file for generated code
	noRets  bool
	calls   []string
	isTest  bool
	rets    int
	shape   int
	factory bool
	line    string // //line directive before it
}

type cgProj struct {
	dir, root string // directory of all, and of the project
	pkgs      []*cgPkg
	fns       []*cgFn
	forms     map[string]bool
	work      bool
	group     map[string][]int // id of the node standing for a group of dynamic calls
	next      int
	mains     map[string]bool   // packages with a function of that name
	rename    map[string]string // names in the text so far -> names in the files
	taken     map[string]bool   // those in use, by package
	sharing   int               // how many functions share a name: none, some, all
}

var cgName = regexp.MustCompile(`\b[FMT][0-9]+\b`)

// final gives the text with the names the files have.
func (p *cgProj) final(s string) string {
	return cgName.ReplaceAllStringFunc(s, func(n string) string {
		if r, ok := p.rename[n]; ok {
			return r
		}
		return n
	})
}

// alias gives many functions and methods the same few names; calls can still
// be told apart by the parameter's type.
func (p *cgProj) alias(rt *rapid.T, v *cgFn) {
	pick := func(old string, pool ...string) {
		if p.sharing == 0 || p.sharing == 1 && rapid.Bool().Draw(rt, "alias") {
			return
		}
		name := pool[0]
		if p.sharing == 1 {
			name = rapid.SampledFrom(pool).Draw(rt, "name")
		}
		if old[0] != 'M' { // methods are in the scope of their types
			if p.taken[v.pkgPath()+":"+name] {
				return
			}
			p.taken[v.pkgPath()+":"+name] = true
		}
		p.rename[old] = name
		p.forms["shared name"] = true
	}
	if v.kind == "func" || v.kind == "generic" {
		pick(fmt.Sprintf("F%d", v.id), "Do", "New", "Open")
	} else {
		pick(fmt.Sprintf("M%d", v.id), "Do", "Close")
		pick(fmt.Sprintf("T%d", v.id), "Conn", "Item")
	}
	v.name, v.ident = p.final(v.name), p.final(v.ident)
}

func (p *cgProj) pkg(path string) *cgPkg {
	for _, q := range p.pkgs {
		if q.path == path {
			return q
		}
	}
	vfHarnessErr("no package %s", path)
	return nil
}

func (q *cgPkg) imp(file, path string) {
	if q.imports[file] == nil {
		q.imports[file] = map[string]bool{}
	}
	q.imports[file][path] = true
}

func (q *cgPkg) text(file, f string, a ...any) {
	if q.files[file] == nil {
		q.files[file] = &cgFileText{}
	}
	fmt.Fprintf(&q.files[file].body, f, a...)
}

// cgExt tells whether the file belongs to the external test package.
func cgExt(file string) bool { return strings.HasSuffix(file, "_ext_test.go") }

// qual is the qualifier for names of v's package in the given file of q.
func (v *cgFn) qual(q *cgPkg, file string) string {
	if v.pkg == q && cgExt(v.file) == cgExt(file) {
		return ""
	}
	q.imp(file, v.pkg.path)
	return v.pkg.name + "."
}

var cgKinds = []string{"func", "func", "func", "valmeth", "ptrmeth", "generic", "genmeth"}

// newFn declares a function; its body is written by emit.
func (p *cgProj) newFn(rt *rapid.T, q *cgPkg, file, kind string) *cgFn {
	v := &cgFn{id: len(p.fns), pkg: q, file: file, kind: kind, shape: rapid.IntRange(0, 6).Draw(rt, "shape")}
	n := v.id
	switch kind {
	case "func", "generic":
		v.name = fmt.Sprintf("F%d", n)
		v.ident = v.pkgPath() + ":" + v.name
	case "valmeth":
		v.name = fmt.Sprintf("M%d", n)
		v.ident = fmt.Sprintf("%s:T%d.%s", v.pkgPath(), n, v.name)
	case "ptrmeth":
		v.name = fmt.Sprintf("M%d", n)
		v.ident = fmt.Sprintf("%s:*T%d.%s", v.pkgPath(), n, v.name)
	case "genmeth":
		v.name = fmt.Sprintf("M%d", n)
		v.ident = fmt.Sprintf("%s:*T%d[K].%s", v.pkgPath(), n, v.name)
	}
	p.fns = append(p.fns, v)
	p.alias(rt, v)
	return v
}

// header is the start of the declaration, with the types that go with it.
func (v *cgFn) header() (types, head string) {
	n := v.id
	types = fmt.Sprintf("type P%d struct{}\n\n", n)
	switch v.kind {
	case "func":
		return types, fmt.Sprintf("func F%d(_ P%d) int {", n, n)
	case "generic":
		return types, fmt.Sprintf("func F%d[K any](_ P%d) int {", n, n)
	case "valmeth":
		return types + fmt.Sprintf("type T%d struct{}\n\ntype E%d struct{ T%d }\n\ntype I%d interface{ M%d(P%d) int }\n\n", n, n, n, n, n, n), fmt.Sprintf("func (T%d) M%d(_ P%d) int {", n, n, n)
	case "ptrmeth":
		return types + fmt.Sprintf("type T%d struct{ x int }\n\ntype E%d struct{ *T%d }\n\ntype I%d interface{ M%d(P%d) int }\n\n", n, n, n, n, n, n), fmt.Sprintf("func (t *T%d) M%d(_ P%d) int {", n, n, n)
	case "genmeth":
		return types + fmt.Sprintf("type T%d[K any] struct{ x K }\n\ntype I%d interface{ M%d(P%d) int }\n\n", n, n, n, n), fmt.Sprintf("func (t *T%d[K]) M%d(_ P%d) int {", n, n, n)
	}
	return
}

// callTo writes a call of v from u (in the file of u) and records the edges.
func (p *cgProj) callTo(rt *rapid.T, u, v *cgFn) {
	q := v.qual(u.pkg, u.file)
	n := v.id
	arg := fmt.Sprintf("%sP%d{}", q, n)
	var forms []string
	switch v.kind {
	case "func":
		forms = []string{"direct", "direct", "value", "pkgvar", "field", "map", "chan", "apply", "return", "slice"}
	case "generic":
		forms = []string{"direct", "direct2", "value"}
	case "valmeth":
		forms = []string{"method", "ptrmethod", "promoted", "iface", "mexpr", "mvalue", "constraint", "ifaceparam", "ifaceembed"}
	case "ptrmeth":
		forms = []string{"ptrmethod", "promotedptr", "ifaceptr", "mexprptr", "mvalueptr", "constraintptr", "ifaceparamptr"}
	case "genmeth":
		forms = []string{"gen", "gen2", "ifacegen", "mvaluegen"}
	}
	form := rapid.SampledFrom(forms).Draw(rt, "form")
	p.next++
	k := p.next
	var s string
	last, get := v, (*cgFn)(nil) // what the statement calls
	switch form {
	case "direct":
		s = fmt.Sprintf("_ = %sF%d(%s)", q, n, arg)
		if v.kind == "generic" {
			s = fmt.Sprintf("_ = %sF%d[int](%s)", q, n, arg)
		}
	case "direct2":
		s = fmt.Sprintf("_ = %sF%d[[]string](%s)", q, n, arg)
	case "value":
		f := fmt.Sprintf("%sF%d", q, n)
		if v.kind == "generic" {
			f += "[bool]"
		}
		s = fmt.Sprintf("f%d := %s; _ = f%d(%s)", k, f, k, arg)
	case "pkgvar":
		u.pkg.text(u.file, "var V%d func(%sP%d) int\n\nfunc init() { V%d = %sF%d }\n\n", k, q, n, k, q, n)
		s = fmt.Sprintf("_ = V%d(%s)", k, arg)
	case "field":
		s = fmt.Sprintf("s%d := struct{ f func(%sP%d) int }{%sF%d}; _ = s%d.f(%s)", k, q, n, q, n, k, arg)
	case "map":
		s = fmt.Sprintf("_ = map[string]func(%sP%d) int{\"k\": %sF%d}[\"k\"](%s)", q, n, q, n, arg)
	case "chan":
		s = fmt.Sprintf("c%d := make(chan func(%sP%d) int, 1); c%d <- %sF%d; _ = (<-c%d)(%s)", k, q, n, k, q, n, k, arg)
	case "slice":
		s = fmt.Sprintf("for _, f%d := range []func(%sP%d) int{%sF%d} { _ = f%d(%s) }", k, q, n, q, n, k, arg)
	case "apply": // through another function
		a := p.helper(u, fmt.Sprintf("Apply%d", k), fmt.Sprintf("func Apply%d(f func(%sP%d) int) int {\n\treturn f(%s)\n}\n\n", k, q, n, arg))
		p.link(a, v)
		last = a
		s = fmt.Sprintf("_ = Apply%d(%sF%d)", k, q, n)
	case "return":
		get = p.helper(u, fmt.Sprintf("Get%d", k), fmt.Sprintf("func Get%d() func(%sP%d) int {\n\treturn %sF%d\n}\n\n", k, q, n, q, n))
		s = fmt.Sprintf("_ = Get%d()(%s)", k, arg)
	case "method":
		s = fmt.Sprintf("_ = %sT%d{}.M%d(%s)", q, n, n, arg)
	case "ptrmethod":
		s = fmt.Sprintf("_ = (&%sT%d{}).M%d(%s)", q, n, n, arg)
	case "promoted":
		s = fmt.Sprintf("_ = %sE%d{}.M%d(%s)", q, n, n, arg)
	case "promotedptr":
		s = fmt.Sprintf("_ = %sE%d{T%d: &%sT%d{}}.M%d(%s)", q, n, n, q, n, n, arg)
	case "iface":
		s = fmt.Sprintf("var i%d %sI%d = %sT%d{}; _ = i%d.M%d(%s)", k, q, n, q, n, k, n, arg)
	case "ifaceptr":
		s = fmt.Sprintf("var i%d %sI%d = &%sT%d{}; _ = i%d.M%d(%s)", k, q, n, q, n, k, n, arg)
	case "ifaceembed":
		s = fmt.Sprintf("i%d := struct{ %sI%d }{%sT%d{}}; _ = i%d.M%d(%s)", k, q, n, q, n, k, n, arg)
	case "mexpr":
		s = fmt.Sprintf("_ = %sT%d.M%d(%sT%d{}, %s)", q, n, n, q, n, arg)
	case "mexprptr":
		s = fmt.Sprintf("_ = (*%sT%d).M%d(&%sT%d{}, %s)", q, n, n, q, n, arg)
	case "mvalue":
		s = fmt.Sprintf("m%d := %sT%d{}.M%d; _ = m%d(%s)", k, q, n, n, k, arg)
	case "mvalueptr":
		s = fmt.Sprintf("m%d := (&%sT%d{}).M%d; _ = m%d(%s)", k, q, n, n, k, arg)
	case "constraint", "constraintptr":
		amp := strings.TrimPrefix(form, "constraint")
		a := p.helper(u, fmt.Sprintf("Con%d", k), fmt.Sprintf("func Con%d[X %sI%d](x X) int {\n\treturn x.M%d(%s)\n}\n\n", k, q, n, n, arg))
		p.link(a, v)
		last = a
		s = fmt.Sprintf("_ = Con%d(%s%sT%d{})", k, map[bool]string{true: "&"}[amp != ""], q, n)
	case "ifaceparam", "ifaceparamptr":
		a := p.helper(u, fmt.Sprintf("Par%d", k), fmt.Sprintf("func Par%d(x any) int {\n\tif i, ok := x.(%sI%d); ok {\n\t\treturn i.M%d(%s)\n\t}\n\treturn 0\n}\n\n", k, q, n, n, arg))
		p.link(a, v)
		last = a
		s = fmt.Sprintf("_ = Par%d(%s%sT%d{})", k, map[bool]string{true: "&"}[strings.HasSuffix(form, "ptr")], q, n)
	case "gen":
		s = fmt.Sprintf("_ = (&%sT%d[int]{}).M%d(%s)", q, n, n, arg)
	case "gen2":
		s = fmt.Sprintf("_ = (&%sT%d[map[string]bool]{}).M%d(%s)", q, n, n, arg)
	case "ifacegen":
		s = fmt.Sprintf("var i%d %sI%d = &%sT%d[string]{}; _ = i%d.M%d(%s)", k, q, n, q, n, k, n, arg)
	case "mvaluegen":
		s = fmt.Sprintf("m%d := (&%sT%d[int8]{}).M%d; _ = m%d(%s)", k, q, n, n, k, arg)
	}
	if !u.pkg.module && rapid.IntRange(0, 6).Draw(rt, "via") == 0 {
		switch via := rapid.SampledFrom([]string{"callback", "init method", "main method", "main function"}).Draw(rt, "viakind"); {
		case via == "callback": // through the dependency and back
			dep := p.pkgs[rapid.IntRange(0, 1).Draw(rt, "callbackdep")]
			h := &cgFn{id: len(p.fns), pkg: dep, file: "x.go", kind: "helper", name: fmt.Sprintf("Call%d", k), ident: fmt.Sprintf("%s:Call%d", dep.path, k), shape: -1}
			p.fns = append(p.fns, h)
			dep.text("x.go", "func Call%d(i interface{ Back%d() int }) int {\n\treturn i.Back%d()\n}\n\n", k, k, k)
			m := p.helper(u, fmt.Sprintf("Back%d", k), fmt.Sprintf("type B%d struct{}\n\nfunc (B%d) Back%d() int {\n\t%s\n\treturn 0\n}\n\n", k, k, k, s))
			m.ident = fmt.Sprintf("%s:B%d.Back%d", u.pkgPath(), k, k)
			p.link(u, h)
			p.link(h, m)
			p.link(m, last)
			p.link(m, get)
			u.pkg.imp(u.file, dep.path)
			s = fmt.Sprintf("_ = %s.Call%d(B%d{})", dep.name, k, k)
			last, get = nil, nil
			p.forms[via] = true
		case strings.HasSuffix(via, "method"):
			name := strings.TrimSuffix(via, " method")
			m := p.helper(u, name, fmt.Sprintf("type B%d struct{}\n\nfunc (*B%d) %s() {\n\t%s\n}\n\n", k, k, name, s))
			m.ident = fmt.Sprintf("%s:*B%d.%s", u.pkgPath(), k, name)
			p.link(u, m)
			p.link(m, last)
			p.link(m, get)
			s = fmt.Sprintf("(&B%d{}).%s()", k, name)
			last, get = nil, nil
			p.forms[via] = true
		case u.pkg.name != "main" && !p.mains[u.pkgPath()]: // a function of that name in another package
			p.mains[u.pkgPath()] = true
			m := p.helper(u, "main", fmt.Sprintf("func main() {\n\t%s\n}\n\n", s))
			p.link(u, m)
			p.link(m, last)
			p.link(m, get)
			s = "main()"
			last, get = nil, nil
			p.forms[via] = true
		}
	}
	p.forms[form] = true
	// the statement itself may stand in a literal of its own signature
	switch rapid.IntRange(0, 9).Draw(rt, "wrap") {
	case 0:
		s = fmt.Sprintf("func(_ struct{ q%d int }) { %s }(struct{ q%d int }{})", k, s, k)
		p.forms["closure"] = true
	case 1:
		s = fmt.Sprintf("defer func(_ struct{ q%d int }) { %s }(struct{ q%d int }{})", k, s, k)
		p.forms["defer"] = true
	case 2:
		s = fmt.Sprintf("go func(_ struct{ q%d int }) { %s }(struct{ q%d int }{})", k, s, k)
		p.forms["go"] = true
	case 3:
		s = fmt.Sprintf("g%d := func(_ struct{ q%d int }) { %s }\n\tfor range 2 {\n\t\tg%d(struct{ q%d int }{})\n\t}", k, k, s, k, k)
		p.forms["closure variable"] = true
	case 4:
		s = fmt.Sprintf("if Zero() > 0 {\n\t\t%s\n\t}", s)
		u.pkg.imp(u.file, "")
	case 5:
		s = fmt.Sprintf("switch Zero() {\n\tcase 1:\n\t\t%s\n\tdefault:\n\t}", s)
		u.pkg.imp(u.file, "")
	case 6:
		s = fmt.Sprintf("for Zero() > 1 {\n\t\tfunc(_ struct{ q%d int }) { func(_ struct{ r%d int }) { %s }(struct{ r%d int }{}) }(struct{ q%d int }{})\n\t}", k, k, s, k, k)
		p.forms["nested closure"] = true
	}
	u.calls = append(u.calls, s)
	p.link(u, last)
	p.link(u, get)
}

// link records that u calls v.
func (p *cgProj) link(u, v *cgFn) {
	if v != nil {
		u.must = append(u.must, v.id)
	}
}

// helper declares a function with the given text in the file of u.
func (p *cgProj) helper(u *cgFn, name, text string) *cgFn {
	a := &cgFn{id: len(p.fns), pkg: u.pkg, file: u.file, kind: "helper", name: name, ident: u.pkgPath() + ":" + name, hidden: u.hidden, shape: -1}
	p.fns = append(p.fns, a)
	u.pkg.text(u.file, "%s", text)
	return a
}

// pkgPath is the path of the package the file belongs to.
func (v *cgFn) pkgPath() string {
	if cgExt(v.file) {
		return v.pkg.path + "_test"
	}
	return v.pkg.path
}

// emit writes the function.
func (p *cgProj) emit(v *cgFn) {
	types, head := v.header()
	var b strings.Builder
	b.WriteString(types)
	if v.line != "" {
		b.WriteString("//line " + v.line + "\n")
		p.forms["line directive"] = true
	}
	b.WriteString(head + "\n")
	for i, c := range v.calls {
		b.WriteString("\t" + c + "\n")
		if i == 0 && v.shape == 1 {
			fmt.Fprintf(&b, "\tif Zero() == 7 {\n\t\treturn 1 //@ret%d\n\t}\n", v.id)
		}
	}
	switch v.shape {
	case 2:
		fmt.Fprintf(&b, "\tpanic(%q)\n", v.name)
		v.noRets = true
	case 3:
		fmt.Fprintf(&b, "\tif Zero() == 3 {\n\t\tpanic(1)\n\t}\n\treturn 2 //@ret%d\n", v.id)
	case 4:
		fmt.Fprintf(&b, "\tswitch Zero() {\n\tcase 1:\n\t\treturn 3 //@ret%d\n\tcase 2:\n\t\treturn 4 //@ret%d\n\t}\n\treturn 5 //@ret%d\n", v.id, v.id, v.id)
	case 5:
		fmt.Fprintf(&b, "\treturn func(_ struct{ z%d int }) int {\n\t\treturn 6\n\t}(struct{ z%d int }{}) //@end%d\n", v.id, v.id, v.id)
	default:
		fmt.Fprintf(&b, "\treturn 0 //@ret%d\n", v.id)
	}
	b.WriteString("}\n\n")
	v.pkg.text(v.file, "%s", b.String())
}

func (p *cgProj) write() {
	for _, q := range p.pkgs {
		zero := false
		for file, t := range q.files {
			name := q.name
			if strings.HasSuffix(file, "_ext_test.go") {
				name += "_test"
			}
			var b strings.Builder
			fmt.Fprintf(&b, "package %s\n\n", name)
			body := p.final(t.body.String())
			var imps []string
			for i := range q.imports[file] {
				if i != "" {
					imps = append(imps, i)
				}
			}
			sort.Strings(imps)
			for _, i := range imps {
				fmt.Fprintf(&b, "import %q\n", i)
			}
			zero = zero || strings.Contains(body, "Zero()")
			if name != q.name && strings.Contains(body, "Zero()") {
				b.WriteString("\nfunc Zero() int { return 0 }\n")
			}
			vfWrite(filepath.Join(p.dir, q.dir, file), b.String()+"\n"+body)
		}
		if len(q.files) > 0 {
			vfWrite(filepath.Join(p.dir, q.dir, "zero.go"), "package "+q.name+"\n\nfunc Zero() int { return 0 }\n")
		}
	}
}

// cgGen makes a project with n functions and writes all but the tests.
func cgGen(rt *rapid.T, n int, extra func(p *cgProj, base []*cgFn)) *cgProj {
	p := &cgProj{dir: vfDir("cg"), forms: map[string]bool{}, group: map[string][]int{}, mains: map[string]bool{}, rename: map[string]string{}, taken: map[string]bool{}}
	p.root = filepath.Join(p.dir, "proj")
	p.sharing = rapid.IntRange(0, 2).Draw(rt, "sharing")
	p.work = rapid.IntRange(0, 3).Draw(rt, "workspace") == 0
	add := func(dir, path, name string, module bool, level int) {
		p.pkgs = append(p.pkgs, &cgPkg{dir: dir, path: path, name: name, module: module, level: level, files: map[string]*cgFileText{}, imports: map[string]map[string]bool{}})
	}
	depDir := rapid.SampledFrom([]string{"dep", "proj-dep", "pro"}).Draw(rt, "depdir")
	add(depDir+"/sub", "example.com/dep/sub", "sub", true, 0)
	add(depDir, "example.com/dep", "dep", true, 1)
	if p.work {
		add("proj/lib", "example.com/lib", "lib", false, 2)
		add("proj/app/b", "example.com/app/b", "b", false, 3)
		add("proj/app", "example.com/app", "app", false, 4)
		vfWrite(filepath.Join(p.root, "go.work"), "go 1.24\n\nuse (\n\t./lib\n\t./app\n)\n\nreplace example.com/dep => ../"+depDir+"\n")
		vfWrite(filepath.Join(p.root, "lib/go.mod"), "module example.com/lib\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n")
		vfWrite(filepath.Join(p.root, "app/go.mod"), "module example.com/app\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n")
	} else {
		add("proj/internal/c", "example.com/proj/internal/c", "c", false, 2)
		add("proj/b", "example.com/proj/b", "b", false, 3)
		add("proj", "example.com/proj", "proj", false, 4)
		vfWrite(filepath.Join(p.root, "go.mod"), "module example.com/proj\n\ngo 1.24\n\nrequire example.com/dep v1.0.0\n\nreplace example.com/dep => ../"+depDir+"\n")
	}
	vfWrite(filepath.Join(p.dir, depDir, "go.mod"), "module example.com/dep\n\ngo 1.24\n")
	mainDir, mainPath := "proj/cmd/tool", "example.com/proj/cmd/tool"
	if p.work {
		mainDir, mainPath = "proj/app/cmd", "example.com/app/cmd"
	}
	add(mainDir, mainPath, "main", false, 5)
	for range n {
		q := p.pkgs[rapid.IntRange(0, len(p.pkgs)-1).Draw(rt, "pkg")]
		file := rapid.SampledFrom([]string{"x.go", "x.go", "y.go", "z_gen.go", "w.pb.go"}).Draw(rt, "file")
		if q.module {
			file = "x.go"
		}
		v := p.newFn(rt, q, file, rapid.SampledFrom(cgKinds).Draw(rt, "kind"))
		if rapid.IntRange(0, 11).Draw(rt, "line") == 0 {
			v.line = rapid.SampledFrom([]string{"grammar.y:12", "nosuch.go:3", "x.go:1", "y.go:900"}).Draw(rt, "directive")
		}
		v.hidden = strings.HasSuffix(file, "_gen.go") || strings.HasSuffix(file, ".pb.go")
	}
	base := append([]*cgFn(nil), p.fns...)
	for _, u := range base {
		var can []*cgFn
		for _, v := range base {
			// recursion and calls within a package go any way, across packages downwards
			if v.pkg == u.pkg || v.pkg.level < u.pkg.level {
				can = append(can, v)
			}
		}
		for range rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 3}).Draw(rt, "ncalls") {
			p.callTo(rt, u, rapid.SampledFrom(can).Draw(rt, "callee"))
		}
	}
	for _, u := range base {
		p.emit(u)
	}
	// main and init
	for k, fn := range []string{"main", "init"} {
		q := p.pkgs[len(p.pkgs)-1]
		if fn == "init" {
			q = p.pkgs[rapid.IntRange(2, len(p.pkgs)-1).Draw(rt, "initpkg")]
		}
		r := &cgFn{id: len(p.fns), pkg: q, file: "x.go", kind: fn, name: fn, ident: q.path + ":" + fn, root: true}
		p.fns = append(p.fns, r)
		for range rapid.IntRange(k, 2).Draw(rt, "rootcalls") {
			var can []*cgFn
			for _, v := range base {
				if v.pkg == q || v.pkg.level < q.level {
					can = append(can, v)
				}
			}
			if len(can) > 0 {
				p.callTo(rt, r, rapid.SampledFrom(can).Draw(rt, "rootcallee"))
			}
		}
		if fn == "main" {
			// methods of generic types exist for the analysis only where the project instantiates them
			for _, v := range base {
				if v.kind == "genmeth" {
					s := v.qual(q, "x.go")
					r.calls = append(r.calls, fmt.Sprintf("_ = (&%sT%d[int]{}).M%d(%sP%d{})", s, v.id, v.id, s, v.id))
					r.must = append(r.must, v.id)
				}
			}
		}
		q.text("x.go", "func %s() {\n", fn)
		for _, c := range r.calls {
			q.text("x.go", "\t%s\n", c)
		}
		q.text("x.go", "}\n\n")
	}
	if extra != nil {
		extra(p, base)
	}
	return p
}

// reach gives the functions from which target can be reached over the edges,
// not going further up from functions for which stop is true.
func (p *cgProj) reach(target int, may bool, stop func(*cgFn) bool) map[int]bool {
	in := map[int][]int{}
	for _, u := range p.fns {
		for _, v := range u.must {
			in[v] = append(in[v], u.id)
		}
		if may {
			for _, v := range u.may {
				in[v] = append(in[v], u.id)
			}
		}
	}
	seen := map[int]bool{target: true}
	todo := []int{target}
	for len(todo) > 0 {
		v := todo[0]
		todo = todo[1:]
		if stop(p.fns[v]) && v != target {
			continue
		}
		for _, u := range in[v] {
			if !seen[u] {
				seen[u] = true
				todo = append(todo, u)
			}
		}
	}
	return seen
}

// lines gives the numbers of the lines of the file containing the mark.
func (p *cgProj) lines(v *cgFn, mark string) map[int]bool {
	out := map[int]bool{}
	for i, l := range strings.Split(vfRead(filepath.Join(p.dir, v.pkg.dir, v.file)), "\n") {
		if j := strings.Index(l, mark); j >= 0 && !(j+len(mark) < len(l) && l[j+len(mark)] >= '0' && l[j+len(mark)] <= '9') {
			out[i+1] = true
		}
	}
	return out
}
