package lens

// Generated executable Go programs. Every function is rendered twice: as plain
// source, and as a reference in which the generator, which knows all scopes and
// types, sends the messages itself.

import (
	"context"
	"fmt"
	"go/token"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type pgVar struct {
	name string
	typ  string
	cons bool // constant
}

type pgFunc struct {
	name    string
	recv    string // receiver type expression or ""
	generic bool   // has type parameter T
	params  []pgVar
	variad  bool
	results []pgVar // name "" if unnamed
	named   bool
	plain   string
	ref     string
	returns map[int]*pgRet // by reference point id
	file    string
	rets    int
	panics  bool // ends in panic, without a return
	line    int
	forms   map[string]bool
}

type pgRet struct {
	idents map[int]string // result index -> identifier returned
	consts map[string]bool
}

type pgProg struct {
	funcs []*pgFunc
	calls []string
	test  bool // in test files
	long  bool // has long strings, which are captured
	dep   bool // uses a package without export data, so that type information is unavailable
}

type pgGen struct {
	rt      *rapid.T
	frames  []map[string]pgVar
	tag     int
	fn      *pgFunc
	done    []*pgFunc
	out     []string
	repl    map[string][2]string // marker -> plain, reference
	refID   int
	loop    int
	labels  int
	budget  int
	noCall  bool
	noPanic bool
	forms   map[string]bool
	comment int
	inLit   int // inside a function literal
	shadow  bool
	long    bool
}

var pgTypes = []string{"int", "string", "bool", "float64", "uint8", "uint64", "MyInt", "S", "*S", "[]int", "map[string]int", "error", "any", "I", "func(int) int", "[2]int", "time.Duration", "*B[int]", "[]S"}

// one alias per type, under a name no generated variable has
func pgAlias(t string) string {
	if t == "T" {
		return "T"
	}
	for i, x := range pgTypes {
		if x == t {
			return fmt.Sprintf("zT%d", i)
		}
	}
	panic("type " + t)
}

var pgIdentRe = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

func (g *pgGen) n(lo, hi int, what string) int { return rapid.IntRange(lo, hi).Draw(g.rt, what) }
func (g *pgGen) p(one int, what string) bool {
	return rapid.IntRange(0, one-1).Draw(g.rt, what) == one-1
}

func (g *pgGen) push() { g.frames = append(g.frames, map[string]pgVar{}) }
func (g *pgGen) pop()  { g.frames = g.frames[:len(g.frames)-1] }

func (g *pgGen) lookup(name string) (pgVar, bool) {
	for i := len(g.frames) - 1; i >= 0; i-- {
		if v, ok := g.frames[i][name]; ok {
			return v, true
		}
	}
	return pgVar{}, false
}

// ok says that none of the identifiers in the text is shadowed by a variable.
func (g *pgGen) ok(text string) bool {
	for _, id := range pgIdentRe.FindAllString(text, -1) {
		if _, shadowed := g.lookup(id); shadowed {
			return false
		}
	}
	return true
}

func (g *pgGen) visible() []pgVar {
	seen := map[string]pgVar{}
	for _, f := range g.frames {
		for n, v := range f {
			seen[n] = v
		}
	}
	var out []pgVar
	for _, n := range vfKeys(seen) {
		out = append(out, seen[n])
	}
	return out
}

func (g *pgGen) varOf(typ string) (string, bool) {
	var c []string
	for _, v := range g.visible() {
		if v.typ == typ && !v.cons {
			c = append(c, v.name)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	return rapid.SampledFrom(c).Draw(g.rt, "var"), true
}

func (g *pgGen) nextTag() string {
	g.tag++
	return fmt.Sprintf("%s.%d", g.fn.name, g.tag)
}

// mk is an expression of the type which uses no name that can be shadowed.
func (g *pgGen) mk(typ string) string {
	if typ == "T" {
		if v, ok := g.varOf("T"); ok {
			return v
		}
		return "*zNew[T]()"
	}
	for i, t := range pgTypes {
		if t == typ {
			return fmt.Sprintf("zMk%d(%d)", i, g.n(0, 4, "mk"))
		}
	}
	panic(typ)
}

// callTo makes a call of an earlier function with the given results.
func (g *pgGen) callTo(want []string) (string, bool) {
	if g.noCall {
		return "", false
	}
	var c []*pgFunc
	for _, f := range g.done {
		if len(f.results) != len(want) || !g.ok(f.name) {
			continue
		}
		same := true
		for i, r := range f.results {
			typ := r.typ
			if typ == "T" {
				typ = "int"
			}
			if typ != want[i] {
				same = false
			}
		}
		if same {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	f := rapid.SampledFrom(c).Draw(g.rt, "callee")
	return g.callExpr(f, false)
}

func (g *pgGen) callExpr(f *pgFunc, driver bool) (string, bool) {
	var args []string
	for i, p := range f.params {
		t := p.typ
		if f.variad && i == len(f.params)-1 {
			for range g.n(0, 2, "nvar") {
				args = append(args, g.atom("int"))
			}
			continue
		}
		if t == "T" {
			t = "int"
		}
		args = append(args, g.atom(t))
	}
	fun := f.name
	switch f.recv {
	case "":
		if f.generic {
			if !g.ok("int") {
				return "", false
			}
			fun += "[int]"
		}
	case "S":
		fun = g.mk("S") + "." + fun
	case "*S":
		fun = fmt.Sprintf("zMkPS(%d).", g.n(0, 4, "recv")) + fun
	case "*B[T]":
		fun = fmt.Sprintf("zMkB(%d).", g.n(0, 4, "recv")) + fun
	}
	return fun + "(" + strings.Join(args, ", ") + ")", true
}

// atom is a simple total expression of the type, without calls of traced functions.
func (g *pgGen) atom(typ string) string {
	nc, np := g.noCall, g.noPanic
	g.noCall, g.noPanic = true, true
	defer func() { g.noCall, g.noPanic = nc, np }()
	return g.expr(typ, 0)
}

// effect makes an expression of one of the kinds there are besides calls,
// the operands of which are seen to be evaluated.
func (g *pgGen) effect(typ string, d int) (string, bool) {
	if g.noCall {
		return "", false
	}
	ti := func(e string) string { return fmt.Sprintf("ti(%q, %s)", g.nextTag(), e) }
	ts := func(e string) string { return fmt.Sprintf("ts(%q, %s)", g.nextTag(), e) }
	k := g.n(0, 7, "effectkind")
	var s, names, form string
	switch typ {
	case "int", "any":
		switch k {
		case 0:
			s, names, form = "[]int{4, "+ti(g.expr("int", d))+"}["+ti("1")+"]", "int", "index"
		case 1:
			s, names, form = "map[string]int{\"a\": 3, \"b c\": "+ti(g.expr("int", d))+"}["+ts(g.expr("string", d))+"]", "string int", "map index"
		case 2:
			s, names, form = "S{A: "+ti(g.expr("int", d))+"}.A", "S", "selector"
		case 3:
			s, names, form = "zMkPS("+ti("2")+").A", "", "selector of a call"
		case 4:
			s, names, form = "any("+ti(g.expr("int", d))+").(int)", "any int", "assertion"
		case 5:
			s, names, form = "-"+ti(g.expr("int", d)), "", "unary"
		case 6:
			s, names, form = "zMk9("+ti("4")+")["+ti("1")+":][0]", "", "index of a slice"
		case 7:
			s, names, form = "<-zCh("+ti("3")+")", "", "receive"
		}
	case "string":
		switch {
		case k < 3:
			s, form = "("+ts(g.expr("string", d))+" + \"xyz\")["+ti("1")+":3]", "slice expression"
		case k < 5:
			s, names, form = "any("+ts(g.expr("string", d))+").(string)", "any string", "assertion"
		case k < 6:
			s, names, form = "[]string{"+ts(g.expr("string", d))+", \"q\"}["+ti("0")+"]", "string", "index"
		default:
			s, form = "zMkPS("+ti("3")+").B", "selector of a call"
		}
	case "S":
		switch {
		case k < 3:
			s, form = "*zMkPS("+ti("1")+")", "dereference"
		case k < 5:
			s, form = "zMk18("+ti("3")+")["+ti("2")+"]", "index"
		default:
			s, names, form = "S{"+ti(g.expr("int", d))+", "+ts(g.expr("string", d))+"}", "S", "literal"
		}
	case "*S":
		switch {
		case k < 4:
			s, form = "&zMk18("+ti("3")+")["+ti("1")+"]", "address"
		default:
			s, names, form = "&S{"+ti(g.expr("int", d))+", "+ts(g.expr("string", d))+"}", "S", "address of a literal"
		}
	case "[]int":
		switch {
		case k < 4:
			s, form = "zMk9("+ti("4")+")["+ti("1")+":"+ti("3")+":4]", "slice expression"
		default:
			s, names, form = "[]int{"+ti(g.expr("int", d))+", 2: "+ti("7")+"}", "int", "literal"
		}
	case "[]S":
		s, form = "zMk18("+ti("4")+")[:"+ti("2")+"]", "slice expression"
	case "map[string]int":
		s, names, form = "map[string]int{"+ts(g.expr("string", d))+": "+ti(g.expr("int", d))+"}", "string int", "literal"
	case "bool":
		if k < 4 {
			s, form = ti(g.expr("int", d))+" < "+ti(g.expr("int", d)), "comparison"
		} else {
			s, names, form = "any("+ti(g.expr("int", d))+").(int) == "+ti("4"), "any int", "comparison"
		}
	case "[2]int":
		s, names, form = "[...]int{"+ti(g.expr("int", d))+", "+ti("5")+"}", "int", "literal"
	case "MyInt", "time.Duration":
		if typ == "MyInt" {
			s, names, form = "MyInt("+ti(g.expr("int", d))+")", "MyInt", "conversion"
		} else {
			s, names, form = "time.Second * time.Duration("+ti(g.expr("int", d))+")", "time", "arithmetic"
		}
	case "error":
		s, form = "&MyErr{"+ti(g.expr("int", d))+"}", "address of a literal"
	case "*B[int]":
		s, names, form = "&B[int]{V: "+ti(g.expr("int", d))+"}", "B int", "address of a literal"
	default:
		return "", false
	}
	if names != "" && !g.ok(names) {
		return "", false
	}
	g.form("operands: " + form)
	return s, true
}

// expr makes an expression assignable to the type.
func (g *pgGen) expr(typ string, depth int) string {
	if v, ok := g.varOf(typ); ok && g.p(2, "usevar") {
		return v
	}
	if depth > 0 && g.p(5, "call") {
		if s, ok := g.callTo([]string{typ}); ok {
			return s
		}
	}
	if depth > 0 && g.p(6, "effect") {
		if s, ok := g.effect(typ, depth-1); ok {
			if typ == "bool" {
				return "(" + s + ")"
			}
			return s
		}
	}
	k := g.n(0, 9, "expr")
	d := depth - 1
	if depth <= 0 {
		k = k % 3
	}
	use := func(names, s string) string {
		if names != "" && !g.ok(names) {
			return g.mk(typ)
		}
		return s
	}
	switch typ {
	case "T":
		return g.mk("T")
	case "int":
		switch k {
		case 0, 1:
			return fmt.Sprint(g.n(-2, 9, "lit"))
		case 2:
			return "pkgConst"
		case 3:
			return "(" + g.expr("int", d) + rapid.SampledFrom([]string{" + ", " - ", " * ", " & ", " ^ "}).Draw(g.rt, "op") + g.expr("int", d) + ")"
		case 4:
			if g.noCall {
				return g.mk(typ)
			}
			return fmt.Sprintf("ti(%q, %s)", g.nextTag(), g.expr("int", d))
		case 5:
			if v, ok := g.varOf("[]int"); ok && !g.noPanic {
				return v + "[zI(" + g.atom("int") + ")]"
			}
			if v, ok := g.varOf("map[string]int"); ok {
				return v + "[" + g.atom("string") + "]"
			}
			return g.mk(typ)
		case 6:
			if v, ok := g.varOf("*S"); ok && !g.noPanic {
				return v + ".A"
			}
			if v, ok := g.varOf("S"); ok {
				return v + ".A"
			}
			return use("S", "S{A: "+g.expr("int", d)+"}.A")
		case 7:
			if g.noPanic {
				return use("len", "len("+g.expr("string", d)+")")
			}
			return "(" + g.expr("int", d) + " / zI(" + g.atom("int") + "))"
		case 8:
			if g.noCall {
				return g.mk(typ)
			}
			return use("int", fmt.Sprintf("func(q int) int {\nreturn q + %s\n}(%s)", g.lit(func() string { return g.expr("int", 0) }), g.expr("int", d)))
		default:
			return use("uint", "1 << uint(zI("+g.atom("int")+")&3)")
		}
	case "string":
		switch k {
		case 0, 1:
			return fmt.Sprintf("%q", rapid.SampledFrom([]string{"", "a", "b c", "// x", "\n", "}", "ä"}).Draw(g.rt, "str"))
		case 2:
			if g.long {
				return "zLong()"
			}
			return "`raw\n// text\n}`"
		case 3, 4:
			return "(" + g.expr("string", d) + " + " + g.expr("string", d) + ")"
		case 5, 6:
			if g.noCall {
				return g.mk(typ)
			}
			return fmt.Sprintf("ts(%q, %s)", g.nextTag(), g.expr("string", d))
		default:
			return use("strconv", "strconv.Itoa("+g.expr("int", d)+")")
		}
	case "bool":
		switch k {
		case 0:
			return use("true", "true")
		case 1:
			return use("false", "false")
		case 2, 3:
			return "(" + g.expr("int", d) + rapid.SampledFrom([]string{" < ", " == ", " != "}).Draw(g.rt, "cmp") + g.expr("int", d) + ")"
		case 4:
			return "!" + g.expr("bool", d)
		case 5, 6:
			return "(" + g.expr("bool", d) + rapid.SampledFrom([]string{" && ", " || "}).Draw(g.rt, "logic") + g.expr("bool", d) + ")"
		default:
			if g.noCall {
				return g.mk(typ)
			}
			return fmt.Sprintf("tb(%q, %s)", g.nextTag(), g.expr("bool", d))
		}
	case "float64":
		switch k {
		case 0:
			return "1.5"
		case 1:
			return "2"
		case 2:
			return "pkgConst"
		default:
			return use("float64", "float64(zI("+g.expr("int", d)+")) * 0.5")
		}
	case "uint8":
		switch k {
		case 0, 1:
			return "200"
		case 2:
			return "'a'"
		case 3, 4:
			return use("uint8", "1 << uint8(zI("+g.atom("int")+")&3)")
		default:
			return use("uint8", "uint8(zI("+g.expr("int", d)+"))")
		}
	case "uint64":
		switch k {
		case 0, 1:
			return "18446744073709551615"
		case 2:
			return "1 << 63"
		case 3, 4:
			return use("uint64", "1 << (uint64(zI("+g.atom("int")+")) % 8)")
		default:
			return use("uint64", "uint64(zI("+g.expr("int", d)+"))")
		}
	case "MyInt":
		switch k {
		case 0:
			return fmt.Sprint(g.n(-2, 9, "lit"))
		case 1:
			return "myConst"
		case 2:
			return "pkgConst"
		default:
			return use("MyInt", "MyInt("+g.expr("int", d)+")")
		}
	case "time.Duration":
		switch k {
		case 0:
			return "5"
		case 1:
			return use("time", "2 * time.Second")
		default:
			return use("time", "time.Duration("+g.expr("int", d)+")")
		}
	case "S":
		if k == 4 && !g.noPanic {
			if v, ok := g.varOf("*S"); ok {
				return "*" + v
			}
		}
		if k == 5 {
			return use("S", "S{\nA: "+g.expr("int", d)+",\nB: "+g.expr("string", d)+",\n}")
		}
		return use("S", "S{A: "+g.expr("int", d)+", B: "+g.expr("string", d)+"}")
	case "*S":
		switch {
		case k == 0:
			return use("nil", "nil")
		case k < 6:
			return use("S", "&S{A: "+g.expr("int", d)+"}")
		default:
			if v, ok := g.varOf("S"); ok {
				return "&" + v
			}
			return g.mk(typ)
		}
	case "[]int":
		switch {
		case k == 0:
			return use("nil", "nil")
		case k < 6:
			return use("int", "[]int{"+g.expr("int", d)+", "+g.expr("int", d)+"}")
		default:
			return use("append", "append("+g.mk(typ)+", "+g.expr("int", d)+")")
		}
	case "[]S":
		if k == 0 {
			return use("nil", "nil")
		}
		return use("S", "[]S{{A: "+g.expr("int", d)+"}, {B: "+g.expr("string", d)+"}}")
	case "map[string]int":
		if k == 0 {
			return use("nil", "nil")
		}
		return use("string int", "map[string]int{"+"\"k\": "+g.expr("int", d)+"}")
	case "error":
		switch {
		case k == 0:
			return use("nil", "nil")
		case k < 4:
			return use("errors", "errors.New("+g.expr("string", d)+")")
		case k < 6:
			return "&MyErr{" + g.expr("int", d) + "}"
		case k < 7:
			return "(*MyErr)(" + use2(g, "nil", "nil", "zNilErr") + ")"
		default:
			if g.noCall {
				return g.mk(typ)
			}
			return fmt.Sprintf("te(%q, %s)", g.nextTag(), g.expr("error", d))
		}
	case "any":
		switch k {
		case 0:
			return use("nil", "nil")
		case 1:
			return fmt.Sprint(g.n(0, 9, "lit"))
		case 2:
			return "\"any\""
		default:
			t := rapid.SampledFrom([]string{"int", "string", "S", "*S", "[]int", "error", "bool", "float64", "MyInt"}).Draw(g.rt, "dyn")
			return g.expr(t, d)
		}
	case "I":
		switch k {
		case 0:
			return use("nil", "nil")
		case 1:
			return "myConst"
		default:
			return use("MyInt", "MyInt("+g.expr("int", d)+")")
		}
	case "func(int) int":
		switch {
		case k == 0:
			return use("nil", "nil")
		case k < 3:
			return "dbl"
		default:
			return use("int", fmt.Sprintf("func(q int) int {\nif q > 3 {\nreturn q\n}\nreturn q + %s\n}", g.lit(func() string { return g.atom("int") })))
		}
	case "[2]int":
		return use("int", "[2]int{"+g.expr("int", d)+", "+g.expr("int", d)+"}")
	case "*B[int]":
		if k == 0 {
			return use("nil", "nil")
		}
		return use("B int", "&B[int]{V: "+g.expr("int", d)+"}")
	}
	panic("expr of " + typ)
}

func use2(g *pgGen, names, s, alt string) string {
	if g.ok(names) {
		return s
	}
	return alt
}

// pgHdr makes an expression fit for the header of a statement.
func pgHdr(s string) string {
	if strings.Contains(s, "{") {
		return "(" + s + ")"
	}
	return s
}

// lit runs f for an expression inside a function literal with parameter q.
func (g *pgGen) lit(f func() string) string {
	g.push()
	g.frames[len(g.frames)-1]["q"] = pgVar{name: "q", typ: "int"}
	g.inLit++
	defer func() { g.inLit--; g.pop() }()
	return f()
}

func (g *pgGen) emit(f string, a ...any) { g.out = append(g.out, fmt.Sprintf(f, a...)) }

func (g *pgGen) maybeComment() {
	if g.comment == 0 {
		return
	}
	switch g.n(0, 11, "comment") {
	case 0:
		g.emit("// own line comment")
	case 1:
		if n := len(g.out); n > 0 && !strings.Contains(g.out[n-1], "\n") && !strings.Contains(g.out[n-1], "//") {
			g.out[n-1] += " // trailing comment"
		}
	case 2:
		g.emit("/* block\n comment */")
	case 3:
		g.emit("")
	}
}

var pgNames = []string{"a", "b", "c", "x", "y", "err", "ok", "v"}
var pgShadowNames = []string{"S", "MyInt", "errors", "time", "len", "string", "int", "error", "B", "strconv", "I"}

func (g *pgGen) freshName(what string) (string, bool) {
	pool := pgNames
	if g.shadow && g.p(4, "shadowname") {
		pool = pgShadowNames
	}
	n := rapid.SampledFrom(pool).Draw(g.rt, what)
	if _, taken := g.frames[len(g.frames)-1][n]; taken {
		return "", false
	}
	return n, true
}

func (g *pgGen) declare(v pgVar) { g.frames[len(g.frames)-1][v.name] = v }

func (g *pgGen) randType() string {
	if g.fn.generic && g.p(6, "typeT") {
		return "T"
	}
	return rapid.SampledFrom(pgTypes).Draw(g.rt, "type")
}

// marker registers a piece of code that differs between plain and reference.
func (g *pgGen) marker(plain, ref string) {
	m := fmt.Sprintf("@@%d@@", len(g.repl))
	g.repl[m] = [2]string{plain, ref}
	g.emit("%s", m)
}

func (g *pgGen) snaps() string {
	var b strings.Builder
	for _, v := range g.visible() {
		if v.cons || v.typ == "recv" {
			continue
		}
		fmt.Fprintf(&b, ", lensMonitorFieldSnapshot{Name: %q, Val: %s}", v.name, v.name)
	}
	return b.String()
}

// ret emits a return statement.
func (g *pgGen) ret() {
	f := g.fn
	id, r := g.newRet()
	if len(f.results) == 0 {
		g.marker("return", fmt.Sprintf("sendLensPointStateMessage(%d%s)\nreturn", id, g.snaps()))
		return
	}
	if f.named && g.p(3, "bare") {
		ok := true
		for _, res := range f.results {
			if res.name == "_" {
				continue
			}
			for _, fr := range g.frames[1:] {
				if _, sh := fr[res.name]; sh {
					ok = false
				}
			}
		}
		if ok {
			g.form("bare return")
			extra := ""
			for i, res := range f.results {
				if res.name != "_" {
					extra += fmt.Sprintf(", lensMonitorFieldSnapshot{Name: \"#%d\", Val: %s}", i, res.name)
					r.idents[i] = res.name
				}
			}
			g.marker("return", fmt.Sprintf("sendLensPointStateMessage(%d%s%s)\nreturn", id, g.snaps(), extra))
			return
		}
	}
	types, zs, tail := g.retTail(id)
	if len(types) > 1 && g.p(3, "multi") {
		if call, ok := g.callTo(types); ok {
			g.form("multi-value return")
			if g.p(4, "paren") {
				call = "(" + call + ")"
				g.form("parenthesized multi-value return")
			}
			g.retMulti(call, types, zs, tail)
			return
		}
	}
	np := g.noPanic
	if len(types) > 1 {
		g.noPanic = true // the order of a panic and a call within one statement is left open
	}
	ref := "{\n"
	var exprs []string
	for i, t := range types {
		e, ok := "", false
		if g.p(4, "returneffect") {
			e, ok = g.effect(t, g.n(0, 1, "depth"))
		}
		if !ok {
			e = g.expr(t, g.n(0, 2, "depth"))
		}
		if token.IsIdentifier(e) {
			r.idents[i] = e
		}
		exprs = append(exprs, e)
		ref += fmt.Sprintf("var zr%d %s = %s\n", i, pgAlias(t), e)
	}
	g.noPanic = np
	g.marker("return "+strings.Join(exprs, ", "), ref+tail)
}

// retMulti emits the return of a call with all results of the function.
func (g *pgGen) retMulti(call string, types, zs []string, tail string) {
	ref := "{\n"
	for i, t := range types {
		ref += fmt.Sprintf("var zr%d %s\n", i, pgAlias(t))
	}
	g.marker("return "+call, ref+strings.Join(zs, ", ")+" = "+call+"\n"+tail)
}

// retCall emits the return of a call of the function itself.
func (g *pgGen) retCall(call string) {
	id, _ := g.newRet()
	types, zs, tail := g.retTail(id)
	g.retMulti(call, types, zs, tail)
}

func (g *pgGen) newRet() (int, *pgRet) {
	g.fn.rets++
	g.refID++
	r := &pgRet{idents: map[int]string{}, consts: map[string]bool{}}
	for _, v := range g.visible() {
		if v.cons || v.typ == "recv" {
			r.consts[v.name] = true
		}
	}
	g.fn.returns[g.refID] = r
	return g.refID, r
}

func (g *pgGen) retTail(id int) (types, zs []string, tail string) {
	var sends []string
	for i, res := range g.fn.results {
		types = append(types, res.typ)
		zs = append(zs, fmt.Sprintf("zr%d", i))
		sends = append(sends, fmt.Sprintf(", lensMonitorFieldSnapshot{Name: \"#%d\", Val: zr%d}", i, i))
	}
	return types, zs, fmt.Sprintf("sendLensPointStateMessage(%d%s%s)\nreturn %s\n}", id, g.snaps(), strings.Join(sends, ""), strings.Join(zs, ", "))
}

func (g *pgGen) form(s string) { g.forms[s] = true; g.fn.forms[s] = true }

// block emits statements in a new scope.
func (g *pgGen) block(depth int) {
	g.push()
	for range g.n(0, 2, "len") {
		g.stmt(depth)
	}
	if g.loop == 0 && g.p(3, "return") || g.loop > 0 && g.p(6, "return") {
		g.maybeComment()
		g.ret()
	}
	g.pop()
}

func (g *pgGen) define() {
	name, ok := g.freshName("name")
	if !ok {
		return
	}
	typ := g.randType()
	if typ != "T" && g.ok(typ) && g.p(2, "var") {
		if g.p(4, "zero") {
			g.emit("var %s %s", name, typ)
		} else {
			g.emit("var %s %s = %s", name, typ, g.expr(typ, 2))
		}
	} else {
		g.emit("%s := %s", name, g.mk(typ))
	}
	g.declare(pgVar{name: name, typ: typ})
	g.emit("_ = %s", name)
}

func (g *pgGen) assign() {
	var c []pgVar
	for _, v := range g.visible() {
		if !v.cons && v.typ != "recv" && v.typ != "loop" {
			c = append(c, v)
		}
	}
	if len(c) == 0 {
		return
	}
	v := rapid.SampledFrom(c).Draw(g.rt, "target")
	g.emit("%s = %s", v.name, g.expr(v.typ, 2))
}

func (g *pgGen) stmt(depth int) {
	g.budget--
	g.maybeComment()
	k := g.n(0, 25, "stmt")
	if depth <= 0 || g.budget < 0 {
		k = k % 6
	}
	switch k {
	case 0, 1:
		g.define()
	case 2:
		g.assign()
	case 3:
		g.emit("tr(%q)", g.nextTag())
	case 4:
		g.emit("ti(%q, %s)", g.nextTag(), g.expr("int", 2))
	case 5:
		if name, ok := g.freshName("const"); ok {
			val := rapid.SampledFrom([]string{"7", "1 << 20", "\"c\"", "2.5", "'c'", "true", "1 << 70", "1e300 * 1e300"}).Draw(g.rt, "cval")
			if val == "true" && !g.ok("true") {
				val = "7"
			}
			if strings.HasPrefix(val, "1 << 70") || strings.HasPrefix(val, "1e300") {
				g.form("constant out of range of its default type")
			}
			g.emit("const %s = %s", name, val)
			g.declare(pgVar{name: name, typ: "const", cons: true})
			g.form("local constant")
		}
	case 6, 7, 8: // if chain
		g.push()
		init := ""
		if g.p(3, "init") {
			if name, ok := g.freshName("init"); ok {
				init = name + " := " + g.mk("int") + "; "
				g.declare(pgVar{name: name, typ: "int"})
				init += "_ifuse(" + name + ") && "
			}
		}
		g.emit("if %s%s {", strings.Replace(init, "_ifuse", "zUse", 1), pgHdr(g.expr("bool", 2)))
		g.block(depth - 1)
		for range g.n(0, 3, "elseifs") {
			g.form("else if")
			g.emit("} else if %s {", pgHdr(g.expr("bool", 1)))
			g.block(depth - 1)
		}
		if g.p(2, "else") {
			g.emit("} else {")
			g.block(depth - 1)
		}
		g.emit("}")
		g.pop()
	case 9, 10: // loops
		g.push()
		g.loop++
		lbl := ""
		if g.p(4, "label") {
			g.labels++
			lbl = fmt.Sprintf("L%d", g.labels)
			g.emit("%s:", lbl)
			g.form("labeled loop")
		}
		switch g.n(0, 4, "loopkind") {
		case 0:
			name, ok := g.freshName("i")
			if !ok {
				name = "i"
			}
			g.emit("for %s := 0; %s < %d; %s++ {", name, name, g.n(0, 3, "n"), name)
			g.declare(pgVar{name: name, typ: "loop"})
		case 1:
			g.emit("for range %d {", g.n(0, 3, "n"))
		case 2:
			g.emit("for i, e := range %s {", "zMk9(2)")
			g.declare(pgVar{name: "i", typ: "loop"})
			g.declare(pgVar{name: "e", typ: "int"})
			g.emit("_, _ = i, e")
		case 3:
			g.emit("for k := range %s {", "zMk10(2)")
			g.declare(pgVar{name: "k", typ: "string"})
			g.emit("_ = k")
		case 4:
			g.labels++
			cn := fmt.Sprintf("z%d", g.labels)
			g.emit("for %s := 0; ; {", cn)
			g.declare(pgVar{name: cn, typ: "loop"})
			g.emit("%s++", cn)
			g.emit("if %s > %d {\nbreak\n}", cn, g.n(0, 2, "n"))
		}
		if lbl != "" {
			g.emit("if %s {\n%s %s\n}", pgHdr(g.atom("bool")), rapid.SampledFrom([]string{"break", "continue"}).Draw(g.rt, "jump"), lbl)
		}
		g.block(depth - 1)
		g.emit("}")
		g.loop--
		g.pop()
	case 11, 12: // switch
		g.form("switch")
		g.push()
		tagless := g.p(3, "tagless")
		if tagless {
			g.emit("switch {")
		} else {
			g.emit("switch %s {", pgHdr(g.expr("int", 1)))
		}
		n := g.n(0, 3, "cases")
		for i := range n {
			if tagless {
				g.emit("case %s:", g.expr("bool", 1))
			} else {
				g.emit("case %d:", i*2)
			}
			if i+1 < n && g.p(6, "fall") {
				g.emit("fallthrough")
			} else {
				g.block(depth - 1)
			}
		}
		if g.p(2, "default") {
			g.emit("default:")
			g.block(depth - 1)
		}
		g.emit("}")
		g.pop()
	case 13: // type switch
		g.form("type switch")
		v, ok := g.varOf("any")
		if !ok {
			v = g.mk("any")
		}
		if !g.ok("int string S MyInt error") {
			return
		}
		g.emit("switch tv := %s.(type) {", strings.Replace(v, "zMk", "zMk", 1))
		for _, c := range [][2]string{{"int", "int"}, {"string", "string"}, {"S, MyInt", "any"}, {"error", "error"}} {
			if g.p(2, "clause") {
				g.emit("case %s:", c[0])
				g.push()
				g.declare(pgVar{name: "tv", typ: c[1]})
				g.block(depth - 1)
				g.pop()
			}
		}
		g.emit("default:\n_ = tv\n}")
	case 14, 15: // select
		g.form("select")
		g.emit("select {")
		g.push()
		g.emit("case sv := <-zCh(%d):\n_ = sv", g.n(0, 4, "ch"))
		g.declare(pgVar{name: "sv", typ: "int"})
		g.block(depth - 1)
		g.pop()
		g.emit("default:")
		g.block(depth - 1)
		g.emit("}")
	case 16: // closure, with returns of its own
		if g.ok("int") {
			g.form("closure")
			g.labels++
			fnName := fmt.Sprintf("fn%d", g.labels)
			g.emit("%s := func(q int) int {\nif q > %d {\nreturn q\n}", fnName, g.n(0, 5, "n"))
			g.emit("return %s\n}", g.lit(func() string { return g.expr("int", 1) }))
			g.emit("ti(%q, %s(%s))", g.nextTag(), fnName, g.atom("int"))
			g.declare(pgVar{name: fnName, typ: "func(int) int"})
		}
	case 17: // defer
		g.form("defer")
		switch g.n(0, 2, "defer") {
		case 0:
			g.emit("defer tr(%q)", g.nextTag())
		case 1:
			g.emit("defer func() {\ntr(%q)\n}()", g.nextTag())
		case 2:
			if g.ok("recover nil") {
				g.form("recover")
				g.emit("defer func() {\nif zrec := recover(); zrec != nil {\ntrp(%q, zrec)", g.nextTag())
				if g.fn.named && g.fn.results[0].name != "_" && len(g.frames) == 1 && g.p(2, "setresult") {
					g.emit("%s = %s", g.fn.results[0].name, g.mk(g.fn.results[0].typ))
				}
				g.emit("}\n}()")
			}
		}
	case 18: // a deferred change of a named result
		if g.fn.named && g.fn.results[0].name != "_" && len(g.frames) == 1 {
			g.form("deferred result change")
			g.emit("defer func() {\n%s = %s\n}()", g.fn.results[0].name, g.mk(g.fn.results[0].typ))
		}
	case 19: // panic
		if g.ok("panic") {
			g.emit("if %s {\npanic(%s)\n}", pgHdr(g.expr("bool", 1)), g.expr("any", 1))
			g.form("panic")
		}
	case 20: // plain block
		g.emit("{")
		g.block(depth - 1)
		g.emit("}")
	case 21: // labeled block and goto
		g.labels++
		l := fmt.Sprintf("L%d", g.labels)
		c := fmt.Sprintf("zc%d", g.labels)
		g.emit("{\n%s := 0\n%s:\n%s++\nif %s < %d {\ngoto %s\n}\n}", c, l, c, c, g.n(0, 3, "n"), l)
		g.form("goto")
	case 22: // labeled switch with a return
		g.labels++
		l := fmt.Sprintf("L%d", g.labels)
		g.form("labeled switch")
		g.emit("%s:\nswitch {\ndefault:\nif %s {\nbreak %s\n}", l, pgHdr(g.expr("bool", 1)), l)
		g.block(depth - 1)
		g.emit("}")
	case 24, 25: // recursion
		if s, ok := g.callExpr(g.fn, false); ok && !g.fn.generic && g.ok(g.fn.name) && g.inLit == 0 {
			g.form("recursion")
			g.emit("if zFuel() {")
			switch {
			case len(g.fn.results) == 0:
				g.emit("%s", s)
			case g.fn.generic:
			default:
				g.retCall(s)
			}
			g.emit("}")
		}
	case 23: // single-line if
		g.push()
		g.emit("if %s {", pgHdr(g.expr("bool", 2)))
		g.ret()
		g.emit("}")
		g.pop()
	}
}

func pgGenFunc(rt *rapid.T, done []*pgFunc, refID *int, name string, forms map[string]bool, shadow, comments, long bool) *pgFunc {
	f := &pgFunc{name: name, returns: map[int]*pgRet{}, forms: map[string]bool{}}
	g := &pgGen{rt: rt, fn: f, done: done, repl: map[string][2]string{}, refID: *refID, budget: 12, forms: forms, shadow: shadow, long: long}
	if comments {
		g.comment = 1
	}
	g.push()
	switch g.n(0, 7, "kind") {
	case 0:
		f.recv = "S"
	case 1:
		f.recv = "*S"
	case 2:
		f.recv, f.generic = "*B[T]", true
	case 3:
		f.generic = true
	}
	if f.recv != "" {
		g.declare(pgVar{name: "recv", typ: "recv"})
	}
	var ps []string
	for range g.n(0, 4, "nparams") {
		n, ok := g.freshName("param")
		if !ok {
			continue
		}
		typ := g.randType()
		if g.p(8, "blank") {
			f.params = append(f.params, pgVar{"_", typ, false})
			ps = append(ps, "_ "+typ)
			continue
		}
		f.params = append(f.params, pgVar{n, typ, false})
		ps = append(ps, n+" "+typ)
		g.frames[0][n] = pgVar{name: n, typ: typ}
	}
	if g.p(8, "variadic") {
		if _, taken := g.frames[0]["rest"]; !taken {
			f.variad = true
			f.params = append(f.params, pgVar{"rest", "[]int", false})
			ps = append(ps, "rest ...int")
			g.frames[0]["rest"] = pgVar{name: "rest", typ: "[]int"}
		}
	}
	nres := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3}).Draw(rt, "nres")
	f.named = nres > 0 && g.p(3, "named")
	var rs []string
	for i := range nres {
		typ := g.randType()
		if !f.named {
			f.results = append(f.results, pgVar{typ: typ})
			rs = append(rs, typ)
			continue
		}
		n := fmt.Sprintf("r%d", i)
		if g.p(8, "blankres") {
			n = "_"
		} else {
			g.frames[0][n] = pgVar{name: n, typ: typ}
		}
		f.results = append(f.results, pgVar{n, typ, false})
		rs = append(rs, n+" "+typ)
	}
	for range g.n(0, 5, "nstmts") {
		g.stmt(3)
	}
	g.maybeComment()
	if nres > 0 {
		if f.rets == 0 && g.p(5, "onlypanics") && g.ok("panic") {
			g.emit("panic(%q)", "end of "+name)
			f.panics = true
		} else {
			g.ret()
		}
	} else if g.p(3, "explicit") {
		g.ret()
	} else {
		g.refID++
		r := &pgRet{idents: map[int]string{}, consts: map[string]bool{}}
		for _, v := range g.visible() {
			if v.cons || v.typ == "recv" {
				r.consts[v.name] = true
			}
		}
		f.returns[g.refID] = r
		g.form("falls off the end")
		g.marker("", fmt.Sprintf("sendLensPointStateMessage(%d%s)", g.refID, g.snaps()))
	}
	g.maybeComment()
	recv := ""
	if f.recv != "" {
		recv = "(recv " + f.recv + ") "
	}
	tp := ""
	if f.generic && f.recv == "" {
		tp = "[T any]"
	}
	res := strings.Join(rs, ", ")
	if len(rs) > 1 || f.named {
		res = "(" + res + ")"
	}
	doc := ""
	if comments && g.p(2, "doc") {
		doc = "// " + name + " has documentation.\n"
		if g.p(2, "directive") {
			doc += "//\n//go:noinline\n"
		}
	}
	text := doc + "func " + recv + name + tp + "(" + strings.Join(ps, ", ") + ") " + res + " @{@\n" + strings.Join(g.out, "\n") + "\n}\n"
	plain, ref := strings.Replace(text, "@{@", "{", 1), text
	var ms []string
	for m := range g.repl {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		plain = strings.ReplaceAll(plain, m, g.repl[m][0])
		ref = strings.ReplaceAll(ref, m, g.repl[m][1])
	}
	f.plain, f.ref = plain, ref
	*refID = g.refID
	return f
}

func (f *pgFunc) ident(pkg string) string {
	if f.recv != "" {
		return pkg + ":" + f.recv + "." + f.name
	}
	return pkg + ":" + f.name
}

func pgGenProg(rt *rapid.T, nfuncs int) (*pgProg, map[string]bool) {
	p := &pgProg{dep: rapid.Bool().Draw(rt, "dep")}
	forms := map[string]bool{}
	p.test = rapid.IntRange(0, 3).Draw(rt, "intest") == 0
	if p.test {
		forms["in test files"] = true
	}
	if p.long = rapid.IntRange(0, 2).Draw(rt, "long") == 0; p.long {
		forms["long values"] = true
	}
	if p.dep {
		forms["without type information"] = true
	}
	refID := 1000000
	for i := range nfuncs {
		shadow := rapid.IntRange(0, 3).Draw(rt, "shadow") == 0
		comments := rapid.IntRange(0, 2).Draw(rt, "comments") == 0
		f := pgGenFunc(rt, p.funcs, &refID, fmt.Sprintf("F%d", i), forms, shadow, comments, p.long)
		f.file = fmt.Sprintf("f%d.go", i%3)
		if p.test {
			f.file = fmt.Sprintf("f%d_test.go", i%3)
		}
		p.funcs = append(p.funcs, f)
	}
	dg := &pgGen{rt: rt, frames: []map[string]pgVar{{}}, fn: &pgFunc{name: "driver"}}
	for _, f := range p.funcs {
		for range 3 {
			c, _ := dg.callExpr(f, true)
			var rs []string
			for i := range f.results {
				rs = append(rs, fmt.Sprintf("r%d", i))
			}
			if len(rs) == 0 {
				p.calls = append(p.calls, fmt.Sprintf("call(%q, func() []any {\n%s\nreturn nil\n})", f.name, c))
			} else {
				l := strings.Join(rs, ", ")
				p.calls = append(p.calls, fmt.Sprintf("call(%q, func() []any {\n%s := %s\nreturn []any{%s}\n})", f.name, l, c, l))
			}
		}
	}
	return p, forms
}

const pgSupport = `package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

var _ = errors.New
var _ = strconv.Itoa
var _ = time.Second

type S struct {
	A int
	B string
}
type MyInt int

func (m MyInt) M() int { return int(m) }

type I interface{ M() int }
type MyErr struct{ N int }

func (e *MyErr) Error() string {
	if e == nil {
		return "nil MyErr"
	}
	return fmt.Sprint("MyErr ", e.N)
}

type B[T any] struct{ V T }

const pkgConst = 42
const myConst MyInt = 13

var zNilErr *MyErr

func dbl(i int) int { return i * 2 }

func zNew[T any]() *T { return new(T) }
func zI(i int) int { return i }
func zLong() string { return strings.Repeat("long value ", 7000) }
func zUse(...any) bool { return true }
func zMkPS(i int) *S {
	if i == 0 {
		return nil
	}
	return &S{i, "recv"}
}
func zMkB(i int) *B[int] { return &B[int]{i} }
func zCh(i int) chan int {
	c := make(chan int, 1)
	if i > 1 {
		c <- i
	}
	return c
}

func zMk0(i int) int                { return i - 1 }
func zMk1(i int) string             { return []string{"", "a", "bb", "c\nd", "k"}[i] }
func zMk2(i int) bool               { return i%2 == 0 }
func zMk3(i int) float64            { return float64(i) / 4 }
func zMk4(i int) uint8              { return uint8(i * 60) }
func zMk5(i int) uint64             { return uint64(i) << 61 }
func zMk6(i int) MyInt              { return MyInt(i) }
func zMk7(i int) S                  { return S{i, zMk1(i)} }
func zMk8(i int) *S                 { return zMkPS(i) }
func zMk9(i int) []int              { return []int{1, 2, 3, 4}[:i] }
func zMk10(i int) map[string]int    { return []map[string]int{nil, {}, {"k": 1}, {"a": 2}, {"": 3}}[i] }
func zMk11(i int) error             { return []error{nil, errors.New("e1"), &MyErr{2}, (*MyErr)(nil), errors.New("")}[i] }
func zMk12(i int) any               { return []any{nil, 1, "any", S{3, "x"}, &S{4, "y"}}[i] }
func zMk13(i int) I                 { return []I{nil, MyInt(1), MyInt(2), nil, MyInt(4)}[i] }
func zMk14(i int) func(int) int     { return []func(int) int{nil, dbl, dbl, nil, dbl}[i] }
func zMk15(i int) [2]int            { return [2]int{i, -i} }
func zMk16(i int) time.Duration     { return time.Duration(i) * time.Second }
func zMk17(i int) *B[int]           { return []*B[int]{nil, {1}, {2}, nil, {4}}[i] }
func zMk18(i int) []S               { return []S{{1, "p"}, {2, "q"}, {3, "r"}, {4, "s"}}[:i] }

type zT0 = int
type zT1 = string
type zT2 = bool
type zT3 = float64
type zT4 = uint8
type zT5 = uint64
type zT6 = MyInt
type zT7 = S
type zT8 = *S
type zT9 = []int
type zT10 = map[string]int
type zT11 = error
type zT12 = any
type zT13 = I
type zT14 = func(int) int
type zT15 = [2]int
type zT16 = time.Duration
type zT17 = *B[int]
type zT18 = []S

var fuel int

func zFuel() bool {
	fuel--
	return fuel >= 0
}

var steps int

func tr(tag string) {
	steps++
	if steps > 20000 {
		fmt.Println("too many steps")
		os.Exit(3)
	}
	fmt.Println("trace", tag)
}
func trp(tag string, r any)          { tr(tag + " recovered " + show(r)) }
func ti(tag string, i int) int       { tr(tag + " " + show(i)); return i }
func ts(tag string, s string) string { tr(tag + " " + show(s)); return s }
func tb(tag string, b bool) bool     { tr(tag + " " + show(b)); return b }
func te(tag string, e error) error   { tr(tag + " " + show(e)); return e }

func show(v any) string {
	s := show1(v)
	if len(s) > 400 {
		h := fnv.New64a()
		h.Write([]byte(s))
		return fmt.Sprint(s[:100], len(s), h.Sum64())
	}
	return s
}

func show1(v any) string {
	if v == nil {
		return "nil"
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Func:
		return fmt.Sprintf("%T nil=%v", v, rv.IsNil())
	case reflect.Pointer:
		if rv.IsNil() {
			return fmt.Sprintf("%T nil", v)
		}
		return "&" + show(rv.Elem().Interface())
	case reflect.Slice, reflect.Map:
		return fmt.Sprintf("%T %#v nil=%v", v, v, rv.IsNil())
	}
	if e, ok := v.(error); ok {
		return fmt.Sprintf("%T error %q", v, e.Error())
	}
	return fmt.Sprintf("%T %#v", v, v)
}

var _ = sort.Strings

func call(name string, f func() []any) {
	fmt.Println("call", name)
	fuel = 3
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("panic", name, show(r))
		}
	}()
	for i, r := range f() {
		fmt.Println("result", i, show(r))
	}
}

var run func()

func main() {
	run()
	fmt.Println("end")
}
`

func (p *pgProg) write(dir string, ref bool) {
	vfWrite(filepath.Join(dir, "go.mod"), "module example.com/prog\n\ngo 1.22\n")
	vfWrite(filepath.Join(dir, "support.go"), pgSupport)
	driver, entry, timp := "driver.go", "func init() { run = runAll }", ""
	if p.test {
		driver, entry, timp = "driver_test.go", "func TestRun(t *testing.T) { runAll() }", "\t\"testing\"\n"
	}
	vfWrite(filepath.Join(dir, driver), "package main\n\nimport (\n\t\"errors\"\n\t\"strconv\"\n\t\"time\"\n"+timp+")\n\nvar _ = errors.New\nvar _ = strconv.Itoa\nvar _ = time.Second\n\n"+entry+"\n\nfunc runAll() {\n"+strings.Join(p.calls, "\n")+"\n}\n")
	imp := ""
	if p.dep {
		vfWrite(filepath.Join(dir, "dep", "dep.go"), "package dep\n\nvar V = 1\n")
		imp = "\n\n\t_ \"example.com/prog/dep\""
	}
	by := map[string]*strings.Builder{}
	for _, f := range p.funcs {
		b := by[f.file]
		if b == nil {
			b = &strings.Builder{}
			by[f.file] = b
			b.WriteString("// File comment.\n\npackage main\n\nimport (\n\t\"errors\"\n\t\"strconv\"\n\t\"time\"" + imp + "\n)\n\nvar _ = errors.New\nvar _ = strconv.Itoa\nvar _ = time.Second\n\n")
		}
		if ref {
			b.WriteString(f.ref + "\n")
		} else {
			b.WriteString(f.plain + "\n")
		}
	}
	for n, b := range by {
		vfWrite(filepath.Join(dir, n), b.String())
	}
}

// pgBuild compiles the program; the second result is the compiler's complaint.
func pgBuild(dir string, test bool) (string, string) {
	bin := filepath.Join(dir, "prog.bin")
	cmd := exec.Command("go", "build", "-ldflags=-s -w", "-gcflags=-e", "-o", bin, ".")
	if test {
		cmd = exec.Command("go", "test", "-c", "-vet=off", "-ldflags=-s -w", "-gcflags=-e", "-o", bin, ".")
	}
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", string(out)
	}
	return bin, ""
}

// pgRun runs the program to its end.
func pgRun(bin string, port int) string {
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), fmt.Sprintf("LENS_MONITOR_PORT=%d", port))
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		vfHarnessErr("start: %v", err)
	}
	t := time.AfterFunc(120*time.Second, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err != nil {
		return out.String() + "\nexit: " + err.Error()
	}
	return out.String()
}

// pgRecorder keeps the messages of one run.
type pgRecorder struct {
	mu     sync.Mutex
	states []LensMonitorMessagePointState
	points []LensMonitorMessagePoint
	panics []LensMonitorMessagePointPanic
}

func (r *pgRecorder) HandleFuncPoint(m LensMonitorMessagePoint) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.points = append(r.points, m)
}
func (r *pgRecorder) HandleFuncPointState(m LensMonitorMessagePointState) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.states = append(r.states, m)
}
func (r *pgRecorder) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.panics = append(r.panics, m)
}

func (r *pgRecorder) reset() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.states, r.points, r.panics = nil, nil, nil
}

// pgSourceOf is the source of a function in the directory, from its declaration on.
func pgSourceOf(p *pgProg, dir string, fn int) string {
	f := p.funcs[fn]
	src := vfRead(filepath.Join(dir, f.file))
	if m := regexp.MustCompile(`(?s)func (\([^)]*\) )?` + f.name + `[\[(].*?\n}\n`).FindString(src); m != "" {
		return m
	}
	return src
}

// pgFirstDiff shows where two outputs part.
func pgFirstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(al) || i < len(bl); i++ {
		x, y := "<end>", "<end>"
		if i < len(al) {
			x = al[i]
		}
		if i < len(bl) {
			y = bl[i]
		}
		if x != y {
			lo := max(0, i-4)
			return fmt.Sprintf("line %d: %q vs %q after\n%s", i+1, x, y, strings.Join(al[lo:i], "\n"))
		}
	}
	return ""
}

// maxLen is the length up to which values are captured.
func (p *pgProg) maxLen() int {
	if p.long {
		return 200000
	}
	return 10000
}

// pgServer starts a monitoring server for the programs.
func pgServer(t *testing.T) (*pgRecorder, *astServer) {
	rec := &pgRecorder{}
	for range 20 {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vfHarnessErr("listen: %v", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		_ = l.Close()
		srv, err := astExecServerStart("127.0.0.1", port, rec, 1<<20)
		if err == nil {
			t.Cleanup(func() { _ = srv.Stop(context.Background()) })
			return rec, srv
		}
	}
	vfHarnessErr("no port for the monitoring server")
	return nil, nil
}
