package lens

// C15: inserting lines changes nothing but those lines.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

func init() {
	vfRule("a case is non-trivial if at least one line was inserted and the file has a literal or comment spanning lines inside a function")
}

// c15Multi makes statements in which code follows or precedes a literal or
// comment that spans lines.
func c15Multi(rt *rapid.T) string {
	return rapid.SampledFrom([]string{
		"s = `a\nb` + s",
		"s = `a\nb`; acc++",
		"s += `\n` + `\n` + s",
		"acc += max(len(`a\n\t\tb\n`), 2, acc)",
		"acc += max(\n\t`x\ny`[0:1][0] == 'x' && true == true == (acc > 1) == false,\n\t)",
		"/* c\n c */ acc++",
		"acc++ /* c\n\n c */ ; s += \"x\"",
		"acc += /* c\n c */ 2",
		"if s == `\n` {\n\tacc++\n\t}",
		"switch s {\n\tcase `a\nb`, `c`:\n\tacc++\n\tcase\n\t\"x\":\n\t}",
		"_ = []string{\n\t`a\nb`,\n\t\"c\", `\n`, \"d\",\n\t}",
		"s += `// mutator-disable-next-line *\n// x`",
		"_ = map[string]string{`k\n`: `v\n`, \"x\": \"y\"}",
		"for range `a\nb` { acc++\n\tacc-- }",
		"acc +=\n\t\t1 +\n\t\t2",
		"/*\n*/\n\tacc--",
		"if acc > 1 { acc++ } else { acc-- }",
		"goto end; end: acc++ // unused label is fine here",
	}).Draw(rt, "multi")
}

func c15LineOf(src string, pos token.Pos) int { // the file is the only one of its set
	return 1 + strings.Count(src[:min(int(pos)-1, len(src))], "\n")
}

// c15Info describes the function in src by counting newlines: the line of its
// start, the lines of its braces, and the lines inside it which surely are
// lines of code a text can be inserted before.
func c15Info(src, ident string) (start, open, closing int, must map[int]bool, within map[int]bool, multi bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		vfHarnessErr("generated source does not parse: %v\n%s", err, src)
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		name := fd.Name.Name
		if fd.Recv != nil {
			name = "R." + name
		}
		if name == ident {
			start, open, closing = c15LineOf(src, fd.Pos()), c15LineOf(src, fd.Body.Lbrace), c15LineOf(src, fd.Body.Rbrace)
		}
	}
	must, within = map[int]bool{}, map[int]bool{}
	fs2 := token.NewFileSet()
	tf := fs2.AddFile("x.go", -1, len(src))
	var s scanner.Scanner
	s.Init(tf, []byte(src), nil, scanner.ScanComments)
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		l := c15LineOf(src, pos)
		n := strings.Count(lit, "\n")
		switch {
		case tok == token.SEMICOLON:
			continue
		case (tok == token.STRING || tok == token.COMMENT) && n > 0:
			for k := 1; k <= n; k++ {
				within[l+k] = true
			}
			if l > open && l < closing {
				multi = true
			}
			continue
		case tok == token.COMMENT, tok == token.LBRACE, tok == token.RBRACE, tok == token.LPAREN, tok == token.RPAREN, tok == token.LBRACK, tok == token.RBRACK:
			continue
		}
		if l > open && l < closing {
			must[l] = true
		}
	}
	for l := range within {
		delete(must, l)
	}
	return
}

func TestC15InsertLines(t *testing.T) {
	dir := vfDir("c15")
	const text0 = "// mutator-disable-next-line *"
	vfRun(t, 3000, 60000, func(rt *rapid.T) {
		noise := rapid.SampledFrom([]int{0, 1, 2, 4, 8}).Draw(rt, "noise")
		src := "package p\n\ntype R struct{}\n\n"
		var idents []string
		var multi bool
		for i := range rapid.IntRange(1, 4).Draw(rt, "funcs") {
			f := &gsFunc{Name: fmt.Sprintf("F%d", i), Params: "acc int, s string", Result: rapid.SampledFrom([]string{"", "int", "string", "(int, error)"}).Draw(rt, "res")}
			if rapid.IntRange(0, 3).Draw(rt, "recv") == 0 {
				f.Recv = "R"
			}
			f.Stmts = gsStmts(rt, 4)
			for range rapid.IntRange(0, 3).Draw(rt, "nmulti") {
				at := rapid.IntRange(0, len(f.Stmts)).Draw(rt, "at")
				f.Stmts = slices.Insert(f.Stmts, at, c15Multi(rt))
			}
			body := f.source()
			if rapid.Bool().Draw(rt, "layout") {
				body = gsLayout(rt, body, noise)
			}
			switch rapid.IntRange(0, 6).Draw(rt, "form") {
			case 0: // on one line as far as possible
				body = fmt.Sprintf("func F%d(acc int, s string) { acc++; s += `x\ny`; acc-- }\n", i)
				f.Recv = ""
			case 1:
				body = fmt.Sprintf("func F%d() {}\n", i)
				f.Recv = ""
			}
			if rapid.IntRange(0, 4).Draw(rt, "linedir") == 0 {
				ls := strings.Split(body, "\n")
				_, _, _, _, within, _ := c15Info("package p\n"+body, "")
				at := rapid.IntRange(0, len(ls)-1).Draw(rt, "dirat")
				if !within[at+2] {
					body = strings.Join(slices.Insert(ls, at, rapid.SampledFrom([]string{"//line gen.y:3", "//line gen.y:900", "//line :1"}).Draw(rt, "dir")), "\n")
				}
			}
			if rapid.IntRange(0, 2).Draw(rt, "doc") == 0 {
				src += "// doc of it\n//\n// more\n"
			}
			src += body + strings.Repeat("\n", rapid.IntRange(0, 2).Draw(rt, "gap"))
			if f.Recv != "" {
				idents = append(idents, "R."+f.Name)
			} else {
				idents = append(idents, f.Name)
			}
		}
		if rapid.IntRange(0, 5).Draw(rt, "crlf") == 0 {
			src = strings.ReplaceAll(src, "\n", "\r\n")
		}
		file := filepath.Join(dir, "x.go")
		vfWrite(file, src)
		defer os.Remove(file + ".bkp")
		m := &ASTModifier{}
		type insertion struct {
			ident string
			text  string
			mask  uint64
			stop  int
			got   []int
			lines []string
			err   error
		}
		run := func(in *insertion) {
			n := 0
			in.err = m.InsertFuncLines(&Function{FilePath: file, PackageName: "example.com/p", FunctionIdent: "example.com/p:" + in.ident, FunctionName: in.ident}, func(i int, line string) (string, bool) {
				in.got = append(in.got, i)
				in.lines = append(in.lines, line)
				n++
				txt := ""
				if in.mask>>(i%64)&1 == 1 {
					txt = in.text
				}
				return txt, in.stop == 0 || n < in.stop
			})
		}
		draw := func(ident string) *insertion {
			in := &insertion{ident: ident, text: text0}
			if rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
				in.text = rapid.SampledFrom([]string{"// x", "//", "/* y */", "//nolint"}).Draw(rt, "text")
			}
			in.mask = rapid.SampledFrom([]uint64{^uint64(0), rapid.Uint64().Draw(rt, "mask")}).Draw(rt, "all")
			if rapid.IntRange(0, 4).Draw(rt, "stops") == 0 {
				in.stop = rapid.IntRange(1, 6).Draw(rt, "stop")
			}
			return in
		}
		check := func(before string, ins []*insertion) string {
			orig := strings.Split(before, "\n")
			insert := map[int]string{}
			total := 0
			for _, in := range ins {
				if in.err != nil {
					rt.Fatalf("inserting into %s failed: %v\n%s", in.ident, in.err, before)
				}
				start, open, closing, must, within, m := c15Info(before, in.ident)
				multi = multi || m
				prev := -1
				for k, i := range in.got {
					l := start + i
					if i <= prev {
						rt.Fatalf("lines of %s are not offered in order: %v\n%s", in.ident, in.got, before)
					}
					prev = i
					if l <= open || l >= closing {
						rt.Fatalf("a line outside of the body of %s is offered: index %d\n%s", in.ident, i, before)
					}
					if in.lines[k] != orig[l-1] {
						rt.Fatalf("index %d of %s is line %q, offered as %q\n%s", i, in.ident, orig[l-1], in.lines[k], before)
					}
					if in.mask>>(i%64)&1 == 1 {
						if within[l] {
							rt.Fatalf("a line inside a literal or comment of %s is offered: %q\n%s", in.ident, orig[l-1], before)
						}
						insert[l] = in.text
						total++
					}
				}
				last := closing
				if in.stop > 0 && len(in.got) >= in.stop {
					if len(in.got) > in.stop {
						rt.Fatalf("more lines of %s offered after being told to stop: %v", in.ident, in.got)
					}
					last = start + in.got[in.stop-1]
				}
				for l := range must {
					if l < last && !slices.Contains(in.got, l-start) {
						rt.Fatalf("the line of code %q of %s is not offered\n%s", orig[l-1], in.ident, before)
					}
				}
			}
			after := vfRead(file)
			got := strings.Split(after, "\n")
			g := 0
			bad := func(what string, l int) {
				rt.Fatalf("%s at line %d\nbefore:\n%s\nafter:\n%s", what, l, before, after)
			}
			for l := 1; l <= len(orig); l++ {
				if txt, ok := insert[l]; ok {
					if g >= len(got) || strings.TrimSuffix(strings.TrimLeft(got[g], " \t"), "\r") != txt {
						bad("the text is not inserted before the marked line", l)
					}
					g++
				}
				if g >= len(got) || got[g] != orig[l-1] {
					bad("the file has other changes than the inserted lines", l)
				}
				g++
			}
			if g != len(got) {
				bad("the file has additional lines", len(orig))
			}
			if !slices.Equal(gsTokens(before), gsTokens(after)) {
				bad("the code is not the same", 0)
			}
			count := func(src string) (n int) {
				for _, t := range gsScan(src) {
					if t.tok == token.COMMENT {
						n++
					}
				}
				return
			}
			if count(after)-count(before) != total {
				bad("the inserted lines are not comments of their own", 0)
			}
			return after
		}
		inserted := false
		cur := src
		for round := range rapid.IntRange(1, 3).Draw(rt, "rounds") {
			if round == 0 && len(idents) > 1 && rapid.IntRange(0, 3).Draw(rt, "conc") == 0 {
				// different functions of the file at the same time
				var ins []*insertion
				var wg sync.WaitGroup
				for _, id := range idents {
					in := draw(id)
					ins = append(ins, in)
					wg.Add(1)
					go func() { defer wg.Done(); run(in) }()
				}
				wg.Wait()
				// indexes count from the start of the function, so they are the same in the original
				cur = check(cur, ins)
			} else {
				in := draw(rapid.SampledFrom(idents).Draw(rt, "fn"))
				run(in)
				cur = check(cur, []*insertion{in})
			}
			inserted = inserted || cur != src
		}
		vfCase("insert", inserted && multi, src, map[bool]string{true: "crlf", false: "lf"}[strings.Contains(src, "\r")])
	})
}
