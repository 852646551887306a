package lens

// Generated Go source: functions made of random statements, edits of them, and
// a layout renderer that adds comments, blank lines and line breaks.

import (
	"fmt"
	"go/scanner"
	"go/token"
	"strings"

	"pgregory.net/rapid"
)

type gsFunc struct {
	Pkg    string // package directory, "" for the root
	Recv   string // receiver type expression, "" for functions
	Name   string
	TParam string
	Params string
	Result string
	Stmts  []string
	File   string
}

func (f *gsFunc) clone() *gsFunc {
	c := *f
	c.Stmts = append([]string(nil), f.Stmts...)
	return &c
}

func (f *gsFunc) ident(modPath string) string {
	p := modPath
	if f.Pkg != "" {
		p += "/" + f.Pkg
	}
	if f.Recv != "" {
		return p + ":" + f.Recv + "." + f.Name
	}
	return p + ":" + f.Name
}

// source is the canonical text of the function.
func (f *gsFunc) source() string {
	var b strings.Builder
	b.WriteString("func ")
	if f.Recv != "" {
		b.WriteString("(r " + f.Recv + ") ")
	}
	b.WriteString(f.Name + f.TParam + "(" + f.Params + ") " + f.Result + " {\n")
	for _, s := range f.Stmts {
		b.WriteString("\t" + s + "\n")
	}
	switch f.Result {
	case "":
	case "string":
		b.WriteString("\treturn \"\"\n")
	case "(int, error)":
		b.WriteString("\treturn acc, nil\n")
	default:
		b.WriteString("\treturn acc\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// gsTokens is the token sequence without comments and layout: what counts as
// the code of a function. Written without regard to the code under test.
func gsTokens(src string) []string {
	var out []string
	for _, t := range gsScan(src) {
		if t.tok == token.COMMENT {
			continue
		}
		if t.tok == token.SEMICOLON {
			out = append(out, ";")
			continue
		}
		out = append(out, t.text)
	}
	// the separator before a closing token depends on the layout only
	var res []string
	for i, t := range out {
		if i+1 < len(out) && (t == ";" || t == ",") && (out[i+1] == ")" || out[i+1] == "}" || out[i+1] == "]") {
			continue
		}
		res = append(res, t)
	}
	for len(res) > 0 && res[len(res)-1] == ";" {
		res = res[:len(res)-1]
	}
	return res
}

type gsTok struct {
	tok  token.Token
	text string
	auto bool
}

func gsScan(src string) []gsTok {
	fs := token.NewFileSet()
	var s scanner.Scanner
	s.Init(fs.AddFile("x.go", -1, len(src)), []byte(src), nil, scanner.ScanComments)
	var out []gsTok
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			return out
		}
		text := lit
		if tok.IsOperator() || (tok.IsKeyword() && lit == "") {
			text = tok.String()
		}
		out = append(out, gsTok{tok, text, tok == token.SEMICOLON && lit == "\n"})
	}
}

func gsInt(rt *rapid.T) int { return rapid.IntRange(0, 9).Draw(rt, "int") }

// gsStmt makes one statement over the variables acc (int) and s (string).
func gsStmt(rt *rapid.T, depth int) string {
	n := gsInt(rt)
	k := rapid.IntRange(0, 21).Draw(rt, "stmt")
	if depth <= 0 && k >= 8 {
		k -= 8
		if k >= 8 {
			k -= 8
		}
	}
	sub := func() string { return gsStmt(rt, depth-1) }
	switch k {
	case 0:
		return fmt.Sprintf("acc += %d", n)
	case 1:
		return fmt.Sprintf("s += %q", rapid.SampledFrom([]string{"", " ", "a b", "a  b", "// no comment", "/* no */", "a\nb", "}", "ä"}).Draw(rt, "lit"))
	case 2:
		return fmt.Sprintf("acc = (acc*%d + len(s)) %% 1000", n)
	case 3:
		return "s += `" + rapid.SampledFrom([]string{"raw", "a\n\nb", "a\n\n\nb", "// not a comment\nx", "/* not */", "\n\tfunc f() {\n\t}\n", "\t\ttabs", "  tabs"}).Draw(rt, "raw") + "`"
	case 4:
		return fmt.Sprintf("acc = max(acc, %d, len(s))", n)
	case 5:
		return fmt.Sprintf("acc += []int{%d, 2, 3, 4}[acc&3]", n)
	case 6:
		return fmt.Sprintf("acc += map[string]int{\"a\": %d, s: 2}[s]", n)
	case 7:
		return fmt.Sprintf("v%d := acc - %d; acc -= v%d", n, n, n)
	case 8:
		return fmt.Sprintf("if acc > %d {\n\t%s\n\t}", n, sub())
	case 9:
		return fmt.Sprintf("if acc > %d {\n\t%s\n\t} else if len(s) > %d {\n\t%s\n\t} else {\n\t%s\n\t}", n, sub(), gsInt(rt), sub(), sub())
	case 10:
		return fmt.Sprintf("for i := 0; i < %d; i++ {\n\t%s\n\t}", n, sub())
	case 11:
		return fmt.Sprintf("for range %d {\n\t%s\n\t%s\n\t}", n, sub(), sub())
	case 12:
		return fmt.Sprintf("switch acc {\n\tcase %d, %d:\n\t%s\n\tdefault:\n\t%s\n\t}", n, n+10, sub(), sub())
	case 13:
		return fmt.Sprintf("f%d := func(a int) int {\n\t%s\n\treturn a + acc\n\t}\n\tacc = f%d(acc)", n, sub(), n)
	case 14:
		return fmt.Sprintf("defer func() {\n\t%s\n\t}()", sub())
	case 15:
		return fmt.Sprintf("{\n\tacc := acc + %d\n\t%s\n\t_ = acc\n\t}", n, sub())
	case 16:
		return fmt.Sprintf("switch t := any(acc).(type) {\n\tcase int:\n\tacc += t + %d\n\tcase string:\n\t%s\n\t}", n, sub())
	case 17:
		return fmt.Sprintf("for _, c := range []byte(s) {\n\tif c == '%d' {\n\tbreak\n\t}\n\t%s\n\t}", n, sub())
	case 18:
		return fmt.Sprintf("type p struct{ A, B int }\n\tacc += p{A: %d, B: acc}.B", n)
	case 19:
		return fmt.Sprintf("if acc < -%d {\n\tpanic(%q)\n\t}", n, fmt.Sprint("p", n))
	case 20:
		return fmt.Sprintf("c%d := make(chan int, %d+1)\n\tselect {\n\tcase c%d <- acc:\n\t%s\n\tdefault:\n\t}", n, n, n, sub())
	default:
		return fmt.Sprintf("acc ^= %d << 2", n)
	}
}

func gsStmts(rt *rapid.T, max int) []string {
	n := rapid.IntRange(0, max).Draw(rt, "nstmts")
	var out []string
	for range n {
		s := gsStmt(rt, 2)
		// declarations get their own scope so that names never clash
		if strings.HasPrefix(s, "v") || strings.HasPrefix(s, "f") && !strings.HasPrefix(s, "for") || strings.HasPrefix(s, "c") || strings.HasPrefix(s, "type") {
			s = "{\n\t" + s + "\n\t}"
		}
		out = append(out, s)
	}
	return out
}

// gsLayout renders the canonical source with random comments and layout.
func gsLayout(rt *rapid.T, src string, noise int) string {
	if noise == 0 {
		return src
	}
	toks := gsScan(src)
	var b strings.Builder
	line := func() string {
		if rapid.IntRange(0, noise).Draw(rt, "linecomment") == 0 {
			return rapid.SampledFrom([]string{" // c\n", " // other {\n", "\n// c\n", "\n\n// c\n\n", "\n\t/* block\n c */\n"}).Draw(rt, "lc")
		}
		if rapid.IntRange(0, noise).Draw(rt, "blank") == 0 {
			return "\n\n"
		}
		return "\n"
	}
	for i, t := range toks {
		next := gsTok{tok: token.EOF}
		if i+1 < len(toks) {
			next = toks[i+1]
		}
		if t.tok == token.SEMICOLON {
			if t.auto {
				b.WriteString(line())
			} else if next.tok != token.EOF && rapid.IntRange(0, noise).Draw(rt, "semi") == 0 && !gsInHeader(toks, i) {
				b.WriteString(line())
			} else {
				b.WriteString("; ")
			}
			continue
		}
		b.WriteString(t.text)
		if next.tok == token.SEMICOLON {
			if next.auto && rapid.IntRange(0, noise).Draw(rt, "bc") == 0 {
				b.WriteString(" /* c */")
			}
			continue
		}
		if next.tok == token.PERIOD || t.tok == token.PERIOD {
			continue
		}
		switch {
		case gsNewlineOK(t.tok) && rapid.IntRange(0, noise*2).Draw(rt, "wrap") == 0:
			b.WriteString(line())
		case (next.tok == token.RPAREN) && i > 0 && t.tok != token.LPAREN && t.tok != token.COMMA && gsIsCallArgs(toks, i+1) && rapid.IntRange(0, noise*2).Draw(rt, "trail") == 0:
			b.WriteString("," + line())
		case rapid.IntRange(0, noise*3).Draw(rt, "bc") == 0:
			b.WriteString(" /* c */ ")
		default:
			b.WriteString(" ")
		}
	}
	return b.String()
}

// gsInHeader says whether the semicolon at i belongs to a for/if/switch header.
func gsInHeader(toks []gsTok, i int) bool {
	for j := i; j >= 0; j-- {
		switch toks[j].tok {
		case token.FOR, token.IF, token.SWITCH:
			return true
		case token.LBRACE, token.RBRACE:
			return false
		case token.SEMICOLON:
			if toks[j].auto {
				return false
			}
		}
	}
	return false
}

func gsNewlineOK(t token.Token) bool {
	switch t {
	case token.IDENT, token.INT, token.FLOAT, token.IMAG, token.CHAR, token.STRING, token.BREAK, token.CONTINUE,
		token.FALLTHROUGH, token.RETURN, token.INC, token.DEC, token.RPAREN, token.RBRACK, token.RBRACE:
		return false
	case token.FUNC, token.TYPE, token.STRUCT, token.MAP, token.CHAN, token.IF, token.FOR, token.SWITCH, token.SELECT,
		token.LBRACK, token.RANGE, token.CASE, token.DEFAULT, token.DEFER, token.PACKAGE, token.IMPORT:
		return false // legal for some, kept on one line for simplicity
	}
	return true
}

// gsIsCallArgs says whether the closing parenthesis at i ends a call with
// arguments (a trailing comma is legal there). Signatures count as well.
func gsIsCallArgs(toks []gsTok, i int) bool {
	depth := 0
	for j := i; j >= 0; j-- {
		switch toks[j].tok {
		case token.RPAREN:
			depth++
		case token.LPAREN:
			depth--
			if depth == 0 {
				return j > 0 && j+1 < i && toks[j-1].tok == token.IDENT && toks[j-1].text != "any" && toks[j-1].text != "func"
			}
		}
	}
	return false
}

// gsEdit changes the code of f in one place; the result differs in its tokens.
func gsEdit(rt *rapid.T, f *gsFunc) (*gsFunc, string) {
	for try := 0; ; try++ {
		c := f.clone()
		kind := rapid.SampledFrom([]string{"replace", "insert", "delete", "swap", "literal", "param", "result", "double", "space"}).Draw(rt, "edit")
		if try > 8 {
			kind = "insert"
		}
		at := 0
		if len(c.Stmts) > 0 {
			at = rapid.IntRange(0, len(c.Stmts)-1).Draw(rt, "at")
		}
		switch {
		case kind == "insert" || len(c.Stmts) == 0:
			c.Stmts = append(c.Stmts[:at:at], append([]string{fmt.Sprintf("acc += %d", 100+gsInt(rt))}, c.Stmts[at:]...)...)
		case kind == "replace":
			c.Stmts[at] = gsStmts2(rt)
		case kind == "delete":
			c.Stmts = append(c.Stmts[:at:at], c.Stmts[at+1:]...)
		case kind == "swap" && at+1 < len(c.Stmts):
			c.Stmts[at], c.Stmts[at+1] = c.Stmts[at+1], c.Stmts[at]
		case kind == "double":
			c.Stmts = append(c.Stmts[:at+1:at+1], c.Stmts[at:]...)
		case kind == "literal":
			toks := gsScan(c.Stmts[at])
			for _, t := range toks {
				if t.tok == token.INT {
					c.Stmts[at] = strings.Replace(c.Stmts[at], t.text, fmt.Sprint(gsInt(rt)), 1)
					break
				}
			}
		case kind == "space": // white space inside a string literal
			toks := gsScan(c.Stmts[at])
			for _, t := range toks {
				if t.tok == token.STRING && len(t.text) > 2 {
					nt := t.text[:1] + rapid.SampledFrom([]string{" ", "x", "// "}).Draw(rt, "ins") + t.text[1:]
					if t.text[0] == '`' {
						nt = strings.Replace(t.text, "\n", "\n\n", 1)
					}
					c.Stmts[at] = strings.Replace(c.Stmts[at], t.text, nt, 1)
					break
				}
			}
		case kind == "param":
			if c.Params == "acc int, s string" {
				c.Params = "acc int, s string, more ...int"
			} else {
				c.Params = "acc int, s string"
			}
		case kind == "result":
			c.Result = rapid.SampledFrom([]string{"", "int", "string", "(int, error)", "any"}).Draw(rt, "result")
		}
		if strings.Join(gsTokens(c.source()), " ") != strings.Join(gsTokens(f.source()), " ") {
			return c, kind
		}
	}
}

func gsStmts2(rt *rapid.T) string {
	for {
		if s := gsStmts(rt, 1); len(s) > 0 {
			return s[0]
		}
	}
}
