package lens

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func init() {
	vfRule("a case is one configuration; non-trivial if it is valid with at least four values other than the defaults, or has exactly one thing wrong with it")
}

// C19ParseFlags is set by the external part of this test (lens/cmd imports this
// package): it parses the arguments with the given GOPATH and custom flags.
var C19ParseFlags func(args []string, gopath string, custom []C19Custom) (*Config, error)

type C19Custom struct {
	Name    string
	Default any
	Type    string
}

// c19Env is a scratch directory with a project, update files and places for reports.
type c19Env struct {
	dir, proj string
}

func c19NewEnv() *c19Env {
	dir := vfDir("c19")
	e := &c19Env{dir: dir, proj: filepath.Join(dir, "proj")}
	vfWrite(filepath.Join(e.proj, "go.mod"), "module example.com/proj\n\ngo 1.24\n")
	vfWrite(filepath.Join(e.proj, "x.go"), "package proj\n")
	vfWrite(filepath.Join(e.proj, ".write_test"), "mine")
	vfWrite(filepath.Join(dir, "upd/go.mod"), "module example.com/proj\n\ngo 1.24\n")
	vfWrite(filepath.Join(dir, "upd/go.work"), "go 1.24\n\nuse ./x\n")
	vfWrite(filepath.Join(dir, "out/.write_test"), "keep")
	vfWrite(filepath.Join(dir, "out/old.json"), "{}")
	vfWrite(filepath.Join(dir, "out/old.png"), "png")
	for _, d := range []string{"out/d.json", "out/d.png"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			vfHarnessErr("%v", err)
		}
	}
	return e
}

// a value for one setting, with what is expected of it
type c19Val struct {
	s    string
	ok   bool
	mods []TargetModule
}

func ok19(s string) c19Val  { return c19Val{s: s, ok: true} }
func bad19(s string) c19Val { return c19Val{s: s} }

type c19Set struct {
	flag, def string // flag name and documented default
	values    func(rt *rapid.T, e *c19Env) c19Val
}

func c19Pick(rt *rapid.T, label string, good, bad []string) c19Val {
	if len(bad) > 0 && rapid.IntRange(0, 11).Draw(rt, label+" bad") == 0 {
		return bad19(rapid.SampledFrom(bad).Draw(rt, label))
	}
	return ok19(rapid.SampledFrom(good).Draw(rt, label))
}

func c19Range(lo, hi int) func(*rapid.T, *c19Env) c19Val {
	return func(rt *rapid.T, _ *c19Env) c19Val {
		n := rapid.OneOf(rapid.SampledFrom([]int{lo, lo + 1, hi - 1, hi}), rapid.IntRange(lo, hi)).Draw(rt, "n")
		if rapid.IntRange(0, 13).Draw(rt, "out of range") == 0 {
			n = rapid.OneOf(rapid.SampledFrom([]int{lo - 1, hi + 1, 0, -1, -lo}), rapid.IntRange(-1<<31, lo-1), rapid.IntRange(hi+1, 1<<40)).Draw(rt, "bad n")
		}
		return c19Val{s: strconv.Itoa(n), ok: n >= lo && n <= hi}
	}
}

func c19Module(rt *rapid.T) c19Val {
	switch rapid.IntRange(0, 24).Draw(rt, "bad module") {
	case 0:
		return bad19("github.com/a/b")
	case 1:
		return bad19("@v1.0.0")
	case 2:
		return bad19("github.com/a/b@")
	case 3:
		return bad19("plain@v1.0.0")
	}
	name := rapid.SampledFrom([]string{"github.com/a/b", "gopkg.in/yaml.v3", "example.com", "a/b", "github.com/A/b/v2"}).Draw(rt, "module")
	ver := rapid.SampledFrom([]string{"v1.0.0", "v0.1.0-pre", "latest", "v0.0.0-20240101000000-abcdefabcdef", "v2.0.0+incompatible", "a@b"}).Draw(rt, "version")
	return c19Val{s: name + "@" + ver, ok: true, mods: []TargetModule{{Name: name, Version: ver}}}
}

func c19Modules(rt *rapid.T) c19Val {
	var v c19Val
	v.ok = true
	var parts []string
	for range rapid.IntRange(1, 4).Draw(rt, "modules") {
		m := c19Module(rt)
		if rapid.IntRange(0, 20).Draw(rt, "empty") == 0 {
			m = bad19(rapid.SampledFrom([]string{"", " "}).Draw(rt, "blank"))
		}
		v.ok = v.ok && m.ok
		v.mods = append(v.mods, m.mods...)
		parts = append(parts, rapid.SampledFrom([]string{"", "", " "}).Draw(rt, "pad")+m.s)
	}
	v.s = strings.Join(parts, ",")
	if v.s == "" {
		return ok19("") // the same as not giving any
	}
	return v
}

func c19Out(badExt, ext []string) func(*rapid.T, *c19Env) c19Val {
	return func(rt *rapid.T, e *c19Env) c19Val {
		x := rapid.SampledFrom(ext).Draw(rt, "ext")
		dirs := []string{"out/new", "out/sub/deep/new", "proj/new", "out/old", "proj/reports/new", "new"}
		v := ok19(rapid.SampledFrom(dirs).Draw(rt, "out") + x)
		switch rapid.IntRange(0, 15).Draw(rt, "bad out") {
		case 0:
			v = bad19("proj/x.go/new" + x) // below a file
		case 1:
			v = bad19("out/d" + map[bool]string{true: ".json", false: ".png"}[x == ".json"]) // a directory
		case 2:
			v = bad19("proj/x.go/a/b" + x)
		case 3:
			v = ok19("")
		case 4, 5:
			if len(badExt) > 0 {
				v = bad19("out/new" + rapid.SampledFrom(badExt).Draw(rt, "bad ext"))
			}
		}
		if v.s != "" && rapid.Bool().Draw(rt, "abs") {
			v.s = filepath.Join(e.dir, v.s)
		}
		return v
	}
}

var c19Sets = []c19Set{
	{"project", "", func(rt *rapid.T, e *c19Env) c19Val {
		v := c19Pick(rt, "project", []string{"proj", "./proj", "proj/", "out/../proj"}, []string{"", "nosuch", "upd/go.mod"})
		if v.ok && rapid.Bool().Draw(rt, "abs") {
			v.s = filepath.Join(e.dir, v.s)
		}
		return v
	}},
	{"module", "", func(rt *rapid.T, _ *c19Env) c19Val { return c19Module(rt) }},
	{"modules", "", func(rt *rapid.T, _ *c19Env) c19Val { return c19Modules(rt) }},
	{"gomod", "", func(rt *rapid.T, _ *c19Env) c19Val {
		return c19Pick(rt, "gomod", []string{"upd/go.mod"}, []string{"upd", "upd/none.mod", "proj/x.go/go.mod"})
	}},
	{"gowork", "", func(rt *rapid.T, _ *c19Env) c19Val {
		return c19Pick(rt, "gowork", []string{"upd/go.work"}, []string{"upd", "upd/none.work"})
	}},
	{"monitorport", "44440", c19Range(1024, 65535)},
	{"json", "modreport.json", c19Out(nil, []string{".json", "", ".txt"})},
	{"charts", "modreport.png", c19Out([]string{"", ".json", ".gif", ".PNG", ".png.txt", "png"}, []string{".png", ".jpg", ".jpeg", ".svg"})},
	{"fieldrecurse", "20", c19Range(1, 100)},
	{"fieldlen", "1024", c19Range(1, 1048576)},
	{"cachemb", "200", c19Range(1, 10240)},
	{"mutationscope", "line", func(rt *rapid.T, _ *c19Env) c19Val {
		return c19Pick(rt, "scope", []string{"function", "line", "area", "none"}, []string{"", "Line", "lines", "full", "fast"})
	}},
	{"mutationset", "fast", func(rt *rapid.T, _ *c19Env) c19Val {
		return c19Pick(rt, "set", []string{"full", "fast"}, []string{"", "Full", "targeted", "none"})
	}},
	{"mutationtests", "targeted", func(rt *rapid.T, _ *c19Env) c19Val {
		return c19Pick(rt, "tests", []string{"full", "targeted"}, []string{"", "fast", "none", "all"})
	}},
	{"tmpcopy", "true", func(rt *rapid.T, _ *c19Env) c19Val { return c19Pick(rt, "tmpcopy", []string{"true", "false"}, nil) }},
	{"timemultiplier", "2", c19Range(1, 100)},
}

func c19Expected(get func(string) string) *Config {
	num := func(f string) int {
		n, err := strconv.Atoi(get(f))
		if err != nil {
			vfHarnessErr("%v", err)
		}
		return n
	}
	return &Config{ProjectDir: get("project"), ModuleVersionFlag: get("module"), ModulesVersionFlag: get("modules"),
		UpdatedGoModFile: get("gomod"), UpdatedGoWorkFile: get("gowork"), AstMonitorPort: num("monitorport"),
		MaxFieldRecurse: num("fieldrecurse"), MaxFieldLen: num("fieldlen"), CacheMB: num("cachemb"),
		ReportJsonFile: get("json"), ReportChartsFile: get("charts"), MutationScope: get("mutationscope"),
		MutationMode: get("mutationset"), MutationTests: get("mutationtests"), TmpCopy: get("tmpcopy") == "true",
		TimeMultiplier: num("timemultiplier"), CustomFlags: map[string]string{}}
}

// c19Same compares the exported fields.
func c19Same(a, b *Config, except ...string) string {
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := range va.NumField() {
		f := va.Type().Field(i)
		skip := !f.IsExported()
		for _, x := range except {
			skip = skip || x == f.Name
		}
		if skip {
			continue
		}
		if x, y := va.Field(i), vb.Field(i); !reflect.DeepEqual(x.Interface(), y.Interface()) && !(x.Kind() == reflect.Map && x.Len() == 0 && y.Len() == 0) {
			return fmt.Sprintf("%s is %v instead of %v", f.Name, x.Interface(), y.Interface())
		}
	}
	return ""
}

func TestC19Config(t *testing.T) {
	old, err := os.Getwd()
	if err != nil {
		vfHarnessErr("%v", err)
	}
	vfRun(t, 2500, 60000, func(rt *rapid.T) {
		e := c19NewEnv()
		defer os.RemoveAll(e.dir)
		if err := os.Chdir(e.dir); err != nil {
			vfHarnessErr("%v", err)
		}
		defer os.Chdir(old)
		vals := map[string]c19Val{}
		given := map[string]string{}
		source := rapid.SampledFrom([]string{"module", "modules", "gomod", "gowork", "several", "none"}).Draw(rt, "source")
		nd := 0
		for _, s := range c19Sets {
			use := rapid.IntRange(0, 2).Draw(rt, "given "+s.flag) > 0
			switch s.flag {
			case "project":
				use = rapid.IntRange(0, 29).Draw(rt, "project given") > 0
			case "module", "modules", "gomod", "gowork":
				use = source == s.flag || source == "several" && use
			}
			if !use {
				vals[s.flag] = c19Val{s: s.def, ok: true}
				continue
			}
			v := s.values(rt, e)
			vals[s.flag] = v
			given[s.flag] = v.s
			if v.s != s.def {
				nd++
			}
		}
		vals["project"] = c19Val{s: vals["project"].s, ok: vals["project"].ok && vals["project"].s != ""}
		get := func(f string) string { return vals[f].s }
		wrong := 0
		var what []string
		for _, s := range c19Sets {
			if !vals[s.flag].ok {
				wrong++
				what = append(what, s.flag)
			}
		}
		missing := get("module") == "" && get("modules") == "" && get("gomod") == "" && get("gowork") == ""
		both := get("gomod") != "" && get("gowork") != ""
		if missing {
			wrong++
			what = append(what, "no update")
		}
		if both {
			wrong++
			what = append(what, "go.mod and go.work")
		}
		want := c19Expected(get)
		before := vfTree(e.dir)
		check := func(when string) {
			for p, c := range before {
				if b, err := os.ReadFile(filepath.Join(e.dir, p)); err != nil || string(b) != c {
					if i, err2 := os.Stat(filepath.Join(e.dir, p)); err2 == nil && i.IsDir() {
						continue
					}
					rt.Fatalf("%s changed %s (%v)", when, p, err)
				}
			}
			for p := range vfTree(e.dir) {
				if _, ok := before[p]; ok {
					continue
				}
				if i, err := os.Stat(filepath.Join(e.dir, p)); err == nil && !i.IsDir() {
					rt.Fatalf("%s left the file %s", when, p)
				}
			}
		}

		cfg := want
		if rapid.Bool().Draw(rt, "by flags") {
			cfg = c19ByFlags(rt, e, given, want, get("project") == "" || missing || both)
			check("parsing the flags")
			if cfg == nil {
				vfCase("config", wrong == 1, fmt.Sprint("flags ", given), what...)
				return
			}
		} else {
			cfg.Gopath, cfg.Gomodcache = "gp", "gp/pkg/mod"
			cfg.CustomFlags["k"] = "v"
		}
		start := *cfg
		var targets []TargetModule
		targets = append(targets, vals["module"].mods...)
		targets = append(targets, vals["modules"].mods...)
		err := cfg.Prepare()
		check("preparing")
		if (err == nil) != (wrong == 0) {
			rt.Fatalf("preparing %+v: error %v, but wrong are %v", start, err, what)
		}
		if d := c19Same(cfg, &start, "AbsProjDir", "TargetModules"); d != "" {
			rt.Fatalf("after preparing, %s", d)
		}
		if err != nil && rapid.Bool().Draw(rt, "correct it") {
			// correct what is wrong and try again
			cfg.ProjectDir = e.proj
			if !vals["module"].ok {
				cfg.ModuleVersionFlag = ""
				targets = vals["modules"].mods
			}
			if !vals["modules"].ok {
				cfg.ModulesVersionFlag = ""
				targets = nil
				if vals["module"].ok {
					targets = vals["module"].mods
				}
			}
			if cfg.ModuleVersionFlag == "" && cfg.ModulesVersionFlag == "" {
				cfg.ModuleVersionFlag = "example.com/m@v1.2.3"
				targets = []TargetModule{{Name: "example.com/m", Version: "v1.2.3"}}
			}
			cfg.UpdatedGoModFile, cfg.UpdatedGoWorkFile = "", ""
			cfg.AstMonitorPort, cfg.MaxFieldRecurse, cfg.MaxFieldLen, cfg.CacheMB, cfg.TimeMultiplier = 2000, 3, 4, 5, 6
			cfg.MutationScope, cfg.MutationMode, cfg.MutationTests = "none", "fast", "full"
			cfg.ReportJsonFile, cfg.ReportChartsFile = "out/a/r.json", "out/b/r.svg"
			start = *cfg
			if err = cfg.Prepare(); err != nil {
				rt.Fatalf("preparing the corrected configuration: %v", err)
			}
			check("preparing again")
			what = append(what, "corrected")
		}
		if err == nil {
			abs, _ := filepath.Abs(cfg.ProjectDir)
			if cfg.AbsProjDir != abs {
				rt.Fatalf("the project is %s, prepared as %s", abs, cfg.AbsProjDir)
			}
			if len(targets)+len(cfg.TargetModules) > 0 && !reflect.DeepEqual(targets, cfg.TargetModules) {
				rt.Fatalf("modules %v were given, prepared are %v", targets, cfg.TargetModules)
			}
			if err := cfg.Prepare(); err == nil {
				rt.Fatalf("preparing a prepared configuration is accepted")
			}
			if len(targets)+len(cfg.TargetModules) > 0 && !reflect.DeepEqual(targets, cfg.TargetModules) {
				rt.Fatalf("modules %v were given, after preparing twice there are %v", targets, cfg.TargetModules)
			}
			// a report can be produced now
			if err := (&DefaultReportWriter{}).WriteReportFiles(cfg.ReportJsonFile, cfg.ReportChartsFile, time.Now(), 0, 0, 0, 0,
				[]*ModuleChange{{Name: "example.com/m", PriorVersion: "v1.0.0", NewVersion: "v1.0.1"}}, nil, 0, 0, 0, 0, nil, nil, 0, 0, nil, MutationResult{}); err != nil {
				rt.Fatalf("configuration %+v was accepted, but writing its report fails: %v", *cfg, err)
			}
			for _, f := range []string{cfg.ReportJsonFile, cfg.ReportChartsFile} {
				if f == "" {
					continue
				}
				if i, err := os.Stat(f); err != nil || i.Size() == 0 {
					rt.Fatalf("no report in %s: %v", f, err)
				}
			}
		}
		vfCase("config", wrong == 1 || wrong == 0 && nd >= 4, fmt.Sprint(given), what...)
	})
}

// c19ByFlags gives the values as arguments; nil if that was refused, as it had to be.
func c19ByFlags(rt *rapid.T, e *c19Env, given map[string]string, want *Config, refused bool) *Config {
	var args []string
	custom := []C19Custom{{"zs", "dflt", "string"}, {"zi", 7, "int"}, {"zb", false, "bool"}}
	custom = custom[:rapid.IntRange(0, 3).Draw(rt, "custom flags")]
	type arg struct{ name, value string }
	var list []arg
	for _, k := range vfKeys(given) {
		list = append(list, arg{k, given[k]})
	}
	for _, c := range custom {
		want.CustomFlags[c.Name] = fmt.Sprint(c.Default)
		if rapid.Bool().Draw(rt, "custom given") {
			v := map[string][]string{"string": {"", "x y", "-q", "true"}, "int": {"0", "-5", "99"}, "bool": {"true", "false"}}[c.Type]
			s := rapid.SampledFrom(v).Draw(rt, "custom value")
			want.CustomFlags[c.Name] = s
			list = append(list, arg{c.Name, s})
		}
	}
	list = rapid.Permutation(list).Draw(rt, "order")
	for _, a := range list {
		dash := rapid.SampledFrom([]string{"-", "--"}).Draw(rt, "dash")
		if a.name == "tmpcopy" || a.name == "zb" || rapid.Bool().Draw(rt, "equals") {
			if a.value == "true" && (a.name == "tmpcopy" || a.name == "zb") && rapid.Bool().Draw(rt, "bare") {
				args = append(args, dash+a.name)
				continue
			}
			args = append(args, dash+a.name+"="+a.value)
		} else {
			args = append(args, dash+a.name, a.value)
		}
	}
	gopath := rapid.SampledFrom([]string{"", filepath.Join(e.dir, "gopath")}).Draw(rt, "GOPATH")
	modcache := rapid.SampledFrom([]string{"", filepath.Join(e.dir, "cache")}).Draw(rt, "GOMODCACHE")
	old, had := os.LookupEnv("GOMODCACHE")
	os.Setenv("GOMODCACHE", modcache)
	cfg, err := C19ParseFlags(args, gopath, custom)
	if had {
		os.Setenv("GOMODCACHE", old)
	} else {
		os.Unsetenv("GOMODCACHE")
	}
	refused = refused || gopath == "" && modcache == ""
	if (err != nil) != refused {
		rt.Fatalf("arguments %q: error %v", args, err)
	}
	if err != nil {
		return nil
	}
	want.Gopath, want.Gomodcache = gopath, modcache
	if modcache == "" {
		want.Gomodcache = filepath.Join(gopath, "pkg", "mod")
	}
	if d := c19Same(cfg, want); d != "" {
		rt.Fatalf("arguments %q: %s", args, d)
	}
	return cfg
}
