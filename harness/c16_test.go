package lens

import (
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"golang.org/x/mod/semver"
	"pgregory.net/rapid"
)

type c16Req struct {
	version  string
	indirect bool
}

var c16Mods = []string{"example.com/a", "example.com/a/sub", "example.com/ab", "example.com/b/v2", "github.com/Upper/Case", "gopkg.in/y.v3", "golang.org/x/z"}

func c16Version(rt *rapid.T, mod string) string {
	vs := []string{"v1.0.0", "v1.2.0", "v1.9.0", "v1.10.0", "v1.10.0-rc.1", "v1.10.0-rc.2", "v0.0.0-20240101000000-0123456789ab", "v0.0.0-20250101000000-0123456789ab", "v1.2.1-0.20240101000000-0123456789ab"}
	if mod == "golang.org/x/z" {
		vs = append(vs, "v2.0.0+incompatible", "v4.0.1+incompatible")
	}
	if strings.HasSuffix(mod, "/v2") {
		vs = []string{"v2.0.0", "v2.1.0", "v2.0.0-alpha", "v2.10.3"}
	}
	if strings.HasSuffix(mod, ".v3") {
		vs = []string{"v3.0.0", "v3.0.1", "v3.0.0-20200615113413-eeeca48fe776"}
	}
	return rapid.SampledFrom(vs).Draw(rt, "version")
}

func c16Reqs(rt *rapid.T) map[string]c16Req {
	out := map[string]c16Req{}
	for _, m := range c16Mods {
		if rapid.Bool().Draw(rt, "required") {
			out[m] = c16Req{c16Version(rt, m), rapid.Bool().Draw(rt, "indirect")}
		}
	}
	return out
}

func c16Edit(rt *rapid.T, old map[string]c16Req) map[string]c16Req {
	out := map[string]c16Req{}
	for _, m := range c16Mods {
		r, had := old[m]
		switch rapid.IntRange(0, 7).Draw(rt, "op") {
		case 0:
			if had {
				continue
			}
			out[m] = c16Req{c16Version(rt, m), rapid.Bool().Draw(rt, "indirect")}
		case 1, 2, 3:
			if had {
				out[m] = c16Req{c16Version(rt, m), r.indirect}
			}
		case 4:
			if had {
				out[m] = c16Req{r.version, !r.indirect}
			}
		default:
			if had {
				out[m] = r
			}
		}
	}
	return out
}

// c16Mod renders a go.mod with the requirements in some syntax and order.
func c16Mod(rt *rapid.T, name, goVer string, reqs map[string]c16Req) string {
	var b strings.Builder
	if rapid.Bool().Draw(rt, "comment") {
		b.WriteString("// require example.com/a v9.9.9\n")
	}
	fmt.Fprintf(&b, "module %s\n\n", name)
	if goVer != "" {
		fmt.Fprintf(&b, "go %s\n\n", goVer)
	}
	if rapid.IntRange(0, 3).Draw(rt, "tc") == 0 {
		b.WriteString("toolchain go1.25.1\n")
	}
	names := rapid.Permutation(vfKeys(reqs)).Draw(rt, "order")
	inBlock := false
	for _, m := range names {
		r := reqs[m]
		block := rapid.IntRange(0, 3).Draw(rt, "block") > 0
		if block != inBlock {
			if block {
				b.WriteString("require (\n")
			} else {
				b.WriteString(")\n")
			}
			inBlock = block
		}
		if !block {
			b.WriteString("require ")
		} else {
			b.WriteString("\t")
		}
		q := m
		if rapid.IntRange(0, 5).Draw(rt, "quote") == 0 {
			q = "\"" + m + "\""
		}
		b.WriteString(q + " " + r.version)
		if r.indirect {
			b.WriteString(rapid.SampledFrom([]string{" // indirect", " //indirect", " // indirect; note"}).Draw(rt, "ind"))
		} else if rapid.IntRange(0, 3).Draw(rt, "note") == 0 {
			b.WriteString(" // not indirect")
		}
		b.WriteString("\n")
	}
	if inBlock {
		b.WriteString(")\n")
	}
	if rapid.IntRange(0, 3).Draw(rt, "exclude") == 0 {
		b.WriteString("exclude example.com/a v1.3.0\nexclude (\n\texample.com/ab v1.1.0\n)\nretract v0.0.1 // bad\n")
	}
	return b.String()
}

func c16Changes(cs []*ModuleChange) []string {
	var out []string
	for _, c := range cs {
		out = append(out, fmt.Sprintf("%s %s->%s indirect=%v", c.Name, c.PriorVersion, c.NewVersion, c.Indirect))
	}
	return out
}

func c16Diff(old, neu map[string]c16Req) []string {
	var out []string
	for m, n := range neu {
		if o, ok := old[m]; ok && o.version != n.version {
			out = append(out, fmt.Sprintf("%s %s->%s indirect=%v", m, o.version, n.version, n.indirect))
		}
	}
	sort.Strings(out)
	return out
}

func TestC16GoMod(t *testing.T) {
	vfRule("gomod: two go.mod files, the second an edited copy, in varied syntax; non-trivial = at least one changed and one unchanged requirement")
	vfRun(t, 1500, 30000, func(rt *rapid.T) {
		dir := vfDir("c16")
		defer os.RemoveAll(dir)
		old := c16Reqs(rt)
		neu := c16Edit(rt, old)
		op, np := filepath.Join(dir, "old", "go.mod"), filepath.Join(dir, "go.mod.new")
		ot, nt := c16Mod(rt, "example.com/p", "1.22", old), c16Mod(rt, "example.com/p", "1.23", neu)
		vfWrite(op, ot)
		vfWrite(np, nt)
		got, err := DiffModulesFromGoModFiles(op, np)
		if err != nil {
			rt.Fatalf("diff failed: %v\n%s\n%s", err, ot, nt)
		}
		gl := c16Changes(got)
		again, err := DiffModulesFromGoModFiles(op, np)
		if err != nil || !reflect.DeepEqual(c16Changes(again), gl) {
			rt.Fatalf("a second diff differs: %v %v %v", gl, c16Changes(again), err)
		}
		want := c16Diff(old, neu)
		if s := slices.Sorted(slices.Values(gl)); !slices.Equal(s, want) {
			rt.Fatalf("changes %v, want %v\n%s\n%s", s, want, ot, nt)
		}
		for _, m := range append(c16Mods, "example.com/missing", "example.com") {
			v, ind, err := FindModuleVersionInGoMod(np, m)
			if r := neu[m]; err != nil || v != r.version || ind != r.indirect {
				rt.Fatalf("%s: version %q indirect %v %v, want %+v\n%s", m, v, ind, err, r, nt)
			}
		}
		deps, goVer, err := parseGoMod(np)
		if err != nil || goVer != "1.23" {
			rt.Fatalf("parse: %v %q", err, goVer)
		}
		wantDeps := map[string]string{}
		for m, r := range neu {
			wantDeps[m] = r.version
		}
		if !maps.Equal(deps, wantDeps) {
			rt.Fatalf("requirements %v, want %v", deps, wantDeps)
		}
		vfCase("gomod", len(want) > 0 && len(want) < len(neu), fmt.Sprint(old, "->", neu), fmt.Sprintf("changes=%d", len(want)))
	})
}

// A workspace: directories with go.mod files, used in several ways.
type c16Ws struct {
	root  string
	dirs  map[string]map[string]c16Req // directory relative to the root -> requirements
	used  map[string]bool
	goVer map[string]string
	text  string
}

var c16Dirs = []string{".", "a", "b", "libs/x", "libs/y", "libs/y/deep", "tools", "..odd"}

func (w *c16Ws) write(rt *rapid.T) {
	for _, d := range vfKeys(w.dirs) {
		vfWrite(filepath.Join(w.root, d, "go.mod"), c16Mod(rt, "example.com/ws/"+strings.ReplaceAll(strings.ReplaceAll(d, ".", "dot"), "/", "-"), w.goVer[d], w.dirs[d]))
	}
}

// c16Use renders use directives which name exactly the directories (and
// possibly directories without a module).
func (w *c16Ws) use(rt *rapid.T, allowAbs bool) {
	left := maps.Clone(w.used)
	var entries []string
	// a wildcard if everything below is used
	covered := func(pre string) bool {
		n := 0
		for d := range w.dirs {
			if pre == "" || d == pre || strings.HasPrefix(d, pre+"/") {
				if !w.used[d] {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	if rapid.IntRange(0, 2).Draw(rt, "wild") == 0 {
		for _, pre := range []string{"", "libs", "libs/y", "b"} {
			if covered(pre) && rapid.Bool().Draw(rt, "dots") {
				switch {
				case pre == "":
					entries = append(entries, rapid.SampledFrom([]string{"./...", "..."}).Draw(rt, "root"))
				case allowAbs && rapid.IntRange(0, 3).Draw(rt, "absdots") == 0:
					entries = append(entries, filepath.Join(w.root, pre)+"/...")
				default:
					entries = append(entries, rapid.SampledFrom([]string{"./" + pre + "/...", pre + "/..."}).Draw(rt, "pre"))
				}
				for d := range w.dirs {
					if pre == "" || d == pre || strings.HasPrefix(d, pre+"/") {
						delete(left, d)
					}
				}
			}
		}
		if w.used["libs/x"] && w.used["libs/y"] && rapid.Bool().Draw(rt, "glob") {
			entries = append(entries, rapid.SampledFrom([]string{`"./libs/*"`, `"libs/?"`, `"libs/[xy]"`}).Draw(rt, "g"))
			delete(left, "libs/x")
			delete(left, "libs/y")
		}
	}
	for _, d := range vfKeys(left) {
		forms := []string{d, "./" + d, d + "/", "./" + d + "/../" + filepath.Base(d)}
		if d == "." {
			forms = []string{".", "./"}
		}
		if allowAbs && rapid.IntRange(0, 5).Draw(rt, "abs") == 0 {
			forms = []string{filepath.Join(w.root, d)}
		}
		entries = append(entries, rapid.SampledFrom(forms).Draw(rt, "form"))
	}
	if rapid.IntRange(0, 4).Draw(rt, "nomod") == 0 {
		entries = append(entries, "./without-module")
		_ = os.MkdirAll(filepath.Join(w.root, "without-module"), 0o755)
	}
	entries = rapid.Permutation(entries).Draw(rt, "order")
	var b strings.Builder
	b.WriteString("go 1.22\n\n")
	if len(entries) > 0 && rapid.Bool().Draw(rt, "block") {
		b.WriteString("use (\n")
		for _, e := range entries {
			b.WriteString("\t" + e + " // use\n")
		}
		b.WriteString(")\n")
	} else {
		for _, e := range entries {
			b.WriteString("use " + e + "\n")
		}
	}
	w.text = b.String()
	vfWrite(filepath.Join(w.root, "go.work"), w.text)
}

func c16Workspace(rt *rapid.T, root string) *c16Ws {
	w := &c16Ws{root: root, dirs: map[string]map[string]c16Req{}, used: map[string]bool{}, goVer: map[string]string{}}
	for _, d := range c16Dirs {
		if rapid.IntRange(0, 2).Draw(rt, "dir") > 0 {
			w.dirs[d] = c16Reqs(rt)
			w.goVer[d] = rapid.SampledFrom([]string{"1.19", "1.20", "1.21.4", "1.22"}).Draw(rt, "go")
			if rapid.IntRange(0, 3).Draw(rt, "unused") > 0 || d == "." {
				w.used[d] = true
			}
		}
	}
	return w
}

func TestC16Workspace(t *testing.T) {
	vfRule("workspace: a go.work with plain, wildcard, glob and absolute uses of some of its module directories; non-trivial = two modules require the same module in different versions")
	vfRun(t, 700, 15000, func(rt *rapid.T) {
		root := vfDir("c16")
		defer os.RemoveAll(root)
		w := c16Workspace(rt, root)
		w.write(rt)
		single := len(w.used) == 1 && w.used["."] && rapid.Bool().Draw(rt, "single")
		if !single {
			w.use(rt, true)
			dirs, err := parseGoWork(filepath.Join(root, "go.work"))
			if err != nil {
				rt.Fatalf("go.work: %v\n%s", err, w.text)
			}
			got := map[string]bool{}
			for _, d := range dirs {
				if filepath.IsAbs(d) {
					r, err := filepath.Rel(root, d)
					if err != nil {
						rt.Fatalf("%v", err)
					}
					d = r
				}
				if FileExists(filepath.Join(root, d, "go.mod")) {
					got[d] = true
				}
			}
			if !maps.Equal(got, w.used) {
				rt.Fatalf("modules of the workspace %v, want %v\n%s", vfKeys(got), vfKeys(w.used), w.text)
			}
		}
		if single || len(w.used) > 0 || FileExists(filepath.Join(root, "go.work")) {
			mods, err := ProjectGoModFiles(root)
			if err != nil {
				rt.Fatalf("go.mod files: %v", err)
			}
			got := map[string]bool{}
			for _, m := range mods {
				r, err := filepath.Rel(root, filepath.Dir(m))
				if err != nil || filepath.Base(m) != "go.mod" || got[r] {
					rt.Fatalf("go.mod files %v\n%s", mods, w.text)
				}
				got[r] = true
			}
			if !maps.Equal(got, w.used) {
				rt.Fatalf("go.mod files %v, want those of %v\n%s", mods, vfKeys(w.used), w.text)
			}
			pats, err := ProjectPackagePatterns(root)
			if err != nil {
				rt.Fatalf("patterns: %v", err)
			}
			got = map[string]bool{}
			for _, p := range pats {
				d, ok := strings.CutSuffix(p, "/...")
				if !ok || !strings.HasPrefix(d, ".") && !filepath.IsAbs(d) {
					rt.Fatalf("pattern %q", p)
				}
				if filepath.IsAbs(d) {
					d, _ = filepath.Rel(root, d)
				}
				d = filepath.Clean(d)
				if got[d] {
					rt.Fatalf("patterns %v repeat %s", pats, d)
				}
				got[d] = true
			}
			if !maps.Equal(got, w.used) {
				rt.Fatalf("patterns %v, want those of %v\n%s", pats, vfKeys(w.used), w.text)
			}
		}
		conflict := false
		lowest, highest := map[string]string{}, map[string]string{}
		oldestGo := ""
		for _, d := range vfKeys(w.used) {
			if oldestGo == "" || semver.Compare("v"+w.goVer[d], "v"+oldestGo) < 0 {
				oldestGo = w.goVer[d]
			}
		}
		for _, m := range append(c16Mods, "example.com/none") {
			indirect, found := true, false
			for d := range w.used {
				r, ok := w.dirs[d][m]
				if !ok {
					continue
				}
				if found && r.version != highest[m] {
					conflict = true
				}
				if !found || semver.Compare(r.version, highest[m]) > 0 {
					highest[m] = r.version
				}
				if !found || semver.Compare(r.version, lowest[m]) < 0 {
					lowest[m] = r.version
				}
				indirect = indirect && r.indirect
				found = true
			}
			v, ind, err := FindModuleVersion(root, m)
			if len(w.used) == 0 && err != nil {
				continue // no module at all
			}
			if err != nil || v != highest[m] || (found && ind != indirect) || (!found && ind) {
				rt.Fatalf("%s: version %q indirect=%v err=%v, want %q indirect=%v\n%s", m, v, ind, err, highest[m], indirect && found, w.text)
			}
		}
		for _, newest := range []bool{false, true} {
			deps, goVer, err := parseProjectDeps(root, newest)
			if len(w.used) == 0 {
				if err == nil {
					rt.Fatalf("no error for a project without modules")
				}
				continue
			}
			want := lowest
			if newest {
				want = highest
			}
			if err != nil || !maps.Equal(deps, want) || goVer != oldestGo {
				rt.Fatalf("requirements (newest=%v) %v go %s err=%v, want %v go %s\n%s", newest, deps, goVer, err, want, oldestGo, w.text)
			}
		}
		vfCase("workspace", conflict, fmt.Sprintf("%s %v", strings.ReplaceAll(w.text, root, "/R"), w.dirs), fmt.Sprintf("used=%d", len(w.used)))
	})
}

func TestC16GoWorkDiff(t *testing.T) {
	vfRule("gowork: two workspaces with edited requirements in their shared module directories; non-trivial = the same module changes in two directories")
	vfRun(t, 600, 12000, func(rt *rapid.T) {
		base := vfDir("c16")
		defer os.RemoveAll(base)
		old := c16Workspace(rt, filepath.Join(base, "old"))
		neu := &c16Ws{root: filepath.Join(base, "new"), dirs: map[string]map[string]c16Req{}, used: map[string]bool{}, goVer: map[string]string{}}
		for _, d := range c16Dirs {
			// unused directories would leave open which requirements count
			if old.dirs[d] != nil && !old.used[d] {
				delete(old.dirs, d)
			}
			switch {
			case old.used[d] && rapid.IntRange(0, 5).Draw(rt, "gone") > 0:
				neu.dirs[d], neu.goVer[d], neu.used[d] = c16Edit(rt, old.dirs[d]), "1.23", true
			case !old.used[d] && rapid.IntRange(0, 3).Draw(rt, "added") == 0:
				neu.dirs[d], neu.goVer[d], neu.used[d] = c16Reqs(rt), "1.23", true
			}
		}
		_ = os.MkdirAll(old.root, 0o755)
		_ = os.MkdirAll(neu.root, 0o755)
		old.write(rt)
		neu.write(rt)
		old.use(rt, false)
		neu.use(rt, false)
		got, err := DiffModulesFromGoWorkFiles(old.root, filepath.Join(neu.root, "go.work"))
		if err != nil {
			rt.Fatalf("diff failed: %v\n%s\n%s", err, old.text, neu.text)
		}
		type ch struct{ name, from, to string }
		want := map[ch]bool{} // -> indirect everywhere
		shared := false
		for d := range neu.used {
			for m, n := range neu.dirs[d] {
				if o, ok := old.dirs[d][m]; ok && o.version != n.version {
					k := ch{m, o.version, n.version}
					ind, dup := want[k]
					if dup {
						shared = true
					}
					want[k] = n.indirect && (!dup || ind)
				}
			}
		}
		var wl []string
		for k, ind := range want {
			wl = append(wl, fmt.Sprintf("%s %s->%s indirect=%v", k.name, k.from, k.to, ind))
		}
		sort.Strings(wl)
		gl := c16Changes(got)
		if s := slices.Sorted(slices.Values(gl)); !slices.Equal(s, wl) {
			rt.Fatalf("changes %v\nwant %v\n%s\n%s", s, wl, old.text, neu.text)
		}
		for range 3 {
			again, err := DiffModulesFromGoWorkFiles(old.root, filepath.Join(neu.root, "go.work"))
			if err != nil || !slices.Equal(c16Changes(again), gl) {
				rt.Fatalf("the order differs between runs: %v, %v (%v)", gl, c16Changes(again), err)
			}
		}
		vfCase("gowork", shared, fmt.Sprintf("%v -> %v", old.dirs, neu.dirs), fmt.Sprintf("changes=%d", len(wl)))
	})
}
