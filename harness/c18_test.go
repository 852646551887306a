package lens

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"
)

var c18Names = []string{"a", "b.go", "go.mod", ".hidden", "..dots", "...", "with space", "ünïcode", "-dash", "new\nline", "vendor", "pkg", "mod", "UP", "up", "a.bkp", "~tilde", "sub"}

type c18Entry struct {
	path, kind, data string // kind: dir, file, link
	mode             os.FileMode
}

// c18Gen draws a tree: parents come before children.
func c18Gen(t *rapid.T, n int) []c18Entry {
	dirs := []string{"."}
	used := map[string]bool{".": true}
	var out []c18Entry
	for range rapid.IntRange(0, n).Draw(t, "entries") {
		p := filepath.Join(rapid.SampledFrom(dirs).Draw(t, "parent"), rapid.SampledFrom(c18Names).Draw(t, "name"))
		if used[p] {
			continue
		}
		used[p] = true
		e := c18Entry{path: p, kind: rapid.SampledFrom([]string{"dir", "file", "file", "file", "link"}).Draw(t, "kind")}
		switch e.kind {
		case "dir":
			dirs = append(dirs, p)
			e.mode = rapid.SampledFrom([]os.FileMode{0o755, 0o700, 0o555}).Draw(t, "dmode")
		case "file":
			size := rapid.SampledFrom([]int{0, 1, 10, 4096, 40000, 300001}).Draw(t, "size")
			unit := rapid.StringN(1, 8, 16).Draw(t, "unit")
			e.data = strings.Repeat(unit, size/len(unit)+1)[:size]
			e.mode = rapid.SampledFrom([]os.FileMode{0o644, 0o444, 0o755, 0o600}).Draw(t, "fmode")
		case "link":
			e.data = rapid.SampledFrom([]string{"a", "../a", ".", "..", "sub/../a", "/nonexistent/x", "missing", "b.go"}).Draw(t, "target")
		}
		out = append(out, e)
	}
	return out
}

func c18Make(root string, es []c18Entry) {
	if err := os.MkdirAll(root, 0o755); err != nil {
		vfHarnessErr("%v", err)
	}
	for _, e := range es {
		p := filepath.Join(root, e.path)
		var err error
		switch e.kind {
		case "dir":
			err = os.Mkdir(p, 0o755)
		case "file":
			err = os.WriteFile(p, []byte(e.data), 0o644)
		case "link":
			err = os.Symlink(e.data, p)
		}
		if err != nil {
			vfHarnessErr("%v", err)
		}
	}
	for i := len(es) - 1; i >= 0; i-- { // modes last, so that children can be made
		if es[i].kind != "link" {
			if err := os.Chmod(filepath.Join(root, es[i].path), es[i].mode); err != nil {
				vfHarnessErr("%v", err)
			}
		}
	}
}

// c18Snap is a tree with modes and modification times.
func c18Snap(root string) map[string]string {
	out := vfTree(root)
	_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(root, p)
			out[rel] += fmt.Sprintf(" %v %v", info.Mode(), info.ModTime().UnixNano())
		}
		return nil
	})
	return out
}

func c18Rm(dirs ...string) {
	for _, d := range dirs {
		_ = filepath.Walk(d, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.IsDir() {
				_ = os.Chmod(p, 0o755)
			}
			return nil
		})
		_ = os.RemoveAll(d)
	}
}

func c18Key(es []c18Entry) string {
	var b strings.Builder
	for _, e := range es {
		d := e.data
		if e.kind == "file" {
			d = fmt.Sprintf("%d bytes", len(e.data))
		}
		fmt.Fprintf(&b, "%s %q %s %v; ", e.kind, e.path, d, e.mode)
	}
	return b.String()
}

func TestC18CopyDir(t *testing.T) {
	vfRule("copydir: a random tree (odd names, links of all kinds, modes, empty and large files) copied, also through a linked or relative root and over obstacles; non-trivial = at least three entries")
	base := vfDir("c18")
	if err := os.Chdir(base); err != nil {
		vfHarnessErr("%v", err)
	}
	vfRun(t, 400, 8000, func(rt *rapid.T) {
		es := c18Gen(rt, 14)
		src, dst := filepath.Join(base, "src"), filepath.Join(base, "dst")
		defer c18Rm(src, dst)
		_ = os.Remove(filepath.Join(base, "srclink"))
		c18Make(src, es)
		how := rapid.SampledFrom([]string{"plain", "plain", "slash", "relative", "linked", "existing", "obstacle", "missing", "cancelled"}).Draw(rt, "how")
		key := how + ": " + c18Key(es)
		vfNote(key)
		from, to := src, dst
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		mustFail := false
		var files []string
		for _, e := range es {
			if e.kind == "file" {
				files = append(files, e.path)
			}
		}
		switch how {
		case "slash":
			from, to = src+"/", dst+"/"
		case "relative":
			from, to = "src", "./dst"
		case "linked":
			from = filepath.Join(base, "srclink")
			if err := os.Symlink("src", from); err != nil {
				vfHarnessErr("%v", err)
			}
		case "existing": // files of the same name with other, longer content
			for _, f := range files {
				vfWrite(filepath.Join(dst, f), strings.Repeat("old", 200000))
			}
		case "obstacle":
			if len(files) > 0 {
				f := rapid.SampledFrom(files).Draw(rt, "obstacle")
				vfWrite(filepath.Join(dst, f, "in the way"), "x")
				mustFail = true
			}
		case "missing":
			from = filepath.Join(base, "nosuch")
			mustFail = true
		case "cancelled":
			cancel()
		}
		before := c18Snap(src)
		var mu sync.Mutex
		seen := map[string]int{}
		var notify func(string, os.FileInfo)
		if rapid.Bool().Draw(rt, "notify") {
			notify = func(p string, info os.FileInfo) {
				mu.Lock()
				defer mu.Unlock()
				rel, _ := filepath.Rel(to, p)
				seen[rel]++
			}
		}
		err := CopyDir(ctx, from, to, notify)
		after := vfTree(dst)
		if d := vfTreeDiff(before, c18Snap(src)); d != "" {
			rt.Fatalf("%s\ncopying changed the source: %s", key, d)
		}
		if mustFail && err == nil {
			rt.Fatalf("%s\nno error reported", key)
		}
		if !mustFail && how != "cancelled" && err != nil {
			rt.Fatalf("%s\nerror %v", key, err)
		}
		if err == nil {
			if d := vfTreeDiff(vfTree(src), after); d != "" {
				rt.Fatalf("%s\ncopy differs from the source: %s", key, d)
			}
			if fi, e := os.Lstat(dst); e != nil || fi.Mode()&os.ModeSymlink != 0 {
				rt.Fatalf("%s\nthe copy is itself a link (%v)", key, e)
			}
			if notify != nil {
				mu.Lock()
				for k := range before {
					if seen[k] != 1 {
						rt.Fatalf("%s\nprogress of %q reported %d times", key, k, seen[k])
					}
				}
				if len(seen) != len(before) {
					rt.Fatalf("%s\nprogress reported for %v", key, vfKeys(seen))
				}
				mu.Unlock()
			}
			// the copy is independent: changing every file in it leaves the source alone
			for _, f := range files {
				p := filepath.Join(dst, f)
				_ = os.Chmod(p, 0o644)
				if e := os.WriteFile(p, []byte("scribbled"), 0o644); e != nil {
					rt.Fatalf("%s\ncopied file not writable: %v", key, e)
				}
			}
			if d := vfTreeDiff(before, c18Snap(src)); d != "" {
				rt.Fatalf("%s\nwriting to the copy changed the source: %s", key, d)
			}
		} else {
			time.Sleep(2 * time.Millisecond)
			if d := vfTreeDiff(after, vfTree(dst)); d != "" {
				rt.Fatalf("%s\nfiles still being written after the error was returned: %s", key, d)
			}
		}
		vfCase("copydir", len(es) >= 3, key, how)
	})
}

func TestC18Within(t *testing.T) {
	vfRule("within: a path and a directory over segments including '..', '.', '..x' and prefixes of each other; non-trivial = they share a first segment")
	base := vfDir("c18w")
	if err := os.Chdir(base); err != nil {
		vfHarnessErr("%v", err)
	}
	segs := []string{"a", "ab", "b", ".", "..", "..x", "...", "a b", ".a", "", "A"}
	resolve := func(p string) []string {
		full := p
		if !strings.HasPrefix(p, "/") {
			full = base + "/" + p
		}
		var out []string
		for _, s := range strings.Split(full, "/") {
			switch s {
			case "", ".":
			case "..":
				if len(out) > 0 {
					out = out[:len(out)-1]
				}
			default:
				out = append(out, s)
			}
		}
		return out
	}
	vfRun(t, 8000, 300000, func(rt *rapid.T) {
		gen := func(label string) string {
			n := rapid.IntRange(0, 5).Draw(rt, label)
			p := rapid.SampledFrom([]string{"/", "", "/a/", "/ab"}).Draw(rt, label+"root")
			for i := range n {
				if i > 0 {
					p += "/"
				}
				p += rapid.SampledFrom(segs).Draw(rt, label+"seg")
			}
			return p
		}
		dir, file := gen("dir"), gen("file")
		if rapid.Bool().Draw(rt, "inside") {
			file = dir + "/" + strings.TrimLeft(file, "/")
		}
		d, f := resolve(dir), resolve(file)
		want := len(f) >= len(d) && strings.Join(f[:len(d)], "\x00") == strings.Join(d, "\x00")
		got, err := fileWithinDir(file, dir)
		if err != nil {
			rt.Fatalf("%q in %q: %v", file, dir, err)
		}
		if got != want {
			rt.Fatalf("%q in %q: reported %v, is %v", file, dir, got, want)
		}
		vfCase("within", len(f) > 0 && len(d) > 0 && f[0] == d[0], fmt.Sprintf("%q in %q", file, dir), fmt.Sprint(want))
	})
}

func TestC18Replace(t *testing.T) {
	vfRule("replace: one file replaced by another, with missing files, links, directories and read-only files; non-trivial = both exist")
	base := vfDir("c18r")
	vfRun(t, 600, 10000, func(rt *rapid.T) {
		dir := filepath.Join(base, "d")
		defer c18Rm(dir)
		mk := func(name, kind string) {
			p := filepath.Join(dir, name)
			switch kind {
			case "file":
				vfWrite(p, "content of "+name)
			case "readonly":
				vfWrite(p, "content of "+name)
				_ = os.Chmod(p, 0o444)
			case "link":
				vfWrite(filepath.Join(dir, name+"-target"), "target of "+name)
				_ = os.Symlink(name+"-target", p)
			case "dangling":
				_ = os.Symlink("nowhere", p)
			case "dir":
				_ = os.MkdirAll(p, 0o755)
				vfWrite(filepath.Join(p, "inside"), "x")
			}
		}
		_ = os.MkdirAll(dir, 0o755)
		sk := rapid.SampledFrom([]string{"file", "file", "readonly", "link", "missing"}).Draw(rt, "src")
		dk := rapid.SampledFrom([]string{"file", "file", "readonly", "link", "dangling", "dir", "missing"}).Draw(rt, "dst")
		mk("src", sk)
		mk("dst", dk)
		vfWrite(filepath.Join(dir, "other"), "other")
		before := vfTree(dir)
		err := replaceFile(filepath.Join(dir, "src"), filepath.Join(dir, "dst"))
		after := vfTree(dir)
		if sk == "missing" && err == nil {
			rt.Fatalf("replacing by a missing file succeeded")
		}
		if sk != "missing" && dk != "dir" && err != nil {
			rt.Fatalf("replacing a %s by a %s: %v", dk, sk, err)
		}
		if err != nil {
			if d := vfTreeDiff(before, after); d != "" {
				rt.Fatalf("failed replacement (%v) of a %s by a %s changed files: %s", err, dk, sk, d)
			}
		} else {
			want := map[string]string{}
			for k, v := range before {
				want[k] = v
			}
			want["dst"] = want["src"]
			delete(want, "src")
			if d := vfTreeDiff(want, after); d != "" {
				rt.Fatalf("replacement of a %s by a %s: %s", dk, sk, d)
			}
		}
		vfCase("replace", sk != "missing" && dk != "missing", sk+" over "+dk)
	})
}

func TestC18Walk(t *testing.T) {
	vfRule("walk: a random tree visited and made writable, with a failing visitor now and then; non-trivial = at least three entries")
	base := vfDir("c18k")
	vfRun(t, 400, 6000, func(rt *rapid.T) {
		es := c18Gen(rt, 12)
		dir := filepath.Join(base, "d")
		outside := filepath.Join(base, "outside")
		defer c18Rm(dir, outside)
		vfWrite(outside, "outside")
		_ = os.Chmod(outside, 0o444)
		c18Make(dir, es)
		links := 0
		for _, e := range es {
			if e.kind == "link" {
				links++
			}
		}
		if rapid.Bool().Draw(rt, "outlink") {
			if os.Symlink(outside, filepath.Join(dir, "to-outside")) == nil {
				links++
			}
		}
		skip := rapid.Bool().Draw(rt, "skip")
		before := vfTree(dir)
		want := map[string]bool{}
		for k, v := range before {
			if !skip || !strings.HasPrefix(v, "-> ") {
				want[k] = true
			}
		}
		names := vfKeys(want)
		failAt := ""
		if rapid.IntRange(0, 3).Draw(rt, "fail") == 0 {
			failAt = rapid.SampledFrom(names).Draw(rt, "failAt")
		}
		boom := errors.New("visitor failed")
		var mu sync.Mutex
		seen := map[string]int{}
		vfMustReturn(time.Minute, "walk never returns: "+c18Key(es), func() {
			err := concurrentWalk(context.Background(), dir, skip, func(p string, info os.FileInfo) error {
				rel, _ := filepath.Rel(dir, p)
				mu.Lock()
				seen[rel]++
				mu.Unlock()
				if rel == failAt {
					return boom
				}
				return nil
			})
			mu.Lock()
			defer mu.Unlock()
			if (failAt != "") != (err != nil) || (err != nil && !errors.Is(err, boom)) {
				rt.Fatalf("visitor failed at %q, walk returned %v", failAt, err)
			}
			for k, n := range seen {
				if n != 1 || !want[k] {
					rt.Fatalf("%q visited %d times (to be visited: %v)", k, n, want[k])
				}
			}
			if failAt == "" && len(seen) != len(want) {
				rt.Fatalf("visited %v of %v", vfKeys(seen), names)
			}
		})
		modes := map[string]os.FileMode{}
		_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err == nil {
				modes[p] = info.Mode()
			}
			return nil
		})
		if err := WriteChmod(context.Background(), dir); err != nil {
			rt.Fatalf("WriteChmod: %v", err)
		}
		for p, m := range modes {
			info, err := os.Lstat(p)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			w := m
			if m&os.ModeSymlink == 0 {
				w |= 0o222
			}
			if m.IsDir() {
				w |= 0o111
			}
			if info.Mode() != w {
				rt.Fatalf("%s had mode %v, made writable it has %v", p, m, info.Mode())
			}
		}
		if info, err := os.Stat(outside); err != nil || info.Mode().Perm() != 0o444 {
			rt.Fatalf("the mode of a file outside the tree was changed")
		}
		if d := vfTreeDiff(before, vfTree(dir)); d != "" {
			rt.Fatalf("tree changed: %s", d)
		}
		vfCase("walk", len(es) >= 3, fmt.Sprintf("skip=%v fail=%q %s", skip, failAt, c18Key(es)))
	})
}

func TestC18CopyFile(t *testing.T) {
	vfRule("copyfile: files and links copied to new and existing places; non-trivial = content")
	base := vfDir("c18f")
	vfRun(t, 500, 10000, func(rt *rapid.T) {
		dir := filepath.Join(base, "d")
		defer c18Rm(dir)
		src, dst := filepath.Join(dir, "s"), filepath.Join(dir, "t")
		data := rapid.StringN(0, 200, 400).Draw(rt, "data")
		kind := rapid.SampledFrom([]string{"file", "link", "dangling", "missing", "dir"}).Draw(rt, "kind")
		existing := rapid.Bool().Draw(rt, "existing")
		_ = os.MkdirAll(dir, 0o755)
		switch kind {
		case "file":
			vfWrite(src, data)
		case "link":
			vfWrite(filepath.Join(dir, "real"), data)
			_ = os.Symlink("real", src)
		case "dangling":
			_ = os.Symlink("gone", src)
		case "dir":
			_ = os.Mkdir(src, 0o755)
		}
		if existing {
			vfWrite(dst, strings.Repeat("old", 300))
		}
		before := vfTree(dir)
		err := CopyFile(src, dst)
		after := vfTree(dir)
		if (kind == "missing" || kind == "dir") && err == nil {
			rt.Fatalf("copying a %s file reported success", kind)
		}
		if (kind == "file" || !existing) && kind != "missing" && kind != "dir" && err != nil {
			rt.Fatalf("copying a %s: %v", kind, err)
		}
		if err == nil && after["t"] != before["s"] {
			rt.Fatalf("copy of %q is %q", vfClip(before["s"]), vfClip(after["t"]))
		}
		delete(before, "t")
		delete(after, "t")
		if d := vfTreeDiff(before, after); d != "" {
			rt.Fatalf("copying changed other files: %s", d)
		}
		vfCase("copyfile", data != "", fmt.Sprintf("%s existing=%v %q", kind, existing, data))
	})
}

// ---- the temporary environment of an analysis

type c18Spy struct {
	cfg *Config
	run func(Config)
}

func (s *c18Spy) AnalyzeModuleChanges(c Config, _ bool, _ []*ModuleChange, _ int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	s.run(c)
	return nil, nil, errors.New("stopped on purpose")
}
func (s *c18Spy) Cleanup() {}

func TestC18TempEnvironment(t *testing.T) {
	vfRule("tempenv: the engine run with a temporary copy over random projects, GOPATH and GOMODCACHE layouts; the first stage scribbles over everything it was given; non-trivial = every run")
	base := vfDir("c18t")
	tmp := filepath.Join(base, "tmp")
	old := os.Getenv("TMPDIR")
	_ = os.Setenv("TMPDIR", tmp)
	defer func() { _ = os.Setenv("TMPDIR", old) }()
	stdout := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	defer func() { os.Stdout = stdout }()
	vfRun(t, 120, 2000, func(rt *rapid.T) {
		w := filepath.Join(base, "w")
		c18Rm(w, tmp)
		_ = os.MkdirAll(tmp, 0o755)
		gopath := filepath.Join(w, "gopath")
		modRel := rapid.SampledFrom([]string{"pkg/mod", "pkg/mod", "cache", "pkg/mod2/x", "OUT", "OUT", "..odd"}).Draw(rt, "modcache")
		modcache := filepath.Join(gopath, modRel)
		if modRel == "OUT" {
			modcache = filepath.Join(w, rapid.SampledFrom([]string{"elsewhere/mod", "gopath-mod", "gopathcache/x", "gop"}).Draw(rt, "outside"))
		}
		proj := filepath.Join(w, "proj")
		if rapid.IntRange(0, 4).Draw(rt, "projInGopath") == 0 {
			proj = filepath.Join(gopath, "src", "proj")
		}
		for _, d := range []string{proj, modcache, gopath} {
			c18Make(filepath.Join(d, "t"), c18Gen(rt, 6))
			vfWrite(filepath.Join(d, "f.txt"), "file in "+d)
		}
		vfWrite(filepath.Join(proj, "go.mod"), "module example.com/p\n\ngo 1.21\n\nrequire example.com/m v1.0.0\n")
		dirOf := func(d, label string) string {
			if rapid.IntRange(0, 3).Draw(rt, label) > 0 {
				return d
			}
			l := d + "-" + label
			if err := os.Symlink(d, l); err != nil {
				vfHarnessErr("%v", err)
			}
			return l
		}
		cfgProj, cfgGopath, cfgMod := dirOf(proj, "plink"), gopath, modcache
		if modRel == "OUT" {
			cfgGopath, cfgMod = dirOf(gopath, "glink"), dirOf(modcache, "mlink")
		} else if rapid.IntRange(0, 3).Draw(rt, "glink") == 0 {
			cfgGopath = gopath + "-glink"
			_ = os.Symlink(gopath, cfgGopath)
			cfgMod = filepath.Join(cfgGopath, modRel)
		}
		missing := rapid.IntRange(0, 6).Draw(rt, "missing") == 0
		if missing {
			cfgGopath = filepath.Join(w, "nosuch")
		}
		key := fmt.Sprintf("proj=%s gopath=%s modcache=%s", strings.TrimPrefix(cfgProj, w), strings.TrimPrefix(cfgGopath, w), strings.TrimPrefix(cfgMod, w))
		vfNote(key)
		before := c18Snap(w)
		pt, gt, mt := vfTree(proj), vfTree(gopath), vfTree(modcache)
		ran := 0
		spy := &c18Spy{run: func(c Config) {
			ran++
			for _, x := range []struct {
				what, dir, orig string
				want            map[string]string
			}{{"project", c.AbsProjDir, proj, pt}, {"GOPATH", c.Gopath, gopath, gt}, {"GOMODCACHE", c.Gomodcache, modcache, mt}} {
				real, err := filepath.EvalSymlinks(x.dir)
				if err != nil {
					rt.Fatalf("%s\n%s: %v", key, x.what, err)
				}
				if !strings.HasPrefix(real, tmp+"/") {
					rt.Fatalf("%s\nthe analysis was given %s %s, which is not a copy", key, x.what, real)
				}
				if d := vfTreeDiff(x.want, vfTree(x.dir)); d != "" {
					rt.Fatalf("%s\nthe copied %s differs: %s", key, x.what, d)
				}
			}
			for _, d := range []string{c.AbsProjDir, c.Gopath, c.Gomodcache} {
				var ps []string
				_ = filepath.Walk(d+"/", func(p string, info os.FileInfo, err error) error {
					if err == nil && info.Mode().IsRegular() {
						ps = append(ps, p)
					}
					return nil
				})
				sort.Strings(ps)
				for _, p := range ps {
					_ = os.WriteFile(p, []byte("scribbled"), 0o644)
				}
				vfWrite(filepath.Join(d, "added"), "added")
				_ = os.Chmod(d, 0o555)
			}
		}}
		cfg := &Config{ProjectDir: cfgProj, ModuleVersionFlag: "example.com/m@v1.1.0", AstMonitorPort: 44440, MaxFieldRecurse: 3, MaxFieldLen: 100,
			CacheMB: 10, TimeMultiplier: 2, MutationScope: "none", MutationMode: "fast", MutationTests: "full", TmpCopy: true,
			ReportJsonFile: filepath.Join(base, "out", "r.json"), ReportChartsFile: filepath.Join(base, "out", "r.png"), Gopath: cfgGopath, Gomodcache: cfgMod}
		err := NewAnalysisEngineWithProviders(cfg, spy, nil, nil, nil, nil, nil, nil, nil).Run()
		if err == nil {
			rt.Fatalf("%s\nthe failing stage was not reported", key)
		}
		if missing && ran > 0 {
			rt.Fatalf("%s\nanalysed although the GOPATH could not be copied", key)
		}
		if !missing && ran != 1 {
			rt.Fatalf("%s\nnot analysed: %v", key, err)
		}
		if d := vfTreeDiff(before, c18Snap(w)); d != "" {
			rt.Fatalf("%s\nthe originals were changed: %s", key, d)
		}
		if left := vfKeys(vfTree(tmp)); len(left) > 1 {
			rt.Fatalf("%s\nleft in the temporary directory: %v", key, left)
		}
		vfCase("tempenv", true, key)
	})
	c18Rm(filepath.Join(base, "w"), tmp)
}
