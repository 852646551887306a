package lens

import (
	"bytes"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

var c23Segs = []string{"a", "pkg", "mod", "src", "proj", "proj2", "vendor", "internal", "..x", "...", ".git", "a b", "ü", "v2", "x@v1.0.0", "testdata", "go"}

func c23Path(t *rapid.T, lo, hi int, label string) string {
	n := rapid.IntRange(lo, hi).Draw(t, label+"n")
	var p []string
	for range n {
		p = append(p, rapid.SampledFrom(c23Segs).Draw(t, label))
	}
	return strings.Join(p, "/")
}

type c23Layout struct{ proj, goroot, modcache, mods string }

// c23GenLayout draws where the project, the Go installation and the module
// cache lie; none of them inside another.
func c23GenLayout(t *rapid.T) c23Layout {
	root := "/" + c23Path(t, 0, 2, "root")
	if root != "/" {
		root += "/"
	}
	tmp := rapid.SampledFrom([]string{"home/u/", "tmp/patchlens-1/", "w/"}).Draw(t, "tmp")
	l := c23Layout{
		proj:     root + "P/" + c23Path(t, 0, 2, "p") + "/project",
		goroot:   root + rapid.SampledFrom([]string{"usr/local/go", "G/go1.25", "P/projectgo"}).Draw(t, "goroot"),
		modcache: root + tmp + rapid.SampledFrom([]string{"go/pkg/mod", "gopath/pkg/mod"}).Draw(t, "cache"),
	}
	l.proj = filepath.Clean(l.proj)
	if rapid.IntRange(0, 5).Draw(t, "nogoroot") == 0 {
		l.goroot = ""
	}
	return l
}

type c23Frame struct {
	kind, rel, fn string
	line          int
}

func (f c23Frame) file(l c23Layout) string {
	switch f.kind {
	case "project", "vendor":
		return l.proj + "/" + f.rel
	case "sibling":
		return l.proj + "2/" + f.rel
	case "std":
		if l.goroot == "" {
			return "/usr/lib/go/src/" + f.rel
		}
		return l.goroot + "/src/" + f.rel
	case "module":
		return l.modcache + "/example.com/" + f.rel
	case "bare":
		return f.rel
	}
	return "/else/" + f.rel
}

func c23GenFrame(t *rapid.T) c23Frame {
	f := c23Frame{kind: rapid.SampledFrom([]string{"project", "project", "project", "vendor", "sibling", "std", "module", "else", "bare"}).Draw(t, "kind"),
		line: rapid.IntRange(0, 5).Draw(t, "line"), fn: rapid.SampledFrom([]string{"p.F", "p.(*T).M", "p.F.func1", "p.G[...]"}).Draw(t, "fn")}
	file := rapid.SampledFrom([]string{"x.go", "y_test.go", "..z.go", "x y.go", "_cgo_gotypes.go"}).Draw(t, "file")
	dir := c23Path(t, 0, 3, "dir")
	switch f.kind {
	case "project":
		if dir == "vendor" || strings.HasPrefix(dir, "vendor/") {
			dir = "x/" + dir
		}
	case "vendor":
		dir = strings.TrimSuffix("vendor/"+dir, "/")
	case "bare":
		dir = ""
		file = rapid.SampledFrom([]string{"<autogenerated>", "", "_testmain.go"}).Draw(t, "bare")
	}
	f.rel = strings.TrimPrefix(dir+"/"+file, "/")
	return f
}

func c23Stack(l c23Layout, frames []c23Frame) []StackFrame {
	var out []StackFrame
	for _, f := range frames {
		out = append(out, StackFrame{File: trimStackFile(l.proj, l.goroot, f.file(l)), Line: uint32(f.line), Function: f.fn})
	}
	return out
}

func TestC23Frames(t *testing.T) {
	vfRule("frames: a stack of project, vendored, sibling-project, standard library, module cache and other frames, in two layouts; non-trivial = at least one project and one other frame")
	vfRun(t, 8000, 300000, func(rt *rapid.T) {
		l1, l2 := c23GenLayout(rt), c23GenLayout(rt)
		n := rapid.IntRange(0, 7).Draw(rt, "n")
		var frames []c23Frame
		for range n {
			frames = append(frames, c23GenFrame(rt))
		}
		key := fmt.Sprintf("%v in %+v / %+v", frames, l1, l2)
		s1, s2 := c23Stack(l1, frames), c23Stack(l2, frames)
		var want []StackFrame
		other := 0
		for i, f := range frames {
			switch f.kind {
			case "project":
				if s1[i].File != "./"+f.rel {
					rt.Fatalf("project file %q in %q is given as %q", f.file(l1), l1.proj, s1[i].File)
				}
				want = append(want, StackFrame{File: "./" + f.rel, Line: uint32(f.line), Function: f.fn})
			case "vendor":
				other++
			case "bare": // has no directory, so it is never expressed as a project file of another directory
				other++
				if f.rel != "_testmain.go" && strings.HasPrefix(s1[i].File, "./") {
					rt.Fatalf("%q is attributed to the project as %q", f.rel, s1[i].File)
				}
			default:
				other++
				if strings.HasPrefix(s1[i].File, "./") {
					rt.Fatalf("%s file %q is attributed to project %q as %q", f.kind, f.file(l1), l1.proj, s1[i].File)
				}
				if f.kind == "module" && !strings.Contains(f.rel, "pkg/mod/") && !strings.Contains(l1.modcache, "pkg/mod/pkg/mod") && s1[i].File != s2[i].File && !strings.Contains(strings.TrimSuffix(l1.modcache, "/pkg/mod")+strings.TrimSuffix(l2.modcache, "/pkg/mod"), "/pkg/mod") {
					rt.Fatalf("module file %q is given as %q in one layout and %q in another", f.rel, s1[i].File, s2[i].File)
				}
			}
		}
		p1, p2 := ProjectFrames(s1), ProjectFrames(s2)
		if len(p1) != len(want) || (len(want) > 0 && !reflect.DeepEqual(p1, want)) {
			rt.Fatalf("%s\nproject frames %v, want %v", key, p1, want)
		}
		if len(p1) != len(p2) || (len(p1) > 0 && !reflect.DeepEqual(p1, p2)) {
			rt.Fatalf("%s\nproject frames depend on the location: %v vs %v", key, p1, p2)
		}
		var bb bytes.Buffer
		if StackFramesKey(&bb, p1) != StackFramesKey(&bb, p2) {
			rt.Fatalf("%s\nstack identity depends on the location", key)
		}
		vfCase("frames", len(want) > 0 && other > 0, key)
	})
}

func TestC23Identity(t *testing.T) {
	vfRule("identity: two stacks, the second an edited copy of the first; equal identity exactly if files and functions are equal in order, whatever the lines; non-trivial = both non-empty")
	vfRun(t, 8000, 300000, func(rt *rapid.T) {
		l := c23Layout{proj: "/p/project", goroot: "/usr/local/go", modcache: "/root/go/pkg/mod"}
		var frames []c23Frame
		for range rapid.IntRange(0, 6).Draw(rt, "n") {
			frames = append(frames, c23GenFrame(rt))
		}
		other := append([]c23Frame(nil), frames...)
		for range rapid.IntRange(0, 2).Draw(rt, "edits") {
			at := rapid.IntRange(0, len(other)).Draw(rt, "at")
			switch op := rapid.SampledFrom([]string{"insert", "delete", "line", "fn", "file", "swap"}).Draw(rt, "op"); {
			case op == "insert":
				other = append(other[:at:at], append([]c23Frame{c23GenFrame(rt)}, other[at:]...)...)
			case at == len(other):
			case op == "delete":
				other = append(other[:at:at], other[at+1:]...)
			case op == "line":
				other[at].line += 3
			case op == "fn":
				other[at].fn = rapid.SampledFrom([]string{"p.F", "p.F2", "p.(*T).M"}).Draw(rt, "fn")
			case op == "file":
				other[at] = c23GenFrame(rt)
			case op == "swap" && at+1 < len(other):
				other[at], other[at+1] = other[at+1], other[at]
			}
		}
		a, b := ProjectFrames(c23Stack(l, frames)), ProjectFrames(c23Stack(l, other))
		same := len(a) == len(b)
		for i := 0; same && i < len(a); i++ {
			same = a[i].File == b[i].File && a[i].Function == b[i].Function
		}
		var b1, b2 bytes.Buffer
		b2.WriteString("left over from another key")
		k1, k2 := StackFramesKey(&b1, a), StackFramesKey(&b2, b)
		if (k1 == k2) != same {
			rt.Fatalf("stacks %v and %v: same call path %v, same identity %v", a, b, same, k1 == k2)
		}
		vfCase("identity", len(a) > 0 && len(b) > 0, fmt.Sprintf("%v vs %v", a, b), fmt.Sprintf("same=%v", same))
	})
}
