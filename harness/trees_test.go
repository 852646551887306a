package lens

// Generators and canonical forms for recorded results (C07, C08, C09, C17).

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

var vfNames = []string{"a", "b", "c", "ret0", "err", "longFieldName", "[0]", "[1]"}
var vfValues = []string{"", "1", "2", "true", "<nil>", "12345", "hello world", "a much longer captured value", "#h:abc"}

// vfGenFields draws a field tree as the monitor builds it: leaves carry a
// value, inner nodes carry children only.
func vfGenFields(t *rapid.T, label string, depth, maxLen int) FieldValues {
	n := rapid.IntRange(0, maxLen).Draw(t, label+"n")
	if n == 0 {
		if rapid.Bool().Draw(t, label+"nil") {
			return nil
		}
		return FieldValues{}
	}
	out := FieldValues{}
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(vfNames).Draw(t, label+"name")
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, label+"kind") == 0 {
			out[name] = &FieldValue{Children: vfGenFields(t, label, depth-1, maxLen)}
		} else {
			out[name] = &FieldValue{Value: rapid.SampledFrom(vfValues).Draw(t, label+"val")}
		}
	}
	return out
}

func vfCopyFields(f FieldValues) FieldValues {
	if f == nil {
		return nil
	}
	out := FieldValues{}
	for k, v := range f {
		if v == nil {
			out[k] = nil
			continue
		}
		out[k] = &FieldValue{Value: v.Value, Children: vfCopyFields(v.Children)}
	}
	return out
}

// vfPerturb makes a small structural or value edit of a tree (possibly none).
func vfPerturb(t *rapid.T, label string, src FieldValues, depth int) FieldValues {
	f := vfCopyFields(src)
	if f == nil {
		f = FieldValues{}
	}
	// collect the maps of the tree
	type ref struct {
		m    FieldValues
		path string
	}
	var maps []ref
	var walk func(m FieldValues, p string)
	walk = func(m FieldValues, p string) {
		maps = append(maps, ref{m, p})
		for _, k := range vfKeys(m) {
			if m[k] != nil && len(m[k].Children) > 0 {
				walk(m[k].Children, p+"/"+k)
			}
		}
	}
	walk(f, "")
	pick := func(l string) FieldValues { return maps[rapid.IntRange(0, len(maps)-1).Draw(t, label+l)].m }
	switch rapid.IntRange(0, 5).Draw(t, label+"op") {
	case 0: // none
	case 1: // change a value
		m := pick("m")
		if ks := vfKeys(m); len(ks) > 0 {
			m[ks[rapid.IntRange(0, len(ks)-1).Draw(t, label+"k")]] = &FieldValue{Value: rapid.SampledFrom(vfValues).Draw(t, label+"v")}
		}
	case 2: // drop
		m := pick("m")
		if ks := vfKeys(m); len(ks) > 0 {
			delete(m, ks[rapid.IntRange(0, len(ks)-1).Draw(t, label+"k")])
		}
	case 3: // add
		pick("m")[rapid.SampledFrom(vfNames).Draw(t, label+"name")] = &FieldValue{Value: rapid.SampledFrom(vfValues).Draw(t, label+"v")}
	case 4: // move an entry to another level
		m, d := pick("m"), pick("d")
		if ks := vfKeys(m); len(ks) > 0 {
			k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, label+"k")]
			v := m[k]
			if v != nil && len(v.Children) == 0 {
				delete(m, k)
				d[k] = v
			}
		}
	case 5: // wrap an entry in a node, or unwrap
		m := pick("m")
		if ks := vfKeys(m); len(ks) > 0 {
			k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, label+"k")]
			v := m[k]
			if len(v.Children) > 0 {
				delete(m, k)
				for ck, cv := range v.Children {
					m[ck] = cv
				}
			} else {
				m[k] = &FieldValue{Children: FieldValues{rapid.SampledFrom(vfNames).Draw(t, label+"w"): v}}
			}
		}
	}
	return f
}

// vfCanonFields is an injective rendering; nil and empty are the same thing.
func vfCanonFields(f FieldValues) string {
	var sb strings.Builder
	sb.WriteString("{")
	for _, k := range vfKeys(f) {
		v := f[k]
		if v == nil {
			fmt.Fprintf(&sb, "%q:nil,", k)
		} else if len(v.Children) > 0 {
			fmt.Fprintf(&sb, "%q:%q%s,", k, v.Value, vfCanonFields(v.Children))
		} else {
			fmt.Fprintf(&sb, "%q:%q,", k, v.Value)
		}
	}
	sb.WriteString("}")
	return sb.String()
}

func vfCanonStack(s []StackFrame) string {
	var sb strings.Builder
	for _, f := range s {
		fmt.Fprintf(&sb, "(%q %d %q)", f.File, f.Line, f.Function)
	}
	return sb.String()
}

func vfCanonFrames(m map[string][]CallFrame) string {
	var sb strings.Builder
	for _, k := range vfKeys(m) {
		fmt.Fprintf(&sb, "%q=[", k)
		for _, c := range m[k] {
			fmt.Fprintf(&sb, "<%s|%s|%d>", vfCanonFields(c.FieldValues), vfCanonStack(c.Stack), c.TimeMillis)
		}
		sb.WriteString("]")
	}
	return sb.String()
}

func vfCanonPanics(m map[string][]string) string {
	ks := vfKeys(m)
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%q;", k, m[k])
	}
	return sb.String()
}

func vfCanonResult(r TestResult) string {
	return fmt.Sprintf("tf=%q/%q cr{%s} ef{%s} pp{%s} mp{%s} hit=%d fail=%v", r.TestFunction.FunctionIdent, r.TestFunction.FunctionName,
		vfCanonFrames(r.CallerResults), vfCanonFrames(r.ExtensionFrames), vfCanonPanics(r.ProjectPanics), vfCanonPanics(r.ModulePanics),
		r.ModuleChangesHit, r.TestFailure)
}

var vfFiles = []string{"a.go", "pkg/b.go", "$GOROOT/src/x.go", "p.go"}
var vfFuncs = []string{"pkg.F", "pkg.G", "pkg.(*T).M", "pkg.F.func1"}

func vfGenStack(t *rapid.T, label string) []StackFrame {
	n := rapid.IntRange(0, 3).Draw(t, label+"sn")
	var out []StackFrame
	for i := 0; i < n; i++ {
		out = append(out, StackFrame{File: rapid.SampledFrom(vfFiles).Draw(t, label+"file"),
			Line: uint32(rapid.IntRange(1, 12).Draw(t, label+"line")), Function: rapid.SampledFrom(vfFuncs).Draw(t, label+"fn")})
	}
	return out
}

var vfIdents = []string{"m/p.A", "m/p.B", "m/p.(*T).C", "m/q.D"}

func vfGenPanics(t *rapid.T, label string) map[string][]string {
	n := rapid.IntRange(0, 2).Draw(t, label+"pn")
	if n == 0 {
		return nil
	}
	out := map[string][]string{}
	for i := 0; i < n; i++ {
		out[rapid.SampledFrom(vfIdents).Draw(t, label+"pi")] = rapid.SliceOfN(rapid.SampledFrom([]string{"boom", "nil map", ""}), 1, 3).Draw(t, label+"pm")
	}
	return out
}
