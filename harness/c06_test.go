package lens

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

type (
	c06P     *c06P
	c06Slice []c06Slice
	c06Map   map[string]c06Map
	c06Any   []interface{}
	c06Deep  struct {
		V int
		N interface{}
	}
	c06Tree struct {
		L, R, U *c06Tree
		Tag     string
	}
)

var c06Roots = []reflect.Type{
	reflect.TypeOf((*vfNode)(nil)), reflect.TypeOf(vfNode{}), reflect.TypeOf([]*vfNode{}), reflect.TypeOf(map[string]*vfNode{}), reflect.TypeOf(map[int]interface{}{}),
	reflect.TypeOf([]interface{}{}), reflect.TypeOf(c06Slice{}), reflect.TypeOf(c06Map{}), reflect.TypeOf(c06Deep{}), reflect.TypeOf((*c06Tree)(nil)), reflect.TypeOf((*interface{})(nil)), reflect.TypeOf([2]*c06Tree{}), reflect.TypeOf((**vfNode)(nil)),
}

// c06Size counts the nodes of a graph, each reference once, and what matters
// for the oracles.
type c06Info struct {
	nodes, maxMap int
	shared        bool
	seen          map[string]bool
}

func (c *c06Info) walk(v reflect.Value) {
	c.nodes++
	if !v.IsValid() {
		return
	}
	visit := func(key string) bool {
		if c.seen[key] {
			c.shared = true
			return false
		}
		c.seen[key] = true
		return true
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && visit(fmt.Sprint("p", v.Pointer(), v.Type())) {
			c.walk(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.walk(v.Elem())
		}
	case reflect.Slice:
		if v.Len() > 0 && !visit(fmt.Sprint("s", v.Pointer(), v.Len(), v.Type())) {
			return
		}
		fallthrough
	case reflect.Array:
		if vfIsScalar(v.Type().Elem()) {
			c.nodes += v.Len()
			return
		}
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || !visit(fmt.Sprint("m", v.Pointer(), v.Type())) {
			return
		}
		c.maxMap = max(c.maxMap, v.Len())
		for it := v.MapRange(); it.Next(); {
			c.walk(it.Value())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.walk(v.Field(i))
		}
	}
}

// c06Dump is a canonical rendering of a whole graph (references numbered in
// order of appearance, map entries by key), to see whether a value changed.
func c06Dump(v reflect.Value) string {
	var sb strings.Builder
	seen := map[string]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			sb.WriteString("invalid;")
			return
		}
		ref := func(k string) bool {
			if n, ok := seen[k]; ok {
				fmt.Fprintf(&sb, "#%d;", n)
				return true
			}
			seen[k] = len(seen)
			return false
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil;")
			} else if v.Kind() == reflect.Interface || !ref(fmt.Sprint(v.Pointer(), v.Type())) {
				walk(v.Elem())
			}
		case reflect.Slice:
			if v.IsNil() {
				sb.WriteString("nil;")
				return
			}
			fmt.Fprintf(&sb, "[%d/%d:", v.Len(), v.Cap())
			if v.Cap() > 0 && ref(fmt.Sprint(v.Pointer(), v.Len(), v.Type())) {
				return
			}
			full := v.Slice3(0, v.Cap(), v.Cap()) // also what lies beyond its length
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			if v.IsNil() {
				sb.WriteString("nil;")
				return
			}
			if ref(fmt.Sprint(v.Pointer(), v.Type())) {
				return
			}
			fmt.Fprintf(&sb, "{%d:", v.Len())
			keys := v.MapKeys()
			for _, k := range c06SortKeys(keys) {
				sb.WriteString(vfDescribe(k, 0) + "=")
				walk(v.MapIndex(k))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.String:
			fmt.Fprintf(&sb, "%q;", v.String())
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			fmt.Fprintf(&sb, "%x;", v.Pointer())
		default:
			fmt.Fprintf(&sb, "%v;", v)
		}
	}
	walk(v)
	return sb.String()
}

func c06SortKeys(keys []reflect.Value) []reflect.Value {
	type kv struct {
		s string
		v reflect.Value
	}
	kvs := make([]kv, len(keys))
	for i, k := range keys {
		kvs[i] = kv{vfDescribe(k, 0), k}
	}
	sort.SliceStable(kvs, func(i, j int) bool { return kvs[i].s < kvs[j].s })
	out := make([]reflect.Value, len(keys))
	for i := range kvs {
		out[i] = kvs[i].v
	}
	return out
}

// c06Copy rebuilds an equal graph: same sharing, other addresses, map entries
// inserted in another order.
func c06Copy(v reflect.Value, done map[string]reflect.Value, rev bool) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	src := v
	if !src.CanInterface() {
		tmp := reflect.New(v.Type()).Elem()
		if v.CanAddr() {
			tmp.Set(reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem())
			src = tmp
		} else {
			vfHarnessErr("copy of unaddressable unexported value")
		}
	}
	v = src
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		k := fmt.Sprint(v.Pointer(), v.Type())
		if d, ok := done[k]; ok {
			return d
		}
		p := reflect.New(v.Type().Elem())
		p = p.Convert(v.Type())
		done[k] = p
		p.Elem().Set(c06Copy(v.Elem(), done, rev))
		return p
	case reflect.Interface:
		if !v.IsNil() {
			e := v.Elem()
			a := reflect.New(e.Type()).Elem()
			a.Set(e)
			out.Set(c06Copy(a, done, rev))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		k := fmt.Sprint(v.Pointer(), v.Len(), v.Type())
		if d, ok := done[k]; ok && v.Len() > 0 {
			return d
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if v.Len() > 0 {
			done[k] = s
		}
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(c06Copy(v.Index(i), done, rev))
		}
		return s
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.Index(i))
			out.Index(i).Set(c06Copy(e, done, rev))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		k := fmt.Sprint(v.Pointer(), v.Type())
		if d, ok := done[k]; ok {
			return d
		}
		m := reflect.MakeMap(v.Type())
		done[k] = m
		keys := c06SortKeys(v.MapKeys())
		if rev {
			slices.Reverse(keys)
		}
		for _, k := range keys {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			m.SetMapIndex(k, c06Copy(e, done, rev))
		}
		return m
	case reflect.Struct:
		tmp := reflect.New(v.Type()).Elem()
		tmp.Set(v)
		for i := 0; i < v.NumField(); i++ {
			f := vfSettable(tmp.Field(i))
			vfSettable(out.Field(i)).Set(c06Copy(f, done, rev))
		}
	default:
		out.Set(v)
	}
	return out
}

func c06Encode(v reflect.Value) []byte {
	var buf bytes.Buffer
	var x interface{}
	if v.IsValid() {
		x = v.Interface()
	}
	lensEncodeMessagePointState(&buf, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "v", Val: x}})
	return buf.Bytes()
}

// c06Check applies the limits to a decoded tree and returns its node count.
func c06Check(f LensMonitorField, depth int, structLike bool) (nodes int, problem string) {
	if depth > vfMaxRecurse {
		return 0, fmt.Sprintf("field %q at depth %d", f.Name, depth)
	}
	nodes = 1
	str := func(s string) {
		if len(s) > vfMaxLen+40 && !strings.HasPrefix(s, "<cycle:") {
			problem = fmt.Sprintf("string of %d bytes", len(s))
		}
	}
	if s, ok := f.Value.(string); ok {
		str(s)
	} else if ss, ok := f.Value.([]string); ok {
		for _, s := range ss {
			str(s)
		}
	}
	if f.Value != nil && reflect.TypeOf(f.Value).Kind() == reflect.Slice && reflect.ValueOf(f.Value).Len() > vfMaxLen {
		problem = "long slice"
	}
	for _, c := range f.Children {
		n, p := c06Check(c, depth+1, false)
		nodes += n
		if p != "" {
			problem = p
		}
	}
	return nodes, problem
}

func c06Canon(f LensMonitorField) string {
	kids := make([]string, len(f.Children))
	for i, c := range f.Children {
		kids[i] = c06Canon(c)
	}
	if strings.HasPrefix(f.Type, "map[") || strings.HasSuffix(f.Type, "c06Map") {
		sort.Strings(kids)
	}
	return fmt.Sprintf("(%q %q %s %v %s)", f.Name, f.Type, vfExact(f.Value), f.Children == nil, strings.Join(kids, ","))
}

func c06All(rt *rapid.T, v reflect.Value, desc string, class string) {
	info := &c06Info{seen: map[string]bool{}}
	info.walk(v)
	before := c06Dump(v)
	var b []byte
	vfNote(desc)
	vfMustReturn(60*time.Second, fmt.Sprintf("encoding did not finish (graph of %d nodes): %s", info.nodes, desc), func() { b = c06Encode(v) })
	vfCase("graph", info.shared || info.nodes > 3, desc, class)
	if c06Dump(v) != before {
		rt.Fatalf("encoding changed the value %s\nbefore %s\nafter  %s", desc, vfClip(before), vfClip(c06Dump(v)))
	}
	msg, err := newLensReader(bytes.NewReader(b), vfMaxLen).decodeMessagePointState()
	if err != nil || len(msg.Fields) != 1 {
		rt.Fatalf("encoded value does not decode: %v: %s", err, desc)
	}
	nodes, problem := c06Check(msg.Fields[0], 0, false)
	if problem != "" {
		rt.Fatalf("beyond the limits: %s: %s", problem, desc)
	}
	if nodes > 4*info.nodes+16 {
		rt.Fatalf("graph of %d nodes gives a message of %d fields: %s", info.nodes, nodes, desc)
	}
	// Equal values encode identically, however and whenever they were built.
	// (References shared between entries of a map are labelled by the entry
	// visited first, which Go does not fix: not compared.)
	if info.shared && info.maxMap > 1 {
		vfExcluded("determinism: references shared between map entries")
		return
	}
	want := c06Canon(msg.Fields[0])
	for i := 0; i < 2; i++ {
		again := v
		if i == 1 {
			again = c06Copy(v, map[string]reflect.Value{}, true)
		}
		b2 := c06Encode(again)
		if info.maxMap <= 1 && !bytes.Equal(b, b2) {
			rt.Fatalf("equal values encode differently (copy %d): %s", i, desc)
		}
		m2, err := newLensReader(bytes.NewReader(b2), vfMaxLen).decodeMessagePointState()
		if err != nil {
			rt.Fatalf("decode: %v", err)
		}
		if got := c06Canon(m2.Fields[0]); got != want {
			rt.Fatalf("equal values (copy %d) decode differently: %s\n%s\n%s", i, desc, vfClip(want), vfClip(got))
		}
	}
}

func TestC06Graph(t *testing.T) {
	vfRule("random object graphs over recursive and random types, references reuse earlier objects with probability 1/3 (cycles, sharing, self reference); non-trivial = shared references or more than 3 nodes")
	vfRun(t, 5000, 100000, func(rt *rapid.T) {
		var typ reflect.Type
		if rapid.IntRange(0, 3).Draw(rt, "root") != 0 {
			typ = rapid.SampledFrom(c06Roots).Draw(rt, "rtype")
		} else {
			typ = vfGenType(rt, 3)
		}
		v := reflect.New(typ).Elem()
		f := &vfFiller{budget: rapid.IntRange(3, 60).Draw(rt, "budget"), sharing: rapid.IntRange(0, 3).Draw(rt, "sh") != 0, noFunc: true, noNaN: true}
		f.fill(rt, v, 0)
		v = reflect.ValueOf(v.Interface())
		if !v.IsValid() {
			return
		}
		cl := "tree"
		if f.shared > 0 {
			cl = "shared"
		}
		c06All(rt, v, typ.String()+" "+vfDescribe(v, 0), cl)
	})
}

// Shapes chosen to defeat a missing bound: long chains, ladders of sharing
// (exponentially many paths), self reference through every kind.
func TestC06Shapes(t *testing.T) {
	vfRule("chains up to 20000 links, sharing ladders with up to 2^60 paths, self-containing pointers, interfaces, slices, maps, and very wide containers; non-trivial = all")
	vfRun(t, 400, 4000, func(rt *rapid.T) {
		shape := rapid.SampledFrom([]string{"list", "anychain", "ladder", "anyladder", "selfptr", "selfiface", "selfslice", "selfmap", "ring", "wideslice", "widemap", "bigarray", "ptrs", "slicenest", "mapnest", "dagmap", "longstrings", "ifacering"}).Draw(rt, "shape")
		n := rapid.SampledFrom([]int{1, 2, 3, 10, 60, 98, 99, 100, 101, 102, 150, 1000, 20000}).Draw(rt, "n")
		var x interface{}
		switch shape {
		case "list":
			var head *vfNode
			for i := 0; i < n; i++ {
				head = &vfNode{Val: i, Next: head}
			}
			x = head
		case "anychain":
			for i := 0; i < n; i++ {
				x = c06Deep{V: i, N: x}
			}
		case "ladder":
			top := &c06Tree{Tag: "end"}
			for i := 0; i < min(n, 60); i++ {
				top = &c06Tree{L: top, R: top}
			}
			x = top
		case "anyladder":
			for i := 0; i < min(n, 60); i++ {
				p := x
				x = &c06Any{p, p}
			}
		case "selfptr":
			var p c06P
			p = &p
			x = p
			if rapid.Bool().Draw(rt, "held") {
				x = []interface{}{p, &p}
			}
		case "selfiface":
			var i interface{}
			i = &i
			x = i
			if rapid.Bool().Draw(rt, "held") {
				x = struct{ A, B interface{} }{i, i}
			}
		case "ifacering":
			k := min(n, 50)
			is := make([]interface{}, k)
			for i := range is {
				is[i] = &is[(i+1)%k]
			}
			x = is[0]
			if rapid.Bool().Draw(rt, "whole") {
				x = is
			}
		case "selfslice":
			s := make(c06Slice, min(n, 200))
			for i := range s {
				s[i] = s
			}
			x = s
		case "selfmap":
			m := c06Map{}
			m["me"] = m
			x = m
			if rapid.Bool().Draw(rt, "any") {
				a := map[string]interface{}{}
				a["me"] = a
				x = a
			}
		case "ring":
			ns := make([]vfNode, min(n, 300))
			for i := range ns {
				ns[i].Next = &ns[(i+1)%len(ns)]
				ns[i].Any = &ns[(i*7)%len(ns)]
				ns[i].kids = []*vfNode{&ns[0], &ns[len(ns)-1]}
			}
			x = &ns[0]
		case "wideslice":
			s := make([]c06Deep, n)
			for i := range s {
				s[i] = c06Deep{V: i, N: strings.Repeat("y", i%2000)}
			}
			x = s
		case "widemap":
			n = rapid.SampledFrom([]int{3, 1000, 1024, 1025, 1500, 3000}).Draw(rt, "mapn")
			m := map[string]interface{}{}
			for i := 0; i < min(n, 5000); i++ {
				m[fmt.Sprintf("k%d", i)] = i
			}
			x = m
			switch rapid.IntRange(0, 9).Draw(rt, "mk") {
			case 5, 6, 7, 8, 9:
				x = c06WideMap(rt, min(n, 3000))
			case 0:
				m := map[[2]int8]string{}
				for i := 0; i < min(n, 5000); i++ {
					m[[2]int8{int8(i / 100), int8(i % 100)}] = "v"
				}
				x = m
			case 1:
				m := map[vfInner]int{}
				for i := 0; i < min(n, 5000); i++ {
					m[vfInner{A: i % 13, b: -i}] = i
				}
				x = m
			case 2:
				m := map[interface{}]int{}
				for i := 0; i < min(n, 5000); i++ {
					var k interface{} = i
					if i%3 == 0 {
						k = fmt.Sprint("s", i)
					} else if i%3 == 1 {
						k = float64(i) / 3
					}
					m[k] = i
				}
				x = m
			case 3:
				m := map[float32]bool{}
				for i := 0; i < min(n, 5000); i++ {
					m[float32(i)/7-100] = i%2 == 0
				}
				x = m
			}
		case "bigarray":
			switch rapid.IntRange(0, 3).Draw(rt, "ak") {
			case 0:
				x = &[5000]int32{1, 2, 3}
			case 1:
				x = [3000]*int{}
			case 2:
				x = make([]byte, n*3)
			case 3:
				x = make([][]interface{}, n)
			}
		case "ptrs":
			v := reflect.ValueOf(n)
			for i := 0; i < min(n, 40); i++ {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				v = p
			}
			x = v.Interface()
		case "slicenest":
			s := c06Slice{}
			for i := 0; i < n; i++ {
				s = c06Slice{s, nil, {}}
			}
			x = s
		case "mapnest":
			m := c06Map{}
			for i := 0; i < n; i++ {
				m = c06Map{"k": m}
			}
			x = m
		case "dagmap":
			m := map[string]interface{}{}
			for i := 0; i < min(n, 60); i++ {
				m = map[string]interface{}{"a": m, "b": m}
			}
			x = m
		case "longstrings":
			s := make([]string, min(n, 1500))
			for i := range s {
				s[i] = strings.Repeat("é", 480+i%60)
			}
			x = s
		}
		c06All(rt, reflect.ValueOf(x), fmt.Sprintf("%s n=%d %s", shape, n, vfClip(vfDescribe(reflect.ValueOf(x), 2))), shape)
	})
}

func TestC06WideMap(t *testing.T) {
	vfRule("maps around and beyond the entry limit whose struct, array or interface keys differ only in some parts; non-trivial = all")
	vfRun(t, 120, 1500, func(rt *rapid.T) {
		n := rapid.SampledFrom([]int{1000, 1024, 1025, 1400, 2600}).Draw(rt, "n")
		x := reflect.ValueOf(c06WideMap(rt, n))
		c06All(rt, x, fmt.Sprintf("%d %s", x.Len(), vfClip(vfDescribe(x, 0))), "keys")
	})
}

type c06Key struct {
	A    int8
	B    string
	c    int
	D    float64
	E    [2]int32
	f    uint16
	G    interface{}
	H    struct{ X, Y int64 }
	I    complex128
	J    bool
	last int
}

// c06WideMap builds a map of n struct or array keys that differ only in some of
// their parts.
func c06WideMap(rt *rapid.T, n int) interface{} {
	funcs := make([]int, 12)
	for i := range funcs {
		funcs[i] = rapid.IntRange(0, 5).Draw(rt, "part")
	}
	funcs[rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 8, 10, 11}).Draw(rt, "distinct")] = 6
	part := func(k, i int) int {
		switch funcs[k] {
		case 3:
			return i % 7
		case 4:
			return i / 100
		case 5:
			return -(i % 2)
		case 6:
			return (i * 7919) % 8192 // distinct
		}
		return 1
	}
	key := func(i int) c06Key {
		k := c06Key{A: int8(part(0, i)), B: fmt.Sprint("k", part(1, i)), c: part(2, i), D: float64(part(3, i)) / 4, E: [2]int32{int32(part(4, i)), int32(part(5, i))}, f: uint16(part(6, i)), I: complex(1, float64(part(8, i))), J: part(9, i) > 0, last: part(11, i)}
		k.H.X, k.H.Y = int64(part(10, i)), int64(part(7, i))
		if part(9, i) > 2 {
			k.G = part(7, i)
		} else {
			k.G = fmt.Sprint(part(7, i))
		}
		return k
	}
	switch rapid.IntRange(0, 2).Draw(rt, "wide") {
	case 0:
		m := map[c06Key]int{}
		for i := 0; i < n; i++ {
			m[key(i)] = i
		}
		return m
	case 1:
		m := map[[2]c06Key]int{}
		for i := 0; i < n; i++ {
			m[[2]c06Key{{A: 3}, key(i)}] = i
		}
		return m
	default:
		m := map[interface{}]int{}
		for i := 0; i < n; i++ {
			m[key(i)] = i
		}
		return m
	}
}

// Values of any size only cost the limits.
func TestC06Strings(t *testing.T) {
	vfRule("strings around the size limit; non-trivial = longer than the limit")
	vfRun(t, 2000, 20000, func(rt *rapid.T) {
		n := rapid.IntRange(0, 3*vfMaxLen).Draw(rt, "n")
		s := strings.Repeat(rapid.SampledFrom([]string{"a", "é", "世界", "\xff"}).Draw(rt, "r"), n)[:n]
		got := limitLensMonitorStringSize(s)
		vfCase("strings", n > vfMaxLen, fmt.Sprintf("%d %q", n, s[:min(n, 6)]))
		if got != vfLimitString(s) {
			rt.Fatalf("string of %d bytes limited to %q…(%d)", n, got[:min(len(got), 20)], len(got))
		}
	})
}
