package lens

// Random Go types and values (built by reflection), and an independent model
// of how a captured value must look after encoding and decoding.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
	"unsafe"

	"pgregory.net/rapid"
)

// Static types: named kinds, unexported and embedded fields, recursive types.
type (
	vfInt   int
	vfI8    int8
	vfU16   uint16
	vfF32   float32
	vfStr   string
	vfBool  bool
	vfBytes []byte
	vfIface interface{ vfM() }
	vfInner struct{ A, b int }
	vfEmb   struct {
		vfInner
		*vfPlain
		Name string
		m    map[string]int8
		any  interface{}
	}
	vfPlain struct {
		x uint8
		Y []string
		z [2]bool
	}
	vfNode struct {
		Val  int
		Next *vfNode
		kids []*vfNode
		Any  interface{}
		m    map[string]*vfNode
	}
	vfImpl struct{ n int64 }
)

func (vfImpl) vfM() {}

var vfScalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(""),
	reflect.TypeOf(vfInt(0)), reflect.TypeOf(vfI8(0)), reflect.TypeOf(vfU16(0)), reflect.TypeOf(vfF32(0)), reflect.TypeOf(vfStr("")), reflect.TypeOf(vfBool(false)),
}

var vfStaticTypes = []reflect.Type{
	reflect.TypeOf(vfInner{}), reflect.TypeOf(vfEmb{}), reflect.TypeOf(vfPlain{}), reflect.TypeOf(vfImpl{}), reflect.TypeOf(vfBytes(nil)), reflect.TypeOf(vfNode{}),
}

var vfAnyType = reflect.TypeOf((*interface{})(nil)).Elem()
var vfIfaceType = reflect.TypeOf((*vfIface)(nil)).Elem()
var vfErrType = reflect.TypeOf((*error)(nil)).Elem()

// vfGenType draws a type of bounded depth.
func vfGenType(rt *rapid.T, depth int) reflect.Type {
	if depth <= 0 {
		return rapid.SampledFrom(vfScalarTypes).Draw(rt, "scalar")
	}
	switch rapid.IntRange(0, 11).Draw(rt, "tkind") {
	case 0, 1:
		return rapid.SampledFrom(vfScalarTypes).Draw(rt, "scalar")
	case 2, 3:
		return reflect.SliceOf(vfGenType(rt, depth-1))
	case 4:
		return reflect.ArrayOf(rapid.IntRange(1, 4).Draw(rt, "alen"), vfGenType(rt, depth-1))
	case 5:
		return reflect.MapOf(vfGenKeyType(rt), vfGenType(rt, depth-1))
	case 6:
		return reflect.PointerTo(vfGenType(rt, depth-1))
	case 7:
		return vfAnyType
	case 8:
		return rapid.SampledFrom(vfStaticTypes).Draw(rt, "static")
	case 9:
		return rapid.SampledFrom([]reflect.Type{vfIfaceType, vfErrType, reflect.TypeOf((func())(nil)), reflect.TypeOf((chan int)(nil)), reflect.TypeOf(unsafe.Pointer(nil))}).Draw(rt, "odd")
	default:
		n := rapid.IntRange(1, 4).Draw(rt, "nf")
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: vfGenType(rt, depth-1)}
			if rapid.IntRange(0, 3).Draw(rt, "unexp") == 0 {
				fs[i].Name = fmt.Sprintf("f%d", i)
				fs[i].PkgPath = "example.com/p"
			}
		}
		return reflect.StructOf(fs)
	}
}

func vfGenKeyType(rt *rapid.T) reflect.Type {
	return rapid.SampledFrom([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf(vfStr("")), reflect.TypeOf([2]int{}), reflect.TypeOf(vfInner{}), reflect.TypeOf(complex128(0)), vfAnyType}).Draw(rt, "key")
}

func vfGenString(rt *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(rt, "skind") {
	case 0:
		return ""
	case 1, 2, 3, 4:
		return rapid.StringN(0, 6, 12).Draw(rt, "s")
	case 5:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "sb"))
	case 6:
		return strings.Repeat(rapid.SampledFrom([]string{"x", "é", "世", "ab"}).Draw(rt, "rep"), rapid.SampledFrom([]int{1023, 1024, 1025, 512, 513, 341, 342, 2500}).Draw(rt, "len"))
	default:
		return rapid.SampledFrom([]string{"a", "b", "<nil>", "<func>", "<max-depth>", "nil", "\x00", "[0]", "…"}).Draw(rt, "sc")
	}
}

func vfGenLen(rt *rapid.T, small int, big bool) int {
	if big && rapid.IntRange(0, 25).Draw(rt, "big") == 0 {
		return rapid.SampledFrom([]int{255, 1023, 1024, 1025, 1031, 2100}).Draw(rt, "biglen")
	}
	return rapid.IntRange(0, small).Draw(rt, "len")
}

var vfFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e-7, 123456789.125}

// vfFill sets v (addressable, settable) to a random value of its type. budget
// bounds the total number of nodes. sharing, if non-nil, makes references point
// to earlier ones (cycles and sharing) now and then.
type vfFiller struct {
	budget  int
	sharing bool
	noFunc  bool // no func/chan/unsafe pointers (their sharing is not under control)
	noNaN   bool
	pool    map[reflect.Type][]reflect.Value
	shared  int
}

func vfSettable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (f *vfFiller) reuse(rt *rapid.T, v reflect.Value) bool {
	if !f.sharing {
		return false
	}
	p := f.pool[v.Type()]
	if len(p) == 0 || rapid.IntRange(0, 2).Draw(rt, "share") != 0 {
		return false
	}
	v.Set(p[rapid.IntRange(0, len(p)-1).Draw(rt, "which")])
	f.shared++
	return true
}

func (f *vfFiller) remember(v reflect.Value) {
	if f.sharing {
		if f.pool == nil {
			f.pool = map[reflect.Type][]reflect.Value{}
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		f.pool[v.Type()] = append(f.pool[v.Type()], c)
	}
}

func (f *vfFiller) fill(rt *rapid.T, v reflect.Value, depth int) {
	v = vfSettable(v)
	f.budget--
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(rt, "b"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := t.Bits()
		n := rapid.Int64().Draw(rt, "i")
		if rapid.Bool().Draw(rt, "edge") {
			n = rapid.SampledFrom([]int64{0, 1, -1, 63, 64, -64, -65, 127, -128, 8191, 8192, math.MaxInt64, math.MinInt64}).Draw(rt, "ie")
		}
		v.SetInt(n << (64 - b) >> (64 - b))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n := rapid.Uint64().Draw(rt, "u")
		if rapid.Bool().Draw(rt, "edge") {
			n = rapid.SampledFrom([]uint64{0, 1, 127, 128, 255, 16383, 16384, math.MaxUint64, 1 << 63}).Draw(rt, "ue")
		}
		v.SetUint(n << (64 - t.Bits()) >> (64 - t.Bits()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(f.float(rt, t.Bits()))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(f.float(rt, t.Bits()/2), f.float(rt, t.Bits()/2)))
	case reflect.String:
		v.SetString(vfGenString(rt))
	case reflect.Slice:
		if f.budget <= 0 || rapid.IntRange(0, 7).Draw(rt, "nilslice") == 0 {
			return
		}
		if f.reuse(rt, v) {
			return
		}
		n := vfGenLen(rt, 4, t.Elem().Kind() != reflect.Slice && depth < 2)
		if t.Elem().Size() == 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n+rapid.IntRange(0, 2).Draw(rt, "cap"))
		f.remember(s)
		if n > 8 { // long: few distinct elements, copied around scalars; fresh elements otherwise
			if vfIsScalar(t.Elem()) {
				for i := 0; i < 5; i++ {
					f.fill(rt, s.Index(i), depth+1)
				}
				for i := 5; i < n; i++ {
					s.Index(i).Set(s.Index((i * i) % 5))
				}
				f.fill(rt, s.Index(rapid.IntRange(0, n-1).Draw(rt, "at")), depth+1)
			} else if t.Elem().Kind() == reflect.Struct || t.Elem().Kind() == reflect.Interface {
				for i := 0; i < 3; i++ {
					f.fill(rt, s.Index(rapid.IntRange(0, n-1).Draw(rt, "at")), depth+1)
				}
			} // else zero elements
		} else {
			for i := 0; i < n; i++ {
				f.fill(rt, s.Index(i), depth+1)
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			f.fill(rt, v.Index(i), depth+1)
		}
	case reflect.Map:
		if f.budget <= 0 || rapid.IntRange(0, 7).Draw(rt, "nilmap") == 0 {
			return
		}
		if f.reuse(rt, v) {
			return
		}
		m := reflect.MakeMap(t)
		f.remember(m)
		n := rapid.IntRange(0, 4).Draw(rt, "mlen")
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			if t.Key() == vfAnyType {
				kt := rapid.SampledFrom([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(vfInt(0)), reflect.TypeOf(false), reflect.TypeOf([2]int{})}).Draw(rt, "kt")
				kv := reflect.New(kt).Elem()
				f.fill(rt, kv, depth+1)
				k.Set(kv)
			} else {
				f.fill(rt, k, depth+1)
			}
			e := reflect.New(t.Elem()).Elem()
			f.fill(rt, e, depth+1)
			m.SetMapIndex(k, e)
		}
		if depth < 2 && t.Key().Kind() == reflect.Int && vfIsScalar(t.Elem()) && rapid.IntRange(0, 6).Draw(rt, "bigmap") == 0 {
			n := rapid.SampledFrom([]int{1000, 1023, 1024, 1025, 1400}).Draw(rt, "bigmaplen")
			e := reflect.New(t.Elem()).Elem()
			f.fill(rt, e, depth+1)
			for i := 0; m.Len() < n; i++ {
				m.SetMapIndex(reflect.ValueOf(i*7-3000).Convert(t.Key()), e)
			}
		}
		v.Set(m)
	case reflect.Pointer:
		if f.budget <= 0 || t.Elem().Size() == 0 || rapid.IntRange(0, 4).Draw(rt, "nilptr") == 0 {
			return
		}
		if f.reuse(rt, v) {
			return
		}
		p := reflect.New(t.Elem())
		f.remember(p)
		f.fill(rt, p.Elem(), depth+1)
		v.Set(p)
	case reflect.Interface:
		if f.budget <= 0 || rapid.IntRange(0, 4).Draw(rt, "niliface") == 0 {
			return
		}
		switch t {
		case vfIfaceType:
			if rapid.Bool().Draw(rt, "ptrimpl") {
				v.Set(reflect.ValueOf(&vfImpl{n: 5}))
			} else {
				v.Set(reflect.ValueOf(vfImpl{n: rapid.Int64().Draw(rt, "n")}))
			}
		case vfErrType:
			v.Set(reflect.ValueOf(fmt.Errorf("e%d", rapid.IntRange(0, 9).Draw(rt, "e"))))
		default:
			if f.sharing && len(f.pool) > 0 && rapid.IntRange(0, 2).Draw(rt, "ishare") == 0 {
				var all []reflect.Value
				for _, p := range f.pool {
					all = append(all, p...)
				}
				sort.Slice(all, func(i, j int) bool { return all[i].Type().String() < all[j].Type().String() })
				v.Set(all[rapid.IntRange(0, len(all)-1).Draw(rt, "iwhich")])
				f.shared++
				return
			}
			et := vfGenType(rt, max(0, 3-depth))
			if et.Kind() == reflect.Interface {
				et = vfScalarTypes[1]
			}
			e := reflect.New(et).Elem()
			f.fill(rt, e, depth+1)
			v.Set(e)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f.budget <= 0 && !vfIsScalar(t.Field(i).Type) {
				continue
			}
			f.fill(rt, v.Field(i), depth+1)
		}
	case reflect.Func:
		if !f.noFunc && rapid.Bool().Draw(rt, "func") {
			x := f.budget // a fresh closure per use
			v.Set(reflect.ValueOf(func() { x++ }))
		}
	case reflect.Chan:
		if !f.noFunc && rapid.Bool().Draw(rt, "chan") {
			v.Set(reflect.ValueOf(make(chan int, 1)))
		}
	case reflect.UnsafePointer:
	}
}

func (f *vfFiller) float(rt *rapid.T, bits int) float64 {
	x := rapid.SampledFrom(vfFloats).Draw(rt, "fl")
	if rapid.IntRange(0, 2).Draw(rt, "frand") == 0 {
		x = rapid.Float64().Draw(rt, "fr")
	}
	if f.noNaN && x != x {
		x = 2.5
	}
	if bits == 32 {
		x = float64(float32(x))
	}
	return x
}

func vfIsScalar(t reflect.Type) bool {
	return t.Kind() <= reflect.Complex128 || t.Kind() == reflect.String
}

// vfGenValue draws a value of a random type; the type has bounded depth.
func vfGenValue(rt *rapid.T, f *vfFiller, depth int) (val interface{}, desc string) {
	t := vfGenType(rt, depth)
	v := reflect.New(t).Elem()
	f.fill(rt, v, 0)
	return v.Interface(), vfDescribe(v, 0)
}

// vfDescribe renders a value for samples, cutting depth (cycles).
func vfDescribe(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 5 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "(" + v.Type().String() + ")(nil)"
		}
		if v.Kind() == reflect.Pointer {
			return "&" + vfDescribe(v.Elem(), depth+1)
		}
		return vfDescribe(v.Elem(), depth+1)
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, v.Type().Field(i).Name+":"+vfDescribe(v.Field(i), depth+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len() && i < 6; i++ {
			s = append(s, vfDescribe(v.Index(i), depth+1))
		}
		return v.Type().String() + "#" + strconv.Itoa(v.Len()) + "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		if v.IsNil() {
			return v.Type().String() + "(nil)"
		}
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, vfDescribe(k, depth+1))
		}
		sort.Strings(s)
		if len(s) > 6 {
			s = s[:6]
		}
		return v.Type().String() + "#" + strconv.Itoa(v.Len()) + "[" + strings.Join(s, " ") + "]"
	case reflect.String:
		s := v.String()
		if len(s) > 20 {
			s = fmt.Sprintf("%s…%d", s[:20], len(s))
		}
		return strconv.Quote(s)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.Type().String()
	default:
		return fmt.Sprintf("%v", v)
	}
}

// vfModel is the expected decoded field.
type vfModel struct {
	name, typ string
	value     interface{} // nil together with isNil
	isNil     bool
	container bool
	isMap     bool
	kids      []vfModel
}

const vfMaxLen, vfMaxRecurse = lensMonitorFieldMaxLen, lensMonitorFieldMaxRecurse

func vfLimitString(s string) string {
	if len(s) <= vfMaxLen {
		return s
	}
	return fmt.Sprintf("%s…(%d more)", s[:vfMaxLen], len(s)-vfMaxLen)
}

// vfModelOf gives the expected tree of a value without shared references.
func vfModelOf(name string, v reflect.Value, depth int) vfModel {
	m := vfModel{name: name}
	for v.IsValid() && (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			m.typ, m.isNil = v.Type().String(), true
			return m
		}
		v = v.Elem()
	}
	if !v.IsValid() {
		m.typ, m.isNil = "invalid", true
		return m
	}
	t := v.Type()
	m.typ = t.String()
	if depth >= vfMaxRecurse {
		m.value = "<max-depth>"
		return m
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Func, reflect.Chan:
		if v.IsNil() {
			m.isNil = true
			return m
		}
	}
	switch v.Kind() {
	case reflect.Func:
		m.value = "<func>"
	case reflect.Chan:
		m.value = "<chan>"
	case reflect.UnsafePointer:
		m.value = fmt.Sprint(v.Pointer()) // only nil is generated
		m.value = fmt.Sprint(unsafe.Pointer(v.UnsafePointer()))
	case reflect.Struct:
		m.container = true
		for i := 0; i < v.NumField(); i++ {
			m.kids = append(m.kids, vfModelOf(t.Field(i).Name, v.Field(i), depth+1))
		}
	case reflect.Map:
		m.container, m.isMap = true, true
		it := v.MapRange()
		type ent struct{ k, v reflect.Value }
		var es []ent
		for it.Next() {
			es = append(es, ent{it.Key(), it.Value()})
		}
		if len(es) > vfMaxLen { // the first entries in key order; only built with integer keys
			sort.Slice(es, func(i, j int) bool { return es[i].k.Int() < es[j].k.Int() })
			es = es[:vfMaxLen]
		}
		for _, e := range es {
			m.kids = append(m.kids, vfModelOf(vfKeyName(e.k), e.v, depth+1))
		}
	case reflect.Slice, reflect.Array:
		n := min(v.Len(), vfMaxLen)
		ek := t.Elem().Kind()
		switch {
		case ek == reflect.Uint8:
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			if utf8.Valid(b) {
				m.value = string(b)
			} else {
				m.value = b
			}
		case ek == reflect.Complex64 || ek == reflect.Complex128 || !vfIsScalar(t.Elem()):
			m.container = true
			for i := 0; i < n; i++ {
				m.kids = append(m.kids, vfModelOf("["+strconv.Itoa(i)+"]", v.Index(i), depth+1))
			}
		default:
			st := reflect.TypeOf(vfScalarOf(reflect.Zero(t.Elem())))
			s := reflect.MakeSlice(reflect.SliceOf(st), n, n)
			for i := 0; i < n; i++ {
				s.Index(i).Set(reflect.ValueOf(vfScalarOf(v.Index(i))))
			}
			m.value = s.Interface()
		}
	default:
		m.value = vfScalarOf(v)
	}
	return m
}

func vfKeyName(k reflect.Value) string {
	if k.CanInterface() {
		return fmt.Sprint(k.Interface())
	}
	return fmt.Sprint(k) // fmt prints the value a reflect.Value holds
}

func vfScalarOf(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return int32(v.Int())
	case reflect.Int, reflect.Int64:
		return v.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return uint32(v.Uint())
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return v.Uint()
	case reflect.Float32:
		return float32(v.Float())
	case reflect.Float64:
		return v.Float()
	case reflect.Complex64, reflect.Complex128:
		return v.Complex()
	case reflect.String:
		return vfLimitString(v.String())
	}
	panic("not scalar")
}

// vfExact renders a decoded leaf exactly (type and bits).
func vfExact(x interface{}) string {
	switch y := x.(type) {
	case float32:
		return fmt.Sprintf("float32 %08x", math.Float32bits(y))
	case float64:
		return fmt.Sprintf("float64 %016x", math.Float64bits(y))
	case complex128:
		return fmt.Sprintf("complex %016x %016x", math.Float64bits(real(y)), math.Float64bits(imag(y)))
	case []float32:
		s := "[]float32"
		for _, e := range y {
			s += fmt.Sprintf(" %08x", math.Float32bits(e))
		}
		return s
	case []float64:
		s := "[]float64"
		for _, e := range y {
			s += fmt.Sprintf(" %016x", math.Float64bits(e))
		}
		return s
	default:
		return fmt.Sprintf("%#v", x)
	}
}

// vfMatch compares a decoded field with the model; "" if they agree.
func vfMatch(m vfModel, g LensMonitorField, path string) string {
	path += "/" + m.name
	if m.name != g.Name {
		return fmt.Sprintf("%s: name %q, want %q", path, g.Name, m.name)
	}
	if m.typ != g.Type {
		return fmt.Sprintf("%s: type %q, want %q", path, g.Type, m.typ)
	}
	if m.isNil {
		if g.Value != nil || g.Children != nil {
			return fmt.Sprintf("%s: want nil, got %#v with %d children", path, g.Value, len(g.Children))
		}
		return ""
	}
	if !m.container {
		if g.Children != nil {
			return fmt.Sprintf("%s: unexpected children", path)
		}
		if a, b := vfExact(m.value), vfExact(g.Value); a != b {
			return fmt.Sprintf("%s: value %s, want %s", path, vfClip(b), vfClip(a))
		}
		return ""
	}
	if g.Value != nil || g.Children == nil {
		return fmt.Sprintf("%s: want a container, got value %#v, nil children %v", path, g.Value, g.Children == nil)
	}
	if len(g.Children) != len(m.kids) {
		return fmt.Sprintf("%s: %d children, want %d", path, len(g.Children), len(m.kids))
	}
	if !m.isMap {
		for i := range m.kids {
			if d := vfMatch(m.kids[i], g.Children[i], path); d != "" {
				return d
			}
		}
		return ""
	}
	byName := map[string][]LensMonitorField{}
	for _, c := range g.Children {
		byName[c.Name] = append(byName[c.Name], c)
	}
	for _, k := range m.kids {
		cs := byName[k.name]
		last := "entry missing"
		found := false
		for i, c := range cs {
			if last = vfMatch(k, c, path); last == "" {
				byName[k.name] = append(append([]LensMonitorField{}, cs[:i]...), cs[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("%s: map entry %q: %s", path, k.name, last)
		}
	}
	return ""
}
