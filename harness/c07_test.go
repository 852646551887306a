package lens

import (
	"bytes"
	"testing"

	"github.com/vmihailenco/msgpack/v5"
	"pgregory.net/rapid"
)

func genC07Frames(t *rapid.T, label string, pool []FieldValues, stacks [][]StackFrame) map[string][]CallFrame {
	n := rapid.IntRange(0, 3).Draw(t, label+"callers")
	out := map[string][]CallFrame{}
	for i := 0; i < n; i++ {
		id := rapid.SampledFrom(vfIdents).Draw(t, label+"id")
		k := rapid.IntRange(1, 4).Draw(t, label+"frames")
		var fs []CallFrame
		for j := 0; j < k; j++ {
			fs = append(fs, CallFrame{
				FieldValues: vfCopyFields(rapid.SampledFrom(pool).Draw(t, label+"fv")),
				Stack:       append([]StackFrame(nil), rapid.SampledFrom(stacks).Draw(t, label+"st")...),
				TimeMillis:  rapid.SampledFrom([]uint32{0, 1, 7, 4294967295, 100000}).Draw(t, label+"t"),
			})
		}
		out[id] = fs
	}
	return out
}

func genC07Result(t *rapid.T) TestResult {
	// a pool of near-duplicate trees
	var pool []FieldValues
	pool = append(pool, vfGenFields(t, "base", 3, 3))
	for i := rapid.IntRange(0, 4).Draw(t, "pool"); i > 0; i-- {
		src := rapid.SampledFrom(pool).Draw(t, "src")
		switch rapid.IntRange(0, 2).Draw(t, "mk") {
		case 0:
			pool = append(pool, vfPerturb(t, "pt", src, 3))
		case 1: // nest one tree below another
			nt := vfCopyFields(rapid.SampledFrom(pool).Draw(t, "into"))
			if nt == nil {
				nt = FieldValues{}
			}
			nt[rapid.SampledFrom(vfNames).Draw(t, "nn")] = &FieldValue{Children: vfCopyFields(src)}
			pool = append(pool, nt)
		default:
			pool = append(pool, vfGenFields(t, "new", 2, 3))
		}
	}
	stacks := [][]StackFrame{nil, vfGenStack(t, "s1"), vfGenStack(t, "s2")}
	return TestResult{
		TestFunction:     MinimumTestFunction{FunctionIdent: rapid.SampledFrom(vfIdents).Draw(t, "tid"), FunctionName: "TestX"},
		CallerResults:    genC07Frames(t, "cr", pool, stacks),
		ExtensionFrames:  genC07Frames(t, "ef", pool, stacks),
		ProjectPanics:    vfGenPanics(t, "pp"),
		ModulePanics:     vfGenPanics(t, "mp"),
		ModuleChangesHit: rapid.IntRange(0, 1000).Draw(t, "hit"),
		TestFailure:      rapid.Bool().Draw(t, "fail"),
	}
}

func TestC07RoundTrip(t *testing.T) {
	vfRule("TestResults built from pools of near-duplicate field trees; non-trivial when at least two frames carry fields")
	vfRun(t, 20000, 300000, func(rt *rapid.T) {
		tr := genC07Result(rt)
		want := vfCanonResult(tr)
		frames := 0
		for _, m := range []map[string][]CallFrame{tr.CallerResults, tr.ExtensionFrames} {
			for _, fs := range m {
				for _, f := range fs {
					if len(f.FieldValues) > 0 {
						frames++
					}
				}
			}
		}
		vfCase("roundtrip", frames >= 2, want)
		var data []byte
		var err error
		if rapid.Bool().Draw(rt, "viaMsgpack") {
			data, err = msgpack.Marshal(&tr)
		} else {
			data, err = tr.MarshalMsgpack()
		}
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		if got := vfCanonResult(tr); got != want {
			rt.Fatalf("marshalling changed the result\nwas %s\nnow %s", want, got)
		}
		// the stored form is compressed
		switch rapid.IntRange(0, 25).Draw(rt, "comp") {
		case 1:
			if data, err = ZstdDecompress(nil, ZstdCompress(nil, data)); err != nil {
				rt.Fatalf("zstd: %v", err)
			}
		case 2:
			if data, err = SnappyDecompress(nil, SnappyCompress(nil, data)); err != nil {
				rt.Fatalf("snappy: %v", err)
			}
		}
		var back TestResult
		if rapid.Bool().Draw(rt, "viaMsgpack2") {
			err = msgpack.Unmarshal(data, &back)
		} else {
			err = back.UnmarshalMsgpack(data)
		}
		if err != nil {
			rt.Fatalf("unmarshal: %v", err)
		}
		if got := vfCanonResult(back); got != want {
			rt.Fatalf("round trip changed the result\nwas %s\nnow %s", want, got)
		}
	})
}

func TestC07Identity(t *testing.T) {
	vfRule("pairs (tree, perturbed tree): equal identity exactly when equal content; non-trivial when the pair differs in content")
	vfRun(t, 40000, 600000, func(rt *rapid.T) {
		a := vfGenFields(rt, "a", 3, 3)
		b := vfPerturb(rt, "p", a, 3)
		for i := rapid.IntRange(0, 2).Draw(rt, "more"); i > 0; i-- {
			b = vfPerturb(rt, "q", b, 3)
		}
		ca, cb := vfCanonFields(a), vfCanonFields(b)
		vfCase("identity", ca != cb, ca+" / "+cb)
		if len(a) > 0 && len(b) > 0 { // nil and empty are distinguished, others by content
			if (a.ID() == b.ID()) != (ca == cb) {
				rt.Fatalf("identity: equal IDs %v, equal content %v\n%s\n%s", a.ID() == b.ID(), ca == cb, ca, cb)
			}
		}
		na, nb := &FieldValue{Children: a}, &FieldValue{Children: b}
		if len(a) == 0 {
			na = &FieldValue{Value: "x"}
		}
		if len(b) == 0 {
			nb = &FieldValue{Value: "x"}
		}
		if (na.ID() == nb.ID()) != (vfCanonFields(FieldValues{"n": na}) == vfCanonFields(FieldValues{"n": nb})) {
			rt.Fatalf("node identity mismatch\n%s\n%s", ca, cb)
		}
		la, lb := &FieldValue{Value: rapid.StringN(0, 30, 60).Draw(rt, "la")}, &FieldValue{Value: rapid.StringN(0, 30, 60).Draw(rt, "lb")}
		if (la.ID() == lb.ID()) != (la.Value == lb.Value) {
			rt.Fatalf("leaf identity mismatch %q %q", la.Value, lb.Value)
		}
		sa, sb := vfGenStack(rt, "sa"), vfGenStack(rt, "sb")
		for i := range sa {
			for j := range sb {
				eq := sa[i] == sb[j]
				if (sa[i].ID() == sb[j].ID()) != eq || sa[i].Equal(&sb[j]) != eq {
					rt.Fatalf("stack frame identity mismatch %+v %+v", sa[i], sb[j])
				}
			}
		}
	})
}

func TestC07Flatten(t *testing.T) {
	vfRule("flattening a tree lists exactly its leaves under dotted names; non-trivial when nested")
	vfRun(t, 10000, 100000, func(rt *rapid.T) {
		f := vfGenFields(rt, "f", 3, 4)
		want := map[string]string{}
		nested := false
		var walk func(p string, m FieldValues)
		walk = func(p string, m FieldValues) {
			for _, k := range vfKeys(m) {
				if len(m[k].Children) > 0 {
					nested = true
					walk(p+k+".", m[k].Children)
				} else {
					want[p+k] = m[k].Value
				}
			}
		}
		walk("", f)
		got := f.FlattenFieldValues()
		vfCase("flatten", nested, vfCanonFields(f))
		if len(got) != len(want) {
			rt.Fatalf("flatten %s: got %v want %v", vfCanonFields(f), got, want)
		}
		for k, v := range want {
			if g, ok := got[k]; !ok || g != v {
				rt.Fatalf("flatten %s: key %q got %q,%v want %q", vfCanonFields(f), k, g, ok, v)
			}
		}
	})
}

func TestC07Compress(t *testing.T) {
	vfRule("byte strings of mixed compressibility through both codecs; non-trivial when longer than 64 bytes")
	vfRun(t, 300, 5000, func(rt *rapid.T) {
		unit := rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "unit")
		data := bytes.Repeat(unit, rapid.SampledFrom([]int{1, 1, 2, 3, 50, 700}).Draw(rt, "rep"))
		data = append(data, rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(rt, "tail")...)
		vfCase("compress", len(data) > 64, string(data))
		orig := append([]byte(nil), data...)
		z, err := ZstdDecompress(nil, ZstdCompress(nil, data))
		if err != nil || !bytes.Equal(z, orig) {
			rt.Fatalf("zstd round trip of %d bytes: %v", len(data), err)
		}
		s, err := SnappyDecompress(nil, SnappyCompress(nil, data))
		if err != nil || !bytes.Equal(s, orig) {
			rt.Fatalf("snappy round trip of %d bytes: %v", len(data), err)
		}
		if !bytes.Equal(data, orig) {
			rt.Fatalf("input modified")
		}
	})
}
