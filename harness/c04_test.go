package lens

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"

	"pgregory.net/rapid"
)

func c04Stack(rt *rapid.T) []lensMonitorStackFrame {
	n := rapid.IntRange(0, 6).Draw(rt, "frames")
	if rapid.IntRange(0, 40).Draw(rt, "deepstack") == 0 {
		n = rapid.SampledFrom([]int{200, 2047, 2048}).Draw(rt, "deepframes")
	}
	files, fns := rapid.SampledFrom([]int{37, 5000}).Draw(rt, "files"), rapid.SampledFrom([]int{91, 5000}).Draw(rt, "fns")
	words := []string{"", "a", "b", "/x/a.go", "/x/b.go", "main.f", "main.(*T).g", strings.Repeat("p/", 300) + "z.go", "\x00\xff"}
	out := make([]lensMonitorStackFrame, n)
	for i := range out {
		if n > 10 && i >= 10 {
			out[i] = lensMonitorStackFrame{File: fmt.Sprintf("f%d.go", i%files), Function: fmt.Sprintf("fn%d", i%fns), Line: uint(i)}
			continue
		}
		out[i] = lensMonitorStackFrame{
			File:     rapid.SampledFrom(words).Draw(rt, "file"),
			Function: rapid.SampledFrom(words).Draw(rt, "fn"),
			Line:     uint(rapid.SampledFrom([]uint64{0, 1, 127, 128, 300, 1 << 20, math.MaxUint32, math.MaxUint64}).Draw(rt, "line")),
		}
	}
	return out
}

func c04SameStack(a, b []lensMonitorStackFrame) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func c04ID(rt *rapid.T) uint32 {
	if rapid.Bool().Draw(rt, "idedge") {
		return rapid.SampledFrom([]uint32{0, 1, 127, 128, 16384, math.MaxUint32}).Draw(rt, "ide")
	}
	return rapid.Uint32().Draw(rt, "id")
}

// c04Decode reads with whole, one-byte or halved reads: the transport may
// deliver a body in any pieces.
func c04Reader(rt *rapid.T, b []byte) *lensReader {
	switch rapid.IntRange(0, 2).Draw(rt, "reader") {
	case 0:
		return newLensReader(iotest.OneByteReader(bytes.NewReader(b)), vfMaxLen)
	case 1:
		return newLensReader(iotest.DataErrReader(bytes.NewReader(b)), vfMaxLen)
	}
	return newLensReader(bytes.NewReader(b), vfMaxLen)
}

func TestC04State(t *testing.T) {
	vfRule("state message with 0-4 snapshots of random reflect-built types and values (no shared references); non-trivial = some snapshot holds a container")
	vfRun(t, 6000, 120000, func(rt *rapid.T) {
		id, ts := c04ID(rt), rapid.Int64().Draw(rt, "ts")
		stack := c04Stack(rt)
		var snaps []lensMonitorFieldSnapshot
		var models []vfModel
		var desc []string
		nontrivial := false
		n := rapid.IntRange(0, 4).Draw(rt, "snaps")
		for i := 0; i < n; i++ {
			name := rapid.SampledFrom([]string{"a", "b", "ret0", "", "x.y", "世"}).Draw(rt, "name")
			if rapid.IntRange(0, 12).Draw(rt, "untyped") == 0 {
				snaps = append(snaps, lensMonitorFieldSnapshot{Name: name})
				models = append(models, vfModelOf(name, reflect.Value{}, 0))
				continue
			}
			if len(snaps) > 0 && rapid.IntRange(0, 3).Draw(rt, "again") == 0 { // the same object in a second variable
				k := rapid.IntRange(0, len(snaps)-1).Draw(rt, "same")
				snaps = append(snaps, lensMonitorFieldSnapshot{Name: name, Val: snaps[k].Val})
				m := models[k]
				m.name = name
				models = append(models, m)
				continue
			}
			f := &vfFiller{budget: 60}
			v, d := vfGenValue(rt, f, rapid.IntRange(0, 4).Draw(rt, "depth"))
			m := vfModelOf(name, reflect.ValueOf(v), 0)
			nontrivial = nontrivial || m.container
			snaps = append(snaps, lensMonitorFieldSnapshot{Name: name, Val: v})
			models = append(models, m)
			desc = append(desc, fmt.Sprintf("%T=%s", v, d))
		}
		var buf bytes.Buffer
		lensEncodeMessagePointState(&buf, id, ts, stack, snaps)
		vfCase("state", nontrivial, strings.Join(desc, "; "))
		msg, err := c04Reader(rt, buf.Bytes()).decodeMessagePointState()
		if err != nil {
			rt.Fatalf("decoding failed: %v\n%s", err, desc)
		}
		if msg.PointID != id || msg.TimeNS != ts || !c04SameStack(stack, msg.Stack) {
			rt.Fatalf("header: got %d %d %d frames, want %d %d %d frames", msg.PointID, msg.TimeNS, len(msg.Stack), id, ts, len(stack))
		}
		if len(msg.Fields) != len(models) {
			rt.Fatalf("%d fields, want %d", len(msg.Fields), len(models))
		}
		for i := range models {
			if d := vfMatch(models[i], msg.Fields[i], ""); d != "" {
				rt.Fatalf("field %d: %s\nvalue: %s", i, d, desc)
			}
		}
	})
}

// Every single leaf of a value matters: a copy differing in one scalar decodes
// differently (checked on the decoded trees themselves, not on the model).
func TestC04OneLeaf(t *testing.T) {
	vfRule("pairs of values of one random type, drawn independently; non-trivial = reflect.DeepEqual says they differ")
	vfRun(t, 2500, 50000, func(rt *rapid.T) {
		typ := vfGenType(rt, rapid.IntRange(0, 3).Draw(rt, "depth"))
		mk := func() reflect.Value {
			v := reflect.New(typ).Elem()
			(&vfFiller{budget: 25, noFunc: true, noNaN: true}).fill(rt, v, 0)
			return v
		}
		a, b := mk(), mk()
		dec := func(v reflect.Value) LensMonitorField {
			var buf bytes.Buffer
			lensEncodeMessagePointState(&buf, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "v", Val: v.Interface()}})
			msg, err := newLensReader(&buf, vfMaxLen).decodeMessagePointState()
			if err != nil || len(msg.Fields) != 1 {
				rt.Fatalf("decode: %v (%d fields)", err, len(msg.Fields))
			}
			return msg.Fields[0]
		}
		ma, mb := vfModelOf("v", reflect.ValueOf(a.Interface()), 0), vfModelOf("v", reflect.ValueOf(b.Interface()), 0)
		sameModel := vfMatch(ma, dec(b), "") == ""
		if d := vfMatch(mb, dec(b), ""); d != "" {
			rt.Fatalf("%s", d)
		}
		same := c04Canon(ma) == c04Canon(mb)
		vfCase("oneleaf", !same, typ.String()+" "+vfDescribe(a, 0)+" vs "+vfDescribe(b, 0))
		if same != sameModel {
			rt.Fatalf("values equal within the limits: %v, decode to the same: %v\n%s\n%s", same, sameModel, vfDescribe(a, 0), vfDescribe(b, 0))
		}
	})
}

func c04Canon(m vfModel) string {
	var kids []string
	for _, k := range m.kids {
		kids = append(kids, c04Canon(k))
	}
	if m.isMap {
		sortStrings(kids)
	}
	return fmt.Sprintf("(%q %q %v %v %s %q)", m.name, m.typ, m.isNil, m.container, vfExact(m.value), kids)
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

type c04Weird struct{ A, B int }

func TestC04Other(t *testing.T) {
	vfRule("point, panic and error messages with random ids, times, stacks, panic values and texts; non-trivial = stack or text not empty")
	vfRun(t, 3000, 40000, func(rt *rapid.T) {
		id, ts := c04ID(rt), rapid.Int64().Draw(rt, "ts")
		stack := c04Stack(rt)
		var buf bytes.Buffer
		switch rapid.IntRange(0, 2).Draw(rt, "kind") {
		case 0:
			lensEncodeMessagePoint(&buf, id, ts, stack)
			msg, err := c04Reader(rt, buf.Bytes()).decodeMessagePoint()
			vfCase("point", len(stack) > 0, fmt.Sprint(id, ts, len(stack), stack))
			if err != nil || msg.PointID != id || msg.TimeNS != ts || !c04SameStack(stack, msg.Stack) {
				rt.Fatalf("point: err %v, got %+v", err, msg)
			}
		case 1:
			var r interface{}
			switch rapid.IntRange(0, 4).Draw(rt, "pv") {
			case 0:
				r = vfGenString(rt)
			case 1:
				r = errors.New(vfGenString(rt))
			case 2:
				r = rapid.Int().Draw(rt, "pi")
			case 3:
				r = c04Weird{1, rapid.Int().Draw(rt, "pb")}
			case 4:
				r = rapid.SliceOf(rapid.Int8()).Draw(rt, "ps")
			}
			lensEncodeMessagePointPanic(&buf, id, ts, r)
			msg, err := c04Reader(rt, buf.Bytes()).decodeMessagePointPanic()
			want := fmt.Sprintf("%v", r)
			vfCase("panic", want != "", fmt.Sprint(id, ts, want))
			if err != nil || msg.PointID != id || msg.TimeNS != ts || msg.Message != want {
				rt.Fatalf("panic: err %v, got %+v, want %q", err, msg, want)
			}
		case 2:
			text := vfGenString(rt)
			lensEncodeMessageError(&buf, id, errors.New(text), stack)
			msg, err := c04Reader(rt, buf.Bytes()).decodeMessageError()
			vfCase("error", text != "", fmt.Sprint(id, text, len(stack)))
			if err != nil || msg.PointID != id || msg.Message != text || !c04SameStack(stack, msg.Stack) {
				rt.Fatalf("error: err %v, got %+v, want %q", err, msg, text)
			}
		}
	})
}
