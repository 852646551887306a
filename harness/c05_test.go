package lens

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func c05Limit() {
	// An allocation out of all proportion ends this process, not the sandbox.
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
}

var c05Kinds = []string{"point", "state", "panic", "error"}

func c05Valid(rt *rapid.T, kind string, depth int) []byte {
	var buf bytes.Buffer
	id, ts := c04ID(rt), rapid.Int64().Draw(rt, "ts")
	switch kind {
	case "point":
		lensEncodeMessagePoint(&buf, id, ts, c05Stack(rt))
	case "state":
		var snaps []lensMonitorFieldSnapshot
		for i := rapid.IntRange(0, 3).Draw(rt, "snaps"); i > 0; i-- {
			v, _ := vfGenValue(rt, &vfFiller{budget: 20}, depth)
			snaps = append(snaps, lensMonitorFieldSnapshot{Name: "v", Val: v})
		}
		lensEncodeMessagePointState(&buf, id, ts, c05Stack(rt), snaps)
	case "panic":
		lensEncodeMessagePointPanic(&buf, id, ts, vfGenString(rt))
	case "error":
		lensEncodeMessageError(&buf, id, errors.New(vfGenString(rt)), c05Stack(rt))
	}
	return buf.Bytes()
}

func c05Stack(rt *rapid.T) []lensMonitorStackFrame {
	out := make([]lensMonitorStackFrame, rapid.IntRange(0, 4).Draw(rt, "frames"))
	for i := range out {
		out[i] = lensMonitorStackFrame{File: rapid.SampledFrom([]string{"a.go", "b.go", ""}).Draw(rt, "f"), Function: "fn", Line: uint(rapid.IntRange(0, 300).Draw(rt, "l"))}
	}
	return out
}

func c05Decode(kind string, b []byte) error {
	lr := newLensReader(bytes.NewReader(b), vfMaxLen)
	var err error
	switch kind {
	case "point":
		_, err = lr.decodeMessagePoint()
	case "state":
		_, err = lr.decodeMessagePointState()
	case "panic":
		_, err = lr.decodeMessagePointPanic()
	case "error":
		_, err = lr.decodeMessageError()
	}
	return err
}

func c05Alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// c05Budget is the memory a decode may use for n received bytes: the densest
// legitimate encoding of fields needs a few hundred bytes per byte.
func c05Budget(n int) uint64 { return 4<<20 + 4096*uint64(n) }

func c05Varint(n uint64) []byte {
	var out []byte
	for n >= 0x80 {
		out = append(out, byte(n)|0x80)
		n >>= 7
	}
	return append(out, byte(n))
}

func c05Mutate(rt *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := rapid.IntRange(1, 4).Draw(rt, "muts"); n > 0; n-- {
		at := rapid.IntRange(0, len(b)).Draw(rt, "at")
		switch rapid.IntRange(0, 5).Draw(rt, "mut") {
		case 0:
			if at < len(b) {
				b[at] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			}
		case 1:
			b = b[:at]
		case 2: // a huge or odd number in the place of one byte
			v := rapid.SampledFrom([]uint64{1, 15, 1023, 1024, 1025, 2048, 2049, 65536, 1 << 20, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 62, 1 << 63, 1<<64 - 1}).Draw(rt, "num")
			rest := b[min(at+1, len(b)):]
			b = append(append(append([]byte{}, b[:at]...), c05Varint(v)...), rest...)
		case 3:
			ins := rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(rt, "ins")
			b = append(append(append([]byte{}, b[:at]...), ins...), b[at:]...)
		case 4:
			end := min(len(b), at+rapid.IntRange(1, 8).Draw(rt, "del"))
			b = append(append([]byte{}, b[:at]...), b[end:]...)
		case 5:
			if at < len(b) {
				b[at] = rapid.SampledFrom([]byte{0, 1, 9, 0x20, 0x21, 0x22, 0x25, 0x27, 0x28, 0x40, 0x41, 0x42, 0x7f, 0x80, 0xff}).Draw(rt, "tag")
			}
		}
	}
	return b
}

func TestC05Bytes(t *testing.T) {
	c05Limit()
	vfRule("arbitrary bytes, and 1-4 mutations (bit flips, cuts, number and tag substitutions, inserts, deletions) of valid messages, given to each decoder; non-trivial = mutated valid message")
	vfRun(t, 12000, 300000, func(rt *rapid.T) {
		kind := rapid.SampledFrom(c05Kinds).Draw(rt, "kind")
		var b []byte
		mutated := rapid.IntRange(0, 3).Draw(rt, "raw") != 0
		if mutated {
			b = c05Mutate(rt, c05Valid(rt, kind, 2))
		} else {
			b = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(rt, "bytes")
		}
		vfNote(kind + " " + hex.EncodeToString(b))
		var err error
		used := c05Alloc(func() { err = c05Decode(kind, b) })
		cl := "rejected"
		if err == nil {
			cl = "decoded"
		}
		vfCase("bytes", mutated, kind+" "+hex.EncodeToString(b), cl)
		if used > c05Budget(len(b)) {
			rt.Fatalf("decoding %d bytes as %s allocated %d bytes (error %v)\n%s", len(b), kind, used, err, hex.EncodeToString(b))
		}
	})
}

// Structured hostile messages: every count and length field in turn claims far
// more than follows, and containers nest as deep as the body allows.
func TestC05Hostile(t *testing.T) {
	c05Limit()
	vfRule("state messages whose counts or lengths lie, and containers nested up to 6 million levels; non-trivial = all")
	deepDone := false
	vfRun(t, 600, 8000, func(rt *rapid.T) {
		head := append([]byte{1}, make([]byte, 8)...) // id, time
		noStack := append(append([]byte{}, head...), 0)
		lie := rapid.SampledFrom([]uint64{17, 1000, 1024, 1 << 16, 1 << 20, 1 << 24, 1<<32 - 1, 1 << 40, 1<<63 - 1, 1<<64 - 1}).Draw(rt, "lie")
		var b []byte
		what := rapid.SampledFrom([]string{"frames", "table", "fields", "name", "type", "string", "struct", "map", "slice", "bytes", "bools", "ints", "strings", "deep", "wide", "nestlie"}).Draw(rt, "what")
		field := func(tag byte) []byte { return append(append(append([]byte{}, noStack...), 1, 1, 'v', 1, 't'), tag) }
		switch what {
		case "frames":
			b = append(head, c05Varint(lie)...)
		case "table":
			b = append(append(head, 5), c05Varint(lie)...)
		case "fields":
			b = append(noStack, c05Varint(lie)...)
		case "name":
			b = append(append(noStack, 1), c05Varint(lie)...)
		case "type":
			b = append(append(noStack, 1, 1, 'v'), c05Varint(lie)...)
		case "string":
			b = append(field(lensTypeTagString), c05Varint(lie)...)
		case "struct":
			b = append(field(lensTypeTagStruct), c05Varint(lie)...)
		case "map":
			b = append(field(lensTypeTagMap), c05Varint(lie)...)
		case "slice":
			b = append(field(lensTypeTagSlice), c05Varint(lie)...)
		case "bytes":
			b = append(field(lensTypeTagBytes), c05Varint(lie)...)
		case "bools":
			b = append(field(lensTypeTagBoolSlice), c05Varint(lie)...)
		case "ints":
			b = append(field(rapid.SampledFrom([]byte{lensTypeTagInt32Slice, lensTypeTagInt64Slice, lensTypeTagUint32Slice, lensTypeTagUint64Slice, lensTypeTagFloat32Slice, lensTypeTagFloat64Slice}).Draw(rt, "itag")), c05Varint(lie)...)
		case "strings":
			b = append(field(lensTypeTagStringSlice), c05Varint(lie)...)
		case "deep", "nestlie":
			levels := rapid.IntRange(1, 5000).Draw(rt, "levels")
			if what == "deep" && !deepDone {
				levels, deepDone = 6_000_000, true
			}
			n := byte(1)
			unit := []byte{0, 0, rapid.SampledFrom([]byte{lensTypeTagStruct, lensTypeTagMap, lensTypeTagSlice}).Draw(rt, "ntag"), n}
			if what == "nestlie" {
				unit = append(unit[:3], c05Varint(min(lie, 1024))...)
			}
			b = append(append(noStack, 1), bytes.Repeat(unit, levels)...)
			if rapid.Bool().Draw(rt, "end") {
				b = append(b, 0, 0, 0)
			}
		case "wide":
			n := rapid.IntRange(0, 60000).Draw(rt, "n")
			b = append(append(field(lensTypeTagStruct), c05Varint(uint64(n))...), bytes.Repeat([]byte{0, 0, 0}, n)...)
			if rapid.Bool().Draw(rt, "short") && n > 0 {
				b = b[:len(b)-1]
			}
		}
		desc := fmt.Sprintf("%s lie=%d len=%d %s", what, lie, len(b), hex.EncodeToString(b[:min(len(b), 40)]))
		vfNote(desc)
		kind := "state"
		if (what == "frames" || what == "table") && rapid.Bool().Draw(rt, "aspoint") {
			kind = "point"
		}
		tail := rapid.IntRange(0, 200000).Draw(rt, "tail") // some of what was promised does arrive
		if what != "deep" && what != "wide" && what != "nestlie" && rapid.IntRange(0, 4).Draw(rt, "withtail") == 0 {
			b = append(b, bytes.Repeat([]byte{'x'}, tail)...)
		}
		var err error
		used := c05Alloc(func() { err = c05Decode(kind, b) })
		cl := what + " rejected"
		if err == nil {
			cl = what + " decoded"
		}
		vfCase("hostile", true, desc, cl)
		if used > c05Budget(len(b)) {
			rt.Fatalf("decoding %d bytes allocated %d bytes (error %v): %s", len(b), used, err, desc)
		}
	})
}

func TestC05Prefix(t *testing.T) {
	vfRule("every strict prefix (a sample of them beyond 3000 bytes) of valid messages; non-trivial = message longer than 12 bytes")
	vfRun(t, 800, 20000, func(rt *rapid.T) {
		kind := rapid.SampledFrom(c05Kinds).Draw(rt, "kind")
		b := c05Valid(rt, kind, 3)
		vfCase("prefix", len(b) > 12, kind+" "+hex.EncodeToString(b))
		if err := c05Decode(kind, b); err != nil {
			rt.Fatalf("valid %s message rejected: %v", kind, err)
		}
		step := 1 + len(b)/3000
		for n := len(b) - 1; n >= 0; n -= step {
			if err := c05Decode(kind, b[:n]); err == nil {
				rt.Fatalf("prefix of %d of %d bytes of a %s message was decoded\n%s", n, len(b), kind, hex.EncodeToString(b))
			}
		}
	})
}

type c05Recorder struct {
	mu  sync.Mutex
	got []string
}

func (r *c05Recorder) add(s string) { r.mu.Lock(); r.got = append(r.got, s); r.mu.Unlock() }
func (r *c05Recorder) HandleFuncPoint(m LensMonitorMessagePoint) {
	r.add(fmt.Sprintf("point %d %d", m.PointID, m.TimeNS))
}
func (r *c05Recorder) HandleFuncPointState(m LensMonitorMessagePointState) {
	r.add(fmt.Sprintf("state %d %d %d", m.PointID, m.TimeNS, len(m.Fields)))
}
func (r *c05Recorder) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	r.add(fmt.Sprintf("panic %d %d %s", m.PointID, m.TimeNS, m.Message))
}

// A rejected message is answered with an error status and leaves no trace;
// valid messages before and after it are handled once each, in order.
func TestC05HTTP(t *testing.T) {
	vfRule("sequences of valid, mutated, truncated and wrong-method requests to the HTTP handlers; non-trivial = at least one rejected and one valid request")
	vfRun(t, 1200, 20000, func(rt *rapid.T) {
		rec := &c05Recorder{}
		s := &astServer{maxFieldLen: vfMaxLen}
		var h astPointHandler = rec
		s.pointHandler.Store(&h)
		var want, desc []string
		valid, bad := 0, 0
		for n := rapid.IntRange(1, 10).Draw(rt, "reqs"); n > 0; n-- {
			kind := rapid.SampledFrom(c05Kinds).Draw(rt, "kind")
			b := c05Valid(rt, kind, 1)
			method := http.MethodPost
			mode := rapid.SampledFrom([]string{"valid", "valid", "cut", "mutate", "method"}).Draw(rt, "mode")
			switch mode {
			case "cut":
				b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
			case "mutate":
				b = c05Mutate(rt, b)
			case "method":
				method = rapid.SampledFrom([]string{"GET", "PUT", "DELETE"}).Draw(rt, "method")
			}
			ok := method == http.MethodPost && c05Decode(kind, b) == nil
			hf := map[string]http.HandlerFunc{"point": s.handlePoint, "state": s.handlePointState, "panic": s.handlePointPanic, "error": s.handleEventError}[kind]
			w := httptest.NewRecorder()
			vfMustReturn(60*time.Second, fmt.Sprintf("handler for %s did not return: %s", kind, hex.EncodeToString(b)), func() {
				hf(w, httptest.NewRequest(method, "/", bytes.NewReader(b)))
			})
			desc = append(desc, fmt.Sprintf("%s/%s/%d", kind, mode, w.Code))
			if mode == "valid" && !ok {
				rt.Fatalf("valid message rejected")
			}
			if ok != (w.Code < 300) {
				rt.Fatalf("%s %s: decodable %v, status %d", method, kind, ok, w.Code)
			}
			if !ok {
				bad++
				continue
			}
			valid++
			lr := newLensReader(bytes.NewReader(b), vfMaxLen)
			switch kind {
			case "point":
				m, _ := lr.decodeMessagePoint()
				want = append(want, fmt.Sprintf("point %d %d", m.PointID, m.TimeNS))
			case "state":
				m, _ := lr.decodeMessagePointState()
				want = append(want, fmt.Sprintf("state %d %d %d", m.PointID, m.TimeNS, len(m.Fields)))
			case "panic":
				m, _ := lr.decodeMessagePointPanic()
				want = append(want, fmt.Sprintf("panic %d %d %s", m.PointID, m.TimeNS, m.Message))
			}
		}
		vfCase("http", valid > 0 && bad > 0, strings.Join(desc, " "))
		if a, b := strings.Join(want, "\n"), strings.Join(rec.got, "\n"); a != b {
			rt.Fatalf("handled:\n%s\nwant:\n%s\n(%s)", b, a, desc)
		}
	})
}
