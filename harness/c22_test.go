package lens

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func c22Writes(t *rapid.T, maxLen int) []string {
	var out []string
	next := byte('a')
	for range rapid.IntRange(0, 12).Draw(t, "writes") {
		n := rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, maxLen)).Draw(t, "len")
		b := make([]byte, n)
		for i := range b {
			b[i] = next
			next++
			if next > 'z' {
				next = 'a'
			}
		}
		s := string(b)
		if rapid.IntRange(0, 4).Draw(t, "nl") == 0 {
			s += "..."
		}
		out = append(out, s)
	}
	return out
}

func TestC22RollingBuffer(t *testing.T) {
	vfRule("rolling: a sequence of writes to a size-limited buffer; non-trivial = the limit was exceeded")
	vfRun(t, 4000, 150000, func(rt *rapid.T) {
		limit := rapid.OneOf(rapid.IntRange(6, 12), rapid.IntRange(6, 300)).Draw(rt, "limit")
		var buf bytes.Buffer
		w := newLimitedRollingBufferWriter(&buf, limit)
		all := ""
		writes := c22Writes(rt, 2*limit+5)
		scratch := make([]byte, 0, 1024)
		for _, s := range writes {
			p := append(scratch[:0], s...)
			n, err := w.Write(p)
			if n != len(s) || err != nil {
				rt.Fatalf("write of %d bytes returned %d, %v", len(s), n, err)
			}
			if string(p) != s {
				rt.Fatalf("write changed its argument")
			}
			for i := range p { // the caller reuses its slice
				p[i] = '#'
			}
			all += s
			got := buf.String()
			if len(got) > limit {
				rt.Fatalf("limit %d: buffer holds %d bytes", limit, len(got))
			}
			if len(all) <= limit {
				if got != all {
					rt.Fatalf("limit %d: wrote %q, buffer holds %q", limit, all, got)
				}
				continue
			}
			tail, cut := strings.CutPrefix(got, "...")
			if !cut || !strings.HasSuffix(all, tail) || len(tail) < limit/2 {
				rt.Fatalf("limit %d: wrote %q, buffer holds %q, which is not the marked most recent part", limit, all, got)
			}
		}
		vfCase("rolling", len(all) > limit, fmt.Sprintf("limit %d %q", limit, writes))
	})
}

type c22Sink struct {
	bytes.Buffer
	fail   int // fails from this write on
	writes int
	closed int
}

var c22Boom = errors.New("sink failed")

func (s *c22Sink) Write(p []byte) (int, error) {
	s.writes++
	if s.fail > 0 && s.writes >= s.fail {
		return 0, c22Boom
	}
	return s.Buffer.Write(p)
}

type c22Closer struct{ *c22Sink }

func (s c22Closer) Close() error {
	s.closed++
	if s.fail > 0 {
		return c22Boom
	}
	return nil
}

func TestC22Tee(t *testing.T) {
	vfRule("tee: writes to 0-5 writers, some nil, some failing, some closable; non-trivial = at least two writers")
	vfRun(t, 3000, 80000, func(rt *rapid.T) {
		var sinks []*c22Sink
		var closers []bool
		var ws []io.Writer
		for range rapid.IntRange(0, 5).Draw(rt, "n") {
			if rapid.IntRange(0, 4).Draw(rt, "nil") == 0 {
				ws = append(ws, nil)
				continue
			}
			s := &c22Sink{}
			if rapid.IntRange(0, 5).Draw(rt, "bad") == 0 {
				s.fail = rapid.IntRange(1, 4).Draw(rt, "fail")
			}
			sinks = append(sinks, s)
			c := rapid.Bool().Draw(rt, "closer")
			closers = append(closers, c)
			if c {
				ws = append(ws, c22Closer{s})
			} else {
				ws = append(ws, s)
			}
		}
		w := TeeWriter(ws...)
		want := make([]string, len(sinks))
		writes := c22Writes(rt, 40)
		for i, p := range writes {
			bad := false
			for k, s := range sinks {
				if s.fail > 0 && i+1 >= s.fail {
					bad = true
				} else {
					want[k] += p
				}
			}
			n, err := w.Write([]byte(p))
			if (err != nil) != bad || (err != nil && !errors.Is(err, c22Boom)) {
				rt.Fatalf("write %d: error %v, a writer failed: %v", i, err, bad)
			}
			if !bad && n != len(p) {
				rt.Fatalf("write of %d bytes returned %d", len(p), n)
			}
			for k, s := range sinks {
				if s.String() != want[k] {
					rt.Fatalf("writer %d got %q, want %q", k, s.String(), want[k])
				}
			}
		}
		err := w.Close()
		badClose := false
		for k, s := range sinks {
			wantClosed := 0
			if closers[k] {
				wantClosed = 1
				badClose = badClose || s.fail > 0
			}
			if s.closed != wantClosed {
				rt.Fatalf("writer %d of %d closed %d times, want %d", k, len(sinks), s.closed, wantClosed)
			}
		}
		if (err != nil) != badClose {
			rt.Fatalf("close error %v, a writer failed to close: %v", err, badClose)
		}
		vfCase("tee", len(sinks) >= 2, fmt.Sprintf("%d writers closers %v %q", len(ws), closers, writes))
	})
}

func TestC22LimitLines(t *testing.T) {
	vfRule("lines: text limited to n lines from either end; non-trivial = lines were cut")
	vfRun(t, 3000, 80000, func(rt *rapid.T) {
		n := rapid.IntRange(1, 12).Draw(rt, "n")
		var lines []string
		for range n {
			lines = append(lines, rapid.SampledFrom([]string{"", "a", "bb", "ä", "x\r", " "}).Draw(rt, "line"))
		}
		limit := rapid.IntRange(1, 14).Draw(rt, "limit")
		head := rapid.Bool().Draw(rt, "head")
		want := lines
		if n > limit && head {
			want = lines[:limit]
		} else if n > limit {
			want = lines[n-limit:]
		}
		if got := limitStringLines(strings.Join(lines, "\n"), limit, head); got != strings.Join(want, "\n") {
			rt.Fatalf("%q limited to %d (head %v) gives %q, want %q", lines, limit, head, got, want)
		}
		vfCase("lines", n > limit, fmt.Sprintf("%q %d %v", lines, limit, head))
	})
}

func TestC22Locked(t *testing.T) {
	vfRule("locked: records written to a shared buffer by several goroutines; non-trivial = at least two writers")
	vfRun(t, 150, 3000, func(rt *rapid.T) {
		writers, each := rapid.IntRange(1, 8).Draw(rt, "writers"), rapid.IntRange(1, 60).Draw(rt, "each")
		pad := strings.Repeat("=", rapid.IntRange(0, 200).Draw(rt, "pad"))
		lb := newLockedBuffer()
		stop := make(chan struct{})
		var reader sync.WaitGroup
		reader.Add(1)
		torn := atomic.Int64{}
		go func() {
			defer reader.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if s := lb.String(); s != "" && !strings.HasSuffix(s, "\n") {
					torn.Add(1)
				}
				if lb.Len() < 0 {
					torn.Add(1)
				}
				runtime.Gosched()
			}
		}()
		var wg sync.WaitGroup
		for w := range writers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range each {
					p := []byte(fmt.Sprintf("%d:%d:%s\n", w, i, pad))
					if n, err := lb.Write(p); n != len(p) || err != nil {
						torn.Add(1)
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		reader.Wait()
		if torn.Load() > 0 {
			rt.Fatalf("%d torn reads or short writes", torn.Load())
		}
		next := make([]int, writers)
		lines := strings.Split(strings.TrimSuffix(lb.String(), "\n"), "\n")
		for _, l := range lines {
			var w, i int
			var p string
			if _, err := fmt.Sscanf(strings.ReplaceAll(l+"$", ":", " "), "%d %d %s", &w, &i, &p); err != nil || w >= writers || next[w] != i || p != pad+"$" {
				rt.Fatalf("record %q lost, repeated or torn", l)
			}
			next[w]++
		}
		if len(lines) != writers*each || lb.Len() != len(lb.Bytes()) {
			rt.Fatalf("%d records, wrote %d", len(lines), writers*each)
		}
		lb.Reset()
		if lb.Len() != 0 || lb.String() != "" {
			rt.Fatalf("not empty after reset")
		}
		vfCase("locked", writers > 1, fmt.Sprintf("%d writers x %d records of %d bytes", writers, each, len(pad)))
	})
}

func TestC22Limit(t *testing.T) {
	vfRule("limit: tasks started through a limiting wait group; non-trivial = more tasks than the limit")
	vfRun(t, 200, 4000, func(rt *rapid.T) {
		limit, tasks := rapid.IntRange(1, 6).Draw(rt, "limit"), rapid.IntRange(0, 40).Draw(rt, "tasks")
		delays := make([]int, tasks)
		for i := range delays {
			delays[i] = rapid.SampledFrom([]int{0, 0, 1, 50, 300}).Draw(rt, "us")
		}
		starters := rapid.IntRange(1, 3).Draw(rt, "starters")
		inside := rapid.Bool().Draw(rt, "takeInside")
		key := fmt.Sprintf("limit %d starters %d inside %v tasks %v", limit, starters, inside, delays)
		vfNote(key)
		vfMustReturn(2*time.Minute, "limiting wait group never completes: "+key, func() {
			g := NewLimitingWaitGroup(limit)
			var active, peak, done atomic.Int64
			var wg, outer sync.WaitGroup
			for s := range starters {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := s; i < tasks; i += starters {
						if !inside {
							g.Take()
						}
						outer.Add(1)
						go func() {
							defer outer.Done()
							if inside {
								g.Take()
							}
							defer g.Release()
							n := active.Add(1)
							for {
								p := peak.Load()
								if n <= p || peak.CompareAndSwap(p, n) {
									break
								}
							}
							time.Sleep(time.Duration(delays[i]) * time.Microsecond)
							active.Add(-1)
							done.Add(1)
						}()
					}
				}()
			}
			wg.Wait() // all have been started, though not all have finished
			if inside {
				outer.Wait()
			}
			g.Join()
			if done.Load() != int64(tasks) || active.Load() != 0 {
				rt.Fatalf("%s: join returned with %d of %d tasks done", key, done.Load(), tasks)
			}
			if peak.Load() > int64(limit) {
				rt.Fatalf("%s: %d tasks ran at once", key, peak.Load())
			}
		})
		vfCase("limit", tasks > limit, key)
	})
}

func TestC22Striped(t *testing.T) {
	vfRule("striped: goroutines incrementing per-key counters under the lock for the key; non-trivial = a key shared by several goroutines")
	vfRun(t, 120, 3000, func(rt *rapid.T) {
		stripes := uint(rapid.IntRange(1, 9).Draw(rt, "stripes"))
		keys := rapid.SliceOfNDistinct(rapid.StringN(0, 6, 12), 1, 5, rapid.ID[string]).Draw(rt, "keys")
		workers := rapid.IntRange(2, 8).Draw(rt, "workers")
		key := fmt.Sprintf("%d stripes keys %q workers %d", stripes, keys, workers)
		vfNote(key)
		vfMustReturn(2*time.Minute, "striped mutex never completes: "+key, func() {
			m := newStripedMutex(stripes)
			holders := make([]atomic.Int64, len(keys))
			var bad atomic.Int64
			var wg sync.WaitGroup
			for w := range workers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range 60 {
						k := (i*7 + w) % len(keys)
						l := m.Lock(keys[k])
						if holders[k].Add(1) != 1 {
							bad.Add(1)
						}
						runtime.Gosched()
						holders[k].Add(-1)
						l.Unlock()
					}
				}()
			}
			wg.Wait()
			if bad.Load() > 0 {
				rt.Fatalf("%s: a key was held by two goroutines at once", key)
			}
		})
		vfCase("striped", true, key)
	})
}

func TestC22Keys(t *testing.T) {
	vfRule("keys: pairs of strings of all lengths; equal keys exactly for equal strings; non-trivial = the strings differ")
	vfRun(t, 6000, 200000, func(rt *rapid.T) {
		gen := rapid.OneOf(rapid.StringN(0, 24, 30), rapid.StringOfN(rapid.SampledFrom([]rune{'a', 'b'}), 17, 44, 44))
		a := gen.Draw(rt, "a")
		b := a
		if rapid.IntRange(0, 3).Draw(rt, "differ") > 0 {
			switch rapid.SampledFrom([]string{"other", "append", "prefix", "flip"}).Draw(rt, "how") {
			case "other":
				b = gen.Draw(rt, "b")
			case "append":
				b = a + "a"
			case "prefix":
				b = a[:len(a)/2]
			case "flip":
				if len(a) > 0 {
					at := rapid.IntRange(0, len(a)-1).Draw(rt, "at")
					b = a[:at] + string([]byte{a[at] ^ 1}) + a[at+1:]
				}
			}
		}
		if (stringKey(a) == stringKey(b)) != (a == b) || (bytesKey([]byte(a)) == bytesKey([]byte(b))) != (a == b) {
			rt.Fatalf("keys of %q and %q", a, b)
		}
		if stringKey(a) != stringKey(strings.Clone(a)) || bytesKey([]byte(a)) != stringKey(a) || len(stringKey(a)) > 20 {
			rt.Fatalf("key of %q is %q", a, stringKey(a))
		}
		vfCase("keys", a != b, fmt.Sprintf("%q %q", a, b))
	})
}

// ---- environments

func c22EnvMap(env []string) (map[string]string, map[string]int) {
	vals, n := map[string]string{}, map[string]int{}
	for _, kv := range env {
		k, v, _ := strings.Cut(kv, "=")
		vals[k] = v
		n[k]++
	}
	return vals, n
}

func TestC22Env(t *testing.T) {
	vfRule("env: process environment and overrides over a small set of names (prefixes of each other, loader variables); non-trivial = an override of a set variable")
	saved := os.Environ()
	defer func() {
		os.Clearenv()
		for _, kv := range saved {
			k, v, _ := strings.Cut(kv, "=")
			_ = os.Setenv(k, v)
		}
	}()
	names := []string{"GOPATH", "GOPATHX", "GOPAT", "GOMODCACHE", "GOFLAGS", "A", "AB", "a", "LD_PRELOAD", "LD_LIBRARY_PATH", "LDX", "MYLD_X"}
	values := []string{"", "x", "y=z", "=", "a b", "GOPATH=q", "/p:/q"}
	vfRun(t, 2000, 40000, func(rt *rapid.T) {
		os.Clearenv()
		base := map[string]string{}
		for range rapid.IntRange(0, 10).Draw(rt, "nbase") {
			k := rapid.SampledFrom(names).Draw(rt, "name")
			base[k] = rapid.SampledFrom(values).Draw(rt, "value")
			_ = os.Setenv(k, base[k])
		}
		over := map[string]string{}
		var env []string
		overriding := false
		for range rapid.IntRange(0, 5).Draw(rt, "nover") {
			k := rapid.SampledFrom(names[:8]).Draw(rt, "oname")
			if _, ok := over[k]; ok {
				continue
			}
			over[k] = rapid.SampledFrom(values).Draw(rt, "ovalue")
			env = append(env, k+"="+over[k])
			_, had := base[k]
			overriding = overriding || had
		}
		given := append([]string(nil), env...)
		cmd := NewProjectExec("/", env, "true")
		for how, merged := range map[string][]string{"merge": mergeSafeEnv(env), "command": cmd.Env} {
			got, count := c22EnvMap(merged)
			want := map[string]string{}
			for k, v := range base {
				if !strings.HasPrefix(k, "LD_") {
					want[k] = v
				}
			}
			for k, v := range over {
				want[k] = v
			}
			if !reflect.DeepEqual(got, want) && (len(got) > 0 || len(want) > 0) {
				rt.Fatalf("%s: environment %v with %v gives %v, want %v", how, base, given, got, want)
			}
			for k, n := range count {
				if n != 1 {
					rt.Fatalf("%s: %s is set %d times in %v", how, k, n, merged)
				}
			}
		}
		if !reflect.DeepEqual(env, given) {
			rt.Fatalf("overrides were modified: %v -> %v", given, env)
		}
		if cmd.Dir != "/" {
			rt.Fatalf("command runs in %q", cmd.Dir)
		}
		gp, mc := rapid.SampledFrom(values).Draw(rt, "gopath"), rapid.SampledFrom(values).Draw(rt, "modcache")
		goenv := GoEnv(gp, mc)
		sort.Strings(goenv)
		var want []string
		if mc != "" {
			want = append(want, "GOMODCACHE="+mc)
		}
		if gp != "" {
			want = append(want, "GOPATH="+gp)
		}
		if len(goenv) != len(want) || (len(want) > 0 && !reflect.DeepEqual(goenv, want)) {
			rt.Fatalf("GoEnv(%q, %q) = %v", gp, mc, goenv)
		}
		vfCase("env", overriding, fmt.Sprintf("%v + %v", base, given))
	})
}
