package lens

import (
	"bytes"
	"flag"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// The tree of views used: "" is the storage itself, "a" a view, "a/n" a view of a view.
var c10Views = []string{"", "a", "ab", "a-0", "pre", "pre/n", "pre/nn", "A"}
var c10Parent = map[string]string{"a": "", "ab": "", "a-0": "", "pre": "", "pre/n": "pre", "pre/nn": "pre", "A": ""}

func c10Keys(view string) []string {
	base := []string{"k", "k-0", "k-1", "k-10", "kk", "K", "m/p.(*T).F", "ключ", "a", "ab", "pre", "n", "x y\x00z", "k-", "k badger_split:k"}
	if view != "" && view != "pre" { // leaf views also take keys with the separator
		base = append(base, ";", "k;k", "n;k", "k;", ";k", "badger_split:k", "badger_split:")
	}
	return base
}

func c10Open(t *rapid.T, root Storage) map[string]Storage {
	out := map[string]Storage{"": root}
	for _, v := range c10Views[1:] {
		name := v[strings.LastIndex(v, "/")+1:]
		out[v] = KeyPrefixStorage(out[c10Parent[v]], name)
	}
	return out
}

func c10Below(view, anc string) bool {
	return anc == "" || view == anc || strings.HasPrefix(view, anc+"/")
}

// c10Blob makes values of exact sizes around the split boundaries.
func c10Blob(t *rapid.T, limit int) []byte {
	n := rapid.OneOf(
		rapid.SampledFrom([]int{0, 1, limit - 1, limit, limit + 1, 2*limit - 1, 2 * limit, 2*limit + 1, 3 * limit, 5*limit + 3, 11*limit + 1}),
		rapid.IntRange(0, 4*limit)).Draw(t, "size")
	s := rapid.Byte().Draw(t, "fill")
	kind := rapid.IntRange(0, 12).Draw(t, "bkind")
	if kind == 0 {
		return []byte(fmt.Sprintf("badger_split:%d:%d:%d", int(s)%3, int(s)%7, int(s)%7))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = s + byte(i*int(1+s%5)) + byte(i/251)
	}
	if kind == 1 {
		b = append([]byte("badger_split:"), b...)
	}
	return b
}

func c10History(t *testing.T, name string, quick, thorough int, open func() Storage) {
	vfRun(t, quick, thorough, func(rt *rapid.T) {
		limit := badgerSplitLimit
		root := open()
		closed := false
		defer func() {
			if !closed {
				root.Close()
			}
		}()
		views := c10Open(rt, root)
		model := map[string]map[string][]byte{}
		for _, v := range c10Views {
			model[v] = map[string][]byte{}
		}
		var ops []string
		overwrites, bigs := 0, 0
		drawVK := func(rt *rapid.T) (string, string) {
			v := rapid.SampledFrom(c10Views).Draw(rt, "view")
			return v, rapid.SampledFrom(c10Keys(v)).Draw(rt, "key")
		}
		checkKey := func(v, k string) {
			got, ok, err := views[v].LoadState(k)
			want, exists := model[v][k]
			if err != nil || ok != exists || !bytes.Equal(got, want) {
				rt.Fatalf("%s: load view %q key %q: got %d bytes %q, found %v, err %v; want %d bytes %q, exists %v\n%s", name, v, k, len(got), vfClip(string(got)), ok, err, len(want), vfClip(string(want)), exists, strings.Join(ops, "\n"))
			}
			if ok { // the caller may do what it likes with the result
				for i := range got {
					got[i] ^= 0xff
				}
			}
		}
		checkList := func(v, prefix string) {
			var got []string
			var err error
			if prefix == "" {
				got, err = views[v].ListKeys()
			} else {
				got, err = views[v].ListKeysPrefix(prefix)
			}
			if err != nil {
				rt.Fatalf("%s: list view %q prefix %q: %v", name, v, prefix, err)
			}
			seen := map[string]bool{}
			for _, k := range got {
				if seen[k] {
					rt.Fatalf("%s: list view %q prefix %q: %q twice", name, v, prefix, k)
				}
				seen[k] = true
			}
			own, total := 0, 0
			for k := range model[v] {
				if strings.HasPrefix(k, prefix) {
					own++
					if !seen[k] {
						rt.Fatalf("%s: list view %q prefix %q misses %q: %q\n%s", name, v, prefix, k, got, strings.Join(ops, "\n"))
					}
				}
			}
			if prefix == "" {
				for _, w := range c10Views {
					if c10Below(w, v) {
						total += len(model[w])
					}
				}
				if len(got) != total {
					rt.Fatalf("%s: list view %q has %d keys, want %d: %q\n%s", name, v, len(got), total, got, strings.Join(ops, "\n"))
				}
			} else if v != "" && v != "pre" && len(got) != own {
				rt.Fatalf("%s: list view %q prefix %q has %q, want %d keys\n%s", name, v, prefix, got, own, strings.Join(ops, "\n"))
			}
			for _, k := range got {
				if !strings.HasPrefix(k, prefix) {
					rt.Fatalf("%s: list view %q prefix %q has %q", name, v, prefix, k)
				}
			}
		}
		save := func(rt *rapid.T) {
			v, k := drawVK(rt)
			b := c10Blob(rt, limit)
			if _, ok := model[v][k]; ok {
				overwrites++
			}
			if len(b) > limit {
				bigs++
			}
			ops = append(ops, fmt.Sprintf("save %q %q %d bytes %q", v, k, len(b), vfClip(string(b[:min(len(b), 40)]))))
			model[v][k] = append([]byte{}, b...)
			if err := views[v].SaveState(k, b); err != nil {
				rt.Fatalf("%s: save: %v\n%s", name, err, strings.Join(ops, "\n"))
			}
			for i := range b { // the caller may reuse its buffer
				b[i] ^= 0xff
			}
			checkKey(v, k)
		}
		rt.Repeat(map[string]func(*rapid.T){
			"save":  save,
			"save2": save,
			"load":  func(rt *rapid.T) { v, k := drawVK(rt); checkKey(v, k) },
			"delete": func(rt *rapid.T) {
				v, k := drawVK(rt)
				ops = append(ops, fmt.Sprintf("delete %q %q", v, k))
				delete(model[v], k)
				if err := views[v].DeleteState(k); err != nil {
					rt.Fatalf("%s: delete: %v", name, err)
				}
				checkKey(v, k)
			},
			"list": func(rt *rapid.T) {
				v := rapid.SampledFrom(c10Views).Draw(rt, "view")
				checkList(v, rapid.SampledFrom([]string{"", "", "k", "k-", "k ", "badger", "K", "a", "n;", "zzz", ";"}).Draw(rt, "prefix"))
			},
			"clear": func(rt *rapid.T) {
				v := rapid.SampledFrom(append([]string{"a", "ab", "pre/n"}, c10Views...)).Draw(rt, "view")
				ops = append(ops, fmt.Sprintf("clear %q", v))
				for _, w := range c10Views {
					if c10Below(w, v) {
						model[w] = map[string][]byte{}
					}
				}
				if err := views[v].Clear(); err != nil {
					rt.Fatalf("%s: clear: %v", name, err)
				}
				checkList(v, "")
			},
		})
		for _, v := range c10Views {
			checkList(v, "")
			for _, k := range c10Keys(v) {
				checkKey(v, k)
			}
		}
		vfCase(name, overwrites > 0 && bigs > 0 || limit == 0, strings.Join(ops, "\n"))
	})
}

func TestC10Mem(t *testing.T) {
	vfRule("histories of save/load/delete/list/clear over a storage and nested prefixed views, value sizes around multiples of the split limit; non-trivial with at least one overwrite and one value above the limit")
	_ = flag.Set("rapid.steps", "70")
	defer c10Limit(48)()
	c10History(t, "mem", 3000, 30000, NewMemStorage)
}

func c10Limit(n int) func() {
	old := badgerSplitLimit
	badgerSplitLimit = n
	return func() { badgerSplitLimit = old }
}

func c10Badger() Storage {
	s, err := NewBadgerStorage(vfDir("badger"), 16)
	if err != nil {
		panic(err)
	}
	return s
}

func TestC10Badger(t *testing.T) {
	_ = flag.Set("rapid.steps", "70")
	for _, lim := range []int{48, 7, 1000} {
		t.Run(fmt.Sprint(lim), func(t *testing.T) {
			defer c10Limit(lim)()
			c10History(t, "badger", 200, 2000, c10Badger)
		})
	}
}

// Real (not lowered) split limit with sizes across the value log threshold.
func TestC10BadgerLargeValues(t *testing.T) {
	vfRule("large values at the production split limit; every case non-trivial")
	s := c10Badger()
	defer s.Close()
	vfRun(t, 4, 25, func(rt *rapid.T) {
		n := rapid.SampledFrom([]int{1 << 20, 1<<20 + 1, 3<<20 + 17, 9 << 20, 17 << 20, 40<<20 + 5}).Draw(rt, "n")
		b := bytes.Repeat([]byte{1, 2, 3, byte(n), byte(n >> 8), 9, 77}, n/7+1)[:n]
		vfCase("large", true, fmt.Sprint(n))
		if err := s.SaveState("big", b); err != nil {
			rt.Fatalf("save %d bytes: %v", n, err)
		}
		got, ok, err := s.LoadState("big")
		if err != nil || !ok || !bytes.Equal(got, b) {
			rt.Fatalf("load %d bytes: %d %v %v", n, len(got), ok, err)
		}
	})
}

// Concurrent use: every goroutine owns some keys (whose history must be exact),
// and one shared key has a single writer: readers only ever see whole values.
func TestC10Concurrent(t *testing.T) {
	vfRule("concurrent histories, one owner per key plus one shared single-writer key whose readers must see whole saved values; non-trivial when values are split")
	defer c10Limit(64)()
	for _, mk := range []struct {
		name string
		open func() Storage
	}{{"mem", NewMemStorage}, {"badger", c10Badger}} {
		t.Run(mk.name, func(t *testing.T) {
			vfRun(t, 40, 400, func(rt *rapid.T) {
				s := mk.open()
				defer s.Close()
				n := rapid.IntRange(2, 6).Draw(rt, "owners")
				plans := make([][][3]int, n) // key, op, size
				for i := range plans {
					m := rapid.IntRange(20, 60).Draw(rt, "steps")
					for j := 0; j < m; j++ {
						plans[i] = append(plans[i], [3]int{rapid.IntRange(0, 3).Draw(rt, "key"), rapid.IntRange(0, 3).Draw(rt, "op"), rapid.SampledFrom([]int{0, 1, 64, 65, 129, 400, 1000}).Draw(rt, "size")})
					}
				}
				vfCase("concurrent-"+mk.name, true, fmt.Sprint(plans))
				var mu sync.Mutex
				var problem string
				bad := func(f string, a ...any) {
					mu.Lock()
					if problem == "" {
						problem = fmt.Sprintf(f, a...)
					}
					mu.Unlock()
				}
				var wg sync.WaitGroup
				stop := make(chan struct{})
				for i := range plans {
					wg.Add(1)
					go func() {
						defer wg.Done()
						view := KeyPrefixStorage(s, fmt.Sprintf("o%d", i))
						model := map[string][]byte{}
						for j, st := range plans[i] {
							k := fmt.Sprintf("k%d", st[0])
							switch st[1] {
							case 0, 1:
								b := bytes.Repeat([]byte{byte(i), byte(j)}, st[2]/2+1)[:st[2]]
								if err := view.SaveState(k, b); err != nil {
									bad("owner %d save: %v", i, err)
									return
								}
								model[k] = b
							case 2:
								if err := view.DeleteState(k); err != nil {
									bad("owner %d delete: %v", i, err)
									return
								}
								delete(model, k)
							}
							got, ok, err := view.LoadState(k)
							w, e := model[k]
							if err != nil || ok != e || !bytes.Equal(got, w) {
								bad("owner %d step %d key %s: %d bytes found %v err %v, want %d exists %v", i, j, k, len(got), ok, err, len(w), e)
								return
							}
							keys, err := view.ListKeys()
							sort.Strings(keys)
							if err != nil || fmt.Sprint(keys) != fmt.Sprint(vfKeys(model)) {
								bad("owner %d step %d list %v err %v want %v", i, j, keys, err, vfKeys(model))
								return
							}
						}
					}()
				}
				if err := s.SaveState("shared", bytes.Repeat([]byte{0}, 65)); err != nil {
					rt.Fatalf("save shared: %v", err)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 1; j < 60; j++ {
						if err := s.SaveState("shared", bytes.Repeat([]byte{byte(j)}, 65+(j*37)%900)); err != nil {
							bad("shared save: %v", err)
							return
						}
					}
				}()
				var rg sync.WaitGroup
				for r := 0; r < 2; r++ {
					rg.Add(1)
					go func() {
						defer rg.Done()
						for {
							select {
							case <-stop:
								return
							default:
							}
							got, ok, err := s.LoadState("shared")
							if err != nil || !ok || len(got) == 0 {
								bad("shared load: %d bytes found %v err %v", len(got), ok, err)
								return
							}
							j := int(got[0])
							want := 65
							if j > 0 {
								want = 65 + (j*37)%900
							}
							if len(got) != want || bytes.Count(got, got[:1]) != len(got) {
								bad("shared load: a value that was never saved (%d bytes starting %d)", len(got), j)
								return
							}
						}
					}()
				}
				wg.Wait()
				close(stop)
				rg.Wait()
				if problem != "" {
					rt.Fatalf("%s: %s", mk.name, problem)
				}
			})
		})
	}
}
