package lens

// Shared harness support: evidence accounting, tier-scaled rapid runs, known
// findings. It references nothing of the package under test.

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type vfEvidence struct {
	mu       sync.Mutex
	evals    int
	distinct map[[12]byte]struct{}
	classes  map[string]int
	samples  []string
	rules    []string
	perTest  map[string]int
	excluded map[string]int
}

var vfEv = &vfEvidence{distinct: map[[12]byte]struct{}{}, classes: map[string]int{}, perTest: map[string]int{}, excluded: map[string]int{}}

// vfRule states how cases are made and what makes one non-trivial.
func vfRule(s string) {
	vfEv.mu.Lock()
	defer vfEv.mu.Unlock()
	for _, r := range vfEv.rules {
		if r == s {
			return
		}
	}
	vfEv.rules = append(vfEv.rules, s)
}

// vfCase records one generated case; key is its full canonical description.
func vfCase(test string, nontrivial bool, key string, classes ...string) {
	h := sha256.Sum256([]byte(test + "\x00" + key))
	var k [12]byte
	copy(k[:], h[:])
	vfEv.mu.Lock()
	defer vfEv.mu.Unlock()
	vfEv.evals++
	vfEv.perTest[test]++
	for _, c := range classes {
		vfEv.classes[test+":"+c]++
	}
	if !nontrivial {
		return
	}
	if _, ok := vfEv.distinct[k]; ok {
		return
	}
	vfEv.distinct[k] = struct{}{}
	n := len(vfEv.distinct)
	if len(vfEv.samples) < 16 && (n <= 3 || n%97 == 0 || vfEv.perTest[test] <= 2) {
		if len(key) > 600 {
			key = key[:600] + "..."
		}
		vfEv.samples = append(vfEv.samples, test+": "+key)
	}
}

func vfClass(test, class string) {
	vfEv.mu.Lock()
	defer vfEv.mu.Unlock()
	vfEv.classes[test+":"+class]++
}

func vfExcluded(what string) {
	vfEv.mu.Lock()
	defer vfEv.mu.Unlock()
	vfEv.excluded[what]++
}

func vfWriteEvidence() {
	path := os.Getenv("VERIF_EVIDENCE")
	if path == "" {
		return
	}
	vfEv.mu.Lock()
	defer vfEv.mu.Unlock()
	doc := map[string]any{"coverage": map[string]any{
		"evaluations": vfEv.evals, "distinct_nontrivial": len(vfEv.distinct),
		"rule": strings.Join(vfEv.rules, " | "), "samples": vfEv.samples,
		"classes": vfEv.classes, "per_test": vfEv.perTest, "excluded_by_construction": vfEv.excluded,
	}}
	b, err := json.Marshal(doc)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Println("VERIF-HARNESS-ERROR evidence:", err)
	}
}

func vfThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vfSeed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil || n <= 0 {
		return 1
	}
	return n
}

// vfTier picks a bound by tier.
func vfTier(quick, thorough int) int {
	if vfThorough() {
		return thorough
	}
	return quick
}

var vfFlagMu sync.Mutex // tests which run in parallel use the same counts

// vfRun runs a rapid property with a case count by tier.
func vfRun(t *testing.T, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	vfFlagMu.Lock()
	if n := strconv.Itoa(vfTier(quick, thorough)); flag.Lookup("rapid.checks").Value.String() != n {
		if err := flag.Set("rapid.checks", n); err != nil {
			vfHarnessErr("set checks: %v", err)
		}
	}
	vfFlagMu.Unlock()
	rapid.Check(t, prop)
}

func vfHarnessErr(f string, a ...any) {
	fmt.Printf("VERIF-HARNESS-ERROR "+f+"\n", a...)
	panic(fmt.Sprintf("VERIF-HARNESS-ERROR "+f, a...))
}

// vfNote records the case about to run, for deaths of the whole process.
func vfNote(s string) {
	if p := os.Getenv("VERIF_CASEFILE"); p != "" {
		_ = os.WriteFile(p, []byte(s), 0o644)
	}
}

var vfDirSeq int
var vfDirMu sync.Mutex

// vfDir makes a fresh scratch directory.
func vfDir(prefix string) string {
	vfDirMu.Lock()
	vfDirSeq++
	n := vfDirSeq
	vfDirMu.Unlock()
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	d := filepath.Join(base, fmt.Sprintf("%s%d", prefix, n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		vfHarnessErr("mkdir: %v", err)
	}
	return d
}

func vfWrite(path, content string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		vfHarnessErr("mkdir: %v", err)
	}
	err := os.WriteFile(path, []byte(content), 0o644)
	if errors.Is(err, os.ErrPermission) { // not run as root, and the file is read-only
		if st, e := os.Stat(path); e == nil {
			_ = os.Chmod(path, 0o644)
			err = os.WriteFile(path, []byte(content), 0o644)
			_ = os.Chmod(path, st.Mode().Perm())
		}
	}
	if err != nil {
		vfHarnessErr("write: %v", err)
	}
}

func vfRead(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "<unreadable: " + err.Error() + ">"
	}
	return string(b)
}

// vfTree reads a directory tree to rel path -> content (symlinks as "-> target").
func vfTree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "-> " + l
		case info.IsDir():
			out[rel] = "<dir>"
		default:
			b, _ := os.ReadFile(p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func vfTreeDiff(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			d = append(d, "missing "+k)
		} else if v != w {
			d = append(d, fmt.Sprintf("changed %s: %q -> %q", k, vfClip(v), vfClip(w)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "extra "+k)
		}
	}
	sort.Strings(d)
	return strings.Join(d, "\n")
}

func vfClip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

func vfKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// vfWithin runs f and reports whether it returned within a very generous limit
// (used only where the property is that the call returns at all).
func vfWithin(limit time.Duration, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
		return true
	case <-time.After(limit):
		return false
	}
}

// vfMustReturn runs f, and ends the whole run as failed if it does not return
// within a limit far beyond what it can need (shrinking a hang is pointless).
func vfMustReturn(limit time.Duration, what string, f func()) {
	if vfWithin(limit, f) {
		return
	}
	vfWriteEvidence()
	fmt.Printf("\n    %s\n--- FAIL: Test%s_hang (0.00s)\nFAIL\n", what, os.Getenv("VERIF_PROPERTY"))
	os.Exit(1)
}

// vfKnown reports a listed known finding's status: reproduces says whether it
// still fails. A finding is listed in known_findings.txt under the given key.
func vfKnown(key string, reproduces bool) {
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, line := range strings.Split(string(b), "\n") {
		var e struct{ Status, Property, Key, What string }
		if json.Unmarshal([]byte(line), &e) != nil || e.Status != "known" || e.Key != key || e.Property != os.Getenv("VERIF_PROPERTY") {
			continue
		}
		if reproduces {
			fmt.Printf("\nKNOWN-FINDING: property=%s %s\n", e.Property, e.What)
		}
		return
	}
	if reproduces {
		panic("unlisted finding " + key)
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	code := m.Run()
	vfWriteEvidence()
	os.Exit(code)
}
