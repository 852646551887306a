package lens

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func c12Lines(t *rapid.T, alphabet []string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = rapid.SampledFrom(alphabet).Draw(t, "line")
	}
	return out
}

// c12Edit applies random line edits to old.
func c12Edit(t *rapid.T, old, alphabet []string) []string {
	lines := append([]string(nil), old...)
	for range rapid.IntRange(0, 5).Draw(t, "edits") {
		at := rapid.IntRange(0, len(lines)).Draw(t, "at")
		switch rapid.SampledFrom([]string{"insert", "delete", "replace", "move", "dup", "swap"}).Draw(t, "op") {
		case "insert":
			k := rapid.IntRange(1, 4).Draw(t, "k")
			lines = append(lines[:at:at], append(c12Lines(t, alphabet, k), lines[at:]...)...)
		case "delete":
			k := min(rapid.IntRange(1, 4).Draw(t, "k"), len(lines)-at)
			lines = append(lines[:at:at], lines[at+k:]...)
		case "replace":
			if at < len(lines) {
				lines = append([]string(nil), lines...)
				lines[at] = rapid.SampledFrom(alphabet).Draw(t, "line")
			}
		case "move":
			if at < len(lines) {
				l := lines[at]
				rest := append(lines[:at:at], lines[at+1:]...)
				to := rapid.IntRange(0, len(rest)).Draw(t, "to")
				lines = append(rest[:to:to], append([]string{l}, rest[to:]...)...)
			}
		case "dup":
			k := min(rapid.IntRange(1, 5).Draw(t, "k"), len(lines)-at)
			lines = append(lines[:at:at], append(append([]string(nil), lines[at:at+k]...), lines[at:]...)...)
		case "swap":
			if at+1 < len(lines) {
				lines = append([]string(nil), lines...)
				lines[at], lines[at+1] = lines[at+1], lines[at]
			}
		}
	}
	return lines
}

func c12Unmarked(lines []string, marks []bool) []string {
	out := []string{}
	for i, l := range lines {
		if !marks[i] {
			out = append(out, l)
		}
	}
	return out
}

// c12Widen says which lines of each text a radius must mark, given the exact
// marks: it reconstructs the alignment (the k-th unmarked lines correspond).
func c12Widen(oldM, newM []bool, radius int) (wantOld, wantNew []bool) {
	wantOld, wantNew = append([]bool(nil), oldM...), append([]bool(nil), newM...)
	set := func(b []bool, i int) {
		if i >= 0 && i < len(b) {
			b[i] = true
		}
	}
	i, j := 0, 0
	for i < len(oldM) || j < len(newM) {
		i0, j0 := i, j
		for i < len(oldM) && oldM[i] {
			i++
		}
		for j < len(newM) && newM[j] {
			j++
		}
		if i == i0 && j > j0 { // lines were only inserted here
			for r := 1; r <= radius; r++ {
				set(wantOld, i0-r)
				set(wantOld, i0-1+r)
				set(wantNew, j0-r)
				set(wantNew, j-1+r)
			}
		}
		i++
		j++
	}
	return
}

func TestC12Marks(t *testing.T) {
	vfRule("marks: two texts over a small line alphabet, the second an edited copy or unrelated; non-trivial = the texts differ and share a line")
	alphabets := [][]string{
		{"a", "b"},
		{"", "}", "\treturn nil", "\tif err != nil {", "\tx := 1", "\tx := 2"},
		{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "\r", " a", "a ", "ä"},
	}
	vfRun(t, 6000, 200000, func(rt *rapid.T) {
		al := rapid.SampledFrom(alphabets).Draw(rt, "alphabet")
		n := rapid.IntRange(0, 12).Draw(rt, "n")
		if rapid.IntRange(0, 40).Draw(rt, "big") == 0 {
			n = rapid.IntRange(190, 420).Draw(rt, "n2")
		}
		old := c12Lines(rt, al, n)
		var neu []string
		if rapid.IntRange(0, 6).Draw(rt, "unrelated") == 0 {
			neu = c12Lines(rt, al, rapid.IntRange(0, 12).Draw(rt, "m"))
		} else {
			neu = c12Edit(rt, old, al)
		}
		oldDef, newDef := strings.Join(old, "\n"), strings.Join(neu, "\n")
		old, neu = strings.Split(oldDef, "\n"), strings.Split(newDef, "\n") // an empty text is one empty line
		oldM := computeChangeLineBitmap(oldDef, newDef, false, 0)
		newM := computeChangeLineBitmap(oldDef, newDef, true, 0)
		if len(oldM) != len(old) || len(newM) != len(neu) {
			rt.Fatalf("%d marks for %d old lines, %d marks for %d new lines", len(oldM), len(old), len(newM), len(neu))
		}
		ou, nu := c12Unmarked(old, oldM), c12Unmarked(neu, newM)
		if !reflect.DeepEqual(ou, nu) {
			rt.Fatalf("old %q\nnew %q\nunmarked old lines %q differ from unmarked new lines %q", old, neu, ou, nu)
		}
		if oldDef == newDef && (len(ou) != len(old)) {
			rt.Fatalf("identical texts are marked: %v", oldM)
		}
		radius := rapid.IntRange(1, 4).Draw(rt, "radius")
		wantOld, wantNew := c12Widen(oldM, newM, radius)
		if got := computeChangeLineBitmap(oldDef, newDef, false, radius); !reflect.DeepEqual(got, wantOld) {
			rt.Fatalf("old %q\nnew %q\nradius %d marks old lines %v, want %v (exact marks %v, new %v)", old, neu, radius, got, wantOld, oldM, newM)
		}
		if got := computeChangeLineBitmap(oldDef, newDef, true, radius); !reflect.DeepEqual(got, wantNew) {
			rt.Fatalf("old %q\nnew %q\nradius %d marks new lines %v, want %v (exact marks %v)", old, neu, radius, got, wantNew, newM)
		}
		vfCase("marks", oldDef != newDef && len(ou) > 0, fmt.Sprintf("%q -> %q r=%d", old, neu, radius))
	})
}

// With all lines different there is only one reading of the edit: the marks
// must be exactly the edited lines.
func TestC12Exact(t *testing.T) {
	vfRule("exact: texts of pairwise different lines with fresh lines inserted, replaced and others deleted; non-trivial = at least one edit and one kept line")
	vfRun(t, 3000, 60000, func(rt *rapid.T) {
		n := rapid.IntRange(1, 30).Draw(rt, "n")
		if rapid.IntRange(0, 60).Draw(rt, "big") == 0 {
			n = 300
		}
		var old, neu []string
		var wantOld, wantNew []bool
		edits, kept := 0, 0
		for i := range n {
			l := fmt.Sprintf("\tline%d()", i)
			switch rapid.SampledFrom([]string{"keep", "keep", "keep", "delete", "replace", "insert"}).Draw(rt, "op") {
			case "keep":
				old, neu = append(old, l), append(neu, l)
				wantOld, wantNew = append(wantOld, false), append(wantNew, false)
				kept++
			case "delete":
				old, wantOld = append(old, l), append(wantOld, true)
				edits++
			case "replace":
				old, neu = append(old, l), append(neu, l+" // new")
				wantOld, wantNew = append(wantOld, true), append(wantNew, true)
				edits++
			case "insert":
				neu, wantNew = append(neu, l+" // added"), append(wantNew, true)
				edits++
			}
		}
		if len(old) == 0 || len(neu) == 0 {
			return
		}
		o, m := strings.Join(old, "\n"), strings.Join(neu, "\n")
		if got := computeChangeLineBitmap(o, m, false, 0); !reflect.DeepEqual(got, wantOld) {
			rt.Fatalf("old %q\nnew %q\nmarked %v, edited %v", old, neu, got, wantOld)
		}
		if got := computeChangeLineBitmap(o, m, true, 0); !reflect.DeepEqual(got, wantNew) {
			rt.Fatalf("old %q\nnew %q\nmarked (new) %v, edited %v", old, neu, got, wantNew)
		}
		vfCase("exact", edits > 0 && kept > 0, fmt.Sprintf("%q -> %q", old, neu))
	})
}
