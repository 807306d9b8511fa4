package gen

import (
	"encoding/json"
	"math/bits"
	"os"
	"regexp"
	"sync"

	"pgregory.net/rapid"
)

// The dictionary: constants of declarations which differ from the tree the checks were made for
// (see mine). They make some values, sizes and texts more likely; without them nothing changes.
type dictWords struct {
	Ints  []int64
	Texts []string
}

var dict struct{ New, Near dictWords }
var chars []byte
var readDict = sync.OnceFunc(func() {
	p := os.Getenv("VERIF_DICT")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err == nil {
		err = json.Unmarshal(b, &dict)
	}
	if err != nil {
		dict.New, dict.Near = dictWords{}, dictWords{}
		return
	}
	for _, i := range dict.New.Ints {
		if i >= 0x20 && i <= 0x7e {
			chars = append(chars, byte(i))
		}
	}
	var all []string
	all = append(append(all, dict.New.Texts...), dict.Near.Texts...)
	for _, s := range all {
		for i := 0; len(s) <= 2 && i < len(s); i++ {
			if s[i] >= 0x20 && s[i] <= 0x7e {
				chars = append(chars, s[i])
			}
		}
	}
})

// hot picks what to take from: nothing, the new words, or those next to them
func hot(t *rapid.T, n, m int) int {
	if n+m == 0 {
		return 0
	}
	switch k := rapid.IntRange(0, 15).Draw(t, "dict"); {
	case k >= 12 && n > 0:
		return 1
	case k == 11 && m > 0:
		return 2
	}
	return 0
}

// Hot sometimes draws a number between lo and hi which has to do with a constant of the changed code
func Hot(t *rapid.T, lo, hi int64) (int64, bool) {
	readDict()
	l := dict.New.Ints
	switch hot(t, len(dict.New.Ints), len(dict.Near.Ints)) {
	case 0:
		return 0, false
	case 2:
		l = dict.Near.Ints
	}
	v := rapid.SampledFrom(l).Draw(t, "constant")
	switch rapid.IntRange(0, 9).Draw(t, "next") {
	case 0, 1:
		v--
	case 2, 3:
		v++
	case 4:
		v *= 2
	case 5: // as many records of that size
		v = v/rapid.SampledFrom([]int64{128, 256, 512, 2}).Draw(t, "size") + int64(rapid.IntRange(0, 1).Draw(t, "more"))
	}
	return v, v >= lo && v <= hi
}

// hotBits is Hot for a word of flags
func hotBits(t *rapid.T, max uint64) (uint64, bool) {
	readDict()
	l := dict.New.Ints
	switch hot(t, len(dict.New.Ints), len(dict.Near.Ints)) {
	case 0:
		return 0, false
	case 2:
		l = dict.Near.Ints
	}
	v := uint64(rapid.SampledFrom(l).Draw(t, "constant"))
	switch rapid.IntRange(0, 6).Draw(t, "bits") {
	case 0:
		v--
	case 1:
		v++
	case 2:
		v |= rapid.Uint64().Draw(t, "more")
	case 3:
		v = ^v
	case 4:
		v = rapid.Uint64().Draw(t, "less") &^ v
	}
	v &= max
	return v, bits.Len64(v) <= bits.Len64(max)
}

// hotText sometimes draws a text of the changed code, of at most max bytes
func hotText(t *rapid.T, max int) (string, bool) {
	readDict()
	l := dict.New.Texts
	switch hot(t, len(dict.New.Texts), len(dict.Near.Texts)) {
	case 0:
		return "", false
	case 2:
		l = dict.Near.Texts
	}
	s := rapid.SampledFrom(l).Draw(t, "word")
	return s, len(s) <= max
}

// char draws a printable ASCII character
func char(t *rapid.T) byte {
	readDict()
	if len(chars) > 0 && rapid.IntRange(0, 7).Draw(t, "dict") == 0 {
		return rapid.SampledFrom(chars).Draw(t, "char")
	}
	return byte(rapid.IntRange(0x20, 0x7e).Draw(t, "c"))
}

// Num draws a number between lo and hi
func Num(lo, hi int) *rapid.Generator[int] { return NumTo(lo, hi, hi) }

// NumTo draws a number between lo and hi; one which has to do with a constant of the changed code up to far
func NumTo(lo, hi, far int) *rapid.Generator[int] {
	readDict()
	if len(dict.New.Ints)+len(dict.Near.Ints) == 0 {
		return rapid.IntRange(lo, hi)
	}
	return rapid.Custom(func(t *rapid.T) int {
		if v, ok := Hot(t, int64(lo), int64(max(hi, far))); ok {
			return int(v)
		}
		return rapid.IntRange(lo, hi).Draw(t, "n")
	})
}

// ListOf draws lo to hi elements, sometimes up to far as NumTo
func ListOf[T any](g *rapid.Generator[T], lo, hi, far int) *rapid.Generator[[]T] {
	readDict()
	if len(dict.New.Ints)+len(dict.Near.Ints) == 0 {
		return rapid.SliceOfN(g, lo, hi)
	}
	return rapid.Custom(func(t *rapid.T) []T {
		if v, ok := Hot(t, int64(lo), int64(max(hi, far))); ok {
			return rapid.SliceOfN(g, int(v), int(v)).Draw(t, "list")
		}
		return rapid.SliceOfN(g, lo, hi).Draw(t, "list")
	})
}

// Match draws a text which matches the expression, as rapid.StringMatching; some have a text of the changed code in them
func Match(expr string) *rapid.Generator[string] {
	readDict()
	g := rapid.StringMatching(expr)
	if len(dict.New.Texts)+len(dict.Near.Texts)+len(chars) == 0 {
		return g
	}
	re := regexp.MustCompile("^(?:" + expr + ")$")
	return rapid.Custom(func(t *rapid.T) string {
		s := g.Draw(t, "text")
		w, ok := hotText(t, 64)
		if !ok && len(chars) > 0 && rapid.IntRange(0, 5).Draw(t, "char?") == 0 {
			w, ok = string([]byte{rapid.SampledFrom(chars).Draw(t, "char")}), true
		}
		if !ok {
			return s
		}
		i := rapid.SampledFrom([]int{0, len(s), len(s) / 2}).Draw(t, "at")
		for _, s := range []string{s[:i] + w + s[i:], s[:i/2] + w + s[i/2:], w, s[:i/2] + w, w + s[i/2+i%2:], s[:min(1, len(s))] + w} {
			if re.MatchString(s) {
				return s
			}
		}
		return s
	})
}
