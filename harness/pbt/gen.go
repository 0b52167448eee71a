package pbt

import (
	"math/bits"

	"pgregory.net/rapid"
)

// Int draws uniformly from lo..hi. The library's own integers favour small
// values, which starves all but the first few alternatives of a choice.
func Int(lo, hi int) *rapid.Generator[int] {
	n := uint64(hi-lo) + 1
	if hi < lo {
		panic("empty range")
	}
	k := bits.Len64(n-1) + 2
	if n&(n-1) == 0 {
		k = bits.Len64(n - 1)
	}
	k = max(k, 1)
	return rapid.Custom(func(t *rapid.T) int {
		var v uint64
		for i := 0; i < k; i++ {
			v <<= 1
			if rapid.Bool().Draw(t, "") {
				v |= 1
			}
		}
		return lo + int(v%n)
	})
}

// Pick draws uniformly from the list.
func Pick[T any](xs ...T) *rapid.Generator[T] {
	g := Int(0, len(xs)-1)
	return rapid.Custom(func(t *rapid.T) T { return xs[g.Draw(t, "")] })
}

// OneOf chooses a generator uniformly.
func OneOf[T any](gs ...*rapid.Generator[T]) *rapid.Generator[T] {
	g := Int(0, len(gs)-1)
	return rapid.Custom(func(t *rapid.T) T { return gs[g.Draw(t, "")].Draw(t, "") })
}

// Chance is true in p percent of the draws.
func Chance(t *rapid.T, p int) bool { return Int(0, 99).Draw(t, "") >= 100-p }

// Many draws lists with a wide spread of lengths.
func Many[T any](g *rapid.Generator[T], lo, hi int) *rapid.Generator[[]T] {
	chunk := rapid.SliceOfN(g, 1, 10)
	return rapid.Custom(func(t *rapid.T) []T {
		var out []T
		for _, c := range rapid.SliceOfN(chunk, 1, max(2, (hi+4)/5)).Draw(t, "") {
			out = append(out, c...)
		}
		if len(out) > hi {
			out = out[:hi]
		}
		for len(out) < lo {
			out = append(out, g.Draw(t, ""))
		}
		return out
	})
}

// Bytes draws strings of arbitrary bytes with the given lengths.
func Bytes(lo, hi int) *rapid.Generator[Str] {
	return rapid.Map(rapid.SliceOfN(rapid.Byte(), lo, hi), func(b []byte) Str { return Str(b) })
}

// Match draws strings matching the expression.
func Match(expr string) *rapid.Generator[Str] {
	return rapid.Map(rapid.StringMatching(expr), func(s string) Str { return Str(s) })
}

// Text draws unicode text.
func Text(lo, hi int) *rapid.Generator[Str] {
	return rapid.Map(rapid.StringN(lo, hi, -1), func(s string) Str { return Str(s) })
}
