package main

import "pgregory.net/rapid"

// rapid's integer generators favour small numbers; with them most choices
// between productions would fall on the first ones.  The remainder of a wide
// draw is nearly uniform and still shrinks towards 0.

// below draws from 0..n-1.
func below(t *rapid.T, n int, label string) int {
	return int(rapid.Uint64().Draw(t, label) % uint64(n))
}

// between draws from lo..hi.
func between(t *rapid.T, lo, hi int, label string) int {
	return lo + below(t, hi-lo+1, label)
}

// pct is true in about p of 100 cases; shrinks towards false.
func pct(t *rapid.T, p int) bool { return below(t, 100, "%") >= 100-p }

// pickOf draws one of the list.
func pickOf[T any](t *rapid.T, list []T, label string) T {
	return list[below(t, len(list), label)]
}
