package vlib

import "encoding/json"

// J encodes a case as JSON.
func J(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// U decodes a case.
func U(key string, v interface{}) {
	if err := json.Unmarshal([]byte(key), v); err != nil {
		panic(err)
	}
}

// Seqs calls f with every sequence over 0..k-1 of length lo..hi, shortest
// first. The slice is reused.
func Seqs(k, lo, hi int, f func([]int)) {
	for n := lo; n <= hi; n++ {
		s := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(s)
				return
			}
			for c := 0; c < k; c++ {
				s[i] = c
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// Prod calls f with every tuple t, 0 <= t[i] < dims[i]. The slice is reused.
func Prod(dims []int, f func([]int)) {
	s := make([]int, len(dims))
	var rec func(i int)
	rec = func(i int) {
		if i == len(dims) {
			f(s)
			return
		}
		for c := 0; c < dims[i]; c++ {
			s[i] = c
			rec(i + 1)
		}
	}
	rec(0)
}

// Strs maps indexes to strings.
func Strs(alpha []string, idx []int) []string {
	r := make([]string, len(idx))
	for i, x := range idx {
		r[i] = alpha[x]
	}
	return r
}

// Eq compares string slices.
func Eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
