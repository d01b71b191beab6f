package main

import (
	"fmt"
	"io/ioutil"
	"math"
	"math/cmplx"
	"strings"
)

// product enumerates all tuples of ints with 0 <= t[i] < n[i], first index slowest
func product(n []int, f func(t []int)) {
	t := make([]int, len(n))
	for _, v := range n {
		if v <= 0 {
			return
		}
	}
	for {
		f(append([]int{}, t...))
		i := len(n) - 1
		for i >= 0 {
			t[i]++
			if t[i] < n[i] {
				break
			}
			t[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// sequences enumerates all sequences over 0..k-1 of length min..max, shortest first
func sequences(k, min, max int, f func(s []int)) {
	for l := min; l <= max; l++ {
		if l == 0 {
			f([]int{})
			continue
		}
		n := make([]int, l)
		for i := range n {
			n[i] = k
		}
		product(n, f)
	}
}

// permutations enumerates all permutations of 0..n-1
func permutations(n int, f func(p []int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

func prod(n []int) int {
	r := 1
	for _, v := range n {
		r *= v
	}
	return r
}

// refIndex is the documented storage order: 2D row-major; 3D depth slowest, then row, then column
func refIndex(dims, pos []int) int {
	if len(dims) == 2 {
		return pos[0]*dims[1] + pos[1]
	}
	return (pos[2]*dims[0]+pos[0])*dims[1] + pos[1]
}

func refPos(dims []int, i int) []int {
	if len(dims) == 2 {
		return []int{i / dims[1], i % dims[1]}
	}
	return []int{(i / dims[1]) % dims[0], i % dims[1], i / (dims[0] * dims[1])}
}

func mod(a, n int) int {
	return ((a % n) + n) % n
}

// refFreq is the frequency of node i, in cycles per node in (-1/2, 1/2]
func refFreq(dims []int, i int) []float64 {
	p := refPos(dims, i)
	f := make([]float64, len(dims))
	for k := range f {
		f[k] = float64(p[k]) / float64(dims[k])
		if 2*p[k] > dims[k] {
			f[k] -= 1.0
		}
	}
	return f
}

// refDFT is the discrete Fourier transform by its definition, one axis after the other. sign=-1 forward, +1 inverse (unnormalised)
func refDFT(dims []int, x []complex128, sign float64) []complex128 {
	n := prod(dims)
	cur := cloneC(x)
	for k, d := range dims {
		if d == 1 {
			continue
		}
		tab := make([]complex128, d)
		for j := range tab {
			tab[j] = cmplx.Exp(complex(0, sign*2*math.Pi*float64(j)/float64(d)))
		}
		unit := make([]int, len(dims))
		unit[k] = 1
		stride := refIndex(dims, unit)
		out := make([]complex128, n)
		for i := range out {
			p := refPos(dims, i)[k]
			base := i - p*stride
			for j := 0; j < d; j++ {
				out[i] += cur[base+j*stride] * tab[(p*j)%d]
			}
		}
		cur = out
	}
	return cur
}

func refIDFT(dims []int, x []complex128) []complex128 {
	out := refDFT(dims, x, 1)
	n := complex(float64(len(x)), 0)
	for i := range out {
		out[i] /= n
	}
	return out
}

func maxAbsC(x []complex128) float64 {
	m := 0.0
	for _, v := range x {
		if a := cmplx.Abs(v); a > m {
			m = a
		}
	}
	return m
}

// diffC returns the index and size of the largest difference; NaN counts as infinite
func diffC(a, b []complex128) (int, float64) {
	if len(a) != len(b) {
		return -1, math.Inf(1)
	}
	idx, m := -1, 0.0
	for i := range a {
		d := cmplx.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return i, math.Inf(1)
		}
		if d > m {
			idx, m = i, d
		}
	}
	return idx, m
}

func diffF(a, b []float64) (int, float64) {
	if len(a) != len(b) {
		return -1, math.Inf(1)
	}
	idx, m := -1, 0.0
	for i := range a {
		d := math.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return i, math.Inf(1)
		}
		if d > m {
			idx, m = i, d
		}
	}
	return idx, m
}

// closeC fails the run if got and want differ by more than tol relative to the size of want
func (r *Run) closeC(what string, got, want []complex128, tol float64) {
	scale := 1 + maxAbsC(want)
	i, d := diffC(got, want)
	if d > tol*scale {
		if i < 0 {
			r.Failf("%s: length %d, expected %d", what, len(got), len(want))
		}
		r.Failf("%s: node %d is %.12g, expected %.12g (difference %g)", what, i, got[i], want[i], d)
	}
}

func (r *Run) closeF(what string, got, want []float64, tol float64) {
	scale := 1.0
	for _, v := range want {
		if math.Abs(v)+1 > scale {
			scale = math.Abs(v) + 1
		}
	}
	i, d := diffF(got, want)
	if d > tol*scale {
		if i < 0 {
			r.Failf("%s: length %d, expected %d", what, len(got), len(want))
		}
		r.Failf("%s: entry %d is %.12g, expected %.12g (difference %g)", what, i, got[i], want[i], d)
	}
}

func (r *Run) close1(what string, got, want, tol float64) {
	if d := math.Abs(got - want); !(d <= tol*(1+math.Abs(want))) {
		r.Failf("%s: %.12g, expected %.12g", what, got, want)
	}
}

// panics reports whether f panics
func panics(f func()) (p bool, msg string) {
	defer func() {
		if e := recover(); e != nil {
			if cf, ok := e.(caseFailure); ok {
				panic(cf)
			}
			p, msg = true, fmt.Sprint(e)
		}
	}()
	f()
	return false, ""
}

func ints(x []int) string {
	s := make([]string, len(x))
	for i, v := range x {
		s[i] = fmt.Sprint(v)
	}
	return strings.Join(s, "x")
}

func cloneC(x []complex128) []complex128 { return append([]complex128{}, x...) }
func cloneF(x []float64) []float64       { return append([]float64{}, x...) }
func cloneI(x []int) []int               { return append([]int{}, x...) }

func toC(x []float64) []complex128 {
	out := make([]complex128, len(x))
	for i := range x {
		out[i] = complex(x[i], 0)
	}
	return out
}

func realOf(x []complex128) []float64 {
	out := make([]float64, len(x))
	for i := range x {
		out[i] = real(x[i])
	}
	return out
}

// generic field: deterministic values without symmetry; kind selects one of several
func genericField(n, kind int) []complex128 {
	out := make([]complex128, n)
	for i := range out {
		v := math.Sin(1.3*float64(i*i%17)+0.7*float64(i)+float64(kind)*1.9) + 0.37*math.Cos(2.1*float64(i)+float64(kind*kind))
		out[i] = complex(0.5*v, 0)
	}
	return out
}

func readFile(path string) string {
	b, _ := ioutil.ReadFile(path)
	return string(b)
}
