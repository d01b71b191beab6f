package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

func init() {
	register("G01", "model_checking", gridAddressing)
	register("G02", "model_checking", spectralTransform)
	register("G03", "model_checking", spectralSymmetry)
	register("G04", "model_checking", drawing)
	register("G05", "model_checking", pixelOps)
}

// shapes enumerates all 2D domains with sides up to max2 and all 3D domains with sides up to max3
func shapes(max2, max3 int, f func(dims []int)) {
	product([]int{max2, max2}, func(t []int) { f([]int{t[0] + 1, t[1] + 1}) })
	product([]int{max3, max3, max3}, func(t []int) { f([]int{t[0] + 1, t[1] + 1, t[2] + 1}) })
}

// bigShapes enumerates domains beyond the sizes that can be explored completely
func bigShapes(f func(dims []int)) {
	for _, d := range [][]int{{16, 16}, {9, 32}, {33, 14}, {40, 40}, {1, 130}, {8, 8, 8}, {12, 5, 9}, {16, 10, 3}} {
		f(cloneI(d))
	}
}

// shapesB is shapes and bigShapes
func shapesB(c *Ctx, max2, max3 int, f func(dims []int)) {
	c.bound("and the domains 16x16, 9x32, 33x14, 40x40, 1x130, 8x8x8, 12x5x9, 16x10x3 (with five nodes spread over the domain instead of every node where pairs or impulses are enumerated)")
	shapes(max2, max3, f)
	bigShapes(f)
}

// longDomains have modes close to the Nyquist mode and close to the constant mode on one axis
var longDomains = [][]int{{1, 1601}, {1601, 1}, {1, 1, 801}, {801, 2, 1}}

// spots lists the nodes that carry an impulse: all of a small domain, five of a large one, two of a long one
func spots(n int) []int {
	if n > 1600 {
		return []int{0, 2 * n / 3}
	}
	if n > 125 {
		return []int{0, 1, n / 3, n / 2, n - 1}
	}
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func gridAddressing(c *Ctx) {
	m2, m3, mp := 7, 5, 4
	if c.Thorough {
		m2, m3, mp = 13, 8, 6
	}
	if c.Deep {
		m2, m3, mp = 24, 12, 8
	}
	c.bound("all 2D domains with sides 1..%d and all 3D domains with sides 1..%d, every node of each", m2, m3)
	c.bound("periodic wrapping: every offset from -3 to +3 periods along every axis of those domains")
	c.bound("product iteration: every list of 1..4 extents from 1..%d", mp)
	c.bound("grid write/read: every pair (ordered) of writes on domains with at most 24 nodes")
	shapesB(c, m2, m3, func(dims []int) {
		c.Case("index/"+ints(dims), func(r *Run) {
			n := prod(dims)
			g := pfutil.NewGrid(cloneI(dims))
			r.Check(len(g.Data) == n, "grid holds %d values, expected %d", len(g.Data), n)
			seen := make([]bool, n)
			product(dims, func(pos []int) {
				want := refIndex(dims, pos)
				got := pfutil.NodeIdx(dims, pos)
				r.Step(4)
				r.Check(got == want, "index of %v is %d, expected %d", pos, got, want)
				r.Check(!seen[got], "index %d used twice", got)
				seen[got] = true
				back := pfutil.Pos(dims, got)
				r.Check(fmt.Sprint(back) == fmt.Sprint(pos), "position of node %d is %v, expected %v", got, back, pos)
				gpos := g.Pos(got)
				pfutil.Pos(dims, n-1-got)
				g.Pos(n - 1 - got)
				r.Check(fmt.Sprint(back) == fmt.Sprint(pos) && fmt.Sprint(gpos) == fmt.Sprint(pos), "the position of node %d becomes %v when another one is asked for", got, back)
				r.Check(g.Index(pos) == want && fmt.Sprint(g.Pos(want)) == fmt.Sprint(pos), "grid addressing differs at %v", pos)
				r.Observe(dims, pos, got)
			})
		})
		c.Case("wrap/"+ints(dims), func(r *Run) {
			for ax := range dims {
				for v := -3 * dims[ax]; v <= 3*dims[ax]; v++ {
					for other := 0; other < 2; other++ {
						pos := make([]int, len(dims))
						want := make([]int, len(dims))
						for k := range pos {
							if other == 1 {
								pos[k] = -1
								want[k] = dims[k] - 1
							}
						}
						pos[ax] = v
						want[ax] = mod(v, dims[ax])
						in := cloneI(pos)
						pfutil.Wrap(pos, dims)
						r.Step(1)
						r.Check(fmt.Sprint(pos) == fmt.Sprint(want), "wrapping %v in %v gives %v, expected %v", in, dims, pos, want)
						r.Observe("wrap", dims, ax, v, pos)
					}
				}
			}
		})
	})
	shapes(5, 3, func(dims []int) {
		n := prod(dims)
		if n > 24 {
			return
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				a, b := a, b
				c.Case(fmt.Sprintf("setget/%s/%d,%d", ints(dims), a, b), func(r *Run) {
					g := pfutil.NewGrid(cloneI(dims))
					model := map[int]float64{}
					g.Set(refPos(dims, a), 1.5)
					model[a] = 1.5
					cp := g.Copy()
					other := g.Copy()
					other.Dims[0] += 3
					r.Check(fmt.Sprint(g.Dims) == fmt.Sprint(dims) && fmt.Sprint(cp.Dims) == fmt.Sprint(dims), "changing the size of a copy changes the original to %v", g.Dims)
					g.Set(refPos(dims, b), -2.25)
					before := map[int]float64{a: 1.5}
					model[b] = -2.25
					for i := 0; i < n; i++ {
						r.Step(1)
						r.Check(g.Get(refPos(dims, i)) == model[i], "node %d holds %g, expected %g", i, g.Get(refPos(dims, i)), model[i])
						r.Check(cp.Get(refPos(dims, i)) == before[i], "a write to the original changed node %d of the copy", i)
						r.Check(g.Data[i] == model[i], "raw data at %d is %g", i, g.Data[i])
					}
					cd := g.ToComplex()
					g2 := pfutil.NewGrid(cloneI(dims))
					for i := range cd {
						r.Check(cd[i] == complex(model[i], 0), "complex copy differs at %d", i)
						cd[i] += complex(0, 3)
					}
					g2.FromComplex(cd)
					for i := range g2.Data {
						r.Check(g2.Data[i] == model[i], "grid from complex differs at %d", i)
					}
					r.ObserveF("setget"+ints(dims), g.Data)
				})
			}
		}
	})
	c.bound("slice views: arrays with 1..5 elements, every element read and written through the real view and the view of the real part")
	for n := 1; n <= 5; n++ {
		n := n
		c.Case(fmt.Sprintf("views/%d", n), func(r *Run) {
			for w := 0; w < n; w++ {
				re := make([]float64, n)
				cd := make([]complex128, n)
				for i := range re {
					re[i] = 0.5 + float64(i)
					cd[i] = complex(1.5-float64(i), 2.25*float64(i)-3)
				}
				wr, wc := cloneF(re), cloneC(cd)
				v1 := pfutil.RealSlice{Data: re}
				v2 := pfutil.RealPartSlice{Data: cd}
				r.Check(v1.Len() == n && v2.Len() == n, "the views have %d and %d elements, expected %d", v1.Len(), v2.Len(), n)
				v1.Set(w, -8.5)
				v2.Set(w, -9.25)
				wr[w] = -8.5
				wc[w] = complex(-9.25, imag(wc[w]))
				for i := 0; i < n; i++ {
					r.Step(1)
					r.Check(re[i] == wr[i] && v1.Get(i) == wr[i], "element %d of the real view is %g (array %g), expected %g", i, v1.Get(i), re[i], wr[i])
					r.Check(cd[i] == wc[i] && v2.Get(i) == real(wc[i]), "element %d of the view of the real part is %g (array %v), expected %v", i, v2.Get(i), cd[i], wc[i])
				}
				r.ObserveF("views", re)
			}
		})
	}
	for d := 1; d <= 5; d++ {
		n := make([]int, d)
		for i := range n {
			n[i] = mp
		}
		longer := [][]int{{6, 2, 2, 2, 2, 2}, {5, 1, 3, 1, 2, 1, 2}, {2, 2, 2, 2, 2, 2, 2, 2}, {1, 1, 1, 1, 1, 40}, {300, 2}}
		if d == 5 { // a few longer and larger products
			n = []int{len(longer)}
		}
		product(n, func(t []int) {
			end := make([]int, d)
			if d == 5 {
				end = longer[t[0]]
			} else {
				for i := range end {
					end[i] = t[i] + 1
				}
			}
			c.Case("product/"+ints(end), func(r *Run) {
				p := pfutil.NewProduct(cloneI(end))
				var got []string
				for cur := p.Next(); cur != nil; cur = p.Next() {
					got = append(got, fmt.Sprint(cur))
					r.Check(len(got) <= prod(end), "iteration over %v returns more than %d tuples", end, prod(end))
				}
				r.Step(len(got) + 1)
				seen := map[string]bool{}
				for _, g := range got {
					r.Check(!seen[g], "%s returned twice", g)
					seen[g] = true
				}
				product(end, func(t []int) {
					r.Check(seen[fmt.Sprint(t)], "tuple %v was never returned for %v", t, end)
				})
				r.Observe("prod", end, len(got))
			})
		})
	}
}

// dftAt is the discrete Fourier sum of x at frequency f (cycles per node)
func dftAt(dims []int, x []complex128, f []float64, sign float64) complex128 {
	var s complex128
	for j := range x {
		if x[j] == 0 {
			continue
		}
		p := refPos(dims, j)
		ph := 0.0
		for k := range p {
			ph += f[k] * float64(p[k])
		}
		s += x[j] * cmplx.Exp(complex(0, sign*2*math.Pi*ph))
	}
	return s
}

func spectralTransform(c *Ctx) {
	m2, m3 := 6, 4
	if c.Thorough {
		m2, m3 = 9, 6
	}
	if c.Deep {
		m2, m3 = 14, 8
	}
	c.bound("all 2D domains with sides 1..%d and all 3D domains with sides 1..%d (cubic or not)", m2, m3)
	c.bound("per domain: every unit impulse (a basis of all fields; the transform is linear) with a complex amplitude, plus one dense field, plus every sequence of up to 3 transforms interleaved on two arrays")
	c.assume("transforms are linear maps, so the impulses decide every field; linearity itself is checked on the dense field")
	shapesB(c, m2, m3, func(dims []int) {
		n := prod(dims)
		var ft *pfutil.FFTWWrapper
		get := func() *pfutil.FFTWWrapper {
			if ft == nil {
				ft = pfutil.NewFFTW(cloneI(dims))
			}
			return ft
		}
		c.Case("freq/"+ints(dims), func(r *Run) {
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				f := get().Freq(i)
				r.Step(1)
				r.Check(len(f) == len(dims), "frequency has %d components", len(f))
				key := ""
				for k := range f {
					r.Check(math.Abs(f[k]) <= 0.5+1e-12, "frequency %v of node %d is outside [-1/2, 1/2]", f, i)
					h := f[k] * float64(dims[k])
					r.Check(math.Abs(h-math.Round(h)) < 1e-9, "frequency %v of node %d is not a grid frequency", f, i)
					key += fmt.Sprint(mod(int(math.Round(h)), dims[k]), ",")
				}
				r.Check(!seen[key], "two nodes have the frequency %v", f)
				seen[key] = true
			}
			f := get().Freq(0)
			for k := range f {
				r.Check(f[k] == 0, "node 0 is not the mean (frequency %v)", f)
			}
		})
		for _, imp := range append(spots(n), n) {
			imp := imp
			c.Case(fmt.Sprintf("dft/%s/%d", ints(dims), imp), func(r *Run) {
				x := make([]complex128, n)
				if imp < n {
					x[imp] = complex(1.25, -0.5)
				} else {
					x = genericField(n, 3)
					for i := range x {
						x[i] += complex(0, math.Cos(float64(3*i)))
					}
				}
				fwd := get().FFT(cloneC(x))
				inv := get().IFFT(cloneC(x))
				wantF := make([]complex128, n)
				wantI := make([]complex128, n)
				for i := range x {
					f := get().Freq(i)
					wantF[i] = dftAt(dims, x, f, -1)
					wantI[i] = dftAt(dims, x, f, 1)
				}
				r.Step(2)
				r.closeC("forward transform", fwd, wantF, 1e-10)
				r.closeC("inverse transform", inv, wantI, 1e-10)
				tr := get()
				f1, i1 := tr.FFT(cloneC(x)), tr.IFFT(cloneC(x))
				tr.FFT(impulse(n, n-1))
				tr.IFFT(impulse(n, 0))
				r.closeC("forward transform after other transforms", f1, wantF, 1e-10)
				r.closeC("inverse transform after other transforms", i1, wantI, 1e-10)
				back := get().IFFT(fwd)
				for i := range back {
					back[i] /= complex(float64(n), 0)
				}
				r.closeC("inverse(forward(x))/N", back, x, 1e-10)
				r.ObserveC("fft"+ints(dims), wantF)
			})
		}
		if n <= 12 {
			sequences(4, 1, 3, func(seq []int) {
				c.Case(fmt.Sprintf("history/%s/%v", ints(dims), seq), func(r *Run) {
					arr := [][]complex128{genericField(n, 1), genericField(n, 2)}
					ref := [][]complex128{cloneC(arr[0]), cloneC(arr[1])}
					for _, op := range seq {
						a := op / 2
						if op%2 == 0 {
							out := get().FFT(arr[a])
							ref[a] = refDFT(dims, ref[a], -1)
							r.closeC("returned array", out, ref[a], 1e-9)
						} else {
							out := get().IFFT(arr[a])
							ref[a] = refDFT(dims, ref[a], 1)
							r.closeC("returned array", out, ref[a], 1e-9)
						}
						r.Step(1)
						r.closeC("first array", arr[0], ref[0], 1e-9)
						r.closeC("second array", arr[1], ref[1], 1e-9)
					}
					r.ObserveC("hist0", arr[0])
					r.ObserveC("hist1", arr[1])
				})
			})
		}
	})
}

func conjRef(dims []int, i int) int {
	p := refPos(dims, i)
	for k := range p {
		p[k] = mod(-p[k], dims[k])
	}
	return refIndex(dims, p)
}

func spectralSymmetry(c *Ctx) {
	m2, m3 := 8, 5
	if c.Thorough {
		m2, m3 = 14, 8
	}
	if c.Deep {
		m2, m3 = 24, 12
	}
	c.bound("all 2D domains with sides 1..%d and all 3D domains with sides 1..%d, every node", m2, m3)
	c.bound("and domains with one long axis: 1x1001, 1001x1, 1002x1, 1x1x1001, 1x2001x1, 2x1024, 3x1025")
	both := func(f func(dims []int)) {
		shapesB(c, m2, m3, f)
		for _, d := range [][]int{{1, 1001}, {1001, 1}, {1002, 1}, {1, 1, 1001}, {1, 2001, 1}, {2, 1024}, {3, 1025}} {
			f(cloneI(d))
		}
	}
	both(func(dims []int) {
		n := prod(dims)
		c.Case("symmetry/"+ints(dims), func(r *Run) {
			ft := pfutil.NewFFTW(cloneI(dims))
			x := genericField(n, 5)
			ft.FFT(x)
			for i := 0; i < n; i++ {
				cj := ft.ConjugateNode(i)
				r.Step(1)
				r.Check(cj >= 0 && cj < n, "conjugate of %d is %d (outside)", i, cj)
				r.Check(ft.ConjugateNode(cj) == i, "conjugation is not an involution at %d", i)
				fi, fc := ft.Freq(i), ft.Freq(cj)
				for k := range fi {
					s := fi[k] + fc[k]
					r.Check(math.Abs(s-math.Round(s)) < 1e-9, "conjugate of node %d (frequency %v) has frequency %v", i, fi, fc)
					r.Check(math.Abs(fi[k]) <= 0.5+1e-12, "frequency %v of node %d is outside [-1/2, 1/2]", fi, i)
					h := fi[k] * float64(dims[k])
					r.Check(math.Abs(h-math.Round(h)) < 1e-9, "frequency %v of node %d is not a grid frequency", fi, i)
				}
				r.Check(cmplx.Abs(x[i]-cmplx.Conj(x[cj])) < 1e-9*(1+cmplx.Abs(x[i])), "amplitudes of %d and its conjugate %d are not conjugate for a real field", i, cj)
				r.Observe(dims, i, cj)
			}
			// One representative of every conjugate pair
			it := pf.UniqueFreqIterator{Freq: ft.Freq, End: n}
			cnt := make([]int, n)
			total := 0
			for i := it.Next(); i != -1; i = it.Next() {
				r.Step(1)
				total++
				r.Check(total <= n, "iterator over unique frequencies does not end")
				cnt[i]++
			}
			for i := 0; i < n; i++ {
				cj := conjRef(dims, i)
				sum := cnt[i] + cnt[cj]
				if cj == i {
					sum = cnt[i]
				}
				r.Check(sum == 1, "node %d and its conjugate %d were visited %d times, expected exactly once", i, cj, sum)
			}
			r.Check(it.Next() == -1, "exhausted iterator restarts")
			ra := pf.RealAmplitudeIterator{Freq: ft.Freq, End: n}
			self := make([]int, n)
			total = 0
			for i := ra.Next(); i != -1; i = ra.Next() {
				r.Step(1)
				total++
				r.Check(total <= n, "iterator over real amplitudes does not end")
				self[i]++
			}
			for i := 0; i < n; i++ {
				want := 0
				if conjRef(dims, i) == i {
					want = 1
				}
				r.Check(self[i] == want, "node %d visited %d times by the real-amplitude iterator, expected %d", i, self[i], want)
			}
			r.Observe("unique", dims, cnt, self)
		})
	})
}

type mat4 [4][4]float64

func (m mat4) apply(v [3]float64) [3]float64 {
	var o [3]float64
	for i := 0; i < 3; i++ {
		o[i] = m[i][0]*v[0] + m[i][1]*v[1] + m[i][2]*v[2] + m[i][3]
	}
	return o
}

type affineOp struct {
	name string
	make func() pfutil.Affine
	ref  mat4
}

func affineAlphabet() []affineOp {
	rot := func(ax int, a float64) mat4 {
		s, co := math.Sin(a), math.Cos(a)
		switch ax {
		case 0:
			return mat4{{1, 0, 0, 0}, {0, co, -s, 0}, {0, s, co, 0}, {0, 0, 0, 1}}
		case 1:
			return mat4{{co, 0, s, 0}, {0, 1, 0, 0}, {-s, 0, co, 0}, {0, 0, 0, 1}}
		}
		return mat4{{co, -s, 0, 0}, {s, co, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}
	}
	tr := func(x, y, z float64) mat4 {
		return mat4{{1, 0, 0, x}, {0, 1, 0, y}, {0, 0, 1, z}, {0, 0, 0, 1}}
	}
	sc := func(x, y, z float64) mat4 {
		return mat4{{x, 0, 0, 0}, {0, y, 0, 0}, {0, 0, z, 0}, {0, 0, 0, 1}}
	}
	return []affineOp{
		{"T(-2,-1.3,-0.7)", func() pfutil.Affine { return pfutil.Translation([]float64{-2, -1.3, -0.7}) }, tr(-2, -1.3, -0.7)},
		{"T2(-1.1,-2.2)", func() pfutil.Affine { return pfutil.Translation([]float64{-1.1, -2.2}) }, tr(-1.1, -2.2, 0)},
		{"S(0.5,2,1.5)", func() pfutil.Affine { return pfutil.Scaling([]float64{0.5, 2, 1.5}) }, sc(0.5, 2, 1.5)},
		{"RZ(0.6)", func() pfutil.Affine { return pfutil.RotZ(0.6) }, rot(2, 0.6)},
		{"RX(0.9)", func() pfutil.Affine { return pfutil.RotX(0.9) }, rot(0, 0.9)},
		{"S(-1,0.75,-1.25)", func() pfutil.Affine { return pfutil.Scaling([]float64{-1, 0.75, -1.25}) }, sc(-1, 0.75, -1.25)},
		{"RY(-0.7)", func() pfutil.Affine { return pfutil.RotY(-0.7) }, rot(1, -0.7)},
	}
}

func drawing(c *Ctx) {
	depth := 4
	grids := [][]int{{5, 4}, {4, 3, 3}}
	if c.Thorough {
		depth = 5
		grids = [][]int{{7, 5}, {3, 6}, {5, 4, 3}, {2, 3, 5}}
	}
	if c.Deep {
		depth = 6
	}
	ops := affineAlphabet()
	c.bound("every composition of 0..%d transformations out of %d (translations, scaling, rotations about the three axes)", depth, len(ops))
	c.bound("every composition is applied to points and to drawing of 4 shapes on the domains %v", grids)
	type shp struct {
		name   string
		mk     func(dim int) pfutil.Shape
		inside func(p [3]float64, dim int) (bool, float64) // inside and distance to the boundary
	}
	box := func(d [3]float64) func(p [3]float64, dim int) (bool, float64) {
		return func(p [3]float64, dim int) (bool, float64) {
			in, dist := true, math.Inf(1)
			for k := 0; k < dim; k++ {
				m := d[k]/2 - math.Abs(p[k])
				if m < 0 {
					in = false
				}
				dist = math.Min(dist, math.Abs(m))
			}
			return in, dist
		}
	}
	ball := func(rad float64) func(p [3]float64, dim int) (bool, float64) {
		return func(p [3]float64, dim int) (bool, float64) {
			s := 0.0
			for k := 0; k < dim; k++ {
				s += p[k] * p[k]
			}
			m := rad - math.Sqrt(s)
			return m > 0, math.Abs(m)
		}
	}
	shps := []shp{
		{"box(3.3,1.7,2.9)", func(dim int) pfutil.Shape {
			return &pfutil.Box{Diagonal: []float64{3.3, 1.7, 2.9}[:dim]}
		}, box([3]float64{3.3, 1.7, 2.9})},
		{"box(1.1,4.3,5.7)", func(dim int) pfutil.Shape {
			return &pfutil.Box{Diagonal: []float64{1.1, 4.3, 5.7}[:dim]}
		}, box([3]float64{1.1, 4.3, 5.7})},
		{"ball(1.6)", func(dim int) pfutil.Shape { return &pfutil.Ball{Radius: 1.6} }, ball(1.6)},
		{"ball(2.7)", func(dim int) pfutil.Shape { return &pfutil.Ball{Radius: 2.7} }, ball(2.7)},
	}
	compose := func(seq []int) pfutil.Affine {
		a := pfutil.Identity()
		for _, k := range seq {
			a.Append(ops[k].make())
		}
		return a
	}
	ref := func(seq []int, p [3]float64) [3]float64 {
		for _, k := range seq {
			p = ops[k].ref.apply(p)
		}
		return p
	}
	name := func(seq []int) string {
		s := ""
		for _, k := range seq {
			s += ops[k].name + ";"
		}
		if s == "" {
			s = "identity"
		}
		return s
	}
	large := [][]int{{24, 19}, {40, 33}, {12, 10, 9}}
	lshps := []shp{
		{"box(13.3,7.7,6.9)", func(dim int) pfutil.Shape {
			return &pfutil.Box{Diagonal: []float64{13.3, 7.7, 6.9}[:dim]}
		}, box([3]float64{13.3, 7.7, 6.9})},
		{"ball(6.6)", func(dim int) pfutil.Shape { return &pfutil.Ball{Radius: 6.6} }, ball(6.6)},
		{"ball(17.3)", func(dim int) pfutil.Shape { return &pfutil.Ball{Radius: 17.3} }, ball(17.3)},
		{"cross", func(dim int) pfutil.Shape { return &crossShape{} }, func(p [3]float64, dim int) (bool, float64) {
			in, dist := crossInside(p, dim)
			return in, dist
		}},
	}
	c.bound("every composition of 0..2 transformations on the domains %v with larger shapes and a user supplied non-convex shape that is not centred", large)
	drawCase := func(seq, dims []int, s shp) {
		seq = cloneI(seq)
		c.Case(fmt.Sprintf("draw/%s/%s/%s", s.name, ints(dims), name(seq)), func(r *Run) {
			g := pfutil.NewGrid(cloneI(dims))
			for i := range g.Data {
				g.Data[i] = 0.25 + float64(i)
			}
			a := compose(seq)
			ap := &a
			if len(seq) == 0 {
				ap = nil
			}
			pfutil.Draw(s.mk(len(dims)), &g, ap, -7.5)
			for i := range g.Data {
				p := refPos(dims, i)
				var v [3]float64
				for k := range p {
					v[k] = float64(p[k])
				}
				in, dist := s.inside(ref(seq, v), len(dims))
				r.Step(1)
				if dist < 1e-9 {
					continue
				}
				if in {
					r.Check(g.Data[i] == -7.5, "pixel %v is inside the transformed shape but was not drawn", p)
				} else {
					r.Check(g.Data[i] == 0.25+float64(i), "pixel %v is outside of the transformed shape but was changed to %g", p, g.Data[i])
				}
			}
			r.ObserveF("draw"+ints(dims), g.Data)
		})
	}
	sequences(len(ops), 0, 2, func(seq []int) {
		for _, dims := range large {
			for _, s := range lshps {
				drawCase(seq, dims, s)
			}
		}
	})
	sequences(len(ops), 0, depth, func(seq []int) {
		c.Case("affine/"+name(seq), func(r *Run) {
			a := compose(seq)
			product([]int{3, 3, 3}, func(t []int) {
				p := [3]float64{float64(t[0]) - 1, 0.5 * float64(t[1]), 2 * float64(t[2])}
				v := []float64{p[0], p[1], p[2]}
				a.Apply(v)
				w := ref(seq, p)
				r.Step(1)
				r.closeF(fmt.Sprintf("image of %v", p), v, w[:], 1e-11)
				if t[2] == 0 {
					v2 := []float64{p[0], p[1]}
					a.Apply(v2)
					r.closeF(fmt.Sprintf("2D image of %v", p[:2]), v2, w[:2], 1e-11)
				}
				r.ObserveF("aff", v)
			})
		})
		for _, dims := range grids {
			for si := range shps {
				drawCase(seq, dims, shps[si])
			}
		}
	})
	// Small, negative, zero and large parameters
	c.bound("every single transformation with parameters from {0, +-1e-9, +-3e-5, +-0.4, +-pi, +-7, +-1e4}, applied to 27 points with coordinates 0, 1e-4, 3")
	vals := []float64{0, 1e-9, -1e-9, 3e-5, -3e-5, 0.4, -0.4, math.Pi, -math.Pi, 7, -7, 1e4, -1e4}
	for vi, v := range vals {
		v, u := v, vals[(vi+3)%len(vals)]
		w := vals[(vi+7)%len(vals)]
		s, co := math.Sin(v), math.Cos(v)
		for _, op := range []affineOp{
			{"T", func() pfutil.Affine { return pfutil.Translation([]float64{v, u, w}) }, mat4{{1, 0, 0, v}, {0, 1, 0, u}, {0, 0, 1, w}, {0, 0, 0, 1}}},
			{"T2", func() pfutil.Affine { return pfutil.Translation([]float64{v, u}) }, mat4{{1, 0, 0, v}, {0, 1, 0, u}, {0, 0, 1, 0}, {0, 0, 0, 1}}},
			{"S", func() pfutil.Affine { return pfutil.Scaling([]float64{v, u, w}) }, mat4{{v, 0, 0, 0}, {0, u, 0, 0}, {0, 0, w, 0}, {0, 0, 0, 1}}},
			{"RX", func() pfutil.Affine { return pfutil.RotX(v) }, mat4{{1, 0, 0, 0}, {0, co, -s, 0}, {0, s, co, 0}, {0, 0, 0, 1}}},
			{"RY", func() pfutil.Affine { return pfutil.RotY(v) }, mat4{{co, 0, s, 0}, {0, 1, 0, 0}, {-s, 0, co, 0}, {0, 0, 0, 1}}},
			{"RZ", func() pfutil.Affine { return pfutil.RotZ(v) }, mat4{{co, -s, 0, 0}, {s, co, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}},
		} {
			op := op
			c.Case(fmt.Sprintf("parameter/%s(%g,%g,%g)", op.name, v, u, w), func(r *Run) {
				// once alone, once appended to the identity, twice, and appended to itself
				one := op.make()
				id := pfutil.Identity()
				id.Append(op.make())
				two := op.make()
				two.Append(op.make())
				self := op.make()
				self.Append(self)
				product([]int{3, 3, 3}, func(t []int) {
					co := []float64{0, 1e-4, 3}
					p := [3]float64{co[t[0]], co[t[1]], co[t[2]]}
					w1 := op.ref.apply(p)
					w2 := op.ref.apply(w1)
					for k, e := range []struct {
						a pfutil.Affine
						w [3]float64
					}{{one, w1}, {id, w1}, {two, w2}, {self, w2}} {
						x := []float64{p[0], p[1], p[2]}
						e.a.Apply(x)
						r.Step(1)
						for j := range x {
							tol := 1e-12 * (1 + math.Abs(w1[j]) + math.Abs(w2[j]) + math.Abs(w1[0]) + math.Abs(w1[1]) + math.Abs(w1[2]))
							if op.name[0] != 'R' {
								tol = 1e-14 * math.Max(math.Abs(e.w[j]), math.Abs(p[j]))
							}
							r.Check(math.Abs(x[j]-e.w[j]) <= tol, "form %d maps %v to %v, expected %v", k, p, x, e.w)
						}
					}
				})
			})
		}
	}
	surfaces(c)
	// The value that is drawn may already be present
	c.bound("drawing over grids on which the drawn value is already present at the first node, the last node, both, every other node or all nodes")
	for pre := 0; pre < 5; pre++ {
		for _, dims := range [][]int{{7, 6}, {6, 5, 4}} {
			for si := range shps {
				for _, val := range []float64{1, 0, math.NaN(), math.Inf(1)} {
					pre, dims, s, val := pre, dims, shps[si], val
					c.Case(fmt.Sprintf("present/%d/%s/%s/%g", pre, s.name, ints(dims), val), func(r *Run) {
						g := pfutil.NewGrid(cloneI(dims))
						n := len(g.Data)
						set := make([]bool, n)
						for i := range g.Data {
							g.Data[i] = -3
							if pre == 4 || (pre == 3 && i%2 == 0) || (i == 0 && (pre == 0 || pre == 2)) || (i == n-1 && (pre == 1 || pre == 2)) {
								g.Data[i], set[i] = val, true
							}
						}
						a := pfutil.Translation([]float64{-2.6, -2.3, -1.7}[:len(dims)])
						pfutil.Draw(s.mk(len(dims)), &g, &a, val)
						for i := range g.Data {
							p := refPos(dims, i)
							v := [3]float64{}
							for k, sh := range []float64{2.6, 2.3, 1.7}[:len(dims)] {
								v[k] = float64(p[k]) - sh
							}
							in, dist := s.inside(v, len(dims))
							r.Step(1)
							if dist < 1e-9 {
								continue
							}
							want := -3.0
							if in || set[i] {
								want = val
							}
							r.Check(g.Data[i] == want || (want != want && g.Data[i] != g.Data[i]), "pixel %v is %g after drawing, expected %g", p, g.Data[i], want)
						}
						r.ObserveF("present", g.Data)
					})
				}
			}
		}
	}
	// The bounding box contains the shape
	for si := range shps {
		for dim := 2; dim <= 3; dim++ {
			s, dim := shps[si], dim
			c.Case(fmt.Sprintf("bbox/%s/%dD", s.name, dim), func(r *Run) {
				sh := s.mk(dim)
				bb := sh.BBox()
				product([]int{25, 25, 25}, func(t []int) {
					p := [3]float64{}
					for k := 0; k < dim; k++ {
						p[k] = (float64(t[k]) - 12) / 3
					}
					if dim == 2 && t[2] > 0 {
						return
					}
					r.Step(1)
					in, dist := s.inside(p, dim)
					if dist < 1e-9 {
						return
					}
					r.Check(sh.InteriorPoint(p[:dim]) == in, "interior test at %v is %v", p, !in)
					if in {
						for k := 0; k < dim; k++ {
							r.Check(p[k] >= float64(bb.Min[k]) && p[k] <= float64(bb.Max[k]), "interior point %v outside the bounding box %v", p, bb)
						}
					}
				})
				r.Observe("bbox", s.name, dim, bb)
			})
		}
	}
}

// crossShape is a user supplied shape: two bars that cross each other away from the origin
type crossShape struct{}

func crossInside(p [3]float64, dim int) (bool, float64) {
	q := [3]float64{p[0] - 3.4, p[1] - 2.7, p[2] - 2.1}
	dist := math.Inf(1)
	bar := func(h [3]float64) bool {
		in := true
		for k := 0; k < dim; k++ {
			m := h[k] - math.Abs(q[k])
			in = in && m > 0
			dist = math.Min(dist, math.Abs(m))
		}
		return in
	}
	a := bar([3]float64{7.3, 1.6, 3.2})
	b := bar([3]float64{1.1, 5.2, 4.4})
	return a || b, dist
}

func (s *crossShape) InteriorPoint(p []float64) bool {
	v := [3]float64{}
	copy(v[:], p)
	in, _ := crossInside(v, len(p))
	return in
}

func (s *crossShape) BBox() pfutil.BoundingBox {
	return pfutil.BoundingBox{Min: []int{-4, -3, -3}, Max: []int{11, 8, 7}}
}

// waveKernel is a user supplied kernel whose sum is negative and whose values have both signs
type waveKernel struct{}

func (k *waveKernel) Cutoff() int { return 1 }
func (k *waveKernel) Value(x []int) float64 {
	v := -1.75
	for i, xi := range x {
		v += 0.3*float64(i+1)*float64(xi) + 0.2*float64(xi*xi)
	}
	return v
}

// coneKernel is a non-symmetric user supplied kernel
type coneKernel struct{ cut int }

func (k *coneKernel) Cutoff() int { return k.cut }
func (k *coneKernel) Value(x []int) float64 {
	v := 1.0
	for i, xi := range x {
		v *= 1.0 + 0.3*float64(xi*(i+1)) + 0.45*float64(xi*xi)
	}
	return v
}

func pixelOps(c *Ctx) {
	m2, m3 := 4, 3
	pts := 2
	if c.Thorough {
		m2, m3, pts = 6, 4, 3
	}
	if c.Deep {
		m2, m3 = 8, 5
	}
	c.bound("blur: all 2D domains with sides 1..%d, all 3D domains with sides 1..%d; every unit impulse (basis) plus a dense field; box kernels of width 0..4, an asymmetric user kernel and one with a negative sum; real and complex storage", m2, m3)
	c.bound("nearest-point tessellation: the same domains, every ordered list of 1..%d generator nodes", pts)
	wideDims, manyDims := [][]int{{5, 17}, {23, 2}, {1, 30}}, [][]int{{20, 20}, {1, 500}, {300, 2}, {7, 6, 9}}
	wide := map[string]bool{}
	for _, d := range append([][]int{{3, 4}, {2, 3, 2}}, wideDims...) {
		wide[ints(d)] = true
	}
	grid := func(dims []int) {
		n := prod(dims)
		kernels := []pfutil.BlurKernel{}
		for w := 0; w <= 4; w++ {
			kernels = append(kernels, &pfutil.BoxKernel{Width: w})
		}
		kernels = append(kernels, &coneKernel{1}, &coneKernel{2}, &waveKernel{})
		if wide[ints(dims)] {
			for w := 5; w <= 13; w++ {
				kernels = append(kernels, &pfutil.BoxKernel{Width: w})
			}
		}
		for ki := range kernels {
			ki := ki
			if len(dims) == 3 && (ki == 3 || ki == 4) && n > 18 && !c.Thorough {
				continue
			}
			c.Case(fmt.Sprintf("blur/%s/kernel%d", ints(dims), ki), func(r *Run) {
				k := kernels[ki]
				for _, imp := range append(spots(n), n, n+1) {
					x := make([]float64, n)
					if imp < n {
						x[imp] = 1
					} else if imp == n+1 { // opposite values that cancel exactly
						x[0], x[n-1] = 1, -1
					} else {
						x = realOf(genericField(n, 4))
					}
					want := make([]float64, n)
					kint := 0.0
					ext := make([]int, len(dims))
					for j := range ext {
						ext[j] = 2*k.Cutoff() + 1
					}
					product(ext, func(t []int) {
						s := cloneI(t)
						for j := range s {
							s[j] -= k.Cutoff()
						}
						v := k.Value(s)
						if _, box := kernels[ki].(*pfutil.BoxKernel); box {
							w := kernels[ki].(*pfutil.BoxKernel).Width
							rad := w
							if w/2+1 < rad {
								rad = w/2 + 1
							}
							inside := 1.0
							for j := range s {
								if s[j] > rad || s[j] < -rad {
									inside = 0
								}
							}
							r.Check(k.Cutoff() >= rad && v == inside, "box kernel of width %d has the cutoff %d and the value %g at %v", w, k.Cutoff(), v, s)
						}
						kint += v
						for i := 0; i < n; i++ {
							p := refPos(dims, i)
							for j := range p {
								p[j] = mod(p[j]+s[j], dims[j])
							}
							want[i] += v * x[refIndex(dims, p)]
						}
					})
					lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
					for i := range want {
						want[i] /= kint
						lo, hi, sum = math.Min(lo, x[i]), math.Max(hi, x[i]), sum+x[i]
					}
					got := cloneF(x)
					pfutil.Blur(&pfutil.RealSlice{Data: got}, dims, k)
					r.Step(2)
					r.closeF("blurred field", got, want, 1e-10)
					gsum := 0.0
					for i := range got {
						gsum += got[i]
						if _, box := kernels[ki].(*pfutil.BoxKernel); box {
							r.Check(got[i] >= lo-1e-10 && got[i] <= hi+1e-10, "blurred value %g at node %d is outside the range [%g, %g]", got[i], i, lo, hi)
						}
					}
					r.close1("integral after blurring", gsum, sum, 1e-8)
					cd := make([]complex128, n)
					for i := range cd {
						cd[i] = complex(x[i], float64(i))
					}
					pfutil.Blur(&pfutil.RealPartSlice{Data: cd}, dims, k)
					r.closeF("blurred real part", realOf(cd), want, 1e-10)
					for i := range cd {
						r.Check(imag(cd[i]) == float64(i), "blurring the real part changed the imaginary part of node %d", i)
					}
					r.ObserveF("blur"+ints(dims), got)
				}
			})
		}
		if n <= 125 {
			c.Case("blur-nonfinite/"+ints(dims), func(r *Run) {
				for _, bad := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
					for _, imp := range spots(n) {
						x := make([]float64, n)
						for i := range x {
							x[i] = 2.5
						}
						x[imp] = bad
						pfutil.Blur(&pfutil.RealSlice{Data: x}, dims, &coneKernel{1})
						q := refPos(dims, imp)
						for i := range x {
							near := true
							for k, v := range refPos(dims, i) {
								d := mod(v-q[k], dims[k])
								near = near && (d <= 1 || d == dims[k]-1)
							}
							r.Step(1)
							if near {
								r.Check(math.IsNaN(x[i]) || math.IsInf(x[i], 0), "node %d averages over the value %g at node %d but is %g", i, bad, imp, x[i])
							} else {
								r.Check(math.Abs(x[i]-2.5) < 1e-12, "node %d is away from the value %g at node %d but is %g", i, bad, imp, x[i])
							}
						}
					}
				}
			})
		}
		maxPts := pts
		if n > 16 && maxPts > 2 {
			maxPts = 2
		}
		sp := spots(n)
		sequences(len(sp), 1, maxPts, func(seq []int) {
			seq = cloneI(seq)
			for i := range seq {
				seq[i] = sp[seq[i]]
			}
			c.Case(fmt.Sprintf("voronoi/%s/%v", ints(dims), seq), func(r *Run) { checkVoronoi(r, dims, seq) })
		})
	}
	shapesB(c, m2, m3, grid)
	for _, d := range wideDims {
		grid(d)
	}
	c.bound("box kernels of width 5..13 on %v; on %v the tessellation with the generators at every k-th node for k in 1..60, in ascending and descending order", wideDims, manyDims)
	for _, d := range manyDims {
		dims := d
		n := prod(dims)
		for k := 1; k <= 60; k++ {
			up, down := []int{}, []int{}
			for i := k / 2; i < n; i += k {
				up = append(up, i)
				down = append([]int{i}, down...)
			}
			c.Case(fmt.Sprintf("voronoi/%s/every %d", ints(dims), k), func(r *Run) {
				checkVoronoi(r, dims, up)
				checkVoronoi(r, dims, down)
			})
		}
		for _, pts := range [][]int{{0}, {n - 1}, {n / 2}, {n / 3, n / 5}} {
			pts := pts
			c.Case(fmt.Sprintf("voronoi/%s/%v", ints(dims), pts), func(r *Run) { checkVoronoi(r, dims, pts) })
		}
	}
	// Rotation of a 2D image: every pixel shows a source pixel within one pixel of the exact pre-image
	for _, dims := range [][]int{{4, 4}, {5, 5}, {6, 4}, {3, 7}, {16, 16}, {9, 20}, {33, 32}} {
		for q := -20; q <= 20; q++ {
			dims, ang := dims, float64(q)*math.Pi/8
			c.Case(fmt.Sprintf("rotate/%s/%d*pi/8", ints(dims), q), func(r *Run) {
				g := pfutil.NewGrid(cloneI(dims))
				for i := range g.Data {
					g.Data[i] = float64(i)
				}
				g.Rotate2D(ang)
				r.Step(1)
				for i := range g.Data {
					p := refPos(dims, i)
					x, y := float64(p[0]-dims[0]/2), float64(p[1]-dims[1]/2)
					// The library rotates (1,0) to (0,-1) for +pi/2 (fixed by its own test)
					sx := x*math.Cos(ang) - y*math.Sin(ang)
					sy := y*math.Cos(ang) + x*math.Sin(ang)
					src := int(math.Round(g.Data[i]))
					r.Check(src >= 0 && src < len(g.Data), "pixel %v holds %g", p, g.Data[i])
					q := refPos(dims, src)
					for k, e := range []float64{sx + float64(dims[0]/2), sy + float64(dims[1]/2)} {
						d := math.Mod(float64(q[k])-e, float64(dims[k]))
						if d < -float64(dims[k])/2 {
							d += float64(dims[k])
						}
						if d > float64(dims[k])/2 {
							d -= float64(dims[k])
						}
						r.Check(math.Abs(d) < 1+1e-9, "pixel %v shows source pixel %v, the exact pre-image is (%.3f,%.3f)", p, q, sx+float64(dims[0]/2), sy+float64(dims[1]/2))
					}
				}
				r.ObserveF("rot"+ints(dims), g.Data)
			})
		}
	}
}

// checkVoronoi: every node belongs to a generator at the smallest periodic distance
func checkVoronoi(r *Run, dims, seq []int) {
	n := prod(dims)
	data := make([]int, n)
	for i := range data {
		data[i] = -5
	}
	pfutil.Voronoi(cloneI(seq), data, dims)
	r.Step(1)
	for i := range data {
		best := math.MaxInt32
		d := make([]int, len(seq))
		for s := range seq {
			a, b := refPos(dims, i), refPos(dims, seq[s])
			for k := range a {
				diff := mod(a[k]-b[k], dims[k])
				if dims[k]-diff < diff {
					diff = dims[k] - diff
				}
				d[s] += diff * diff
			}
			if d[s] < best {
				best = d[s]
			}
		}
		r.Check(data[i] >= 0 && data[i] < len(seq), "node %d was assigned to %d", i, data[i])
		r.Check(d[data[i]] == best, "node %v was assigned to generator %d at squared distance %d, the closest is at %d", refPos(dims, i), data[i], d[data[i]], best)
	}
	r.Observe("vor", dims, data)
}

// surfaces draws shapes whose surface passes exactly through nodes: a box contains its surface, a ball does not.
// All numbers are exact in binary, such that there is no rounding.
func surfaces(c *Ctx) {
	c.bound("surfaces: boxes with half diagonals and balls with radii 0, 0.5, 1, 1.5, 2, 2.5, 5 drawn at nodes, between nodes and scaled by 0.5 and 2: nodes exactly on the surface belong to the box but not to the ball")
	sizes := []float64{0, 0.5, 1, 1.5, 2, 2.5, 5}
	for _, dims := range [][]int{{12, 11}, {7, 6, 5}} {
		for si, size := range sizes {
			for shift := 0; shift < 4; shift++ {
				for _, scale := range []float64{1, 0.5, 2} {
					for kind := 0; kind < 3; kind++ {
						dims, size, scale, kind := dims, size, scale, kind
						dim := len(dims)
						half := []float64{size, sizes[(si+2)%len(sizes)], sizes[(si+3)%len(sizes)]}
						tr := []float64{-5, -5, -2}
						if shift&1 == 1 {
							tr[0] = -4.5
						}
						if shift&2 == 2 {
							tr[1], tr[2] = -3.5, -2.5
						}
						c.Case(fmt.Sprintf("surface/%d/%s/%g/%v/%g", kind, ints(dims), size, tr, scale), func(r *Run) {
							var sh pfutil.Shape = &pfutil.Ball{Radius: size}
							if kind == 1 {
								sh = &pfutil.Box{Diagonal: []float64{2 * half[0], 2 * half[1], 2 * half[2]}[:dim]}
							} else if kind == 2 {
								sh = &pfutil.Box{Diagonal: []float64{2 * half[2], 2 * half[0], 2 * half[1]}[:dim]}
							}
							g := pfutil.NewGrid(cloneI(dims))
							for i := range g.Data {
								g.Data[i] = 0.25
							}
							a := pfutil.Translation(tr[:dim])
							a.Append(pfutil.Scaling([]float64{scale, scale, scale}))
							pfutil.Draw(sh, &g, &a, 3)
							r.Step(1)
							on := 0
							for i, v := range g.Data {
								p := refPos(dims, i)
								in, sq := true, 0.0
								for k := 0; k < dim; k++ {
									x := scale * (float64(p[k]) + tr[k])
									h := half[k]
									if kind == 2 {
										h = half[(k+2)%3]
									}
									sq += x * x
									if kind > 0 && math.Abs(x) > h {
										in = false
									}
									if kind > 0 && math.Abs(x) == h {
										on++
									}
								}
								if kind == 0 {
									in = sq < size*size
									if sq == size*size {
										on++
									}
								}
								r.Check(v == map[bool]float64{true: 3, false: 0.25}[in], "node %v is %g after drawing, inside is %v", p, v, in)
							}
							r.ObserveF("surface", g.Data)
							if on > 0 {
								r.Outcome("nodes on the surface")
							}
						})
					}
				}
			}
		}
	}
}

// isLong tells the longDomains from the others
func isLong(dims []int) bool {
	for _, d := range dims {
		if d > 200 {
			return true
		}
	}
	return false
}
