package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

func init() {
	register("P01", "model_checking", crystalGeometry)
	register("P02", "model_checking", modeExpansion)
	register("P03", "model_checking", crystalFields)
}

// refEquiv returns the orbit of (h,k,l) under permutations and sign changes
func refEquiv(m pfc.Miller) map[[3]int]bool {
	out := map[[3]int]bool{}
	x := [3]int{m.H, m.K, m.L}
	permutations(3, func(p []int) {
		product([]int{2, 2, 2}, func(s []int) {
			var y [3]int
			for i := range y {
				y[i] = x[p[i]] * (1 - 2*s[i])
			}
			out[y] = true
		})
	})
	return out
}

func orbit(m pfc.Miller, dim int) [][3]int {
	out := [][3]int{}
	for k := range refEquiv(m) {
		if dim == 3 || k[2] == 0 {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func invMat(a [][]float64) [][]float64 {
	n := len(a)
	out := make([][]float64, n)
	for i := range out {
		out[i] = make([]float64, n)
	}
	for j := 0; j < n; j++ {
		e := make([]float64, n)
		e[j] = 1
		for i, v := range solveDense(a, e) {
			out[i][j] = v
		}
	}
	return out
}

func rows(m *mat.Dense) [][]float64 {
	r, c := m.Dims()
	out := make([][]float64, r)
	for i := range out {
		out[i] = make([]float64, c)
		for j := range out[i] {
			out[i][j] = m.At(i, j)
		}
	}
	return out
}

func det(a [][]float64) float64 {
	if len(a) == 2 {
		return a[0][0]*a[1][1] - a[0][1]*a[1][0]
	}
	return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
}

// intCells enumerates all non-singular integer matrices with entries in -lim..lim
func intCells(dim, lim int, f func(data []float64)) {
	n := make([]int, dim*dim)
	for i := range n {
		n[i] = 2*lim + 1
	}
	product(n, func(t []int) {
		d := make([]float64, len(t))
		for i := range t {
			d[i] = float64(t[i] - lim)
		}
		if det(rows(mat.NewDense(dim, dim, d))) != 0 {
			f(d)
		}
	})
}

func crystalGeometry(c *Ctx) {
	lim := 4
	if c.Thorough {
		lim = 8
	}
	if c.Deep {
		lim = 14
	}
	c.bound("all Miller indices with components -%d..%d: orbit under permutations and signs in 3D and 2D", lim, lim)
	for h := -lim; h <= lim; h++ {
		for k := -lim; k <= lim; k++ {
			h, k := h, k
			c.Case(fmt.Sprintf("miller/%d,%d", h, k), func(r *Run) {
				for l := -lim; l <= lim; l++ {
					m := pfc.Miller{H: h, K: k, L: l}
					want := refEquiv(m)
					got := pfc.EquivalentMiller(m)
					seen := map[[3]int]bool{}
					for _, e := range got {
						key := [3]int{e.H, e.K, e.L}
						r.Check(want[key], "%v is reported as equivalent to %v", key, m)
						r.Check(!seen[key], "%v is listed twice for %v", key, m)
						seen[key] = true
						r.Check(e.At(0) == e.H && e.At(1) == e.K && e.At(2) == e.L, "components of %v", e)
						r.Check(e.Equal(m) == (e.H == h && e.K == k && e.L == l), "equality of %v and %v", e, m)
					}
					r.Check(len(seen) == len(want), "%d equivalent indices of %v, expected %d", len(seen), m, len(want))
					r.Check(pfc.NumEquivalent3D(m) == len(want), "NumEquivalent3D(%v)=%d, expected %d", m, pfc.NumEquivalent3D(m), len(want))
					r.Check(pfc.NumEquivalent(m, 3) == len(want), "NumEquivalent(%v,3)=%d, expected %d", m, pfc.NumEquivalent(m, 3), len(want))
					w2 := len(orbit(m, 2))
					r.Check(pfc.NumEquivalent2D(m) == w2 && pfc.NumEquivalent(m, 2) == w2, "NumEquivalent2D(%v)=%d, expected %d", m, pfc.NumEquivalent2D(m), w2)
					signs := map[[3]int]bool{}
					product([]int{2, 2, 2}, func(s []int) {
						signs[[3]int{h * (1 - 2*s[0]), k * (1 - 2*s[1]), l * (1 - 2*s[2])}] = true
					})
					ns := pfc.EquivalentMillerNoPermutations(m)
					r.Check(len(ns) == len(signs), "%d sign variants of %v, expected %d", len(ns), m, len(signs))
					for _, e := range ns {
						key := [3]int{e.H, e.K, e.L}
						r.Check(signs[key], "sign variant %v of %v is wrong or repeated", key, m)
						delete(signs, key)
					}
					r.Step(6)
					r.Observe("orbit", h, k, l, len(want), w2)
				}
			})
		}
	}
	for _, dim := range []int{-1, 0, 1, 4} {
		dim := dim
		c.Case(fmt.Sprintf("dimension/%d", dim), func(r *Run) {
			p, _ := panics(func() { pfc.NumEquivalent(pfc.Miller{H: 1}, dim) })
			r.Check(p, "dimension %d is accepted", dim)
		})
	}

	l2, l3 := 2, 1
	if c.Thorough {
		l2 = 3
	}
	if c.Deep {
		l2 = 5
	}
	c.bound("all non-singular integer cells with entries -%d..%d in 2D and -%d..%d in 3D: volume, reciprocal cell, hkl vectors and their first order change for every elementary change of the cell", l2, l2, l3, l3)
	checkCell := func(r *Run, cell pfc.Cell, dim int) {
		cv := rows(cell.CellVec)
		r.close1("volume", cell.Volume(), math.Abs(det(cv)), 1e-10)
		rec := cell.Reciprocal()
		// defining relation: a_i . b_j = 2*pi*delta_ij
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				s := 0.0
				for k := 0; k < dim; k++ {
					s += cv[k][i] * rec.CellVec.At(k, j)
				}
				want := 0.0
				if i == j {
					want = 2 * math.Pi
				}
				r.close1(fmt.Sprintf("a%d.b%d", i, j), s, want, 1e-9)
			}
		}
		lim := 1
		n := []int{2*lim + 1, 2*lim + 1, 2*lim + 1}
		inv := invMat(cv)
		product(n[:dim], func(t []int) {
			m := pfc.Miller{H: t[0] - lim, K: t[1] - lim}
			if dim == 3 {
				m.L = t[2] - lim
			}
			g := rec.HKLVector(m)
			r.Check(len(g) == dim, "hkl vector has %d components", len(g))
			// defining relation: g.a_i = 2*pi*m_i
			for i := 0; i < dim; i++ {
				s := 0.0
				for k := 0; k < dim; k++ {
					s += g[k] * cv[k][i]
				}
				r.close1(fmt.Sprintf("g%v.a%d", m, i), s, 2*math.Pi*float64(m.At(i)), 1e-9)
			}
		})
		for e := 0; e < dim*dim; e++ {
			d := make([]float64, dim*dim)
			d[e] = []float64{0.01, 1e-7, 3}[e%3]
			sc := d[e] / 0.01
			ch := rec.CellChange(mat.NewDense(dim, dim, cloneF(d)))
			// first order: B = 2*pi*A^-T, dB = -2*pi*A^-T*dA^T*A^-T
			want := make([][]float64, dim)
			for i := range want {
				want[i] = make([]float64, dim)
				for j := range want[i] {
					for k := 0; k < dim; k++ {
						for l := 0; l < dim; l++ {
							want[i][j] -= 2 * math.Pi * inv[k][i] * d[l*dim+k] * inv[j][l]
						}
					}
				}
			}
			for i := range want {
				for j := range want {
					r.close1(fmt.Sprintf("change of the reciprocal cell (%d,%d) for a change of component %d", i, j, e), ch.At(i, j)/sc, want[i][j]/sc, 1e-10)
				}
			}
			m := pfc.Miller{H: 1, K: -2, L: 3}
			g := rec.ChangeHKLVector(m, mat.NewDense(dim, dim, cloneF(d)))
			for i := 0; i < dim; i++ {
				s := 0.0
				for j := 0; j < dim; j++ {
					s += want[i][j] * float64(m.At(j))
				}
				r.close1("change of the hkl vector", g[i]/sc, s/sc, 1e-10)
			}
			r.Step(2)
		}
		r.ObserveF("rec", rec.CellVec.RawMatrix().Data)
		r.Step(4)
	}
	intCells(2, l2, func(d []float64) {
		c.Case(fmt.Sprintf("cell2/%v", d), func(r *Run) { checkCell(r, pfc.Cell{CellVec: mat.NewDense(2, 2, cloneF(d))}, 2) })
	})
	cnt := 0
	intCells(3, l3, func(d []float64) {
		cnt++
		c.Case(fmt.Sprintf("cell3/%v", d), func(r *Run) { checkCell(r, pfc.Cell{CellVec: mat.NewDense(3, 3, cloneF(d))}, 3) })
	})
	c.bound("%d integer cells in 3D; the built-in cells for 6 lattice parameters", cnt)
	for _, a := range []float64{0.5, 1, 3, 4.05, 7, 64} {
		a := a
		c.Case(fmt.Sprintf("builtin/%g", a), func(r *Run) {
			for _, b := range []struct {
				name string
				cell pfc.Cell
				dim  int
				vol  float64
				near int     // number of nearest neighbours
				dist float64 // and their distance
			}{
				{"SC2D", pfc.SC2D(a), 2, a * a, 4, a},
				{"SC3D", pfc.SC3D(a), 3, a * a * a, 6, a},
				{"FCC", pfc.FCC(a), 3, a * a * a / 4, 12, a / math.Sqrt(2)},
				{"BCC", pfc.BCC(a), 3, a * a * a / 2, 8, a * math.Sqrt(3) / 2},
			} {
				checkCell(r, b.cell, b.dim)
				r.close1("volume of "+b.name, b.cell.Volume(), b.vol, 1e-12)
				cnt := 0
				n := []int{7, 7, 7}
				best := math.Inf(1)
				product(n[:b.dim], func(t []int) {
					d := 0.0
					zero := true
					for i := 0; i < b.dim; i++ {
						x := 0.0
						for j := 0; j < b.dim; j++ {
							x += b.cell.CellVec.At(i, j) * float64(t[j]-3)
							zero = zero && t[j] == 3
						}
						d += x * x
					}
					d = math.Sqrt(d)
					if zero {
						return
					}
					best = math.Min(best, d)
					if math.Abs(d-b.dist) < 1e-9*a {
						cnt++
					}
				})
				r.close1("nearest neighbour distance of "+b.name, best, b.dist, 1e-9)
				r.Check(cnt == b.near, "%s has %d nearest neighbours, expected %d", b.name, cnt, b.near)
			}
			tri := pfc.Triangular2D(a)
			checkCell(r, tri, 2)
		})
	}
	// Density of lattice points in a plane of a simple cubic lattice: one over the area of the smallest
	// parallelogram of lattice vectors in the plane
	hmax := 3
	if c.Deep {
		hmax = 4
	}
	c.bound("density of all planes with indices from %d to %d", -hmax, hmax)
	for h := -hmax; h <= hmax; h++ {
		h := h
		c.Case(fmt.Sprintf("density/%d", h), func(r *Run) {
			product([]int{2*hmax + 1, 2*hmax + 1}, func(t []int) {
				k, l := t[0]-hmax, t[1]-hmax
				if h == 0 && k == 0 && l == 0 {
					return
				}
				in := [][3]int{}
				for x := -hmax; x <= hmax; x++ {
					for y := -hmax; y <= hmax; y++ {
						for z := -hmax; z <= hmax; z++ {
							if h*x+k*y+l*z == 0 && (x != 0 || y != 0 || z != 0) {
								in = append(in, [3]int{x, y, z})
							}
						}
					}
				}
				best := math.Inf(1)
				for _, a := range in {
					for _, b := range in {
						cr := []int{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
						if n := cr[0]*cr[0] + cr[1]*cr[1] + cr[2]*cr[2]; n > 0 {
							best = math.Min(best, math.Sqrt(float64(n)))
						}
					}
				}
				m := pfc.Miller{H: h, K: k, L: l}
				r.close1(fmt.Sprintf("density of the plane %v", m), pfc.CubicUnitCellDensity(m), 1/best, 1e-12)
				r.ObserveF("density", []float64{best})
				r.Step(1)
			})
		})
	}
	c.bound("the triangular cell for four lattice parameters")
	for _, a := range []float64{1, 4, 7.5, 64} {
		a := a
		c.Case(fmt.Sprintf("triangular/%g", a), func(r *Run) {
			cell := pfc.Triangular2D(a).CellVec
			cnt := 0
			best := math.Inf(1)
			product([]int{7, 7}, func(t []int) {
				if t[0] == 3 && t[1] == 3 {
					return
				}
				n, m := float64(t[0]-3), float64(t[1]-3)
				d := math.Hypot(cell.At(0, 0)*n+cell.At(0, 1)*m, cell.At(1, 0)*n+cell.At(1, 1)*m)
				best = math.Min(best, d)
				if math.Abs(d-a) < 1e-9*a {
					cnt++
				}
			})
			r.Step(1)
			r.Check(cnt == 6 && best > a*(1-1e-9), "a point of the triangular lattice with lattice parameter %g has %d neighbours at that distance (expected 6), the closest one at %g", a, cnt, best)
		})
	}
}

// zeroSums counts the ways to pick powers[i] members (with repetition, ordered) from sets[i] with vanishing sum
func zeroSums(sets [][][3]int, powers []int) float64 {
	cur := map[[3]int]float64{{0, 0, 0}: 1}
	for i, p := range powers {
		for k := 0; k < p; k++ {
			next := map[[3]int]float64{}
			for s, n := range cur {
				for _, v := range sets[i] {
					next[[3]int{s[0] + v[0], s[1] + v[1], s[2] + v[2]}] += n
				}
			}
			cur = next
		}
	}
	return cur[[3]int{0, 0, 0}]
}

type recExplorer struct {
	pts  [][]float64
	next int
	seen int
	best float64
}

func (e *recExplorer) Next() []float64 {
	if e.next == len(e.pts) {
		return nil
	}
	e.next++
	return cloneF(e.pts[e.next-1])
}
func (e *recExplorer) OnMinimizationFinished(res *optimize.Result) {
	e.seen++
	e.best = math.Min(e.best, res.Location.F)
}

func modeExpansion(c *Ctx) {
	deg := 5
	if c.Thorough {
		deg = 9
	}
	c.bound("quadrature: all monomials with exponents up to 2n-1 for n=1..%d in 2D and n=1..3 in 3D; every integrand is evaluated inside the unit cell only", deg)
	for n := 1; n <= deg; n++ {
		n := n
		c.Case(fmt.Sprintf("quad2/%d", n), func(r *Run) {
			product([]int{2 * n, 2 * n}, func(p []int) {
				got := pfc.QuadSquare(func(x, y float64) float64 {
					r.Check(x >= 0 && x <= 1 && y >= 0 && y <= 1, "integrand evaluated at (%g, %g)", x, y)
					return math.Pow(x, float64(p[0])) * math.Pow(y, float64(p[1]))
				}, n)
				r.close1(fmt.Sprintf("integral of x^%d y^%d", p[0], p[1]), got, 1/float64((p[0]+1)*(p[1]+1)), 1e-12)
				r.Step(1)
			})
		})
		if n > 3 {
			continue
		}
		c.Case(fmt.Sprintf("quad3/%d", n), func(r *Run) {
			product([]int{2 * n, 2 * n, 2 * n}, func(p []int) {
				got := pfc.QuadCube(func(x, y, z float64) float64 {
					r.Check(x >= 0 && x <= 1 && y >= 0 && y <= 1 && z >= 0 && z <= 1, "integrand evaluated at (%g, %g, %g)", x, y, z)
					return math.Pow(x, float64(p[0])) * math.Pow(y, float64(p[1])) * math.Pow(z, float64(p[2]))
				}, n)
				r.close1(fmt.Sprintf("integral of x^%d y^%d z^%d", p[0], p[1], p[2]), got, 1/float64((p[0]+1)*(p[1]+1)*(p[2]+1)), 1e-12)
				r.Step(1)
			})
		})
	}

	all2 := []pfc.Miller{{H: 0}, {H: 1}, {K: 1}, {H: 1, K: 1}, {H: 1, K: -1}, {H: 2}, {H: 2, K: 1}, {H: -1, K: 2}, {H: 2, K: 2}}
	all3 := []pfc.Miller{{H: 1}, {L: 1}, {H: 1, K: 1}, {H: 1, K: 0, L: -1}, {H: 1, K: 1, L: 1}, {H: 2}, {H: 2, K: 1}, {H: 1, K: 2, L: 1}, {H: 1, K: 2, L: 3}}
	sc2, sc3 := pfc.SC2D(4), pfc.SC3D(4)
	c.bound("mode densities on a 5^dim grid of positions for %d/%d modes in 2D/3D; unit cell integrals of all pairs of modes and powers with sum <= 4 (2D) and of all modes and selected pairs (3D)", len(all2), len(all3))
	for d, list := range map[int][]pfc.Miller{2: all2, 3: all3} {
		d, list := d, list
		c.Case(fmt.Sprintf("density/%dd", d), func(r *Run) {
			ms := pfc.ModeSolver{Miller: list, ReciprocalCell: sc2.Reciprocal()}
			if d == 3 {
				ms.ReciprocalCell = sc3.Reciprocal()
			}
			n := []int{5, 5, 5}
			for mode, m := range list {
				mode := mode
				orb := orbit(m, d)
				product(n[:d], func(t []int) {
					pos := make([]float64, d)
					for i := range pos {
						pos[i] = -0.3 + 0.37*float64(t[i])
					}
					want := 0.0
					for _, g := range orb {
						a := 0.0
						for i := range pos {
							a += pos[i] * float64(g[i])
						}
						want += math.Cos(2 * math.Pi * a)
					}
					r.close1(fmt.Sprintf("density of mode %v at %v", list[mode], pos), ms.ModeDensity(mode, pos), want, 1e-10)
					r.Step(1)
				})
			}
		})
	}
	integral := func(d int, modes []pfc.Miller, powers []int) func(r *Run) {
		return func(r *Run) {
			// an order that resolves the highest harmonic of the integrand
			order := 16
			for i, m := range modes {
				big := 0
				for _, v := range []int{m.H, m.K, m.L, -m.H, -m.K, -m.L} {
					if v > big {
						big = v
					}
				}
				order += 3 * big * powers[i]
			}
			ms := pfc.ModeSolver{Miller: modes, ReciprocalCell: sc2.Reciprocal()}
			if d == 3 {
				ms.ReciprocalCell = sc3.Reciprocal()
			}
			sets := [][][3]int{}
			for _, m := range modes {
				sets = append(sets, orbit(m, d))
			}
			want := zeroSums(sets, powers)
			r.close1(fmt.Sprintf("integral of %v^%v", modes, powers), ms.UnitcellIntegral(powers, order), want, 1e-7)
			r.Step(1)
			r.Observe(modes, powers, want)
		}
	}
	for _, m1 := range all2 {
		for _, m2 := range all2 {
			product([]int{5, 5}, func(p []int) {
				if p[0]+p[1] <= 4 {
					c.Case(fmt.Sprintf("integral2/%v^%d %v^%d", m1, p[0], m2, p[1]), integral(2, []pfc.Miller{m1, m2}, p))
				}
			})
		}
	}
	lim3 := 2
	if c.Thorough {
		lim3 = 4
	}
	for i, m1 := range all3 {
		for p := 0; p <= 4; p++ {
			if len(orbit(m1, 3)) > 24 && p > 2 && !c.Thorough {
				continue
			}
			c.Case(fmt.Sprintf("integral3/%v^%d", m1, p), integral(3, []pfc.Miller{m1}, []int{p}))
		}
		for j, m2 := range all3 {
			if i >= 6 || j >= 6 {
				continue
			}
			product([]int{3, 3}, func(p []int) {
				if p[0]+p[1] <= lim3+1 {
					c.Case(fmt.Sprintf("integral3/%v^%d %v^%d", m1, p[0], m2, p[1]), integral(3, []pfc.Miller{m1, m2}, p))
				}
			})
		}
	}
	c.Case("integral/misuse", func(r *Run) {
		ms := pfc.ModeSolver{Miller: all2[:2], ReciprocalCell: sc2.Reciprocal()}
		for n := 0; n < 4; n++ {
			if n == 2 {
				continue
			}
			p, _ := panics(func() { ms.UnitcellIntegral(make([]int, n), 4) })
			r.Check(p, "%d powers for two modes are accepted", n)
		}
	})

	c.bound("starting points: all sign combinations of 1..5 amplitudes exactly once; single point explorer")
	for n := 1; n <= 5; n++ {
		n := n
		c.Case(fmt.Sprintf("octants/%d", n), func(r *Run) {
			x0 := make([]float64, n)
			for i := range x0 {
				x0[i] = 0.5 + float64(i)
			}
			e := pfc.HyperOctantExplorer{X0: cloneF(x0)}
			seen := map[string]bool{}
			for x := e.Next(); x != nil; x = e.Next() {
				r.Step(1)
				r.Check(len(x) == n, "starting point %v", x)
				for i := range x {
					r.Check(math.Abs(x[i]) == x0[i], "starting point %v for %v", x, x0)
				}
				r.Check(!seen[fmt.Sprint(x)], "%v is tried twice", x)
				seen[fmt.Sprint(x)] = true
				e.OnMinimizationFinished(nil)
				for i := range x {
					x[i] = 99 // the optimizer may overwrite its starting point
				}
			}
			r.Check(len(seen) == 1<<uint(n), "%d starting points, expected %d", len(seen), 1<<uint(n))
			s := pfc.SinglePointExplorer{X0: cloneF(x0)}
			x := s.Next()
			r.closeF("single starting point", x, x0, 0)
			for i := 0; i < 3; i++ {
				r.Check(s.Next() == nil, "a single point is explored again")
			}
		})
	}

	c.bound("mode amplitudes: 2D cells with all sets of one or two modes out of 5 and three sets of three modes x 6 ideal mixtures (quick: 2 for three modes) x {one start, all sign combinations, default}: energy, stationarity and the best of the explored starts against the exact polynomial")
	modes2 := []pfc.Miller{{H: 1}, {H: 1, K: 1}, {H: 2}, {H: 2, K: 1}, {H: 2, K: 2}}
	sets := [][]pfc.Miller{}
	for i := range modes2 {
		sets = append(sets, []pfc.Miller{modes2[i]})
		for j := range modes2 {
			if i != j {
				sets = append(sets, []pfc.Miller{modes2[i], modes2[j]})
			}
		}
	}
	sets = append(sets, []pfc.Miller{{H: 1}, {H: 1, K: 1}, {H: 2}}, []pfc.Miller{{H: 1}, {H: 1, K: 1}, {H: 2, K: 1}}, []pfc.Miller{{H: 2, K: 1}, {H: 1, K: 1}, {H: 1}})
	c.bound("starts: every ordered pair out of six starting points for three modes with two different local minima")
	n2set := len(sets)
	c.bound("and in 3D the modes {110}, {111}, {200} alone (thorough: {111} and {200}, {110} and {200})")
	sets = append(sets, []pfc.Miller{{H: 1, K: 1}}, []pfc.Miller{{H: 1, K: 1, L: 1}}, []pfc.Miller{{H: 2}})
	if c.Thorough {
		sets = append(sets, []pfc.Miller{{H: 1, K: 1, L: 1}, {H: 2}}, []pfc.Miller{{H: 1, K: 1}, {H: 2}})
	}
	for si, set := range sets {
		dim := 2
		if si >= n2set {
			dim = 3
		}
		for ii, im := range []pfc.IdealMix{{C3: 1, C4: 1}, {C3: 2, C4: 0.02}, {C3: 0.5, C4: 2}, {C3: -1, C4: 1}, {C3: 2, C4: 0.7}, {C3: 0.02, C4: 2}} {
			nex := 3
			if len(set) == 3 && ii == 0 && si == n2set-3 {
				nex = 39
			}
			for ex := 0; ex < nex; ex++ {
				if (len(set) == 3 || dim == 3) && ii > 1 && !c.Thorough {
					continue
				}
				set, im, ex := set, im, ex
				c.Case(fmt.Sprintf("solve/%dD/%v/%v/%d", dim, set, im, ex), func(r *Run) {
					orbs := [][][3]int{}
					for _, m := range set {
						orbs = append(orbs, orbit(m, dim))
					}
					// exact polynomial: sum over ordered products of modes
					type mono struct {
						p  []int
						cf float64
					}
					poly := []mono{}
					for _, tot := range []int{3, 4} {
						pre := -im.C3 / 6
						if tot == 4 {
							pre = im.C4 / 12
						}
						n := make([]int, len(set))
						for i := range n {
							n[i] = tot + 1
						}
						product(n, func(p []int) {
							s, mult := 0, 1.0
							for k := 1; k <= tot; k++ {
								mult *= float64(k)
							}
							for _, v := range p {
								s += v
								for k := 1; k <= v; k++ {
									mult /= float64(k)
								}
							}
							if s == tot {
								poly = append(poly, mono{p, pre * mult * zeroSums(orbs, p)})
							}
						})
					}
					eval := func(a []float64) float64 {
						e := 0.0
						for _, m := range poly {
							t := m.cf
							for i, p := range m.p {
								t *= math.Pow(a[i], float64(p))
							}
							e += t
						}
						return e
					}
					starts := [][]float64{}
					amp := 0.1
					if ex >= 3 {
						pts := [][]float64{{-0.287, -0.274, 0.339}, {0.313, 0.176, -0.111}, {0.163, -0.124, 0.039}, {-0.137, 0.326, 0.189}, {0.013, 0.326, 0.039}, {0.013, 0.026, 0.339}}
						starts = append(starts, pts[(ex-3)/6], pts[(ex-3)%6])
					} else if ex == 0 {
						amp = 0.2
						x := make([]float64, len(set))
						for i := range x {
							x[i] = amp
						}
						starts = append(starts, x)
					} else {
						n := make([]int, len(set))
						for i := range n {
							n[i] = 2
						}
						product(n, func(s []int) {
							x := make([]float64, len(set))
							for i := range x {
								x[i] = amp * (1 - 2*float64(s[i]))
							}
							starts = append(starts, x)
						})
					}
					ms := pfc.ModeSolver{IdealMix: im, Miller: set, ReciprocalCell: sc2.Reciprocal()}
					if dim == 3 {
						ms.ReciprocalCell = sc3.Reciprocal()
					}
					var ini pfc.InitialGuessExplorer
					re := &recExplorer{pts: starts}
					if ex != 2 {
						ini = re
					}
					res := ms.Solve(ini)
					r.Step(len(starts))
					if ex != 2 {
						r.Check(re.best >= res.Energy-1e-13*math.Abs(res.Energy) && (re.best == res.Energy || re.best > -1e-15), "energy %.15g, the best of the minimizations has %.15g", res.Energy, re.best)
						r.Check(re.next == len(starts) && re.seen == len(starts), "%d of %d starting points used, %d reported", re.next, len(starts), re.seen)
					}
					r.Check(len(res.Amplitudes) == len(set), "amplitudes %v", res.Amplitudes)
					r.close1("energy of the amplitudes", res.Energy, eval(res.Amplitudes), 1e-6)
					if e := eval(res.Amplitudes); math.Abs(e) > 1e-13 {
						r.Check(math.Abs(e-res.Energy) < 1e-6*math.Abs(e), "energy %g, the amplitudes have %g", res.Energy, e)
					}
					r.Check(res.Energy <= 1e-12, "energy %g is above the energy of the liquid", res.Energy)
					for _, s := range starts {
						r.Check(res.Energy <= eval(s)+1e-8, "energy %g is above the energy %g of the start %v", res.Energy, eval(s), s)
					}
					if res.Energy < -1e-8 {
						for i := range set {
							h := 1e-5 * math.Max(1, math.Abs(res.Amplitudes[i]))
							up, dn := cloneF(res.Amplitudes), cloneF(res.Amplitudes)
							up[i] += h
							dn[i] -= h
							g := (eval(up) - eval(dn)) / (2 * h)
							r.Check(math.Abs(g) < 1e-4*math.Max(1, math.Abs(res.Energy)), "derivative %g with respect to amplitude %d in the minimum", g, i)
						}
						r.Outcome("solid")
					} else {
						r.Outcome("liquid")
					}
					r.ObserveF("amp", append([]float64{res.Energy}, res.Amplitudes...))
				})
			}
		}
	}

	c.bound("elastic fits: 1..3 modes in 2D and 3D, all sets of known properties, targets generated from 3 amplitude sets; weights against the Voigt averages of m_t Q_su m_v")
	cells := map[string]pfc.Cell{"SC3D": pfc.SC3D(4), "FCC": pfc.FCC(4), "SC2D": pfc.SC2D(4), "TRI": pfc.Triangular2D(4)}
	for _, name := range []string{"SC3D", "FCC", "SC2D", "TRI"} {
		cell := cells[name]
		dim, _ := cell.CellVec.Dims()
		rec := cell.Reciprocal()
		q := mat.NewDense(dim, dim, nil)
		q.Mul(rec.CellVec.T(), rec.CellVec)
		ct := func(m pfc.Miller, s, t, u, v int) float64 {
			return float64(m.At(t)) * q.At(s, u) * float64(m.At(v))
		}
		list := all3
		if dim == 2 {
			list = all2
		}
		c.Case("weights/"+name, func(r *Run) {
			for _, m := range list {
				dg, off, sh := 0.0, 0.0, 0.0
				for i := 0; i < dim; i++ {
					dg += ct(m, i, i, i, i)
					for j := i + 1; j < dim; j++ {
						off += ct(m, i, i, j, j)
						sh += ct(m, i, j, i, j)
					}
				}
				if dim == 3 {
					r.close1(fmt.Sprintf("bulk modulus weight of %v", m), pfc.BulkModWeight(m, q), (dg+2*off)/9, 1e-10)
					r.close1(fmt.Sprintf("shear modulus weight of %v", m), pfc.ShearModWeight(m, q), (dg-off+3*sh)/15, 1e-10)
				} else {
					r.close1(fmt.Sprintf("area modulus weight of %v", m), pfc.AreaModulusWeight(m, q), (dg+2*off)/4, 1e-10)
					s1 := ct(m, 0, 1, 0, 1)
					s2 := ct(m, 1, 0, 1, 0)
					w := pfc.XYPlaneShearWeight(m, q)
					lo, hi := (dg-2*off+4*math.Min(s1, s2))/8, (dg-2*off+4*math.Max(s1, s2))/8
					r.Check(w >= lo-1e-10 && w <= hi+1e-10, "shear weight %g of %v outside of [%g, %g]", w, m, lo, hi)
				}
				r.Step(2)
			}
		})
		props := []string{"bulk", "shear"}
		if dim == 2 {
			props = []string{"area", "xyshear"}
		}
		weight := func(p string, m pfc.Miller) float64 {
			switch p {
			case "bulk":
				return pfc.BulkModWeight(m, q)
			case "shear":
				return pfc.ShearModWeight(m, q)
			case "area":
				return pfc.AreaModulusWeight(m, q)
			}
			return pfc.XYPlaneShearWeight(m, q)
		}
		fitModes := [][]pfc.Miller{{{H: 1}}, {{H: 1, K: 1}}, {{H: 1}, {H: 1, K: 1}}, {{H: 2}, {H: 1, K: 1}}, {{H: 1}, {H: 1, K: 1}, {H: 2, K: 1}}}
		if dim == 3 {
			fitModes = append(fitModes, []pfc.Miller{{H: 1, K: 1, L: 1}, {H: 2}}, []pfc.Miller{{H: 1, K: 2, L: 1}, {H: 2}})
		}
		for _, modes := range fitModes {
			for np := 1; np <= 2; np++ {
				for _, h := range [][]float64{{1, 0.5, 0.3}, {0.4, 1.2, 0.6}, {2, 1.5, 1}} {
					modes, np, h := modes, np, h
					c.Case(fmt.Sprintf("fit/%s/%v/%v/%v", name, modes, props[:np], h), func(r *Run) {
						target := map[string]float64{}
						for _, p := range props[:np] {
							for i, m := range modes {
								target[p] += h[i] * h[i] * weight(p, m)
							}
						}
						ms := pfc.ModeSolver{Miller: modes, ReciprocalCell: rec}
						amp := make([]float64, len(modes))
						for i := range amp {
							amp[i] = 0.3 - 0.17*float64(i)
						}
						res := ms.MatchElasticProp(target)
						r.Check(len(res.Amp) == len(modes) && len(res.Fit) == np, "fit %v", res)
						for _, p := range props[:np] {
							s := 0.0
							for i, m := range modes {
								s += res.Amp[i] * res.Amp[i] * weight(p, m)
							}
							r.close1("reported "+p, res.Fit[p], s, 1e-9)
							r.Check(math.Abs(s-target[p]) < 1e-3*(1+target[p]), "%s fitted as %g, target %g", p, s, target[p])
						}
						w := ms.PeakWidths(target, amp)
						r.Check(len(w.Widths) == len(modes), "widths %v", w.Widths)
						for i, m := range modes {
							want := math.Sqrt(0.5*float64(len(orbit(m, dim)))) * math.Abs(amp[i]/res.Amp[i])
							r.close1("width of a peak", w.Widths[i]/want, 1, 1e-6)
						}
						for _, p := range props[:np] {
							r.close1("fit reported with the widths", w.Fit[p], res.Fit[p], 1e-6)
						}
						r.Step(2)
						r.ObserveF("fit", res.Amp)
					})
				}
			}
		}
		c.Case("fit/unknown/"+name, func(r *Run) {
			ms := pfc.ModeSolver{Miller: []pfc.Miller{{H: 1}, {H: 1, K: 1}}, ReciprocalCell: rec}
			p, _ := panics(func() { ms.MatchElasticProp(map[string]float64{"bulk": 1, "hardness": 2}) })
			r.Check(p, "an unknown property is accepted")
		})
	}
}

type boxKernel struct{ r int } // 1 inside the box, encodes the distance

func (b boxKernel) Eval(x float64) float64 { return 1 / (1 + x) }
func (b boxKernel) Cutoff() float64        { return float64(b.r) }

func crystalFields(c *Ctx) {
	// pair correlation functions
	c.bound("pair correlation: all lists of up to 3 peaks out of 4 x 3 temperatures x 40 wave numbers; lattices for 5 parameters x 3 widths")
	peaks := []pfc.Peak{{PlaneDensity: 1, Location: 1, Width: 0.5, NumPlanes: 4}, {PlaneDensity: 0.7, Location: 1.5, Width: 0.2, NumPlanes: 4},
		{PlaneDensity: 2, Location: 3, Width: 1, NumPlanes: 3}, {PlaneDensity: 0.25, Location: 0, Width: 0.1, NumPlanes: 1}}
	sequences(len(peaks), 0, 3, func(seq []int) {
		for _, temp := range []float64{0, 0.3, 2} {
			temp := temp
			c.Case(fmt.Sprintf("corr/%v/%g", seq, temp), func(r *Run) {
				rp := pfc.ReciprocalSpacePairCorrelation{EffTemp: temp}
				for _, s := range seq {
					rp.Peaks = append(rp.Peaks, peaks[s])
				}
				out := []float64{}
				for i := 0; i < 40; i++ {
					k := 0.1 * float64(i)
					want := 0.0
					for _, p := range rp.Peaks {
						v := math.Exp(-temp*temp*k*k/(2*p.PlaneDensity*float64(p.NumPlanes))) * math.Exp(-(k-p.Location)*(k-p.Location)/(2*p.Width*p.Width))
						want = math.Max(want, v)
					}
					got := rp.Eval(k)
					r.close1(fmt.Sprintf("correlation at k=%g", k), got, want, 1e-12)
					out = append(out, got)
					r.Step(1)
				}
				r.ObserveF("corr", out)
			})
		}
	})
	for _, a := range []float64{1, 2, 3.5, 8, 32} {
		for _, w := range []float64{0.02, 0.5, 1} {
			a, w := a, w
			c.Case(fmt.Sprintf("lattice/%g/%g", a, w), func(r *Run) {
				cell := pfc.SC2D(a)
				rec := cell.Reciprocal()
				ps := pfc.SquareLattice2D(w, a)
				r.Check(len(ps) == 2, "%d peaks", len(ps))
				for i, m := range []pfc.Miller{{H: 1}, {H: 1, K: 1}} {
					g := rec.HKLVector(m)
					r.close1("location of the peak", ps[i].Location, norm2(g), 1e-12)
					r.Check(ps[i].NumPlanes == len(orbit(m, 2)), "%d planes", ps[i].NumPlanes)
					r.close1("density of the plane", ps[i].PlaneDensity, 1/norm2([]float64{float64(m.H), float64(m.K)}), 1e-12)
					r.close1("width", ps[i].Width, w, 0)
				}
				tp := pfc.TriangularLattice2D(w, a)
				r.Check(len(tp) == 1, "%d peaks", len(tp))
				r.close1("location of the peak", tp[0].Location, 2*math.Pi/a, 1e-12)
				r.close1("width", tp[0].Width, w, 0)
				r.Step(2)
			})
		}
	}
	c.bound("ideal mixture: value, derivative and prefactors for 25 parameter pairs x 21 densities; indicator and derivative on 122 arguments (down to 1e-9 from the ends of the interval)")
	for _, c3 := range []float64{-1, 0, 0.5, 1, 2} {
		for _, c4 := range []float64{0, 0.3, 1, 2, 5} {
			c3, c4 := c3, c4
			c.Case(fmt.Sprintf("ideal/%g/%g", c3, c4), func(r *Run) {
				im := pfc.IdealMix{C3: c3, C4: c4}
				f := func(n float64) float64 { return n*n/2 - c3*n*n*n/6 + c4*n*n*n*n/12 }
				for i := -10; i <= 10; i++ {
					n := 0.15 * float64(i)
					r.close1("ideal mixing energy", im.Eval(n), f(n), 1e-12)
					r.close1("derivative of the ideal mixing energy", im.Deriv(n), n-c3*n*n/2+c4*n*n*n/3, 1e-12)
					r.Step(2)
				}
			})
		}
	}
	c.Case("indicator", func(r *Run) {
		xs := []float64{}
		for i := -20; i <= 20; i++ {
			xs = append(xs, 0.5+0.1*float64(i))
		}
		for e := 1; e <= 9; e++ {
			h := math.Pow(10, -float64(e))
			xs = append(xs, h, -h, 1-h, 1+h, 0.5+h, h/3, 1-h/3, 1/h, -1/h)
		}
		for _, x := range xs {
			w, d := 3*x*x-2*x*x*x, 6*x-6*x*x
			if x < 0 {
				w, d = 0, 0
			}
			if x > 1 {
				w, d = 1, 0
			}
			r.close1("indicator", pfc.Indicator(x), w, 1e-9)
			r.close1("derivative of the indicator", pfc.IndicatorDeriv(x), d, 1e-9)
			r.Step(2)
		}
	})
	m2, m3 := 4, 2
	if c.Thorough {
		m2, m3 = 6, 3
	}
	if c.Deep {
		m2, m3 = 9, 5
	}
	c.bound("two phase correlation function: every impulse of the concentration on all domains with sides 1..%d (2D) and 1..%d (3D): value, transform, unchanged argument, number of functions", m2, m3)
	shapesB(c, m2, m3, func(dims []int) {
		n := prod(dims)
		for _, imp := range append([]int{-1}, spots(n)...) {
			imp := imp
			c.Case(fmt.Sprintf("twophase/%s/%d", ints(dims), imp), func(r *Run) {
				cf := []pfc.ReciprocalSpacePairCorrelation{{EffTemp: 0, Peaks: peaks[:2]}, {EffTemp: 0.4, Peaks: peaks[2:]}}
				tp := pfc.TwoPhaseCorrFunc{CorrFunc: cf}
				conc := genericField(n, 3)
				for i := range conc {
					conc[i] += 0.5
				}
				if imp >= 0 {
					for i := range conc {
						conc[i] = 0.2
					}
					conc[imp] = 0.9
				}
				ft := fft(dims)
				kern := make([][]complex128, 2)
				for k := range kern {
					kern[k] = make([]complex128, n)
					for i := range kern[k] {
						kern[k][i] = complex(cf[k].Eval(2*math.Pi*norm2(refFreq(dims, i))), 0)
					}
					kern[k] = refIDFT(dims, kern[k])
				}
				want := make([]complex128, n)
				for i := range want {
					x := real(conc[i])
					x = math.Max(0, math.Min(1, x))
					w := complex(3*x*x-2*x*x*x, 0)
					want[i] = w*kern[0][i] + (1-w)*kern[1][i]
				}
				cFT := refDFT(dims, conc, -1)
				arg := cloneC(cFT)
				got := tp.Evaluate(arg, ft)
				r.closeC("effective correlation function", got, want, 1e-10)
				r.closeC("concentration passed to Evaluate", arg, cFT, 0)
				gotFT := tp.EvaluateFT(arg, ft)
				r.closeC("transform of the effective correlation function", gotFT, refDFT(dims, want, -1), 1e-10)
				r.closeC("concentration passed to EvaluateFT", arg, cFT, 0)
				r.Step(2)
				r.ObserveC("ceff", got)
			})
		}
	})
	c.Case("twophase/misuse", func(r *Run) {
		for n := 0; n <= 3; n++ {
			if n == 2 {
				continue
			}
			tp := pfc.TwoPhaseCorrFunc{CorrFunc: make([]pfc.ReciprocalSpacePairCorrelation, n)}
			p, _ := panics(func() { tp.Evaluate(make([]complex128, 4), fft([]int{2, 2})) })
			r.Check(p, "%d correlation functions are accepted", n)
		}
	})

	// crystals
	c.bound("crystals: SC, triangular, FCC and BCC cells with lattice parameters 3..11 (SC) and 4, 6, 8, 10 on all commensurate domains of 1..3 (2D, also rectangular) and 1..2 (3D) cells (thorough: more) x bases of one and two atoms x kernels: every lattice site carries exactly one copy of the kernel, every node beyond the cutoff of every atom is untouched")
	type cellKind struct {
		name string
		dim  int
		mk   func(a float64) pfc.Cell
	}
	for _, ck := range []cellKind{{"SC2D", 2, pfc.SC2D}, {"TRI", 2, pfc.Triangular2D}, {"SC3D", 3, pfc.SC3D}, {"FCC", 3, pfc.FCC}, {"BCC", 3, pfc.BCC}} {
		maxC := []int{3, 3, 3}
		if ck.dim == 3 {
			maxC = []int{2, 2, 2}
		}
		params := []int{4, 6, 8, 10}
		if ck.name[:2] == "SC" {
			params = []int{3, 4, 5, 6, 7, 8, 9, 10, 11}
		}
		if c.Thorough {
			params = append(params, 12, 14, 16)
			maxC = []int{5, 5, 5}
			if ck.dim == 3 {
				maxC = []int{3, 2, 2}
			}
		}
		for _, a := range params {
			for nb := 1; nb <= 2; nb++ {
				product(maxC[:ck.dim], func(t []int) {
					ck, a, nb := ck, a, nb
					dims := make([]int, ck.dim)
					for i := range dims {
						dims[i] = (t[i] + 1) * a
					}
					rad := 1
					if nb == 2 {
						// second atom a quarter of the cell away along every cell vector
						if a%8 != 0 {
							return
						}
					}
					if a >= 8 && nb == 1 {
						rad = 2
					}
					for kk := 0; kk < 2; kk++ {
						kk := kk
						if kk == 1 && rad < 2 {
							continue
						}
						c.Case(fmt.Sprintf("crystal/%s/a=%d/%s/atoms=%d/kernel=%d", ck.name, a, ints(dims), nb, kk), func(r *Run) {
							basis := make([]float64, ck.dim*nb)
							if nb == 2 {
								for i := 0; i < ck.dim; i++ {
									basis[i*2+1] = 0.5
									if ck.name != "SC2D" && ck.name != "SC3D" {
										basis[i*2+1] = 0.25
									}
								}
							}
							cell := ck.mk(float64(a))
							uc := pfc.UnitCell{Cell: cell, Basis: mat.NewDense(ck.dim, nb, cloneF(basis))}
							grid := pfutil.NewGrid(dims)
							var kern pfc.AtomicKernel = boxKernel{rad}
							if kk == 1 {
								kern = &pfc.CircleKernel{Radius: float64(rad)}
							}
							pfc.BuildCrystal(uc, kern, &grid)
							r.Step(1)
							// reference: all lattice points modulo the domain
							sites := map[string][]float64{}
							n := make([]int, ck.dim)
							for i := range n {
								n[i] = 25
							}
							product(n, func(t []int) {
								for b := 0; b < nb; b++ {
									p := make([]float64, ck.dim)
									for i := range p {
										for j := range p {
											p[i] += cell.CellVec.At(i, j) * (float64(t[j]-12) + basis[j*nb+b])
										}
										p[i] = math.Mod(math.Mod(p[i], float64(dims[i]))+float64(dims[i]), float64(dims[i]))
									}
									sites[fmt.Sprint(p)] = p
								}
							})
							want := make([]float64, prod(dims))
							off := make([]int, ck.dim)
							for i := range off {
								off[i] = 2 * rad
							}
							for _, p := range sites {
								product(off, func(o []int) {
									d := 0.0
									pos := make([]int, ck.dim)
									for i := range pos {
										pos[i] = mod(int(p[i])+o[i]-rad, dims[i])
										x := float64(o[i]-rad) + 0.5
										d += x * x
									}
									d = math.Sqrt(d)
									v := 1 / (1 + d)
									if kk == 1 {
										v = 0
										if d < float64(rad) {
											v = 1
										}
									}
									want[refIndex(dims, pos)] = v
								})
							}
							for i := range want {
								pos := refPos(dims, i)
								if g := grid.Get(pos); math.Abs(g-want[i]) > 1e-9 {
									r.Failf("node %v has the value %g, expected %g (%d atoms)", pos, g, want[i], len(sites))
								}
							}
							r.Observe("crystal", ck.name, a, dims, nb, kk)
						})
					}
				})
			}
		}
	}
	c.bound("general cells: every 2D cell with integer vectors of components -4..4 (thorough -5..5) and at most 24 nodes on the square domain it is commensurate with, elongated cells of 2 and 3 dimensions, and every 3D cell with vectors (a,0,0), (b,c,0), (d,e,f) with diagonal 2..3 and off-diagonal components -1..1 (both orientations of the axes), with an atom at the origin, an atom at another node or two atoms per cell, as long as the kernels of different sites do not overlap")
	general := func(key string, cv [][]float64, dims []int) {
		dim := len(dims)
		sites := map[string][]int{}
		var list [][]int
		// closure under translation by the cell vectors, modulo the domain
		queue := [][]int{make([]int, dim)}
		sites[ints(queue[0])] = queue[0]
		for len(queue) > 0 {
			p := queue[0]
			queue = queue[1:]
			list = append(list, p)
			for j := 0; j < dim; j++ {
				q := make([]int, dim)
				for i := range q {
					q[i] = mod(p[i]+int(cv[i][j]), dims[i])
				}
				if _, ok := sites[ints(q)]; !ok {
					sites[ints(q)] = q
					queue = append(queue, q)
				}
			}
		}
		// the sites form a group: it is enough to look at the distances from the origin
		for _, p := range list[1:] {
			far := false
			for i := range p {
				d := p[i]
				if dims[i]-d < d {
					d = dims[i] - d
				}
				far = far || d >= 2
			}
			if !far {
				return
			}
		}
		inv := invMat(cv)
		flat := []float64{}
		for i := range cv {
			flat = append(flat, cv[i]...)
		}
		for variant, atoms := range [][][]int{{{0, 0, 0}}, {{1, 2, 1}}, {{1, 2, 1}, {4, -1, 5}}} {
			atoms := atoms
			if len(atoms) == 2 {
				clash := false
				for _, p := range list {
					far := false
					for i := range p {
						d := mod(p[i]+atoms[1][i]-atoms[0][i], dims[i])
						if dims[i]-d < d {
							d = dims[i] - d
						}
						far = far || d >= 2
					}
					clash = clash || !far
				}
				if clash {
					continue
				}
			}
			c.Case(fmt.Sprintf("%s/basis=%d", key, variant), func(r *Run) {
				grid := pfutil.NewGrid(dims)
				uc := pfc.UnitCell{Cell: pfc.Cell{CellVec: mat.NewDense(dim, dim, cloneF(flat))}, Basis: mat.NewDense(dim, len(atoms), nil)}
				for b, at := range atoms {
					for i := 0; i < dim; i++ {
						x := 0.0
						for j := 0; j < dim; j++ {
							x += inv[i][j] * float64(at[j])
						}
						uc.Basis.Set(i, b, x)
					}
				}
				basis := cloneF(uc.Basis.RawMatrix().Data)
				pfc.BuildCrystal(uc, boxKernel{1}, &grid)
				r.Step(1)
				want := make([]float64, prod(dims))
				off := make([]int, dim)
				for i := range off {
					off[i] = 2
				}
				for k := 0; k < len(list)*len(atoms); k++ {
					p, at := list[k%len(list)], atoms[k/len(list)]
					product(off, func(o []int) {
						pos := make([]int, dim)
						for i := range pos {
							pos[i] = mod(p[i]+at[i]+o[i]-1, dims[i])
						}
						want[refIndex(dims, pos)] = 1 / (1 + math.Sqrt(0.25*float64(dim)))
					})
				}
				for i := range want {
					pos := refPos(dims, i)
					if g := grid.Get(pos); math.Abs(g-want[i]) > 1e-9 {
						r.Failf("cell %v: node %v has the value %g, expected %g (%d atoms)", flat, pos, g, want[i], len(list))
					}
				}
				r.closeF("cell vectors after the crystal is built", uc.Cell.CellVec.RawMatrix().Data, flat, 0)
				r.closeF("basis after the crystal is built", uc.Basis.RawMatrix().Data, basis, 0)
				r.Observe("general crystal", key, len(atoms))
			})
		}
	}
	span := 4
	if c.Thorough {
		span = 5
	}
	product([]int{2*span + 1, 2*span + 1, 2*span + 1, 2*span + 1}, func(t []int) {
		m := make([]float64, 4)
		for i := range m {
			m[i] = float64(t[i] - span)
		}
		det := int(math.Abs(m[0]*m[3] - m[1]*m[2]))
		if det == 0 || det > 24 {
			return
		}
		n := det
		if n < 6 {
			n *= 2
		}
		general(fmt.Sprintf("crystal/general/%v", m), [][]float64{{m[0], m[1]}, {m[2], m[3]}}, []int{n, n})
	})
	for _, e := range [][]int{{2, 66}, {66, 2}, {3, 40}, {2, 2, 17}, {17, 2, 2}, {2, 17, 2}, {3, 3, 26}} {
		for k := 1; k <= 2; k++ {
			cv := make([][]float64, len(e))
			dims := make([]int, len(e))
			for i := range e {
				cv[i] = make([]float64, len(e))
				cv[i][i] = float64(e[i])
				dims[i] = k * e[i]
				if e[i] < 5 {
					dims[i] *= 2
				}
			}
			general(fmt.Sprintf("crystal/elongated/%s/%d", ints(e), k), cv, dims)
		}
	}
	product([]int{2, 2, 2, 3, 3, 3, 2}, func(t []int) {
		a, cc, f := float64(t[0]+2), float64(t[1]+2), float64(t[2]+2)
		b, d, e := float64(t[3]-1), float64(t[4]-1), float64(t[5]-1)
		cv := [][]float64{{a, b, d}, {0, cc, e}, {0, 0, f}}
		if t[6] == 1 {
			cv = [][]float64{{0, 0, f}, {0, cc, e}, {a, b, d}}
		}
		n := int(a * cc * f)
		if n > 18 && !c.Thorough {
			return
		}
		general(fmt.Sprintf("crystal/general/3d/%s", ints(t)), cv, []int{n, n, n})
	})
	c.bound("kernels: value, cutoff and area for 5 sizes x 60 distances; corners of the domain in scaled coordinates for every small integer cell in 2D and the built-in cells; grain boundaries for 16 angles x 5 grids")
	for _, w := range []float64{0.5, 1, 2, 3.5, 8} {
		w := w
		c.Case(fmt.Sprintf("kernel/%g", w), func(r *Run) {
			g := pfc.GaussianKernel{Width: w}
			ck := pfc.CircleKernel{Radius: w}
			r.close1("cutoff of the circle", ck.Cutoff(), w, 1e-12)
			r.close1("area of the circle", ck.Area(), math.Pi*w*w, 1e-12)
			for i := 0; i < 60; i++ {
				x := 0.1 * w * float64(i)
				r.close1("gaussian", g.Eval(x), math.Exp(-0.5*x*x/(w*w)), 1e-12)
				if x > g.Cutoff() {
					r.Check(g.Eval(x) < 0.012, "gaussian %g beyond its cutoff", g.Eval(x))
				}
				if i == 10 {
					continue
				}
				want := 0.0
				if i < 10 {
					want = 1
				}
				r.close1(fmt.Sprintf("circle of radius %g at %g", w, x), ck.Eval(x), want, 0)
				r.Step(2)
			}
		})
	}
	intCells(2, 2, func(d []float64) {
		c.Case(fmt.Sprintf("corners/%v", d), func(r *Run) {
			cell := pfc.Cell{CellVec: mat.NewDense(2, 2, cloneF(d))}
			checkCorners(r, cell, []int{3, 5})
		})
	})
	for i, cell := range []pfc.Cell{pfc.SC3D(3), pfc.FCC(4), pfc.BCC(5)} {
		cell := cell
		c.Case(fmt.Sprintf("corners3/%d", i), func(r *Run) { checkCorners(r, cell, []int{3, 5, 7}) })
	}
	for _, dims := range [][]int{{4, 4}, {5, 5}, {8, 8}, {6, 4}, {5, 8}} {
		for k := 0; k < 16; k++ {
			dims, k := dims, k
			c.Case(fmt.Sprintf("tilt/%s/%d", ints(dims), k), func(r *Run) {
				ang := 2 * math.Pi * float64(k) / 16
				g := pfutil.NewGrid(dims)
				a, b := pfutil.NewGrid(dims), pfutil.NewGrid(dims)
				for i := range g.Data {
					g.Data[i] = float64(i + 1)
					a.Data[i], b.Data[i] = g.Data[i], g.Data[i]
				}
				a.Rotate2D(ang / 2)
				b.Rotate2D(-ang / 2)
				pfc.TiltGB(&g, ang)
				r.Step(1)
				for x := 0; x < dims[0]; x++ {
					for y := 0; y < dims[1]; y++ {
						want := b.Get([]int{x, y})
						if x < dims[0]/2 {
							want = a.Get([]int{x, y})
						}
						r.Check(g.Get([]int{x, y}) == want, "node (%d, %d) of the grain boundary is %g, expected %g", x, y, g.Get([]int{x, y}), want)
					}
				}
				r.ObserveF("tilt", g.Data)
			})
		}
	}
	c.Case("tilt/3d", func(r *Run) {
		g := pfutil.NewGrid([]int{2, 2, 2})
		p, _ := panics(func() { pfc.TiltGB(&g, 1) })
		r.Check(p, "a grain boundary in 3D is accepted")
	})
}

// checkCorners: the cell matrix times the scaled coordinates must give all corners of the domain
func checkCorners(r *Run, cell pfc.Cell, dims []int) {
	cv := rows(cell.CellVec)
	got := pfc.CornersScaledCrd(cell, dims)
	r.Step(1)
	n, cols := got.Dims()
	r.Check(n == len(dims) && cols == 1<<uint(len(dims)), "corner matrix is %dx%d", n, cols)
	seen := map[string]bool{}
	for j := 0; j < cols; j++ {
		key := ""
		for i := range dims {
			x := 0.0
			for k := range dims {
				x += cv[i][k] * got.At(k, j)
			}
			if math.Abs(x) < 1e-9 {
				key += "0"
			} else if math.Abs(x-float64(dims[i])) < 1e-9 {
				key += "1"
			} else {
				r.Failf("corner %d has the coordinate %g along axis %d", j, x, i)
			}
		}
		seen[key] = true
	}
	r.Check(len(seen) == cols, "%d different corners, expected %d", len(seen), cols)
	for i := range rows(cell.CellVec) {
		for k := range dims {
			r.Check(cell.CellVec.At(i, k) == cv[i][k], "the cell was changed")
		}
	}
	r.ObserveF("corners", got.RawMatrix().Data)
}
