package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

func init() {
	register("F03", "model_checking", transportTerms)
	register("F04", "model_checking", filtersAndTransforms)
}

func transportTerms(c *Ctx) {
	chargeTerms(c)
	changingConductivity(c)
	noiseTerms(c)
	volumeTerms(c)
	localTransport(c)
}

func isNyq(f float64) bool { return math.Abs(math.Abs(f)-0.5) < 1e-10 }

// efield is the local electric field of the charge density p (in units where eps0 = 1)
func efield(dims []int, p []complex128, ext []float64) [][]complex128 {
	pk := refDFT(dims, p, -1)
	out := make([][]complex128, len(dims))
	for d := range dims {
		ek := make([]complex128, len(p))
		for i := range ek {
			f := refFreq(dims, i)
			k2 := norm2(f) * norm2(f)
			if k2 > 0 && !isNyq(f[d]) {
				ek[i] = -complex(0, f[d]/(2*math.Pi*k2)) * pk[i]
			}
		}
		out[d] = refIDFT(dims, ek)
		for i := range out[d] {
			out[d][i] += complex(ext[d], 0)
		}
	}
	return out
}

func tensorIndex(dim, a, b int) int {
	if a == b {
		return a
	}
	if dim == 2 {
		return 2
	}
	return 6 - a - b // yz, xz, xy
}

func chargeTerms(c *Ctx) {
	m2, m3 := 4, 2
	if c.Thorough {
		m2, m3 = 5, 3
	}
	if c.Deep {
		m2, m3 = 6, 3
	}
	c.bound("charge transport: all domains up to %d^2 and %d^3; every pair of a charge at one node and a conductivity component at one node, plus external fields; a generic conductivity with every impulse", m2, m3)
	visit := func(dims []int) {
		dims = cloneI(dims)
		n, dim := prod(dims), len(dims)
		nc := 3
		if dim == 3 {
			nc = 6
		}
		run := func(key string, sigma [][]float64, p []complex128, ext []float64) {
			c.Case(fmt.Sprintf("charge dims=%s %s", ints(dims), key), func(r *Run) {
				mk := func() *pf.ChargeTransport {
					return &pf.ChargeTransport{Conductivity: func(i int) []float64 { return cloneF(sigma[i]) }, ExternalField: cloneF(ext), Field: "c", FT: pfutil.NewFFTW(cloneI(dims))}
				}
				current := func(q []complex128) [][]complex128 {
					e := efield(dims, q, ext)
					j := make([][]complex128, dim)
					for a := range j {
						j[a] = make([]complex128, n)
						for b := 0; b < dim; b++ {
							for i := range j[a] {
								j[a][i] += complex(sigma[i][tensorIndex(dim, a, b)], 0) * e[b][i]
							}
						}
					}
					return j
				}
				t := dterm{name: "charge",
					add: func(m *pf.Model, reg string, dims []int) { m.RegisterExplicitTerm(reg, mk(), nil) },
					ref: func(dims []int, f map[string][]complex128) []complex128 {
						out := make([]complex128, n)
						for a, ja := range current(f["c"]) {
							for i, v := range refGrad(dims, ja, a) {
								out[i] -= v
							}
						}
						return out
					}}
				runTerms(r, dims, "euler", []dterm{t}, []float64{1}, []int{0}, map[string][]complex128{"c": p}, nil, 1, 0.5)
				// one instance answers every query, also after another density was asked for
				other := genericField(n, 5)
				ct := mk()
				for turn := 0; turn < 6; turn++ {
					mode := turn % 2
					dens := p
					if turn == 2 || turn == 3 {
						dens = other
					}
					want := current(dens)
					q := cloneC(dens)
					if mode == 0 {
						q = refDFT(dims, dens, -1)
					}
					keep := cloneC(q)
					fl := pf.NewField("c", n, q)
					got := ct.Current(fl, n, mode == 1)
					r.Step(1)
					r.Check(len(got) == dim, "%d components of the current", len(got))
					for a := range got {
						r.closeF(fmt.Sprintf("current component %d (realspace=%v)", a, mode == 1), got[a], realOf(want[a]), 1e-9)
					}
					r.Check(maxAbsC(sub(keep, fl.Data)) == 0, "the density is changed")
				}
				r.Outcome("charge")
			})
		}
		zero := func() [][]float64 {
			s := make([][]float64, n)
			for i := range s {
				s[i] = make([]float64, nc)
			}
			return s
		}
		ext0 := make([]float64, dim)
		for v := 0; v < nc && !isLong(dims); v++ {
			for _, i := range spots(n) {
				s := zero()
				s[i][v] = 1
				for _, j := range spots(n) {
					run(fmt.Sprintf("sigma=%d@%d charge@%d", v, i, j), s, impulse(n, j), ext0)
				}
				for d := 0; d < dim; d++ {
					ext := make([]float64, dim)
					ext[d] = 1.5
					run(fmt.Sprintf("sigma=%d@%d external=%d", v, i, d), s, make([]complex128, n), ext)
				}
			}
		}
		gen := zero()
		ext := []float64{0.3, -0.7, 0.2}[:dim]
		for i := range gen {
			for v := range gen[i] {
				gen[i][v] = 0.2*float64(v+1) + 0.05*float64((i*7+v*3)%11)
			}
		}
		for _, j := range spots(n) {
			run(fmt.Sprintf("generic charge@%d", j), gen, impulse(n, j), ext)
		}
		run("generic charge", gen, genericField(n, 2), ext)
	}
	shapesB(c, m2, m3, visit)
	c.bound("and the long domains %v", longDomains)
	for _, dims := range longDomains {
		visit(dims)
	}
}

// changingConductivity: conductivity and external field may change between two evaluations (the conductivity is a
// function, which can depend on the state of the simulation)
func changingConductivity(c *Ctx) {
	domains := [][]int{{2, 3}, {4, 4}, {2, 3, 2}}
	depth := 3
	if c.Deep {
		depth = 5
		domains = append(domains, []int{3, 3, 3})
	}
	c.bound("charge transport: every sequence of up to %d changes of {one component of the conductivity of one node, all components, the external field, the density} on %v, evaluated by a model and by Current behind each", depth, domains)
	for _, dims := range domains {
		dims := dims
		n, dim := prod(dims), len(dims)
		nc := 3 * (dim - 1)
		sequences(4, 1, depth, func(seq []int) {
			seq = cloneI(seq)
			c.Case(fmt.Sprintf("changing conductivity/%s/%v", ints(dims), seq), func(r *Run) {
				sigma := make([][]float64, n)
				for i := range sigma {
					for v := 0; v < nc; v++ {
						sigma[i] = append(sigma[i], 0.3+0.1*float64((3*i+v)%5))
					}
				}
				ext := []float64{0.3, -0.2, 0.4}[:dim]
				dens := genericField(n, 3)
				mk := func() *pf.ChargeTransport {
					return &pf.ChargeTransport{Conductivity: func(i int) []float64 { return cloneF(sigma[i]) }, ExternalField: ext, Field: "c", FT: pfutil.NewFFTW(cloneI(dims))}
				}
				ct := mk()
				m := pf.NewModel()
				m.AddField(pf.NewField("c", n, cloneC(dens)))
				m.RegisterExplicitTerm("TERM", ct, nil)
				m.AddEquation("dc/dt = TERM")
				s := pf.NewSolver(&m, cloneI(dims), 0.1)
				check := func(what string) {
					e := efield(dims, dens, ext)
					want := make([][]complex128, dim)
					div := make([]complex128, n)
					for a := range want {
						want[a] = make([]complex128, n)
						for b := 0; b < dim; b++ {
							for i := range want[a] {
								want[a][i] += complex(sigma[i][tensorIndex(dim, a, b)], 0) * e[b][i]
							}
						}
						for i, v := range refGrad(dims, want[a], a) {
							div[i] -= v
						}
					}
					got := ct.Current(pf.NewField("c", n, cloneC(dens)), n, true)
					for a := range got {
						r.closeF(fmt.Sprintf("%s: component %d of the current", what, a), got[a], realOf(want[a]), 1e-9)
					}
					copy(m.Fields[0].Data, dens)
					s.FT.FFT(m.Fields[0].Data)
					rhs := cloneC(m.GetRHS(0, s.FT.Freq, 0))
					r.closeC(what+": change of the charge", refIDFT(dims, rhs), div, 1e-9)
					r.Step(2)
					r.ObserveC("rhs", rhs)
				}
				check("at the start")
				for k, op := range seq {
					switch op {
					case 0:
						sigma[(2*k+1)%n][k%nc] += 0.5
					case 1:
						for i := range sigma {
							for v := range sigma[i] {
								sigma[i][v] = 0.4 + 0.1*float64((i+2*v+k)%7)
							}
						}
					case 2:
						ext[k%dim] += 0.7
					case 3:
						dens[(k+1)%n] += 0.6
					}
					check(fmt.Sprintf("behind change %d", k))
				}
				r.Outcome("changing")
			})
		})
	}
}

func noiseTerms(c *Ctx) {
	m2, m3 := 5, 3
	if c.Thorough {
		m2, m3 = 8, 4
	}
	if c.Deep {
		m2, m3 = 12, 6
	}
	c.bound("noise: all domains up to %d^2 and %d^3, every impulse of every component of the random current (the noise is linear in it); strengths 0, a and 4a with the same random numbers", m2, m3)
	visit := func(dims []int) {
		dims = cloneI(dims)
		n, dim := prod(dims), len(dims)
		for comp := 0; comp <= dim; comp++ {
			comp := comp
			c.Case(fmt.Sprintf("noise dims=%s comp=%d", ints(dims), comp), func(r *Run) {
				for _, j := range spots(n) {
					cn := pf.NewConservativeNoise(0.8, dim)
					cur := make([][]complex128, dim)
					dfs := cn.RequiredDerivedFields(n)
					r.Check(len(dfs) == dim, "%d derived fields for %d dimensions", len(dfs), dim)
					for d := range dfs {
						cur[d] = make([]complex128, n)
						if d == comp {
							cur[d] = impulse(n, j)
						}
						if comp == dim {
							cur[d] = genericField(n, 3*d+j)
						}
						src := cloneC(cur[d])
						r.Check(dfs[d].Name == cn.GetCurrentName(d) && len(dfs[d].Data) == n, "derived field %d is called %s and has %d nodes", d, dfs[d].Name, len(dfs[d].Data))
						dfs[d].Calc = func(out []complex128) { copy(out, src) }
					}
					t := dterm{name: "noise",
						add: func(m *pf.Model, reg string, dims []int) { m.RegisterExplicitTerm(reg, &cn, dfs) },
						ref: func(dims []int, f map[string][]complex128) []complex128 {
							out := make([]complex128, n)
							for d := range cur {
								k := refDFT(dims, cur[d], -1)
								for i := range k {
									f := refFreq(dims, i)[d]
									if isNyq(f) {
										f = 0
									}
									k[i] *= complex(0, 2*math.Sin(math.Pi*f))
								}
								for i, v := range refIDFT(dims, k) {
									out[i] += v
								}
							}
							return out
						}}
					x := genericField(n, 1)
					runTerms(r, dims, "euler", []dterm{t}, []float64{1}, []int{0}, map[string][]complex128{"c": x}, nil, 1, 0.5)
				}
				r.Outcome("conservative noise")
			})
		}
		c.Case(fmt.Sprintf("noise conservation dims=%s", ints(dims)), func(r *Run) {
			var first []complex128
			for k, strength := range []float64{1, 4, 0} {
				rand.Seed(77)
				cn := pf.NewConservativeNoise(strength, dim)
				m := pf.NewModel()
				m.AddField(pf.NewField("c", n, genericField(n, 1)))
				m.RegisterExplicitTerm("NOISE", &cn, cn.RequiredDerivedFields(n))
				m.AddEquation("dc/dt = NOISE")
				s := pf.NewSolver(&m, cloneI(dims), 0.1)
				mean := func(x []complex128) complex128 {
					t := complex(0, 0)
					for _, v := range x {
						t += v
					}
					return t
				}
				before := mean(m.Fields[0].Data)
				s.Solve(2, 3)
				r.Step(6)
				after := m.Fields[0].Data
				r.Check(math.Abs(real(mean(after)-before)) < 1e-9*float64(n), "the noise changes the mean by %v", mean(after)-before)
				for i := range after {
					r.Check(math.Abs(imag(after[i])) < 1e-9, "imaginary part %v at node %d", after[i], i)
				}
				inc := sub(after, genericField(n, 1))
				switch k {
				case 0:
					first = inc
				case 1:
					for i := range inc {
						inc[i] /= 2
					}
					r.closeC("noise of strength 4 divided by 2", inc, first, 1e-9)
				case 2:
					r.Check(maxAbsC(inc) < 1e-12, "noise of strength zero changes the field")
				}
			}
			r.ObserveC("noise", first)
			r.Outcome("noise conservation")
		})
	}
	shapesB(c, m2, m3, visit)
	c.bound("and the long domains %v", longDomains)
	for _, dims := range longDomains {
		visit(dims)
	}
	for _, dim := range []int{1, 2, 3} {
		for miss := 0; miss < dim; miss++ {
			dim, miss := dim, miss
			c.Case(fmt.Sprintf("noise dim=%d without current %d", dim, miss), func(r *Run) {
				cn := pf.NewConservativeNoise(1, dim)
				b := map[string]pf.Brick{}
				for d := 0; d < dim; d++ {
					if d != miss {
						f := pf.NewField("x", 4, nil)
						b[cn.GetCurrentName(d)] = &f
					}
				}
				p, _ := panics(func() { cn.Construct(b) })
				r.Check(p && !cn.CurrentFieldsAreRegistered(b), "the missing current is not reported")
				r.Outcome("rejection")
			})
		}
	}
	for _, strength := range []float64{0.5, 3} {
		strength := strength
		c.Case(fmt.Sprintf("noise variance strength=%g", strength), func(r *Run) {
			// not an enumeration: the draws are random, the tolerance is 14 standard deviations wide
			n := 40000
			cn := pf.NewConservativeNoise(strength, 3)
			for d, df := range cn.RequiredDerivedFields(n) {
				rand.Seed(int64(100 + d))
				df.Update()
				s2 := 0.0
				for _, v := range df.Data {
					r.Check(imag(v) == 0, "complex current")
					s2 += real(v) * real(v)
				}
				seen := map[float64]bool{}
				for i, v := range df.Data {
					a := math.Abs(real(v))
					r.Check(a > 0 && !seen[a], "the random current of component %d repeats the size %g at node %d", d, a, i)
					seen[a] = true
				}
				r.Check(math.Abs(s2/float64(n)-2*strength) < 0.2*strength, "variance %g of the current, expected %g", s2/float64(n), 2*strength)
			}
			r.Outcome("variance")
		})
	}
	c.Case("white noise scaling", func(r *Run) {
		w1, w4, w0 := pf.WhiteNoise{Strength: 0.7}, pf.WhiteNoise{Strength: 2.8}, pf.WhiteNoise{}
		draw := func(w pf.WhiteNoise) []float64 {
			rand.Seed(5)
			out := make([]float64, 500)
			for i := range out {
				v := w.Generate(i, nil)
				r.Check(imag(v) == 0, "complex noise")
				out[i] = real(v)
			}
			r.Step(len(out))
			return out
		}
		a, b, z := draw(w1), draw(w4), draw(w0)
		seen := map[float64]bool{}
		for i, v := range a {
			r.Check(v != 0 && !seen[math.Abs(v)], "the noise repeats the size %g at node %d", v, i)
			seen[math.Abs(v)] = true
		}
		for i := range a {
			r.close1("noise of strength 4a", b[i], 2*a[i], 1e-12)
			r.Check(z[i] == 0, "noise of strength zero is %g", z[i])
		}
		for _, node := range []int{1, 999, 1001, 4096, 70000, 1 << 20} { // the node only labels the draw
			rand.Seed(5)
			r.close1(fmt.Sprintf("noise at node %d", node), real(w1.Generate(node, nil)), a[0], 1e-12)
		}
		rand.Seed(6)
		s2 := 0.0
		for i := 0; i < 20000; i++ {
			v := real(w1.Generate(i, nil))
			s2 += v * v / 20000
		}
		r.Check(math.Abs(s2-1.4) < 0.07, "the variance of the noise is %g, expected 1.4", s2)
		r.Outcome("white noise")
	})
}

// volumeTerms: with a drive that does not change in time the volume is constant from the second step on
func volumeTerms(c *Ctx) {
	m2, m3 := 3, 2
	if c.Thorough {
		m2, m3 = 4, 3
	}
	if c.Deep {
		m2, m3 = 6, 4
	}
	c.bound("volume conservation: all domains up to %d^2 and %d^3, indicator 1 at one or two nodes, every node of a local drive, three time steps, fields and drives of the sizes 1, 1e5 and 1e-9, six steps", m2, m3)
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		for _, ind := range spots(n) {
			for _, drive := range spots(n) {
				for ti, dt := range []float64{0.01, 0.1, 1, 0.1, 0.1} {
					ind, drive, dt := ind, drive, dt
					size := []float64{1, 1, 1, 1e5, 1e-9}[ti] // of the field and of the drive
					c.Case(fmt.Sprintf("volume dims=%s indicator@%d drive@%d dt=%g size=%g", ints(dims), ind, drive, dt, size), func(r *Run) {
						start := genericField(n, 2)
						for i := range start {
							start[i] *= complex(size, 0)
						}
						down := func(y []complex128) []complex128 {
							out := make([]complex128, len(y))
							for i := range y {
								out[i] = y[i] / complex(size, 0)
							}
							return out
						}
						vol := pf.NewVolumeConservingLP("c", "ind", dt, n)
						m := pf.NewModel()
						m.AddField(pf.NewField("c", n, start))
						m.RegisterFunction("ind", func(i int, b map[string]pf.Brick) complex128 {
							if i == ind || i == (ind+2)%n {
								return 0.8
							}
							return 0
						})
						m.RegisterFunction("drive", func(i int, b map[string]pf.Brick) complex128 {
							if i == drive {
								return complex(0.37*size, 0)
							}
							return 0
						})
						m.RegisterExplicitTerm("VOL", &vol, nil)
						m.AddEquation("dc/dt = drive + VOL")
						s := pf.NewSolver(&m, cloneI(dims), dt)
						x := genericField(n, 2)
						sum := func(y []complex128) float64 {
							t := 0.0
							for _, v := range y {
								t += real(v)
							}
							return t
						}
						mult := 0.0
						for k := 0; k < 6; k++ {
							s.Propagate(1)
							r.Step(1)
							// reference: explicit update with the current multiplier
							weight := 0.0
							for i := range x {
								if i == drive {
									x[i] += complex(dt*0.37, 0)
								}
								if i == ind || i == (ind+2)%n {
									x[i] += complex(dt*mult*0.8, 0)
									weight += 0.8
								}
							}
							if k == 1 {
								mult = -0.37 / weight
							}
							r.closeC(fmt.Sprintf("field after step %d", k+1), down(m.Fields[0].Data), x, 1e-9)
							if k >= 1 {
								r.close1(fmt.Sprintf("volume after step %d", k+1), sum(down(m.Fields[0].Data)), sum(genericField(n, 2))+2*dt*0.37, 1e-9)
							}
						}
						r.ObserveC("vol", down(m.Fields[0].Data))
						r.Outcome("volume")
					})
				}
			}
		}
	})
	c.bound("volume conservation on domains of up to 16384 nodes, drive at the first and at the last node")
	for _, dims := range [][]int{{65, 64}, {3, 2731}, {17, 16, 16}, {128, 128}} {
		for last := 0; last < 2; last++ {
			dims, last := dims, last
			c.Case(fmt.Sprintf("volume of a large domain %s/%d", ints(dims), last), func(r *Run) {
				n := prod(dims)
				at := last * (n - 1)
				vol := pf.NewVolumeConservingLP("c", "ind", 0.1, n)
				m := pf.NewModel()
				m.AddField(pf.NewField("c", n, genericField(n, 2)))
				sum := func() float64 {
					t := 0.0
					for _, v := range m.Fields[0].Data {
						t += real(v)
					}
					return t
				}
				before := sum()
				m.RegisterFunction("ind", func(i int, b map[string]pf.Brick) complex128 {
					if i == n/2 {
						return 0.8
					}
					return 0
				})
				m.RegisterFunction("drive", func(i int, b map[string]pf.Brick) complex128 {
					if i == at {
						return 0.37
					}
					return 0
				})
				m.RegisterExplicitTerm("VOL", &vol, nil)
				m.AddEquation("dc/dt = drive + VOL")
				s := pf.NewSolver(&m, cloneI(dims), 0.1)
				for k := 0; k < 4; k++ {
					s.Propagate(1)
					r.Step(1)
					if k >= 1 {
						r.Check(math.Abs(sum()-before-2*0.1*0.37) < 1e-7, "the volume after %d steps is %g, expected %g", k+1, sum(), before+2*0.1*0.37)
					}
				}
				r.Outcome("volume")
			})
		}
	}
	c.Case("volume without indicator", func(r *Run) {
		vol := pf.NewVolumeConservingLP("c", "nope", 0.1, 4)
		m := pf.NewModel()
		m.AddField(pf.NewField("c", 4, nil))
		m.RegisterExplicitTerm("VOL", &vol, nil)
		m.AddEquation("dc/dt = VOL")
		p, _ := panics(func() { s := pf.NewSolver(&m, []int{2, 2}, 0.1); s.Solve(1, 1) })
		r.Check(p, "a missing indicator is not reported")
		r.Outcome("rejection")
	})
}

// betaTail is 1 - I_x(p, p) for integer p: P(Binomial(2p-1, x) < p)
func betaTail(p int, x float64) float64 {
	n := 2*p - 1
	s := 0.0
	for k := 0; k < p; k++ {
		b := 1.0
		for j := 0; j < k; j++ {
			b = b * float64(n-j) / float64(j+1)
		}
		s += b * math.Pow(x, float64(k)) * math.Pow(1-x, float64(n-k))
	}
	return s
}

func filtersAndTransforms(c *Ctx) {
	orders, num := 10, 1000
	if c.Thorough {
		orders, num = 25, 20000
	}
	if c.Deep {
		orders, num = 60, 100000
	}
	c.bound("Vandeven filters of order 1..%d at %d points of [0,1] and beyond", orders, num+1)
	for p := 1; p <= orders; p++ {
		p := p
		c.Case(fmt.Sprintf("vandeven order=%d", p), func(r *Run) {
			f := pf.NewVandeven(p)
			last := math.Inf(1)
			for i := 0; i <= num; i++ {
				x := float64(i) / float64(num)
				v := f.Eval(x)
				r.Step(1)
				r.close1(fmt.Sprintf("filter of order %d at %g", p, x), v, betaTail(p, x), 2e-4)
				r.Check(v <= last+1e-12, "the filter of order %d increases at %g", p, x)
				last = v
			}
			r.Check(f.Eval(0) == 1, "the filter is %g at zero frequency", f.Eval(0))
			for _, x := range []float64{1, 1.0001, 1.2, 5} {
				r.Check(math.Abs(f.Eval(x)) < 1e-4, "the filter is %g at %g", f.Eval(x), x)
			}
			r.ObserveF("vandeven", []float64{f.Eval(0.3), f.Eval(0.7)})
			r.Outcome("vandeven")
		})
	}
	viscosity(c)
	boundTransforms(c)
	solverFilter(c)
}

func viscosity(c *Ctx) {
	m2, m3 := 6, 3
	if c.Thorough {
		m2, m3 = 9, 4
	}
	if c.Deep {
		m2, m3 = 14, 6
	}
	ms := []float64{0.05, 0.1, 0.3, 0.45, 0.7, 1.2}
	c.bound("spectral viscosity: all domains up to %d^2 and %d^3 with thresholds %v, powers 0..4, two strengths", m2, m3, ms)
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		for _, m := range ms {
			for pw := 0; pw <= 4; pw++ {
				m, pw := m, pw
				c.Case(fmt.Sprintf("viscosity dims=%s m=%g power=%d", ints(dims), m, pw), func(r *Run) {
					for _, eps := range []float64{0.5, 2} {
						sv := &pf.SpectralViscosity{Eps: eps, DissipationThreshold: m, Power: pw}
						t := dterm{name: "viscosity",
							add: func(mod *pf.Model, reg string, dims []int) { mod.RegisterImplicitTerm(reg, sv, nil) },
							imp: func(dims []int) []complex128 {
								out := make([]complex128, n)
								for i := range out {
									k := norm2(refFreq(dims, i))
									q := 1.0
									if k < m/3 {
										q = 0
									} else if k <= m {
										x := 3*k/(2*m) - 0.5
										q = 2*x*x - 3*x*x*x
									}
									out[i] = complex(-eps*q*math.Pow(k, float64(pw)), 0)
								}
								return out
							}}
						// frequencies on a limit may fall on either side
						for i := 0; i < n; i++ {
							if k := norm2(refFreq(dims, i)); math.Abs(k-m) < 1e-9 {
								r.Outcome("threshold skipped")
								return
							}
						}
						runTerms(r, dims, "euler", []dterm{t}, []float64{1}, []int{0}, map[string][]complex128{"c": genericField(n, 2)}, nil, 1, 0.2)
					}
					r.Outcome("viscosity")
				})
			}
		}
	})
}

func boundTransforms(c *Ctx) {
	lims := []float64{-100, -1, 0, 0.25, 1, 7}
	xs := []float64{-1e6, -50, -3, -1, -0.2, 0, 0.2, 1, 3, 50, 1e6}
	c.bound("bound transforms: every interval with ends in %v, %d positions", lims, len(xs))
	for a, lo := range lims {
		for _, hi := range lims[a+1:] {
			lo, hi := lo, hi
			c.Case(fmt.Sprintf("bound min=%g max=%g", lo, hi), func(r *Run) {
				bt := pf.BoundTransform{Min: lo, Max: hi}
				last := math.Inf(-1)
				for _, x := range xs {
					y := bt.Forward(x)
					r.Step(2)
					r.Check(y > lo && y < hi, "%g is mapped to %g, outside (%g, %g)", x, y, lo, hi)
					r.Check(y > last, "not increasing at %g", x)
					last = y
					if math.Abs(x) < 100 {
						r.close1(fmt.Sprintf("inverse of the image of %g", x), bt.Backward(y), x, 1e-7*(1+math.Abs(x))*(1+math.Abs(x)))
					}
				}
				for i := 1; i < 40; i++ {
					y := lo + (hi-lo)*float64(i)/40
					r.close1(fmt.Sprintf("image of the inverse of %g", y), bt.Forward(bt.Backward(y)), y, 1e-9)
				}
				for _, x := range []float64{1e5, 1e6, 1e7, 1e8} { // far out the limits are approached as 1/(pi x)
					r.close1(fmt.Sprintf("distance to the upper limit at %g", x), (hi-bt.Forward(x))*math.Pi*x/(hi-lo), 1, 1e-3+x*1e-14*(1+math.Abs(hi)/(hi-lo)))
					r.close1(fmt.Sprintf("distance to the lower limit at %g", -x), (bt.Forward(-x)-lo)*math.Pi*x/(hi-lo), 1, 1e-3+x*1e-14*(1+math.Abs(lo)/(hi-lo)))
				}
				r.close1("centre", bt.Forward(0), (lo+hi)/2, 1e-9)
				r.ObserveF("bound", []float64{bt.Forward(0.2)})
				r.Outcome("bound")
			})
		}
	}
}

// solverFilter: the Vandeven filter used by the solver damps by the documented amount
func solverFilter(c *Ctx) {
	m2, m3 := 5, 3
	c.bound("Vandeven filter in a run: all domains up to %d^2 and %d^3, constant and every impulse field: the mean is untouched and no mode grows", m2, m3)
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		c.Case("filter run dims="+ints(dims), func(r *Run) {
			for _, scheme := range []string{"euler", "rk4"} {
				for _, j := range spots(n) {
					m := pf.NewModel()
					m.AddField(pf.NewField("c", n, impulse(n, j)))
					m.AddScalar(pf.NewScalar("zero", 0))
					m.AddEquation("dc/dt = zero*c")
					s := pf.NewSolver(&m, cloneI(dims), 0.1)
					s.SetStepper(scheme)
					f := pf.NewVandeven(3)
					s.Stepper.SetFilter(&f)
					s.Propagate(1)
					r.Step(1)
					a, b := refDFT(dims, impulse(n, j), -1), refDFT(dims, m.Fields[0].Data, -1)
					r.Check(cabs(a[0]-b[0]) < 1e-9, "the mean changes from %v to %v", a[0], b[0])
					for i := range a {
						r.Check(cabs(b[i]) <= cabs(a[i])+1e-9, "mode %d grows", i)
					}
					for i, v := range m.Fields[0].Data {
						r.Check(math.Abs(imag(v)) < 1e-9, "imaginary part at %d", i)
					}
					r.ObserveC(strings.ToUpper(scheme), m.Fields[0].Data)
				}
			}
			r.Outcome("filter run")
		})
	})
}

func cabs(z complex128) float64 { return math.Hypot(real(z), imag(z)) }
