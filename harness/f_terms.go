package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gosfft/sfft"
)

func init() {
	register("F01", "model_checking", differentialTerms)
}

// derivative of a real space field along one axis. The Nyquist mode has no derivative on the grid.
func refGrad(dims []int, x []complex128, comp int) []complex128 {
	k := refDFT(dims, x, -1)
	for i := range k {
		f := refFreq(dims, i)[comp]
		if math.Abs(math.Abs(f)-0.5) < 1e-10 {
			f = 0
		}
		k[i] *= complex(0, 2*math.Pi*f)
	}
	return refIDFT(dims, k)
}

func refLap(dims []int, x []complex128) []complex128 {
	k := refDFT(dims, x, -1)
	for i := range k {
		f := norm2(refFreq(dims, i))
		k[i] *= complex(-4*math.Pi*math.Pi*f*f, 0)
	}
	return refIDFT(dims, k)
}

// dterm is a term supplied by the library with its definition
type dterm struct {
	name string
	// add registers the term under the name reg
	add func(m *pf.Model, reg string, dims []int)
	// ref is the real space value
	ref func(dims []int, f map[string][]complex128) []complex128
	// imp is set for implicit terms: the Fourier coefficient
	imp func(dims []int) []complex128
}

func divGradTerm(name, field string, F func(get func(string) complex128) complex128) dterm {
	return dterm{name: name,
		add: func(m *pf.Model, reg string, dims []int) {
			dg := &pf.DivGrad{Field: field, F: func(i int, b map[string]pf.Brick) complex128 {
				return F(func(n string) complex128 { return b[n].Get(i) })
			}}
			dg.PrepareModel(prod(dims), m, pfutil.NewFFTW(dims))
			m.RegisterExplicitTerm(reg, dg, nil)
		},
		ref: func(dims []int, f map[string][]complex128) []complex128 {
			out := make([]complex128, prod(dims))
			for d := range dims {
				g := refGrad(dims, f[field], d)
				for i := range g {
					i := i
					g[i] *= F(func(n string) complex128 { return f[n][i] })
				}
				for i, v := range refGrad(dims, g, d) {
					out[i] += v
				}
			}
			return out
		}}
}

func advectionTerm(name, field string, vel []string) dterm {
	return dterm{name: name,
		add: func(m *pf.Model, reg string, dims []int) {
			ad := &pf.Advection{Field: field, VelocityFields: append([]string{}, vel[:len(dims)]...)}
			ad.PrepareModel(prod(dims), m, pfutil.NewFFTW(dims))
			m.RegisterExplicitTerm(reg, ad, nil)
		},
		ref: func(dims []int, f map[string][]complex128) []complex128 {
			out := make([]complex128, prod(dims))
			for d := range dims {
				for i, v := range refGrad(dims, f[field], d) {
					out[i] -= v * f[vel[d]][i]
				}
			}
			return out
		}}
}

func weightedLapTerm(name, field, pre string) dterm {
	return dterm{name: name,
		add: func(m *pf.Model, reg string, dims []int) {
			m.RegisterExplicitTerm(reg, &pf.WeightedLaplacian{Field: field, PreFactor: pre, FT: pfutil.NewFFTW(dims)}, nil)
		},
		ref: func(dims []int, f map[string][]complex128) []complex128 {
			out := refLap(dims, f[field])
			for i := range out {
				out[i] *= f[pre][i]
			}
			return out
		}}
}

func squaredGradTerm(name, field string, factor float64) dterm {
	return dterm{name: name,
		add: func(m *pf.Model, reg string, dims []int) {
			sq := pf.NewSquareGradient(field, cloneI(dims))
			if factor != 1 {
				sq.Factor = factor
			}
			m.RegisterExplicitTerm(reg, &sq, nil)
		},
		ref: func(dims []int, f map[string][]complex128) []complex128 {
			out := make([]complex128, prod(dims))
			for d := range dims {
				for i, v := range refGrad(dims, f[field], d) {
					out[i] += v * v * complex(factor, 0)
				}
			}
			return out
		}}
}

// hessianTerm is K_ij d2c/dx_idx_j; the coefficient is enumerated by the caller
func hessianTerm(name string, K func(dim int) []float64) dterm {
	return dterm{name: name,
		add: func(m *pf.Model, reg string, dims []int) {
			m.RegisterImplicitTerm(reg, &pf.TensorialHessian{Field: "c", K: K(len(dims))}, nil)
		},
		imp: func(dims []int) []complex128 {
			out := make([]complex128, prod(dims))
			k := K(len(dims))
			for i := range out {
				f := refFreq(dims, i)
				s := 0.0
				for a := range f {
					for b := range f {
						if a != b && (math.Abs(math.Abs(f[a])-0.5) < 1e-10 || math.Abs(math.Abs(f[b])-0.5) < 1e-10) {
							continue // odd derivatives of the Nyquist mode vanish
						}
						s -= 4 * math.Pi * math.Pi * f[a] * f[b] * k[a*len(f)+b]
					}
				}
				out[i] = complex(s, 0)
			}
			return out
		}}
}

func tensorK(dim int, diag, off, asym float64) []float64 {
	k := make([]float64, dim*dim)
	for a := 0; a < dim; a++ {
		for b := 0; b < dim; b++ {
			switch {
			case a == b:
				k[a*dim+b] = diag * float64(1+a)
			case a < b:
				k[a*dim+b] = off*float64(1+b-a) + asym
			default:
				k[a*dim+b] = off*float64(1+a-b) - 0.5*asym
			}
		}
	}
	return k
}

// runTerms builds one model with the given terms in the equation of c and compares the evolution
// with the definition. slow are the names of further fields; they change in time as well.
func runTerms(r *Run, dims []int, scheme string, terms []dterm, signs []float64, order []int, init map[string][]complex128, others []string, steps int, dt float64) {
	n := prod(dims)
	m := pf.NewModel()
	names := append([]string{"c"}, others...)
	for _, nm := range names {
		m.AddField(pf.NewField(nm, n, cloneC(init[nm])))
	}
	m.AddScalar(pf.NewScalar("m", complex(0.3, 0)))
	regs := make([]string, len(terms))
	for k := range terms {
		regs[k] = fmt.Sprintf("TERM%d", k+1)
	}
	for _, k := range order {
		terms[k].add(&m, regs[k], cloneI(dims))
	}
	eq := "dc/dt = "
	for k := range terms {
		if signs[k] < 0 {
			eq += " - "
		} else if k > 0 {
			eq += " + "
		}
		eq += regs[k]
	}
	m.AddEquation(eq)
	sp := spec{dims: dims, names: names, scal: map[string]float64{"m": 0.3}, terms: make([][]eqTerm, len(names))}
	for k, o := range others {
		m.AddEquation("d" + o + "/dt = m*c")
		sp.terms[k+1] = []eqTerm{{sign: 1, factors: []factor{sc("m", 1), fl("c", 1)}, text: "m*c"}}
	}
	sp.extra = func(e int, t float64, f map[string][]complex128) []complex128 {
		out := make([]complex128, n)
		if e != 0 {
			return out
		}
		for k, tm := range terms {
			if tm.ref == nil {
				continue
			}
			for i, v := range tm.ref(dims, f) {
				out[i] += complex(signs[k], 0) * v
			}
		}
		return refDFT(dims, out, -1)
	}
	sp.extraDen = func(e int) []complex128 {
		out := make([]complex128, n)
		if e != 0 {
			return out
		}
		for k, tm := range terms {
			if tm.imp == nil {
				continue
			}
			for i, v := range tm.imp(dims) {
				out[i] += complex(signs[k], 0) * v
			}
		}
		return out
	}
	s := pf.NewSolver(&m, cloneI(dims), dt)
	s.SetStepper(scheme)
	drive(r, sp, &m, s.Stepper, scheme, dt, init, steps, 1e-9)
	for _, f := range m.Fields {
		mx := maxAbsC(f.Data)
		for i, v := range f.Data {
			r.Check(math.Abs(imag(v)) <= 1e-9*(1+mx), "field %s has the imaginary part %g at node %d", f.Name, imag(v), i)
		}
	}
}

func impulse(n, i int) []complex128 {
	x := make([]complex128, n)
	x[i] = 1
	return x
}

func differentialTerms(c *Ctx) {
	gradients(c)
	termBasis(c)
	termCombos(c)
	manyTerms(c)
	ambiguousNames(c)
	for _, dims := range longDomains {
		for k, t := range termPool() {
			dims, k, t := dims, k, t
			c.Case(fmt.Sprintf("long domain %s %s", ints(dims), t.name), func(r *Run) {
				n := prod(dims)
				init := map[string][]complex128{}
				names := []string{"b", "c_0", "c_1", "c_2"}
				for i, nm := range append([]string{"c"}, names...) {
					init[nm] = genericField(n, i+k)
				}
				runTerms(r, dims, "euler", []dterm{t}, []float64{1}, []int{0}, init, names, 1, 0.1)
				r.Outcome(t.name)
			})
		}
	}
	termRejects(c)
	localTerms(c)
}

func gradients(c *Ctx) {
	m2, m3 := 4, 3
	if c.Thorough {
		m2, m3 = 7, 4
	}
	if c.Deep {
		m2, m3 = 10, 5
	}
	c.bound("gradient calculator: all domains up to %d^2 (with both FFT implementations) and %d^3, every component, with and without the Nyquist mode, every impulse, in place and out of place, as a derived field", m2, m3)
	c.bound("gradients and single terms on the long domains %v", longDomains)
	visit := func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		for ftKind := 0; ftKind < 2; ftKind++ {
			if ftKind == 1 && len(dims) != 2 {
				continue
			}
			for comp := range dims {
				for keep := 0; keep < 2; keep++ {
					ftKind, comp, keep := ftKind, comp, keep
					c.Case(fmt.Sprintf("gradient dims=%s ft=%d comp=%d keep=%d", ints(dims), ftKind, comp, keep), func(r *Run) {
						var ft pf.FourierTransform = pfutil.NewFFTW(cloneI(dims))
						if ftKind == 1 {
							ft = sfft.NewFFT2(dims[0], dims[1])
						}
						g := pf.GradientCalculator{FT: ft, Comp: comp, KeepNyquist: keep == 1}
						for _, j := range append(spots(n), n) {
							x := genericField(n, 5)
							if j < n {
								x = impulse(n, j)
							}
							want := refGrad(dims, x, comp)
							if keep == 1 {
								k := refDFT(dims, x, -1)
								for i := range k {
									k[i] *= complex(0, 2*math.Pi*ft.Freq(i)[comp])
								}
								want = refIDFT(dims, k)
							}
							in := cloneC(x)
							out := genericField(n, 9)
							g.Calculate(in, out)
							r.Step(1)
							r.closeC(fmt.Sprintf("gradient of field %d", j), out, want, 1e-10)
							r.Check(maxAbsC(sub(in, x)) == 0, "the input is changed")
							g.Calculate(in, in)
							r.closeC(fmt.Sprintf("gradient of field %d in place", j), in, want, 1e-10)
							src := pf.NewField("c", n, cloneC(x))
							df := g.ToDerivedField("g", n, &src)
							for rep := 0; rep < 2; rep++ {
								df.Update()
								r.closeC(fmt.Sprintf("derived gradient of field %d", j), df.Data, want, 1e-10)
							}
							r.Check(maxAbsC(sub(src.Data, x)) == 0, "the differentiated field is changed")
							r.ObserveC("grad", out)
						}
						r.Outcome("gradient")
					})
				}
			}
		}
	}
	shapesB(c, m2, m3, visit)
	for _, dims := range longDomains {
		visit(dims)
	}
}

func sub(a, b []complex128) []complex128 {
	out := make([]complex128, len(a))
	for i := range a {
		out[i] = a[i] - b[i]
	}
	return out
}

func velNames(dim int) []string { return []string{"u", "v", "w"}[:dim] }

// termBasis: the bilinear terms are determined by their values on all pairs of impulses
func termBasis(c *Ctx) {
	m2, m3 := 4, 2
	if c.Thorough {
		m2, m3 = 6, 3
	}
	if c.Deep {
		m2, m3 = 7, 3
	}
	c.bound("single terms: all domains up to %d^2 and %d^3, every pair of impulses (i, j) of the two fields that enter", m2, m3)
	lin := divGradTerm("divgrad", "c", func(g func(string) complex128) complex128 { return g("b") })
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		one := func(key string, t dterm, others []string, init func() map[string][]complex128) {
			c.Case(fmt.Sprintf("basis dims=%s %s", ints(dims), key), func(r *Run) {
				runTerms(r, dims, "euler", []dterm{t}, []float64{1}, []int{0}, init(), others, 1, 0.5)
				r.Outcome(t.name)
			})
		}
		for _, i := range spots(n) {
			for _, j := range spots(n) {
				i, j := i, j
				one(fmt.Sprintf("divgrad b=%d c=%d", i, j), lin, []string{"b"}, func() map[string][]complex128 {
					return map[string][]complex128{"c": impulse(n, j), "b": impulse(n, i)}
				})
				one(fmt.Sprintf("weightedlap b=%d c=%d", i, j), weightedLapTerm("weightedlap", "c", "b"), []string{"b"}, func() map[string][]complex128 {
					return map[string][]complex128{"c": impulse(n, j), "b": impulse(n, i)}
				})
				if i <= j {
					one(fmt.Sprintf("squaredgrad %d+%d", i, j), squaredGradTerm("squaredgrad", "c", 0.7), nil, func() map[string][]complex128 {
						x := impulse(n, j)
						x[i] += 1
						return map[string][]complex128{"c": x}
					})
				}
				for d := range dims {
					d := d
					one(fmt.Sprintf("advection v%d=%d c=%d", d, i, j), advectionTerm("advection", "c", velNames(len(dims))), velNames(len(dims)), func() map[string][]complex128 {
						f := map[string][]complex128{"c": impulse(n, j)}
						for e, nm := range velNames(len(dims)) {
							f[nm] = make([]complex128, n)
							if e == d {
								f[nm] = impulse(n, i)
							}
						}
						return f
					})
				}
			}
			// linear term: impulses of the field times a basis of coefficient matrices
			for e := 0; e < len(dims)*len(dims); e++ {
				i, e := i, e
				one(fmt.Sprintf("hessian K=%d c=%d", e, i), hessianTerm("hessian", func(dim int) []float64 {
					k := make([]float64, dim*dim)
					k[e] = 0.1 * float64(1+e)
					return k
				}), nil, func() map[string][]complex128 { return map[string][]complex128{"c": impulse(n, i)} })
			}
		}
	})
}

func termPool() []dterm {
	return []dterm{
		divGradTerm("divgrad-b", "c", func(g func(string) complex128) complex128 { return 0.4 + 0.2*g("b") }),
		divGradTerm("divgrad-c", "c", func(g func(string) complex128) complex128 { return 1 + 0.1*g("c")*g("c_0") }),
		divGradTerm("divgrad-of-b", "b", func(g func(string) complex128) complex128 { return 0.3 * g("c") }),
		advectionTerm("advect-1", "c", []string{"c_0", "c_1", "c_2"}),
		advectionTerm("advect-2", "c", []string{"b", "c_0", "c_1"}),
		advectionTerm("advect-b", "b", []string{"c_1", "c", "b"}),
		weightedLapTerm("wlap", "c", "b"),
		squaredGradTerm("sqgrad", "c", 1),
		squaredGradTerm("sqgrad-b", "b", -0.6),
		hessianTerm("hessian", func(dim int) []float64 { return tensorK(dim, 0.05, 0.02, 0.01) }),
	}
}

// manyTerms: several terms of one kind acting on one field
func manyTerms(c *Ctx) {
	domains := [][]int{{4, 3}, {3, 4, 3}}
	names := []string{"b", "c_0", "c_1"}
	kinds := map[string][]dterm{"advection": {
		advectionTerm("ad-1", "c", []string{"b", "c_0", "c_1"}), advectionTerm("ad-2", "c", []string{"c_0", "b", "c_1"}),
		advectionTerm("ad-3", "c", []string{"c_0", "c_1", "b"}), advectionTerm("ad-4", "c", []string{"c_1", "c_1", "c_1"})}}
	for k := 0; k < 4; k++ {
		k := k
		kinds["divgrad"] = append(kinds["divgrad"], divGradTerm(fmt.Sprintf("dg-%d", k), "c", func(g func(string) complex128) complex128 {
			switch k {
			case 0:
				return 0.4 + 0.2*g("b")
			case 1:
				return 0.3 * g("c")
			case 2:
				return 0.2*g("c_0")*g("c_1") - 0.1
			}
			return 0.5 - 0.3*g("b")*g("c")
		}))
		kinds["wlap"] = append(kinds["wlap"], weightedLapTerm(fmt.Sprintf("wl-%d", k), "c", []string{"b", "c", "c_0", "c_1"}[k]))
		kinds["sqgrad"] = append(kinds["sqgrad"], squaredGradTerm(fmt.Sprintf("sq-%d", k), []string{"c", "b", "c", "c_0"}[k], []float64{1, -0.6, 0.3, 0.7}[k]))
		kinds["hessian"] = append(kinds["hessian"], hessianTerm(fmt.Sprintf("he-%d", k), func(dim int) []float64 {
			return tensorK(dim, 0.05*float64(k+1), 0.02, 0.03-0.01*float64(k))
		}))
	}
	c.bound("many terms: four different terms of one kind (divergence, advection, weighted Laplacian, squared gradient, Hessian) acting on one field in one model, every subset of three or four in every order on %v, euler and rk4, two steps", domains)
	for _, dims := range domains {
		dims := dims
		n := prod(dims)
		for _, kind := range []string{"divgrad", "advection", "wlap", "sqgrad", "hessian"} {
			for skip := -1; skip < 4; skip++ {
				ts := []dterm{}
				sg := []float64{}
				for k, t := range kinds[kind] {
					if k != skip {
						ts = append(ts, t)
						sg = append(sg, []float64{1, -1, 1, 1}[k])
					}
				}
				permutations(len(ts), func(p []int) {
					p = cloneI(p)
					for _, scheme := range []string{"euler", "rk4"} {
						kind, skip, scheme := kind, skip, scheme
						c.Case(fmt.Sprintf("many dims=%s kind=%s without=%d order=%v %s", ints(dims), kind, skip, p, scheme), func(r *Run) {
							init := map[string][]complex128{"c": genericField(n, 3)}
							for k, nm := range names {
								init[nm] = genericField(n, 20+k)
							}
							runTerms(r, dims, scheme, ts, sg, p, init, names, 2, 0.01)
							r.Outcome("many terms")
						})
					}
				})
			}
		}
	}
}

// termCombos: several terms in one model, in every registration order
func termCombos(c *Ctx) {
	domains := [][]int{{4, 3}, {3, 3, 4}}
	size := 2
	if c.Thorough {
		domains = [][]int{{4, 3}, {4, 4}, {5, 2}, {3, 2, 4}, {2, 4, 1}}
		size = 3
	}
	pool := termPool()
	c.bound("combinations: every choice of up to %d of the terms %v, and every term twice, in every registration order on %v, with euler and rk4, two steps, coupled to fields that evolve and have names similar to internal ones", size, len(pool), domains)
	for _, dims := range domains {
		dims := dims
		n := prod(dims)
		names := []string{"b", "c_0", "c_1", "c_2"}
		init := func() map[string][]complex128 {
			f := map[string][]complex128{"c": genericField(n, 3)}
			for k, nm := range names {
				f[nm] = genericField(n, 20+k)
			}
			return f
		}
		sequences(len(pool), 1, size, func(seq []int) {
			for k := 1; k < len(seq); k++ {
				if seq[k] < seq[k-1] || (seq[k] == seq[k-1] && len(seq) > 2) {
					return
				}
			}
			seq = cloneI(seq)
			permutations(len(seq), func(p []int) {
				p = cloneI(p)
				for _, scheme := range []string{"euler", "rk4"} {
					scheme := scheme
					ts := []dterm{}
					sg := []float64{}
					nm := []string{}
					for k, i := range seq {
						ts = append(ts, pool[i])
						nm = append(nm, pool[i].name)
						sg = append(sg, []float64{1, -1, 1}[(k+i)%3])
					}
					c.Case(fmt.Sprintf("combo dims=%s terms=%s order=%v %s", ints(dims), strings.Join(nm, ","), p, scheme), func(r *Run) {
						runTerms(r, dims, scheme, ts, sg, p, init(), names, 2, 0.01)
						r.Outcome("combination")
					})
				}
			})
		})
	}
}

// ambiguousNames: advection terms of one field whose velocities have names that
// read the same one after the other
func ambiguousNames(c *Ctx) {
	domains := [][]int{{4, 3}, {3, 4, 3}}
	lists := [][]string{{"u", "vw", "w"}, {"uv", "w", "w"}, {"u", "v_w", "w"}, {"u_v", "w", "w"}, {"u", "v,w", "w"}, {"u,v", "w", "w"},
		{"u", "w", "w"}, {"w", "u", "u"}, {"u", "w", "u"}, {"u", "u", "w"}, {"w", "w", "u"}, {"w", "u", "w"}}
	names := []string{}
	seen := map[string]bool{}
	for _, l := range lists {
		for _, n := range l {
			if !seen[n] {
				seen[n] = true
				names = append(names, n)
			}
		}
	}
	c.bound("names: all ordered pairs of advection terms of one field with the velocities %q (joined, several of them read the same) on %v, with euler and rk4, two steps", lists, domains)
	for _, dims := range domains {
		dims := dims
		n := prod(dims)
		for i := range lists {
			for j := range lists {
				if i == j {
					continue
				}
				i, j := i, j
				for _, scheme := range []string{"euler", "rk4"} {
					scheme := scheme
					c.Case(fmt.Sprintf("names dims=%s velocities=%q,%q %s", ints(dims), lists[i], lists[j], scheme), func(r *Run) {
						init := map[string][]complex128{"c": genericField(n, 3)}
						for k, nm := range names {
							init[nm] = genericField(n, 20+k)
						}
						ts := []dterm{advectionTerm("advect-1", "c", lists[i]), advectionTerm("advect-2", "c", lists[j])}
						runTerms(r, dims, scheme, ts, []float64{1, -1}, []int{0, 1}, init, names, 2, 0.01)
						r.Outcome("names")
					})
				}
			}
		}
	}
}

func termRejects(c *Ctx) {
	c.bound("rejection: advection with every wrong number of velocity fields or one missing field, square gradients of 1D and 4D domains")
	for _, dims := range [][]int{{3, 4}, {2, 3, 2}} {
		dims := dims
		n := prod(dims)
		for nv := 0; nv <= 4; nv++ {
			for missing := -1; missing <= nv; missing++ {
				nv, missing := nv, missing
				c.Case(fmt.Sprintf("reject dims=%s velocities=%d missing=%d", ints(dims), nv, missing), func(r *Run) {
					m := pf.NewModel()
					vel := []string{}
					if missing != nv {
						m.AddField(pf.NewField("c", n, nil))
					} else {
						m.AddField(pf.NewField("other", n, nil))
					}
					for k := 0; k < nv; k++ {
						nm := fmt.Sprintf("v%d", k)
						vel = append(vel, nm)
						if k != missing {
							m.AddField(pf.NewField(nm, n, nil))
						}
					}
					ad := pf.Advection{Field: "c", VelocityFields: vel}
					p, _ := panics(func() { ad.PrepareModel(n, &m, pfutil.NewFFTW(cloneI(dims))) })
					r.Step(1)
					r.Check(p == (nv != len(dims) || missing >= 0), "panic=%v", p)
					r.Outcome("rejection")
				})
			}
		}
	}
	for _, bad := range [][]int{{}, {4}, {2, 2, 2, 2}} {
		bad := bad
		c.Case("reject squaredgrad dims="+ints(bad), func(r *Run) {
			p, _ := panics(func() { pf.NewSquareGradient("c", bad) })
			r.Check(p, "a domain with %d dimensions is accepted", len(bad))
			r.Outcome("rejection")
		})
	}
}

// lastAxis is an implicit term that looks at the last component of the frequency
type lastAxis struct{ dim int }

func (l lastAxis) coef(f []float64) complex128 {
	return complex(-3*f[l.dim-1]*f[l.dim-1]-0.5*f[0]*f[0], 0)
}
func (l lastAxis) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = l.coef(freq(i))
		}
	}
}
func (l lastAxis) OnStepFinished(t float64, b map[string]pf.Brick) {}

// implicitAxes: implicit terms of the user work in two and three dimensions
func implicitAxes(c *Ctx) {
	c.bound("implicit terms that depend on every component of the frequency: all domains up to 4^2 and 3^3")
	shapesB(c, 4, 3, func(dims []int) {
		dims = cloneI(dims)
		c.Case("implicit axes dims="+ints(dims), func(r *Run) {
			l := lastAxis{len(dims)}
			t := dterm{name: "axis",
				add: func(m *pf.Model, reg string, dims []int) { m.RegisterImplicitTerm(reg, l, nil) },
				imp: func(dims []int) []complex128 {
					out := make([]complex128, prod(dims))
					for i := range out {
						out[i] = l.coef(refFreq(dims, i))
					}
					return out
				}}
			runTerms(r, dims, "euler", []dterm{t}, []float64{1}, []int{0}, map[string][]complex128{"c": genericField(prod(dims), 3)}, nil, 2, 0.3)
			r.Outcome("implicit axes")
		})
	})
}
