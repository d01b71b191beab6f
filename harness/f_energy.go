package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("F02", "model_checking", energyTerms)
}

func energyTerms(c *Ctx) {
	pairTerms(c)
	mixTerms(c)
	penaltyTerms(c)
	elasticTerms(c)
	localEnergies(c)
}

func realBricks(f map[string][]complex128) map[string]pf.Brick {
	b := map[string]pf.Brick{}
	for k, v := range f {
		fl := pf.NewField(k, len(v), cloneC(v))
		b[k] = &fl
	}
	return b
}

func corrRef(p pfc.ReciprocalSpacePairCorrelation, k float64) float64 {
	best := 0.0
	for _, q := range p.Peaks {
		damp := p.EffTemp * p.EffTemp * k * k / (2 * q.PlaneDensity * float64(q.NumPlanes))
		d := (k - q.Location) / q.Width
		if v := math.Exp(-damp - d*d/2); v > best {
			best = v
		}
	}
	return best
}

func corrFuncs() []pfc.ReciprocalSpacePairCorrelation {
	p1 := pfc.Peak{PlaneDensity: 1, NumPlanes: 4, Width: 0.8, Location: 1.5}
	p2 := pfc.Peak{PlaneDensity: 0.7, NumPlanes: 3, Width: 1.4, Location: 3.2}
	return []pfc.ReciprocalSpacePairCorrelation{
		{EffTemp: 0, Peaks: []pfc.Peak{p1}},
		{EffTemp: 0.6, Peaks: []pfc.Peak{p1, p2}},
		{EffTemp: 0.6, Peaks: []pfc.Peak{p2, p1}},
	}
}

// dq is the exact derivative of a polynomial of degree four or less
func dq(f func(h float64) float64) float64 {
	const h = 0.5
	return (8*(f(h)-f(-h)) - (f(2*h) - f(-2*h))) / (12 * h)
}

func symbolTimes(dims []int, x []complex128, s func(f []float64) float64) []complex128 {
	k := refDFT(dims, x, -1)
	for i := range k {
		k[i] *= complex(s(refFreq(dims, i)), 0)
	}
	return refIDFT(dims, k)
}

func pairTerms(c *Ctx) {
	m2, m3 := 4, 2
	if c.Thorough {
		m2, m3 = 6, 4
	}
	if c.Deep {
		m2, m3 = 8, 5
	}
	c.bound("pair correlation: all domains up to %d^2 and %d^3, every impulse and a generic field, 3 correlation functions, two prefactors, with and without Laplacian, implicit and explicit, own and foreign field; energy derivative for every node", m2, m3)
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		for ci, cf := range corrFuncs() {
			for _, pre := range []float64{1, -0.4} {
				ci, cf, pre := ci, cf, pre
				sym := func(f []float64) float64 { return -pre * corrRef(cf, 2*math.Pi*norm2(f)) }
				for _, j := range append(spots(n), n) {
					x := genericField(n, 4)
					if j < n {
						x = impulse(n, j)
					}
					key := fmt.Sprintf("pair dims=%s corr=%d pre=%g field=%d", ints(dims), ci, pre, j)
					for lp := 0; lp < 2; lp++ {
						s := sym
						if lp == 1 {
							s = func(f []float64) float64 { return -4 * math.Pi * math.Pi * norm2(f) * norm2(f) * sym(f) }
						}
						for kind := 0; kind < 3; kind++ {
							lp, kind, s := lp, kind, s
							c.Case(fmt.Sprintf("%s lap=%d kind=%d", key, lp, kind), func(r *Run) {
								field := "c"
								if kind == 2 {
									field = "b"
								}
								base := pf.PairCorrlationTerm{PairCorrFunc: cf, Field: field, Prefactor: pre, Laplacian: lp == 1}
								t := dterm{name: "pair"}
								if kind == 0 {
									t.add = func(m *pf.Model, reg string, dims []int) { m.RegisterImplicitTerm(reg, &base, nil) }
									t.imp = func(dims []int) []complex128 {
										out := make([]complex128, n)
										for i := range out {
											out[i] = complex(s(refFreq(dims, i)), 0)
										}
										return out
									}
								} else {
									t.add = func(m *pf.Model, reg string, dims []int) {
										m.RegisterExplicitTerm(reg, &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: base}, nil)
									}
									t.ref = func(dims []int, f map[string][]complex128) []complex128 {
										return symbolTimes(dims, f[field], s)
									}
								}
								runTerms(r, dims, "euler", []dterm{t}, []float64{1}, []int{0}, map[string][]complex128{"c": x, "b": genericField(n, 8)}, []string{"b"}, 1, 0.01)
								r.Outcome("pair term")
							})
						}
					}
					if j == n {
						c.Case(key+" energy", func(r *Run) {
							t := pf.PairCorrlationTerm{PairCorrFunc: cf, Field: "c", Prefactor: pre}
							ft := pfutil.NewFFTW(cloneI(dims))
							want := symbolTimes(dims, x, sym)
							got := make([]complex128, n)
							e0 := 0.0
							for i := range got {
								e0 += 0.5 * real(x[i]*want[i])
								got[i] = want[i]
							}
							for _, i := range spots(n) {
								i := i
								got[i] = complex(dq(func(h float64) float64 {
									y := cloneC(x)
									y[i] += complex(h, 0)
									b := realBricks(map[string][]complex128{"c": y})
									e := t.GetEnergy(b, ft, cloneI(dims))
									r.Check(b["c"].Get(i) == y[i], "the energy calculation changes the field")
									r.Step(1)
									return e
								}), 0)
							}
							r.closeC("derivative of the energy", got, want, 1e-9)
							r.close1("energy", t.GetEnergy(realBricks(map[string][]complex128{"c": x}), ft, cloneI(dims)), e0, 1e-9)
							for _, size := range []float64{1e-7, 1e-3, 1e5} {
								y := cloneC(x)
								for i := range y {
									y[i] *= complex(size, 0)
								}
								r.close1(fmt.Sprintf("energy of a field of size %g", size), t.GetEnergy(realBricks(map[string][]complex128{"c": y}), ft, cloneI(dims))/(size*size), e0, 1e-9)
							}
							r.ObserveC("E", got)
							r.Outcome("pair energy")
						})
					}
				}
			}
		}
	})
}

func mixTerms(c *Ctx) {
	vals := []float64{-1.2, -0.5, 0, 0.3, 1, 2.4}
	consts := []float64{0, 1, -0.7}
	c.bound("ideal mixture: constants %v, prefactors, with and without Laplacian, on 3 domains with nodal values %v, as a mixed term and as a registered function, two steps, and the derivative of the energy", consts, vals)
	for _, dims := range [][]int{{2, 3}, {4, 3}, {2, 2, 3}} {
		for _, c3 := range consts {
			for _, c4 := range consts {
				for _, pre := range []float64{1, 0.35, -2} {
					for lp := 0; lp < 2; lp++ {
						for kind := 0; kind < 2; kind++ {
							dims, c3, c4, pre, lp, kind := dims, c3, c4, pre, lp, kind
							n := prod(dims)
							c.Case(fmt.Sprintf("mix dims=%s C3=%g C4=%g pre=%g lap=%d kind=%d", ints(dims), c3, c4, pre, lp, kind), func(r *Run) {
								x := make([]complex128, n)
								for i := range x {
									x[i] = complex(vals[i%len(vals)], 0)
								}
								idt := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: c3, C4: c4}, Field: "c", Prefactor: pre, Laplacian: lp == 1}
								nonlin := func(v float64) float64 { return pre * (-c3*v*v/2 + c4*v*v*v/3) }
								full := func(v float64) float64 { return pre*v + nonlin(v) }
								apply := func(dims []int, y []complex128) []complex128 {
									if lp == 1 {
										return refLap(dims, y)
									}
									return y
								}
								t := dterm{name: "mix"}
								if kind == 0 {
									t.add = func(m *pf.Model, reg string, dims []int) {
										m.RegisterMixedTerm(reg, idt, []pf.DerivedField{idt.DerivedField(n, m.Bricks)})
									}
									t.imp = func(dims []int) []complex128 {
										out := make([]complex128, n)
										for i := range out {
											out[i] = complex(pre, 0)
											if lp == 1 {
												f := norm2(refFreq(dims, i))
												out[i] *= complex(-4*math.Pi*math.Pi*f*f, 0)
											}
										}
										return out
									}
									t.ref = func(dims []int, f map[string][]complex128) []complex128 {
										y := make([]complex128, n)
										for i := range y {
											y[i] = complex(nonlin(real(f["c"][i])), 0)
										}
										return apply(dims, y)
									}
								} else {
									if lp == 1 {
										r.Outcome("skipped")
										return // the function form has no Laplacian
									}
									t.add = func(m *pf.Model, reg string, dims []int) { m.RegisterFunction(reg, idt.Eval) }
									t.ref = func(dims []int, f map[string][]complex128) []complex128 {
										y := make([]complex128, n)
										for i := range y {
											y[i] = complex(full(real(f["c"][i])), 0)
										}
										return y
									}
								}
								runTerms(r, dims, "euler", []dterm{t}, []float64{-1}, []int{0}, map[string][]complex128{"c": x}, nil, 2, 0.02)
								for i := range x {
									i := i
									got := dq(func(h float64) float64 {
										y := cloneC(x)
										y[i] += complex(h, 0)
										r.Step(1)
										return idt.GetEnergy(realBricks(map[string][]complex128{"c": y}), n)
									})
									r.close1(fmt.Sprintf("derivative of the energy at %d", i), got, full(real(x[i])), 1e-9)
									r.close1("Eval", real(idt.Eval(i, realBricks(map[string][]complex128{"c": x}))), full(real(x[i])), 1e-9)
								}
								r.Outcome("mixture")
							})
						}
					}
				}
			}
		}
	}
	c.Case("mix without its derived field", func(r *Run) {
		idt := &pf.IdealMixtureTerm{Field: "c", Prefactor: 1}
		m := pf.NewModel()
		m.AddField(pf.NewField("c", 4, nil))
		m.RegisterMixedTerm("MIX", idt, nil)
		m.AddEquation("dc/dt = MIX")
		p, _ := panics(func() { s := pf.NewSolver(&m, []int{2, 2}, 0.1); s.Solve(1, 1) })
		r.Check(p, "a missing derived field is not reported")
		r.Outcome("rejection")
	})
}

func penaltyTerms(c *Ctx) {
	max := 7
	c.bound("penalty of negative values: exponents 1..%d, 3 prefactors, 13 values, each on 6 scales", max)
	for e := 1; e <= max; e++ {
		for _, pre := range []float64{1, 1500, -0.3} {
			for k := -6; k <= 6; k++ {
				e, pre, x := e, pre, 0.35*float64(k)
				if e == 1 && k == 0 {
					continue // not differentiable
				}
				c.Case(fmt.Sprintf("penalty exponent=%d pre=%g x=%g", e, pre, x), func(r *Run) {
					p := pf.NegativeValuePenalty{Prefactor: pre, Exponent: e, Field: "c"}
					// derivative of pre*(|x|^e - x^e)
					want := 0.0
					if x < 0 {
						s := 1.0
						for i := 0; i < e-1; i++ {
							s *= x
						}
						want = -pre * float64(e) * (math.Abs(s) + s)
					}
					r.close1("penalty", p.Penalty(x), want, 1e-9)
					for _, s := range []float64{1e-1, 1e-3, 1e-6, 1e-9, 1e3} {
						// the penalty is homogeneous of degree exponent-1
						a, b := p.Penalty(s*x), math.Pow(s, float64(e-1))*want
						r.Check(math.Abs(a-b) <= 1e-9*math.Abs(b), "penalty of %g is %g, expected %g", s*x, a, b)
					}
					b := realBricks(map[string][]complex128{"c": {complex(9, 1), complex(x, 7)}})
					r.Check(p.Evaluate(1, b) == complex(p.Penalty(x), 0), "Evaluate gives %v", p.Evaluate(1, b))
					r.Step(2)
					r.ObserveF("penalty", []float64{p.Penalty(x)})
					r.Outcome("penalty")
				})
			}
		}
	}
	c.Case("penalty default", func(r *Run) {
		p := pf.NewDefaultNegativeValuePenalty("c")
		r.Check(p.Prefactor == 1500 && p.Exponent == 3 && p.Field == "c", "default parameters %+v", p)
		r.Outcome("penalty")
	})
}

// ---- elasticity reference ----

type tensor4 [3][3][3][3]float64

func isoRef(bulk, nu float64) tensor4 {
	var t tensor4
	mu := 3 * bulk * (1 - 2*nu) / (2 * (1 + nu))
	la := bulk - 2*mu/3
	d := func(a, b int) float64 {
		if a == b {
			return 1
		}
		return 0
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					t[i][j][k][l] = la*d(i, j)*d(k, l) + mu*(d(i, k)*d(j, l)+d(i, l)*d(j, k))
				}
			}
		}
	}
	return t
}

func cubicRef(c11, c12, c44 float64) tensor4 {
	var t tensor4
	for i := 0; i < 3; i++ {
		t[i][i][i][i] = c11
		for j := 0; j < 3; j++ {
			if i != j {
				t[i][i][j][j] = c12
				t[i][j][i][j] = c44
				t[i][j][j][i] = c44
			}
		}
	}
	return t
}

func (t tensor4) rank4() elasticity.Rank4 {
	r := elasticity.NewRank4()
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					r.Set(i, j, k, l, t[i][j][k][l])
				}
			}
		}
	}
	return r
}

type mat3 [3][3]float64

func (m mat3) dense() *mat.Dense {
	d := mat.NewDense(3, 3, nil)
	for i := range m {
		for j := range m[i] {
			d.Set(i, j, m[i][j])
		}
	}
	return d
}

func (t tensor4) contract(m mat3) mat3 {
	var o mat3
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					o[i][j] += t[i][j][k][l] * m[k][l]
				}
			}
		}
	}
	return o
}

// solve3 solves a real 3x3 system by Cramer's rule
func solve3(a mat3, b [3]complex128) [3]complex128 {
	det := func(m mat3) float64 {
		return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0])
	}
	d := det(a)
	var out [3]complex128
	for c := 0; c < 3; c++ {
		re, im := a, a
		for r := 0; r < 3; r++ {
			re[r][c], im[r][c] = real(b[r]), imag(b[r])
		}
		out[c] = complex(det(re)/d, det(im)/d)
	}
	return out
}

func freq3(dims []int, i int) [3]float64 {
	var o [3]float64
	for d, v := range refFreq(dims, i) {
		if math.Abs(math.Abs(v)-0.5) > 1e-10 {
			o[d] = v
		}
	}
	return o
}

// equilibrium returns the real space total strain that balances the misfit strain eps*h(r)
func equilibrium(dims []int, C tensor4, misfit mat3, h []complex128) [][3][3]complex128 {
	n := prod(dims)
	hk := refDFT(dims, h, -1)
	s := C.contract(misfit)
	var ek [3][3][]complex128
	for a := range ek {
		for b := range ek[a] {
			ek[a][b] = make([]complex128, n)
		}
	}
	for i := 0; i < n; i++ {
		f := freq3(dims, i)
		if f == [3]float64{} {
			continue
		}
		var A mat3
		var F [3]complex128
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				for j := 0; j < 3; j++ {
					for l := 0; l < 3; l++ {
						A[a][b] += C[a][j][b][l] * f[j] * f[l] * 4 * math.Pi * math.Pi
					}
				}
				F[a] += complex(0, -2*math.Pi*s[a][b]*f[b]) * hk[i]
			}
		}
		u := solve3(A, F)
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				ek[a][b][i] = complex(0, math.Pi) * (complex(f[a], 0)*u[b] + complex(f[b], 0)*u[a])
			}
		}
	}
	out := make([][3][3]complex128, n)
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for i, v := range refIDFT(dims, ek[a][b]) {
				out[i][a][b] = v
			}
		}
	}
	return out
}

func misfits(dim int) []mat3 {
	m := []mat3{
		{{0.05, 0, 0}, {0, 0.05, 0}, {0, 0, 0.05}},
		{{0.05, 0, 0}, {0, -0.02, 0}, {0, 0, 0.03}},
		{{0.01, 0.04, 0}, {0.04, -0.02, 0}, {0, 0, 0}},
	}
	if dim == 3 {
		m = append(m, mat3{{0.01, 0.04, -0.03}, {0.04, -0.02, 0.02}, {-0.03, 0.02, 0.05}}, mat3{{0, 0.03, 0}, {0.03, 0, -0.05}, {0, -0.05, 0}})
	}
	return append(m, mat3{{0, 0.04, 0}, {0.04, 0, 0}, {0, 0, 0}})
}

func elasticTensors() []tensor4 {
	return []tensor4{isoRef(60, 0.3), cubicRef(110, 60, 30), cubicRef(90, 40, 50)}
}

func elasticTerms(c *Ctx) {
	m2, m3 := 4, 2
	if c.Thorough {
		m2, m3 = 6, 4
	}
	if c.Deep {
		m2, m3 = 8, 5
	}
	c.bound("elastic energy term: all domains up to %d^2 and %d^3, 3 elastic tensors, all misfits of the list, 2 fields, euler (and rk4), two steps", m2, m3)
	shapesB(c, m2, m3, func(dims []int) {
		dims = cloneI(dims)
		n := prod(dims)
		for ti, C := range elasticTensors() {
			for mi, mf := range misfits(len(dims)) {
				for kind := 0; kind < 2; kind++ {
					for _, scheme := range []string{"euler", "rk4"} {
						ti, C, mi, mf, kind, scheme := ti, C, mi, mf, kind, scheme
						if n > 125 && (kind == 1 || scheme == "rk4") {
							continue
						}
						c.Case(fmt.Sprintf("elastic dims=%s tensor=%d misfit=%d field=%d %s", ints(dims), ti, mi, kind, scheme), func(r *Run) {
							t := dterm{name: "elastic"}
							t.add = func(m *pf.Model, reg string, dims []int) {
								m.RegisterExplicitTerm(reg, pf.NewHomogeneousModolus("c", dims, C.rank4(), mf.dense()), nil)
							}
							s := C.contract(mf)
							t.ref = func(dims []int, f map[string][]complex128) []complex128 {
								h := make([]complex128, n)
								for i := range h {
									x := f["c"][i]
									h[i] = 3*x*x - 2*x*x*x
								}
								eps := equilibrium(dims, C, mf, h)
								out := make([]complex128, n)
								for i := range out {
									x := f["c"][i]
									for a := 0; a < 3; a++ {
										for b := 0; b < 3; b++ {
											out[i] += complex(s[a][b], 0) * (eps[i][a][b] - complex(mf[a][b], 0)*h[i])
										}
									}
									out[i] *= 6*x - 6*x*x
								}
								return out
							}
							x := genericField(n, 6)
							if kind == 1 {
								for i := range x {
									x[i] = complex(float64((i*i+i/2)%3)/2, 0)
								}
							}
							runSolver(r, dims, scheme, t, map[string][]complex128{"c": x}, 2, 0.05)
							r.Outcome("elastic term")
						})
					}
				}
			}
		}
	})
}

// runSolver is runTerms for a single term that has to be told when a step is finished
func runSolver(r *Run, dims []int, scheme string, t dterm, init map[string][]complex128, steps int, dt float64) {
	n := prod(dims)
	m := pf.NewModel()
	m.AddField(pf.NewField("c", n, cloneC(init["c"])))
	t.add(&m, "TERM", cloneI(dims))
	m.AddEquation("dc/dt = TERM")
	sp := spec{dims: dims, names: []string{"c"}, terms: make([][]eqTerm, 1)}
	sp.extra = func(e int, tt float64, f map[string][]complex128) []complex128 {
		return refDFT(dims, t.ref(dims, f), -1)
	}
	s := pf.NewSolver(&m, cloneI(dims), dt)
	s.SetStepper(scheme)
	ref := init
	for k := 0; k < steps; k++ {
		s.Propagate(1)
		r.Step(1)
		if scheme == "euler" {
			ref = sp.euler(ref, float64(k)*dt, dt)
		} else {
			ref = sp.rk4(ref, float64(k)*dt, dt)
		}
		r.closeC(fmt.Sprintf("field after step %d", k+1), m.Fields[0].Data, ref["c"], 1e-9)
		r.ObserveC("c", m.Fields[0].Data)
	}
}
