package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gononlin/nonlin"
	"github.com/davidkleiven/gopf/pf"
)

func init() {
	register("T01", "model_checking", steppingSchemes)
	register("T02", "model_checking", runHistories)
	register("T03", "model_checking", conservation)
	register("T04", "model_checking", implicitScheme)
}

func twoFieldBase(f1, f2 string) []eqTerm {
	return []eqTerm{
		{1, []factor{fl(f1, 1)}, f1},
		{1, []factor{sc("alpha", 1), lap(1), fl(f1, 1)}, "alpha*LAP " + f1},
		{1, []factor{sc("dcoef", 1), lap(2), fl(f1, 1)}, "dcoef*LAP^2 " + f1},
		{1, []factor{fl(f1, 3)}, f1 + "^3"},
		{1, []factor{sc("kappa", 1), fl(f2, 1)}, "kappa*" + f2},
		{1, []factor{sc("dcoef", 1), fl(f1, 2), fl(f2, 1)}, "dcoef*" + f1 + "^2*" + f2},
		{1, []factor{lap(1), fl(f2, 2)}, "LAP*" + f2 + "^2"},
		{1, []factor{lap(1), fl(f2, 1)}, "LAP " + f2},
	}
}

func sumText(lhs string, ts []eqTerm) string {
	s := "d" + lhs + "/dt = "
	for i, t := range ts {
		if t.sign < 0 {
			s += " - "
		} else if i > 0 {
			s += " + "
		}
		s += t.text
	}
	return s
}

// smooth modal filter; records its arguments
type recFilter struct{ args *[]float64 }

func (f recFilter) Eval(x float64) float64 {
	if f.args != nil {
		*f.args = append(*f.args, x)
	}
	return 1 / (1 + 3*x)
}

func norm2(f []float64) float64 {
	s := 0.0
	for _, v := range f {
		s += v * v
	}
	return math.Sqrt(s)
}

// drive evolves the real model and the reference side by side
func drive(r *Run, s spec, m *pf.Model, st pf.TimeStepper, scheme string, dt float64, init map[string][]complex128, steps int, tol float64) {
	ref := init
	for k := 0; k < steps; k++ {
		t := float64(k) * dt
		r.Check(math.Abs(st.GetTime()-t) < 1e-12, "time before step %d is %g, expected %g", k, st.GetTime(), t)
		st.Step(m)
		r.Step(1)
		if scheme == "euler" {
			ref = s.euler(ref, t, dt)
		} else {
			ref = s.rk4(ref, t, dt)
		}
		for _, f := range m.Fields {
			r.closeC(fmt.Sprintf("field %s after step %d", f.Name, k+1), f.Data, ref[f.Name], tol)
		}
	}
	r.Check(math.Abs(st.GetTime()-float64(steps)*dt) < 1e-12, "time after %d steps is %g, expected %g", steps, st.GetTime(), float64(steps)*dt)
	for _, f := range m.Fields {
		r.ObserveC(f.Name, f.Data)
	}
}

func steppingSchemes(c *Ctx) {
	scal := map[string]float64{"alpha": 0.3, "dcoef": -0.2, "kappa": 0.8}
	steps := 2
	m2, m3 := 4, 3
	if c.Thorough {
		steps = 4
		m2, m3 = 6, 4
	}
	c.bound("every coupled two-field system with two terms per equation out of 8 (4096 systems) x {semi-implicit Euler, RK4} on a 2x3 domain, %d steps", steps)
	c.bound("linear systems with coefficients 1e-6, 1e3, 1e5 and 1e7 and 4 time steps for each, 4 domains")
	c.bound("rings of 1..17 coupled fields, both schemes")
	c.bound("one system with every feature (implicit, explicit, mixed user terms, sources, modifiers-free) on all 2D domains with sides 1..%d and 3D domains with sides 1..%d x 2 time steps x {no filter, filter}", m2, m3)
	names := []string{"conc", "eta"}
	b1, b2 := twoFieldBase("conc", "eta"), twoFieldBase("eta", "conc")
	mk := func(scheme string, dt float64, dims []int, filter pf.ModalFilter) pf.TimeStepper {
		if scheme == "euler" {
			e := &pf.Euler{Dt: dt, FT: fft(dims)}
			if filter != nil {
				e.SetFilter(filter)
			}
			return e
		}
		e := &pf.RK4{Dt: dt, FT: fft(dims)}
		if filter != nil {
			e.SetFilter(filter)
		}
		return e
	}
	dims := []int{2, 3}
	for _, scheme := range []string{"euler", "rk4"} {
		scheme := scheme
		product([]int{8, 8, 8, 8}, func(x []int) {
			t1 := []eqTerm{b1[x[0]], b1[x[1]]}
			t2 := []eqTerm{b2[x[2]], b2[x[3]]}
			t1[1].sign, t2[0].sign = -1, -1
			c.Case(fmt.Sprintf("system/%s/%s;%s", scheme, sumText("conc", t1), sumText("eta", t2)), func(r *Run) {
				w := newWorld(dims, names, scal)
				s := spec{dims: dims, names: names, scal: scal, terms: [][]eqTerm{t1, t2}}
				m := w.model()
				m.AddEquation(sumText("conc", t1))
				m.AddEquation(sumText("eta", t2))
				m.Init()
				drive(r, s, &m, mk(scheme, 0.01, dims, nil), scheme, 0.01, w.data, steps, 1e-8)
			})
		})
		for _, stiff := range []float64{1e-6, 1e3, 1e5, 1e7} {
			for _, cdt := range []float64{1e-4, 0.01, 0.3, 100} { // time step times the coefficient
				for _, dm := range [][]int{{1, 2}, {3, 4}, {8, 1}, {2, 3, 2}} {
					stiff, dt, dm := stiff, cdt/stiff, dm
					if dt > 1e3 {
						continue
					}
					c.Case(fmt.Sprintf("stiff/%s/coefficient %g/dt=%g/%s", scheme, stiff, dt, ints(dm)), func(r *Run) {
						sc2 := map[string]float64{"alpha": stiff}
						w := newWorld(dm, names, sc2)
						t1 := []eqTerm{{1, []factor{sc("alpha", 1), lap(1), fl("conc", 1)}, "alpha*LAP conc"}}
						t2 := []eqTerm{{1, []factor{sc("alpha", 1), lap(1), fl("eta", 1)}, "alpha*LAP eta"}, {-1, []factor{sc("alpha", 1), fl("eta", 1)}, "alpha*eta"}}
						s := spec{dims: dm, names: names, scal: sc2, terms: [][]eqTerm{t1, t2}}
						m := w.model()
						m.AddEquation(sumText("conc", t1))
						m.AddEquation(sumText("eta", t2))
						m.Init()
						drive(r, s, &m, mk(scheme, dt, dm, nil), scheme, dt, w.data, steps, 1e-8)
					})
				}
			}
		}
		for nf := 1; nf <= 17; nf++ {
			nf := nf
			c.Case(fmt.Sprintf("chain/%s/%d fields", scheme, nf), func(r *Run) {
				chain := []string{}
				for i := 0; i < nf; i++ {
					chain = append(chain, fmt.Sprintf("u%c", 'a'+i))
				}
				w := newWorld(dims, chain, scal)
				s := spec{dims: dims, names: chain, scal: scal}
				m := w.model()
				for i := range chain {
					me, next := chain[i], chain[(i+1)%nf]
					t := []eqTerm{{1, []factor{sc("alpha", 1), lap(1), fl(me, 1)}, "alpha*LAP " + me}, {-1, []factor{fl(next, 2), fl(me, 1)}, next + "^2*" + me}}
					if nf == 1 {
						t[1] = eqTerm{-1, []factor{fl(me, 3)}, me + "^3"}
					}
					s.terms = append(s.terms, t)
					m.AddEquation(sumText(me, t))
				}
				m.Init()
				drive(r, s, &m, mk(scheme, 0.01, dims, nil), scheme, 0.01, w.data, steps, 1e-8)
			})
		}
		shapesB(c, m2, m3, func(dims []int) {
			dts := []float64{0.002, 0.05}
			if n := prod(dims); n == 6 || n == 8 {
				dts = []float64{0.002, 0.05, 1e-9, 1e-6, 0.2}
			}
			for _, dt := range dts {
				for flt := 0; flt < 2; flt++ {
					dt, flt := dt, flt
					c.Case(fmt.Sprintf("features/%s/%s/dt=%g/filter=%d", scheme, ints(dims), dt, flt), func(r *Run) {
						n := prod(dims)
						w := newWorld(dims, names, scal)
						t1 := []eqTerm{b1[1], b1[3]}
						t2 := []eqTerm{b2[4], b2[5]}
						s := spec{dims: dims, names: names, scal: scal, terms: [][]eqTerm{t1, t2}}
						src := make([]complex128, n)
						pos := make([]float64, len(dims))
						ip := make([]int, len(dims))
						for k := range dims {
							ip[k] = dims[k] / 2
							pos[k] = float64(ip[k])
						}
						src[refIndex(dims, ip)] = 1
						srcFT := refDFT(dims, src, -1)
						s.extra = func(eq int, t float64, f map[string][]complex128) []complex128 {
							out := make([]complex128, n)
							cF, eF := refDFT(dims, f["conc"], -1), refDFT(dims, f["eta"], -1)
							for i := range out {
								if eq == 0 { // EXPL - MIXED
									out[i] = 0.3*cF[i]*complex(1+t, 0) - 0.2*eF[i] - 0.6*eF[i]
								} else { // source
									out[i] = srcFT[i] * complex(1.5+40*t, 0)
								}
							}
							return out
						}
						s.extraDen = func(eq int) []complex128 {
							out := make([]complex128, n)
							for i := range out {
								if eq == 0 {
									out[i] = -0.25 * uImplicitCoef(refFreq(dims, i))
								} else {
									out[i] = uImplicitCoef(refFreq(dims, i))
								}
							}
							return out
						}
						m := w.model()
						m.RegisterExplicitTerm("EXPL", uExplicit{}, nil)
						m.RegisterImplicitTerm("IMPL", uImplicit{}, nil)
						m.RegisterMixedTerm("MIXED", uMixed{}, nil)
						m.AddEquation(sumText("conc", t1) + " + EXPL - MIXED")
						m.AddEquation(sumText("eta", t2) + " + IMPL")
						m.AddSource(1, pf.NewSource(pos, func(t float64) float64 { return 1.5 + 40*t }))
						m.Init()
						var filter pf.ModalFilter
						var args []float64
						if flt == 1 {
							filter = recFilter{&args}
							// The argument of the filter is proportional to the wave number; the library's
							// own filter application defines the factor
							probe := []complex128{1}
							var one []float64
							pf.ApplyModalFilter(recFilter{&one}, func(i int) []float64 { return []float64{0.25, 0} }, probe)
							r.Check(len(one) == 1 && one[0] > 0, "filter argument %v for a non-zero wave number", one)
							k := one[0] / 0.25
							s.filter = func(f []float64) float64 { return 1 / (1 + 3*k*norm2(f)) }
						}
						drive(r, s, &m, mk(scheme, dt, dims, filter), scheme, dt, w.data, steps, 1e-8)
					})
				}
			}
		})
	}
	interleavedSteps(c)
	propagated(c)
	c.Case("vandeven", func(r *Run) {
		for order := 1; order <= 6; order++ {
			f := pf.NewVandeven(order)
			prev := f.Eval(0)
			r.close1("filter at zero", prev, 1, 1e-9)
			for i := 1; i <= 400; i++ {
				x := float64(i) / 400
				v := f.Eval(x)
				r.Step(1)
				// 1 - (2p-1)!/((p-1)!)^2 * int_0^x (t(1-t))^(p-1) dt, by Simpson
				n := 400
				sum := 0.0
				for k := 0; k <= n; k++ {
					tt := x * float64(k) / float64(n)
					w := 2.0
					if k%2 == 1 {
						w = 4
					}
					if k == 0 || k == n {
						w = 1
					}
					sum += w * math.Pow(tt*(1-tt), float64(order-1))
				}
				sum *= x / float64(n) / 3
				want := 1 - math.Gamma(float64(2*order))/math.Pow(math.Gamma(float64(order)), 2)*sum
				r.Check(math.Abs(v-want) < 1e-4, "filter of order %d at %g is %g, expected %g", order, x, v, want)
				r.Check(v <= prev+1e-9, "filter of order %d increases at %g", order, x)
				prev = v
				r.ObserveF("vandeven", []float64{v})
			}
			r.Check(math.Abs(prev) < 1e-4, "filter of order %d does not vanish at the largest frequency (%g)", order, prev)
		}
	})
}

// uTimeImplicit is an implicit term with a time dependent coefficient
type uTimeImplicit struct{}

func (u uTimeImplicit) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = uImplicitCoef(freq(i)) * complex(1+60*t, 0)
		}
	}
}
func (u uTimeImplicit) OnStepFinished(t float64, b map[string]pf.Brick) {}

// propagated: Propagate(n) of a stepper is n steps
func propagated(c *Ctx) {
	c.bound("Propagate(n1), Propagate(n2) with n1, n2 in 0..4 directly on the steppers of both schemes, start steps 0 and 7, with and without filter")
	dims := []int{2, 3}
	for _, scheme := range []string{"euler", "rk4"} {
		for _, start := range []int{0, 7} {
			for _, filter := range []bool{false, true} {
				product([]int{5, 5}, func(x []int) {
					scheme, start, filter, x := scheme, start, filter, cloneI(x)
					c.Case(fmt.Sprintf("propagate/%s/start%d/filter=%v/%v", scheme, start, filter, x), func(r *Run) {
						mk := func() (*pf.Model, pf.TimeStepper) {
							w := newWorld(dims, []string{"conc", "eta"}, map[string]float64{"alpha": 0.3})
							m := w.model()
							m.AddEquation("dconc/dt = alpha*LAP conc - conc*eta^2")
							m.AddEquation("deta/dt = conc^3 - eta")
							m.Init()
							var st pf.TimeStepper
							if scheme == "euler" {
								st = &pf.Euler{Dt: 0.001, FT: fft(dims), CurrentStep: start}
							} else {
								st = &pf.RK4{Dt: 0.001, FT: fft(dims)}
								for st.GetTime() < 0.001*float64(start)-1e-9 {
									other := w.model()
									other.AddEquation("dconc/dt = conc")
									other.AddEquation("deta/dt = eta")
									other.Init()
									st.Step(&other)
								}
							}
							if filter {
								v := pf.NewVandeven(3)
								st.SetFilter(&v)
							}
							return &m, st
						}
						m1, s1 := mk()
						m2, s2 := mk()
						total := 0
						for _, n := range x {
							s1.(interface{ Propagate(int, *pf.Model) }).Propagate(n, m1)
							for i := 0; i < n; i++ {
								s2.Step(m2)
							}
							total += n
							r.Step(n)
							for k := range m1.Fields {
								r.closeC(fmt.Sprintf("%s after Propagate(%d)", m1.Fields[k].Name, n), m1.Fields[k].Data, m2.Fields[k].Data, 1e-13)
							}
							r.close1("time", s1.GetTime(), 0.001*float64(start+total), 1e-12)
						}
						r.ObserveC("end", m1.Fields[0].Data)
					})
				})
			}
		}
	}
}

// interleavedSteps: a step depends on the state at its beginning only. Between the steps the caller
// changes fields, scalars, the filter, sources and the scheme, or uses the stepper for another model.
func interleavedSteps(c *Ctx) {
	depth := 4
	if c.Thorough {
		depth = 5
	}
	opNames := []string{"step", "set field", "set scalar", "filter", "add source", "switch scheme", "other model", "modifier"}
	c.bound("every sequence of up to %d operations out of %v followed by two steps, three fields, time dependent implicit and explicit terms and sources, start steps 0 and 7, both schemes", depth, opNames)
	dims := []int{2, 3}
	n := prod(dims)
	names := []string{"conc", "eta", "phi"}
	dt := 0.001
	for _, scheme0 := range []string{"euler", "rk4"} {
		for _, start := range []int{0, 7} {
			scheme0, start := scheme0, start
			sequences(len(opNames), 0, depth, func(seq []int) {
				seq = append(cloneI(seq), 0, 0)
				if start != 0 && len(seq) > depth {
					return
				}
				nm := ""
				for _, k := range seq {
					nm += opNames[k] + ";"
				}
				c.Case(fmt.Sprintf("interleaved/%s/start%d/%s", scheme0, start, nm), func(r *Run) {
					scal := map[string]float64{"alpha": 0.3, "kappa": 0.8}
					w := newWorld(dims, names, scal)
					terms := [][]eqTerm{
						{{1, []factor{sc("alpha", 1), lap(1), fl("conc", 1)}, "alpha*LAP conc"}, {-1, []factor{fl("conc", 1), fl("eta", 2)}, "conc*eta^2"}},
						{{-1, []factor{sc("kappa", 1), fl("eta", 1)}, "kappa*eta"}, {1, []factor{sc("alpha", 2), fl("phi", 1)}, "alpha^2*phi"}},
						{{1, []factor{lap(1), fl("phi", 3)}, "LAP phi^3"}, {-1, []factor{sc("alpha", 1), fl("phi", 1)}, "alpha*phi"}},
					}
					s := spec{dims: dims, names: names, scal: scal, terms: terms}
					type source struct {
						eq   int
						node int
						rate float64
					}
					srcs := []source{}
					s.extra = func(eq int, t float64, f map[string][]complex128) []complex128 {
						out := make([]complex128, n)
						if eq == 0 {
							cF, eF := refDFT(dims, f["conc"], -1), refDFT(dims, f["eta"], -1)
							for i := range out {
								out[i] = 0.3*cF[i]*complex(1+t, 0) - 0.2*eF[i]
							}
						}
						for _, q := range srcs {
							if q.eq == eq {
								x := make([]complex128, n)
								x[q.node] = complex(q.rate*(1+100*t), 0)
								for i, v := range refDFT(dims, x, -1) {
									out[i] += v
								}
							}
						}
						return out
					}
					s.extraDen = func(eq int) []complex128 {
						out := make([]complex128, n)
						if eq == 2 {
							for i := range out {
								out[i] = uImplicitCoef(refFreq(dims, i))
							}
						}
						return out
					}
					s.denTime = func(t float64) float64 { return 1 + 60*t }
					m := w.model()
					m.RegisterExplicitTerm("EXPL", uExplicit{}, nil)
					m.RegisterImplicitTerm("IMPL", uTimeImplicit{}, nil)
					m.AddEquation(sumText("conc", terms[0]) + " + EXPL")
					m.AddEquation(sumText("eta", terms[1]))
					m.AddEquation(sumText("phi", terms[2]) + " + IMPL")
					m.Init()
					other := newWorld(dims, []string{"x"}, nil).model()
					other.AddEquation("dx/dt = x^3")
					other.Init()
					cur, scheme := start, scheme0
					var filter pf.ModalFilter
					mkStepper := func() pf.TimeStepper {
						var st pf.TimeStepper
						if scheme == "euler" {
							st = &pf.Euler{Dt: dt, FT: fft(dims), CurrentStep: cur}
						} else {
							st = &pf.RK4{Dt: dt, FT: fft(dims), CurrentStep: cur}
						}
						if filter != nil {
							st.SetFilter(filter)
						}
						return st
					}
					st := mkStepper()
					ref := map[string][]complex128{}
					for k, d := range w.data {
						ref[k] = cloneC(d)
					}
					sets := 0
					for k, op := range seq {
						switch op {
						case 0:
							st.Step(&m)
							t := float64(cur) * dt
							if scheme == "euler" {
								ref = s.euler(ref, t, dt)
							} else {
								ref = s.rk4(ref, t, dt)
							}
							cur++
						case 1:
							sets++
							f := sets % 3
							d := genericField(n, 30+sets)
							copy(m.Fields[f].Data, d)
							ref[names[f]] = cloneC(d)
						case 2:
							scal["alpha"] += 0.15
							m.Bricks["alpha"].(*pf.Scalar).SetFloat(scal["alpha"])
						case 3:
							if s.filter == nil {
								filter = recFilter{}
								probe := []complex128{1}
								var one []float64
								pf.ApplyModalFilter(recFilter{&one}, func(i int) []float64 { return []float64{0.25, 0} }, probe)
								q := one[0] / 0.25
								s.filter = func(f []float64) float64 { return 1 / (1 + 3*q*norm2(f)) }
							} else {
								filter = nil
								s.filter = nil
							}
							st.SetFilter(filter)
						case 4:
							q := source{(len(srcs) + 1) % 3, (2*len(srcs) + 1) % n, 0.7 + float64(len(srcs))}
							srcs = append(srcs, q)
							p := refPos(dims, q.node)
							m.AddSource(q.eq, pf.NewSource([]float64{float64(p[0]), float64(p[1])}, func(t float64) float64 { return q.rate * (1 + 100*t) }))
						case 5:
							if scheme == "euler" {
								scheme = "rk4"
							} else {
								scheme = "euler"
							}
							st = mkStepper()
						case 6:
							for i := range other.Fields[0].Data {
								other.Fields[0].Data[i] = complex(0.1*float64(i), 0)
							}
							st.Step(&other)
							cur++
						case 7:
							// a modifier that doubles the explicit part of the last equation
							m.RegisterRHSModifier(2, func(data []complex128) {
								for i := range data {
									data[i] *= 1.5
								}
							})
							old := s.explicitMod
							s.explicitMod = func(eq int, d []complex128) {
								if old != nil {
									old(eq, d)
								}
								if eq == 2 {
									for i := range d {
										d[i] *= 1.5
									}
								}
							}
						}
						r.Step(1)
						r.close1("time", st.GetTime(), float64(cur)*dt, 1e-12)
						for _, f := range m.Fields {
							r.closeC(fmt.Sprintf("field %s after operation %d (%s)", f.Name, k, opNames[op]), f.Data, ref[f.Name], 1e-8)
						}
					}
					r.ObserveC("conc", m.Fields[0].Data)
				})
			})
		}
	}
}

type cbRecord struct {
	cb, epoch int
	time      float64
	value     float64
}

func monitorValues(c *Ctx) {
	vals := []float64{0, math.Copysign(0, -1), 1, -1e300, 1e-300, math.Inf(1), math.Inf(-1), math.NaN()}
	c.bound("a monitor records every sequence of up to 3 values out of %v", vals)
	sequences(len(vals), 1, 3, func(seq []int) {
		seq = cloneI(seq)
		c.Case(fmt.Sprintf("monitor %v", seq), func(r *Run) {
			p := pf.NewPointMonitor(2, "b")
			for _, k := range seq {
				p.Add(realBricks(map[string][]complex128{"a": {7, 7, 7}, "b": {5, 6, complex(vals[k], 3)}}))
				r.Step(1)
			}
			r.Check(len(p.Data) == len(seq), "%d values recorded, expected %d", len(p.Data), len(seq))
			for i, k := range seq {
				r.Check(sameFloat(p.Data[i], vals[k]), "value %d is %g, expected %g", i, p.Data[i], vals[k])
			}
			r.Outcome("monitor")
		})
	})
}

func runHistories(c *Ctx) {
	observers(c)
	monitorValues(c)
	depth := 3
	if c.Thorough {
		depth = 5
	}
	type op struct {
		solve         bool
		epochs, steps int
	}
	for pass := 0; pass < 2; pass++ {
		maxStep := depth*6 + 1
		ops := []op{{false, 0, 1}, {false, 0, 2}, {true, 1, 1}, {true, 2, 1}, {true, 1, 2}, {true, 2, 3}, {true, 3, 0}, {false, 0, 0}}
		starts, cbs, kind := []int{0, 5}, []int{0, 1, 2}, "run"
		if pass == 1 {
			ops = []op{{false, 0, 130}, {true, 1, 150}, {true, 12, 10}, {true, 60, 1}, {true, 2, 64}, {false, 0, 9}}
			depth, maxStep, starts, cbs, kind = 2, 300, []int{99, 123456}, []int{2}, "long"
			c.bound("every sequence of 1..2 long run requests: up to 60 epochs and 150 steps per epoch")
		} else {
			c.bound("every sequence of up to %d run requests out of %d (advance n steps / run m epochs of n steps) x {Euler, RK4} x start epoch {0, 5} x {0, 1, 2} callbacks and monitors; every step, epoch, callback, monitor and end-of-step notification compared with a reference run", depth, len(ops))
		}
		dims := []int{2, 3}
		n := prod(dims)
		scal := map[string]float64{"alpha": 0.3}
		names := []string{"conc", "eta"}
		dt := 0.03
		if pass == 1 {
			dt = 0.002
		}
		site := 4
		for _, scheme := range []string{"euler", "rk4"} {
			// reference trajectory
			t1 := []eqTerm{{1, []factor{sc("alpha", 1), lap(1), fl("conc", 1)}, "alpha*LAP conc"}}
			t2 := []eqTerm{{-1, []factor{fl("conc", 1), fl("eta", 2)}, "conc*eta^2"}}
			s := spec{dims: dims, names: names, scal: scal, terms: [][]eqTerm{t1, t2}}
			s.extra = func(eq int, t float64, f map[string][]complex128) []complex128 {
				out := make([]complex128, n)
				cF, eF := refDFT(dims, f["conc"], -1), refDFT(dims, f["eta"], -1)
				for i := range out {
					if eq == 0 {
						out[i] = 0.3*cF[i]*complex(1+t, 0) - 0.2*eF[i]
					} else {
						out[i] = 0.6 * eF[i]
					}
				}
				return out
			}
			s.extraDen = func(eq int) []complex128 {
				out := make([]complex128, n)
				for i := range out {
					if eq == 0 {
						out[i] = uImplicitCoef(refFreq(dims, i))
					} else {
						out[i] = 0.25 * uImplicitCoef(refFreq(dims, i))
					}
				}
				return out
			}
			w := newWorld(dims, names, scal)
			traj := []map[string][]complex128{w.data}
			for k := 0; k < maxStep; k++ {
				if scheme == "euler" {
					traj = append(traj, s.euler(traj[k], float64(k)*dt, dt))
				} else {
					traj = append(traj, s.rk4(traj[k], float64(k)*dt, dt))
				}
			}
			for _, startEpoch := range starts {
				for _, ncb := range cbs {
					scheme, startEpoch, ncb := scheme, startEpoch, ncb
					sequences(len(ops), 1, depth, func(seq []int) {
						name := fmt.Sprintf(kind+"/%s/start%d/cb%d/", scheme, startEpoch, ncb)
						for _, k := range seq {
							o := ops[k]
							if o.solve {
								name += fmt.Sprintf("solve(%d,%d);", o.epochs, o.steps)
							} else {
								name += fmt.Sprintf("propagate(%d);", o.steps)
							}
						}
						c.Case(name, func(r *Run) {
							m := w.model()
							var callsE, callsI, callsM []float64
							m.RegisterExplicitTerm("EXPL", uExplicit{&callsE}, nil)
							m.RegisterImplicitTerm("IMPL", uImplicit{&callsI}, nil)
							m.RegisterMixedTerm("MIXED", uMixed{&callsM}, nil)
							m.AddEquation("dconc/dt = alpha*LAP conc + EXPL + IMPL")
							m.AddEquation("deta/dt = -conc*eta^2 + MIXED")
							sol := pf.NewSolver(&m, dims, dt)
							sol.SetStepper(scheme)
							sol.StartEpoch = startEpoch
							var got, want []cbRecord
							for k := 0; k < ncb; k++ {
								k := k
								sol.AddCallback(func(ss *pf.Solver, epoch int) {
									got = append(got, cbRecord{k, epoch, ss.Stepper.GetTime(), real(ss.Model.Fields[0].Data[site])})
								})
							}
							mons := make([]pf.PointMonitor, ncb)
							wantMon := make([][]float64, ncb)
							for k := range mons {
								mons[k] = pf.NewPointMonitor(site-k, names[k%2])
								sol.AddMonitor(&mons[k])
							}
							total := 0
							for _, k := range seq {
								o := ops[k]
								if o.solve {
									sol.Solve(o.epochs, o.steps)
									for e := 0; e < o.epochs; e++ {
										total += o.steps
										for k := 0; k < ncb; k++ {
											want = append(want, cbRecord{k, startEpoch + e, float64(total) * dt, real(traj[total]["conc"][site])})
										}
										for k := range mons {
											wantMon[k] = append(wantMon[k], real(traj[total][names[k%2]][site-k]))
										}
									}
								} else {
									sol.Propagate(o.steps)
									total += o.steps
								}
								r.Step(1)
								r.close1("time", sol.Stepper.GetTime(), float64(total)*dt, 1e-10)
								for _, f := range m.Fields {
									r.closeC(fmt.Sprintf("field %s after %d steps", f.Name, total), f.Data, traj[total][f.Name], 1e-9)
								}
							}
							r.Check(len(got) == len(want), "%d callback invocations, expected %d", len(got), len(want))
							for i := range got {
								r.Check(got[i].cb == want[i].cb && got[i].epoch == want[i].epoch, "invocation %d: callback %d with epoch %d, expected callback %d with epoch %d", i, got[i].cb, got[i].epoch, want[i].cb, want[i].epoch)
								r.close1("time seen by the callback", got[i].time, want[i].time, 1e-10)
								r.close1("field seen by the callback", got[i].value, want[i].value, 1e-9)
							}
							for k := range mons {
								r.closeF(fmt.Sprintf("monitor %d", k), mons[k].Data, append([]float64{}, wantMon[k]...), 1e-9)
							}
							if ncb > 0 {
								var js []struct {
									Data  []float64
									Site  int
									Field string
								}
								if err := json.Unmarshal(sol.JSONifyMonitors(), &js); err != nil {
									r.Failf("monitors are not valid JSON: %v", err)
								}
								r.Check(len(js) == ncb, "%d monitors exported, expected %d", len(js), ncb)
								for k := range js {
									r.Check(js[k].Site == site-k && js[k].Field == names[k%2], "exported monitor %d is %v", k, js[k])
									r.closeF("exported monitor", js[k].Data, append([]float64{}, wantMon[k]...), 1e-9)
								}
							}
							for ci, calls := range [][]float64{callsE, callsI, callsM} {
								r.Check(len(calls) == total, "term %d was notified %d times in %d steps", ci, len(calls), total)
								for k, t := range calls {
									r.close1("time passed to the end-of-step notification", t, float64(k+1)*dt, 1e-10)
								}
							}
							r.ObserveC(scheme, m.Fields[0].Data)
							r.Observe(got)
						})
					})
				}
			}
		}
	}
}

// counted are user terms that count their notifications and contribute nothing
type counted struct{ calls *[]float64 }

func (u counted) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0
		}
	}
}
func (u counted) ConstructLinear(b map[string]pf.Brick) pf.Term    { return u.Construct(b) }
func (u counted) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return u.Construct(b) }
func (u counted) OnStepFinished(t float64, b map[string]pf.Brick)  { *u.calls = append(*u.calls, t) }

// observers: every number of callbacks, monitors and user terms of each kind, and callbacks that
// change the fields, a scalar or the list of callbacks
func observers(c *Ctx) {
	c.bound("0..3 callbacks x 0..3 monitors x 0..2 implicit, explicit and mixed terms x {callbacks only look, the first one changes a field, a scalar} over three run requests, both schemes; up to 33 callbacks, monitors and terms of each kind")
	dims := []int{2, 3}
	n := prod(dims)
	names := []string{"conc", "eta"}
	dt := 0.01
	for _, scheme := range []string{"euler", "rk4"} {
		scheme := scheme
		vectors := [][]int{}
		product([]int{4, 4, 3, 3, 3, 3}, func(x []int) { vectors = append(vectors, cloneI(x)) })
		for _, k := range []int{4, 5, 7, 8, 9, 12, 16, 17, 20, 33} {
			vectors = append(vectors, []int{k, 1, 1, 0, 1, 0}, []int{1, k, 0, 1, 1, 0}, []int{k, k, k, k, k, 1})
		}
		for _, x := range vectors {
			x := x
			ncb, nmon, change := x[0], x[1], x[5]
			if change > 0 && ncb == 0 {
				continue
			}
			c.Case(fmt.Sprintf("observers/%s/%v", scheme, x), func(r *Run) {
				scal := map[string]float64{"alpha": 0.3}
				terms := [][]eqTerm{{{1, []factor{sc("alpha", 1), lap(1), fl("conc", 1)}, "alpha*LAP conc"}}, {{-1, []factor{fl("conc", 1), fl("eta", 2)}, "conc*eta^2"}}}
				s := spec{dims: dims, names: names, scal: scal, terms: terms}
				w := newWorld(dims, names, scal)
				m := w.model()
				calls := []*[]float64{}
				extra := ""
				for kind := 0; kind < 3; kind++ {
					for k := 0; k < x[2+kind]; k++ {
						cl := &[]float64{}
						calls = append(calls, cl)
						nm := fmt.Sprintf("TERM%d_%d", kind, k)
						switch kind {
						case 0:
							m.RegisterImplicitTerm(nm, counted{cl}, nil)
						case 1:
							m.RegisterExplicitTerm(nm, counted{cl}, nil)
						case 2:
							m.RegisterMixedTerm(nm, counted{cl}, nil)
						}
						extra += " + " + nm
					}
				}
				m.AddEquation(sumText("conc", terms[0]) + extra)
				m.AddEquation(sumText("eta", terms[1]))
				sol := pf.NewSolver(&m, dims, dt)
				sol.SetStepper(scheme)
				ref := w.data
				log, want := "", ""
				var seen [][]complex128
				for k := 0; k < ncb; k++ {
					k := k
					sol.AddCallback(func(ss *pf.Solver, epoch int) {
						log += fmt.Sprintf("%d@%d ", k, epoch)
						seen = append(seen, cloneC(ss.Model.Fields[1].Data))
						if k == 0 && change == 1 {
							for i := range ss.Model.Fields[0].Data {
								ss.Model.Fields[0].Data[i] += complex(0.05*float64(i%3), 0)
							}
						}
						if k == 0 && change == 2 {
							ss.Model.Bricks["alpha"].(*pf.Scalar).SetFloat(0.1 + 0.05*float64(len(seen)))
						}
					})
				}
				mons := make([]pf.PointMonitor, nmon)
				wantMon := make([][]float64, nmon)
				for k := range mons {
					mons[k] = pf.NewPointMonitor(5-k%6, names[k%2])
					sol.AddMonitor(&mons[k])
				}
				total, nseen := 0, 0
				for _, req := range [][2]int{{2, 1}, {1, 2}, {2, 1}} {
					sol.Solve(req[0], req[1])
					r.Step(1)
					for e := 0; e < req[0]; e++ {
						for k := 0; k < req[1]; k++ {
							if scheme == "euler" {
								ref = s.euler(ref, float64(total)*dt, dt)
							} else {
								ref = s.rk4(ref, float64(total)*dt, dt)
							}
							total++
						}
						for k := 0; k < ncb; k++ {
							want += fmt.Sprintf("%d@%d ", k, e)
							r.Check(nseen < len(seen), "callback %d did not run", k)
							r.closeC("field seen by the callback", seen[nseen], ref["eta"], 1e-9)
							nseen++
							if k == 0 && change == 1 {
								d := cloneC(ref["conc"])
								for i := range d {
									d[i] += complex(0.05*float64(i%3), 0)
								}
								ref = map[string][]complex128{"conc": d, "eta": ref["eta"]}
							}
							if k == 0 && change == 2 {
								scal["alpha"] = 0.1 + 0.05*float64(nseen)
							}
						}
						for k := range mons {
							wantMon[k] = append(wantMon[k], real(ref[names[k%2]][5-k%6]))
						}
					}
					for _, f := range m.Fields {
						r.closeC("field "+f.Name, f.Data, ref[f.Name], 1e-9)
					}
				}
				r.Check(log == want, "callbacks %q, expected %q", log, want)
				for k := range mons {
					if change == 1 && k%2 == 0 {
						// whether monitors look before or behind a callback that changes the field is not prescribed
						r.Check(len(mons[k].Data) == len(wantMon[k]), "monitor %d has %d values", k, len(mons[k].Data))
						continue
					}
					r.closeF(fmt.Sprintf("monitor %d", k), mons[k].Data, append([]float64{}, wantMon[k]...), 1e-9)
				}
				for k, cl := range calls {
					r.Check(len(*cl) == total, "user term %d was notified %d times in %d steps", k, len(*cl), total)
					for i, t := range *cl {
						r.close1("time passed to the notification", t, float64(i+1)*dt, 1e-10)
					}
				}
				r.Observe(log, n, len(calls))
				r.ObserveC("conc", m.Fields[0].Data)
			})
		}
	}
}

func conservation(c *Ctx) {
	m2, m3, steps := 4, 3, 3
	if c.Thorough {
		m2, m3, steps = 6, 4, 6
	}
	coefs := [][]factor{{}, {sc("alpha", 1)}, {sc("dcoef", 2)}}
	flds := [][]factor{{fl("conc", 1)}, {fl("eta", 1)}, {fl("conc", 3)}, {fl("conc", 1), fl("eta", 1)}, {fl("conc", 1), fl("eta", 2)}}
	c.bound("every equation with one or two terms of the form [scalar] * Laplacian^{1..3} * field product (3 x 3 x 5 terms) for one of two coupled fields, {Euler, RK4}, %d steps on 4x3 and 2x3x2 domains: mean conserved, field stays real", steps)
	c.bound("linear diffusion, biharmonic and reactive decay on all 2D domains with sides 1..%d and 3D domains with sides 1..%d x 4 time steps (up to 10): exact modal decay of the scheme, no growth", m2, m3)
	scal := map[string]float64{"alpha": 0.02, "dcoef": -0.1}
	var terms []eqTerm
	for _, cf := range coefs {
		for l := 1; l <= 3; l++ {
			for _, fd := range flds {
				fs := append(append(append([]factor{}, cf...), lap(l)), fd...)
				txt := ""
				for i, f := range fs {
					if i > 0 {
						txt += "*"
					}
					txt += f.text
				}
				terms = append(terms, eqTerm{1, fs, txt})
			}
		}
	}
	c.bound("the equations with one term also for fields of the magnitudes 1e-9 and 1e-14 (mean conserved relative to it)")
	run := func(dims []int, ts []eqTerm, scheme string, scale float64) {
		key := fmt.Sprintf("mean/%s/%s/%s", scheme, ints(dims), sumText("conc", ts))
		if scale != 1 {
			key += fmt.Sprintf("/scale=%g", scale)
		}
		c.Case(key, func(r *Run) {
			w := newWorld(dims, []string{"conc", "eta"}, scal)
			for _, d := range w.data {
				for i := range d {
					d[i] *= complex(scale, 0)
				}
			}
			m := w.model()
			m.AddEquation(sumText("conc", ts))
			m.AddEquation("deta/dt = -eta")
			dt := 1e-7
			sol := pf.NewSolver(&m, dims, dt)
			sol.FT = fft(dims)
			sol.SetStepper(scheme)
			mean := func() (s complex128) {
				for _, v := range m.Fields[0].Data {
					s += v
				}
				return
			}
			m0 := mean()
			before := cloneC(m.Fields[0].Data)
			for k := 0; k < steps; k++ {
				sol.Propagate(1)
				r.Step(1)
				r.Check(cmplx.Abs(mean()-m0) < 1e-9*(scale+cmplx.Abs(m0)), "integral changed from %v to %v in step %d", m0, mean(), k+1)
				for i, v := range m.Fields[0].Data {
					r.Check(math.Abs(imag(v)) < 1e-9*scale, "node %d became complex (%v) in step %d", i, v, k+1)
				}
			}
			_, d := diffC(before, m.Fields[0].Data)
			r.Outcome(fmt.Sprintf("field changed=%v", d > 1e-13))
			r.ObserveC("cons", m.Fields[0].Data)
		})
	}
	for _, scheme := range []string{"euler", "rk4"} {
		for _, dims := range [][]int{{4, 3}, {3, 3, 4}} {
			for i := range terms {
				run(dims, terms[i:i+1], scheme, 1)
				run(dims, terms[i:i+1], scheme, 1e-9)
				run(dims, terms[i:i+1], scheme, 1e-14)
				for j := range terms {
					t2 := terms[j]
					t2.sign = -1
					run(dims, []eqTerm{terms[i], t2}, scheme, 1)
				}
			}
		}
		scheme := scheme
		lin := []struct {
			eq   string
			coef func(l float64) float64
		}{
			{"LAP conc", func(l float64) float64 { return l }},
			{"alpha*LAP conc - conc", func(l float64) float64 { return 0.02*l - 1 }},
			{"dcoef*LAP^2 conc", func(l float64) float64 { return -0.1 * l * l }},
			{"alpha*LAP^3 conc + dcoef*conc", func(l float64) float64 { return 0.02*l*l*l - 0.1 }},
		}
		shapesB(c, m2, m3, func(dims []int) {
			for _, l := range lin {
				for _, dt := range []float64{0.001, 0.1, 1, 10} {
					l, dt := l, dt
					c.Case(fmt.Sprintf("decay/%s/%s/%s/dt=%g", scheme, ints(dims), l.eq, dt), func(r *Run) {
						w := newWorld(dims, []string{"conc"}, scal)
						m := w.model()
						m.AddEquation("dconc/dt = " + l.eq)
						m.Init()
						var st pf.TimeStepper
						if scheme == "euler" {
							st = &pf.Euler{Dt: dt, FT: fft(dims)}
						} else {
							st = &pf.RK4{Dt: dt, FT: fft(dims)}
						}
						y := refDFT(dims, w.data["conc"], -1)
						for k := 0; k < 3; k++ {
							st.Step(&m)
							r.Step(1)
							for i := range y {
								a := l.coef(real(lapSymbol(dims, i, 1)))
								y[i] /= complex(1-dt*a, 0)
							}
							r.closeC(fmt.Sprintf("field after step %d", k+1), m.Fields[0].Data, refIDFT(dims, y), 1e-9)
						}
						r.ObserveC("decay", m.Fields[0].Data)
					})
				}
			}
		})
	}
}

func implicitScheme(c *Ctx) {
	m2, m3 := 3, 2
	steps := 2
	if c.Thorough {
		m2, m3 = 5, 3
	}
	implicitRuns(c)
	implicitInterleaved(c)
	c.bound("linear problems: 4 operators x 4 time steps (0.001..10) on all 2D domains with sides 1..%d and 3D with sides 1..%d; exact exponential propagation, %d steps", m2, m3, steps)
	c.bound("non-linear problems: 12 one- and two-field systems x 2 time steps on 4 domains: every step satisfies the implicit relation of the scheme (solved independently by fixed point iteration)")
	scal := map[string]float64{"alpha": 0.02, "dcoef": -0.1, "kappa": 0.3}
	lin := []struct {
		eq   string
		coef func(l float64) float64
	}{
		{"LAP conc", func(l float64) float64 { return l }},
		{"alpha*LAP conc - conc", func(l float64) float64 { return 0.02*l - 1 }},
		{"dcoef*LAP^2 conc", func(l float64) float64 { return -0.1 * l * l }},
		{"-dcoef*LAP conc + kappa*conc", func(l float64) float64 { return 0.1*l + 0.3 }},
	}
	c.bound("and on the domains 16x16, 9x32, 1x130 and 8x8x8")
	each := func(f func(dims []int)) {
		shapes(m2, m3, f)
		for _, d := range [][]int{{16, 16}, {9, 32}, {1, 130}, {8, 8, 8}} {
			f(d)
		}
	}
	each(func(dims []int) {
		for _, l := range lin {
			for _, dt := range []float64{0.001, 0.1, 1, 10} {
				l, dt := l, dt
				c.Case(fmt.Sprintf("linear/%s/%s/dt=%g", ints(dims), l.eq, dt), func(r *Run) {
					w := newWorld(dims, []string{"conc"}, scal)
					m := w.model()
					m.AddEquation("dconc/dt = " + l.eq)
					m.Init()
					st := &pf.ImplicitEuler{Dt: dt, FT: fft(dims)}
					y := refDFT(dims, w.data["conc"], -1)
					for k := 0; k < steps; k++ {
						r.close1("time", st.GetTime(), float64(k)*dt, 1e-12)
						st.Step(&m)
						r.Step(1)
						for i := range y {
							y[i] *= complex(math.Exp(dt*l.coef(real(lapSymbol(dims, i, 1)))), 0)
						}
						r.closeC(fmt.Sprintf("field after step %d", k+1), m.Fields[0].Data, refIDFT(dims, y), 1e-5)
					}
					r.ObserveC("lin", m.Fields[0].Data)
				})
			}
		}
	})
	c.bound("weak linear terms next to fast reactions: dc/dt = weak*[LAP^{0,1,2}] c + fast*c^2 with weak from 1e-7 to 0.1 (both signs), time steps 1e-5..1e-3, 8 steps on 2 domains")
	for _, weak := range []float64{1e-7, 1e-6, 5e-6, 9.9e-6, 1.01e-5, 2e-5, 3e-5, 5e-5, 1e-4, 2.3e-4, 1e-3, 1e-2, 0.1} {
		for _, dt := range []float64{1e-5, 1e-4, 1e-3} {
			for l := 0; l <= 2; l++ {
				for _, dims := range [][]int{{2, 2}, {1, 3}} {
					sgn := 1.0
					if (l+len(dims)+int(math.Round(-math.Log10(dt))))%2 == 0 || l == 1 {
						sgn = -1
					}
					if l == 1 {
						sgn = 1
					}
					weak, dt, l, dims := weak*sgn, dt, l, dims
					c.Case(fmt.Sprintf("weak/%s/%g/LAP^%d/dt=%g", ints(dims), weak, l, dt), func(r *Run) {
						scal := map[string]float64{"weak": weak, "fast": 40}
						w := newWorld(dims, []string{"conc"}, scal)
						for i := range w.data["conc"] {
							w.data["conc"][i] = complex(1+0.1*real(w.data["conc"][i]), 0)
						}
						fs, txt := []factor{sc("weak", 1)}, "weak*conc"
						if l > 0 {
							fs, txt = append(fs, lap(l)), fmt.Sprintf("weak*LAP^%d conc", l)
						}
						ts := []eqTerm{{1, append(fs, fl("conc", 1)), txt}, {1, []factor{sc("fast", 1), fl("conc", 2)}, "fast*conc^2"}}
						sp := spec{dims: dims, names: []string{"conc"}, scal: scal, terms: [][]eqTerm{ts}}
						m := w.model()
						m.AddEquation(sumText("conc", ts))
						m.Init()
						st := &pf.ImplicitEuler{Dt: dt, FT: fft(dims)}
						cur := w.data
						for k := 0; k < 8; k++ {
							st.Step(&m)
							r.Step(1)
							cur = sp.exponentialTrapezoid(cur, dt)
							r.closeC(fmt.Sprintf("field after step %d", k+1), m.Fields[0].Data, cur["conc"], 2e-6)
						}
						r.ObserveC("weak", m.Fields[0].Data)
					})
				}
			}
		}
	}
	f1 := [][]eqTerm{
		{{-1, []factor{fl("conc", 3)}, "conc^3"}},
		{{-1, []factor{fl("conc", 3)}, "conc^3"}, {1, []factor{fl("conc", 1)}, "conc"}, {1, []factor{sc("alpha", 1), lap(1), fl("conc", 1)}, "alpha*LAP conc"}},
		{{1, []factor{sc("alpha", 1), lap(1), fl("conc", 3)}, "alpha*LAP conc^3"}, {1, []factor{sc("dcoef", 1), lap(2), fl("conc", 1)}, "dcoef*LAP^2 conc"}},
		{{-1, []factor{sc("kappa", 1), fl("conc", 1), fl("eta", 1)}, "kappa*conc*eta"}, {1, []factor{lap(1), fl("conc", 1)}, "LAP conc"}},
		{{1, []factor{sc("kappa", 1), fl("eta", 1)}, "kappa*eta"}, {-1, []factor{fl("conc", 1)}, "conc"}},
		{{1, []factor{sc("kappa", 1), fl("eta", 2)}, "kappa*eta^2"}},
	}
	f2 := [][]eqTerm{
		{{-1, []factor{sc("kappa", 1), fl("conc", 1), fl("eta", 1)}, "kappa*conc*eta"}},
		{{1, []factor{sc("kappa", 1), fl("conc", 1)}, "kappa*conc"}, {1, []factor{sc("alpha", 1), lap(1), fl("eta", 1)}, "alpha*LAP eta"}},
	}
	names := []string{"conc", "eta"}
	for a := range f1 {
		for b := range f2 {
			for _, dims := range [][]int{{2, 3}, {4, 2}, {1, 4}, {2, 2, 2}} {
				for _, dt := range []float64{0.01, 0.1} {
					t1, t2, dims, dt := f1[a], f2[b], dims, dt
					c.Case(fmt.Sprintf("nonlinear/%s/%s;%s/dt=%g", ints(dims), sumText("conc", t1), sumText("eta", t2), dt), func(r *Run) {
						w := newWorld(dims, names, scal)
						for _, nm := range names {
							for i := range w.data[nm] {
								w.data[nm][i] *= 0.4
							}
						}
						s := spec{dims: dims, names: names, scal: scal, terms: [][]eqTerm{t1, t2}}
						m := w.model()
						m.AddEquation(sumText("conc", t1))
						m.AddEquation(sumText("eta", t2))
						m.Init()
						st := &pf.ImplicitEuler{Dt: dt, FT: fft(dims)}
						cur := w.data
						for k := 0; k < 2; k++ {
							st.Step(&m)
							r.Step(1)
							cur = s.exponentialTrapezoid(cur, dt)
							for _, f := range m.Fields {
								r.closeC(fmt.Sprintf("field %s after step %d", f.Name, k+1), f.Data, cur[f.Name], 1e-5)
								for i, v := range f.Data {
									r.Check(math.Abs(imag(v)) < 1e-9, "node %d of %s is complex", i, f.Name)
								}
							}
						}
						r.close1("time", st.GetTime(), 2*dt, 1e-12)
						r.ObserveC("nl", m.Fields[0].Data)
					})
				}
			}
		}
	}
}

// implicitRuns follows longer runs with the implicit scheme: three coupled fields, sources,
// right-hand-side modifiers, time steps that change, other start steps, the user's non-linear solver and the Solver
func implicitRuns(c *Ctx) {
	scal := map[string]float64{"alpha": 0.02, "dcoef": -0.1, "kappa": 0.3}
	names := []string{"conc", "eta", "phi"}
	three := [][]eqTerm{
		{{-1, []factor{fl("conc", 3)}, "conc^3"}, {1, []factor{sc("kappa", 1), fl("eta", 1), fl("phi", 1)}, "kappa*eta*phi"}, {1, []factor{sc("alpha", 1), lap(1), fl("conc", 1)}, "alpha*LAP conc"}},
		{{-1, []factor{sc("kappa", 1), fl("conc", 1), fl("eta", 1)}, "kappa*conc*eta"}, {1, []factor{sc("kappa", 1), fl("phi", 2)}, "kappa*phi^2"}},
		{{1, []factor{sc("dcoef", 1), lap(2), fl("phi", 1)}, "dcoef*LAP^2 phi"}, {-1, []factor{fl("phi", 1)}, "phi"}, {1, []factor{sc("alpha", 1), lap(1), fl("conc", 2)}, "alpha*LAP conc^2"}},
	}
	nsteps := 6
	if c.Thorough {
		nsteps = 12
	}
	c.bound("runs of %d steps of one, two and three fields on 4 domains x {direct, through Solver with 1..3 steps per epoch} x {none, source, modifier} x start steps 0,5 x {fixed, changing time step} x {default, user's} non-linear solver", nsteps)
	for nf := 1; nf <= 3; nf++ {
		for _, dims := range [][]int{{2, 3}, {1, 5}, {3, 3}, {2, 1, 3}} {
			for drive := 0; drive <= 3; drive++ {
				for _, ex := range []string{"plain", "source", "modifier"} {
					for _, start := range []int{0, 5} {
						for _, vary := range []bool{false, true} {
							for _, own := range []bool{false, true} {
								if vary && drive > 0 {
									continue
								}
								nf, dims, drive, ex, start, vary, own := nf, dims, drive, ex, start, vary, own
								c.Case(fmt.Sprintf("run/%d fields/%s/drive=%d/%s/start=%d/vary=%v/own=%v", nf, ints(dims), drive, ex, start, vary, own), func(r *Run) {
									nm := names[:nf]
									terms := [][]eqTerm{}
									for i := 0; i < nf; i++ {
										ts := []eqTerm{}
										for _, t := range three[i] {
											ok := true
											for _, f := range t.factors {
												known := f.kind != 'f'
												for _, x := range nm {
													known = known || x == f.name
												}
												ok = ok && known
											}
											if ok {
												ts = append(ts, t)
											}
										}
										terms = append(terms, ts)
									}
									w := newWorld(dims, nm, scal)
									for _, x := range nm {
										for i := range w.data[x] {
											w.data[x][i] *= 0.4
										}
									}
									n := prod(dims)
									sp := spec{dims: dims, names: nm, scal: scal, terms: terms}
									m := w.model()
									for i, x := range nm {
										m.AddEquation(sumText(x, terms[i]))
									}
									last := nf - 1
									switch ex {
									case "source":
										pos := make([]float64, len(dims))
										src := make([]complex128, n)
										src[0] = 1
										srcFT := refDFT(dims, src, -1)
										m.AddSource(last, pf.NewSource(pos, func(t float64) float64 { return 0.7 }))
										sp.extra = func(eq int, t float64, f map[string][]complex128) []complex128 {
											out := make([]complex128, n)
											if eq == last {
												for i := range out {
													out[i] = srcFT[i] * 0.7
												}
											}
											return out
										}
									case "modifier":
										mod := func(d []complex128) {
											for i := range d {
												d[i] *= 0.5
											}
											d[0] = 0
										}
										m.RegisterRHSModifier(last, mod)
										sp.explicitMod = func(eq int, d []complex128) {
											if eq == last {
												mod(d)
											}
										}
									}
									dt := 0.05
									st := &pf.ImplicitEuler{Dt: dt, FT: fft(dims), CurrentStep: start}
									if own {
										ns := pf.DefaultNonLinSolver()
										ns.Tol = 1e-10
										ns.Maxiter = 63
										st.NonlinSolver = &ns
									}
									var settings nonlin.NewtonKrylov
									if own {
										settings = *st.NonlinSolver
									}
									cur := w.data
									check := func(k int) {
										if own {
											ns := st.NonlinSolver
											r.Check(ns.Maxiter == settings.Maxiter && ns.StepSize == settings.StepSize && ns.Tol == settings.Tol && ns.Stencil == settings.Stencil, "the settings of the user's solver became %+v", *ns)
										}
										for _, f := range m.Fields {
											tol := 2e-5
											if own {
												tol = 1e-7
											}
											r.closeC(fmt.Sprintf("field %s after step %d", f.Name, k), f.Data, cur[f.Name], tol)
										}
									}
									if drive == 0 {
										m.Init()
										t := 0.0
										for k := 0; k < nsteps; k++ {
											if vary && k%2 == 1 {
												st.Dt = 0.5 * dt
											} else {
												st.Dt = dt
											}
											st.Step(&m)
											r.Step(1)
											cur = sp.exponentialTrapezoid(cur, st.Dt)
											t += st.Dt
											check(k + 1)
										}
										if !vary {
											r.close1("time", st.GetTime(), float64(start+nsteps)*dt, 1e-12)
										}
									} else {
										sol := pf.NewSolver(&m, dims, dt)
										sol.Stepper = st
										sol.AddCallback(func(s *pf.Solver, ep int) {
											r.close1("time", st.GetTime(), float64(start+(ep+1)*drive)*dt, 1e-12)
											check((ep + 1) * drive)
										})
										// the callback looks at the fields behind every epoch
										seq := []map[string][]complex128{}
										y := cur
										for k := 0; k < nsteps; k++ {
											y = sp.exponentialTrapezoid(y, dt)
											seq = append(seq, y)
										}
										sol.Callbacks = append([]pf.SolverCB{func(s *pf.Solver, ep int) { cur = seq[(ep+1)*drive-1] }}, sol.Callbacks...)
										sol.Solve(nsteps/drive, drive)
										r.Step(nsteps)
									}
									r.ObserveC("end", m.Fields[last].Data)
									r.Outcome(ex)
								})
							}
						}
					}
				}
			}
		}
	}
}

// implicitInterleaved: a step of the implicit scheme depends on the state at its beginning only, whatever the
// caller did between the steps
func implicitInterleaved(c *Ctx) {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	if c.Deep {
		depth = 5
	}
	opNames := []string{"step", "set field", "set scalar", "add source", "other model", "time step", "modifier"}
	c.bound("implicit scheme: every sequence of up to %d operations out of %v followed by two steps, two fields, start steps 0 and 7", depth, opNames)
	dims := []int{2, 3}
	n := prod(dims)
	names := []string{"conc", "eta"}
	for _, start := range []int{0, 7} {
		start := start
		sequences(len(opNames), 1, depth, func(seq []int) {
			if start != 0 && len(seq) >= depth {
				return
			}
			seq = append(cloneI(seq), 0, 0)
			nm := ""
			for _, k := range seq {
				nm += opNames[k] + ";"
			}
			c.Case(fmt.Sprintf("interleaved/start%d/%s", start, nm), func(r *Run) {
				scal := map[string]float64{"alpha": 0.02, "kappa": 0.3}
				terms := [][]eqTerm{
					{{-1, []factor{fl("conc", 3)}, "conc^3"}, {1, []factor{sc("kappa", 1), fl("eta", 2)}, "kappa*eta^2"}, {1, []factor{sc("alpha", 1), lap(1), fl("conc", 1)}, "alpha*LAP conc"}},
					{{-1, []factor{sc("kappa", 1), fl("conc", 1), fl("eta", 1)}, "kappa*conc*eta"}, {-1, []factor{sc("kappa", 1), fl("eta", 1)}, "kappa*eta"}},
				}
				w := newWorld(dims, names, scal)
				for _, x := range names {
					for i := range w.data[x] {
						w.data[x][i] *= 0.4
					}
				}
				s := spec{dims: dims, names: names, scal: scal, terms: terms}
				extra := [][]complex128{make([]complex128, n), make([]complex128, n)}
				s.extra = func(eq int, t float64, f map[string][]complex128) []complex128 { return cloneC(extra[eq]) }
				m := w.model()
				for i, x := range names {
					m.AddEquation(sumText(x, terms[i]))
				}
				m.Init()
				other := newWorld(dims, names, scal).model()
				other.AddEquation("dconc/dt = conc^2")
				other.AddEquation("deta/dt = conc*eta")
				other.Init()
				ns := pf.DefaultNonLinSolver()
				ns.Tol = 1e-10
				st := &pf.ImplicitEuler{Dt: 0.05, FT: fft(dims), CurrentStep: start, NonlinSolver: &ns}
				ref := map[string][]complex128{}
				for k, d := range w.data {
					ref[k] = cloneC(d)
				}
				sets := 0
				for k, op := range seq {
					switch op {
					case 0:
						st.Step(&m)
						ref = s.exponentialTrapezoid(ref, st.Dt)
					case 1:
						f := sets % 2
						sets++
						d := genericField(n, 30+sets)
						for i := range d {
							d[i] *= 0.4
						}
						copy(m.Fields[f].Data, d)
						ref[names[f]] = cloneC(d)
					case 2:
						scal["kappa"] += 0.15
						m.Bricks["kappa"].(*pf.Scalar).SetFloat(scal["kappa"])
					case 3:
						x := make([]complex128, n)
						x[k%n] = complex(0.4+0.1*float64(k), 0)
						p := refPos(dims, k%n)
						rate := real(x[k%n])
						for i, v := range refDFT(dims, x, -1) {
							extra[k%2][i] += v
						}
						m.AddSource(k%2, pf.NewSource([]float64{float64(p[0]), float64(p[1])}, func(t float64) float64 { return rate }))
					case 4:
						for _, f := range other.Fields {
							for i := range f.Data {
								f.Data[i] = complex(0.1*float64(i), 0)
							}
						}
						st.Step(&other)
					case 5:
						st.Dt *= 0.7
					case 6:
						m.RegisterRHSModifier(1, func(data []complex128) {
							for i := range data {
								data[i] *= 1.5
							}
						})
						old := s.explicitMod
						s.explicitMod = func(eq int, d []complex128) {
							if old != nil {
								old(eq, d)
							}
							if eq == 1 {
								for i := range d {
									d[i] *= 1.5
								}
							}
						}
					}
					r.Step(1)
					for _, f := range m.Fields {
						r.closeC(fmt.Sprintf("field %s after operation %d (%s)", f.Name, k, opNames[op]), f.Data, ref[f.Name], 1e-7)
					}
				}
				r.ObserveC("conc", m.Fields[0].Data)
				r.Outcome("interleaved")
			})
		})
	}
}

// exponentialTrapezoid solves y1 = e^{A dt} y0 + int_0^dt e^{A(dt-s)} N(s) ds with N linear between
// N(y0) and N(y1), by fixed point iteration
func (s spec) exponentialTrapezoid(fields map[string][]complex128, dt float64) map[string][]complex128 {
	n := len(s.names)
	y0 := make([][]complex128, n)
	n0 := make([][]complex128, n)
	den := make([][]complex128, n)
	for e, nm := range s.names {
		y0[e] = refDFT(s.dims, fields[nm], -1)
		n0[e] = s.explicit(e, 0, fields)
		den[e] = s.implicit(e, 0)
	}
	cur := fields
	for it := 0; it < 60; it++ {
		y := make([][]complex128, n)
		for e := range y {
			n1 := s.explicit(e, 0, cur)
			y[e] = make([]complex128, len(y0[e]))
			for i := range y[e] {
				a := den[e][i] * complex(dt, 0)
				// weights of N0 and N1: dt*int_0^1 e^{a(1-u)} (1-u or u) du, by Gauss-Legendre/Simpson
				var w0, w1 complex128
				const q = 64
				for k := 0; k <= q; k++ {
					u := float64(k) / q
					w := 2.0
					if k%2 == 1 {
						w = 4
					}
					if k == 0 || k == q {
						w = 1
					}
					ex := cmplx.Exp(a*complex(1-u, 0)) * complex(w/(3*q), 0)
					w0 += ex * complex(1-u, 0)
					w1 += ex * complex(u, 0)
				}
				y[e][i] = cmplx.Exp(a)*y0[e][i] + complex(dt, 0)*(w0*n0[e][i]+w1*n1[i])
			}
		}
		next := s.back(y)
		d := 0.0
		for _, nm := range s.names {
			_, dd := diffC(next[nm], cur[nm])
			d = math.Max(d, dd)
		}
		cur = next
		if d < 1e-12 {
			break
		}
	}
	return cur
}
