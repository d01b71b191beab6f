package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"os"
	"os/exec"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

// spec is an independent description of a coupled system, used by the reference integrators
type spec struct {
	dims  []int
	names []string
	scal  map[string]float64
	terms [][]eqTerm
	// extra contributions (user terms, sources) to the explicit part, in Fourier space
	extra func(eq int, t float64, fields map[string][]complex128) []complex128
	// extra contribution to the implicit coefficient
	extraDen func(eq int) []complex128
	// time dependent factor of the extra contribution to the implicit coefficient
	denTime func(t float64) float64
	filter  func(f []float64) float64
	// explicitMod changes the explicit part like a right-hand-side modifier
	explicitMod func(eq int, d []complex128)
	// inExplicit selects linear terms that are left in the explicit part
	inExplicit func(eq int) bool
}

// implicitTerm tells if a term belongs to the implicit part of its equation
func (s spec) implicitTerm(eq int, tm eqTerm) bool {
	return tm.linearIn(s.names[eq]) && (s.inExplicit == nil || !s.inExplicit(eq))
}

// explicit returns the transform of the explicit part for real space fields
func (s spec) explicit(eq int, t float64, fields map[string][]complex128) []complex128 {
	n := prod(s.dims)
	out := make([]complex128, n)
	for _, tm := range s.terms[eq] {
		if s.implicitTerm(eq, tm) {
			continue
		}
		for i, v := range refTerm(s.dims, tm, s.scal, fields) {
			out[i] += v
		}
	}
	if s.extra != nil {
		for i, v := range s.extra(eq, t, fields) {
			out[i] += v
		}
	}
	if s.explicitMod != nil {
		s.explicitMod(eq, out)
	}
	return out
}

func (s spec) implicit(eq int, t float64) []complex128 {
	out := make([]complex128, prod(s.dims))
	for _, tm := range s.terms[eq] {
		if s.implicitTerm(eq, tm) {
			cf := tm.coef(s.scal)
			for i := range out {
				out[i] += cf * lapSymbol(s.dims, i, tm.lapPower())
			}
		}
	}
	if s.extraDen != nil {
		f := complex(1, 0)
		if s.denTime != nil {
			f = complex(s.denTime(t), 0)
		}
		for i, v := range s.extraDen(eq) {
			out[i] += f * v
		}
	}
	return out
}

func (s spec) applyFilter(y []complex128) {
	if s.filter == nil {
		return
	}
	for i := range y {
		y[i] *= complex(s.filter(refFreq(s.dims, i)), 0)
	}
}

// back transforms every field to real space
func (s spec) back(y [][]complex128) map[string][]complex128 {
	out := map[string][]complex128{}
	for k, nm := range s.names {
		out[nm] = refIDFT(s.dims, y[k])
	}
	return out
}

// euler is the documented semi-implicit update (y + dt*N(y))/(1 - dt*A)
func (s spec) euler(fields map[string][]complex128, t, dt float64) map[string][]complex128 {
	y := make([][]complex128, len(s.names))
	for k, nm := range s.names {
		y[k] = refDFT(s.dims, fields[nm], -1)
		rhs := s.explicit(k, t, fields)
		den := s.implicit(k, t)
		for i := range y[k] {
			y[k][i] = (y[k][i] + complex(dt, 0)*rhs[i]) / (1 - complex(dt, 0)*den[i])
		}
		s.applyFilter(y[k])
	}
	return s.back(y)
}

// rk4 is the documented Runge-Kutta update with implicit linear part
func (s spec) rk4(fields map[string][]complex128, t, dt float64) map[string][]complex128 {
	n := len(s.names)
	y := make([][]complex128, n)
	den := make([][]complex128, n)
	sum := make([][]complex128, n)
	k := make([][]complex128, n)
	for e, nm := range s.names {
		y[e] = refDFT(s.dims, fields[nm], -1)
		den[e] = s.implicit(e, t)
		k[e] = s.explicit(e, t, fields)
		sum[e] = make([]complex128, len(y[e]))
	}
	acc := func(w float64) {
		for e := range k {
			for i := range k[e] {
				sum[e][i] += complex(w, 0) * k[e][i]
			}
		}
	}
	stage := func(f float64) {
		st := make([][]complex128, n)
		for e := range k {
			st[e] = make([]complex128, len(y[e]))
			for i := range k[e] {
				st[e][i] = (y[e][i] + complex(f*dt, 0)*k[e][i]) / (1 - complex(f*dt, 0)*den[e][i])
			}
		}
		r := s.back(st)
		for e := range k {
			k[e] = s.explicit(e, t+f*dt, r)
		}
	}
	acc(1.0 / 6)
	stage(0.5)
	acc(1.0 / 3)
	stage(0.5)
	acc(1.0 / 3)
	stage(1)
	acc(1.0 / 6)
	for e := range y {
		for i := range y[e] {
			y[e][i] = (y[e][i] + complex(dt, 0)*sum[e][i]) / (1 - complex(dt, 0)*den[e][i])
		}
		s.applyFilter(y[e])
	}
	return s.back(y)
}

func declarationOrder(c *Ctx) {
	steps := 2
	domains := [][]int{{2, 3}}
	if c.Thorough {
		steps = 4
		domains = [][]int{{2, 3}, {3, 2, 2}}
	}
	if c.Deep {
		domains = append(domains, []int{1, 4}, []int{4, 3}, []int{1, 2, 3})
	}
	c.bound("a coupled three-field system: all 6 orders of declaring the fields x all 6 orders of the equations x all 6 orders of the scalars x all 6 assignments of names to roles x 2 schemes, %d steps, domains %v", steps, domains)
	nameSets := [][]string{{"conc", "eta", "phase"}, {"zz", "b", "mm"},
		{"c", "cc", "ccc"}, {"c", "eta", "phi"}, {"eta", "beta", "theta"}, {"c", "e", "p"}, {"conc", "con", "nc"}, {"a1", "a11", "a12"}, {"A", "AP", "P"}, {"d", "t", "dt"}, {"conc", "eta", "phase"}}
	scalSets := [][]string{{"alpha", "dcoef", "Mob"}, {"y", "a", "q"},
		{"mc", "cM", "cccc"}, {"mc", "Deta", "phic"}, {"e", "et", "eta2"}, {"coef", "penalty", "epsilon"}, {"c", "o", "n"}, {"a", "a111", "a2"}, {"PA", "LA", "x"}, {"dd", "td", "dtd"}, {"mconc", "D_eta", "phasephase"}}
	c.bound("names (three fields; three scalars), also such that names contain each other: %v %v; for the later pairs the declarations are permuted one kind at a time; where names contain each other, linear terms may be in the implicit or the explicit part, which three overlap cases decide", nameSets, scalSets)
	for set := range nameSets {
		set := set
		for _, dims := range domains {
			for _, scheme := range []string{"euler", "rk4"} {
				permutations(3, func(naming []int) {
					permutations(3, func(fo []int) {
						permutations(3, func(eo []int) {
							permutations(3, func(so []int) {
								moved := 0
								for _, o := range [][]int{fo, eo, so} {
									if fmt.Sprint(o) != "[0 1 2]" {
										moved++
									}
								}
								if set > 1 && moved > 1 {
									return
								}
								x := [3]string{nameSets[set][naming[0]], nameSets[set][naming[1]], nameSets[set][naming[2]]}
								sca := [3]string{scalSets[set][naming[1]], scalSets[set][naming[2]], scalSets[set][naming[0]]}
								fo, eo, so := cloneI(fo), cloneI(eo), cloneI(so)
								c.Case(fmt.Sprintf("order/%s/%s/names%d%v/fields%v/equations%v/scalars%v", scheme, ints(dims), set, naming, fo, eo, so), func(r *Run) {
									orderRun(r, x, sca, dims, scheme, fo, eo, so, steps, namesOverlap(x, sca))
								})
							})
						})
					})
				})
			}
		}
	}
	id := []int{0, 1, 2}
	for _, scheme := range []string{"euler", "rk4"} {
		scheme := scheme
		for _, cs := range []struct {
			what   string
			x, sca [3]string
		}{
			{"a scalar has the name of a field in its name", [3]string{"conc", "eta", "phase"}, [3]string{"alpha", "dcoef", "Meta"}},
			{"a field has the name of a field in its name", [3]string{"conc2", "eta", "conc"}, [3]string{"alpha", "dcoef", "Mob"}},
			{"a field is called A, like a letter of LAP", [3]string{"conc", "A", "phase"}, [3]string{"alpha", "dcoef", "Mob"}},
		} {
			cs := cs
			c.Case(fmt.Sprintf("overlap/%s/%s", cs.what, scheme), func(r *Run) {
				orderRun(r, cs.x, cs.sca, []int{2, 3}, scheme, id, id, id, steps, false)
			})
		}
	}
}

// namesOverlap is true if one of the names is part of another name or of LAP
func namesOverlap(x, sca [3]string) bool {
	for i, f := range x {
		if strings.Contains("LAP", f) {
			return true
		}
		for j, g := range x {
			if (i != j && strings.Contains(g, f)) || strings.Contains(sca[j], f) {
				return true
			}
		}
	}
	return false
}

// orderRun runs the three field system with the given names and orders of declaration. The
// linear terms of the first and the last equation have to be in the implicit part; with
// either=true they may be in the explicit part too, as long as they stay there
func orderRun(r *Run, x, sca [3]string, dims []int, scheme string, fo, eo, so []int, steps int, either bool) {
	a, d, m := sca[0], sca[1], sca[2]
	scal := map[string]float64{a: 0.7, d: -1.2, m: 0.4}
	s := spec{dims: dims, names: x[:], scal: scal, terms: [][]eqTerm{
		{{1, []factor{sc(m, 1), lap(1), fl(x[0], 1)}, m + "*LAP " + x[0]}, {1, []factor{sc(a, 1), fl(x[1], 1)}, a + "*" + x[1]}},
		{{1, []factor{sc(d, 1), fl(x[0], 1)}, d + "*" + x[0]}, {-1, []factor{sc(m, 1), fl(x[1], 1), fl(x[2], 2)}, m + "*" + x[2] + "^2*" + x[1]}},
		{{1, []factor{fl(x[0], 1), sc(a, 1), fl(x[1], 1)}, x[1] + "*" + a + "*" + x[0]}, {-1, []factor{fl(x[2], 1)}, x[2]}},
	}}
	eqs := make([]string, 3)
	for e := range eqs {
		eqs[e] = "d" + x[e] + "/dt = "
		for k, tm := range s.terms[e] {
			if tm.sign < 0 {
				eqs[e] += "-"
			} else if k > 0 {
				eqs[e] += "+"
			}
			eqs[e] += tm.text
		}
	}
	init := map[string][]complex128{}
	for k := range x {
		init[x[k]] = genericField(prod(dims), 20+k)
	}
	model := pf.NewModel()
	for _, k := range fo {
		model.AddField(pf.NewField(x[k], prod(dims), cloneC(init[x[k]])))
	}
	scn := []string{a, d, m}
	for _, k := range so {
		model.AddScalar(pf.NewScalar(scn[k], complex(scal[scn[k]], 0)))
	}
	for _, k := range eo {
		model.AddEquation(eqs[k])
	}
	dt := 0.05
	solver := pf.NewSolver(&model, dims, dt)
	solver.SetStepper(scheme)
	specs := []spec{s}
	if either {
		for mask := 1; mask < 4; mask++ {
			mask := mask
			alt := s
			alt.inExplicit = func(eq int) bool { return (eq == 0 && mask&1 != 0) || (eq == 2 && mask&2 != 0) }
			specs = append(specs, alt)
		}
	}
	refs := make([]map[string][]complex128, len(specs))
	for k := range refs {
		refs[k] = init
	}
	for st := 0; st < steps; st++ {
		solver.Propagate(1)
		r.Step(1)
		best, dist := -1, 0.0
		for k := range specs {
			if scheme == "euler" {
				refs[k] = specs[k].euler(refs[k], 0, dt)
			} else {
				refs[k] = specs[k].rk4(refs[k], 0, dt)
			}
			worst := 0.0
			for _, f := range model.Fields {
				for i := range f.Data {
					worst = math.Max(worst, cmplx.Abs(f.Data[i]-refs[k][f.Name][i]))
				}
			}
			if best < 0 || worst < dist {
				best, dist = k, worst
			}
		}
		for _, f := range model.Fields {
			r.closeC(fmt.Sprintf("field %s after step %d", f.Name, st+1), f.Data, refs[best][f.Name], 1e-9)
		}
		specs, refs = specs[best:best+1], refs[best:best+1]
	}
	for k := range x {
		r.ObserveC(fmt.Sprint("field", k), model.Bricks[x[k]].(*pf.Field).Data)
	}
}

// --- user defined terms -------------------------------------------------

type uExplicit struct{ calls *[]float64 }

func (u uExplicit) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0.3*b["conc"].Get(i)*complex(1+t, 0) - 0.2*b["eta"].Get(i)
		}
	}
}
func (u uExplicit) OnStepFinished(t float64, b map[string]pf.Brick) {
	if u.calls != nil {
		*u.calls = append(*u.calls, t)
	}
}

type uImplicit struct{ calls *[]float64 }

func uImplicitCoef(f []float64) complex128 {
	s := 0.0
	for _, v := range f {
		s += v
	}
	return complex(-0.4+0.3*math.Cos(2*math.Pi*s), 0)
}
func (u uImplicit) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = uImplicitCoef(freq(i))
		}
	}
}
func (u uImplicit) OnStepFinished(t float64, b map[string]pf.Brick) {
	if u.calls != nil {
		*u.calls = append(*u.calls, t)
	}
}

type uMixed struct{ calls *[]float64 }

func (u uMixed) ConstructLinear(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0.25 * uImplicitCoef(freq(i))
		}
	}
}
func (u uMixed) ConstructNonLinear(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0.6 * b["eta"].Get(i)
		}
	}
}
func (u uMixed) OnStepFinished(t float64, b map[string]pf.Brick) {
	if u.calls != nil {
		*u.calls = append(*u.calls, t)
	}
}

// uDerived uses several derived fields, each must be available under its own name
type uDerived struct {
	names []string
}

func (u uDerived) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0
			for k, nm := range u.names {
				out[i] += complex(float64(k+1), 0) * b[nm].Get(i)
			}
		}
	}
}
func (u uDerived) OnStepFinished(t float64, b map[string]pf.Brick) {}

func userTerms(c *Ctx) {
	implicitAxes(c)
	localUserTerms(c)
	domains := [][]int{{2, 3}}
	if c.Thorough {
		domains = [][]int{{2, 3}, {4, 2}, {2, 3, 2}}
	}
	if c.Deep {
		domains = append(domains, []int{1, 2}, []int{5, 3}, []int{3, 1, 2})
	}
	prefixes := []struct {
		text string
		pow  int
	}{{"", 0}, {"LAP*", 1}, {"LAP ", 1}, {"LAP^2*", 2}, {"LAP^2 ", 2}, {"LAP^4*", 4}, {"LAP*LAP*", 2}, {"LAP^2*LAP*", 3}, {"LAP LAP^4*", 5}}
	kinds := []string{"EXPL", "IMPL", "MIXED", "FUNC"}
	c.bound("every pair of user supplied contributions out of {explicit, implicit, mixed, function} x 9 Laplacian prefixes x both signs x 3 positions relative to an ordinary term; domains %v", domains)
	farSources(c)
	c.bound("scalars (alone, squared, with Laplacians, behind the term) and the Laplacian powers 3, 5, 6, 8, 12, 40 in front of each kind of user supplied term: refused or honoured")
	c.bound("registered functions: every product with up to 2 fields and a scalar, in every order")
	c.bound("right-hand-side modifiers: every sequence of up to 3 out of 6")
	c.bound("derived fields: every list of 1..3 derived fields registered with one term of each kind")
	for _, dims := range domains {
		dims := dims
		n := prod(dims)
		w := newWorld(dims, []string{"conc", "eta"}, map[string]float64{"alpha": 0.7})
		fn := func(i int, b map[string]pf.Brick) complex128 {
			x := real(b["conc"].Get(i))
			y := real(b["eta"].Get(i))
			return complex(math.Exp(-x)+x*y, 0)
		}
		realFn := make([]complex128, n)
		for i := range realFn {
			x, y := real(w.data["conc"][i]), real(w.data["eta"][i])
			realFn[i] = complex(math.Exp(-x)+x*y, 0)
		}
		ftFn := refDFT(dims, realFn, -1)
		ftC, ftE := refDFT(dims, w.data["conc"], -1), refDFT(dims, w.data["eta"], -1)
		// contribution of a term: explicit and implicit part
		contrib := func(kind string, pow int, sign float64, t float64) (ex, im []complex128) {
			ex, im = make([]complex128, n), make([]complex128, n)
			for i := 0; i < n; i++ {
				l := lapSymbol(dims, i, pow) * complex(sign, 0)
				f := refFreq(dims, i)
				switch kind {
				case "EXPL":
					ex[i] = l * (0.3*ftC[i]*complex(1+t, 0) - 0.2*ftE[i])
				case "IMPL":
					im[i] = l * uImplicitCoef(f)
				case "MIXED":
					im[i] = l * 0.25 * uImplicitCoef(f)
					ex[i] = l * 0.6 * ftE[i]
				case "FUNC":
					ex[i] = l * ftFn[i]
				case "plain":
					im[i] = complex(0.7*sign, 0)
				}
			}
			return
		}
		build := func() pf.Model {
			m := w.model()
			m.RegisterExplicitTerm("EXPL", uExplicit{}, nil)
			m.RegisterImplicitTerm("IMPL", uImplicit{}, nil)
			m.RegisterMixedTerm("MIXED", uMixed{}, nil)
			m.RegisterFunction("FUNC", fn)
			return m
		}
		compare := func(r *Run, m *pf.Model, field int, t float64, ex, im []complex128) {
			ft := fft(dims)
			rhs := m.GetRHS(field, ft.Freq, t)
			den := m.GetDenum(field, ft.Freq, t)
			r.Step(2)
			r.closeC("explicit part", rhs, ex, 1e-9)
			r.closeC("implicit part", den, im, 1e-9)
			r.ObserveC("ex", rhs)
			r.ObserveC("im", den)
		}
		type choice struct {
			kind string
			pre  int
			sign int
		}
		var choices []choice
		for _, k := range kinds {
			for p := range prefixes {
				for s := 0; s < 2; s++ {
					choices = append(choices, choice{k, p, s})
				}
			}
		}
		for _, c1 := range choices {
			for _, c2 := range choices {
				if c1.kind == c2.kind && c1.kind != "EXPL" && !c.Thorough && c2.pre != 0 {
					continue
				}
				for pos := 0; pos < 3; pos++ {
					if pos > 0 && !c.Thorough && c2.pre > 3 {
						continue
					}
					parts := []string{}
					add := func(ch choice) {
						sg := "+"
						if ch.sign == 1 {
							sg = "-"
						}
						parts = append(parts, sg+prefixes[ch.pre].text+ch.kind)
					}
					if pos == 0 {
						parts = append(parts, "-alpha*conc")
					}
					add(c1)
					if pos == 1 {
						parts = append(parts, "-alpha*conc")
					}
					add(c2)
					if pos == 2 {
						parts = append(parts, "-alpha*conc")
					}
					eq := "dconc/dt = " + strings.Join(parts, " ")
					c1, c2 := c1, c2
					c.Case("terms/"+ints(dims)+"/"+eq, func(r *Run) {
						m := build()
						m.AddEquation(eq)
						m.AddEquation("deta/dt = -eta")
						m.Init()
						transformAll(&m, fft(dims))
						ex, im := contrib("plain", 0, -1, 0.5)
						for _, ch := range []choice{c1, c2} {
							sg := 1.0
							if ch.sign == 1 {
								sg = -1
							}
							e, d := contrib(ch.kind, prefixes[ch.pre].pow, sg, 0.5)
							for i := range ex {
								ex[i] += e[i]
								im[i] += d[i]
							}
						}
						compare(r, &m, 0, 0.5, ex, im)
					})
				}
			}
		}
		// scalars and other powers in front of user supplied terms: refused or honoured, never ignored
		for _, kind := range []string{"EXPL", "IMPL", "MIXED"} {
			for _, pr := range []struct {
				text   string
				pow    int
				factor float64
			}{{"alpha*%s", 0, 0.7}, {"%s*alpha", 0, 0.7}, {"alpha^2*%s", 0, 0.49}, {"alpha*LAP*%s", 1, 0.7}, {"LAP*alpha*%s", 1, 0.7}, {"alpha*LAP^2 %s", 2, 0.7},
				{"LAP^3*%s", 3, 1}, {"LAP^5*%s", 5, 1}, {"LAP^6 %s", 6, 1}, {"LAP^8*%s", 8, 1}, {"LAP^40*%s", 40, 1}, {"LAP^12*%s", 12, 1}} {
				for sg := -1.0; sg < 2; sg += 2 {
					kind, pr, sg := kind, pr, sg
					eq := fmt.Sprintf("dconc/dt = %s"+pr.text, map[float64]string{-1: "-", 1: "eta^2 + "}[sg], kind)
					c.Case("front/"+ints(dims)+"/"+eq, func(r *Run) {
						m := build()
						refused, _ := panics(func() {
							m.AddEquation(eq)
							m.AddEquation("deta/dt = -eta")
							m.Init()
						})
						r.Step(1)
						if refused {
							r.Outcome("refused")
							return
						}
						r.Outcome("accepted")
						transformAll(&m, fft(dims))
						ex, im := contrib(kind, pr.pow, sg*pr.factor, 0.5)
						if sg > 0 {
							for i, v := range refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("eta", 2)}}, w.scal, w.data) {
								ex[i] += v
							}
						}
						compare(r, &m, 0, 0.5, ex, im)
					})
				}
			}
		}
		// functions inside products
		for _, fs := range [][]factor{
			{fl("FUNC", 1), fl("conc", 1)}, {fl("FUNC", 1), fl("eta", 2)}, {fl("FUNC", 2)}, {fl("FUNC", 1), sc("alpha", 1)},
			{fl("FUNC", 1), sc("alpha", 2), fl("conc", 1)}, {lap(1), fl("FUNC", 1), fl("conc", 1)}, {lap(3), fl("FUNC", 1)}, {lap(2), sc("alpha", 1), fl("FUNC", 1)},
			{fl("FUNC", 1), fl("conc", 1), fl("eta", 1)}, {sc("alpha", 1), fl("FUNC", 1), fl("conc", 1), fl("eta", 1)},
		} {
			fs := fs
			spellings(fs, func(text string) {
				for lhs := 0; lhs < 2; lhs++ {
					lhs := lhs
					eq := fmt.Sprintf("d%s/dt = -%s", w.fields[lhs], text)
					c.Case("func/"+ints(dims)+"/"+eq, func(r *Run) {
						m := build()
						eqs := []string{"dconc/dt = -conc", "deta/dt = -eta"}
						eqs[lhs] = eq
						m.AddEquation(eqs[0])
						m.AddEquation(eqs[1])
						m.Init()
						transformAll(&m, fft(dims))
						data := map[string][]complex128{"conc": w.data["conc"], "eta": w.data["eta"], "FUNC": realFn}
						ex := refTerm(dims, eqTerm{sign: -1, factors: fs}, w.scal, data)
						compare(r, &m, lhs, 0.5, ex, make([]complex128, n))
					})
				}
			})
		}
		// sources
		type src struct {
			eq  int
			pos []float64
			amp float64
		}
		var srcs []src
		for k := 0; k < 4; k++ {
			p := make([]float64, len(dims))
			for j := range p {
				p[j] = float64((k + j) % dims[j])
			}
			srcs = append(srcs, src{k % 2, p, 1.0 + float64(k)})
		}
		for e := 0; e < 2; e++ { // further sources of one equation, some at the same place
			for k := 0; k < 3; k++ {
				srcs = append(srcs, src{e, srcs[k].pos, 0.5 + 0.3*float64(k+4*e)})
			}
		}
		c.bound("sources on %s: every subset of %d sources (5 for each equation, several at one place) at 3 times and of the sizes 1, 1e-7 and 1e6", ints(dims), len(srcs))
		for mask := 0; mask < 1<<uint(len(srcs)); mask++ {
			for ti, t := range []float64{0, 0.3, 2, 0.3, 0.3} {
				mask, t := mask, t
				size := []float64{1, 1, 1, 1e-7, 1e6}[ti]
				c.Case(fmt.Sprintf("sources/%s/%04b/t=%g/size=%g", ints(dims), mask, t, size), func(r *Run) {
					m := build()
					m.AddEquation("dconc/dt = LAP conc")
					ex := [][]complex128{make([]complex128, n), make([]complex128, n)}
					if size == 1 {
						m.AddEquation("deta/dt = conc^2")
						ex[1] = refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("conc", 2)}}, w.scal, w.data)
					} else { // nothing but sources, to see the smallest of them
						m.AddEquation("deta/dt = LAP eta")
					}
					for k, s := range srcs {
						if mask&(1<<uint(k)) == 0 {
							continue
						}
						s := s
						m.AddSource(s.eq, pf.NewSource(s.pos, func(t float64) float64 { return size * s.amp * math.Cos(t) }))
						pt := make([]complex128, n)
						ip := make([]int, len(dims))
						for j := range ip {
							ip[j] = int(s.pos[j])
						}
						pt[refIndex(dims, ip)] = complex(s.amp*math.Cos(t), 0) // in units of size
						for i, v := range refDFT(dims, pt, -1) {
							ex[s.eq][i] += v
						}
					}
					m.Init()
					transformAll(&m, fft(dims))
					for e := 0; e < 2; e++ {
						rhs := m.GetRHS(e, fft(dims).Freq, t)
						r.Step(1)
						if size != 1 {
							rhs = cloneC(rhs)
							for i := range rhs {
								rhs[i] /= complex(size, 0)
							}
						}
						r.closeC(fmt.Sprintf("equation %d with sources", e), rhs, ex[e], 1e-9)
						r.ObserveC("src", rhs)
					}
				})
			}
		}
		// modifiers
		mods := []func(d []complex128){
			func(d []complex128) {
				for i := range d {
					d[i] *= 2
				}
			},
			func(d []complex128) {
				for i := range d {
					d[i] += 1
				}
			},
			func(d []complex128) { d[0] = 0 },
		}
		sequences(6, 0, 3, func(seq []int) {
			c.Case(fmt.Sprintf("modifiers/%s/%v", ints(dims), seq), func(r *Run) {
				m := build()
				m.AddEquation("dconc/dt = eta^2")
				m.AddEquation("deta/dt = conc^2")
				ex := [][]complex128{
					refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("eta", 2)}}, w.scal, w.data),
					refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("conc", 2)}}, w.scal, w.data),
				}
				for _, k := range seq {
					m.RegisterRHSModifier(k/3, mods[k%3])
					mods[k%3](ex[k/3])
				}
				m.Init()
				transformAll(&m, fft(dims))
				for e := 0; e < 2; e++ {
					for rep := 0; rep < 2; rep++ { // evaluating twice must not apply anything twice
						rhs := m.GetRHS(e, fft(dims).Freq, 0)
						r.Step(1)
						r.closeC(fmt.Sprintf("equation %d with modifiers", e), rhs, ex[e], 1e-9)
						r.ObserveC("mod", rhs)
					}
				}
			})
		})
		c.bound("up to 20 modifiers, spread over the equations in every way given by a stride")
		for count := 4; count <= 20; count++ {
			for stride := 1; stride <= 5; stride++ {
				count, stride := count, stride
				c.Case(fmt.Sprintf("modifiers-many/%s/%d/%d", ints(dims), count, stride), func(r *Run) {
					m := build()
					m.AddEquation("dconc/dt = eta^2")
					m.AddEquation("deta/dt = conc^2")
					ex := [][]complex128{
						refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("eta", 2)}}, w.scal, w.data),
						refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("conc", 2)}}, w.scal, w.data),
					}
					for k := 0; k < count; k++ {
						eq, v := (k/stride)%2, complex(float64(k+1), 0)
						mod := func(d []complex128) {
							for i := range d {
								d[i] = (d[i] + v) * 0.9
							}
						}
						m.RegisterRHSModifier(eq, mod)
						mod(ex[eq])
					}
					m.Init()
					transformAll(&m, fft(dims))
					for e := 0; e < 2; e++ {
						rhs := m.GetRHS(e, fft(dims).Freq, 0)
						r.Step(1)
						r.closeC(fmt.Sprintf("equation %d with modifiers", e), rhs, ex[e], 1e-9)
						r.ObserveC("mod", rhs)
					}
				})
			}
		}
		c.bound("modifiers of an equation without explicit terms: every sequence of up to 3 out of 3")
		sequences(3, 0, 3, func(seq []int) {
			for _, own := range []string{"alpha*LAP conc", "conc", "-alpha*conc"} {
				own, seq := own, cloneI(seq)
				c.Case(fmt.Sprintf("modifiers-implicit/%s/%s/%v", ints(dims), own, seq), func(r *Run) {
					m := build()
					m.AddEquation("dconc/dt = " + own)
					m.AddEquation("deta/dt = conc^2")
					ex := make([]complex128, n)
					for _, k := range seq {
						m.RegisterRHSModifier(0, mods[k])
						mods[k](ex)
					}
					m.Init()
					transformAll(&m, fft(dims))
					rhs := m.GetRHS(0, fft(dims).Freq, 0)
					r.Step(1)
					r.closeC("equation with modifiers only", rhs, ex, 1e-9)
					r.ObserveC("mod", rhs)
				})
			}
		})
		// derived fields
		powers := []float64{2, 3, 4}
		sequences(3, 1, 3, func(seq []int) {
			dup := map[int]bool{}
			for _, k := range seq {
				if dup[k] {
					return
				}
				dup[k] = true
			}
			for kind := 0; kind < 3; kind++ {
				kind := kind
				c.Case(fmt.Sprintf("derived/%s/%v/%d", ints(dims), seq, kind), func(r *Run) {
					m := w.model()
					var df []pf.DerivedField
					u := uDerived{}
					want := make([]complex128, n)
					data := m.Fields[0].Data
					for k, s := range seq {
						p := powers[s]
						nm := fmt.Sprintf("drv%d", s)
						df = append(df, pf.DerivedField{Name: nm, Data: make([]complex128, n), Calc: func(out []complex128) {
							for i := range out {
								out[i] = complex(math.Pow(real(data[i]), p), 0)
							}
						}})
						u.names = append(u.names, nm)
						for i, v := range refTerm(dims, eqTerm{sign: float64(k + 1), factors: []factor{fl("conc", p)}}, w.scal, w.data) {
							want[i] += v
						}
					}
					switch kind {
					case 0:
						m.RegisterExplicitTerm("TERM", u, df)
					case 1:
						m.RegisterMixedTerm("TERM", mixedFromPure{u}, df)
					case 2:
						for _, d := range df {
							m.RegisterDerivedField(d)
						}
						m.RegisterExplicitTerm("TERM", u, nil)
					}
					m.AddEquation("dconc/dt = TERM")
					m.AddEquation("deta/dt = -eta")
					m.Init()
					transformAll(&m, fft(dims))
					rhs := m.GetRHS(0, fft(dims).Freq, 0)
					r.Step(1)
					r.closeC("term built on derived fields", rhs, want, 1e-9)
					r.ObserveC("drv", rhs)
				})
			}
		})
		// several terms of every kind, each with derived fields of its own
		c.bound("derived fields: 1..3 terms of each kind out of {explicit, mixed, implicit}, each registered with two derived fields of its own, in every order of the kinds")
		permutations(3, func(kinds []int) {
			for cnt := 1; cnt <= 3; cnt++ {
				cnt, kinds := cnt, cloneI(kinds)
				c.Case(fmt.Sprintf("derived-each/%s/%d/%v", ints(dims), cnt, kinds), func(r *Run) {
					m := w.model()
					data := m.Fields[0].Data
					want := make([]complex128, n)
					names := []string{}
					eq := "dconc/dt = eta^2"
					for i, v := range refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("eta", 2)}}, w.scal, w.data) {
						want[i] += v
					}
					id := 0
					for _, kind := range kinds {
						for k := 0; k < cnt; k++ {
							id++
							u := uDerived{}
							df := []pf.DerivedField{}
							for q := 0; q < 2; q++ {
								nm := fmt.Sprintf("drv%d%c", id, 'a'+q)
								amp := float64(id) + 0.25*float64(q)
								u.names = append(u.names, nm)
								names = append(names, nm)
								df = append(df, pf.DerivedField{Name: nm, Data: make([]complex128, n), Calc: func(out []complex128) {
									for i := range out {
										out[i] = complex(amp*math.Pow(real(data[i]), 2), 0)
									}
								}})
								fac := complex(amp*float64(q+1), 0)
								if kind != 2 {
									for i, v := range refTerm(dims, eqTerm{sign: 1, factors: []factor{fl("conc", 2)}}, w.scal, w.data) {
										want[i] += fac * v
									}
								}
							}
							nm := fmt.Sprintf("TERM%d", id)
							switch kind {
							case 0:
								m.RegisterExplicitTerm(nm, u, df)
							case 1:
								m.RegisterMixedTerm(nm, mixedFromPure{u}, df)
							case 2: // only registers derived fields, the term itself does not use them
								m.RegisterImplicitTerm(nm, uImplicit{}, df)
							}
							eq += " + " + nm
						}
					}
					m.AddEquation(eq)
					m.AddEquation("deta/dt = -eta")
					m.Init()
					for id, nm := range names {
						b, ok := m.Bricks[nm]
						r.Check(ok && m.IsFieldName(nm) && m.IsBrickName(nm), "the derived field %s is not known to the model", nm)
						amp := float64(id/2+1) + 0.25*float64(id%2)
						for i := 0; i < n; i++ {
							r.close1("derived field "+nm, real(b.Get(i)), amp*math.Pow(real(data[i]), 2), 1e-12)
						}
					}
					transformAll(&m, fft(dims))
					rhs := m.GetRHS(0, fft(dims).Freq, 0)
					r.Step(1)
					r.closeC("terms built on derived fields", rhs, want, 1e-9)
					r.ObserveC("drv", rhs)
				})
			}
		})
	}
}

type mixedFromPure struct{ u uDerived }

func (x mixedFromPure) ConstructLinear(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0
		}
	}
}
func (x mixedFromPure) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return x.u.Construct(b) }
func (x mixedFromPure) OnStepFinished(t float64, b map[string]pf.Brick)  {}

// --- rejection ------------------------------------------------------------

// dependsOn is a term whose value at node only (every node if negative) depends
// on the bricks
type dependsOn struct {
	node   int
	weight func(f []float64, t float64) float64
	dep    func(get func(name string, i int) complex128, n, i int) complex128
}

func (d dependsOn) Construct(b map[string]pf.Brick) pf.Term {
	get := func(name string, i int) complex128 { return b[name].Get(i) }
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			f := freq(i)
			out[i] = complex(0.5-f[0]*f[0], 0)
			if d.node < 0 || d.node == i {
				w := complex(1, 0)
				if d.weight != nil {
					w = complex(d.weight(f, t), 0)
				}
				out[i] += w * d.dep(get, len(out), i)
			}
		}
	}
}
func (d dependsOn) OnStepFinished(t float64, b map[string]pf.Brick) {}

func init() {
	children["declare"] = func(args []string) {
		m := pf.NewModel()
		switch args[0] {
		case "field":
			m.AddField(pf.NewField(args[1], 4, nil))
		case "scalar":
			m.AddScalar(pf.NewScalar(args[1], 1))
		case "explicit":
			m.AddField(pf.NewField("conc", 4, nil))
			m.RegisterExplicitTerm(args[1], uExplicit{}, nil)
		case "implicit":
			m.AddField(pf.NewField("conc", 4, nil))
			m.RegisterImplicitTerm(args[1], uImplicit{}, nil)
		case "mixed":
			m.AddField(pf.NewField("conc", 4, nil))
			m.RegisterMixedTerm(args[1], uMixed{}, nil)
		case "function":
			m.AddField(pf.NewField("conc", 4, nil))
			m.RegisterFunction(args[1], func(i int, b map[string]pf.Brick) complex128 { return 0 })
		}
		fmt.Println("ACCEPTED")
	}
}

func rejection(c *Ctx) {
	equationSets(c)
	c.bound("every factor position of 14 products replaced by each of 6 undefined names, in every order of the factors; every name one edit (insertion, deletion, substitution over 10 characters, change of case, swap) away from a defined name in 7 equations")
	c.bound("28 malformed equations; implicit terms depending on each of field, derived field, sums, differences, products and neighbours of them, scalars or nothing, at every single node and at all nodes, from 4 starting fields; inconsistent sizes: all pairs of declared length and data length in 0..5, and of domain and field length")
	c.bound("reserved names: all names {LAP,*,-} x {'',x,^2} in all six kinds of declaration, against accepted names")
	dims := []int{2, 3}
	w := newWorld(dims, []string{"conc", "eta"}, map[string]float64{"alpha": 0.7, "dcoef": 2})
	mustReject := func(r *Run, eq string) {
		rej, _ := panics(func() {
			m := w.model()
			m.AddEquation(eq)
			m.AddEquation("deta/dt = -eta")
			m.Init()
		})
		r.Step(1)
		r.Outcome(fmt.Sprintf("rejected=%v", rej))
		r.Observe(eq, rej)
		r.Check(rej, "the equation %q was accepted", eq)
	}
	prods := [][]string{
		{"conc"}, {"eta"}, {"conc^2"}, {"alpha", "conc"}, {"alpha", "eta"}, {"alpha", "LAP", "conc"}, {"conc", "eta"}, {"conc^2", "eta"},
		{"alpha", "conc", "eta"}, {"LAP", "eta^2"}, {"LAP^2", "conc"}, {"alpha", "dcoef", "conc^3"}, {"alpha^2", "conc"}, {"LAP", "alpha", "conc", "eta"},
	}
	undef := []string{"z", "zz", "unknown", "conc2", "etaeta", "7"}
	for _, p := range prods {
		p := p
		permutations(len(p), func(o []int) {
			// the defined product is accepted
			c.Case(fmt.Sprintf("accepted/%v/%v", p, o), func(r *Run) {
				fs := make([]string, len(p))
				for i, k := range o {
					fs[i] = p[k]
				}
				m := w.model()
				m.AddEquation("dconc/dt = " + strings.Join(fs, "*"))
				m.AddEquation("deta/dt = -eta")
				m.Init()
				r.Step(1)
				r.Outcome("accepted")
			})
			for slot := range p {
				if strings.HasPrefix(p[o[slot]], "LAP") {
					continue
				}
				for _, u := range undef {
					fs := make([]string, len(p))
					for i, k := range o {
						fs[i] = p[k]
					}
					if i := strings.Index(fs[slot], "^"); i >= 0 {
						fs[slot] = u + fs[slot][i:]
					} else {
						fs[slot] = u
					}
					for _, eq := range []string{"dconc/dt = " + strings.Join(fs, "*"), "dconc/dt = -conc + " + strings.Join(fs, "*")} {
						eq := eq
						c.Case("undefined/"+eq, func(r *Run) { mustReject(r, eq) })
					}
				}
			}
		})
	}
	// names that differ from a defined one in one character, and other mistakes in it
	defined := []string{"conc", "eta", "alpha", "dcoef"}
	isDefined := map[string]bool{}
	for _, d := range defined {
		isDefined[d] = true
	}
	for _, d := range defined {
		typos := []string{d + "LAP", "lap" + d, "Lap" + d, "LA" + d, "AP" + d, "LP" + d, d + d, strings.ToUpper(d), strings.Title(d), d + "/dt", "d" + d, d + ".", d + ",", "(" + d + ")", d + "LAP" + d}
		for i := 0; i <= len(d); i++ {
			for _, x := range "aALPxd_12e" {
				typos = append(typos, d[:i]+string(x)+d[i:])
				if i < len(d) {
					typos = append(typos, d[:i]+string(x)+d[i+1:])
				}
			}
			if i < len(d) {
				typos = append(typos, d[:i]+d[i+1:], d[:i]+strings.ToUpper(d[i:i+1])+d[i+1:])
			}
			if i+1 < len(d) {
				typos = append(typos, d[:i]+d[i+1:i+2]+d[i:i+1]+d[i+2:])
			}
		}
		tried := map[string]bool{}
		for _, x := range typos {
			if isDefined[x] || tried[x] {
				continue
			}
			tried[x] = true
			for _, pat := range []string{"%s", "-conc + %s", "alpha*%s", "%s*conc", "alpha*LAP conc*%s", "LAP %s", "LAP^2 eta - dcoef*%s^2"} {
				eq := "dconc/dt = " + fmt.Sprintf(pat, x)
				c.Case("typo/"+eq, func(r *Run) { mustReject(r, eq) })
			}
		}
	}
	for _, eq := range []string{"dconc/dt", "dconc/dt = conc = eta", "conc/dt = eta", "dconc/dx = eta", "dconc/dtt = eta", "dconc/dt2 = eta", "dconc/dt^2 = eta", "dconc/d = eta", "/dtdconc = eta", "d/dtconc = eta", "conc = eta", "dconc/dT = eta", "Dconc/dt = eta", "dconc|dt = eta", "alpha*dconc/dt = eta", "-dconc/dt = eta", "dconc/dt == eta", "dconc = eta", "d = eta", " = eta",
		"dconc/dt = conc/eta", "dconc/dt = alpha*(conc + eta)", "dconc/dt = (alpha)*conc", "dconc/dt = 2*conc^2", "dconc/dt = 2*eta", "dconc/dt = alpha conc", "dconc/dt = conc eta"} {
		eq := eq
		c.Case("malformed/"+eq, func(r *Run) { mustReject(r, eq) })
	}
	type depFn = func(get func(name string, i int) complex128, n, i int) complex128
	deps := []struct {
		name   string
		reject bool
		dep    depFn
	}{
		{"nothing", false, func(g func(string, int) complex128, n, i int) complex128 { return complex(float64(i), 0) }},
		{"alpha", false, func(g func(string, int) complex128, n, i int) complex128 { return 0.3 * g("alpha", i) }},
		{"alpha*dcoef", false, func(g func(string, int) complex128, n, i int) complex128 { return g("alpha", i) * g("dcoef", i) }},
		{"conc", true, func(g func(string, int) complex128, n, i int) complex128 { return 0.1 * g("conc", i) }},
		{"eta", true, func(g func(string, int) complex128, n, i int) complex128 { return 0.1 * g("eta", i) }},
		{"conc^2", true, func(g func(string, int) complex128, n, i int) complex128 { return 0.1 * g("conc^2", i) }},
		{"alpha*eta", true, func(g func(string, int) complex128, n, i int) complex128 { return g("alpha", i) * g("eta", i) }},
		{"conc-eta", true, func(g func(string, int) complex128, n, i int) complex128 { return g("conc", i) - g("eta", i) }},
		{"conc+eta", true, func(g func(string, int) complex128, n, i int) complex128 { return g("conc", i) + g("eta", i) }},
		{"conc*eta", true, func(g func(string, int) complex128, n, i int) complex128 { return g("conc", i) * g("eta", i) }},
		{"eta-conc^2", true, func(g func(string, int) complex128, n, i int) complex128 { return g("eta", i) - g("conc^2", i) }},
		{"conc of the next node", true, func(g func(string, int) complex128, n, i int) complex128 { return 0.1 * g("conc", (i+1)%n) }},
		{"conc relative to the next node", true, func(g func(string, int) complex128, n, i int) complex128 {
			return g("conc", i) - g("conc", (i+1)%n)
		}},
		{"curvature of eta", true, func(g func(string, int) complex128, n, i int) complex128 {
			return g("eta", i) - 0.5*g("eta", (i+1)%n) - 0.5*g("eta", (i+n-1)%n)
		}},
		{"real part of eta", true, func(g func(string, int) complex128, n, i int) complex128 { return complex(real(g("eta", i)), 0) }},
	}
	for _, d := range [][]int{{2, 3}, {4, 4}, {2, 3, 2}} {
		d := d
		n := prod(d)
		for k := range deps {
			for node := -1; node < n; node++ {
				for _, start := range []string{"generic", "zero", "one", "impulse"} {
					for which := 0; which < 2; which++ {
						dep, node, start, which := deps[k], node, start, which
						c.Case(fmt.Sprintf("implicit-depends-on/%s/%s/node=%d/%s/%d", ints(d), dep.name, node, start, which), func(r *Run) {
							field := func(seed int) []complex128 {
								out := make([]complex128, n)
								for i := range out {
									switch start {
									case "generic":
										out = genericField(n, seed)
									case "one":
										out[i] = 1
									case "impulse":
										if i == (seed+node+n)%n {
											out[i] = 2
										}
									}
								}
								return out
							}
							rej, msg := panics(func() {
								m := pf.NewModel()
								m.AddField(pf.NewField("conc", n, field(3)))
								m.AddField(pf.NewField("eta", n, field(4)))
								m.AddScalar(pf.NewScalar("alpha", complex(0.7, 0)))
								m.AddScalar(pf.NewScalar("dcoef", complex(2, 0)))
								if which == 1 {
									m.RegisterImplicitTerm("FINE", dependsOn{-1, nil, deps[0].dep}, nil)
								}
								m.RegisterImplicitTerm("IMPL", dependsOn{node, nil, dep.dep}, nil)
								m.AddEquation("dconc/dt = IMPL")
								if which == 1 {
									m.AddEquation("deta/dt = conc^2 + FINE")
								} else {
									m.AddEquation("deta/dt = conc^2")
								}
								pf.NewSolver(&m, d, 0.1)
							})
							r.Step(1)
							r.Observe("impl", d, dep.name, node, start, rej)
							r.Outcome(fmt.Sprintf("rejected=%v", rej))
							r.Check(rej == dep.reject, "implicit term depending on %s at node %d (fields %s): rejected=%v %v", dep.name, node, start, rej, msg)
						})
					}
				}
			}
		}
	}
	weights := []struct {
		name string
		f    func(f []float64, t float64) float64
	}{
		{"f0", func(f []float64, t float64) float64 { return f[0] }},
		{"f1", func(f []float64, t float64) float64 { return f[1] }},
		{"last", func(f []float64, t float64) float64 { return f[len(f)-1] }},
		{"f0-f1", func(f []float64, t float64) float64 { return f[0] - f[1] }},
		{"f0-last", func(f []float64, t float64) float64 { return f[0] - f[len(f)-1] }},
		{"f0^2-f1^2", func(f []float64, t float64) float64 { return f[0]*f[0] - f[1]*f[1] }},
		{"t", func(f []float64, t float64) float64 { return t }},
		{"k^2", func(f []float64, t float64) float64 {
			k := 0.0
			for _, v := range f {
				k += v * v
			}
			return -k
		}},
		{"t*(f0+f1)", func(f []float64, t float64) float64 { return t * (f[0] + f[1]) }},
	}
	c.bound("implicit terms whose dependence on the fields has %d kinds of weights (frequency components, their differences, the time)", len(weights))
	for _, d := range [][]int{{4, 4}, {3, 5}, {2, 3, 4}, {3, 3, 3}} {
		for k := range deps {
			for q := range weights {
				d, dep, wt := d, deps[k], weights[q]
				n := prod(d)
				c.Case(fmt.Sprintf("implicit-weight/%s/%s*%s", ints(d), wt.name, dep.name), func(r *Run) {
					rej, msg := panics(func() {
						m := pf.NewModel()
						m.AddField(pf.NewField("conc", n, genericField(n, 3)))
						m.AddField(pf.NewField("eta", n, genericField(n, 4)))
						m.AddScalar(pf.NewScalar("alpha", complex(0.7, 0)))
						m.AddScalar(pf.NewScalar("dcoef", complex(2, 0)))
						m.RegisterImplicitTerm("IMPL", dependsOn{-1, wt.f, dep.dep}, nil)
						m.AddEquation("dconc/dt = IMPL")
						m.AddEquation("deta/dt = conc^2")
						pf.NewSolver(&m, d, 0.1)
					})
					r.Step(1)
					r.Observe("weight", d, dep.name, wt.name, rej)
					r.Outcome(fmt.Sprintf("rejected=%v", rej))
					r.Check(rej == dep.reject, "implicit term depending on %s times %s: rejected=%v %v", wt.name, dep.name, rej, msg)
				})
			}
		}
	}
	product([]int{6, 6}, func(t []int) {
		c.Case(fmt.Sprintf("field-length/%d/%d", t[0], t[1]), func(r *Run) {
			data := make([]complex128, t[1])
			rej, _ := panics(func() { pf.NewField("conc", t[0], data) })
			r.Step(1)
			r.Observe("len", t, rej)
			r.Check(rej == (t[0] != t[1]), "field of declared length %d with %d values: rejected=%v", t[0], t[1], rej)
		})
	})
	product([]int{3, 3, 3, 12}, func(t []int) {
		d := []int{t[0] + 1, t[1] + 1}
		if t[2] > 0 {
			d = append(d, t[2]+1)
		}
		n := t[3] + 1
		for second := 0; second < 2; second++ {
			second := second
			c.Case(fmt.Sprintf("domain-size/%s/%d/%d", ints(d), n, second), func(r *Run) {
				rej, _ := panics(func() {
					m := pf.NewModel()
					if second == 1 {
						m.AddField(pf.NewField("eta", prod(d), nil))
					}
					m.AddField(pf.NewField("conc", n, nil))
					if second == 1 {
						m.AddEquation("deta/dt = -eta")
					}
					m.AddEquation("dconc/dt = LAP conc")
					pf.NewSolver(&m, d, 0.1)
				})
				r.Step(1)
				r.Observe("dom", d, n, rej)
				r.Check(rej == (n != prod(d)), "domain %v with a field of %d values: rejected=%v", d, n, rej)
			})
		}
	})
	for _, s := range []string{"euler", "rk4", "", "Euler", "implicit", "rk", "RK4", "euler "} {
		s := s
		c.Case("stepper/"+s, func(r *Run) {
			m := w.model()
			m.AddEquation("dconc/dt = LAP conc")
			m.AddEquation("deta/dt = LAP eta")
			sol := pf.NewSolver(&m, dims, 0.1)
			rej, _ := panics(func() { sol.SetStepper(s) })
			r.Step(1)
			r.Observe("stepper", s, rej)
			r.Check(rej == (s != "euler" && s != "rk4"), "scheme %q: rejected=%v", s, rej)
		})
	}
	for _, d := range [][]int{{3}, {2, 2, 2, 2}, {}} {
		d := d
		c.Case("dimension/"+ints(d), func(r *Run) {
			rej1, _ := panics(func() { pfutil.Pos(d, 0) })
			rej2, _ := panics(func() { pfutil.NodeIdx(d, make([]int, len(d))) })
			r.Step(2)
			r.Check(rej1 && rej2, "addressing of a %d-dimensional domain was not rejected", len(d))
		})
	}
	c.Case("missing-equation", func(r *Run) {
		m := w.model()
		m.AddEquation("dconc/dt = LAP conc")
		m.AddEquation("deta/dt = LAP eta")
		r.Check(m.EqNumber("conc") == 0 && m.EqNumber("eta") == 1, "wrong equation number")
		rej, _ := panics(func() { m.EqNumber("con") })
		r.Check(rej, "an equation was found for a field that has none")
	})
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for _, kind := range []string{"field", "scalar", "explicit", "implicit", "mixed", "function"} {
		for _, name := range []string{"LAP", "LAPx", "LAP^2", "*", "*x", "-", "-x", "conc7", "x", "M1", "a_b", "PHI"} {
			kind, name := kind, name
			c.Case("reserved/"+kind+"/"+name, func(r *Run) {
				out, err := exec.Command(exe, "child", "declare", kind, name).CombinedOutput()
				accepted := err == nil && strings.Contains(string(out), "ACCEPTED")
				reserved := strings.HasPrefix(name, "LAP") || strings.HasPrefix(name, "*") || strings.HasPrefix(name, "-")
				r.Step(1)
				r.Observe("reserved", kind, name, accepted)
				r.Outcome(fmt.Sprintf("accepted=%v", accepted))
				r.Check(accepted == !reserved, "declaring a %s named %q: accepted=%v", kind, name, accepted)
			})
		}
	}
}

// farSources: one source at any of up to 40 places of a larger domain
func farSources(c *Ctx) {
	domains := [][]int{{9, 8}, {1, 70}, {70, 1}, {17, 6}, {5, 4, 5}, {3, 2, 19}}
	c.bound("one time-dependent source at each of up to 40 nodes of the domains %v at two times", domains)
	for _, dims := range domains {
		n := prod(dims)
		for i := 0; i < n; i += 1 + n/40 {
			dims, i := dims, i
			c.Case(fmt.Sprintf("sources/%s/node %d", ints(dims), i), func(r *Run) {
				w := newWorld(dims, []string{"conc", "eta"}, nil)
				m := w.model()
				m.AddEquation("dconc/dt = LAP conc")
				m.AddEquation("deta/dt = conc^2")
				pos := make([]float64, len(dims))
				for k, v := range refPos(dims, i) {
					pos[k] = float64(v)
				}
				m.AddSource(0, pf.NewSource(pos, func(t float64) float64 { return 1.5 + t*t }))
				m.Init()
				transformAll(&m, fft(dims))
				for _, t := range []float64{0.4, 3} {
					pt := make([]complex128, n)
					pt[i] = complex(1.5+t*t, 0)
					rhs := m.GetRHS(0, fft(dims).Freq, t)
					r.Step(1)
					r.closeC("right hand side with a source", rhs, refDFT(dims, pt, -1), 1e-9)
					r.ObserveC("src", rhs)
				}
			})
		}
	}
}

// equationSets gives models every sequence of equations of their fields: only those with exactly one
// equation per field can be run, and then every field follows its own
func equationSets(c *Ctx) {
	names := []string{"conc", "eta", "phi"}
	max := 4
	c.bound("sets of equations: 1..3 fields, every sequence of up to %d equations of them", max)
	dims := []int{2, 3}
	for nf := 1; nf <= 3; nf++ {
		for l := 1; l <= max; l++ {
			sizes := make([]int, l)
			for i := range sizes {
				sizes[i] = nf
			}
			product(sizes, func(seq []int) {
				nf, seq := nf, cloneI(seq)
				for _, stepper := range []string{"euler", "rk4"} {
					stepper := stepper
					c.Case(fmt.Sprintf("equations/%d/%v/%s", nf, seq, stepper), func(r *Run) {
						m := pf.NewModel()
						start := make([][]complex128, nf)
						for i := 0; i < nf; i++ {
							start[i] = genericField(6, 3+i)
							m.AddField(pf.NewField(names[i], 6, cloneC(start[i])))
						}
						m.AddScalar(pf.NewScalar("ka", 0.2))
						m.AddScalar(pf.NewScalar("kb", 0.3))
						m.AddScalar(pf.NewScalar("kc", -0.4))
						count := make([]int, nf)
						steps := 0
						rej, _ := panics(func() {
							for _, k := range seq {
								count[k]++
								m.AddEquation(fmt.Sprintf("d%s/dt = %s*%s^2", names[k], []string{"ka", "kb", "kc"}[k], names[k]))
							}
							s := pf.NewSolver(&m, dims, 0.01)
							s.SetStepper(stepper)
							s.AddCallback(func(s *pf.Solver, epoch int) { steps++ })
							s.Solve(1, 1)
						})
						good := true
						for _, n := range count {
							good = good && n == 1
						}
						r.Step(1)
						r.Check(rej == !good && (steps == 0) == !good, "equations of the fields %v: refused %v, %d steps", seq, rej, steps)
						if good {
							for i := 0; i < nf; i++ {
								want := make([]complex128, 6)
								k := complex([]float64{0.2, 0.3, -0.4}[i], 0)
								for j, v := range start[i] {
									want[j] = v + 0.01*k*v*v
								}
								r.closeC(names[i], m.Fields[i].Data, want, 1e-4)
							}
						}
						r.Outcome(fmt.Sprintf("refused=%v", rej))
						r.Observe("equations", seq, rej)
					})
				}
			})
		}
	}
}
