package main

import (
	"fmt"
	"sort"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
)

// localChanges evaluates the right-hand sides of one model for a sequence of fields that differ from
// each other as little as possible (one node, two nodes with opposite changes, two exchanged nodes, one
// scaled field, the first fields again), and compares every one with a model that never saw other fields
func localChanges(r *Run, dims []int, build func() *pf.Model) {
	n := prod(dims)
	type eval struct {
		m *pf.Model
		s *pf.Solver
	}
	mk := func() eval {
		m := build()
		return eval{m, pf.NewSolver(m, cloneI(dims), 0.1)}
	}
	rhs := func(e eval, data [][]complex128) []complex128 {
		for k := range e.m.Fields {
			copy(e.m.Fields[k].Data, data[k])
		}
		e.m.SyncDerivedFields()
		for _, f := range e.m.Fields {
			e.s.FT.FFT(f.Data)
		}
		for _, f := range e.m.DerivedFields {
			e.s.FT.FFT(f.Data)
		}
		out := []complex128{}
		for k := range e.m.Fields {
			out = append(out, e.m.GetRHS(k, e.s.FT.Freq, 0.3)...)
			out = append(out, e.m.GetDenum(k, e.s.FT.Freq, 0.3)...)
		}
		r.Step(1)
		return out
	}
	old := mk()
	nf := len(old.m.Fields)
	base := make([][]complex128, nf)
	for k := range base {
		base[k] = cloneC(old.m.Fields[k].Data)
	}
	check := func(what string, change func(d [][]complex128)) {
		d := make([][]complex128, nf)
		for k := range d {
			d[k] = cloneC(base[k])
		}
		change(d)
		got, want := rhs(old, d), rhs(mk(), d)
		for i := range got {
			diff := got[i] - want[i]
			if real(diff)*real(diff)+imag(diff)*imag(diff) > 1e-18*(1+maxAbsC(want))*(1+maxAbsC(want)) {
				r.Failf("%s: entry %d of the right-hand sides is %v, a new model gives %v", what, i, got[i], want[i])
				return
			}
		}
		r.ObserveC("rhs", got)
	}
	check("first fields", func(d [][]complex128) {})
	for k := 0; k < nf; k++ {
		for i := 0; i < n; i++ {
			k, i := k, i
			check(fmt.Sprintf("field %d changed at node %d", k, i), func(d [][]complex128) { d[k][i] += 0.25 })
			check(fmt.Sprintf("field %d changed at the nodes %d and %d", k, i, (i+1)%n), func(d [][]complex128) { d[k][i] += 0.25; d[k][(i+1)%n] -= 0.25 })
			check(fmt.Sprintf("field %d exchanged at the nodes %d and %d", k, i, n-1-i), func(d [][]complex128) {
				d[k][i], d[k][n-1-i] = d[k][n-1-i], d[k][i]
			})
		}
		check(fmt.Sprintf("field %d scaled", k), func(d [][]complex128) {
			for i := range d[k] {
				d[k][i] *= 1.5
			}
		})
		check("first fields again", func(d [][]complex128) {})
	}
	r.Outcome("local changes")
}

func localModels(c *Ctx, names []string, add map[string]func(m *pf.Model, dims []int) string) {
	domains := [][]int{{3, 4}, {2, 3, 2}}
	if c.Deep {
		domains = append(domains, []int{4, 4}, []int{3, 3, 3}, []int{5, 4})
	}
	keys := []string{}
	for k := range add {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	c.bound("smallest changes of the fields between two evaluations (every node, every pair of neighbours, exchanges, scaling, back), compared with new models: %d models with the terms %v on %v", len(keys), keys, domains)
	for _, dims := range domains {
		for _, key := range keys {
			dims, key := dims, key
			c.Case(fmt.Sprintf("local changes/%s/%s", ints(dims), key), func(r *Run) {
				localChanges(r, dims, func() *pf.Model {
					m := pf.NewModel()
					for k, nm := range names {
						d := genericField(prod(dims), 21+k)
						for i := range d {
							d[i] = complex(real(d[i])+1.6, 0)
						}
						m.AddField(pf.NewField(nm, len(d), d))
					}
					m.AddScalar(pf.NewScalar("m", 0.3))
					eq := add[key](&m, dims)
					m.AddEquation("d" + names[0] + "/dt = " + eq)
					for _, nm := range names[1:] {
						m.AddEquation("d" + nm + "/dt = m*" + names[0])
					}
					return &m
				})
			})
		}
	}
}

// localTerms: terms with differential operators
func localTerms(c *Ctx) {
	add := map[string]func(m *pf.Model, dims []int) string{}
	for _, t := range termPool() {
		t := t
		add[t.name] = func(m *pf.Model, dims []int) string {
			t.add(m, "TERM", cloneI(dims))
			return "TERM"
		}
	}
	localModels(c, []string{"c", "b", "c_0", "c_1", "c_2"}, add)
}

// localEnergies: terms derived from energies
func localEnergies(c *Ctx) {
	add := map[string]func(m *pf.Model, dims []int) string{}
	add["elastic"] = func(m *pf.Model, dims []int) string {
		m.RegisterExplicitTerm("TERM", pf.NewHomogeneousModolus("c", cloneI(dims), elasticTensors()[0].rank4(), misfits(len(dims))[0].dense()), nil)
		return "TERM"
	}
	for lp := 0; lp < 2; lp++ {
		lp := lp
		cf := pfc.ReciprocalSpacePairCorrelation{EffTemp: 0.3, Peaks: pfc.SquareLattice2D(0.1, 1.5)}
		add[fmt.Sprintf("pair correlation lap=%d", lp)] = func(m *pf.Model, dims []int) string {
			m.RegisterExplicitTerm("TERM", &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pf.PairCorrlationTerm{PairCorrFunc: cf, Field: "c", Prefactor: 0.7, Laplacian: lp == 1}}, nil)
			return "TERM"
		}
		add[fmt.Sprintf("ideal mixture lap=%d", lp)] = func(m *pf.Model, dims []int) string {
			idt := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: 0.7, C4: 0.4}, Field: "c", Prefactor: 0.7, Laplacian: lp == 1}
			m.RegisterMixedTerm("TERM", idt, []pf.DerivedField{idt.DerivedField(prod(dims), m.Bricks)})
			return "TERM"
		}
	}
	add["penalty"] = func(m *pf.Model, dims []int) string {
		p := pf.NegativeValuePenalty{Prefactor: 0.7, Exponent: 3, Field: "c"}
		m.RegisterFunction("PENALTY", p.Evaluate)
		return "PENALTY - m*PENALTY*b"
	}
	localModels(c, []string{"c", "b"}, add)
}

// localTransport: the transport of charges
func localTransport(c *Ctx) {
	localModels(c, []string{"c", "b"}, map[string]func(m *pf.Model, dims []int) string{
		"charge": func(m *pf.Model, dims []int) string {
			sigma := []float64{1.1, 0.8, 0.1}
			ext := []float64{0.3, -0.2}
			if len(dims) == 3 {
				sigma = []float64{1.1, 0.8, 1.3, 0.1, 0.05, -0.1}
				ext = append(ext, 0.4)
			}
			m.RegisterExplicitTerm("TERM", &pf.ChargeTransport{Conductivity: func(i int) []float64 {
				s := cloneF(sigma)
				s[0] += 0.1 * float64(i%3)
				return s
			}, ExternalField: ext, Field: "c", FT: pfutil.NewFFTW(cloneI(dims))}, nil)
			return "TERM"
		},
	})
}

// localEquations: equations in the equation language, and registered functions
func localEquations(c *Ctx) {
	add := map[string]func(m *pf.Model, dims []int) string{}
	for _, eq := range []string{"LAP c", "m*c^3 - b^2*c", "LAP^2*c*b", "m*LAP b^2 - c*b*c_0", "b^3*c^2 + c_0*b - m"} {
		eq := eq
		add[eq] = func(m *pf.Model, dims []int) string { return eq }
	}
	localModels(c, []string{"c", "b", "c_0"}, add)
}

func localUserTerms(c *Ctx) {
	add := map[string]func(m *pf.Model, dims []int) string{}
	for _, eq := range []string{"F", "m*F*G - F^2", "F*c + LAP G*b", "LAP F - m*G*c*b"} {
		eq := eq
		add[eq] = func(m *pf.Model, dims []int) string {
			m.RegisterFunction("F", func(i int, b map[string]pf.Brick) complex128 { return b["c"].Get(i)*b["b"].Get(i) + 0.1 })
			m.RegisterFunction("G", func(i int, b map[string]pf.Brick) complex128 { return 0.2*b["c_0"].Get(i) - b["m"].Get(i) })
			return eq
		}
	}
	localModels(c, []string{"c", "b", "c_0"}, add)
}
