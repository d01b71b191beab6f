package main

import (
	"database/sql"
	"encoding/csv"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
)

func init() {
	register("C01", "model_checking", cliExport)
	register("C02", "model_checking", cliQueries)
}

// cli runs the real command line program in dir
func cli(dir string, args ...string) (string, error) {
	cmd := exec.Command(os.Getenv("GOPF_BIN"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// stdoutOf is cli but without the messages on stderr
func cliStdout(dir string, args ...string) (string, error) {
	cmd := exec.Command(os.Getenv("GOPF_BIN"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir)
	out, err := cmd.Output()
	return string(out), err
}

func (c *Ctx) newDir() string {
	d, err := ioutil.TempDir(c.scratch, "cli")
	if err != nil {
		panic(err)
	}
	return d
}

// cliDB is a database written by the library plus what is known about it
type cliDB struct {
	dir  string
	path string
	raw  *sql.DB
	dims []int
	sims []*pf.FieldDB
	ids  []int
}

func (c *Ctx) newCliDB(dims []int, nSim int) *cliDB {
	d := &cliDB{dir: c.newDir(), dims: dims}
	d.path = filepath.Join(d.dir, "data.db")
	d.raw = openDB(d.path)
	for i := 0; i < nSim; i++ {
		fdb := &pf.FieldDB{DB: d.raw, DomainSize: dims}
		// Storing an attribute registers the simulation. It is removed again such that the cases
		// have full control over the content.
		fdb.SetAttr(map[string]float64{"tmp": 1})
		rows, err := dbRows(d.raw, "SELECT simID FROM simIDs ORDER BY rowid")
		if err != nil || len(rows) != i+1 {
			panic(fmt.Sprintf("registering simulation %d: %v %v", i, rows, err))
		}
		id, _ := strconv.Atoi(rows[i])
		d.ids = append(d.ids, id)
		d.sims = append(d.sims, fdb)
	}
	d.exec("DELETE FROM simAttributes")
	return d
}

func (d *cliDB) exec(q string, args ...interface{}) {
	if _, err := d.raw.Exec(q, args...); err != nil {
		panic(err)
	}
}

func (d *cliDB) close() {
	d.raw.Close()
	os.RemoveAll(d.dir)
}

// cliStamp is an increasing sequence of creation times: pairs on the same date (that differ in the
// hour, the minute or the second only), on different days, months and years, where neither the time of
// the day nor the day of the month increases from pair to pair
func cliStamp(sec int) string {
	d := sec / 2
	t := [3]int{(97 - d) % 22, (59 - 7*d%55) % 58, (58 - d) % 58}
	if sec%2 == 1 {
		t[d%3]++
		for k := d%3 + 1; k < 3; k++ {
			t[k] /= 2
		}
	}
	return fmt.Sprintf("20%02d-%02d-%02d %02d:%02d:%02d", 18+d/6, 1+(d%6)/3*9, 1+(d%3)*13, t[0], t[1], t[2])
}

func (d *cliDB) setTime(sim int, sec int) {
	d.exec("UPDATE simIDs SET creationTime=? WHERE simID=?", cliStamp(sec), d.ids[sim])
}

func readCSV(path string) ([][]string, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	rd := csv.NewReader(f)
	return rd.ReadAll()
}

// sameNumber compares an exported value with a stored one. Missing values (NaN) must not be
// exported as a number
func sameNumber(s string, want float64) bool {
	s = strings.TrimSpace(s)
	if math.IsNaN(want) {
		v, err := strconv.ParseFloat(s, 64)
		return err != nil || math.IsNaN(v)
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return false
	}
	if math.IsInf(want, 0) {
		return v == want
	}
	return math.Abs(v-want) <= 6e-7+1e-12*math.Abs(want)
}

// checkFieldCSV compares an exported file with the fields stored at one time step
func checkFieldCSV(r *Run, path string, dims []int, want map[string][]float64) {
	recs, err := readCSV(path)
	r.Check(err == nil, "reading %s: %v", filepath.Base(path), err)
	r.Check(len(recs) == prod(dims)+1, "%d lines exported for %d nodes", len(recs), prod(dims))
	h := recs[0]
	r.Check(len(h) == 3+len(want), "header %v, fields %d", h, len(want))
	r.Check(h[0] == "X" && h[1] == "Y" && h[2] == "Z", "header %v", h)
	seen := map[string]bool{}
	for _, n := range h[3:] {
		_, ok := want[n]
		r.Check(ok && !seen[n], "unexpected column %s in %v", n, h)
		seen[n] = true
	}
	nodes := map[int]bool{}
	for _, rec := range recs[1:] {
		p := make([]int, 3)
		for k := range p {
			v, err := strconv.Atoi(rec[k])
			r.Check(err == nil, "position %v", rec)
			p[k] = v
		}
		if len(dims) == 2 {
			r.Check(p[2] == 0, "z coordinate of a 2D domain is %d", p[2])
		}
		for k, n := range dims {
			r.Check(p[k] >= 0 && p[k] < n, "position %v outside of the domain", p)
		}
		i := refIndex(dims, p[:len(dims)])
		r.Check(!nodes[i], "node %v exported twice", p)
		nodes[i] = true
		for k, n := range h[3:] {
			r.Check(sameNumber(rec[3+k], want[n][i]), "field %s at %v is %s, stored value %g", n, p, rec[3+k], want[n][i])
		}
	}
}

func cliVal(sim, step, field, node int) float64 {
	if (node+step+field*2+sim)%5 == 3 {
		return math.NaN()
	}
	return float64(sim+1)*100 + float64(step+1)*10 + float64(field) + float64(node)*0.0625
}

// probeSteps gives the steps up to 13 and the passed ones
func probeSteps(steps []int) []int {
	out := []int{}
	for i := 0; i < 14; i++ {
		out = append(out, i)
	}
	for _, s := range steps {
		if s >= 14 {
			out = append(out, s)
		}
	}
	return out
}

// exportCase stores field sets of two simulations and exports them with every command
func exportCase(c *Ctx, r *Run, dims, steps []int, sets [][]string, choice []int, order ...int) {
	d := c.newCliDB(dims, 2)
	defer d.close()
	d.setTime(0, 1)
	d.setTime(1, 2)
	N := prod(dims)
	want := []map[int]map[string][]float64{{}, {}}
	save := func(sim, step int, names []string) {
		if len(names) == 0 {
			return
		}
		fs := []pf.Field{}
		want[sim][step] = map[string][]float64{}
		for k, nm := range names {
			f := pf.NewField(nm, N, nil)
			v := make([]float64, N)
			for i := range v {
				v[i] = cliVal(sim, step, k, i)
				f.Data[i] = complex(v[i], 0)
			}
			want[sim][step][nm] = v
			fs = append(fs, f)
		}
		d.sims[sim].SaveFields(pf.NewSolver(&pf.Model{Fields: fs}, dims, 0.1), step)
		r.Step(1)
	}
	if order == nil {
		for k := range steps {
			order = append(order, k)
		}
	}
	for _, k := range order {
		save(0, steps[k], sets[len(sets)-1])
		save(1, steps[k], sets[choice[k]])
	}
	d.raw.Close()
	export := func(sim int, args ...string) {
		out, err := cli(d.dir, append([]string{"db", "export", "data.db"}, args...)...)
		r.Step(1)
		r.Check(err == nil, "export failed: %v %s", err, out)
	}
	idArg := func(sim int) []string { return []string{"--simid", fmt.Sprint(d.ids[sim])} }
	exists := func(f string) bool {
		_, err := os.Stat(filepath.Join(d.dir, f))
		return err == nil
	}
	for _, typ := range []string{"fielddata", "field", "fieldData", "fd"} {
		for sim := 0; sim < 3; sim++ {
			// 2 means: newest simulation
			var ids []string
			real := sim
			if sim == 2 {
				real = 1
			} else {
				ids = idArg(sim)
			}
			last := -1
			for _, s := range steps {
				if want[real][s] != nil {
					last = s
				}
			}
			for _, s := range append([]int{-1}, steps...) {
				if typ != "fd" && s != steps[0] {
					continue // the synonyms are tried with one step
				}
				f := fmt.Sprintf("o_%s_%d_%d.csv", typ, sim, s)
				export(real, append(ids, "--type", typ, "--timestep", fmt.Sprint(s), "-o", f)...)
				ts := s
				if ts < 0 {
					ts = last
				}
				if want[real][ts] == nil {
					r.Check(!exists(f), "a file was written for step %d that holds no data", s)
					r.Outcome("nothing stored")
					continue
				}
				checkFieldCSV(r, filepath.Join(d.dir, f), dims, want[real][ts])
				r.Outcome("exported")
			}
			if typ == "fd" {
				export(real, append(ids, "--type", typ, "--all", "-o", fmt.Sprintf("all_%d_", sim))...)
				for _, s := range probeSteps(steps) {
					f := fmt.Sprintf("all_%d_%d.csv", sim, s)
					if want[real][s] == nil {
						r.Check(!exists(f), "a file was written for step %d that holds no data", s)
						continue
					}
					checkFieldCSV(r, filepath.Join(d.dir, f), dims, want[real][s])
					r.Outcome("exported by --all")
				}
			}
		}
	}
	r.Observe("fields", choice, dims, want)
}

func cliExport(c *Ctx) {
	// Field data: every combination of stored steps and field sets for two simulations
	domains := [][]int{{2, 3}, {3, 2}, {2, 2, 2}, {2, 3, 4}}
	if c.Thorough {
		domains = append(domains, []int{1, 1}, []int{4, 3, 2}, []int{1, 4}, []int{3, 1, 2}, []int{5, 5})
	}
	steps := []int{0, 3}
	sets := [][]string{{}, {"c"}, {"eta"}, {"c", "eta"}}
	if c.Thorough {
		steps = []int{0, 1, 12}
	}
	c.bound("field export: domains %v, two simulations, every assignment of the field sets %v to the steps %v for the newer simulation (the older one stores both fields at every step), every export command", domains, sets, steps)
	for _, dims := range domains {
		dims := dims
		n := make([]int, len(steps))
		for i := range n {
			n[i] = len(sets)
		}
		product(n, func(choice []int) {
			choice = cloneI(choice)
			c.Case(fmt.Sprintf("fields dims=%s choice=%v", ints(dims), choice), func(r *Run) { exportCase(c, r, dims, steps, sets, choice) })
		})
	}
	many := []string{"c", "eta"}
	for k := 1; k <= 10; k++ {
		many = append(many, fmt.Sprintf("f%d", k))
	}
	c.bound("field export on the domains 20x30, 1x600, 11x13x7, 70x75; at the steps 9, 10, 100 and 99999 in every presence pattern; with 3..12 fields")
	for _, dims := range [][]int{{20, 30}, {1, 600}, {11, 13, 7}, {70, 75}} {
		dims := dims
		c.Case("fields large "+ints(dims), func(r *Run) { exportCase(c, r, dims, []int{2, 10}, sets, []int{3, 1}) })
	}
	for pat := 0; pat < 16; pat++ {
		choice := []int{pat & 1, pat >> 1 & 1, pat >> 2 & 1, pat >> 3 & 1}
		c.Case(fmt.Sprintf("fields steps %04b", pat), func(r *Run) {
			exportCase(c, r, []int{2, 2}, []int{9, 10, 100, 99999}, [][]string{{}, {"c"}}, choice)
		})
	}
	c.bound("fields of three steps saved in every order; up to five of the fields %q in one simulation", fussyNames)
	permutations(3, func(o []int) {
		for pat := 0; pat < 27; pat++ {
			o, choice := cloneI(o), []int{pat % 3, pat / 3 % 3, pat / 9}
			if pat%2 == 0 && !c.Thorough {
				continue
			}
			c.Case(fmt.Sprintf("fields order %v %v", o, choice), func(r *Run) {
				exportCase(c, r, []int{2, 2}, []int{2, 9, 10}, [][]string{{}, {"c"}, {"c", "eta"}}, choice, o...)
			})
		}
	})
	for a := range fussyNames {
		for b := 1; b < 5; b++ {
			set := []string{}
			for k := 0; k <= b; k++ {
				set = append(set, fussyNames[(a+k)%len(fussyNames)])
			}
			c.Case(fmt.Sprintf("fields names %q", set), func(r *Run) {
				exportCase(c, r, []int{2, 3}, []int{1, 4}, [][]string{set[1:], set}, []int{0, 1})
			})
		}
	}
	for k := 3; k <= len(many); k++ {
		k := k
		c.Case(fmt.Sprintf("fields many %d", k), func(r *Run) {
			exportCase(c, r, []int{2, 3}, []int{1, 11}, [][]string{many[:k-1], many[:k]}, []int{0, 1})
		})
	}

	// Values that are not stored
	c.bound("field export of a 2x3 domain where every subset of the rows of one of two fields is missing in the database")
	for pat := 0; pat < 64; pat++ {
		pat := pat
		c.Case(fmt.Sprintf("fields missing %06b", pat), func(r *Run) {
			dims := []int{2, 3}
			d := c.newCliDB(dims, 1)
			defer d.close()
			want := map[string][]float64{}
			fs := []pf.Field{}
			for k, nm := range []string{"c", "eta, \"quoted\""} {
				f := pf.NewField(nm, 6, nil)
				v := make([]float64, 6)
				for i := range v {
					v[i] = float64(10*k+i) + 0.5
					f.Data[i] = complex(v[i], 0)
				}
				want[nm] = v
				fs = append(fs, f)
			}
			d.sims[0].SaveFields(pf.NewSolver(&pf.Model{Fields: fs}, dims, 0.1), 2)
			for i := 0; i < 6; i++ {
				if pat&(1<<uint(i)) != 0 {
					d.exec("DELETE FROM fields WHERE name='c' AND positionId=?", i)
					want["c"][i] = math.NaN()
				}
			}
			r.Step(1)
			if pat == 63 {
				delete(want, "c")
			}
			d.raw.Close()
			out, err := cli(d.dir, "db", "export", "data.db", "--type", "fd", "--timestep", "2", "-o", "o.csv")
			r.Step(1)
			r.Check(err == nil, "export failed: %v %s", err, out)
			checkFieldCSV(r, filepath.Join(d.dir, "o.csv"), dims, want)
			r.Observe("missing", pat)
			r.Outcome("rows missing")
		})
	}

	c.bound("values of every magnitude from 1e-7 to 1e15 and of both signs in fields and series")
	for sgn := 0; sgn < 2; sgn++ {
		sgn := sgn
		c.Case(fmt.Sprintf("magnitudes %d", sgn), func(r *Run) {
			dims := []int{4, 6}
			d := c.newCliDB(dims, 1)
			defer d.close()
			v := make([]float64, 24)
			f := pf.NewField("c", 24, nil)
			ser := map[string]map[int]float64{"s": {}}
			for i := range v {
				v[i] = 1.23456789e-7 * math.Pow(10, float64((i*7)%24)) * (1 - 2*float64((i+sgn)%2))
				f.Data[i] = complex(v[i], 0.25)
				ser["s"][i] = v[i]
				d.sims[0].TimeSeries(map[string]float64{"s": v[i]}, i)
			}
			d.sims[0].SaveFields(pf.NewSolver(&pf.Model{Fields: []pf.Field{f}}, dims, 0.1), 0)
			r.Step(25)
			d.raw.Close()
			for _, a := range [][]string{{"--type", "fd", "--timestep", "0", "-o", "f.csv"}, {"--type", "ts", "-o", "s.csv"}} {
				out, err := cli(d.dir, append([]string{"db", "export", "data.db"}, a...)...)
				r.Step(1)
				r.Check(err == nil, "export failed: %v %s", err, out)
			}
			checkFieldCSV(r, filepath.Join(d.dir, "f.csv"), dims, map[string][]float64{"c": v})
			checkSeries(r, filepath.Join(d.dir, "s.csv"), ser)
			r.Observe("magnitudes", sgn)
			r.Outcome("magnitudes")
		})
	}

	// Timeseries: every presence pattern of two keys
	nstep := 3
	if c.Thorough {
		nstep = 4
	}
	c.bound("timeseries export: every presence pattern of two series at %d time steps, a second simulation in the same database", nstep)
	for pat := 0; pat < 1<<(2*uint(nstep)); pat++ {
		pat := pat
		c.Case(fmt.Sprintf("timeseries pattern=%0*b", 2*nstep, pat), func(r *Run) {
			d := c.newCliDB([]int{2, 2}, 2)
			defer d.close()
			d.setTime(0, 2)
			d.setTime(1, 1)
			keys := []string{"mean", "std"}
			want := []map[string]map[int]float64{{}, {}}
			put := func(sim int, key string, step int, v float64) {
				d.sims[sim].TimeSeries(map[string]float64{key: v}, step)
				r.Step(1)
				if want[sim][key] == nil {
					want[sim][key] = map[int]float64{}
				}
				want[sim][key][step] = v
			}
			for step := nstep - 1; step >= 0; step-- {
				for k, key := range keys {
					put(1, key, step+1, 7+float64(step)+0.25*float64(k))
					if pat&(1<<uint(2*step+k)) != 0 {
						put(0, key, step, -1.5*float64(step+1)+10*float64(k))
					}
				}
			}
			put(1, "extra", 5, 3.5)
			d.raw.Close()
			for sim := 0; sim < 3; sim++ {
				real := sim
				args := []string{"db", "export", "data.db", "--type", []string{"ts", "timeseries", "timeseries"}[sim], "-o", fmt.Sprintf("ts%d.csv", sim)}
				if sim == 2 {
					real = 0 // newest
				} else {
					args = append(args, "--simid", fmt.Sprint(d.ids[sim]))
				}
				if pat == 0 && real == 0 {
					continue // no series at all
				}
				out, err := cli(d.dir, args...)
				r.Step(1)
				r.Check(err == nil, "export failed: %v %s", err, out)
				recs := checkSeries(r, filepath.Join(d.dir, fmt.Sprintf("ts%d.csv", sim)), want[real])
				r.Observe("ts", pat, sim, recs)
			}
		})
	}
	c.bound("timeseries: up to five of the series %q in one simulation, next to all of them in another one", fussyNames)
	for a := range fussyNames {
		for b := 0; b < 5; b++ {
			a, b := a, b
			c.Case(fmt.Sprintf("timeseries names %d %d", a, b), func(r *Run) {
				d := c.newCliDB([]int{2, 2}, 2)
				defer d.close()
				d.setTime(0, 1)
				d.setTime(1, 2)
				want := []map[string]map[int]float64{{}, {}}
				for s := 0; s < 2; s++ {
					num := b + 1
					if s == 0 {
						num = len(fussyNames)
					}
					for k := 0; k < num; k++ {
						key := fussyNames[(a+k)%len(fussyNames)]
						want[s][key] = map[int]float64{}
						for step := k % 2; step < 4; step += 1 + k%2 {
							v := float64(100*s+10*k+step) + 0.5
							want[s][key][step] = v
							d.sims[s].TimeSeries(map[string]float64{key: v}, step)
							r.Step(1)
						}
					}
				}
				d.raw.Close()
				for s := 0; s < 2; s++ {
					f := fmt.Sprintf("ts%d.csv", s)
					out, err := cli(d.dir, "db", "export", "data.db", "--type", "ts", "-o", f, "--simid", fmt.Sprint(d.ids[s]))
					r.Step(1)
					r.Check(err == nil, "export failed: %v %s", err, out)
					r.Observe("names", s, checkSeries(r, filepath.Join(d.dir, f), want[s]))
				}
			})
		}
	}
	c.bound("long timeseries: 1..7 series with points at every, every second ... seventh step up to step 130 (NaN, infinite and large values among them), stored in ascending and descending order")
	for k := 1; k <= 7; k++ {
		for dir := 0; dir < 2; dir++ {
			k, dir := k, dir
			c.Case(fmt.Sprintf("timeseries long %d direction %d", k, dir), func(r *Run) {
				d := c.newCliDB([]int{2, 2}, 2)
				defer d.close()
				d.setTime(0, 1)
				d.setTime(1, 2)
				want := map[string]map[int]float64{}
				for i := 0; i <= 130; i++ {
					step := i
					if dir == 1 {
						step = 130 - i
					}
					vals := map[string]float64{}
					for j := 1; j <= k; j++ {
						if step%j == 0 {
							key := fmt.Sprintf("s%d", j)
							if j == 4 {
								key = "mean of \"c\", eta"
							}
							vals[key] = float64(step) + 0.125*float64(j)
							switch (step + j) % 23 {
							case 3:
								vals[key] = math.NaN()
							case 11:
								vals[key] = math.Inf(1)
							case 17:
								vals[key] = -1e12 * float64(j)
							}
							if want[key] == nil {
								want[key] = map[int]float64{}
							}
							want[key][step] = vals[key]
						}
					}
					d.sims[1].TimeSeries(vals, step)
					r.Step(1)
				}
				d.sims[0].TimeSeries(map[string]float64{"other": 1}, 200)
				d.raw.Close()
				out, err := cli(d.dir, "db", "export", "data.db", "--type", "ts", "-o", "ts.csv")
				r.Step(1)
				r.Check(err == nil, "export failed: %v %s", err, out)
				r.Observe("long", k, checkSeries(r, filepath.Join(d.dir, "ts.csv"), want))
			})
		}
	}
}

// checkSeries compares an exported file of time series with the stored values
func checkSeries(r *Run, path string, want map[string]map[int]float64) [][]string {
	recs, err := readCSV(path)
	r.Check(err == nil && len(recs) > 0, "reading the exported series: %v", err)
	max := 0
	for _, s := range want {
		for k := range s {
			if k > max {
				max = k
			}
		}
	}
	h := recs[0]
	r.Check(len(h) == len(want), "columns %v, stored %d series", h, len(want))
	r.Check(len(recs) == max+2, "%d lines for steps 0..%d", len(recs), max)
	for j, key := range h {
		w, ok := want[key]
		r.Check(ok, "unexpected column %s", key)
		for s := 0; s <= max; s++ {
			v, ok := w[s]
			if !ok {
				v = math.NaN()
				r.Outcome("no value at this step")
			} else {
				r.Outcome("value")
			}
			r.Check(sameNumber(recs[1+s][j], v), "series %s at step %d is exported as '%s', stored %g", key, s, recs[1+s][j], v)
		}
	}
	return recs
}

// tableCells parses a printed table: header names to values per simulation
func parseAttrTable(r *Run, out string) map[int]map[string]string {
	res := map[int]map[string]string{}
	var header []string
	for _, line := range strings.Split(out, "\n") {
		if !strings.HasPrefix(line, "|") {
			continue
		}
		cells := strings.Split(strings.Trim(line, "|"), "|")
		for i := range cells {
			cells[i] = strings.TrimSpace(cells[i])
		}
		id, err := strconv.Atoi(cells[0])
		if err != nil {
			header = cells
			continue
		}
		r.Check(len(header) == len(cells), "line '%s' does not fit the header %v", line, header)
		if res[id] == nil {
			res[id] = map[string]string{}
		}
		for i := 1; i < len(cells); i++ {
			if cells[i] != "" {
				_, dup := res[id][header[i]]
				r.Check(!dup, "attribute %s printed twice for %d", header[i], id)
				res[id][header[i]] = cells[i]
			}
		}
	}
	return res
}

func cliQueries(c *Ctx) {
	attrCommand(c)
	commentCommand(c)
	listCommand(c)
	infoCommand(c)
}

func attrCommand(c *Ctx) {
	c.bound("attr: every presence pattern of two numeric and two text attributes in two simulations; 1..48 attributes of one simulation")
	num := []string{"alpha", "mobility"}
	text := []string{"alloy", "title"}
	type av struct {
		num  map[string]float64
		text map[string]string
	}
	same := func(got, key string, a av) bool {
		if v, ok := a.num[key]; ok {
			return sameNumber(got, v)
		}
		return got == strings.TrimSpace(a.text[key])
	}
	verify := func(r *Run, d *cliDB, attrs []av) {
		d.raw.Close()
		run := func(args ...string) string {
			out, err := cliStdout(d.dir, append([]string{"db", "attr", "data.db"}, args...)...)
			r.Step(1)
			r.Check(err == nil, "attr %v: %v", args, err)
			return out
		}
		all := map[string]bool{}
		for _, a := range attrs {
			for k := range a.num {
				all[k] = true
			}
			for k := range a.text {
				all[k] = true
			}
		}
		checkTable := func(out string, sims []int) {
			got := parseAttrTable(r, out)
			n := 0
			for _, s := range sims {
				a := attrs[s]
				g := got[d.ids[s]]
				r.Check(len(g) == len(a.num)+len(a.text), "simulation %d: printed %v, stored %v", s, g, a)
				for k, v := range g {
					r.Check(same(v, k, a), "simulation %d: attribute %s printed as '%s', stored %v", s, k, v, a)
				}
				if len(g) > 0 {
					n++
				}
			}
			r.Check(len(got) == n, "attributes of %d simulations printed, expected %d", len(got), n)
		}
		everyone := []int{}
		for i := range attrs {
			everyone = append(everyone, i)
		}
		checkTable(run(), everyone)
		for i := range attrs {
			checkTable(run("--simid", fmt.Sprint(d.ids[i])), []int{i})
		}
		// unique names
		lines := strings.Split(strings.TrimSpace(run("--unique")), "\n")[1:]
		names := []string{}
		for k := range all {
			names = append(names, k)
		}
		sort.Strings(names)
		sort.Strings(lines)
		r.Check(strings.Join(names, ",") == strings.Join(lines, ","), "unique names %v, stored %v", lines, names)
		// one attribute
		singles := names
		if len(singles) > 9 {
			singles = singles[:4]
		}
		for _, key := range append([]string{"missing"}, singles...) {
			for sel := -1; sel < len(attrs); sel++ {
				args := []string{"--name", key}
				if sel >= 0 {
					args = append(args, "--simid", fmt.Sprint(d.ids[sel]))
				}
				got := map[int]string{}
				for _, l := range strings.Split(run(args...), "\n") {
					if strings.TrimSpace(l) == "" {
						continue
					}
					p := strings.SplitN(l, "=", 2)
					r.Check(len(p) == 2, "unexpected line '%s'", l)
					f := strings.Fields(p[0])
					id, err := strconv.Atoi(f[2])
					r.Check(err == nil && f[3] == key, "unexpected line '%s'", l)
					_, dup := got[id]
					r.Check(!dup, "attribute %s of %d printed twice", key, id)
					got[id] = strings.TrimSpace(p[1])
				}
				n := 0
				for s, a := range attrs {
					_, isNum := a.num[key]
					_, isText := a.text[key]
					if (sel >= 0 && sel != s) || !(isNum || isText) {
						continue
					}
					n++
					g, ok := got[d.ids[s]]
					r.Check(ok && same(g, key, a), "attribute %s of simulation %d is printed as '%s' (found %v), stored %v", key, s, g, ok, a)
				}
				r.Check(len(got) == n, "attribute %s: %d values printed, %d stored", key, len(got), n)
			}
		}
		r.Observe("attr", attrs)
		r.Outcome("attributes shown")
	}
	for pat := 0; pat < 256; pat++ {
		pat := pat
		if !c.Thorough && pat%16 > pat/16 {
			continue // symmetric under exchange of the simulations
		}
		c.Case(fmt.Sprintf("attr pattern=%08b", pat), func(r *Run) {
			d := c.newCliDB([]int{2, 2}, 2)
			defer d.close()
			attrs := []av{}
			for s := 0; s < 2; s++ {
				a := av{map[string]float64{}, map[string]string{}}
				for k := 0; k < 2; k++ {
					if pat&(1<<uint(4*s+k)) != 0 {
						a.num[num[k]] = 1.5*float64(s+1) - 4*float64(k)
					}
					if pat&(1<<uint(4*s+2+k)) != 0 {
						a.text[text[k]] = fmt.Sprintf("some text %d%d", s, k)
					}
				}
				if len(a.num) > 0 {
					d.sims[s].SetAttr(a.num)
				}
				if len(a.text) > 0 {
					d.sims[s].SetTextAttr(a.text)
				}
				r.Step(2)
				attrs = append(attrs, a)
			}
			verify(r, d, attrs)
		})
	}
	c.bound("attr: special values (NaN, infinite, very large, tiny, long texts, texts with format verbs, quotes and non-ASCII characters, long names) next to ordinary ones, in every order of two simulations")
	specialNum := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e15 + 0.5, -2.5e-6, 0, -1, 123456789.123456}
	specialText := []string{"NaN", "100% of %d and %s", "it's a \"quoted\" text", "Ål–Mg 6061; T6", strings.Repeat("long text ", 30) + "end", "-", "1.5", "a=b"}
	for i := range specialNum {
		for ord := 0; ord < 4; ord++ {
			i, ord := i, ord
			c.Case(fmt.Sprintf("attr special %d order %d", i, ord), func(r *Run) {
				d := c.newCliDB([]int{2, 2}, 3)
				defer d.close()
				attrs := make([]av, 3)
				for k := 0; k < 3; k++ {
					s := k
					if ord&1 == 1 {
						s = 2 - k
					}
					a := av{map[string]float64{"alpha": 1.25 * float64(s+1)}, map[string]string{"alloy": fmt.Sprint("text ", s)}}
					// The special values are stored between ordinary ones, by the second or all simulations
					if s == 1 || ord&2 == 2 {
						a.num["special_number_with_a_long_name"] = specialNum[i]
						a.text["special"] = specialText[i]
					}
					for _, key := range []string{"alpha", "special_number_with_a_long_name"} {
						if v, ok := a.num[key]; ok {
							d.sims[s].SetAttr(map[string]float64{key: v})
						}
					}
					for _, key := range []string{"alloy", "special"} {
						if v, ok := a.text[key]; ok {
							d.sims[s].SetTextAttr(map[string]string{key: v})
						}
					}
					r.Step(4)
					attrs[s] = a
				}
				verify(r, d, attrs)
			})
		}
	}
	c.bound("attr: up to five of the names %q in one simulation, as numbers or texts, next to all of them in another one, every name queried", fussyNames)
	for x := range fussyNames {
		for y := 0; y < 5; y++ {
			x, y := x, y
			c.Case(fmt.Sprintf("attr names %d %d", x, y), func(r *Run) {
				d := c.newCliDB([]int{2, 2}, 2)
				defer d.close()
				attrs := []av{}
				for s := 0; s < 2; s++ {
					n := y + 1
					if s == 0 {
						n = len(fussyNames)
					}
					a := av{map[string]float64{}, map[string]string{}}
					for k := 0; k < n; k++ {
						// The same name is a number in one simulation and a text in the other one
						if key := fussyNames[(x+k)%len(fussyNames)]; (k+s)%2 == 0 {
							a.num[key] = float64(10*s+k) + 0.5
						} else {
							a.text[key] = fmt.Sprint("text ", s, k)
						}
					}
					if len(a.num) > 0 {
						d.sims[s].SetAttr(a.num)
					}
					if len(a.text) > 0 {
						d.sims[s].SetTextAttr(a.text)
					}
					r.Step(2)
					attrs = append(attrs, a)
				}
				verify(r, d, attrs)
			})
		}
	}
	for n := 1; n <= 48; n++ {
		n := n
		c.Case(fmt.Sprintf("attr count=%d", n), func(r *Run) {
			d := c.newCliDB([]int{2, 2}, 1)
			defer d.close()
			a := av{map[string]float64{}, map[string]string{}}
			for i := 0; i < n; i++ {
				if i%3 == 2 {
					a.text[fmt.Sprintf("t%d", i)] = fmt.Sprintf("v %d", i)
				} else {
					a.num[fmt.Sprintf("k%d", i)] = float64(i) * 0.5
				}
			}
			d.sims[0].SetAttr(a.num)
			if len(a.text) > 0 {
				d.sims[0].SetTextAttr(a.text)
			}
			r.Step(2)
			verify(r, d, []av{a})
		})
	}
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

func commentCommand(c *Ctx) {
	// Operation sequences
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.bound("comment: every sequence of up to %d updates (older, newer, default simulation) from every initial presence of comments, everything shown after each update; comments of words of equal length up to 300 characters", depth)
	for init := 0; init < 4; init++ {
		init := init
		sequences(3, 0, depth, func(seq []int) {
			seq = cloneI(seq)
			c.Case(fmt.Sprintf("comment init=%02b updates=%v", init, seq), func(r *Run) {
				d := c.newCliDB([]int{2, 2}, 2)
				defer d.close()
				d.setTime(0, 1)
				d.setTime(1, 2)
				model := []string{"", ""}
				for s := 0; s < 2; s++ {
					if init&(1<<uint(s)) != 0 {
						model[s] = fmt.Sprintf("initial %%d comment %%s 100%% %d", s)
						d.sims[s].Comment(model[s])
						r.Step(1)
					}
				}
				d.raw.Close()
				show := func() {
					for s := 0; s < 2; s++ {
						out, err := cliStdout(d.dir, "db", "comment", "data.db", "--simid", fmt.Sprint(d.ids[s]))
						r.Step(1)
						want := fmt.Sprintf("Simid%d:%s", d.ids[s], squeeze(model[s]))
						r.Check(err == nil && squeeze(out) == want, "comment of simulation %d is shown as %q, expected '%s' (%v)", s, out, model[s], err)
					}
				}
				for i, op := range seq {
					show()
					msg := []string{"updated text 0", "50% of %v 'quoted' \"text\"", "%d %s %!", "; DROP TABLE comments --", "-- \\n \\ %%"}[i%5]
					if init&1 != 0 {
						msg = fmt.Sprintf("updated %%s text %d", i)
					}
					args := []string{"db", "comment", "data.db", "--new", msg}
					sim := 1
					if op < 2 {
						sim = op
						args = append(args, "--simid", fmt.Sprint(d.ids[op]))
					}
					_, err := cliStdout(d.dir, args...)
					r.Step(1)
					r.Check(err == nil, "update failed: %v", err)
					model[sim] = msg
				}
				show()
				raw := openDB(d.path)
				defer raw.Close()
				rows, err := dbRows(raw, "SELECT COUNT(*) FROM comments")
				r.Check(err == nil, "%v", err)
				n := 0
				for _, m := range model {
					if m != "" {
						n++
					}
				}
				r.Check(rows[0] == fmt.Sprint(n), "%s comments stored, expected %d", rows[0], n)
				r.Observe("comment", init, model)
				r.Outcome(fmt.Sprintf("%d updates", len(seq)))
			})
		})
	}
	// Wrapping of long comments in the overview
	lens := []int{1, 2, 5, 7, 11, 31, 47, 48, 94, 95, 96, 97, 98, 192, 193, 250}
	for _, w := range lens {
		for total := 1; total <= 300; total++ {
			if !c.Thorough && total > 12 && (total%96 > 3 && total%96 < 93) && total%37 != 0 {
				continue
			}
			w, total := w, total
			c.Case(fmt.Sprintf("comment word=%d length=%d", w, total), func(r *Run) {
				d := c.newCliDB([]int{2, 2}, 2)
				defer d.close()
				b := make([]byte, total)
				for i := range b {
					b[i] = byte('a' + (i/7)%26)
					if i%(w+1) == w {
						b[i] = ' '
					}
				}
				text := string(b)
				if strings.TrimSpace(text) == "" {
					return
				}
				d.sims[0].Comment(text)
				d.sims[1].Comment("second")
				r.Step(2)
				d.raw.Close()
				out, err := cliStdout(d.dir, "db", "comment", "data.db")
				r.Step(1)
				r.Check(err == nil, "comment: %v", err)
				got := map[int]string{}
				cur := 0
				for _, l := range strings.Split(out, "\n") {
					if !strings.HasPrefix(l, "|") {
						continue
					}
					p := strings.Split(strings.Trim(l, "|"), "|")
					r.Check(len(p) == 2, "line %q", l)
					if id, err := strconv.Atoi(strings.TrimSpace(p[0])); err == nil {
						cur = id
					} else if strings.TrimSpace(p[0]) != "" {
						continue // header
					}
					got[cur] += squeeze(p[1])
				}
				r.Check(got[d.ids[0]] == squeeze(text), "comment printed as %q, stored %q", got[d.ids[0]], text)
				r.Check(got[d.ids[1]] == "second", "second comment printed as %q", got[d.ids[1]])
				r.Observe("wrap", out)
				r.Outcome("comment overview")
			})
		}
	}
}

func listCommand(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 4
	}
	c.bound("list and time: 1..%d simulations, every assignment of creation times (ties included), every subset of simulations with a comment, every maximum", max)
	for n := 1; n <= max; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = n
		}
		product(dims, func(t []int) {
			t = cloneI(t)
			com := 0
			for _, v := range t {
				com = com*n + v
			}
			com = (com * 5) % (1 << uint(n))
			pats := []int{com}
			if c.Thorough || n < 3 {
				pats = nil
				for p := 0; p < 1<<uint(n); p++ {
					pats = append(pats, p)
				}
			}
			for _, pat := range pats {
				pat := pat
				ms := []int{}
				for m := 1; m <= n+1; m++ {
					ms = append(ms, m)
				}
				c.Case(fmt.Sprintf("list times=%v comments=%0*b", t, n, pat), func(r *Run) { listCase(c, r, t, ms, func(s int) bool { return pat&(1<<uint(s)) != 0 }) })
			}
		})
	}
	c.bound("list and time: 5..45 simulations created in ascending, descending and mixed order with and without ties")
	for _, n := range []int{5, 9, 10, 11, 19, 20, 21, 22, 45} {
		for ord := 0; ord < 4; ord++ {
			t := make([]int, n)
			for i := range t {
				switch ord {
				case 0:
					t[i] = i
				case 1:
					t[i] = n - 1 - i
				case 2:
					t[i] = (i * 7) % n
				case 3:
					t[i] = i % 3
				}
			}
			c.Case(fmt.Sprintf("list many %d order %d", n, ord), func(r *Run) {
				listCase(c, r, t, []int{1, n / 2, n - 1, n, n + 1}, func(s int) bool { return s%3 != 1 })
			})
		}
	}
}

// listCase lists simulations created at the given times with every maximum in ms (n+1: the default)
func listCase(c *Ctx, r *Run, t []int, ms []int, commented func(s int) bool) {
	n := len(t)
	pat := ""
	d := c.newCliDB([]int{2, 2}, n)
	defer d.close()
	order := make([]int, n)
	text := make([]string, n)
	for s := range order {
		order[s] = s
		d.setTime(s, 10+t[s])
		if commented(s) {
			pat += fmt.Sprint(s, " ")
			text[s] = fmt.Sprintf("comment %d", s)
			if s%2 == 0 {
				text[s] += " of %d, 100% %s"
			}
			d.sims[s].Comment(text[s])
		}
	}
	r.Step(n)
	d.raw.Close()
	// newest first; a simulation registered later is newer
	sort.Slice(order, func(a, b int) bool {
		if t[order[a]] != t[order[b]] {
			return t[order[a]] > t[order[b]]
		}
		return order[a] > order[b]
	})
	run := func(args ...string) string {
		out, err := cliStdout(d.dir, args...)
		r.Step(1)
		r.Check(err == nil, "%v: %v", args, err)
		return out
	}
	stamp := func(s int) string { return cliStamp(10 + t[s]) }
	for _, m := range ms {
		args := []string{"db", "list", "data.db", "-c", "simid"}
		show := n
		if show > 20 {
			show = 20 // the default of the maximum
		}
		if m <= n {
			args = append(args, "-m", fmt.Sprint(m))
			show = m
		}
		out := run(args...)
		got := []string{}
		for _, l := range strings.Split(out, "\n") {
			p := strings.Split(strings.Trim(l, "|"), "|")
			if len(p) == 2 {
				if _, err := strconv.Atoi(strings.TrimSpace(p[0])); err == nil {
					got = append(got, strings.TrimSpace(p[0])+" "+strings.TrimSpace(p[1]))
				}
			}
		}
		want := []string{}
		for _, s := range order[:show] {
			want = append(want, fmt.Sprintf("%d %s", d.ids[s], stamp(s)))
		}
		r.Check(strings.Join(got, ",") == strings.Join(want, ","), "list shows %v, expected %v", got, want)
		args[4] = "comment"
		out = run(args...)
		if i := strings.Index(out, "Sim Id"); i >= 0 {
			out = out[i:]
		}
		r.Check(strings.Contains(run(args...), fmt.Sprintf("Showing %d of %d", show, n)) == (show < n), "%d of %d simulations are listed without (or with needless) notice", show, n)
		wtext := ""
		for _, s := range order[:show] {
			wtext += fmt.Sprintf("Sim Id %d:\n%s\n\n", d.ids[s], text[s])
		}
		r.Check(squeeze(out) == squeeze(wtext), "list of comments %q, expected %q", out, wtext)
	}
	r.Check(strings.Contains(run("db", "time", "data.db"), fmt.Sprintf("%d was created at %s", d.ids[order[0]], stamp(order[0]))), "the creation time of the newest simulation is not shown")
	for s := range order {
		out := run("db", "time", "data.db", "-i", fmt.Sprint(d.ids[s]))
		r.Check(strings.Contains(out, fmt.Sprintf("%d was created at %s", d.ids[s], stamp(s))), "creation time of %d: %q", s, out)
	}
	r.Observe("list", t, pat)
	r.Outcome("listed")
}

// fussyNames differ in case only, contain characters with a meaning in SQL patterns or each other
var fussyNames = []string{"mean", "Mean", "MEAN", "me_n", "m%", "mean2", "mea", "%", "me-n"}

func infoCommand(c *Ctx) {
	defer infoSpread(c)
	domains := [][]int{{2, 3}, {3, 2}, {4, 1}, {2, 3, 4}, {4, 3, 2}, {1, 1, 3}, {2, 140}, {300, 1}, {2, 1, 270}}
	c.bound("info: domains %v, 1..3 simulations, 0, 1, 2, 3, 5 and 8 fields, attributes and series, short and long names", domains)
	for _, dims := range domains {
		for n := 1; n <= 3; n++ {
			for _, k := range []int{0, 1, 2, 3, 5, 8} {
				if k > 3 && n == 2 || prod(dims) > 100 && (k > 1 || n > 1) {
					continue
				}
				for long := 0; long < 2; long++ {
					dims, n, k, long := dims, n, k, long
					c.Case(fmt.Sprintf("info dims=%s sims=%d items=%d long=%d", ints(dims), n, k, long), func(r *Run) {
						d := c.newCliDB(dims, n)
						defer d.close()
						name := func(kind string, i int) string {
							s := fmt.Sprintf("%s%d", kind, i)
							if long == 1 {
								s += strings.Repeat("x", 23+5*i)
							}
							return s
						}
						fs := []pf.Field{}
						attr := map[string]float64{}
						text := map[string]string{}
						ser := map[string]float64{}
						want := map[string]map[string]bool{"Fields": {}, "Attributes": {}, "Timeseries": {}}
						for i := 0; i < k; i++ {
							fs = append(fs, pf.NewField(name("f", i), prod(dims), nil))
							want["Fields"][name("f", i)] = true
							attr[name("a", i)] = 1
							want["Attributes"][name("a", i)] = true
							if i > 0 {
								text[name("b", i)] = "t"
								want["Attributes"][name("b", i)] = true
							}
							ser[name("s", i)] = 2
							want["Timeseries"][name("s", i)] = true
						}
						for s := 0; s < n; s++ {
							if k > 0 {
								d.sims[s].SaveFields(pf.NewSolver(&pf.Model{Fields: fs}, dims, 0.1), s)
								d.sims[s].SetAttr(attr)
								d.sims[s].TimeSeries(ser, s)
							}
							if k > 1 {
								d.sims[s].SetTextAttr(text)
							}
						}
						r.Step(4 * n)
						d.raw.Close()
						out, err := cliStdout(d.dir, "db", "info", "data.db")
						r.Step(1)
						r.Check(err == nil, "info: %v", err)
						val := infoValues(out)
						r.Check(val["Num calc."] == fmt.Sprint(n), "number of calculations %q, expected %d", val["Num calc."], n)
						if k > 0 {
							nz := 1
							if len(dims) == 3 {
								nz = dims[2]
							}
							r.Check(val["Dims"] == fmt.Sprintf("(%d,%d,%d)", dims[0], dims[1], nz), "dimensions %s, domain %v", val["Dims"], dims)
						}
						checkInfoNames(r, val, want)
					})
				}
			}
		}
	}
}

// infoSpread: the items are spread over simulations and steps
func infoSpread(c *Ctx) {
	c.bound("info: 1..70 fields, attributes and series of three simulations, of which every simulation and every step stores a part, in ascending and descending order of the steps; names that differ in case only")
	for _, k := range []int{1, 2, 4, 7, 11, 12, 16, 17, 20, 25, 32, 33, 40, 70} {
		for dir := 0; dir < 2; dir++ {
			for names := 0; names < 2; names++ {
				k, dir, names := k, dir, names
				if names == 1 && k > len(fussyNames) {
					continue
				}
				c.Case(fmt.Sprintf("info spread items=%d direction=%d names=%d", k, dir, names), func(r *Run) {
					dims := []int{2, 3}
					d := c.newCliDB(dims, 3)
					defer d.close()
					name := func(kind string, i int) string {
						if names == 1 {
							return fussyNames[i]
						}
						return fmt.Sprintf("%s%d", kind, i)
					}
					want := map[string]map[string]bool{"Fields": {}, "Attributes": {}, "Timeseries": {}}
					for j := 0; j < k; j++ {
						i := j
						if dir == 1 {
							i = k - 1 - j
						}
						sim := d.sims[i%3]
						sim.SaveFields(pf.NewSolver(&pf.Model{Fields: []pf.Field{pf.NewField(name("f", i), prod(dims), nil)}}, dims, 0.1), i/3*7)
						want["Fields"][name("f", i)] = true
						if i%4 == 1 {
							d.sims[(i+1)%3].SetTextAttr(map[string]string{name("a", i): "t"})
						} else {
							d.sims[(i+1)%3].SetAttr(map[string]float64{name("a", i): 1})
						}
						want["Attributes"][name("a", i)] = true
						d.sims[(i+2)%3].TimeSeries(map[string]float64{name("s", i): 2}, i/2)
						want["Timeseries"][name("s", i)] = true
						r.Step(3)
					}
					d.raw.Close()
					out, err := cliStdout(d.dir, "db", "info", "data.db")
					r.Step(1)
					r.Check(err == nil, "info: %v", err)
					checkInfoNames(r, infoValues(out), want)
				})
			}
		}
	}
}

// infoValues parses the table of the info command
func infoValues(out string) map[string]string {
	val := map[string]string{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		p := strings.Split(strings.Trim(l, "|"), "|")
		if len(p) != 2 {
			continue
		}
		if h := strings.TrimSpace(p[0]); h != "" {
			cur = h
		}
		val[cur] += squeeze(p[1])
	}
	return val
}

func checkInfoNames(r *Run, val map[string]string, want map[string]map[string]bool) {
	for kind, names := range want {
		got := map[string]bool{}
		if val[kind] != "" {
			for _, s := range strings.Split(val[kind], ",") {
				r.Check(!got[s], "%s lists %s twice", kind, s)
				got[s] = true
			}
		}
		r.Check(len(got) == len(names), "%s: %v, expected %v", kind, got, names)
		for s := range names {
			r.Check(got[s], "%s: %s missing in %v", kind, s, got)
		}
	}
	r.Observe("info", val)
	r.Outcome("info")
}
