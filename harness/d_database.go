package main

import (
	"database/sql"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	_ "github.com/mattn/go-sqlite3"
)

func init() {
	register("D01", "model_checking", databaseHistories)
	register("D03", "model_checking", databaseDomains)
}

// dbSeq numbers scratch data bases
var dbSeq int

func (c *Ctx) dbPath() string {
	dbSeq++
	return filepath.Join(c.scratch, fmt.Sprintf("db%d.sqlite", dbSeq))
}

func openDB(path string) *sql.DB {
	db, err := sql.Open("sqlite3", "file:"+path+"?_sync=0&_journal=MEMORY")
	if err != nil {
		panic(err)
	}
	return db
}

func removeDB(path string) {
	for _, s := range []string{"", "-journal", "-wal", "-shm"} {
		os.Remove(path + s)
	}
}

// dbRows returns the rows of a query as text; values that are NULL become "NULL" and floats are
// printed with all digits
func dbRows(db *sql.DB, q string, args ...interface{}) ([]string, error) {
	rows, err := db.Query(q, args...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	cols, _ := rows.Columns()
	out := []string{}
	for rows.Next() {
		vals := make([]interface{}, len(cols))
		ptr := make([]interface{}, len(cols))
		for i := range vals {
			ptr[i] = &vals[i]
		}
		if err := rows.Scan(ptr...); err != nil {
			return nil, err
		}
		s := make([]string, len(cols))
		for i, v := range vals {
			s[i] = cell(v)
		}
		out = append(out, strings.Join(s, "|"))
	}
	return out, rows.Err()
}

func cell(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case []byte:
		return string(x)
	case float64:
		if math.IsNaN(x) {
			return "NULL" // SQLite has no NaN, it is stored as NULL
		}
		return fmt.Sprintf("%.17g", x+0)
	}
	return fmt.Sprint(v)
}

// simRec is the reference for the data written by one simulation
type simRec struct {
	fields  map[int]map[string][]float64 // timestep, name
	rows    []string                     // name|value|node|timestep
	attr    []string
	text    []string
	comment []string
	series  []string
}

func newSimRec() *simRec { return &simRec{fields: map[int]map[string][]float64{}} }

func (s *simRec) save(ts int, fields []pf.Field) {
	for _, f := range fields {
		d := make([]float64, len(f.Data))
		for i := range d {
			d[i] = real(f.Data[i])
			s.rows = append(s.rows, fmt.Sprintf("%s|%s|%d|%d", f.Name, cell(d[i]), i, ts))
		}
		if s.fields[ts] == nil {
			s.fields[ts] = map[string][]float64{}
		}
		s.fields[ts][f.Name] = d
	}
}

// dbVal gives the value of a field at a node; special values appear at fixed places
func dbVal(step, field, node int) float64 {
	switch (step*7 + field*3 + node) % 11 {
	case 0:
		return math.Inf(1)
	case 3:
		return 1e-300
	case 5:
		return math.NaN()
	case 7:
		return -123456.78901234567
	case 8:
		return 0
	}
	return float64(step+1)*0.1 + float64(field)*10 + float64(node)/3
}

func fieldsFor(names []string, n, step int) []pf.Field {
	fs := []pf.Field{}
	for k, nm := range names {
		f := pf.NewField(nm, n, nil)
		for i := range f.Data {
			f.Data[i] = complex(dbVal(step, k, i), float64(i)) // the imaginary part is not stored
		}
		fs = append(fs, f)
	}
	return fs
}

func solverOf(fs []pf.Field) *pf.Solver {
	m := pf.NewModel()
	for _, f := range fs {
		m.AddField(f)
	}
	return &pf.Solver{Model: &m}
}

type dbOp struct {
	name string
	h    int // handle
	kind byte
	arg  int
}

type dbHandle struct {
	db  *sql.DB
	fdb *pf.FieldDB
	rec *simRec
	id  string
}

var commentTexts = []string{"first run", "two\nlines 'quoted' \"x\"; DROP TABLE fields", "", "ünï|code",
	" blanks  around\tand inside ", "\nline breaks around\n\n", "  ", "?1 %s %d \\n", strings.Repeat("long ", 3000), "NULL", "12", "1e3"}

// runDBHistory executes the operations on a fresh data base and compares everything stored with the reference
func runDBHistory(c *Ctx, r *Run, dims []int, names []string, ops []dbOp) {
	path := c.dbPath()
	defer removeDB(path)
	n := prod(dims)
	handles := map[int]*dbHandle{}
	order := []*dbHandle{} // simulations in order of creation
	all := []*dbHandle{}
	open := func(h int) *dbHandle {
		hd := &dbHandle{db: openDB(path), rec: newSimRec()}
		hd.fdb = &pf.FieldDB{DB: hd.db, DomainSize: cloneI(dims)}
		handles[h] = hd
		all = append(all, hd)
		return hd
	}
	defer func() {
		for _, h := range all {
			h.db.Close()
		}
	}()
	known := map[string]bool{}
	for step, op := range ops {
		if op.kind == 'R' {
			if hd := handles[op.h]; hd != nil {
				hd.db.Close()
			}
			delete(handles, op.h)
			continue
		}
		hd := handles[op.h]
		if hd == nil {
			hd = open(op.h)
		}
		switch op.kind {
		case 'S':
			fs := fieldsFor(names, n, step)
			before := fieldsFor(names, n, step)
			hd.fdb.SaveFields(solverOf(fs), op.arg)
			hd.rec.save(op.arg, before)
			for k := range fs {
				for i := range fs[k].Data {
					same := fs[k].Data[i] == before[k].Data[i] || math.IsNaN(real(before[k].Data[i]))
					r.Check(same, "saving changed field %s at node %d", fs[k].Name, i)
				}
			}
		case 'C':
			hd.fdb.Comment(commentTexts[op.arg])
			hd.rec.comment = append(hd.rec.comment, strings.Replace(commentTexts[op.arg], "\n", " ", -1))
		case 'A':
			a := map[string]float64{"temp": float64(step) + 0.25, "c'onc": 1e-9 * float64(op.arg-3), "Temp": 0, " temp ": -1, "": math.Pi, "big": 1e300}
			hd.fdb.SetAttr(a)
			for k, v := range a {
				hd.rec.attr = append(hd.rec.attr, k+"|"+cell(v))
			}
		case 'X':
			a := map[string]string{"host": fmt.Sprintf("n%d\nx", step), "na;me": "it's", "Host": "", " host": " blanks\taround \n", "": "12", "text": strings.Repeat("ab ", 4000), "num": "007"}
			hd.fdb.SetTextAttr(a)
			for k, v := range a {
				hd.rec.text = append(hd.rec.text, k+"|"+v)
			}
		case 'L':
			num, txt := map[string]float64{}, map[string]string{}
			for k := 0; k < 40; k++ {
				key := fmt.Sprintf("%d", k) + strings.Repeat("k", k*k)
				num[key], txt[key] = float64(k)/3, key+" text"
			}
			hd.fdb.SetAttr(num)
			hd.fdb.SetTextAttr(txt)
			hd.fdb.TimeSeries(num, op.arg)
			for k, v := range num {
				hd.rec.attr = append(hd.rec.attr, k+"|"+cell(v))
				hd.rec.text = append(hd.rec.text, k+"|"+txt[k])
				hd.rec.series = append(hd.rec.series, fmt.Sprintf("%s|%s|%d", k, cell(v), op.arg))
			}
		case 'T':
			a := map[string]float64{"energy": float64(step) * 1.5, "mean": math.Inf(-1), "Mean": 0, " mean": -1e-300, "": 1.0 / 3}
			hd.fdb.TimeSeries(a, op.arg)
			for k, v := range a {
				hd.rec.series = append(hd.rec.series, fmt.Sprintf("%s|%s|%d", k, cell(v), op.arg))
			}
		}
		r.Step(1)
		if hd.id == "" {
			q := openDB(path)
			ids, err := dbRows(q, "SELECT simID FROM simIDs")
			q.Close()
			r.Check(err == nil, "no list of simulations: %v", err)
			for _, id := range ids {
				if !known[id] {
					r.Check(hd.id == "", "one simulation was registered with two ids %s and %s", hd.id, id)
					hd.id = id
					known[id] = true
				}
			}
			r.Check(hd.id != "", "the simulation was not registered")
			order = append(order, hd)
		}
	}
	if len(order) == 0 {
		return
	}
	q := openDB(path)
	defer q.Close()
	expect := func(what, query string, get func(s *simRec) []string) {
		got, err := dbRows(q, query)
		r.Check(err == nil, "%s: %v", what, err)
		want := []string{}
		for _, h := range order {
			for _, row := range get(h.rec) {
				want = append(want, row+"|"+h.id)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		r.Check(strings.Join(got, "\n") == strings.Join(want, "\n"), "%s: stored rows\n%v\nexpected\n%v", what, got, want)
	}
	expect("fields", "SELECT name,value,positionId,timestep,simID FROM fields", func(s *simRec) []string { return s.rows })
	expect("attributes", "SELECT key,value,simID FROM simAttributes", func(s *simRec) []string { return s.attr })
	expect("text attributes", "SELECT key,value,simID FROM simTextAttributes", func(s *simRec) []string { return s.text })
	expect("comments", "SELECT value,simID FROM comments", func(s *simRec) []string { return s.comment })
	expect("time series", "SELECT key,value,timestep,simID FROM timeseries", func(s *simRec) []string { return s.series })
	ids, err := dbRows(q, "SELECT simID FROM simIDs ORDER BY rowid")
	r.Check(err == nil, "%v", err)
	wantIDs := []string{}
	anyField := false
	for _, h := range order {
		wantIDs = append(wantIDs, h.id)
		anyField = anyField || len(h.rec.rows) > 0
	}
	r.Check(fmt.Sprint(ids) == fmt.Sprint(wantIDs), "simulation ids %v, expected %v", ids, wantIDs)
	times, err := dbRows(q, "SELECT COUNT(*) FROM simIDs WHERE creationTime IS NULL OR length(creationTime) < 10")
	r.Check(err == nil && times[0] == "0", "simulation without creation time (%v)", err)
	// Positions: every value is linked to the position of its node
	if anyField {
		wantPos := []string{}
		for i := 0; i < n; i++ {
			p := append(refPos(dims, i), 0)
			wantPos = append(wantPos, fmt.Sprintf("%d|%d|%d|%d", i, p[0], p[1], p[2]))
		}
		got, err := dbRows(q, "SELECT id,X,Y,Z FROM positions ORDER BY id")
		r.Check(err == nil, "positions: %v", err)
		r.Check(fmt.Sprint(got) == fmt.Sprint(wantPos), "positions table %v, expected %v", got, wantPos)
		missing, err := dbRows(q, "SELECT COUNT(*) FROM fields WHERE positionId NOT IN (SELECT id FROM positions)")
		r.Check(err == nil && missing[0] == "0", "%v values are not linked to a position (%v)", missing, err)
		bad, err := dbRows(q, "SELECT COUNT(*) FROM fields WHERE simID NOT IN (SELECT simID FROM simIDs)")
		r.Check(err == nil && bad[0] == "0", "%v values are not linked to a simulation (%v)", bad, err)
	}
	// Loading
	reader := &pf.FieldDB{DB: q, DomainSize: cloneI(dims)}
	if !anyField {
		r.Observe(ids == nil, len(order))
		return
	}
	checkLoad := func(what string, got []pf.Field, want map[string][]float64) {
		nm := []string{}
		for k := range want {
			nm = append(nm, k)
		}
		sort.Strings(nm)
		r.Check(len(got) == len(nm), "%s: %d fields, expected %v", what, len(got), nm)
		for i, f := range got {
			r.Check(f.Name == nm[i], "%s: field %d is %s, expected %s", what, i, f.Name, nm[i])
			r.Check(len(f.Data) == n, "%s: field %s has %d nodes, expected %d", what, f.Name, len(f.Data), n)
			for k, v := range f.Data {
				w := want[f.Name][k]
				ok := real(v) == w || math.IsNaN(w) && math.IsNaN(real(v))
				r.Check(ok && imag(v) == 0, "%s: field %s is %v at node %d, expected %g", what, f.Name, v, k, w)
			}
		}
	}
	for _, h := range order {
		var id int
		fmt.Sscan(h.id, &id)
		last := math.MinInt32
		dup := len(h.rec.rows) > 0
		total := 0
		for ts, f := range h.rec.fields {
			if ts > last {
				last = ts
			}
			total += len(f) * n
		}
		dup = total != len(h.rec.rows) // the same timestep was written twice
		if dup {
			continue
		}
		probe := map[int]bool{}
		for ts := 0; ts <= 6; ts++ {
			probe[ts] = true
		}
		for ts := range h.rec.fields {
			probe[ts], probe[ts+1], probe[ts*10] = true, true, true
		}
		for ts := range probe {
			checkLoad(fmt.Sprintf("Load(simulation, %d)", ts), reader.Load(id, ts), h.rec.fields[ts])
			r.Step(1)
		}
		if len(h.rec.fields) > 0 {
			checkLoad("LoadLast", reader.LoadLast(id), h.rec.fields[last])
		} else {
			checkLoad("LoadLast", reader.LoadLast(id), nil)
		}
		r.Step(1)
	}
	r.Observe("final", len(order), len(order[0].rec.rows), fmt.Sprint(order[0].rec.fields), ops)
}

func opsName(ops []dbOp) string {
	s := make([]string, len(ops))
	for i, o := range ops {
		s[i] = o.name
	}
	return strings.Join(s, ",")
}

func databaseHistories(c *Ctx) {
	alphabet := []dbOp{
		{"0:save@0", 0, 'S', 0}, {"0:save@4", 0, 'S', 4}, {"1:save@0", 1, 'S', 0}, {"1:save@2", 1, 'S', 2},
		{"0:comment", 0, 'C', 0}, {"1:comment", 1, 'C', 1}, {"0:attr", 0, 'A', 0}, {"1:attr", 1, 'A', 1},
		{"0:text", 0, 'X', 0}, {"1:series@1", 1, 'T', 1}, {"0:series@3", 0, 'T', 3}, {"0:reopen", 0, 'R', 0},
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.bound("every sequence of 1..%d operations out of %d (save at a timestep, comment, numeric and text attributes, time series, close and start a new simulation) by up to 4 simulations interleaved through two handles on one 2x3 data base", depth, len(alphabet))
	c.bound("every sequence of 1..4 save / reopen operations, and every sequence of 1..2 operations on the domains 1x1, 1x3, 2x2, 2x1x2, 1x1x1, 2x3x2 with 1..3 fields")
	sequences(len(alphabet), 1, depth, func(seq []int) {
		ops := []dbOp{}
		for _, k := range seq {
			ops = append(ops, alphabet[k])
		}
		c.Case("history/2x3/"+opsName(ops), func(r *Run) { runDBHistory(c, r, []int{2, 3}, []string{"conc", "eta'q"}, ops) })
	})
	small := []dbOp{{"0:save@0", 0, 'S', 0}, {"0:save@5", 0, 'S', 5}, {"0:save@2", 0, 'S', 2}, {"1:save@1", 1, 'S', 1}, {"0:reopen", 0, 'R', 0}}
	sequences(len(small), 4, 4, func(seq []int) {
		ops := []dbOp{}
		for _, k := range seq {
			ops = append(ops, small[k])
		}
		c.Case("history/2x2/"+opsName(ops), func(r *Run) { runDBHistory(c, r, []int{2, 2}, []string{"zeta", "b"}, ops) })
	})
	for _, dims := range [][]int{{1, 1}, {1, 3}, {2, 2}, {2, 1, 2}, {1, 1, 1}, {2, 3, 2}} {
		for _, names := range [][]string{{"conc"}, {"z", "a"}, {"c", "b", "a long field name with blanks"}} {
			dims, names := dims, names
			sequences(len(small), 1, 2, func(seq []int) {
				ops := []dbOp{}
				for _, k := range seq {
					ops = append(ops, small[k])
				}
				c.Case(fmt.Sprintf("history/%s/%d fields/%s", ints(dims), len(names), opsName(ops)), func(r *Run) { runDBHistory(c, r, dims, names, ops) })
			})
		}
	}
	databaseScale(c)
}

// databaseScale: large domains, many fields, many steps and many entries
func databaseScale(c *Ctx) {
	save := func(h, ts int) dbOp { return dbOp{fmt.Sprintf("%d:save@%d", h, ts), h, 'S', ts} }
	steps := []int{0, 9, 10, 99, 100, 1000000}
	c.bound("every ordered pair and every ordered triple of saves at the steps %v; domains 20x30, 1x600, 257x2, 11x13x7, 70x75 with a second simulation; 1..12 fields; 25 saves, attributes, comments and points of a series by one simulation; 12 simulations", steps)
	for l := 2; l <= 3; l++ {
		sequences(len(steps), l, l, func(seq []int) {
			ops := []dbOp{}
			seen := map[int]bool{}
			for _, k := range seq {
				if seen[k] {
					return
				}
				seen[k] = true
				ops = append(ops, save(0, steps[k]))
			}
			ops = append(ops, save(1, 11))
			c.Case("steps/"+opsName(ops), func(r *Run) { runDBHistory(c, r, []int{2, 2}, []string{"b", "a"}, ops) })
		})
	}
	for _, dims := range [][]int{{20, 30}, {1, 600}, {257, 2}, {11, 13, 7}, {70, 75}} {
		dims := dims
		ops := []dbOp{save(0, 3), save(1, 12), save(0, 20)}
		c.Case("large/"+ints(dims), func(r *Run) { runDBHistory(c, r, dims, []string{"conc", "b"}, ops) })
	}
	for k := 1; k <= 12; k++ {
		names := []string{}
		for i := k; i > 0; i-- {
			names = append(names, fmt.Sprintf("f%d", i))
		}
		ops := []dbOp{save(0, 3), save(1, 12)}
		c.Case(fmt.Sprintf("fields/%d", k), func(r *Run) { runDBHistory(c, r, []int{3, 2}, names, ops) })
	}
	for _, kind := range []dbOp{{"save", 0, 'S', 0}, {"comment", 0, 'C', 2}, {"attr", 0, 'A', 0}, {"text", 0, 'X', 0}, {"series", 0, 'T', 0}} {
		ops := []dbOp{}
		for k := 0; k < 25; k++ {
			o := kind
			if o.kind == 'S' || o.kind == 'T' {
				o.arg = k
			}
			ops = append(ops, o)
		}
		c.Case("often/"+kind.name, func(r *Run) { runDBHistory(c, r, []int{2, 2}, []string{"c"}, ops) })
	}
	ops := []dbOp{}
	for k := 0; k < 12; k++ {
		ops = append(ops, save(k, k), dbOp{"comment", k, 'C', k % 4}, dbOp{"series", k, 'T', k})
	}
	special := []dbOp{}
	for k := range commentTexts {
		special = append(special, dbOp{"comment", 0, 'C', k})
	}
	for _, ts := range []int{-1, -7, 0, 1 << 40} {
		special = append(special, dbOp{"series", 0, 'T', ts})
	}
	c.bound("%d comments (blanks, line breaks, quotes, long texts), keys that differ in case or blanks, series at negative and large steps, field names that differ in case or blanks", len(commentTexts))
	c.Case("special texts", func(r *Run) { runDBHistory(c, r, []int{2, 2}, []string{"c"}, special) })
	c.bound("40 keys of 1..1500 characters and field names of 30..2000 characters")
	c.Case("long keys", func(r *Run) {
		runDBHistory(c, r, []int{2, 2}, []string{"c"}, []dbOp{{"long", 0, 'L', 3}, {"long", 1, 'L', 70000}})
	})
	longNames := []string{}
	for _, l := range []int{30, 33, 64, 65, 128, 256, 2000} {
		longNames = append(longNames, strings.Repeat("n", l))
	}
	c.Case("long names", func(r *Run) {
		runDBHistory(c, r, []int{3, 2}, longNames, []dbOp{save(0, 3), save(1, 12)})
	})
	for _, names := range [][]string{{"c", "C"}, {"Eta", "eta", "ETA"}, {" c", "c", "c "}, {"1", "01", "1.0"}, {"a%b", "a_b", "a\\b"}, {"", "x"}} {
		names := names
		c.Case(fmt.Sprintf("special names %q", names), func(r *Run) {
			runDBHistory(c, r, []int{3, 2}, names, []dbOp{save(0, 3), save(1, 12), save(0, 20)})
		})
	}
	c.bound("150 simulations of one data base")
	c.Case("many simulations", func(r *Run) {
		many := []dbOp{}
		for k := 0; k < 150; k++ {
			many = append(many, dbOp{"comment", k, 'C', k % len(commentTexts)}, dbOp{"reopen", k, 'R', 0})
		}
		runDBHistory(c, r, []int{1, 2}, []string{"c"}, append(many, save(150, 1)))
	})
	nSim := 500
	c.bound("%d simulations in one data base: every one keeps its own comment", nSim)
	c.Case("many simulations", func(r *Run) {
		path := c.dbPath()
		defer removeDB(path)
		db := openDB(path)
		defer db.Close()
		for i := 0; i < nSim; i++ {
			f := &pf.FieldDB{DB: db, DomainSize: []int{1, 1}}
			refused, msg := panics(func() { f.Comment(fmt.Sprintf("simulation %d", i)) })
			r.Check(!refused, "simulation %d could not be stored: %v", i, msg)
			r.Step(1)
		}
		rows, err := dbRows(db, "SELECT COUNT(DISTINCT simID), COUNT(*) FROM comments")
		r.Check(err == nil && rows[0] == fmt.Sprintf("%d|%d", nSim, nSim), "identifiers and comments: %v (%v)", rows, err)
		rows, err = dbRows(db, "SELECT COUNT(*) FROM simIDs")
		r.Check(err == nil && rows[0] == fmt.Sprint(nSim), "registered simulations: %v (%v)", rows, err)
		r.Observe(nSim)
	})
	c.Case("simulations", func(r *Run) { runDBHistory(c, r, []int{2, 2}, []string{"c"}, ops) })
}

// databaseDomains: one data base holds one domain
func databaseDomains(c *Ctx) {
	m2, m3 := 3, 2
	if c.Thorough {
		m2, m3 = 4, 3
	}
	if c.Deep {
		m2, m3 = 6, 4
	}
	c.bound("every ordered pair (domain of the data base, domain of a later simulation) of 2D domains with sides 1..%d and 3D domains with sides 1..%d; every pair of domain and field length up to 9 nodes", m2, m3)
	all := [][]int{}
	shapes(m2, m3, func(d []int) { all = append(all, cloneI(d)) })
	norm := func(d []int) string {
		if len(d) == 2 {
			return ints(append(cloneI(d), 1))
		}
		return ints(d)
	}
	big := [][]int{{12, 10}, {10, 12}, {12, 10, 1}, {12, 10, 2}, {11, 10}, {12, 11}, {13, 10}, {6, 20}, {1, 120}, {120, 1}, {6, 5, 4}, {4, 5, 6}, {5, 6, 4}, {6, 5, 5}, {24, 10}}
	c.bound("every ordered pair out of the larger domains %v", big)
	pairs := [][2][]int{}
	for _, l := range [][][]int{all, big} {
		for _, d1 := range l {
			for _, d2 := range l {
				pairs = append(pairs, [2][]int{d1, d2})
			}
		}
	}
	for _, pr := range pairs {
		{
			d1, d2 := pr[0], pr[1]
			c.Case(fmt.Sprintf("mismatch/db %s/simulation %s", ints(d1), ints(d2)), func(r *Run) {
				path := c.dbPath()
				defer removeDB(path)
				db := openDB(path)
				defer db.Close()
				first := &pf.FieldDB{DB: db, DomainSize: cloneI(d1)}
				first.SaveFields(solverOf(fieldsFor([]string{"c"}, prod(d1), 0)), 0)
				count := func(q string) string {
					s, err := dbRows(db, q)
					if err != nil {
						r.Failf("%v", err)
					}
					return s[0]
				}
				second := &pf.FieldDB{DB: db, DomainSize: cloneI(d2)}
				refused, _ := panics(func() { second.SaveFields(solverOf(fieldsFor([]string{"c"}, prod(d2), 1)), 1) })
				r.Step(2)
				r.Check(count("SELECT COUNT(*) FROM positions") == fmt.Sprint(prod(d1)), "positions table has %s rows", count("SELECT COUNT(*) FROM positions"))
				nrow := count("SELECT COUNT(*) FROM fields")
				if norm(d1) == norm(d2) {
					r.Check(!refused, "a simulation with the domain of the data base was refused")
					r.Check(nrow == fmt.Sprint(2*prod(d1)), "%s rows stored", nrow)
					r.Outcome("accepted")
				} else {
					r.Check(refused, "fields on a %s domain were stored in a data base of a %s domain", ints(d2), ints(d1))
					r.Check(nrow == fmt.Sprint(prod(d1)), "a refused save left %s rows, expected %d", nrow, prod(d1))
					r.Outcome("refused")
				}
				r.Observe(d1, d2, refused, nrow)
			})
		}
	}
	c.bound("the domain of one simulation changes between two saves: every ordered pair out of 8 domains, every order of {save on the first domain, save on the second domain} up to length 4")
	few := [][]int{{1, 2}, {2, 1}, {2, 2}, {4, 1}, {1, 4}, {2, 2, 1}, {2, 1, 2}, {2, 2, 2}}
	for _, d1 := range few {
		for _, d2 := range few {
			d1, d2 := d1, d2
			c.Case(fmt.Sprintf("changes/%s/%s", ints(d1), ints(d2)), func(r *Run) {
				sequences(2, 2, 4, func(seq []int) {
					path := c.dbPath()
					defer removeDB(path)
					db := openDB(path)
					defer db.Close()
					f := &pf.FieldDB{DB: db}
					want := 0
					for ts, x := range seq {
						d := [][]int{d1, d2}[x]
						f.DomainSize = cloneI(d)
						ok := norm(d) == norm([][]int{d1, d2}[seq[0]])
						refused, _ := panics(func() { f.SaveFields(solverOf(fieldsFor([]string{"c", "e"}, prod(d), ts)), ts) })
						r.Step(1)
						r.Check(refused == !ok, "sequence %v: save %d on a %s domain: refused is %v", seq, ts, ints(d), refused)
						if ok {
							want += 2 * prod(d)
						}
						rows, err := dbRows(db, "SELECT COUNT(*) FROM fields")
						r.Check(err == nil && rows[0] == fmt.Sprint(want), "sequence %v: %v rows stored behind save %d, expected %d (%v)", seq, rows, ts, want, err)
						r.Observe(d1, d2, seq, ts, refused)
					}
				})
			})
		}
	}
	for _, d := range all {
		for n := 0; n <= 9; n++ {
			d, n := d, n
			c.Case(fmt.Sprintf("length/%s/%d values", ints(d), n), func(r *Run) {
				path := c.dbPath()
				defer removeDB(path)
				db := openDB(path)
				defer db.Close()
				f := &pf.FieldDB{DB: db, DomainSize: cloneI(d)}
				refused, _ := panics(func() { f.SaveFields(solverOf(fieldsFor([]string{"c"}, n, 0)), 0) })
				r.Step(1)
				r.Check(refused == (n != prod(d)), "a field with %d values on a %s domain: refused is %v", n, ints(d), refused)
				rows, err := dbRows(db, "SELECT COUNT(*) FROM fields")
				want := "0"
				if !refused {
					want = fmt.Sprint(n)
				}
				r.Check(err == nil && rows[0] == want, "%v rows stored, expected %s (%v)", rows, want, err)
				r.Observe("len", d, n, refused)
			})
		}
	}
}
