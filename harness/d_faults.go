package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/davidkleiven/gopf/pf"
	sqlite3 "github.com/mattn/go-sqlite3"
)

func init() {
	register("D02", "fault_enumeration", databaseFaults)
	children["dbfault"] = dbFaultChild
}

// fault decides what happens at every operation of the data base driver
type fault struct {
	mode string // none, once, from, crash, crashafter
	at   int
	n    int
}

var theFault fault

var errInjected = errors.New("injected: disk I/O error")

// before is called before operation number n; it returns an error that the operation has to return
func (f *fault) before() error {
	f.n++
	switch {
	case f.mode == "crash" && f.n == f.at:
		os.Exit(77)
	case f.mode == "once" && f.n == f.at, f.mode == "from" && f.n >= f.at:
		return errInjected
	}
	return nil
}

func (f *fault) after() {
	if f.mode == "crashafter" && f.n == f.at {
		os.Exit(77)
	}
}

type fDriver struct{ d *sqlite3.SQLiteDriver }
type fConn struct{ c driver.Conn }
type fStmt struct{ s driver.Stmt }
type fTx struct{ t driver.Tx }
type fRows struct{ r driver.Rows }

func (d fDriver) Open(name string) (driver.Conn, error) {
	c, err := d.d.Open(name)
	if err != nil {
		return nil, err
	}
	return &fConn{c}, nil
}

func (c *fConn) Prepare(q string) (driver.Stmt, error) {
	if err := theFault.before(); err != nil {
		return nil, err
	}
	s, err := c.c.Prepare(q)
	theFault.after()
	if err != nil {
		return nil, err
	}
	return &fStmt{s}, nil
}
func (c *fConn) Close() error { return c.c.Close() }
func (c *fConn) Begin() (driver.Tx, error) {
	if err := theFault.before(); err != nil {
		return nil, err
	}
	t, err := c.c.Begin()
	theFault.after()
	if err != nil {
		return nil, err
	}
	return &fTx{t}, nil
}
func (t *fTx) Commit() error {
	if err := theFault.before(); err != nil {
		t.t.Rollback() // a commit that fails with an I/O error leaves nothing behind
		return err
	}
	err := t.t.Commit()
	theFault.after()
	return err
}
func (t *fTx) Rollback() error { return t.t.Rollback() }
func (s *fStmt) Close() error  { return s.s.Close() }
func (s *fStmt) NumInput() int { return s.s.NumInput() }
func (s *fStmt) Exec(a []driver.Value) (driver.Result, error) {
	if err := theFault.before(); err != nil {
		return nil, err
	}
	r, err := s.s.Exec(a)
	theFault.after()
	return r, err
}
func (s *fStmt) Query(a []driver.Value) (driver.Rows, error) {
	if err := theFault.before(); err != nil {
		return nil, err
	}
	r, err := s.s.Query(a)
	theFault.after()
	if err != nil {
		return nil, err
	}
	return &fRows{r}, nil
}
func (r *fRows) Columns() []string { return r.r.Columns() }
func (r *fRows) Close() error      { return r.r.Close() }
func (r *fRows) Next(d []driver.Value) error {
	if err := theFault.before(); err != nil {
		return err
	}
	err := r.r.Next(d)
	theFault.after()
	return err
}

var faultDims = []int{1, 2}
var faultNames = []string{"conc", "eta"}

func faultFields(i int) []pf.Field {
	fs := []pf.Field{}
	for k, nm := range faultNames {
		f := pf.NewField(nm, 2, nil)
		f.Data[0], f.Data[1] = complex(float64(i)+0.5, 0), complex(float64(-k), 0)
		fs = append(fs, f)
	}
	return fs
}

// dbFaultChild PATH OPS MODE AT: performs the operations with one fault and prints "done i" behind each
func dbFaultChild(args []string) {
	path, ops := args[0], args[1]
	at, _ := strconv.Atoi(args[3])
	sql.Register("sqlite3fault", fDriver{&sqlite3.SQLiteDriver{}})
	db, err := sql.Open("sqlite3fault", "file:"+path+"?_sync=0")
	if err != nil {
		os.Exit(5)
	}
	db.SetMaxOpenConns(4)
	fdb := &pf.FieldDB{DB: db, DomainSize: faultDims}
	var loaded []pf.Field
	theFault = fault{mode: args[2], at: at}
	retry := args[2] == "retry"
	if retry {
		theFault.mode = "once"
	}
	defer func() {
		if e := recover(); e != nil {
			fmt.Printf("report %v\n", e)
			os.Exit(3)
		}
	}()
	for i, op := range ops {
		i, op := i, op
		perform := func() {
			switch op {
			case 'S':
				fdb.SaveFields(solverOf(faultFields(i)), i)
			case 'C':
				fdb.Comment(fmt.Sprintf("comment%d", i))
			case 'A':
				fdb.SetAttr(map[string]float64{"a": float64(i), "b": float64(100 + i)})
			case 'X':
				fdb.SetTextAttr(map[string]string{"a": fmt.Sprint(i), "b": fmt.Sprintf("x%d", i)})
			case 'T':
				fdb.TimeSeries(map[string]float64{"a": float64(i), "b": float64(100 + i)}, i)
			case 'L', 'M':
				// 'L' loads timestep 0 and 'M' the last timestep of the simulation that wrote the data before
				id, _ := strconv.Atoi(args[4])
				if op == 'L' {
					loaded = fdb.Load(id, 0)
				} else {
					loaded = fdb.LoadLast(id)
				}
				fmt.Printf("loaded %d", i)
				for _, f := range loaded {
					fmt.Printf(" %s%v", f.Name, f.Data)
				}
				fmt.Println()
			}
		}
		failed := false
		if retry {
			failed, _ = panics(perform)
		} else {
			perform()
		}
		if failed {
			// the same call again: the data base works by now
			fmt.Printf("repeated %d\n", i)
			perform()
		}
		fmt.Printf("done %d\n", i)
	}
	fmt.Printf("ops %d\n", theFault.n)
	os.Exit(0)
}

type faultResult struct {
	path string
	out  string
	rc   int
	id   int // simulation that was there before
}

func runFaultChild(c *Ctx, path string, existing bool, ops, mode string, at int) faultResult {
	res := faultResult{path: path}
	if existing {
		db, err := sql.Open("sqlite3", "file:"+path+"?_sync=0")
		if err != nil {
			panic(err)
		}
		fdb := &pf.FieldDB{DB: db, DomainSize: faultDims}
		fdb.SaveFields(solverOf(faultFields(90)), 0)
		fdb.SaveFields(solverOf(faultFields(91)), 3)
		fdb.Comment("before")
		ids, _ := dbRows(db, "SELECT simID FROM simIDs")
		res.id, _ = strconv.Atoi(ids[0])
		db.Close()
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "child", "dbfault", path, ops, mode, fmt.Sprint(at), fmt.Sprint(res.id))
	var out bytes.Buffer
	cmd.Stdout = &out
	err := cmd.Run()
	if err != nil {
		res.rc = -1
		if ee, ok := err.(*exec.ExitError); ok {
			res.rc = ee.ExitCode()
		}
	}
	res.out = out.String()
	return res
}

// checkFault compares what is in the data base with what the completed operations promised
func checkFault(c *Ctx, r *Run, res faultResult, existing bool, ops, mode string) {
	defer removeDB(res.path)
	r.Fault(1)
	done := 0
	repeated := map[int]bool{}
	for _, l := range strings.Split(res.out, "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "repeated" {
			repeated[done] = true
			r.Outcome("repeated")
		}
		if len(f) == 2 && f[0] == "done" {
			done++
		}
		if len(f) > 1 && f[0] == "loaded" {
			want := 90
			if ops[done] == 'M' {
				want = 91
			}
			exp := fmt.Sprintf("loaded %d", done)
			for _, fl := range faultFields(want) {
				exp += fmt.Sprintf(" %s%v", fl.Name, fl.Data)
			}
			r.Check(l == exp, "loading returned %q without reporting an error, expected %q", l, exp)
		}
	}
	r.Step(done)
	if mode == "once" || mode == "from" || mode == "retry" {
		r.Check(res.rc == 0 || res.rc == 1 || res.rc == 3, "the process ended with status %d", res.rc)
		if done < len(ops) {
			r.Check(res.rc != 0, "operation %d did not complete but nothing was reported", done)
			r.Outcome("reported")
		} else {
			r.Outcome("survived")
		}
	} else {
		r.Check(res.rc == 77, "the process ended with status %d instead of crashing", res.rc)
		r.Outcome("crashed")
	}
	q, err := sql.Open("sqlite3", "file:"+res.path+"?_sync=0")
	if err != nil {
		panic(err)
	}
	defer q.Close()
	get := func(query string) []string {
		rows, err := dbRows(q, query)
		if err != nil {
			if done == 0 && !existing && strings.Contains(err.Error(), "no such table") {
				return nil
			}
			r.Failf("%s: %v", query, err)
		}
		sort.Strings(rows)
		return rows
	}
	old := fmt.Sprint(res.id)
	has := func(rows []string, s string) int {
		n := 0
		for _, x := range rows {
			if x == s {
				n++
			}
		}
		return n
	}
	// every unit: (table rows) expected for operation i
	fields := get("SELECT name,value,positionId,timestep,simID<>" + old + " FROM fields")
	attr := get("SELECT key,value,simID<>" + old + " FROM simAttributes")
	text := get("SELECT key,value,simID<>" + old + " FROM simTextAttributes")
	series := get("SELECT key,value,timestep,simID<>" + old + " FROM timeseries")
	comments := get("SELECT value,simID<>" + old + " FROM comments")
	pos := get("SELECT id,X,Y,Z FROM positions")
	total := map[string]int{}
	twice := false // a call that reported a failure half way was repeated: what it had completed is there twice
	unit := func(what string, table string, rows []string, stored []string, mustBe int) {
		n := 0
		k0 := has(stored, rows[0])
		for _, w := range rows {
			k := has(stored, w)
			r.Check(k <= 1 || twice && k == 2 && k == k0, "%s: row %s is stored %d times", what, w, k)
			total[table] += k
			if k > 1 {
				k = 1
			}
			n += k
		}
		switch mustBe {
		case 1:
			r.Check(n == len(rows), "%s was completed but only %d of its %d rows are stored: %v", what, n, len(rows), stored)
		case 0:
			r.Check(n == 0 || n == len(rows), "%s was interrupted and %d of its %d rows are stored", what, n, len(rows))
		}
	}
	fieldUnits := func(i, ts int, other string, mustBe int) {
		for _, f := range faultFields(i) {
			rows := []string{}
			for k, v := range f.Data {
				rows = append(rows, fmt.Sprintf("%s|%s|%d|%d|%s", f.Name, cell(real(v)), k, ts, other))
			}
			unit(fmt.Sprintf("saving field %s at timestep %d", f.Name, ts), "fields", rows, fields, mustBe)
		}
	}
	if existing {
		fieldUnits(90, 0, "0", 1)
		fieldUnits(91, 3, "0", 1)
		unit("the earlier comment", "comments", []string{"before|0"}, comments, 1)
	}
	savedAny := existing
	for i, op := range ops {
		if i > done {
			break
		}
		must := 1
		if i == done {
			must = 0
		}
		what := fmt.Sprintf("operation %d (%c)", i, op)
		twice = repeated[i]
		switch op {
		case 'S':
			fieldUnits(i, i, "1", must)
			savedAny = savedAny || must == 1
		case 'C':
			unit(what, "comments", []string{fmt.Sprintf("comment%d|1", i)}, comments, must)
		case 'A':
			unit(what, "attr", []string{fmt.Sprintf("a|%d|1", i), fmt.Sprintf("b|%d|1", 100+i)}, attr, must)
		case 'X':
			unit(what, "text", []string{fmt.Sprintf("a|%d|1", i), fmt.Sprintf("b|x%d|1", i)}, text, must)
		case 'T':
			unit(what, "series", []string{fmt.Sprintf("a|%d|%d|1", i, i), fmt.Sprintf("b|%d|%d|1", 100+i, i)}, series, must)
		}
	}
	for t, rows := range map[string][]string{"fields": fields, "attr": attr, "text": text, "series": series, "comments": comments} {
		r.Check(total[t] == len(rows), "%s: %d rows stored that nobody wrote: %v", t, len(rows)-total[t], rows)
	}
	wantPos := []string{"0|0|0|0", "1|0|1|0"}
	r.Check(len(pos) == 0 && !savedAny || fmt.Sprint(pos) == fmt.Sprint(wantPos), "positions table is %v", pos)
	// everything belongs to a registered simulation
	if len(fields)+len(attr)+len(text)+len(series)+len(comments) > 0 {
		reg := get("SELECT simID FROM simIDs")
		nOld := 0
		if existing {
			nOld = 1
		}
		newData := 0
		for _, t := range [][]string{fields, attr, text, series, comments} {
			for _, row := range t {
				if strings.HasSuffix(row, "|1") {
					newData++
				}
			}
		}
		if newData > 0 {
			r.Check(len(reg) == nOld+1, "data was stored for a simulation that is not listed (%d listed)", len(reg))
		}
	}
	r.Observe(existing, ops, mode, done, res.rc, fields, attr, text, series, comments, pos)
	// the data base is usable afterwards
	fdb := &pf.FieldDB{DB: q, DomainSize: faultDims}
	fdb.SaveFields(solverOf(faultFields(70)), 9)
	id, err := dbRows(q, "SELECT DISTINCT simID FROM fields WHERE timestep=9")
	r.Check(err == nil && len(id) == 1, "a later simulation cannot store its fields: %v", err)
	n, _ := strconv.Atoi(id[0])
	back := fdb.Load(n, 9)
	want := faultFields(70)
	r.Check(len(back) == len(want), "a later simulation stored %d fields", len(back))
	for k := range back {
		for i := range back[k].Data {
			r.Check(math.Abs(real(back[k].Data[i])-real(want[k].Data[i])) == 0, "a later simulation reads %v", back[k].Data)
		}
	}
}

func databaseFaults(c *Ctx) {
	histories := []string{"S", "SS", "C", "A", "X", "T", "SCAXT", "CS"}
	if c.Thorough {
		histories = append(histories, "SSS", "TATS", "CCXX", "XSAS", "ASTS", "TTTT", "SCSC")
	}
	loads := []string{"L", "M", "LSM"}
	modes := []string{"once", "retry", "from", "crash", "crashafter"}
	c.bound("histories %v on a fresh data base and on one that holds an earlier simulation, and %v on the latter", histories, loads)
	c.bound("fault points: every call of the data base driver (prepare, execute, query, fetch row, begin, commit) x {the call fails once, the call fails once and the operation is repeated when it reports that, all calls fail from there on, process ends before the call, process ends behind the call}")
	c.assume("a commit that reports an error leaves nothing behind; SQLite itself recovers from an interrupted process (its journal is trusted)")
	type job struct {
		key, ops, mode string
		existing       bool
		at             int
		res            faultResult
	}
	jobs := []*job{}
	add := func(ops string, existing bool) {
		// number of driver calls without fault
		p := c.dbPath()
		res := runFaultChild(c, p, existing, ops, "none", 0)
		removeDB(p)
		n := 0
		for _, l := range strings.Split(res.out, "\n") {
			if strings.HasPrefix(l, "ops ") {
				fmt.Sscan(l[4:], &n)
			}
		}
		if n == 0 {
			c.Case("nofault/"+ops, func(r *Run) { r.Failf("history without faults ended with status %d: %s", res.rc, res.out) })
			return
		}
		for _, m := range modes {
			for k := 1; k <= n; k++ {
				jobs = append(jobs, &job{key: fmt.Sprintf("%s/existing=%v/%s@%d", ops, existing, m, k), ops: ops, mode: m, existing: existing, at: k})
			}
		}
	}
	for _, h := range histories {
		add(h, false)
		add(h, true)
	}
	for _, h := range loads {
		add(h, true)
	}
	// run the child processes in parallel
	var wg sync.WaitGroup
	ch := make(chan *job)
	if c.only == "" {
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					j.res = runFaultChild(c, j.res.path, j.existing, j.ops, j.mode, j.at)
				}
			}()
		}
		for _, j := range jobs {
			j.res.path = c.dbPath()
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	for _, j := range jobs {
		j := j
		c.Case(j.key, func(r *Run) {
			res := j.res
			j.res = faultResult{}
			if res.path == "" {
				res = runFaultChild(c, c.dbPath(), j.existing, j.ops, j.mode, j.at)
			}
			checkFault(c, r, res, j.existing, j.ops, j.mode)
		})
	}
}
