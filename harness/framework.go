// Package main is the bounded exhaustive explorer used by every check in
// /verif. It is injected into the gopf module with a build overlay and uses
// only the exported API of the packages under test, so that refactorings of
// unexported code cannot break it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Ctx collects the counters of one exploration
type Ctx struct {
	Prop     string
	Thorough bool // the wide bounds, also in the quick tier of properties whose exploration is fast
	Deep     bool // the thorough tier
	Seed     int

	executions  int64               // complete executions of real code compared with the oracle
	transitions int64               // operations performed on real code
	states      map[uint64]struct{} // distinct observed states (hash of canonical observation)
	outcomes    map[string]int64    // classes of observed behaviour
	samples     []string
	nextSample  int64
	bounds      []string
	assumptions []string
	capped      bool
	start       time.Time
	deadline    time.Time

	violations []violation
	known      map[string]string
	knownList  []knownFinding
	scratch    string
	only       string // replay a single case key
	faults     int64  // injected faults / crash points

	active      string // key of the running case (for panics outside of closures)
	activeFile  *os.File
	activeSince int64 // unix seconds, 0 if no case is running (accessed atomically)
}

type violation struct {
	Key    string `json:"case"`
	Detail string `json:"detail"`
	Runs   string `json:"runs"`
}

type knownFinding struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Detail   string `json:"detail,omitempty"` // the failure itself: a different failure of the same case is a violation
	Status   string `json:"status"`           // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

// Run is handed to a case: it lets the case report transitions and observations
type Run struct {
	c    *Ctx
	dry  bool
	fail string
}

// Step counts n operations on the real code
func (r *Run) Step(n int) {
	if !r.dry {
		r.c.transitions += int64(n)
	}
}

// Fault counts an injected fault
func (r *Run) Fault(n int) {
	if !r.dry {
		r.c.faults += int64(n)
	}
}

// Observe registers an observed state of the implementation (canonical text)
func (r *Run) Observe(parts ...interface{}) {
	if r.dry {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	r.c.states[h.Sum64()] = struct{}{}
}

// ObserveF registers a state consisting of numbers, rounded so that noise in
// the last digits does not create artificial states
func (r *Run) ObserveF(tag string, x []float64) {
	if r.dry {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(tag))
	for _, v := range x {
		s := strconv.FormatFloat(v, 'e', 6, 64)
		if math.Abs(v) < 1e-9 {
			s = "0"
		}
		h.Write([]byte(s))
		h.Write([]byte{'|'})
	}
	r.c.states[h.Sum64()] = struct{}{}
}

// ObserveC is ObserveF for complex data
func (r *Run) ObserveC(tag string, x []complex128) {
	if r.dry {
		return
	}
	f := make([]float64, 2*len(x))
	for i := range x {
		f[2*i], f[2*i+1] = real(x[i]), imag(x[i])
	}
	r.ObserveF(tag, f)
}

// Outcome counts a class of behaviour
func (r *Run) Outcome(s string) {
	if !r.dry {
		r.c.outcomes[s]++
	}
}

type caseFailure struct{ msg string }

// Failf aborts the case: the property does not hold on it
func (r *Run) Failf(format string, args ...interface{}) {
	panic(caseFailure{fmt.Sprintf(format, args...)})
}

// Check fails the case if ok is false
func (r *Run) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		r.Failf(format, args...)
	}
}

func (c *Ctx) attempt(f func(r *Run), dry bool) (msg string) {
	r := &Run{c: c, dry: dry}
	defer func() {
		if e := recover(); e != nil {
			if cf, ok := e.(caseFailure); ok {
				msg = cf.msg
				return
			}
			msg = fmt.Sprintf("unexpected panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	f(r)
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

// Expired is true when the internal time budget is exhausted
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.capped = true
		return true
	}
	return false
}

const maxViolations = 20

// Case runs one execution of the exploration. key identifies it (replayable), f
// drives the real code and compares with the oracle.
func (c *Ctx) Case(key string, f func(r *Run)) {
	if c.only != "" && c.only != key {
		return
	}
	if len(c.violations) >= maxViolations || c.Expired() {
		return
	}
	c.active = key
	if c.activeFile != nil {
		b := append([]byte(key), '\n')
		c.activeFile.Truncate(int64(len(b)))
		c.activeFile.WriteAt(b, 0)
	}
	atomic.StoreInt64(&c.activeSince, time.Now().Unix())
	defer atomic.StoreInt64(&c.activeSince, 0)
	c.executions++
	if c.executions >= c.nextSample && len(c.samples) < 12 {
		c.samples = append(c.samples, key)
		c.nextSample = c.executions*3 + 1
	}
	msg := c.attempt(f, false)
	if msg == "" {
		return
	}
	// Re-run: the same case must fail every time before it is believed
	failed := 1
	const reruns = 4
	for i := 0; i < reruns; i++ {
		if m := c.attempt(f, true); m != "" {
			failed++
		}
	}
	if failed < 2 {
		c.assume("a failure of case " + key + " did not reproduce in 4 re-runs and was discarded: " + firstLine(msg))
		return
	}
	for _, k := range c.knownList {
		if k.Property == c.Prop && k.Status == "known" && k.Case == key && strings.Contains(msg, k.Detail) {
			c.known[key] = k.What
			return
		}
	}
	c.violations = append(c.violations, violation{Key: key, Detail: msg, Runs: fmt.Sprintf("%d of %d", failed, reruns+1)})
}

func firstLine(s string) string {
	return strings.SplitN(s, "\n", 2)[0]
}

func (c *Ctx) bound(format string, args ...interface{}) {
	c.bounds = append(c.bounds, fmt.Sprintf(format, args...))
}

func (c *Ctx) assume(format string, args ...interface{}) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	c.assumptions = append(c.assumptions, format)
}

type check struct {
	level string
	run   func(c *Ctx)
}

var checks = map[string]check{}

func register(id, level string, f func(c *Ctx)) {
	checks[id] = check{level, f}
}

// slow lists the properties whose quick tier uses smaller bounds than the thorough one
var slow = map[string]bool{"T01": true, "T02": true, "C01": true, "C02": true, "C03": true, "P02": true}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		childMain(os.Args[2:])
		return
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed (no random choice depends on it, enumeration is exhaustive)")
	evidence := flag.String("evidence", "", "evidence file")
	replayDir := flag.String("replay-dir", "", "directory for replay files")
	knownFile := flag.String("known", "", "known findings")
	only := flag.String("case", "", "replay one case")
	scratch := flag.String("scratch", "", "scratch directory")
	budget := flag.Int("budget", 600, "internal time budget in seconds")
	flag.Parse()

	log.SetOutput(ioutil.Discard)

	chk, ok := checks[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", *prop)
		os.Exit(2)
	}
	c := &Ctx{
		Prop: *prop, Thorough: *tier == "thorough" || !slow[*prop], Deep: *tier == "thorough", Seed: *seed,
		states: map[uint64]struct{}{}, outcomes: map[string]int64{}, known: map[string]string{},
		start: time.Now(), only: *only, scratch: *scratch,
	}
	c.deadline = c.start.Add(time.Duration(*budget) * time.Second)
	if *knownFile != "" {
		data, err := ioutil.ReadFile(*knownFile)
		if err == nil {
			if err := json.Unmarshal(data, &c.knownList); err != nil {
				fmt.Fprintf(os.Stderr, "known findings: %v\n", err)
				os.Exit(2)
			}
		}
	}

	// The library prints to stdout in places: keep stdout for our protocol
	realStdout := os.Stdout
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = devnull
	}

	// A stub is written first so that a library call that ends the process (log.Fatal)
	// still leaves a rewritten evidence file behind; check.sh reports such an ending.
	if *evidence != "" {
		writeEvidence(c, chk.level, *tier, *evidence)
	}
	if c.scratch != "" {
		c.activeFile, _ = os.Create(filepath.Join(c.scratch, "..", "active"))
	}

	// Watchdog: one case normally takes milliseconds. A case that does not end within
	// caseLimit is reported as non-terminating.
	go func() {
		for {
			time.Sleep(2 * time.Second)
			since := atomic.LoadInt64(&c.activeSince)
			if since != 0 && time.Now().Unix()-since > caseLimit {
				os.Stdout = realStdout
				c.violations = append(c.violations, violation{Key: c.active, Detail: fmt.Sprintf("did not terminate within %d s", caseLimit), Runs: "1 of 1"})
				finish(c, chk.level, *tier, *evidence, *replayDir)
			}
		}
	}()

	func() {
		defer func() {
			if e := recover(); e != nil {
				// A panic outside of a case is treated as a failure of the exploration
				// driver's own calls into the library
				c.violations = append(c.violations, violation{
					Key:    "driver:" + c.active,
					Detail: fmt.Sprintf("panic outside of a case: %v\n%s", e, trimStack(string(debug.Stack()))),
				})
			}
		}()
		chk.run(c)
	}()

	os.Stdout = realStdout
	finish(c, chk.level, *tier, *evidence, *replayDir)
}

// caseLimit is the number of seconds after which a single case counts as non-terminating
const caseLimit = 300

func (c *Ctx) knownKeys() []string {
	keys := []string{}
	for k := range c.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func writeEvidence(c *Ctx, level, tier, evidence string) {
	wall := time.Since(c.start).Seconds()
	keys := c.knownKeys()
	cov := map[string]interface{}{
		"states":                        len(c.states),
		"transitions":                   c.transitions,
		"traces_validated_against_impl": c.executions,
		"samples":                       c.samples,
		"exhaustive":                    !c.capped && len(c.violations) == 0 && c.only == "",
		"bounds":                        c.bounds,
		"observed_outcome_classes":      c.outcomes,
		"rule":                          "every combination of the listed bounds is executed once on the real code and compared with an independent reference; states counts distinct canonical observations of the implementation (so repeated or trivial outcomes are merged), transitions counts operations performed on the real code",
	}
	if level == "fault_enumeration" {
		cov = map[string]interface{}{
			"evaluations":              c.executions,
			"distinct_nontrivial":      len(c.states),
			"rule":                     "every fault/crash point of every listed history is executed once on the real code; non-trivial = leaves a distinct observable state after the fault",
			"samples":                  c.samples,
			"exhaustive":               !c.capped && len(c.violations) == 0 && c.only == "",
			"bounds":                   c.bounds,
			"faults_injected":          c.faults,
			"operations":               c.transitions,
			"observed_outcome_classes": c.outcomes,
		}
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": tier, "seed": c.Seed, "level": level,
		"coverage": cov, "wall_s": math.Round(wall*1000) / 1000,
		"assumptions":    append([]string{}, c.assumptions...),
		"violations":     len(c.violations),
		"known_findings": keys,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evidence), 0755)
	if err := ioutil.WriteFile(evidence, append(data, '\n'), 0644); err != nil {
		fmt.Fprintf(os.Stderr, "cannot write evidence: %v\n", err)
		os.Exit(2)
	}
}

func finish(c *Ctx, level, tier, evidence, replayDir string) {
	for _, k := range c.knownKeys() {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.Prop, c.known[k], k)
	}
	if evidence != "" {
		writeEvidence(c, level, tier, evidence)
	}
	wall := time.Since(c.start).Seconds()
	fmt.Printf("property=%s tier=%s executions=%d states=%d transitions=%d faults=%d exhaustive=%v wall=%.1fs\n",
		c.Prop, tier, c.executions, len(c.states), c.transitions, c.faults, !c.capped, wall)
	fmt.Println("DONE")
	if len(c.violations) == 0 {
		os.Exit(0)
	}
	replay := ""
	if replayDir != "" {
		os.MkdirAll(replayDir, 0755)
		replay = filepath.Join(replayDir, c.Prop+".json")
		data, _ := json.MarshalIndent(map[string]interface{}{
			"property":   c.Prop,
			"replay_cmd": fmt.Sprintf("cd /verif && ./check.sh %s %s -case '%s'", c.Prop, tier, c.violations[0].Key),
			"violations": c.violations,
		}, "", " ")
		ioutil.WriteFile(replay, append(data, '\n'), 0644)
	}
	for i, v := range c.violations {
		if i >= 5 {
			fmt.Printf("  ... %d further violations in the replay file\n", len(c.violations)-5)
			break
		}
		fmt.Printf("  case: %s\n  detail: %s\n", v.Key, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	os.Exit(1)
}

var children = map[string]func(args []string){}

func childMain(args []string) {
	if len(args) == 0 {
		os.Exit(2)
	}
	f, ok := children[args[0]]
	if !ok {
		os.Exit(2)
	}
	f(args[1:])
}
