// Package main is the model-checking harness for chainguard-dev/go-apk.
// It is compiled into the /repo module through a build overlay (see run.py).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// check is one property's decision procedure.
type check struct {
	run func(c *C)
	// what the evidence says about how cases are made
	rule        string
	level       string
	assumptions []string
}

var checks = map[string]check{}

func register(id string, ch check) { checks[id] = ch }

// violation is one observed break of the property.
type violation struct {
	Case string `json:"case"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
}

// C is the context of one check run.
type C struct {
	Prop     string
	Tier     string
	Seed     int64
	Scratch  string
	only     string
	deadline time.Time
	verbose  bool

	evals, nontriv, trans, traces atomic.Int64
	stateShards                   [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}

	mu         sync.Mutex
	known      map[string]string
	knownHit   map[string]bool
	viols      []violation
	violKeys   map[string]bool
	unrepro    []violation
	samples    []any
	notes      map[string]any
	capped     atomic.Bool
	cappedWhy  string
	stop       atomic.Bool
	cases      atomic.Int64
	running    sync.Map // worker -> *caseState
	caseSeq    atomic.Int64
	outcomes   map[string]int64
	assumption []string
}

// T is the context of one case (an outer unit of enumeration).
type T struct {
	*C
	id    string
	viols []violation
	dir   string
	last  *atomic.Int64
	rerun bool

	maxExec int // of schedules in one part, 0 for no limit
}

type caseState struct {
	id   string
	last atomic.Int64
}

// Thorough reports whether the deep tier was asked for.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func (c *C) Pick(q, th int) int {
	if c.Thorough() {
		return th
	}
	return q
}

// Expired reports whether exploration should stop.
func (c *C) Expired() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.Cap("time limit")
		return true
	}
	return false
}

// Cap notes that the enumeration was cut.
func (c *C) Cap(why string) {
	if c.capped.CompareAndSwap(false, true) {
		c.mu.Lock()
		c.cappedWhy = why
		c.mu.Unlock()
	}
}

// Sample records up to a few actual cases for the evidence file.
func (c *C) Sample(s any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Note stores an extra coverage value.
func (c *C) Note(k string, v any) {
	c.mu.Lock()
	c.notes[k] = v
	c.mu.Unlock()
}

// NoteMax stores the maximum of an integer note.
func (c *C) NoteMax(k string, v int64) {
	c.mu.Lock()
	if o, ok := c.notes[k].(int64); !ok || v > o {
		c.notes[k] = v
	}
	c.mu.Unlock()
}

// NoteAdd adds to an integer note.
func (c *C) NoteAdd(k string, v int64) {
	c.mu.Lock()
	o, _ := c.notes[k].(int64)
	c.notes[k] = o + v
	c.mu.Unlock()
}

// Outcome counts distinct observed outcomes.
func (c *C) Outcome(o string) {
	c.mu.Lock()
	if len(c.outcomes) < 100000 || c.outcomes[o] > 0 {
		c.outcomes[o]++
	}
	c.mu.Unlock()
}

// Eval counts evaluated cases; nontrivial those satisfying the rule.
func (c *C) Eval(nontrivial bool) {
	c.evals.Add(1)
	if nontrivial {
		c.nontriv.Add(1)
	}
}

// Trans counts transitions (operations executed and compared).
func (c *C) Trans(n int) { c.trans.Add(int64(n)) }

// Trace counts implementation executions compared with a model/oracle.
func (c *C) Trace(n int) { c.traces.Add(int64(n)) }

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State counts distinct states; it returns true if the state was new.
func (c *C) State(s string) bool {
	h := hashStr(s)
	sh := &c.stateShards[h%64]
	sh.Lock()
	defer sh.Unlock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	if _, ok := sh.m[h]; ok {
		return false
	}
	sh.m[h] = struct{}{}
	return true
}

func (c *C) nStates() int64 {
	n := int64(0)
	for i := range c.stateShards {
		n += int64(len(c.stateShards[i].m))
	}
	return n
}

// Fail records a violation of the property in this case. key identifies the specific
// failing input or history (stable across runs).
func (t *T) Fail(key, format string, args ...any) {
	t.viols = append(t.viols, violation{Case: t.id, Key: cleanKey(key), Msg: fmt.Sprintf(format, args...)})
}

// Tick tells the watchdog that the case is making progress.
func (t *T) Tick() { t.last.Store(time.Now().UnixNano()) }

// Dir gives a fresh scratch directory for the case, removed afterwards.
func (t *T) Dir() string {
	if t.dir == "" {
		t.dir = filepath.Join(t.Scratch, fmt.Sprintf("c%d", t.caseSeq.Add(1)))
		must(os.MkdirAll(t.dir, 0o755))
	}
	return t.dir
}

func cleanKey(k string) string {
	var b strings.Builder
	for _, r := range k {
		if r <= ' ' || r == '%' || r > 126 {
			fmt.Fprintf(&b, "%%%02x", r)
		} else {
			b.WriteRune(r)
		}
	}
	s := b.String()
	if len(s) > 300 {
		s = s[:260] + fmt.Sprintf("~%016x", hashStr(s))
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func must1[V any](v V, err error) V {
	must(err)
	return v
}

// kase is one unit of work.
type kase struct {
	id string
	f  func(t *T)
}

// Run executes the cases gen produces on all cores (simplest first order is the generator's).
func (c *C) Run(gen func(emit func(id string, f func(t *T)))) { c.RunN(runtime.GOMAXPROCS(0), gen) }

// RunN is Run with an explicit number of workers.
func (c *C) RunN(n int, gen func(emit func(id string, f func(t *T)))) {
	if shardN > 0 {
		n = 1
	}
	seq := 0
	ch := make(chan kase, 4*n)
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := range ch {
				if c.Expired() {
					continue
				}
				c.one(w, k)
			}
		}(w)
	}
	var all []kase
	gen(func(id string, f func(t *T)) {
		if c.only != "" && c.only != id {
			return
		}
		if seq++; shardN > 0 && seq%shardN != shardI && c.only == "" {
			return
		}
		if n == 1 {
			if !c.Expired() {
				ch <- kase{id, f}
			}
			return
		}
		all = append(all, kase{id, f})
	})
	for _, i := range spread(len(all)) {
		if c.Expired() {
			break
		}
		ch <- all[i]
	}
	close(ch)
	wg.Wait()
}

// spread orders n cases such that every part of the run sees all kinds of them, the first ones first.
func spread(n int) []int {
	step := max(1, int(float64(n)*0.618))
	for gcd(step, n) > 1 {
		step++
	}
	var l []int
	for i, at := 0, 0; i < n; i, at = i+1, (at+step)%n {
		l = append(l, at)
	}
	return l
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (c *C) exec(w int, k kase, rerun bool) []violation {
	cs := &caseState{id: k.id}
	cs.last.Store(time.Now().UnixNano())
	c.running.Store(cs, true)
	defer c.running.Delete(cs)
	t := &T{C: c, id: k.id, last: &cs.last, rerun: rerun}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
					fmt.Fprintf(os.Stderr, "HARNESS-ERROR case %s: %v\n%s\n", k.id, r, st)
					os.Exit(3)
				}
				t.Fail("panic:"+k.id, "panic: %v\n%s", r, trimStack(st))
			}
		}()
		k.f(t)
	}()
	if t.dir != "" {
		chmodTree(t.dir)
		os.RemoveAll(t.dir)
	}
	return t.viols
}

func chmodTree(d string) {
	filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
		if e != nil && e.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func (c *C) one(w int, k kase) {
	c.cases.Add(1)
	viols := c.exec(w, k, false)
	if len(viols) == 0 {
		return
	}
	var fresh []violation
	for _, v := range viols {
		c.mu.Lock()
		if _, ok := c.known[v.Key]; ok {
			c.knownHit[v.Key] = true
			c.mu.Unlock()
			continue
		}
		dup := c.violKeys[v.Key]
		c.mu.Unlock()
		if !dup {
			fresh = append(fresh, v)
		}
	}
	if len(fresh) == 0 {
		return
	}
	// Confirm: the same key must come up again when the case is run again.
	seen := map[string]int{}
	for i := 0; i < 4; i++ {
		for _, v := range c.exec(w, k, true) {
			seen[v.Key]++
		}
	}
	c.mu.Lock()
	for _, v := range fresh {
		if seen[v.Key] == 0 {
			c.unrepro = append(c.unrepro, v)
			continue
		}
		if c.violKeys[v.Key] {
			continue
		}
		c.violKeys[v.Key] = true
		c.viols = append(c.viols, v)
	}
	n := len(c.viols)
	c.mu.Unlock()
	if n >= maxViol {
		c.stop.Store(true)
	}
}

var (
	maxViol        = 25
	shardI, shardN int
)

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)})))
	var (
		prop     = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "tier")
		seed     = flag.Int64("seed", 1, "seed")
		scratch  = flag.String("scratch", "", "scratch directory")
		out      = flag.String("out", "", "result file")
		knownF   = flag.String("known", "", "known findings file")
		only     = flag.String("case", "", "replay only this case")
		limit    = flag.Duration("limit", 200*time.Second, "time limit")
		hang     = flag.Duration("hang", 150*time.Second, "watchdog")
		maxv     = flag.Int("maxviol", 25, "stop after this many violations")
		list     = flag.Bool("list", false, "list properties")
		shard    = flag.String("shard", "", "i/n: run one case at a time, and only every n-th")
		child    = flag.String("child", "", "run as helper process")
		verboseF = flag.Bool("v", false, "verbose")
	)
	flag.Parse()
	if *child != "" {
		runChild(*child, flag.Args())
		return
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *shard != "" {
		must1(fmt.Sscanf(*shard, "%d/%d", &shardI, &shardN))
	}
	ch, ok := checks[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(3)
	}
	maxViol = *maxv
	debug.SetGCPercent(200)
	c := &C{Prop: *prop, Tier: *tier, Seed: *seed, Scratch: *scratch, only: *only, verbose: *verboseF,
		deadline: time.Now().Add(*limit), known: map[string]string{}, knownHit: map[string]bool{},
		violKeys: map[string]bool{}, notes: map[string]any{}, outcomes: map[string]int64{}}
	if c.Scratch == "" {
		c.Scratch = must1(os.MkdirTemp("", "mc"))
	}
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.Fields(l)
				if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+*prop && strings.HasPrefix(f[2], "key=") {
					c.known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
				}
			}
		}
	}
	start := time.Now()
	writeOut := func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		type knownOut struct{ Key, What string }
		var ks []knownOut
		for k := range c.knownHit {
			ks = append(ks, knownOut{k, c.known[k]})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Key < ks[j].Key })
		cov := map[string]any{
			"exhaustive": !c.capped.Load(), "rule": ch.rule, "samples": c.samples, "cases": c.cases.Load(),
		}
		if len(c.samples) == 0 {
			cov["samples"] = []any{}
		}
		if c.evals.Load() > 0 {
			cov["evaluations"] = c.evals.Load()
			cov["distinct_nontrivial"] = c.nontriv.Load()
		}
		cov["states"] = c.nStates()
		if c.nStates() == 0 {
			// every evaluated input is distinct by construction of the enumeration
			cov["states"] = c.evals.Load()
		}
		cov["transitions"] = c.trans.Load()
		cov["traces_validated_against_impl"] = c.traces.Load()
		if len(c.outcomes) > 0 {
			cov["distinct_outcomes"] = len(c.outcomes)
		}
		if c.cappedWhy != "" {
			cov["capped"] = c.cappedWhy
		}
		for k, v := range c.notes {
			cov[k] = v
		}
		if len(c.unrepro) > 0 {
			cov["unreproduced"] = c.unrepro
		}
		res := map[string]any{
			"evidence": map[string]any{
				"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": ch.level, "coverage": cov,
				"assumptions": append(append([]string{}, ch.assumptions...), c.assumption...),
				"wall_s":      time.Since(start).Seconds(), "violations": len(c.viols),
			},
			"violations": c.viols, "known": ks,
		}
		b := must1(json.MarshalIndent(res, "", " "))
		if *out != "" {
			must(os.WriteFile(*out, b, 0o644))
		} else {
			fmt.Println(string(b))
		}
	}
	go func() {
		for range time.Tick(time.Second) {
			now := time.Now().UnixNano()
			c.running.Range(func(k, _ any) bool {
				cs := k.(*caseState)
				if time.Duration(now-cs.last.Load()) > *hang {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					c.mu.Lock()
					c.viols = append(c.viols, violation{Case: cs.id, Key: cleanKey("hang:" + cs.id), Msg: "case made no progress for " + hang.String() + "\n" + string(buf)})
					c.mu.Unlock()
					writeOut()
					os.Exit(0)
				}
				return true
			})
		}
	}()
	ch.run(c)
	writeOut()
}

// children holds helper-process entry points.
var children = map[string]func(args []string){}

func runChild(name string, args []string) {
	f, ok := children[name]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown child %q\n", name)
		os.Exit(3)
	}
	f(args)
}
