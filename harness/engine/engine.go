// Package engine runs the generated-input checks: it drives every facet of a
// property with rapid, keeps the case being run where a crash can't destroy it,
// records what was covered and writes down the smallest failing case.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what a case covered.
type Rec struct {
	labels     map[string]bool
	nontrivial bool
	// T is the test the case runs in, needed for virtual time
	T *testing.T
}

// Label counts the case in the class.
func (r *Rec) Label(format string, a ...any) { r.labels[fmt.Sprintf(format, a...)] = true }

// LabelIf counts the case in the class if the condition holds.
func (r *Rec) LabelIf(cond bool, label string) {
	if cond {
		r.labels[label] = true
	}
}

// Hit marks the case as non-trivial if the condition holds.
func (r *Rec) Hit(cond bool) {
	if cond {
		r.nontrivial = true
	}
}

// NewRec returns a record for a part of a case.
func NewRec(t *testing.T) *Rec { return &Rec{labels: map[string]bool{}, T: t} }

// Merge adds what a part of the case covered.
func (r *Rec) Merge(x *Rec) {
	for l := range x.labels {
		r.labels[l] = true
	}
	r.nontrivial = r.nontrivial || x.nontrivial
}

// Facet is one generated-input check of a property.
type Facet struct {
	Prop, Name string
	// Rule says when a case counts as non-trivial
	Rule string
	// Quick and Thorough are the numbers of cases of the tiers
	Quick, Thorough int
	// Realtime is set if the outcome may depend on the speed of the machine, a
	// failure has to be seen again then
	Realtime bool
	// Single is set if the facet must not run in several processes at once
	Single bool
	// Limit is the longest a case may take before it counts as hanging
	Limit time.Duration

	gen    func(*rapid.T) any
	run    func(*Rec, any) error
	decode func([]byte) (any, error)
}

var facets []*Facet

// Opt changes a facet.
type Opt func(*Facet)

// Realtime marks facets whose outcome may depend on the speed of the machine.
func Realtime(f *Facet) { f.Realtime = true }

// Single marks facets that don't run in parallel processes.
func Single(f *Facet) { f.Single = true }

// Limit sets the longest time a case may take.
func Limit(d time.Duration) Opt { return func(f *Facet) { f.Limit = d } }

// Add registers a facet.
func Add[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Rec, C) error, opts ...Opt) {
	f := &Facet{
		Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough, Limit: 20 * time.Second,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(r *Rec, c any) error { return run(r, c.(C)) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
	for _, o := range opts {
		o(f)
	}
	facets = append(facets, f)
}

// Bubble runs f with virtual time. A deadlock and goroutines that never end are
// errors, so is a panic of f itself.
func Bubble(r *Rec, f func() error) (err error) {
	var inner error
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if inner != nil {
				err = inner
			} else if strings.Contains(s, "main bubble goroutine has exited") {
				err = fmt.Errorf("goroutines are left blocked forever after everything was closed: %s\n%s", s, blockedStacks())
			} else if strings.Contains(s, "deadlock") {
				err = fmt.Errorf("everything is blocked forever: %s\n%s", s, blockedStacks())
			} else {
				err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
			}
		}
	}()
	synctest.Test(r.T, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				inner = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
			}
		}()
		inner = f()
	})
	return inner
}

// blockedStacks returns the stacks of goroutines that are inside the repository.
func blockedStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/NubeDev/bacnet") && strings.Contains(g, "synctest bubble") {
			out = append(out, g)
		}
		if len(out) == 3 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

// FacetStats is what a facet covered in one process.
type FacetStats struct {
	Facet       string         `json:"facet"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	WallS       float64        `json:"wall_s"`
	TimedOut    bool           `json:"timed_out"`
}

// Failure is a violation with its smallest known case.
type Failure struct {
	Facet    string          `json:"facet"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Realtime bool            `json:"realtime"`
}

// Result is the outcome of one process.
type Result struct {
	Done     bool          `json:"done"`
	Stats    []*FacetStats `json:"stats"`
	Failures []*Failure    `json:"failures"`
	Hang     string        `json:"hang,omitempty"`
	Facets   []FacetInfo   `json:"facets,omitempty"`
}

// FacetInfo describes a facet to the driver.
type FacetInfo struct {
	Name     string `json:"name"`
	Single   bool   `json:"single"`
	Realtime bool   `json:"realtime"`
}

// scale multiplies the numbers of cases of facets that are cheap.
const scale = 5

const currentSize = 4 << 20

var (
	current   []byte
	caseStart atomic.Int64
	caseLimit atomic.Int64
	caseMem   atomic.Int64
)

func mapCurrent(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(currentSize); err != nil {
		panic(err)
	}
	current, err = syscall.Mmap(int(f.Fd()), 0, currentSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
}

// keep writes down the case that runs now, so that it isn't lost in a crash.
func keep(facet string, c []byte) {
	if current == nil {
		return
	}
	b := fmt.Appendf(nil, `{"facet":%q,"case":`, facet)
	if len(b)+len(c)+2 > len(current) {
		return
	}
	n := copy(current, b)
	n += copy(current[n:], c)
	current[n] = '}'
	current[n+1] = 0
}

func envInt(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// knownCases are the failing cases that are recorded as findings, they are not
// violations.
var knownCases = func() map[string]bool {
	m := map[string]bool{}
	var l []struct {
		Facet string
		Case  json.RawMessage
	}
	if b, err := os.ReadFile(os.Getenv("VERIF_KNOWN")); err == nil && len(b) > 0 {
		if err := json.Unmarshal(b, &l); err != nil {
			panic(err)
		}
	}
	for _, k := range l {
		m[k.Facet+"\x00"+canonical(k.Case)] = true
	}
	return m
}()

// canonical is a JSON text in one form.
func canonical(b []byte) string {
	var x any
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	o, _ := json.Marshal(x)
	return string(o)
}

func (f *Facet) execute(t *testing.T, c any, raw []byte) (r *Rec, err error) {
	r = NewRec(t)
	if len(knownCases) > 0 {
		defer func() {
			if err != nil && knownCases[f.Name+"\x00"+canonical(raw)] {
				r.Label("recorded finding")
				err = nil
			}
		}()
	}
	keep(f.Name, raw)
	caseLimit.Store(int64(f.Limit))
	caseStart.Store(time.Now().UnixNano())
	defer func() {
		caseStart.Store(0)
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, trim(string(debug.Stack())))
		}
	}()
	return r, f.run(r, c)
}

func trim(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

// Main runs what the environment asks for.
func Main(t *testing.T) {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		t.Skip("run through check.py")
	}
	res := &Result{}
	write := func() {
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
			panic(err)
		}
		os.Rename(out+".tmp", out)
	}
	go watchdog(res, write)

	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		replay(t, p, res)
		res.Done = true
		write()
		return
	}
	prop := os.Getenv("VERIF_PROP")
	var mine []*Facet
	for _, f := range facets {
		if f.Prop == prop {
			mine = append(mine, f)
			res.Facets = append(res.Facets, FacetInfo{f.Name, f.Single, f.Realtime})
		}
	}
	if len(mine) == 0 {
		panic("no facets for " + prop)
	}
	if os.Getenv("VERIF_LIST") != "" {
		res.Done = true
		write()
		return
	}
	if p := os.Getenv("VERIF_CURRENT"); p != "" {
		mapCurrent(p)
	}
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	for _, f := range mine {
		if only := os.Getenv("VERIF_FACET"); only != "" && only != f.Name {
			continue
		}
		if f.Single && shard != 0 {
			continue
		}
		st, fail := f.drive(t, shard, shards)
		res.Stats = append(res.Stats, st)
		if fail != nil {
			res.Failures = append(res.Failures, fail)
		}
	}
	res.Done = true
	write()
}

// drive generates and runs the cases of the facet that belong to the shard.
func (f *Facet) drive(t *testing.T, shard, shards int) (*FacetStats, *Failure) {
	n := f.Quick
	budget := time.Duration(envInt("VERIF_FACET_BUDGET_S", 240)) * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = f.Thorough
	}
	if !f.Realtime {
		n *= scale
	}
	if !f.Single {
		n = (n + shards - 1) / shards
	}
	st := &FacetStats{Facet: f.Name, Rule: f.Rule, Labels: map[string]int{}}
	hashes := map[uint64]bool{}
	var fail *Failure
	shrinkUntil := time.Time{}
	start := time.Now()
	seed := uint64(envInt("VERIF_SEED", 1))
	const chunk = 500
	for i := 0; st.Evaluations < n && fail == nil; i++ {
		if time.Since(start) > budget {
			st.TimedOut = true
			break
		}
		s := hash(fmt.Appendf(nil, "%d/%s/%s/%d/%d", seed, f.Prop, f.Name, shard, i))
		if s == 0 {
			s = 1
		}
		setFlag("rapid.seed", strconv.FormatUint(s, 10))
		setFlag("rapid.checks", strconv.Itoa(min(chunk, n-st.Evaluations)))
		setFlag("rapid.nofailfile", "true")
		setFlag("rapid.shrinktime", "20s")
		t.Run("x", func(t *testing.T) {
			defer func() {
				// A failing bubble must not take the results with it
				if p := recover(); p != nil {
					if fail == nil {
						panic(p)
					}
				}
			}()
			rapid.Check(t, func(rt *rapid.T) {
				c := f.gen(rt)
				raw, err := json.Marshal(c)
				if err != nil {
					panic(fmt.Sprintf("case can't be written down: %v", err))
				}
				if fail != nil && time.Now().After(shrinkUntil) {
					return
				}
				r, err := f.execute(t, c, raw)
				if fail == nil {
					st.Evaluations++
					for l := range r.labels {
						st.Labels[l]++
					}
					if r.nontrivial {
						st.Nontrivial++
						if len(hashes) < 1<<20 {
							h := hash(raw)
							if !hashes[h] {
								hashes[h] = true
								if len(st.Samples) < 3 && len(raw) < 4000 || len(st.Samples) < 5 && len(hashes)%97 == 0 && len(raw) < 4000 {
									st.Samples = append(st.Samples, json.RawMessage(raw))
								}
							}
						}
					}
				}
				if err != nil {
					if fail == nil {
						shrinkUntil = time.Now().Add(25 * time.Second)
						if os.Getenv("VERIF_TIER") == "thorough" {
							shrinkUntil = time.Now().Add(60 * time.Second)
						}
					}
					fail = &Failure{Facet: f.Name, Case: raw, Message: err.Error(), Realtime: f.Realtime}
					rt.Fatalf("violation")
				}
			})
		})
	}
	for h := range hashes {
		st.Hashes = append(st.Hashes, strconv.FormatUint(h, 16))
	}
	sort.Strings(st.Hashes)
	st.WallS = time.Since(start).Seconds()
	return st, fail
}

// replay runs the case of the file, several times if asked to.
func replay(t *testing.T, path string, res *Result) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var in struct {
		Property, Facet string
		Case            json.RawMessage
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	for _, f := range facets {
		if f.Prop != in.Property || f.Name != in.Facet {
			continue
		}
		c, err := f.decode(in.Case)
		if err != nil {
			panic(err)
		}
		for i := 0; i < envInt("VERIF_REPEAT", 1); i++ {
			t.Run("x", func(t *testing.T) {
				_, err = f.execute(t, c, in.Case)
			})
			if err != nil {
				res.Failures = append(res.Failures, &Failure{Facet: f.Name, Case: in.Case, Message: err.Error(), Realtime: f.Realtime})
				return
			}
		}
		return
	}
	panic("no such facet")
}

// watchdog ends the process if a case hangs or uses up the memory.
func watchdog(res *Result, write func()) {
	for {
		time.Sleep(200 * time.Millisecond)
		s := caseStart.Load()
		if s == 0 {
			continue
		}
		over := time.Now().UnixNano()-s > caseLimit.Load()
		var m runtime.MemStats
		if !over {
			runtime.ReadMemStats(&m)
			over = m.HeapAlloc > 6<<30
		}
		if over && caseStart.Load() == s {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			res.Hang = trim(pickRepo(string(buf)))
			if m.HeapAlloc > 6<<30 {
				res.Hang = "memory exhausted\n" + res.Hang
			}
			write()
			os.Exit(3)
		}
	}
}

func pickRepo(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "github.com/NubeDev/bacnet") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}
