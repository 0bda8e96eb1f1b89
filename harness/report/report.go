// Package report is how a harness process tells the runner what its monitors
// observed: counts, distinct behaviours, samples, and violations with a witness.
package report

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one shard of one check.
type Run struct {
	virtual atomic.Int64 // see Tick

	Prop     string
	Seed     uint64
	Thorough bool
	Shard, N int
	Only     int // replay: the only case to run, or -1
	dir      string

	mu       sync.Mutex
	evals    int64
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	caseNo   int
	caseDesc string
	log      []string
	start    time.Time
	caseAt   time.Time
	done     bool
}

// MaxSamples is how many written-out cases one shard keeps.
const MaxSamples = 3

// New reads the shard's parameters from the environment.
func New() *Run {
	r := &Run{
		Prop:     os.Getenv("VP_PROP"),
		Seed:     uint64(envInt("VP_SEED", 1)),
		Thorough: os.Getenv("VP_TIER") == "thorough",
		Shard:    envInt("VP_SHARD", 0),
		N:        envInt("VP_NSHARDS", 1),
		Only:     envInt("VP_ONLY", -1),
		dir:      os.Getenv("VP_OUT"),
		counts:   map[string]int64{},
		distinct: map[uint64]struct{}{},
		start:    time.Now(),
	}
	if r.dir == "" {
		r.dir = os.TempDir()
	}
	return r
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

// Scale picks the size of a workload by tier.
func (r *Run) Scale(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Mine tells whether case i belongs to this shard.
func (r *Run) Mine(i int) bool {
	if r.Only >= 0 {
		return i == r.Only
	}
	return i%r.N == r.Shard
}

// Rand is the generator of case i: it depends on the property, the seed and i only.
func (r *Run) Rand(i int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(r.Prop))
	return rand.New(rand.NewPCG(r.Seed*0x9e3779b97f4a7c15+uint64(i), h.Sum64()))
}

// Case announces the case about to run, so that a crash can be tied to it.
func (r *Run) Case(i int, format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.caseNo, r.caseDesc = i, fmt.Sprintf(format, a...)
	r.log = r.log[:0]
	r.caseAt = time.Now()
	os.WriteFile(filepath.Join(r.dir, fmt.Sprintf("current.%d", r.Shard)), []byte(fmt.Sprintf("%d\n%s\n", i, r.caseDesc)), 0o644)
}

// Logf keeps a line of the current case's history, for the witness.
func (r *Run) Logf(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.log) >= 4000 {
		r.log = append(r.log[:0], r.log[2000:]...)
	}
	r.log = append(r.log, fmt.Sprintf(format, a...))
}

// Eval counts n evaluations of the oracle.
func (r *Run) Eval(n int) { r.mu.Lock(); r.evals += int64(n); r.mu.Unlock() }

// Count adds to a named count of observed events.
func (r *Run) Count(name string, n int) { r.mu.Lock(); r.counts[name] += int64(n); r.mu.Unlock() }

// Seen records a distinct, non-trivial behaviour by its signature.
func (r *Run) Seen(format string, a ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	r.mu.Lock()
	r.distinct[h.Sum64()] = struct{}{}
	r.mu.Unlock()
}

// SeenHash is Seen for a signature that is already a number.
func (r *Run) SeenHash(h uint64) { r.mu.Lock(); r.distinct[h] = struct{}{}; r.mu.Unlock() }

// Sample keeps a written-out case.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < MaxSamples {
		r.samples = append(r.samples, v)
	}
}

// WantSample tells whether a further sample would be kept.
func (r *Run) WantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples) < MaxSamples
}

type result struct {
	Evaluations int64            `json:"evaluations"`
	Counts      map[string]int64 `json:"counts"`
	Distinct    []string         `json:"distinct"`
	Samples     []any            `json:"samples"`
	Violation   *Violation       `json:"violation,omitempty"`
	Inconcl     string           `json:"inconclusive,omitempty"`
	WallS       float64          `json:"wall_s"`
}

// Violation is a witness.
type Violation struct {
	Case    int      `json:"case"`
	Desc    string   `json:"case_description"`
	Message string   `json:"message"`
	History []string `json:"history"`
	Stacks  string   `json:"stacks,omitempty"`
}

func (r *Run) write(v *Violation, inconcl string) {
	if r.done {
		return
	}
	r.done = true
	res := result{Evaluations: r.evals, Counts: r.counts, Samples: r.samples, Violation: v, Inconcl: inconcl, WallS: time.Since(r.start).Seconds()}
	for h := range r.distinct {
		res.Distinct = append(res.Distinct, strconv.FormatUint(h, 36))
	}
	b, err := json.Marshal(res)
	if err != nil {
		b, _ = json.Marshal(result{Inconcl: "cannot encode result: " + err.Error()})
	}
	p := filepath.Join(r.dir, fmt.Sprintf("result.%d.json", r.Shard))
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "report:", err)
	}
}

// Done writes the result of a shard that found no violation.
func (r *Run) Done() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.write(nil, "")
}

// Fail reports a violation of the property and ends the process.
func (r *Run) Fail(format string, a ...any) {
	r.fail("", format, a...)
}

// FailStacks is Fail with goroutine stacks as part of the witness.
func (r *Run) FailStacks(stacks, format string, a ...any) { r.fail(stacks, format, a...) }

func (r *Run) fail(stacks, format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v := &Violation{Case: r.caseNo, Desc: r.caseDesc, Message: fmt.Sprintf(format, a...), History: append([]string(nil), r.log...), Stacks: stacks}
	r.write(v, "")
	fmt.Fprintf(os.Stderr, "shard %d case %d (%s): %s\n", r.Shard, r.caseNo, r.caseDesc, v.Message)
	os.Exit(10)
}

// Inconclusive ends the process without a verdict.
func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.write(nil, fmt.Sprintf(format, a...))
	fmt.Fprintf(os.Stderr, "shard %d: inconclusive: %s\n", r.Shard, fmt.Sprintf(format, a...))
	os.Exit(20)
}

// Stacks returns the stacks of all goroutines.
func Stacks() string {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			return string(b[:n])
		}
		b = make([]byte, 2*len(b))
	}
}

var header = regexp.MustCompile(`^goroutine \d+ \[([^\],]+)`)

// Goroutine is one parsed stack.
type Goroutine struct {
	State string
	Text  string
}

// Lib is the import path whose frames make a goroutine the library's.
const Lib = "github.com/jsimonetti/go-artnet"

// Library tells whether the goroutine was started by, or is inside, go-artnet.
func (g Goroutine) Library() bool { return strings.Contains(g.Text, Lib) }

// Bubbled tells whether it runs in a synctest bubble.
func (g Goroutine) Bubbled() bool {
	return strings.Contains(strings.SplitN(g.Text, "\n", 2)[0], "synctest bubble")
}

// Goroutines parses the stacks of all goroutines.
func Goroutines() []Goroutine {
	var out []Goroutine
	for _, s := range strings.Split(Stacks(), "\n\n") {
		if m := header.FindStringSubmatch(s); m != nil {
			out = append(out, Goroutine{State: m[1], Text: s})
		}
	}
	return out
}

// Tick publishes the virtual time that has passed in the current case.
func (r *Run) Tick(d time.Duration) { r.virtual.Store(int64(d)) }

// stuck finds a goroutine of the run that is blocked inside a call into the library at
// one and the same place, sample after sample, while hours of virtual time pass.
func (r *Run) stuck() (string, time.Duration) {
	var same map[string]string
	start := time.Duration(r.virtual.Load())
	for i := 0; i < 40; i++ {
		now := map[string]string{}
		for _, g := range Goroutines() {
			if !g.Bubbled() || !g.Library() {
				continue
			}
			switch strings.Fields(g.State)[0] {
			case "running", "runnable", "syscall", "sleep":
				continue
			}
			head, frames, _ := strings.Cut(g.Text, "\n")
			// a call of the harness: library frames above one of its own
			calls, made, _ := strings.Cut(frames, "created by")
			if lib := strings.Index(calls, Lib); lib < 0 || !strings.Contains(calls[lib:], "\nverif/system") || !strings.HasPrefix(made, " verif/") && !strings.HasPrefix(made, " testing") {
				continue
			}
			id := strings.SplitN(head, " [", 2)[0]
			if same == nil || same[id] == frames {
				now[id] = frames
			}
		}
		same = now
		took := time.Duration(r.virtual.Load()) - start
		if len(same) == 0 {
			return "", 0
		}
		if i >= 20 && took > 10*time.Minute {
			text := ""
			for id, f := range same {
				text += id + "\n" + f + "\n\n"
			}
			return text, took
		}
		time.Sleep(250 * time.Millisecond)
	}
	return "", 0
}

// Watchdog looks into a case that makes no progress for d of real time, again and
// again, and ends the process when it took ten minutes: it may just be a slow machine.
// If every goroutine of the bubble is blocked in sample after sample, nothing can
// wake it any more (the simulated network has no outside): that is a deadlock, a
// violation. Otherwise the run is inconclusive.
func (r *Run) Watchdog(d time.Duration) {
	go func() {
		last, since := -1, time.Now()
		for {
			time.Sleep(time.Second)
			r.mu.Lock()
			no, at, done := r.caseNo, r.caseAt, r.done
			r.mu.Unlock()
			if done {
				return
			}
			if at.IsZero() {
				continue
			}
			if no != last {
				last, since = no, time.Now()
				continue
			}
			if time.Since(since) < d {
				continue
			}
			blocked, lib := true, false
			var text string
			for i := 0; i < 20 && blocked; i++ {
				var all strings.Builder
				n := 0
				for _, g := range Goroutines() {
					if !g.Bubbled() {
						continue
					}
					n++
					lib = lib || strings.Contains(g.Text, Lib)
					if all.Len() < 1<<18 {
						all.WriteString(g.Text + "\n\n")
					}
					switch strings.Fields(g.State)[0] {
					case "running", "runnable", "syscall", "sleep":
						blocked = false
					}
				}
				text = all.String()
				if n == 0 {
					blocked = false
				}
				time.Sleep(100 * time.Millisecond)
			}
			if blocked && lib {
				r.FailStacks(text, "deadlock: every goroutine of the run is blocked for good")
			}
			if stuck, took := r.stuck(); stuck != "" {
				r.FailStacks(stuck, "a call has not returned for %v of the run's own time, while other things went on", took)
			}
			if took := time.Since(since); took > 10*time.Minute {
				r.Inconclusive("case %d made no progress for %v\n%s", no, took, text)
			}
			time.Sleep(d / 2)
		}
	}()
}
