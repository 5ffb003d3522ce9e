package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	var (
		prop    = flag.String("prop", "", "property")
		child   = flag.String("child", "", "simulation binary")
		dir     = flag.String("dir", "", "scratch directory")
		seed    = flag.Uint64("seed", 1, "base seed")
		budget  = flag.Duration("time", 60*time.Second, "how long to search")
		from    = flag.Int("from", 0, "start at this scenario")
		maxRuns = flag.Int("max", 0, "at most this many scenarios (0: no limit)")
		workers = flag.Int("workers", runtime.NumCPU(), "parallel scenarios")
		outF    = flag.String("out", "", "where to write the summary")
		replays = flag.String("replays", "", "where to write replay files")
		replay  = flag.String("replay", "", "run this replay file")
		known   = flag.String("known", "", "directory of known findings")
		explore = flag.Int("explore", 0, "report up to this many classes of violation instead of stopping")
		shrink  = flag.Duration("shrink", 45*time.Second, "how long to minimise a violation")
		only    = flag.String("only", "", "only this play")
		verbose = flag.Bool("v", false, "print the trace")
		fault   = flag.Bool("selfcheck", true, "re-run some scenarios to check determinism")
		every   = flag.Int("every", 64, "re-run one scenario in this many to check determinism")
	)
	flag.Parse()
	if *replay != "" {
		os.Exit(doReplay(*child, *dir, *replay, *verbose))
	}
	s := &Search{Prop: *prop, Child: *child, Dir: *dir, Seed: *seed, Budget: *budget, Max: *maxRuns, Workers: *workers, Replays: *replays, Known: *known,
		Shrink: *shrink, Explore: *explore, From: *from, Only: *only, SelfCheck: *fault, Every: *every}
	os.Exit(s.Run(*outF))
}

// Search looks for a violation of one property.
type Search struct {
	Prop, Child, Dir, Replays, Known, Only string
	Seed                                   uint64
	Budget, Shrink                         time.Duration
	Max, Workers, Explore, From            int
	SelfCheck                              bool
	Every                                  int

	mu       sync.Mutex
	stats    *Stats
	runs     int
	invalid  int
	nontriv  map[string]bool
	plays    map[string]int
	samples  []any
	found    []*Found
	classes  map[string]int
	infra    []string
	checked  int
	nondet   []string
	knownHit map[string]int
	start    time.Time
}

// Found is a violation.
type Found struct {
	Sc    *Scenario
	Out   *Outcome
	Index int
}

func (s *Search) env(id string, timeout time.Duration) (*Env, func()) {
	d := filepath.Join(s.Dir, id)
	_ = os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(errInfra{err})
	}
	uid := 0
	if os.Getuid() == 0 {
		uid = unprivileged
		if err := os.Chown(d, uid, uid); err != nil {
			uid = 0
		}
	}
	return &Env{Child: s.Child, Dir: d, Timeout: timeout, Stats: s.stats, uid: uid}, func() { _ = os.RemoveAll(d) }
}

// play runs a scenario once in a fresh scratch directory.
func (s *Search) play(id string, sc *Scenario, timeout time.Duration, trace bool, stats *Stats) (out *Outcome, log []string, hash uint64) {
	e, done := s.env(id, timeout)
	defer done()
	e.Trace = trace
	e.Stats = stats
	out = Play(e, sc)
	return out, e.Log, e.Hash
}

func (s *Search) safePlay(id string, sc *Scenario, timeout time.Duration, trace bool, stats *Stats) (out *Outcome, log []string, hash uint64, ierr error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(errInfra); ok {
				ierr = ie
				return
			}
			panic(r)
		}
	}()
	out, log, hash = s.play(id, sc, timeout, trace, stats)
	return
}

func doReplay(child, dir, file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	s := &Search{Child: child, Dir: dir, stats: newStats()}
	out, log, hash, ierr := s.safePlay("replay", rf.Scenario, 40*time.Second, verbose, s.stats)
	if ierr != nil {
		fmt.Println("machinery:", ierr)
		return 2
	}
	if verbose {
		for _, l := range log {
			fmt.Println(l)
		}
	}
	if out.Violation == "" {
		fmt.Printf("held property=%s (invalid=%v) trace %016x\n", rf.Scenario.Prop, out.Invalid, hash)
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\nclass: %s\n%s\ntrace %016x\n", rf.Scenario.Prop, file, out.Class, out.Violation, hash)
	return 1
}

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property  string    `json:"property"`
	Violation string    `json:"violation"`
	Class     string    `json:"class"`
	BaseSeed  uint64    `json:"base_seed"`
	Index     int       `json:"index"`
	TraceHash string    `json:"trace_hash"`
	Scenario  *Scenario `json:"scenario"`
	Trace     []string  `json:"trace"`
}

// Run searches and returns the exit status.
func (s *Search) Run(outF string) int {
	s.stats = newStats()
	s.nontriv, s.plays, s.classes, s.knownHit = map[string]bool{}, map[string]int{}, map[string]int{}, map[string]int{}
	s.start = time.Now()
	deadline := s.start.Add(s.Budget)
	var wg sync.WaitGroup
	next := s.From
	stop := false
	for wk := 0; wk < s.Workers; wk++ {
		wg.Add(1)
		go func(wk int) {
			defer wg.Done()
			for {
				s.mu.Lock()
				if stop || time.Now().After(deadline) || s.Max > 0 && next-s.From >= s.Max {
					s.mu.Unlock()
					return
				}
				i := next
				next++
				s.mu.Unlock()
				sc := Generate(s.Prop, s.Seed, i, s.Only)
				if sc == nil {
					continue
				}
				id := fmt.Sprintf("w%d", wk)
				out, _, hash, ierr := s.safePlay(id, sc, 10*time.Second, false, s.stats)
				if ierr == nil && out.Violation != "" {
					// confirm in a fresh process with a generous limit before believing it
					out2, _, _, ierr2 := s.safePlay(id, sc, 40*time.Second, false, nil)
					if ierr2 != nil {
						ierr = ierr2
					} else {
						if out2.Violation == "" || out2.Class != out.Class {
							if out.Timeout {
								out2.Violation = "" // a slow machine, not a hang
							} else {
								s.mu.Lock()
								s.nondet = append(s.nondet, fmt.Sprintf("scenario %d: %q then %q", i, out.Class, out2.Class))
								s.mu.Unlock()
							}
						}
						out = out2
					}
				}
				if ierr == nil && s.SelfCheck && i%s.Every == s.Every-1 && out.Violation == "" {
					_, _, hash2, e2 := s.safePlay(id, sc, 40*time.Second, false, nil)
					s.mu.Lock()
					s.checked++
					if e2 == nil && hash2 != hash {
						s.nondet = append(s.nondet, fmt.Sprintf("scenario %d: trace %016x then %016x", i, hash, hash2))
					}
					s.mu.Unlock()
				}
				s.mu.Lock()
				if ierr != nil {
					s.infra = append(s.infra, ierr.Error())
					if len(s.infra) > 20 {
						stop = true
					}
					s.mu.Unlock()
					continue
				}
				s.runs++
				s.plays[sc.Play+"/"+sc.Dialect]++
				if out.Invalid {
					s.invalid++
				}
				for _, k := range out.Counts {
					s.stats.Kinds[k]++
				}
				if len(out.Nontrivial) > 0 {
					s.nontriv[strings.Join(out.Nontrivial, "|")] = true
				}
				if len(s.samples) < 6 && !out.Invalid && i%7 == 3 {
					s.samples = append(s.samples, sample(sc, out))
				}
				if out.Violation != "" {
					s.classes[out.Class]++
					if s.Explore > 0 {
						if s.classes[out.Class] == 1 {
							s.found = append(s.found, &Found{sc, out, i})
							if len(s.found) >= s.Explore {
								stop = true
							}
						}
					} else {
						s.found = append(s.found, &Found{sc, out, i})
						stop = true
					}
				}
				s.mu.Unlock()
			}
		}(wk)
	}
	wg.Wait()
	elapsed := time.Since(s.start)
	sort.Slice(s.found, func(i, j int) bool { return s.found[i].Index < s.found[j].Index })
	if s.Explore == 0 && len(s.found) > 1 {
		s.found = s.found[:1]
	}
	code := 0
	var lines []string
	for n, f := range s.found {
		if s.Explore > 0 && n >= s.Explore {
			break
		}
		path, msg := s.report(f, n)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", s.Prop, path))
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.Prop, path)
		fmt.Println(msg)
		code = 1
	}
	if s.Explore > 0 {
		for k, n := range s.classes {
			fmt.Printf("class %6d  %s\n", n, k)
		}
	}
	sum := s.summary(elapsed, lines)
	if outF != "" {
		b, _ := json.MarshalIndent(sum, "", " ")
		_ = os.WriteFile(outF, b, 0o644)
	}
	if s.Explore > 0 {
		fmt.Println("outcomes:", s.stats.Kinds)
	}
	fmt.Printf("%s: %d scenarios (%d not applicable), %d steps, %d distinct, %.0f/h, infra errors %d, nondeterminism %d\n", s.Prop, s.runs, s.invalid, s.stats.Steps,
		len(s.nontriv), float64(s.runs)/elapsed.Hours(), len(s.infra), len(s.nondet))
	for i, x := range s.infra {
		if i < 3 {
			fmt.Println("machinery:", x)
		}
	}
	for i, x := range s.nondet {
		if i < 3 {
			fmt.Println("nondeterministic:", x)
		}
	}
	if code == 0 && (len(s.infra) > s.runs/20+3 || s.runs == 0) {
		return 2
	}
	return code
}
