package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// What a worker tells its parent, one JSON object per line.
type wmsg struct {
	Begin  *int           `json:"b,omitempty"` // about to start run i
	Viol   *Viol          `json:"v,omitempty"`
	Index  int            `json:"i,omitempty"`
	Sum    bool           `json:"sum,omitempty"`
	Runs   int            `json:"runs,omitempty"`
	NonT   int            `json:"nont,omitempty"`
	Cov    []uint64       `json:"cov,omitempty"`
	Ilv    []uint64       `json:"ilv,omitempty"`
	Fired  map[string]int `json:"fired,omitempty"`
	Stats  map[string]int `json:"stats,omitempty"`
	Steps  int64          `json:"steps,omitempty"`
	SimNs  int64          `json:"simns,omitempty"`
	Sw     int64          `json:"sw,omitempty"`
	Sample []any          `json:"sample,omitempty"`
	Known  map[string]int `json:"known,omitempty"`
	Late   bool           `json:"late,omitempty"`
	DigH   uint64         `json:"dig,omitempty"`
}

type known struct{ Prop, Class, Match, Text string }

// loadKnown reads the known findings that are not repaired:
// known: property=<id> class=<class> match=<substring> :: <text>
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		k := known{Text: text}
		for i, f := range strings.SplitN(head, " ", 3) {
			n, v, _ := strings.Cut(f, "=")
			switch {
			case n == "property":
				k.Prop = v
			case n == "class":
				k.Class = v
			case n == "match" && i == 2:
				k.Match = v
			}
		}
		if k.Prop != "" && k.Class != "" && k.Match != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func isKnown(ks []known, prop string, v Viol) *known {
	for i, k := range ks {
		if k.Prop == prop && k.Class == v.Class && strings.Contains(v.Msg, k.Match) {
			return &ks[i]
		}
	}
	return nil
}

type replayFile struct {
	Property  string   `json:"property"`
	VerifSeed uint64   `json:"verif_seed"`
	RunIndex  int      `json:"run_index"`
	RunSeed   uint64   `json:"run_seed"`
	Violation Viol     `json:"violation"`
	Hash      string   `json:"event_hash"`
	Minimised bool     `json:"minimised"`
	HowTo     string   `json:"how_to_replay"`
	Plan      *Plan    `json:"plan"`
	Events    []string `json:"events"`
	Original  *Plan    `json:"original_plan,omitempty"`
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if len(os.Args) < 2 {
		fatal("usage: vsim check|work|one|replay|shrink|list ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "VERIF_SEED")
	workers := fs.Int("workers", 8, "worker processes")
	dir := fs.String("dir", "/verif", "where evidence and replays go")
	from := fs.Int("from", 0, "first run")
	stride := fs.Int("stride", 1, "step between runs")
	count := fs.Int("count", 0, "one past the last run (0: of the tier)")
	wall := fs.Float64("wall", 0, "wall seconds (0: of the tier)")
	knownF := fs.String("known", "", "known findings file")
	out := fs.String("out", "", "output file")
	dig := fs.Bool("digest", false, "print a digest of all event hashes (self test)")
	keepGoing := fs.Bool("all", false, "work: report every violation, do not stop")
	fs.Parse(os.Args[2:])
	pr := props[*prop]
	if pr == nil && cmd != "list" && cmd != "replay" && cmd != "shrink" {
		fatal("unknown property %q", *prop)
	}
	switch cmd {
	case "list":
		for _, k := range sortedKeys(props) {
			fmt.Println(k)
		}
	case "work":
		work(pr, *tier, *seed, *from, *stride, *count, *wall, loadKnown(*knownF), *keepGoing)
	case "one":
		p := genPlan(pr, *seed, *from, *tier == "thorough")
		res := run(p, true)
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
		for _, l := range res.Log {
			fmt.Println(l)
		}
		fmt.Printf("hash %016x nontrivial %v steps %d switches %d fired %v stats %v\n", res.Hash, res.NonTriv, res.Steps, res.Sw, res.Fired, res.Stats)
		for _, v := range res.Viol {
			fmt.Printf("%s: %s\n", v.Class, v.Msg)
		}
		if len(res.Viol) > 0 {
			os.Exit(1)
		}
	case "shrink":
		shrinkMain(fs.Arg(0), *out)
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	case "check":
		os.Exit(check(pr, *tier, *seed, *workers, *dir, *knownF, *wall, *dig, *count))
	default:
		fatal("unknown command %q", cmd)
	}
}

func runs(pr *Prop, tier string) int {
	if tier == "thorough" {
		return pr.Thoro
	}
	return pr.Quick
}

func wallOf(pr *Prop, tier string) float64 {
	if tier == "thorough" {
		return 700
	}
	if pr.Budget > 0 {
		return pr.Budget
	}
	return 200
}

// slowRun (VSIM_SLOW, in seconds) makes workers name the runs that take longer.
var slowRun, _ = strconv.ParseFloat(os.Getenv("VSIM_SLOW"), 64)

func work(pr *Prop, tier string, seed uint64, from, stride, count int, wall float64, ks []known, keepGoing bool) {
	w := bufio.NewWriter(os.Stdout)
	put := func(m wmsg) {
		b, err := json.Marshal(m)
		if err != nil {
			fatal("marshal: %v", err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	if count == 0 {
		count = runs(pr, tier)
	}
	if wall == 0 {
		wall = wallOf(pr, tier)
	}
	sum := wmsg{Sum: true, Fired: map[string]int{}, Stats: map[string]int{}, Known: map[string]int{}}
	t0 := time.Now()
	for i := from; i < count; i += stride {
		if time.Since(t0).Seconds() > wall {
			sum.Late = true
			break
		}
		j := i
		put(wmsg{Begin: &j})
		w.Flush()
		p := genPlan(pr, seed, i, tier == "thorough")
		t1 := time.Now()
		res := run(p, false)
		if d := time.Since(t1).Seconds(); slowRun > 0 && d > slowRun {
			fmt.Fprintf(os.Stderr, "%s run %d (%s) took %.1f s\n", pr.ID, i, p.Kind, d)
		}
		sum.Runs++
		if res.NonTriv {
			sum.NonT++
			sum.Cov = append(sum.Cov, res.Cov)
			if res.Sw > 0 {
				sum.Ilv = append(sum.Ilv, res.Ilv)
			}
			if len(sum.Sample) < 1 {
				sum.Sample = append(sum.Sample, p)
			}
		}
		for k, n := range res.Fired {
			sum.Fired[k] += n
		}
		for k, n := range res.Stats {
			sum.Stats[k] += n
		}
		sum.Steps += res.Steps
		sum.SimNs += res.SimNs
		sum.Sw += int64(res.Sw)
		sum.DigH ^= mixI(uint64(i), res.Hash)
		if len(res.Viol) > 0 {
			v := res.Viol[0]
			if k := isKnown(ks, pr.ID, v); k != nil {
				sum.Known[k.Text]++
				continue
			}
			put(wmsg{Viol: &v, Index: i})
			if !keepGoing {
				break
			}
		}
	}
	put(sum)
	w.Flush()
}

func mixI(i, h uint64) uint64 {
	x := h ^ (i+1)*0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>32
}

type wstate struct {
	cmd   *exec.Cmd
	last  int
	when  time.Time
	sum   *wmsg
	viol  *wmsg
	errB  bytes.Buffer
	err   error
	done  bool
	stuck bool
}

func check(pr *Prop, tier string, seed uint64, workers int, dir, knownF string, wall float64, dig bool, count int) int {
	t0 := time.Now()
	exe, _ := os.Executable()
	ws := make([]*wstate, workers)
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := false
	for k := range ws {
		s := &wstate{last: -1, when: time.Now()}
		ws[k] = s
		args := []string{"work", "-prop", pr.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-stride", fmt.Sprint(workers), "-known", knownF, "-count", fmt.Sprint(count)}
		if wall > 0 {
			args = append(args, "-wall", fmt.Sprint(wall))
		}
		s.cmd = exec.Command(exe, args...)
		s.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		s.cmd.Stderr = &s.errB
		if slowRun > 0 {
			s.cmd.Stderr = os.Stderr
		}
		po, err := s.cmd.StdoutPipe()
		if err != nil {
			fatal("%v", err)
		}
		if err := s.cmd.Start(); err != nil {
			fatal("worker: %v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(po, 1<<20)
			for {
				l, err := rd.ReadBytes('\n')
				if len(l) > 0 {
					var m wmsg
					if e := json.Unmarshal(l, &m); e != nil {
						if err == nil {
							fatal("worker said %q: %v", l, e)
						}
					} else {
						mu.Lock()
						s.when = time.Now()
						switch {
						case m.Begin != nil:
							s.last = *m.Begin
						case m.Viol != nil:
							x := m
							s.viol = &x
							stop = true
						case m.Sum:
							x := m
							s.sum = &x
						}
						mu.Unlock()
					}
				}
				if err != nil {
					if err != io.EOF {
						s.err = err
					}
					break
				}
			}
			e := s.cmd.Wait()
			mu.Lock()
			s.done = true
			if e != nil && s.err == nil {
				s.err = e
			}
			if s.sum == nil && !stop {
				stop = true // died
			}
			mu.Unlock()
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	grace := time.Time{}
loop:
	for {
		select {
		case <-fin:
			break loop
		case <-time.After(100 * time.Millisecond):
		}
		mu.Lock()
		now := time.Now()
		if stop && grace.IsZero() {
			grace = now
		}
		for _, s := range ws {
			if s.done {
				continue
			}
			if now.Sub(s.when) > 90*time.Second {
				s.stuck = true
				stop = true
				s.cmd.Process.Kill()
			}
			if !grace.IsZero() && now.Sub(grace) > 300*time.Millisecond {
				s.cmd.Process.Kill()
			}
		}
		mu.Unlock()
	}
	// the lowest run that found something
	best := -1
	var bv *Viol
	for _, s := range ws {
		if s.viol != nil && (best < 0 || s.viol.Index < best) {
			best, bv = s.viol.Index, s.viol.Viol
		}
	}
	sum := wmsg{Fired: map[string]int{}, Stats: map[string]int{}, Known: map[string]int{}}
	cov, ilv := map[uint64]bool{}, map[uint64]bool{}
	for _, s := range ws {
		if s.sum == nil {
			continue
		}
		sum.Runs += s.sum.Runs
		sum.NonT += s.sum.NonT
		for _, c := range s.sum.Cov {
			cov[c] = true
		}
		for _, c := range s.sum.Ilv {
			ilv[c] = true
		}
		for k, n := range s.sum.Fired {
			sum.Fired[k] += n
		}
		for k, n := range s.sum.Stats {
			sum.Stats[k] += n
		}
		for k, n := range s.sum.Known {
			sum.Known[k] += n
		}
		sum.Steps += s.sum.Steps
		sum.SimNs += s.sum.SimNs
		sum.Sw += s.sum.Sw
		sum.Late = sum.Late || s.sum.Late
		sum.DigH ^= s.sum.DigH
		if len(sum.Sample) < 3 {
			sum.Sample = append(sum.Sample, s.sum.Sample...)
		}
	}
	if best < 0 {
		for _, s := range ws {
			if s.stuck && s.last >= 0 && hangs(exe, pr, tier, seed, s.last, knownF) {
				best = s.last
				bv = &Viol{"hang", fmt.Sprintf("run %d does not end: no progress in 90 s, nor in 120 s when run again alone", s.last)}
				break
			}
			if s.stuck {
				fmt.Fprintf(os.Stderr, "vsim: worker stuck for 90 s in run %d of %s (seed %d)\n", s.last, pr.ID, seed)
				return 2
			}
			if s.sum == nil && s.err != nil && s.last >= 0 && !strings.Contains(s.err.Error(), "signal: killed") {
				// the process died in run s.last: does it die again?
				c := exec.Command(exe, "work", "-prop", pr.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(s.last), "-count", fmt.Sprint(s.last+1), "-known", knownF)
				var eb bytes.Buffer
				c.Stderr = &eb
				e := c.Run()
				tail := fatalLine(eb.String())
				if e != nil && !strings.Contains(eb.String(), "harness:") && !strings.Contains(eb.String(), "vsim:") {
					best = s.last
					bv = &Viol{"fatal", fmt.Sprintf("the process died in run %d: %s", s.last, tail)}
					break
				}
				fmt.Fprintf(os.Stderr, "vsim: worker died in run %d of %s: %v\n%s\n", s.last, pr.ID, s.err, s.errB.String())
				return 2
			}
		}
	}
	if best < 0 {
		for _, s := range ws {
			if s.sum == nil {
				fmt.Fprintf(os.Stderr, "vsim: a worker of %s gave no result: %v\n%s\n", pr.ID, s.err, s.errB.String())
				return 2
			}
		}
	}
	searchS := time.Since(t0).Seconds()
	code := 0
	if best >= 0 {
		code = 1
		path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%d-%d.json", pr.ID, seed, best))
		os.MkdirAll(filepath.Dir(path), 0777)
		if msg := makeReplay(exe, pr, tier, seed, best, *bv, path); msg != "" {
			fmt.Fprintf(os.Stderr, "vsim: %s\n", msg)
			return 2
		}
		rf := readReplay(path)
		fmt.Printf("%s: %s\n", rf.Violation.Class, rf.Violation.Msg)
		fmt.Printf("seed %d, run %d, run seed %d; replay: sh /verif/check.sh replay %s\n", seed, best, rf.RunSeed, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
	}
	for _, k := range sortedKeys(sum.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", pr.ID, k, sum.Known[k])
	}
	writeEvidence(pr, tier, seed, workers, dir, &sum, len(cov), len(ilv), searchS, time.Since(t0).Seconds(), code)
	fmt.Printf("%s %s: %d runs (%d non-trivial, %d distinct), %d statements, %d switches, %.1f s, faults %s\n", pr.ID, tier, sum.Runs, sum.NonT, len(cov), sum.Steps, sum.Sw, searchS, faultLine(sum.Fired))
	if dig {
		fmt.Printf("digest %016x\n", sum.DigH)
	}
	return code
}

// hangs runs run i again, alone: does it hang again?
func hangs(exe string, pr *Prop, tier string, seed uint64, i int, knownF string) bool {
	c := exec.Command(exe, "work", "-prop", pr.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-count", fmt.Sprint(i+1), "-known", knownF)
	late, _ := waitFor(c, 120*time.Second)
	return late
}

// waitFor runs c and ends it when the time is over.
func waitFor(c *exec.Cmd, d time.Duration) (late bool, err error) {
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(d):
		c.Process.Kill()
		<-done
		late = true
	}
	return
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.Contains(l, "goroutine stack exceeds") {
			return l
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func faultLine(m map[string]int) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(s, " ")
}

// makeReplay minimises a violation in fresh processes and writes the replay.
func makeReplay(exe string, pr *Prop, tier string, seed uint64, i int, v Viol, path string) string {
	p := genPlan(pr, seed, i, tier == "thorough")
	rf := &replayFile{Property: pr.ID, VerifSeed: seed, RunIndex: i, RunSeed: p.Seed, Violation: v, Plan: p, Original: p,
		HowTo: "sh /verif/check.sh replay " + path}
	writeReplay(path, rf)
	if v.Class == "fatal" || v.Class == "hang" {
		return ""
	}
	c := exec.Command(exe, "shrink", "-out", path+".min", path)
	var eb bytes.Buffer
	c.Stderr = &eb
	c.Start()
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Process.Kill()
		<-done
	}
	if b, err := os.ReadFile(path + ".min"); err == nil {
		var m replayFile
		if json.Unmarshal(b, &m) == nil {
			// it must fail the same way in a fresh process
			if out, err := exec.Command(exe, "replay", path+".min").Output(); err != nil && strings.Contains(string(out), "reproduced exactly: true") {
				os.Rename(path+".min", path)
				return ""
			}
		}
	}
	os.Remove(path + ".min")
	// not minimised: the original must reproduce. Code that depends on something
	// no simulation controls (addresses, the garbage collector) may need a few
	// attempts.
	res := run(p.clone(), true)
	for k := 0; k < 30 && len(res.Viol) == 0; k++ {
		res = run(p.clone(), true)
	}
	if len(res.Viol) == 0 {
		return fmt.Sprintf("run %d of %s failed in a worker (%s: %s) but not again: the simulation is not deterministic\n%s", i, pr.ID, v.Class, v.Msg, eb.String())
	}
	rf.Violation, rf.Events, rf.Hash = res.Viol[0], tailOf(res.Log), fmt.Sprintf("%016x", res.Hash)
	writeReplay(path, rf)
	return ""
}

func tailOf(l []string) []string {
	if len(l) > 400 {
		l = append(append([]string{}, l[:100]...), l[len(l)-300:]...)
	}
	return l
}

func writeReplay(path string, rf *replayFile) {
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		fatal("replay: %v", err)
	}
	if err := os.WriteFile(path, b, 0666); err != nil {
		fatal("replay: %v", err)
	}
}

func readReplay(path string) *replayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("replay: %v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("replay: %v", err)
	}
	if rf.Plan == nil || props[rf.Plan.Prop] == nil {
		fatal("replay: no plan in %s", path)
	}
	return &rf
}

func replay(path string) int {
	rf := readReplay(path)
	if (rf.Violation.Class == "fatal" || rf.Violation.Class == "hang") && os.Getenv("VSIM_CHILD") == "" {
		// the run takes its process down with it, or never ends
		exe, _ := os.Executable()
		c := exec.Command(exe, "replay", path)
		c.Env = append(os.Environ(), "VSIM_CHILD=1")
		var ob, eb bytes.Buffer
		c.Stdout, c.Stderr = &ob, &eb
		late, err := waitFor(c, 120*time.Second)
		if !late && err == nil || strings.Contains(ob.String(), "VIOLATION") {
			fmt.Print(ob.String())
			return b2i(err != nil)
		}
		if !late && strings.Contains(eb.String(), "vsim:") {
			fmt.Fprint(os.Stderr, eb.String())
			return 2
		}
		fmt.Printf("%s: %s\n", rf.Violation.Class, rf.Violation.Msg)
		if !late {
			fmt.Println(fatalLine(eb.String()))
		}
		fmt.Printf("reproduced exactly: %v\n", late == (rf.Violation.Class == "hang"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	res := run(rf.Plan, true)
	for _, l := range tailOf(res.Log) {
		fmt.Println(l)
	}
	if len(res.Viol) == 0 {
		fmt.Printf("replay: no violation on this tree (recorded: %s)\n", rf.Violation.Class)
		return 0
	}
	v := res.Viol[0]
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	fmt.Printf("reproduced exactly: %v (event hash %016x, recorded %s)\n", fmt.Sprintf("%016x", res.Hash) == rf.Hash && v == rf.Violation, res.Hash, rf.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func writeEvidence(pr *Prop, tier string, seed uint64, workers int, dir string, sum *wmsg, distinct, ilv int, searchS, wallS float64, viol int) {
	os.MkdirAll(filepath.Join(dir, "evidence"), 0777)
	perH := 0.0
	if searchS > 0 {
		perH = float64(sum.Runs) / searchS * 3600
	}
	if len(sum.Sample) == 0 {
		sum.Sample = []any{}
	}
	simBy := time.Duration(sum.SimNs)
	cov := map[string]any{
		"evaluations":                  sum.Runs,
		"distinct_nontrivial":          distinct,
		"nontrivial":                   sum.NonT,
		"rule":                         pr.Rule + " Distinct: different hash of the states reached, outcomes observed and, with several tasks, the exact sequence of task switches.",
		"samples":                      sum.Sample,
		"simulated_runs_per_hour":      int64(perH),
		"seeds_per_hour_note":          "every run has its own seed, so seeds per hour are the simulated runs per hour",
		"simulated_time_s":             simBy.Seconds(),
		"simulated_time_note":          "one nanosecond per executed statement plus injected sleeps, I/O latencies and clock jumps waited for; clock readings jump independently of it",
		"statements_executed":          sum.Steps,
		"task_switches":                sum.Sw,
		"faults_injected":              sum.Fired,
		"probes":                       sum.Stats,
		"distinct_interleavings":       ilv,
		"distinct_interleavings_note":  "distinct sequences of (task, local statement, next task) switches among the runs with several tasks",
		"workers":                      workers,
		"stopped_by_wall_limit":        sum.Late,
		"known_findings_seen":          sum.Known,
		"components_real":              []string{"every statement of package nn (all .go files of /repo, instrumented by a source-to-source pass on a scratch copy)", "encoding/binary, bytes, math, errors, strconv", "the algorithms of math/rand and x/exp/rand (real generators, simulated seeding)"},
		"components_stub":              []string{"os and file system (simfs: page cache, journal, crash model)", "time (simulated clock)", "log (same line format, simulated clock and lock)", "fmt printing to standard streams", "sync (cooperative)", "global random state and its seeding", "map enumeration order", "goroutine scheduling"},
		"every_run_derived_from":       "splitmix64(VERIF_SEED, property id, run index)",
		"statement_level_yield_points": true,
	}
	ev := map[string]any{"property": pr.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": pr.Assume, "wall_s": wallS, "violations": viol}
	if pr.Assume == nil {
		ev["assumptions"] = defaultAssume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "evidence", pr.ID+".json"), b, 0666); err != nil {
		fatal("evidence: %v", err)
	}
}

var defaultAssume = []string{
	"Sampling: a clean batch is evidence, not proof.",
	"Tasks are preempted between statements; a statement is atomic (no torn words, no compiler or CPU reordering).",
	"The simulated disk: writes reach the page cache at once, survive a process kill, and survive a power loss only after the file (contents) and its directory (names) were synced; an unsynced page may survive, vanish or be torn; renames are atomic and keep their order within a directory journal; an error reported by sync or close is final.",
}

// ---------------------------------------------------------------- shrinking

func shrinkMain(in, out string) {
	rf := readReplay(in)
	deadline := time.Now().Add(25 * time.Second)
	p := rf.Plan.clone()
	res := run(p, false)
	if len(res.Viol) == 0 {
		fatal("does not reproduce")
	}
	class := res.Viol[0].Class
	tries := 0
	fails := func(q *Plan) *Result {
		if time.Now().After(deadline) || tries > 4000 {
			return nil
		}
		tries++
		var r *Result
		func() {
			defer func() {
				if x := recover(); x != nil {
					r = nil
				}
			}()
			r = run(q.clone(), false)
		}()
		if r != nil && len(r.Viol) > 0 && r.Viol[0].Class == class {
			return r
		}
		return nil
	}
	if !props[p.Prop].NoShr {
		p = shrink(p, res, fails)
	}
	res = run(p.clone(), true)
	if len(res.Viol) == 0 {
		fatal("minimised plan does not reproduce")
	}
	rf.Plan, rf.Minimised = p, true
	rf.Violation, rf.Events, rf.Hash = res.Viol[0], tailOf(res.Log), fmt.Sprintf("%016x", res.Hash)
	writeReplay(out, rf)
}

func shrink(p *Plan, res *Result, fails func(*Plan) *Result) *Plan {
	// an explicit schedule is easier to cut down than a random one
	if p.Sched.Mode == "random" && len(res.Execd) > 0 && len(res.Execd) < 20000 {
		q := p.clone()
		q.Sched.Mode, q.Sched.List = "explicit", res.Execd
		if r := fails(q); r != nil {
			p = q
		}
	}
	for round := 0; round < 4; round++ {
		before := size(p)
		// drop steps
		p = ddmin(p, len(p.Steps), func(q *Plan, keep []bool) {
			var s []Step
			for i := range q.Steps {
				if keep[i] {
					s = append(s, q.Steps[i])
				}
			}
			q.Steps = s
		}, fails)
		// drop switches
		if p.Sched.Mode == "explicit" {
			p = ddmin(p, len(p.Sched.List), func(q *Plan, keep []bool) {
				var s = q.Sched.List[:0:0]
				for i := range q.Sched.List {
					if keep[i] {
						s = append(s, q.Sched.List[i])
					}
				}
				q.Sched.List = s
			}, fails)
			q := p.clone()
			q.Sched.Mode, q.Sched.List, q.Sched.Seed, q.Sched.Mean = "", nil, 0, 0
			if fails(q) != nil {
				p = q
			}
		}
		// drop and simplify faults
		for i := range p.Steps {
			for j := 0; j < len(p.Steps[i].Faults); {
				q := p.clone()
				q.Steps[i].Faults = append(q.Steps[i].Faults[:j], q.Steps[i].Faults[j+1:]...)
				if fails(q) != nil {
					p = q
				} else {
					j++
				}
			}
			for j := range p.Steps[i].Faults {
				if p.Steps[i].Faults[j].Stay {
					q := p.clone()
					q.Steps[i].Faults[j].Stay = false
					if fails(q) != nil {
						p = q
					}
				}
			}
			for _, ed := range []func(s *Step) bool{
				func(s *Step) bool { v := s.Cap != 0; s.Cap = 0; return v },
				func(s *Step) bool { v := s.Kill != 0; s.Kill = 0; return v },
				func(s *Step) bool { v := s.Short != 0; s.Short = 0; return v },
				func(s *Step) bool { v := s.Pow; s.Pow = false; return v },
				func(s *Step) bool { v := s.N > 1; s.N = 1; return v },
				func(s *Step) bool { v := s.N > 3; s.N /= 2; return v },
				func(s *Step) bool { v := s.B > 0; s.B = 0; return v },
				func(s *Step) bool { v := s.L > 0; s.L = 0; return v },
				func(s *Step) bool { v := s.M > 0; s.M = 0; return v },
				func(s *Step) bool { v := s.Kill > 1; s.Kill /= 2; return v },
			} {
				q := p.clone()
				if ed(&q.Steps[i]) && fails(q) != nil {
					p = q
				}
			}
		}
		// simpler models and data
		for i := range p.Models {
			p = ddmin(p, len(p.Models[i].Layers), func(q *Plan, keep []bool) {
				var s []LayerSpec
				for k, l := range q.Models[i].Layers {
					if keep[k] {
						if len(s) > 0 {
							l.In = s[len(s)-1].Out
						}
						s = append(s, l)
					}
				}
				if len(s) > 0 {
					q.Models[i].Layers = s
				}
			}, fails)
			for k := range p.Models[i].Layers {
				for _, d := range []int{1, 2, 3} {
					q := p.clone()
					ls := q.Models[i].Layers
					if ls[k].Out > d {
						ls[k].Out = d
						if k+1 < len(ls) {
							ls[k+1].In = d
						}
						if fails(q) != nil {
							p = q
							break
						}
					}
				}
				for _, d := range []int{1, 2, 3} {
					q := p.clone()
					if ls := q.Models[i].Layers; k == 0 && ls[0].In > d {
						ls[0].In = d
						if fails(q) != nil {
							p = q
							break
						}
					}
				}
			}
			if p.Models[i].WMode != "normal" {
				q := p.clone()
				q.Models[i].WMode = "normal"
				if fails(q) != nil {
					p = q
				}
			}
		}
		for i := range p.Data {
			for _, n := range []int{1, 2, 4, 8} {
				if p.Data[i].Rows > n {
					q := p.clone()
					q.Data[i].Rows = n
					if fails(q) != nil {
						p = q
						break
					}
				}
			}
		}
		if p.Env.Clock != "normal" {
			q := p.clone()
			q.Env.Clock = "normal"
			if fails(q) != nil {
				p = q
			}
		}
		if size(p) >= before {
			break
		}
	}
	return p
}

func size(p *Plan) int {
	b, _ := json.Marshal(p)
	return len(b)
}

// ddmin removes as many of n items as possible.
func ddmin(p *Plan, n int, cut func(q *Plan, keep []bool), fails func(*Plan) *Result) *Plan {
	if n == 0 {
		return p
	}
	keep := make([]bool, n)
	for i := range keep {
		keep[i] = true
	}
	alive := func() (a []int) {
		for i, k := range keep {
			if k {
				a = append(a, i)
			}
		}
		return
	}
	best := p
	for chunk := (n + 1) / 2; chunk >= 1; {
		cutAny := false
		a := alive()
		for at := 0; at < len(a); at += chunk {
			end := at + chunk
			if end > len(a) {
				end = len(a)
			}
			k2 := append([]bool(nil), keep...)
			for _, i := range a[at:end] {
				k2[i] = false
			}
			q := p.clone()
			cut(q, k2)
			if fails(q) != nil {
				keep, best, cutAny = k2, q, true
			}
		}
		if chunk == 1 && !cutAny {
			break
		}
		if !cutAny || chunk > 1 {
			chunk /= 2
			if chunk == 0 {
				if !cutAny {
					break
				}
				chunk = 1
			}
		}
	}
	return best
}

var _ = sort.Strings
var _ = strconv.Itoa
