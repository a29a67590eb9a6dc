// check is the driver: it instruments a scratch copy of the library, builds the
// simulator against it, spreads the seeded runs over worker processes, confirms
// and minimises what they find, and writes the evidence file.
//
// exit 0: the property held on everything explored
// exit 1: VIOLATION line printed
// exit 2: the check itself could not do its work
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/tape"
)

type propInfo struct {
	ID, Title, Rule string
	Race            bool
	Quick, Thorough int
	Fresh           int
	Real, Stub      []string
	Assume          []string
}

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type summary struct {
	Runs      int               `json:"runs"`
	Nontriv   int               `json:"nontriv"`
	Counters  map[string]int64  `json:"counters"`
	SimNanos  int64             `json:"sim_nanos"`
	Steps     int64             `json:"steps"`
	Hashes    []uint64          `json:"hashes"`
	HashLog   []uint64          `json:"hashlog"`
	Samples   []string          `json:"samples"`
	Violation *violation        `json:"violation,omitempty"`
	VIndex    int               `json:"vindex"`
	Known     map[string]int64  `json:"known"`
	KnownMsg  map[string]string `json:"known_msg"`
	Harness   string            `json:"harness,omitempty"`
	HIndex    int               `json:"hindex"`
	TimedOut  bool              `json:"timed_out"`
}

type replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Msg      string   `json:"msg"`
	Seed     uint64   `json:"verif_seed"`
	Index    int      `json:"run_index"`
	RunSeed  uint64   `json:"run_seed"`
	Original int      `json:"choices_before_minimising"`
	Tries    int      `json:"minimiser_runs"`
	Fatal    bool     `json:"fatal,omitempty"`
	Prelude  []uint64 `json:"prelude_run_seeds,omitempty"`
	Hash     string   `json:"event_log_hash"`
	Tape     []uint64 `json:"tape"`
	Trace    []string `json:"trace"`
}

var (
	root    string // /verif
	repo    = "/repo"
	work    string
	cleanup []func()
	plain   []string // files that had to be built without instrumentation
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	done(2)
}

func done(code int) {
	for _, f := range cleanup {
		f()
	}
	os.Exit(code)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.Index(e+"=", "=")]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GORACE", "GODEBUG", "GOEXPERIMENT", "GOWORK", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" && os.Getenv("GOCACHE") == "" {
		env = append(env, "GOCACHE="+filepath.Join(root, ".build", "gocache"))
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.String(), err
}

// buildWorker instruments and compiles; returns the path of the worker.
func buildWorker(race bool) string {
	var err error
	src := filepath.Join(work, "src")
	os.MkdirAll(src, 0o755)
	ov, err := instrumentTree(repo, src)
	if err != nil {
		die("cannot read %s: %v", repo, err)
	}
	ovf := filepath.Join(work, "overlay.json")
	var sb strings.Builder
	for _, s := range sites {
		fmt.Fprintf(&sb, "%s:%d\n", s.File, s.Line)
	}
	os.WriteFile(filepath.Join(work, "sites"), []byte(sb.String()), 0o644)
	bin := filepath.Join(work, "simrun")
	args := []string{"build", "-o", bin, "-overlay", ovf}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./cmd/simrun")
	// A file whose instrumented form does not compile is used as it is: the
	// simulator then has no yield points in it, which is reported.
	for try := 0; ; try++ {
		b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		os.WriteFile(ovf, b, 0o644)
		out, err := run(filepath.Join(root, "sim"), goEnv(), "go", args...)
		if err == nil {
			return bin
		}
		dropped := 0
		if try < 8 {
			for orig, inst := range ov {
				if strings.Contains(out, filepath.Base(orig)+":") || strings.Contains(out, filepath.Base(inst)+":") {
					delete(ov, orig)
					plain = append(plain, orig)
					dropped++
				}
			}
		}
		if dropped == 0 {
			die("building the simulator against %s failed: %v\n%s", repo, err, out)
		}
		fmt.Fprintf(os.Stderr, "note: instrumented build failed, using %d files as they are\n%s", dropped, out)
	}
}

func raceEnv(dir string, n int) []string {
	return append(os.Environ(), fmt.Sprintf("GORACE=exitcode=0 log_path=%s/race%d suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3", dir, n))
}

func main() {
	var (
		prop   = flag.String("prop", "", "property id")
		rep    = flag.String("replay", "", "replay this file instead of exploring")
		runs   = flag.Int("runs", 0, "override the number of runs")
		secs   = flag.Float64("secs", 0, "override the wall-clock cap")
		survey = flag.Int("survey", 0, "count violation classes over n runs")
		one    = flag.Int("one", -1, "run one index with its trace")
		keep   = flag.Bool("keep", false, "keep the scratch directory")
		warm   = flag.Bool("warm", false, "only build (setup)")
		seedf  = flag.Uint64("seed", 0, "override VERIF_SEED")
		noknow = flag.Bool("noknown", false, "ignore the known findings file")
		nosh   = flag.Bool("noshrink", false, "do not minimise (for surveying)")
		jobs   = flag.Int("j", 0, "workers")
	)
	flag.Parse()
	root = os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repo = r // development only: a scratch copy that go.mod's replace also names
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		} else if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		}
	}
	if *seedf != 0 {
		seed = *seedf
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	start := time.Now()
	os.MkdirAll(filepath.Join(root, ".build"), 0o755)
	var err error
	work, err = os.MkdirTemp(filepath.Join(root, ".build"), "run-")
	if err != nil {
		die("%v", err)
	}
	if !*keep {
		w := work
		cleanup = append(cleanup, func() { os.RemoveAll(w) })
	} else {
		fmt.Println("scratch", work)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() { <-sig; done(2) }()

	// The list of properties comes from a plain build of the worker.
	if *warm {
		buildWorker(false)
		buildWorker(true)
		done(0)
	}
	if *prop == "" {
		die("-prop is required")
	}
	race := isRace(*prop)
	bin := buildWorker(race)
	lo, err := run(work, os.Environ(), bin, "-list")
	if err != nil {
		die("worker: %v %s", err, lo)
	}
	var infos []propInfo
	if err := json.Unmarshal([]byte(lo), &infos); err != nil {
		die("worker list: %v", err)
	}
	var pi *propInfo
	for i := range infos {
		if infos[i].ID == *prop {
			pi = &infos[i]
		}
	}
	if pi == nil {
		die("unknown property %s", *prop)
	}
	if pi.Race != race {
		die("property %s: race setting out of step", *prop)
	}
	buildS := time.Since(start).Seconds()

	sitesf := filepath.Join(work, "sites")
	if *rep != "" {
		c := exec.Command(bin, "-prop", pi.ID, "-replay", *rep, "-sites", sitesf)
		c.Env = raceEnv(work, 0)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		err := c.Run()
		code := 0
		if err != nil {
			code = 2
			if x, ok := err.(*exec.ExitError); ok {
				code = x.ExitCode()
			}
		}
		if code == 1 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", pi.ID, *rep)
		}
		done(code)
	}
	if *survey > 0 {
		c := exec.Command(bin, "-prop", pi.ID, "-survey", fmt.Sprint(*survey), "-seed", fmt.Sprint(seed), "-sites", sitesf)
		c.Env = raceEnv(work, 0)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Run()
		done(0)
	}
	if *one >= 0 {
		c := exec.Command(bin, "-prop", pi.ID, "-one", fmt.Sprint(*one), "-seed", fmt.Sprint(seed), "-sites", sitesf)
		c.Env = raceEnv(work, 0)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Run()
		done(0)
	}

	known := map[string]string{}
	if !*noknow {
		known = loadKnown(pi.ID)
	}
	var kl []string
	for k := range known {
		kl = append(kl, k)
	}
	knownf := filepath.Join(work, "known")
	os.WriteFile(knownf, []byte(strings.Join(kl, "\n")), 0o644)

	total := pi.Quick
	limit := 240.0
	if tier == "thorough" {
		total, limit = pi.Thorough, 3000
	}
	if *runs > 0 {
		total = *runs
	}
	if *secs > 0 {
		limit = *secs
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if *jobs > 0 {
		nw = *jobs
	}
	if nw > total {
		nw = total
	}
	const hashN = 40
	exploreStart := time.Now()
	res, vi := explore(bin, pi.ID, seed, total, nw, limit, hashN, sitesf, knownf)

	agg := summary{Counters: map[string]int64{}, Known: map[string]int64{}, KnownMsg: map[string]string{}}
	distinct := map[uint64]bool{}
	hl := map[uint64]uint64{}
	cov := make([]byte, 0)
	var vio *violation
	for w, s := range res {
		if s == nil {
			continue
		}
		agg.Runs += s.Runs
		agg.Nontriv += s.Nontriv
		agg.SimNanos += s.SimNanos
		agg.Steps += s.Steps
		agg.TimedOut = agg.TimedOut || s.TimedOut
		for k, v := range s.Counters {
			agg.Counters[k] += v
		}
		for k, v := range s.Known {
			agg.Known[k] += v
			agg.KnownMsg[k] = s.KnownMsg[k]
		}
		for _, h := range s.Hashes {
			distinct[h] = true
		}
		for i := 0; i+1 < len(s.HashLog); i += 2 {
			hl[s.HashLog[i]] = s.HashLog[i+1]
		}
		agg.Samples = append(agg.Samples, s.Samples...)
		if s.Violation != nil && s.VIndex == vi {
			vio = s.Violation
		}
		if b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("out%d.json.cov", w))); err == nil {
			if len(cov) < len(b) {
				cov = append(cov, make([]byte, len(b)-len(cov))...)
			}
			for i := range b {
				cov[i] |= b[i]
			}
		}
	}
	exploreS := time.Since(exploreStart).Seconds()

	histDep := 0
	replayPath := ""
	replayConfirmed := false
	var finalClass, finalMsg string
	if vi >= 0 {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		replayPath = filepath.Join(root, "replays", fmt.Sprintf("%s-%d-%d.json", pi.ID, seed, vi))
		finalClass, finalMsg = vio.Class, vio.Msg
		if strings.HasPrefix(vio.Class, "fatal:") {
			confirmFatal(bin, pi.ID, seed, vi, vio, sitesf, replayPath)
			replayConfirmed = true
		} else if *nosh {
			replayPath = "(none)"
		} else {
			minimise(bin, pi.ID, seed, vi, nw, pi.Fresh, vio, sitesf, replayPath)
			out, code := replayOnce(bin, pi.ID, replayPath, sitesf, "")
			if code != 1 {
				die("the replay file %s does not reproduce the violation in a fresh process (exit %d)\n%s", replayPath, code, out)
			}
			replayConfirmed = true
			var r replay
			b, _ := os.ReadFile(replayPath)
			json.Unmarshal(b, &r)
			finalMsg = r.Msg
			fmt.Printf("minimised from %d to %d choices in %d runs\n", r.Original, len(r.Tape), r.Tries)
			for i, l := range r.Trace {
				if i > 60 {
					fmt.Println("  ...")
					break
				}
				fmt.Println("  " + l)
			}
		}
	} else {
		// determinism self-check: other process, other partition, same hashes
		out := filepath.Join(work, "det.json")
		o, err := runEnv(work, raceEnv(work, 902), bin, 300*time.Second, "-prop", pi.ID, "-seed", fmt.Sprint(seed), "-from", "0", "-stride", "1", "-total", fmt.Sprint(min(hashN, total)), "-hashlog", fmt.Sprint(hashN), "-out", out, "-sites", sitesf, "-known", knownf)
		if err != nil {
			die("determinism self-check: %v\n%s", err, o)
		}
		var s summary
		b, _ := os.ReadFile(out)
		json.Unmarshal(b, &s)
		if len(s.HashLog) == 0 {
			die("determinism self-check: no hashes")
		}
		for i := 0; i+1 < len(s.HashLog); i += 2 {
			if h, ok := hl[s.HashLog[i]]; ok && h != s.HashLog[i+1] {
				// The library may keep state from one run to the next in
				// one process; alone in a process a run has to repeat.
				h1, h2 := aloneHash(bin, pi.ID, seed, int(s.HashLog[i]), sitesf), aloneHash(bin, pi.ID, seed, int(s.HashLog[i]), sitesf)
				if h1 != h2 || h1 == "" {
					die("run %d of %s is not deterministic (%s, %s)", s.HashLog[i], pi.ID, h1, h2)
				}
				histDep++
			}
		}
	}

	// evidence
	faults := map[string]int64{}
	probes := map[string]int64{}
	other := map[string]int64{}
	for k, v := range agg.Counters {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe:"):
			probes[k[6:]] = v
		default:
			other[k] = v
		}
	}
	reached, files := 0, map[string]int{}
	for i := range sites {
		if i < len(cov) && cov[i] != 0 {
			reached++
			files[sites[i].File]++
		}
	}
	if len(agg.Samples) > 2 {
		agg.Samples = agg.Samples[:2]
	}
	if len(agg.Samples) == 0 {
		agg.Samples = []string{"(no run completed)"}
	}
	nv := 0
	if vi >= 0 {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": pi.ID, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": nv,
		"assumptions": append([]string{}, pi.Assume...),
		"coverage": map[string]interface{}{
			"evaluations":                         agg.Runs,
			"distinct_nontrivial":                 len(distinct),
			"rule":                                pi.Rule,
			"samples":                             agg.Samples,
			"nontrivial_runs":                     agg.Nontriv,
			"seeds_per_hour":                      int64(float64(agg.Runs) / (exploreS + 0.001) * 3600),
			"explore_s":                           exploreS,
			"build_s":                             buildS,
			"workers":                             nw,
			"simulated_seconds":                   float64(agg.SimNanos) / 1e9,
			"library_statements":                  agg.Steps,
			"faults_injected":                     faults,
			"probes":                              probes,
			"counters":                            other,
			"statements_reached":                  reached,
			"statements_total":                    len(sites),
			"files_reached":                       len(files),
			"uninstrumented_files":                plain,
			"race_detector":                       pi.Race,
			"stopped_by_wall_cap":                 agg.TimedOut,
			"determinism_rechecks":                len(hl),
			"runs_that_depend_on_process_history": histDep,
			"known_findings_hit":                  agg.Known,
			"real_components":                     pi.Real,
			"stub_components":                     pi.Stub,
			"distinct_measure":                    "64-bit hash over the whole event log of a run (inputs, faults, schedule switch points, outcomes)",
		},
	}
	if nv == 1 {
		ev["violation"] = map[string]interface{}{"class": finalClass, "msg": finalMsg, "replay": replayPath, "replay_confirmed": replayConfirmed}
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", pi.ID+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	var ks []string
	for k := range agg.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s; %d runs)\n", pi.ID, known[k], k, agg.Known[k])
	}
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct), %.0f runs/s, %.1f simulated s, %d of %d statements, build %.1fs explore %.1fs\n",
		pi.ID, agg.Runs, agg.Nontriv, len(distinct), float64(agg.Runs)/(exploreS+0.001), float64(agg.SimNanos)/1e9, reached, len(sites), buildS, exploreS)
	fmt.Println("faults:", fmtMap(faults))
	fmt.Println("probes:", fmtMap(probes))
	if nv == 1 {
		fmt.Printf("run %d: %s\n%s\n", vi, finalClass, finalMsg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pi.ID, replayPath)
		done(1)
	}
	if len(distinct) == 0 {
		die("no non-trivial run completed")
	}
	done(0)
}

func aloneHash(bin, prop string, seed uint64, i int, sitesf string) string {
	out, _ := runEnv(work, raceEnv(work, 905), bin, 100*time.Second, "-prop", prop, "-seed", fmt.Sprint(seed), "-one", fmt.Sprint(i), "-sites", sitesf)
	k := strings.LastIndex(out, "hash=")
	if k < 0 || len(out) < k+21 {
		return ""
	}
	return out[k+5 : k+21]
}

func replayOnce(bin, prop, path, sitesf, outf string) (string, int) {
	args := []string{"-prop", prop, "-replay", path, "-sites", sitesf}
	if outf != "" {
		args = append(args, "-out", outf)
	}
	out, err := runEnv(work, raceEnv(work, 901), bin, 200*time.Second, args...)
	if err == nil {
		return out, 0
	}
	if x, ok := err.(*exec.ExitError); ok {
		return out, x.ExitCode()
	}
	return out, 2
}

func runSeed(prop string, seed uint64, i int) uint64 {
	h := tape.Mix(seed)
	for _, ch := range prop {
		h = tape.Mix(h ^ uint64(ch))
	}
	return tape.Mix(h ^ uint64(i)*0x9e3779b97f4a7c15)
}

// minimise writes the replay file: minimised within one process where the run
// fails on its own, otherwise in child processes, if need be preceded by the
// earlier runs whose left-over state in the library it depends on.
func minimise(bin, prop string, seed uint64, vi, nw, fresh int, v *violation, sitesf, path string) {
	out, err := runEnv(work, raceEnv(work, 900), bin, 200*time.Second, "-prop", prop, "-seed", fmt.Sprint(seed), "-shrink", fmt.Sprint(vi), "-out", path, "-sites", sitesf)
	if err == nil {
		if _, code := replayOnce(bin, prop, path, sitesf, ""); code == 1 {
			return
		}
	} else if err.Error() == "timed out" {
		if _, code := replayOnce(bin, prop, path, sitesf, ""); code == 1 {
			return
		}
		die("minimising run %d (%s: %s) failed: %v\n%s", vi, v.Class, v.Msg, err, out)
	} else if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() != 4 {
		die("minimising run %d (%s: %s) failed: %v\n%s", vi, v.Class, v.Msg, err, out)
	}
	tf, of := filepath.Join(work, "try.json"), filepath.Join(work, "tried.json")
	tries := 0
	deadline := time.Now().Add(100 * time.Second)
	try := func(pre []uint64, d []uint64) (bool, replay) {
		tries++
		r := replay{Property: prop, Class: v.Class, Msg: v.Msg, Seed: seed, Index: vi, RunSeed: runSeed(prop, seed, vi), Prelude: pre, Tape: d}
		b, _ := json.Marshal(r)
		os.WriteFile(tf, b, 0o644)
		if _, code := replayOnce(bin, prop, tf, sitesf, of); code != 1 {
			return false, r
		}
		b, _ = os.ReadFile(of)
		r.Trace = nil
		json.Unmarshal(b, &r)
		return true, r
	}
	ok, r := try(nil, nil)
	var pre []uint64
	if !ok {
		first := vi % nw
		if fresh > 0 {
			k := vi / nw
			first += (k - k%fresh) * nw
		}
		for i := first; i < vi; i += nw {
			pre = append(pre, runSeed(prop, seed, i))
		}
		if ok, r = try(pre, nil); !ok {
			die("run %d (%s: %s) fails neither alone nor after the runs before it: nondeterminism in the simulator\n%s", vi, v.Class, v.Msg, out)
		}
		for n := len(pre) / 2; n > 0; n /= 2 {
			for i := 0; i+n <= len(pre) && time.Now().Before(deadline); {
				c := append(append([]uint64(nil), pre[:i]...), pre[i+n:]...)
				if ok, r2 := try(c, nil); ok {
					pre, r = c, r2
				} else {
					i += n
				}
			}
		}
	}
	n0 := len(r.Tape)
	best := r
	tape.Shrink(r.Tape, 400, func(d []uint64) (bool, []uint64) {
		if time.Now().After(deadline) || len(d) == 0 {
			return false, nil
		}
		ok, r2 := try(pre, d)
		if ok && len(r2.Tape) <= len(best.Tape) {
			best = r2
		}
		return ok, r2.Tape
	})
	best.Original, best.Tries = n0, tries
	b, _ := json.MarshalIndent(best, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

func fmtMap(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, m[k])
	}
	return b.String()
}

func runEnv(dir string, env []string, name string, to time.Duration, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = env
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	s := b.String()
	if len(s) > 8000 {
		s = s[:4000] + "\n...\n" + s[len(s)-4000:]
	}
	if ctx.Err() != nil {
		return s, fmt.Errorf("timed out")
	}
	return s, err
}

// explore runs the workers and returns their summaries and the smallest
// violating index (or -1).
func explore(bin, prop string, seed uint64, total, nw int, limit float64, hashN int, sitesf, knownf string) ([]*summary, int) {
	res := make([]*summary, nw)
	errs := make([]string, nw)
	stopf := filepath.Join(work, "stop")
	var mu sync.Mutex
	best := -1
	note := func(i int) {
		mu.Lock()
		defer mu.Unlock()
		if best < 0 || i < best {
			best = i
			os.WriteFile(stopf+".tmp", []byte(fmt.Sprint(i)), 0o644)
			os.Rename(stopf+".tmp", stopf)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out := filepath.Join(work, fmt.Sprintf("out%d.json", w))
			status := filepath.Join(work, fmt.Sprintf("status%d", w))
			c := exec.Command(bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-stride", fmt.Sprint(nw),
				"-total", fmt.Sprint(total), "-secs", fmt.Sprint(limit), "-hashlog", fmt.Sprint(hashN), "-out", out, "-status", status,
				"-sites", sitesf, "-known", knownf, "-stopfile", stopf)
			c.Dir = work
			c.Env = raceEnv(work, w)
			var b tailBuf
			c.Stdout, c.Stderr = &b, &b
			if err := c.Start(); err != nil {
				errs[w] = err.Error()
				return
			}
			exited := make(chan error, 1)
			go func() { exited <- c.Wait() }()
			last, since := "", time.Now()
			var err error
			stuck := false
		loop:
			for {
				select {
				case err = <-exited:
					break loop
				case <-time.After(time.Second):
					s, _ := os.ReadFile(status)
					if string(s) != last {
						last, since = string(s), time.Now()
					} else if time.Since(since) > 60*time.Second {
						stuck = true
						c.Process.Kill()
						err = <-exited
						break loop
					}
				}
			}
			jb, rerr := os.ReadFile(out)
			if err == nil && rerr == nil {
				var s summary
				if e := json.Unmarshal(jb, &s); e != nil {
					errs[w] = e.Error()
					return
				}
				res[w] = &s
				if s.Harness != "" {
					errs[w] = fmt.Sprintf("run %d: %s", s.HIndex, s.Harness)
					return
				}
				if s.Violation != nil {
					note(s.VIndex)
				}
				return
			}
			sb, _ := os.ReadFile(status)
			idx, e := strconv.Atoi(strings.TrimSpace(string(sb)))
			if e != nil {
				errs[w] = fmt.Sprintf("worker died before its first run: %v\n%s", err, b.String())
				return
			}
			why := "worker died: " + fmt.Sprint(err)
			if stuck {
				why = "stuck outside the library's own statements"
			}
			cls := fatalClass(b.String(), stuck)
			if cls == "" {
				errs[w] = fmt.Sprintf("run %d: %s\n%s", idx, why, b.String())
				return
			}
			res[w] = &summary{Violation: &violation{cls, why + "\n" + b.String()}, VIndex: idx, HIndex: -1}
			note(idx)
		}(w)
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			if best < 0 {
				die("worker: %s", e)
			}
			fmt.Fprintln(os.Stderr, "note: another worker reported:", e)
		}
	}
	return res, best
}

// tailBuf keeps the beginning of what a worker prints.
type tailBuf struct{ b bytes.Buffer }

func (t *tailBuf) Write(p []byte) (int, error) {
	if n := 16384 - t.b.Len(); n > 0 {
		if len(p) < n {
			n = len(p)
		}
		t.b.Write(p[:n])
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return t.b.String() }

func fatalClass(out string, stuck bool) string {
	if stuck {
		return "fatal:stuck"
	}
	lib := strings.Contains(out, "github.com/use-go/gosips/")
	if !lib {
		return ""
	}
	switch {
	case strings.Contains(out, "stack overflow") || strings.Contains(out, "goroutine stack exceeds"):
		return "fatal:stack overflow"
	case strings.Contains(out, "concurrent map"):
		return "fatal:concurrent map access"
	case strings.Contains(out, "out of memory"):
		return "fatal:out of memory"
	case strings.Contains(out, "fatal error:"):
		return "fatal:runtime"
	}
	return ""
}

// confirmFatal re-runs a run that killed its worker; only a run that does it
// again, twice, is a violation.  It is minimised in child processes.
func confirmFatal(bin, prop string, seed uint64, idx int, v *violation, sitesf, path string) {
	stuck := v.Class == "fatal:stuck"
	try := func(args ...string) (bool, string) {
		to := 60 * time.Second
		out, err := runEnv(work, raceEnv(work, 903), bin, to, append([]string{"-prop", prop, "-seed", fmt.Sprint(seed), "-sites", sitesf}, args...)...)
		if err != nil && err.Error() == "timed out" {
			return stuck, out
		}
		return err != nil && fatalClass(out, false) == v.Class, out
	}
	tl := filepath.Join(work, "tape")
	for k := 0; k < 2; k++ {
		if ok, out := try("-one", fmt.Sprint(idx), "-tapelog", tl); !ok {
			die("run %d killed its worker (%s) but not again when repeated\n%s\n%s", idx, v.Class, v.Msg, out)
		}
	}
	b, _ := os.ReadFile(tl)
	var data []uint64
	for _, l := range strings.Fields(string(b)) {
		n, _ := strconv.ParseUint(l, 10, 64)
		data = append(data, n)
	}
	mk := func(d []uint64) replay {
		return replay{Property: prop, Class: v.Class, Msg: v.Msg, Seed: seed, Index: idx, Original: len(data), Fatal: true, Tape: d}
	}
	write := func(p string, d []uint64) {
		jb, _ := json.MarshalIndent(mk(d), "", " ")
		os.WriteFile(p, jb, 0o644)
	}
	if !stuck {
		deadline := time.Now().Add(60 * time.Second)
		tf := filepath.Join(work, "try.json")
		best, _ := tape.Shrink(data, 300, func(d []uint64) (bool, []uint64) {
			if time.Now().After(deadline) {
				return false, nil
			}
			write(tf, d)
			ok, _ := try("-replay", tf)
			return ok, d
		})
		data = best
	}
	write(path, data)
}

// loadKnown reads the committed list of genuine defects that are recorded
// rather than repaired:
//
//	finding: property=<id> class=<violation class> <what fails>
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+id+" class=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" class=")
		i := strings.Index(l, " ")
		if i < 0 {
			i = len(l)
		}
		m[l[:i]] = strings.TrimSpace(l[i:])
	}
	return m
}
