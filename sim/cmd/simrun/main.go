// simrun is the worker: it runs simulated executions of one property.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/props"
	"verifsim/tape"
	"verifsim/vsched"
)

// Summary is what a worker reports for its share of the runs.
type Summary struct {
	Runs      int               `json:"runs"`
	Nontriv   int               `json:"nontriv"`
	Counters  map[string]int64  `json:"counters"`
	SimNanos  int64             `json:"sim_nanos"`
	Steps     int64             `json:"steps"`
	Sites     int               `json:"sites"`
	Hashes    []uint64          `json:"hashes"`
	HashLog   []uint64          `json:"hashlog"`
	Samples   []string          `json:"samples"`
	Violation *props.Violation  `json:"violation,omitempty"`
	VIndex    int               `json:"vindex"`
	Known     map[string]int64  `json:"known"`
	KnownMsg  map[string]string `json:"known_msg"`
	Harness   string            `json:"harness,omitempty"`
	HIndex    int               `json:"hindex"`
	TimedOut  bool              `json:"timed_out"`
}

// Replay is the replay file.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Msg      string   `json:"msg"`
	Seed     uint64   `json:"verif_seed"`
	Index    int      `json:"run_index"`
	RunSeed  uint64   `json:"run_seed"`
	Original int      `json:"choices_before_minimising"`
	Tries    int      `json:"minimiser_runs"`
	Fatal    bool     `json:"fatal,omitempty"`
	Prelude  []uint64 `json:"prelude_run_seeds,omitempty"` // runs made first, in the same process
	Hash     string   `json:"event_log_hash"`
	Tape     []uint64 `json:"tape"`
	Trace    []string `json:"trace"`
}

func runSeed(prop string, seed uint64, i int) uint64 {
	h := tape.Mix(seed)
	for _, ch := range prop {
		h = tape.Mix(h ^ uint64(ch))
	}
	return tape.Mix(h ^ uint64(i)*0x9e3779b97f4a7c15)
}

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		seed    = flag.Uint64("seed", 1, "VERIF_SEED")
		from    = flag.Int("from", 0, "first run index")
		stride  = flag.Int("stride", 1, "index stride")
		total   = flag.Int("total", 1, "runs in the whole batch")
		secs    = flag.Float64("secs", 600, "wall clock cap")
		hashes  = flag.Int("hashlog", 0, "report the event-log hash of the first n indices")
		shrink  = flag.Int("shrink", -1, "minimise run index n")
		budget  = flag.Int("budget", 4000, "minimiser runs")
		replay  = flag.String("replay", "", "replay file")
		out     = flag.String("out", "", "output file")
		sitesf  = flag.String("sites", "", "site table")
		knownf  = flag.String("known", "", "known classes, one per line")
		status  = flag.String("status", "", "file that holds the index being run")
		verbose = flag.Bool("v", false, "print traces")
		list    = flag.Bool("list", false, "list properties as json")
		survey  = flag.Int("survey", 0, "count violation classes over n runs")
		one     = flag.Int("one", -1, "run one index and print its trace")
		stopf   = flag.String("stopfile", "", "file holding an index beyond which to stop")
		resume  = flag.String("resume", "", "carry on with the batch whose summary so far is in this file")
		began   = flag.Int64("began", 0, "when the batch began (ns)")
		tapelog = flag.String("tapelog", "", "append every choice to this file as it is made")
	)
	flag.Parse()
	if *list {
		b, _ := json.Marshal(propList())
		fmt.Println(string(b))
		return
	}
	p := props.Find(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if p.Race {
		runtime.GOMAXPROCS(1)
	}
	debug.SetMaxStack(256 << 20)
	if *sitesf != "" {
		if b, err := os.ReadFile(*sitesf); err == nil {
			props.Sites = strings.Split(strings.TrimSpace(string(b)), "\n")
		}
	}
	known := map[string]bool{}
	if *knownf != "" {
		b, _ := os.ReadFile(*knownf)
		for _, l := range strings.Split(string(b), "\n") {
			if l = strings.TrimSpace(l); l != "" {
				known[l] = true
			}
		}
	}
	setupRace()

	switch {
	case *replay != "":
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, s := range r.Prelude {
			props.Execute(p, tape.New(s), false)
		}
		t := tape.Replay(r.Tape)
		if r.Tape == nil {
			t = tape.New(r.RunSeed)
		}
		o := props.Execute(p, t, true)
		for _, l := range o.Trace {
			fmt.Println("  " + l)
		}
		if o.Harness != "" {
			fmt.Println("HARNESS", o.Harness)
			os.Exit(2)
		}
		if o.V == nil {
			fmt.Println("no violation")
			os.Exit(0)
		}
		fmt.Printf("REPLAYED class=%s hash=%016x\n%s\n", o.V.Class, o.Hash, o.V.Msg)
		if o.V.Class != r.Class {
			os.Exit(3)
		}
		if *out != "" {
			r.Hash, r.Trace, r.Msg, r.Tape = fmt.Sprintf("%016x", o.Hash), o.Trace, o.V.Msg, o.Data
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		os.Exit(1)
	case *survey > 0:
		n := map[string]int{}
		ex := map[string]props.Outcome{}
		exi := map[string]int{}
		for i := 0; i < *survey; i++ {
			o := props.Execute(p, tape.New(runSeed(p.ID, *seed, i)), false)
			if o.Harness != "" {
				fmt.Println("HARNESS", i, o.Harness)
				os.Exit(2)
			}
			if o.V != nil {
				n[o.V.Class]++
				if e, ok := ex[o.V.Class]; !ok || len(o.V.Msg) < len(e.V.Msg) {
					ex[o.V.Class], exi[o.V.Class] = o, i
				}
			}
		}
		var ks []string
		for k := range n {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return n[ks[i]] > n[ks[j]] })
		for _, k := range ks {
			m := ex[k].V.Msg
			if len(m) > 900 {
				m = m[:900] + "..."
			}
			fmt.Printf("%6d %s (run %d)\n       %s\n", n[k], k, exi[k], strings.Replace(m, "\n", "\n       ", -1))
		}
		fmt.Println(len(ks), "classes in", *survey, "runs")
	case *one >= 0:
		t := tape.New(runSeed(p.ID, *seed, *one))
		if *tapelog != "" {
			f, err := os.Create(*tapelog)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			t.Sink = func(v uint64) { fmt.Fprintln(f, v) }
		}
		o := props.Execute(p, t, true)
		for _, l := range o.Trace {
			fmt.Println("  " + l)
		}
		fmt.Printf("hash=%016x choices=%d steps=%d nontrivial=%v counters=%v\n", o.Hash, len(o.Data), o.Steps, o.Nontriv, o.Counters)
		if o.Harness != "" {
			fmt.Println("HARNESS", o.Harness)
			os.Exit(2)
		}
		if o.V != nil {
			fmt.Println("VIOLATION", o.V.Class, o.V.Msg)
			os.Exit(1)
		}
	case *shrink >= 0:
		rs := runSeed(p.ID, *seed, *shrink)
		o := props.Execute(p, tape.New(rs), false)
		if o.V == nil {
			fmt.Fprintln(os.Stderr, "run does not fail on its own in this process")
			os.Exit(4)
		}
		class := o.V.Class
		n0 := len(o.Data)
		if b, err := json.MarshalIndent(Replay{Property: p.ID, Class: class, Msg: o.V.Msg, Seed: *seed, Index: *shrink, RunSeed: rs,
			Original: n0, Hash: fmt.Sprintf("%016x", o.Hash), Tape: o.Data}, "", " "); err == nil {
			os.WriteFile(*out, b, 0o644) // in case minimising gets stuck
		}
		deadline := time.Now().Add(90 * time.Second)
		best, used := tape.Shrink(o.Data, *budget, func(d []uint64) (bool, []uint64) {
			if time.Now().After(deadline) {
				return false, nil
			}
			o := props.Execute(p, tape.Replay(d), false)
			return o.Harness == "" && o.V != nil && o.V.Class == class, o.Data
		})
		o = props.Execute(p, tape.Replay(best), true)
		if o.V == nil || o.V.Class != class {
			fmt.Fprintln(os.Stderr, "minimised run does not fail again in this process")
			os.Exit(4)
		}
		r := Replay{Property: p.ID, Class: class, Msg: o.V.Msg, Seed: *seed, Index: *shrink, RunSeed: rs,
			Original: n0, Tries: used, Hash: fmt.Sprintf("%016x", o.Hash), Tape: best, Trace: o.Trace}
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	default:
		s := Summary{Counters: map[string]int64{}, Known: map[string]int64{}, KnownMsg: map[string]string{}, VIndex: -1, HIndex: -1}
		start := time.Now()
		seen := map[uint64]bool{}
		if *began != 0 {
			start = time.Unix(0, *began)
		}
		if *resume != "" { // a fresh process of the same batch
			b, err := os.ReadFile(*resume)
			if err == nil {
				err = json.Unmarshal(b, &s)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			for _, h := range s.Hashes {
				seen[h] = true
			}
			s.Hashes = nil
			if b, err := os.ReadFile(*resume + ".cov"); err == nil {
				vsched.AddCoverage(b)
			}
		}
		runsHere := 0
		lastStop, stopAt := time.Now(), 1<<62
		var st *os.File
		if *status != "" {
			st, _ = os.Create(*status)
		}
		for i := *from; i < *total; i += *stride {
			if st != nil {
				st.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
			}
			if *stopf != "" && time.Since(lastStop) > 50*time.Millisecond {
				lastStop = time.Now()
				if b, err := os.ReadFile(*stopf); err == nil {
					if n, err := strconv.Atoi(string(b)); err == nil {
						stopAt = n
					}
				}
			}
			if i > stopAt {
				break
			}
			if time.Since(start).Seconds() > *secs {
				s.TimedOut = true
				break
			}
			if p.Fresh > 0 && runsHere >= p.Fresh && *out != "" {
				for h := range seen {
					s.Hashes = append(s.Hashes, h)
				}
				b, err := json.Marshal(s)
				if err == nil {
					err = os.WriteFile(*out+".state", b, 0o644)
				}
				if err == nil {
					err = os.WriteFile(*out+".state.cov", vsched.CoverageBits(), 0o644)
				}
				if err == nil {
					args := []string{os.Args[0], "-prop", *prop, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(i), "-stride", fmt.Sprint(*stride),
						"-total", fmt.Sprint(*total), "-secs", fmt.Sprint(*secs), "-hashlog", fmt.Sprint(*hashes), "-out", *out, "-status", *status,
						"-sites", *sitesf, "-known", *knownf, "-stopfile", *stopf, "-began", fmt.Sprint(start.UnixNano()), "-resume", *out + ".state"}
					err = syscall.Exec(os.Args[0], args, os.Environ())
				}
				fmt.Fprintln(os.Stderr, "restarting:", err)
				os.Exit(2)
			}
			runsHere++
			keep := i < 2
			o := props.Execute(p, tape.New(runSeed(p.ID, *seed, i)), keep)
			s.Runs++
			if o.Harness != "" {
				s.Harness, s.HIndex = o.Harness, i
				break
			}
			if i < *hashes {
				s.HashLog = append(s.HashLog, uint64(i), o.Hash)
			}
			for k, v := range o.Counters {
				s.Counters[k] += v
			}
			s.SimNanos += int64(o.SimTime)
			s.Steps += o.Steps
			if o.Nontriv {
				s.Nontriv++
				if !seen[o.Hash] {
					seen[o.Hash] = true
				}
			}
			if keep {
				tr := o.Trace
				if len(tr) > 14 {
					tr = append(append([]string(nil), tr[:14]...), fmt.Sprintf("... %d more events", len(o.Trace)-14))
				}
				for j := range tr {
					if len(tr[j]) > 240 {
						tr[j] = tr[j][:240] + "..."
					}
				}
				s.Samples = append(s.Samples, fmt.Sprintf("run %d: ", i)+strings.Join(tr, " | "))
			}
			if o.V != nil {
				if known[o.V.Class] {
					s.Known[o.V.Class]++
					s.KnownMsg[o.V.Class] = o.V.Msg
					continue
				}
				s.Violation, s.VIndex = o.V, i
				break
			}
		}
		s.Sites = vsched.Coverage()
		for h := range seen {
			s.Hashes = append(s.Hashes, h)
		}
		sort.Slice(s.Hashes, func(i, j int) bool { return s.Hashes[i] < s.Hashes[j] })
		b, _ := json.Marshal(s)
		w := bufio.NewWriter(os.Stdout)
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
			if cb := vsched.CoverageBits(); cb != nil {
				os.WriteFile(*out+".cov", cb, 0o644)
			}
		} else {
			s.Hashes = nil
			b, _ = json.MarshalIndent(s, "", " ")
			fmt.Fprintln(w, string(b))
			w.Flush()
		}
	}
	_ = verbose
}

type propInfo struct {
	ID, Title, Rule string
	Race            bool
	Quick, Thorough int
	Fresh           int
	Real, Stub      []string
	Assume          []string
}

func propList() []propInfo {
	var l []propInfo
	for _, p := range props.All {
		l = append(l, propInfo{p.ID, p.Title, p.Rule, p.Race, p.Quick, p.Thorough, p.Fresh, p.Real, p.Stub, p.Assume})
	}
	return l
}
