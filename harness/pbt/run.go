package pbt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Sub is one generated check of a property.
type Sub struct {
	Name    string
	Quick   int // cases at the quick tier
	Weight  int // share of the thorough budget, default 1
	Workers int // default: number of CPUs
	Timeout time.Duration
	Max     int // highest number of cases that makes sense (finite spaces), 0: no limit
	Fn      func(*T)
}

// Known is a recorded defect: a fixed input which breaks the property.
type Known struct {
	ID   string
	What string
	Fn   func() error // the failure, nil if the property holds for the input
}

// Prop is a property with its checks.
type Prop struct {
	ID          string
	Rule        string
	Level       string
	Assumptions []string
	Subs        []Sub
	Known       []Known
	Race        bool // build with the race detector
}

// Env is where things are.
type Env struct {
	Verif, Tier string
	Out         string // where evidence and replays go
	Seed        int64
	Scratch     string
}

type subResult struct {
	Name     string         `json:"name"`
	Evals    int64          `json:"evals"`
	Discards int64          `json:"discarded"`
	Nontriv  int64          `json:"distinct_nontrivial"`
	Labels   map[string]int `json:"labels,omitempty"`
	Samples  []string       `json:"samples,omitempty"`
	Fails    []failCase     `json:"fails,omitempty"`
	WallS    float64        `json:"wall_s"`
	Stopped  bool           `json:"stopped_by_time,omitempty"`
}

type failCase struct {
	Sub     string   `json:"sub"`
	Idx     int      `json:"idx"`
	Size    int      `json:"size"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Choices []uint64 `json:"choices"`
	Shrunk  bool     `json:"shrunk"`
	Tries   int      `json:"shrink_tries"`
	Log     string   `json:"log"`
	Crash   bool     `json:"crash,omitempty"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	failCase
	How string `json:"how"`
}

type workerResult struct {
	Subs  []subResult
	Known []string // ids which still fail
	KMsg  map[string]string
}

func caseSeed(seed int64, prop, sub string, idx int) uint64 {
	return mix(mix(uint64(seed)^hashStr(prop)) ^ hashStr(sub)<<1 ^ mix(uint64(idx)*0x9e3779b1+7))
}

func sizeOf(idx, n int) int {
	// the sizes cycle, so that every stretch of cases has small and large ones
	return (idx * 7) % 101
}

func newT(env *Env, prop string, s *Sub, idx int) *T {
	return &T{st: caseSeed(env.Seed, prop, s.Name, idx), Size: sizeOf(idx, 0), Idx: idx, Tier: env.Tier}
}

const slotSize = 32

// Worker runs the cases; it is a process of its own because cases may crash it.
func Worker(p *Prop, env *Env, out, slots string, only string, skip map[string]bool, budget time.Duration) error {
	sf, err := os.OpenFile(slots, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return err
	}
	defer sf.Close()
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	type inflight struct {
		sub, idx int
		at       time.Time
		on       bool
		tmo      time.Duration
	}
	fl := make([]inflight, nw)
	var flMu sync.Mutex
	hang := func(s, i int, what string) {
		fmt.Fprintf(os.Stderr, "STUCK sub=%d idx=%d %s\n", s, i, what)
		var b [slotSize]byte
		binary.LittleEndian.PutUint64(b[:], 2)
		binary.LittleEndian.PutUint64(b[8:], uint64(s))
		binary.LittleEndian.PutUint64(b[16:], uint64(i))
		for w := 0; w < nw; w++ {
			var z [slotSize]byte
			sf.WriteAt(z[:], int64(w)*slotSize)
		}
		sf.WriteAt(b[:], 0)
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		os.Stderr.Write(buf)
		os.Exit(3)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now()
			flMu.Lock()
			for _, f := range fl {
				if f.on && now.Sub(f.at) > f.tmo {
					hang(f.sub, f.idx, "timeout")
				}
			}
			flMu.Unlock()
			if rss() > 10<<30 {
				flMu.Lock()
				old := -1
				for i, f := range fl {
					if f.on && (old < 0 || f.at.Before(fl[old].at)) {
						old = i
					}
				}
				if old >= 0 {
					hang(fl[old].sub, fl[old].idx, "memory")
				}
				os.Exit(4)
			}
		}
	}()
	onlySub, onlyIdx := "", -1
	if only != "" {
		i := strings.LastIndexByte(only, ':')
		onlySub = only[:i]
		fmt.Sscanf(only[i+1:], "%d", &onlyIdx)
	}
	wr := workerResult{KMsg: map[string]string{}}
	if only == "" {
		for _, k := range p.Known {
			if err := runKnown(k); err != nil {
				wr.Known = append(wr.Known, k.ID)
				wr.KMsg[k.ID] = err.Error()
			}
		}
	}
	wsum := 0
	for _, s := range p.Subs {
		wsum += max(1, s.Weight)
	}
	start := time.Now()
	for si := range p.Subs {
		s := &p.Subs[si]
		if onlySub != "" && s.Name != onlySub {
			continue
		}
		t0 := time.Now()
		n := s.Quick
		if sc, err := strconv.ParseFloat(os.Getenv("VERIF_DEV_SCALE"), 64); err == nil {
			n = max(1, int(float64(n)*sc)) // development only
		}
		var stopAt time.Time
		if env.Tier == "thorough" && onlyIdx < 0 {
			n = 1 << 40
			stopAt = time.Now().Add(budget * time.Duration(max(1, s.Weight)) / time.Duration(wsum))
		} else {
			stopAt = start.Add(budget)
		}
		if s.Max > 0 && n > s.Max {
			n = s.Max
		}
		tmo := s.Timeout
		if tmo == 0 {
			tmo = 60 * time.Second
		}
		res := subResult{Name: s.Name, Labels: map[string]int{}}
		var mu sync.Mutex
		seen := map[uint64]struct{}{}
		var next int64
		var stop atomic.Bool
		kinds := map[string]bool{}
		var fails []failCase
		var sampleIdx []int
		workers := s.Workers
		if workers == 0 || workers > nw {
			workers = nw
		}
		if onlyIdx >= 0 {
			workers = 1
			next = int64(onlyIdx)
			n = onlyIdx + 1
		}
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !stop.Load() {
					i := int(atomic.AddInt64(&next, 1)) - 1
					if i >= n {
						return
					}
					if time.Now().After(stopAt) {
						res.Stopped = env.Tier != "thorough"
						return
					}
					if skip[fmt.Sprintf("%s:%d", s.Name, i)] {
						continue
					}
					var b [slotSize]byte
					binary.LittleEndian.PutUint64(b[:], 1)
					binary.LittleEndian.PutUint64(b[8:], uint64(si))
					binary.LittleEndian.PutUint64(b[16:], uint64(i))
					sf.WriteAt(b[:], int64(w)*slotSize)
					flMu.Lock()
					fl[w] = inflight{si, i, time.Now(), true, tmo}
					flMu.Unlock()
					t := newT(env, p.ID, s, i)
					r := runCase(s.Fn, t)
					flMu.Lock()
					fl[w].on = false
					flMu.Unlock()
					b[0] = 0
					sf.WriteAt(b[:], int64(w)*slotSize)
					mu.Lock()
					if r.discard {
						res.Discards++
						mu.Unlock()
						continue
					}
					res.Evals++
					for _, l := range r.labels {
						res.Labels[l]++
					}
					if r.nontr {
						h := uint64(14695981039346656037)
						for _, c := range r.rec {
							h = mix(h ^ c)
						}
						if len(seen) < 1<<23 {
							if _, ok := seen[h]; !ok {
								seen[h] = struct{}{}
								res.Nontriv++
								if len(sampleIdx) < 40 {
									sampleIdx = append(sampleIdx, i)
								}
							}
						}
					}
					if r.fail != nil && !kinds[r.fail.Kind] && len(fails) < 3 {
						kinds[r.fail.Kind] = true
						fails = append(fails, failCase{Sub: s.Name, Idx: i, Size: t.Size, Kind: r.fail.Kind, Msg: r.fail.Msg, Choices: r.rec})
						stop.Store(true)
					}
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		// shrink
		for i := range fails {
			f := &fails[i]
			bud := 20 * time.Second
			if os.Getenv("VERIF_DEV_SCALE") != "" {
				bud = time.Second / 2
			}
			if i > 0 {
				bud = 5 * time.Second
			}
			orig := f.Choices
			base := *newT(env, p.ID, s, f.Idx)
			f.Choices, f.Tries = shrink(s.Fn, base, orig, f.Kind, bud)
			t := newT(env, p.ID, s, f.Idx)
			t.prefix, t.replay, t.log = f.Choices, true, &strings.Builder{}
			r := runCase(s.Fn, t)
			if r.fail != nil {
				f.Msg, f.Log, f.Shrunk = r.fail.Msg, r.log, true
			}
		}
		res.Fails = fails
		// samples
		if len(sampleIdx) > 0 && len(fails) == 0 && onlyIdx < 0 {
			sort.Ints(sampleIdx)
			for _, k := range []int{0, len(sampleIdx) / 2, len(sampleIdx) - 1} {
				i := sampleIdx[k]
				t := newT(env, p.ID, s, i)
				t.log = &strings.Builder{}
				r := runCase(s.Fn, t)
				l := r.log
				if len(l) > 1200 {
					l = l[:1200] + " …"
				}
				res.Samples = append(res.Samples, fmt.Sprintf("[%s case %d]\n%s", s.Name, i, strings.ToValidUTF8(l, "?")))
				if len(sampleIdx) == 1 {
					break
				}
			}
		}
		res.WallS = time.Since(t0).Seconds()
		wr.Subs = append(wr.Subs, res)
	}
	data, err := json.Marshal(wr)
	if err != nil {
		return err
	}
	return os.WriteFile(out, data, 0o644)
}

func runKnown(k Known) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return k.Fn()
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscanf(string(b), "%d %d", &a, &r)
	return r * 4096
}

// knownFile reads the ids of the recorded findings of a property.
func knownFile(env *Env, prop string) map[string]bool {
	m := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(env.Verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "id=") {
			m[f[2][3:]] = true
		}
	}
	return m
}

// Supervise runs a property in worker processes and reports. It returns the exit code.
func Supervise(p *Prop, env *Env, self []string, extraEnv []string) int {
	start := time.Now()
	budget := 200 * time.Second
	if env.Tier == "thorough" {
		budget = 600 * time.Second
		if s := os.Getenv("VERIF_BUDGET"); s != "" {
			if d, err := time.ParseDuration(s); err == nil {
				budget = d
			}
		}
	}
	out := filepath.Join(env.Scratch, "result.json")
	slots := filepath.Join(env.Scratch, "slots")
	skip := map[string]bool{}
	var crashes []failCase
	var wr workerResult
	ok := false
	notes := []string{}
	for attempt := 0; attempt < 5 && !ok; attempt++ {
		os.Remove(out)
		os.Remove(slots)
		args := append([]string{}, self[1:]...)
		args = append(args, "work", p.ID, env.Tier, fmt.Sprint(env.Seed), out, slots, "", strings.Join(keys(skip), ","), budget.String())
		log, code := runProc(self[0], args, extraEnv, budget+5*time.Minute)
		if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &wr) == nil && (code == 0 || code == 66) {
			ok = true
			if code == 66 {
				crashes = append(crashes, failCase{Sub: "race", Kind: "data-race", Msg: head(log, 6000), Crash: true})
			}
			break
		}
		if p.Race && (strings.Contains(log, "DATA RACE") || strings.Contains(log, "fatal error: concurrent map")) {
			// which case was in flight does not matter: the accesses are unordered
			if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
				log = log[i:]
			} else if i := strings.Index(log, "fatal error: concurrent map"); i >= 0 {
				log = log[i:]
			}
			crashes = append(crashes, failCase{Sub: "race", Kind: "data-race", Msg: head(log, 6000), Crash: true})
			break
		}
		// which case was it?
		var cand []string
		if b, err := os.ReadFile(slots); err == nil {
			for i := 0; i+slotSize <= len(b); i += slotSize {
				if binary.LittleEndian.Uint64(b[i:]) != 0 {
					si, idx := binary.LittleEndian.Uint64(b[i+8:]), binary.LittleEndian.Uint64(b[i+16:])
					if int(si) < len(p.Subs) {
						cand = append(cand, fmt.Sprintf("%s:%d", p.Subs[si].Name, idx))
					}
				}
			}
		}
		notes = append(notes, fmt.Sprintf("worker ended with %d; cases in flight: %v", code, cand))
		found := false
		for _, c := range cand {
			os.Remove(out)
			args := append([]string{}, self[1:]...)
			args = append(args, "work", p.ID, env.Tier, fmt.Sprint(env.Seed), out, slots+"1", c, "", budget.String())
			l2, code2 := runProc(self[0], args, extraEnv, 3*time.Minute)
			if code2 == 0 {
				continue
			}
			found = true
			i := strings.LastIndexByte(c, ':')
			var idx int
			fmt.Sscanf(c[i+1:], "%d", &idx)
			kind := "crash"
			if code2 == 3 {
				kind = "hang"
			}
			crashes = append(crashes, failCase{Sub: c[:i], Idx: idx, Kind: kind, Msg: head(l2, 4000), Crash: true})
			skip[c] = true
		}
		if !found {
			fmt.Fprintf(os.Stderr, "worker failed (%d) and no case reproduces it:\n%s\n", code, head(log, 4000))
			if attempt >= 2 {
				return 2
			}
		}
		if len(crashes) > 0 {
			break // one is enough to report
		}
	}
	kf := knownFile(env, p.ID)
	nviol := 0
	var lines []string
	report := func(f failCase) {
		dir := filepath.Join(env.Out, "replays")
		os.MkdirAll(dir, 0o755)
		name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, f.Sub, nviol))
		rp := Replay{Property: p.ID, Tier: env.Tier, Seed: env.Seed, failCase: f,
			How: fmt.Sprintf("/verif/check.sh %s --replay %s", p.ID, name)}
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(name, b, 0o644)
		nviol++
		fmt.Printf("---- %s/%s [%s] case %d, %d choices\n%s\n", p.ID, f.Sub, f.Kind, f.Idx, len(f.Choices), head(f.Msg, 3000))
		if f.Log != "" {
			fmt.Printf("generated:\n%s\n", head(f.Log, 3000))
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, name))
	}
	for _, c := range crashes {
		report(c)
	}
	var evals, nontr, disc int64
	labels := map[string]int{}
	samples := []string{}
	persub := map[string]any{}
	for _, s := range wr.Subs {
		evals += s.Evals
		nontr += s.Nontriv
		disc += s.Discards
		for k, v := range s.Labels {
			labels[s.Name+"/"+k] = v
		}
		samples = append(samples, s.Samples...)
		persub[s.Name] = map[string]any{"evaluations": s.Evals, "distinct_nontrivial": s.Nontriv, "discarded": s.Discards, "wall_s": s.WallS, "stopped_by_time": s.Stopped}
		for _, f := range s.Fails {
			report(f)
		}
	}
	known := []string{}
	for _, k := range p.Known {
		fails := false
		for _, id := range wr.Known {
			fails = fails || id == k.ID
		}
		switch {
		case fails && kf[k.ID]:
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.ID, k.What)
			known = append(known, k.ID)
		case fails:
			report(failCase{Sub: "known-" + k.ID, Kind: "known-input", Msg: k.What + ": " + wr.KMsg[k.ID]})
		}
	}
	if len(samples) == 0 {
		samples = []string{"(no sample: the run was stopped by a violation)"}
	}
	ev := map[string]any{
		"property": p.ID, "tier": env.Tier, "seed": env.Seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nontr, "rule": p.Rule, "samples": samples,
			"labels": labels, "per_check": persub, "discarded": disc, "known_findings_reproduced": known,
			"notes": notes,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(env.Out, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(env.Out, "evidence", p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", p.ID, env.Tier, env.Seed, evals, nontr, nviol, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if !ok {
		return 2
	}
	return 0
}

// RaceOpts is the environment of workers with the race detector.
const RaceOpts = "GORACE=exitcode=66 halt_on_error=0 history_size=2"

// RunReplay re-executes one replay file in this process.
func RunReplay(p *Prop, env *Env, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	env.Seed, env.Tier = rp.Seed, rp.Tier
	if rp.Sub == "race" { // found by the whole run
		self, _ := os.Executable()
		return Supervise(p, env, []string{self}, []string{RaceOpts})
	}
	for _, k := range p.Known {
		if rp.Sub == "known-"+k.ID {
			if err := runKnown(k); err != nil {
				fmt.Printf("%v\nVIOLATION property=%s replay=%s\n", err, p.ID, file)
				return 1
			}
			return 0
		}
	}
	for i := range p.Subs {
		s := &p.Subs[i]
		if s.Name != rp.Sub {
			continue
		}
		t := newT(env, p.ID, s, rp.Idx)
		if !rp.Crash {
			t.prefix, t.replay = rp.Choices, true
		}
		t.log = &strings.Builder{}
		r := runCase(s.Fn, t)
		for k := 0; p.Race && r.fail == nil && k < 50; k++ { // until the schedule is found
			t := newT(env, p.ID, s, rp.Idx)
			t.prefix, t.replay, t.log = rp.Choices, !rp.Crash, &strings.Builder{}
			r = runCase(s.Fn, t)
		}
		fmt.Println(r.log)
		if r.fail != nil {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.fail.Kind, r.fail.Msg, p.ID, file)
			return 1
		}
		fmt.Println("the property holds for this case")
		return 0
	}
	fmt.Println("no such check:", rp.Sub)
	return 2
}

func runProc(bin string, args, extraEnv []string, limit time.Duration) (string, int) {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), extraEnv...)
	var sb limited
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return err.Error(), 99
	}
	tm := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	if err == nil {
		return string(sb.b), 0
	}
	c := cmd.ProcessState.ExitCode()
	if c == 0 || c < 0 {
		c = 98
	}
	return string(sb.b), c
}

type limited struct{ b []byte }

func (l *limited) Write(p []byte) (int, error) {
	if n := 1<<18 - len(l.b); n > 0 {
		l.b = append(l.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + " …"
	}
	return s
}

func keys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
