package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

type NativeRes struct {
	Status string   `json:"status"` // ok fail panic infeasible desync crash hang
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type HarnessReport struct {
	Name      string         `json:"harness"`
	Bounds    string         `json:"bounds"`
	Paths     int64          `json:"paths"`
	Forks     int64          `json:"forks"`
	Infeas    int64          `json:"infeasible_paths"`
	Unsup     int64          `json:"unsupported_paths"`
	Reduced   int64          `json:"reduced_paths"`
	AssertSym int64          `json:"assertions_symbolic"`
	AssertCon int64          `json:"assertions_path_decided"`
	Steps     int64          `json:"ssa_steps"`
	Vars      int            `json:"max_symbolic_vars"`
	VCs       int64          `json:"path_vcs"`
	FullVCs   int64          `json:"path_vcs_posed_in_full"`
	CertFail  int64          `json:"vc_disagreements"`
	Queries   int            `json:"solver_queries"`
	CacheHits int            `json:"solver_cache_hits"`
	Unsat     int            `json:"unsat"`
	Sat       int            `json:"sat"`
	Unknown   int            `json:"unknown"`
	SolverS   float64        `json:"solver_s"`
	WallS     float64        `json:"wall_s"`
	Complete  bool           `json:"complete_within_bounds"`
	Covers    map[string]int `json:"covers,omitempty"`
	UnsupWhy  map[string]int `json:"unsupported_reasons,omitempty"`
	Reasons   map[string]int `json:"reduction_reasons,omitempty"`
	Validated int            `json:"paths_replayed_natively"`
	Mismatch  int            `json:"replay_mismatches"`
	MisText   []string       `json:"replay_mismatch_text,omitempty"`
	CoverMiss []string       `json:"cover_missing,omitempty"`
	Unrepro   []string       `json:"unreproduced_candidates,omitempty"`
}

func main() {
	prop := flag.String("property", "", "property id")
	only := flag.String("only", "", "regexp of harness names")
	tier := flag.String("tier", "quick", "quick or thorough")
	hdir := flag.String("harness", "", "harness module directory")
	evid := flag.String("evidence", "", "evidence file to write")
	scratch := flag.String("scratch", "", "scratch directory")
	cexDir := flag.String("cex", "", "directory for counterexamples")
	known := flag.String("known", "", "known findings file")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	budget := flag.Float64("budget", 300, "seconds for the whole check")
	verbose := flag.Bool("v", false, "verbose")
	prof := flag.String("cpuprofile", "", "")
	noReplay := flag.Bool("noreplay", false, "skip native replay")
	seed := flag.Int("seed", 1, "seed")
	first := flag.Bool("first", false, "stop at the first harness with a violation")
	flag.StringVar(&solverPath, "solver", "z3", "solver binary")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	if *prop == "L01" {
		runDecoders()
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var w *World
	var lerr error
	done := make(chan bool)
	go func() { w, lerr = loadWorld(*hdir, "./h"); close(done) }()
	bin := filepath.Join(*scratch, "replay")
	if !*noReplay {
		cmd := exec.Command("go", "build", "-o", bin, "./cmd/replay")
		cmd.Dir = *hdir
		if out, err := cmd.CombinedOutput(); err != nil {
			<-done
			fmt.Printf("cannot build the replay binary: %v\n%s\n", err, out)
			os.Exit(3)
		}
	}
	<-done
	if lerr != nil {
		fmt.Printf("cannot load: %v\n", lerr)
		os.Exit(3)
	}
	if *verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	var names []string
	re := regexp.MustCompile(".")
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	for n, mem := range w.entry.Members {
		if _, ok := mem.(*ssa.Function); !ok {
			continue
		}
		if strings.HasPrefix(n, *prop+"_") || (*tier == "thorough" && strings.HasPrefix(n, *prop+"X_")) {
			if re.MatchString(n) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if *tier == "thorough" {
		// a thorough harness XxxX_Name replaces the quick one of the same name
		var keep []string
		for _, n := range names {
			if strings.HasPrefix(n, *prop+"_") && w.entry.Func(strings.Replace(n, *prop+"_", *prop+"X_", 1)) != nil {
				continue
			}
			keep = append(keep, n)
		}
		names = keep
	}
	if len(names) == 0 {
		fmt.Printf("no harness for %s\n", *prop)
		os.Exit(3)
	}
	var kf []Finding
	if *known != "" {
		if b, err := os.ReadFile(*known); err == nil {
			var doc struct {
				Known []Finding `json:"known"`
			}
			if err := json.Unmarshal(b, &doc); err != nil {
				fmt.Println("known findings:", err)
				os.Exit(3)
			}
			kf = doc.Known
		}
	}
	var reports []HarnessReport
	samples := []any{}
	type viol struct {
		h string
		c Candidate
		r NativeRes
	}
	var viols []viol
	knownHit := map[string]bool{}
	end := t0.Add(time.Duration(*budget * float64(time.Second)))
	for i, n := range names {
		ts := time.Now()
		left := time.Until(end)
		b := left / time.Duration(len(names)-i)
		if i < len(names)-1 {
			b = b * 2
		}
		if b > left {
			b = left
		}
		if b < 5*time.Second {
			b = 5 * time.Second
		}
		ex := newExplorer(w, w.entry.Func(n), *workers, b)
		ex.run()
		rep := HarnessReport{Name: n, Paths: ex.paths.Load(), Forks: ex.forks.Load(), Infeas: ex.infeas.Load(), Unsup: ex.unsup.Load(), Reduced: ex.incomp.Load(),
			AssertSym: ex.assertsSym.Load(), AssertCon: ex.assertsConc.Load(), Steps: ex.steps.Load(), Vars: ex.maxVars, VCs: ex.vcs.Load(), FullVCs: ex.fullVCs.Load(), CertFail: ex.certFail.Load(),
			Covers: ex.covers, UnsupWhy: ex.unsupWhy, Reasons: ex.reasons}
		for _, s := range ex.sols {
			rep.Queries += s.queries
			rep.CacheHits += s.cacheHit
			rep.Sat += s.sat
			rep.Unsat += s.unsat
			rep.Unknown += s.unknown + s.errs
			rep.SolverS += s.dur.Seconds()
		}
		rep.Complete = !ex.timedOut && rep.Unsup == 0 && rep.Reduced == 0 && rep.CertFail == 0 && ex.err == "" && rep.Unknown == 0
		if ex.err != "" {
			rep.UnsupWhy["init: "+ex.err]++
		}
		if ex.timedOut {
			rep.Reasons["time budget reached"]++
		}
		rep.Bounds = boundsOf(w, n)
		for _, c := range declaredCovers(w, n) {
			if ex.covers[c] == 0 {
				rep.CoverMiss = append(rep.CoverMiss, c)
			}
		}
		// counterexamples: replay natively
		hangs := 0
		for _, c := range ex.cands {
			if c.Kind == "steps" && hangs >= 2 {
				continue
			}
			if *noReplay {
				viols = append(viols, viol{n, c, NativeRes{}})
				continue
			}
			b, to := bin, 10*time.Second
			if c.Kind == "race" {
				// the compiled code, watched by the race detector
				b, to = bin+"-race", 60*time.Second
				if _, err := os.Stat(b); err != nil {
					cmd := exec.Command("go", "build", "-race", "-o", b, "./cmd/replay")
					cmd.Dir = *hdir
					if out, err := cmd.CombinedOutput(); err != nil {
						fmt.Printf("cannot build the replay binary with the race detector: %v\n%s\n", err, out)
						b = bin
					}
				}
			}
			r := nativeOne(b, *scratch, n, c, to)
			if r.Status == "hang" {
				hangs++
			}
			if *verbose {
				fmt.Printf("  candidate %s %s %v -> %s %s\n", c.Kind, c.Msg, vecText(c.Vec), r.Status, r.Msg)
			}
			if r.Status == "ok" || r.Status == "infeasible" || r.Status == "desync" {
				if len(rep.Unrepro) < 10 {
					rep.Complete = false
					rep.Unrepro = append(rep.Unrepro, c.Kind+": "+c.Msg+" "+vecText(c.Vec)+" native: "+r.Status+" "+r.Msg)
				}
				continue
			}
			isKnown := false
			for _, f := range kf {
				if f.Property == *prop && (f.Harness == "" || f.Harness == n) && regexp.MustCompile(f.Match).MatchString(c.Msg+"\n"+r.Msg) {
					isKnown = true
					knownHit[f.What] = true
				}
			}
			if !isKnown {
				viols = append(viols, viol{n, c, r})
			}
		}
		// translation validation on sampled paths
		if !*noReplay && len(ex.samples) > 0 {
			for _, s := range ex.samples[:min(3, len(ex.samples))] {
				samples = append(samples, map[string]any{"harness": n, "input": vecText(s.Vec), "observed": s.Obs})
			}
			rep.Validated, rep.Mismatch, rep.MisText = nativeBatch(bin, *scratch, n, ex.samples)
		}
		rep.WallS = time.Since(ts).Seconds()
		reports = append(reports, rep)
		if *verbose || len(rep.CoverMiss) > 0 || rep.Mismatch > 0 || rep.CertFail > 0 {
			b, _ := json.MarshalIndent(rep, "", " ")
			fmt.Println(string(b))
		} else {
			fmt.Printf("%s: %d paths, %d VCs, %d solver queries (%.2fs), %d+%d assertions, complete=%v, %d paths replayed natively, %.1fs\n", n, rep.Paths, rep.VCs, rep.Queries, rep.SolverS, rep.AssertSym, rep.AssertCon, rep.Complete, rep.Validated, rep.WallS)
		}
		if *first && len(viols) > 0 {
			break
		}
	}
	var fns []string
	w.encoded.Range(func(k, v any) bool { fns = append(fns, k.(string)); return true })
	sort.Strings(fns)
	var missing []string
	for f := range w.repoFns {
		if _, ok := w.encoded.Load(f); !ok {
			missing = append(missing, f)
		}
	}
	sort.Strings(missing)
	writeEvidence(*evid, *prop, *tier, *seed, reports, fns, samples, time.Since(t0).Seconds(), len(viols))
	if *verbose {
		os.WriteFile(filepath.Join(*scratch, "not_encoded.txt"), []byte(strings.Join(missing, "\n")), 0o644)
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	if len(viols) > 0 {
		os.MkdirAll(*cexDir, 0o755)
		for i, v := range viols {
			p := filepath.Join(*cexDir, fmt.Sprintf("%s-%d.json", *prop, i))
			b, _ := json.MarshalIndent(map[string]any{"property": *prop, "harness": v.h, "kind": v.c.Kind, "message": v.c.Msg, "vector": v.c.Vec, "native": v.r,
				"replay": "bash /verif/replay.sh " + p}, "", " ")
			os.WriteFile(p, b, 0o644)
			if i < 5 {
				fmt.Printf("counterexample %s [%s] %s | native: %s %s\n", v.h, v.c.Kind, v.c.Msg, v.r.Status, firstLine(v.r.Msg))
			}
			if i == 0 {
				defer os.Exit(1)
				defer pprof.StopCPUProfile()
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			}
			if i > 20 {
				break
			}
		}
		return
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func vecText(v []VecEnt) string {
	var b strings.Builder
	for _, e := range v {
		if e.Val >= 32 && e.Val < 127 && strings.HasPrefix(e.Name, "r") {
			fmt.Fprintf(&b, "%s=%q ", e.Name, rune(e.Val))
		} else {
			fmt.Fprintf(&b, "%s=%d ", e.Name, e.Val)
		}
	}
	if b.Len() > 400 {
		return b.String()[:400]
	}
	return b.String()
}

// boundsOf / declaredCovers read the harness function's doc comment.
func docOf(w *World, n string) string {
	f := w.entry.Func(n)
	if f == nil || f.Syntax() == nil {
		return ""
	}
	fd, ok := f.Syntax().(interface{})
	_ = ok
	return docText(fd)
}

func boundsOf(w *World, n string) string {
	var out []string
	for _, l := range strings.Split(docOf(w, n), "\n") {
		if !strings.HasPrefix(l, "cover:") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.TrimSpace(strings.Join(out, " "))
}

func declaredCovers(w *World, n string) []string {
	var out []string
	for _, l := range strings.Split(docOf(w, n), "\n") {
		if strings.HasPrefix(l, "cover:") {
			out = append(out, strings.Fields(strings.TrimPrefix(l, "cover:"))...)
		}
	}
	return out
}

func runNative(bin, dir string, args []string, input []byte, to time.Duration) ([]byte, []byte, error, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	d, err := os.MkdirTemp(dir, "run")
	if err != nil {
		return nil, nil, err, false
	}
	defer os.RemoveAll(d)
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	cmd.Stdin = bytes.NewReader(input)
	var o, e bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &limited{b: &e, n: 20000}
	cmd.WaitDelay = time.Second
	err = cmd.Run()
	return o.Bytes(), e.Bytes(), err, ctx.Err() != nil
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func nativeOne(bin, dir, h string, c Candidate, to time.Duration) NativeRes {
	b, _ := json.Marshal(c.Vec)
	reps := 1
	for _, e := range c.Vec {
		if e.Name == "maporder" {
			reps = 400
		}
	}
	out, serr, err, timeout := runNative(bin, dir, []string{h, fmt.Sprint(reps)}, append(b, '\n'), to)
	if timeout {
		return NativeRes{Status: "hang", Msg: "no result after " + to.String()}
	}
	var r NativeRes
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	if sc.Scan() && json.Unmarshal(sc.Bytes(), &r) == nil && r.Status != "" {
		return r
	}
	if strings.Contains(string(serr), "WARNING: DATA RACE") {
		return NativeRes{Status: "race", Msg: strings.TrimSpace(string(serr))}
	}
	return NativeRes{Status: "crash", Msg: fmt.Sprint(err) + " " + firstLine(string(serr))}
}

func nativeBatch(bin, dir, h string, ss []Sample) (int, int, []string) {
	var in bytes.Buffer
	for _, s := range ss {
		b, _ := json.Marshal(s.Vec)
		in.Write(b)
		in.WriteByte('\n')
	}
	out, serr, err, timeout := runNative(bin, dir, []string{h, "1"}, in.Bytes(), 120*time.Second)
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	n, bad := 0, 0
	var txt []string
	for sc.Scan() {
		if n >= len(ss) {
			break
		}
		var r NativeRes
		json.Unmarshal(sc.Bytes(), &r)
		s := ss[n]
		n++
		ok := r.Status == "ok" && len(r.Obs) == len(s.Obs)
		if ok {
			for i := range r.Obs {
				if s.Obs[i] != r.Obs[i] && !strings.HasSuffix(s.Obs[i], "=?") {
					ok = false
				}
			}
		}
		if !ok {
			bad++
			if len(txt) < 5 {
				txt = append(txt, fmt.Sprintf("vec %s: native %s %s obs %q, symbolic obs %q", vecText(s.Vec), r.Status, r.Msg, r.Obs, s.Obs))
			}
		}
	}
	if n < len(ss) {
		bad += len(ss) - n
		txt = append(txt, fmt.Sprintf("native batch stopped after %d of %d (timeout=%v, %v, %s)", n, len(ss), timeout, err, firstLine(string(serr))))
	}
	return n, bad, txt
}
