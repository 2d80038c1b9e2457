package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

type caseCfg struct {
	Fn       string           `json:"fn"`
	Params   map[string]int   `json:"params"`
	Sweep    map[string][]int `json:"sweep"`    // cross product
	Thorough map[string]int   `json:"thorough"` // parameter overrides in the thorough tier
	TSweep   map[string][]int `json:"tsweep"`   // replaces sweep in the thorough tier
	Tier     string           `json:"tier"`     // run only in this tier
	Steps    int64            `json:"steps"`
	Paths    int              `json:"paths"`
	Weight   int              `json:"weight"`
	Reach    []string         `json:"reach"`
	MapRep   int              `json:"maprep"`
	Replays  int              `json:"replays"`
	Bounds   string           `json:"bounds"`
}

type propCfg struct {
	Cases       []caseCfg `json:"cases"`
	Quick       int       `json:"quick_s"`
	Thorough    int       `json:"thorough_s"`
	Assumptions []string  `json:"assumptions"`
	Outside     []string  `json:"outside"`
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	workers := flag.Int("workers", 0, "")
	only := flag.String("only", "", "run only cases whose name contains this")
	budget := flag.Int("budget", 0, "seconds")
	verbose := flag.Bool("v", false, "")
	noReplay := flag.Bool("noreplay", false, "")
	if pf := os.Getenv("VPPROF"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(11 << 30)
	t0 := time.Now()
	cfgs := map[string]*propCfg{}
	b, err := os.ReadFile(filepath.Join(*verif, "harness", "cases.json"))
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		die("cases.json: %v", err)
	}
	cfg := cfgs[*prop]
	if cfg == nil {
		die("no such property %s", *prop)
	}
	hdir := filepath.Join(*verif, "harness")
	R := &runner{verif: *verif, hdir: hdir, prop: *prop, tier: *tier, seed: *seed, verbose: *verbose, noReplay: *noReplay}
	R.work, err = os.MkdirTemp("", "vpwork")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(R.work)
	pats := []string{"./h", "./sym"}
	R.cli = needsCli(cfg)
	if R.cli {
		pats = append(pats, "./cli")
	}
	P, err := LoadProgram(hdir, pats...)
	if err != nil {
		os.RemoveAll(R.work)
		die("%v", err)
	}
	R.P = P
	var bw sync.WaitGroup
	var buildErr error
	bw.Add(1)
	go func() { defer bw.Done(); buildErr = R.buildReplay() }()
	nw := *workers
	if nw == 0 {
		nw = max(2, runtime.NumCPU())
	}
	x := NewExplorer(P, hdir, *seed, nw)
	var cases []*caseState
	for _, c := range cfg.Cases {
		if c.Tier != "" && c.Tier != *tier {
			continue
		}
		sweep := c.Sweep
		if *tier == "thorough" && c.TSweep != nil {
			sweep = c.TSweep
		}
		for _, pr := range product(sweep) {
			params := map[string]int{}
			for k, v := range c.Params {
				params[k] = v
			}
			if *tier == "thorough" {
				for k, v := range c.Thorough {
					params[k] = v
				}
			}
			for k, v := range pr {
				params[k] = v
			}
			cs := &caseState{params: params, unsup: map[string]int{}, reach: map[string]bool{}}
			cs.spec = caseSpec{Name: caseName(c.Fn, params), Fn: c.Fn, Params: params, Steps: c.Steps, Paths: c.Paths, Weight: c.Weight, Reach: c.Reach, MapRep: c.MapRep, Replays: c.Replays}
			cs.fn = P.Func(harnessPrefix+"/h", c.Fn)
			if cs.fn == nil && R.cli {
				cs.fn = P.Func(harnessPrefix+"/cli", c.Fn)
			}
			if cs.fn == nil {
				os.RemoveAll(R.work)
				die("no harness %s", c.Fn)
			}
			if *only != "" && !strings.Contains(cs.spec.Name, *only) {
				continue
			}
			cases = append(cases, cs)
		}
	}
	bs := cfg.Quick
	if bs == 0 {
		bs = 150
	}
	if *tier == "thorough" {
		bs = cfg.Thorough
		if bs == 0 {
			bs = 700
		}
	}
	if *budget > 0 {
		bs = *budget
	}
	x.pathLimit = 60 * time.Second
	if *tier == "thorough" {
		x.pathLimit = 200 * time.Second
	}
	x.Run(cases, time.Duration(bs)*time.Second)
	bw.Wait()
	if buildErr != nil {
		os.RemoveAll(R.work)
		die("building the replay program: %v", buildErr)
	}
	R.x, R.cases, R.cfg = x, cases, cfg
	code := R.report(t0)
	os.RemoveAll(R.work)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func caseName(fn string, params map[string]int) string {
	var ks []string
	for k := range params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := fn
	for _, k := range ks {
		s += fmt.Sprintf(",%s=%d", k, params[k])
	}
	return s
}

func product(s map[string][]int) []map[string]int {
	out := []map[string]int{{}}
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var n []map[string]int
		for _, o := range out {
			for _, v := range s[k] {
				c := map[string]int{k: v}
				for a, b := range o {
					c[a] = b
				}
				n = append(n, c)
			}
		}
		out = n
	}
	return out
}

// needsCli tells whether a harness of package cli, which brings in the command line tool,
// is asked for.
func needsCli(cfg *propCfg) bool {
	for _, c := range cfg.Cases {
		if strings.HasPrefix(c.Fn, "C25") {
			return true
		}
	}
	return false
}

type runner struct {
	cli                           bool
	verif, hdir, prop, tier, work string
	seed                          int64
	verbose, noReplay             bool
	P                             *Program
	x                             *Explorer
	cases                         []*caseState
	cfg                           *propCfg
	replayBin                     string
	nativeRuns                    int
}

func (R *runner) buildReplay() error {
	var sb strings.Builder
	from := []string{"h"}
	if R.cli {
		from = []string{"cli"}
	}
	sb.WriteString("package main\n\n")
	for _, p := range from {
		sb.WriteString("import \"" + harnessPrefix + "/" + p + "\"\n")
	}
	sb.WriteString("\nvar registry = map[string]func(){\n")
	var names []string
	for _, p := range from {
		for n, mem := range R.P.pkgs[harnessPrefix+"/"+p].Members {
			fn := R.P.Func(harnessPrefix+"/"+p, n)
			if fn == nil || mem != fn || n[0] < 'A' || n[0] > 'Z' || len(fn.Params) != 0 || fn.Signature.Results().Len() != 0 || fn.Signature.Recv() != nil {
				continue
			}
			names = append(names, fmt.Sprintf("\t%q: %s.%s,\n", n, p, n))
		}
	}
	sort.Strings(names)
	for _, n := range names {
		sb.WriteString(n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(R.work, "registry.go")
	os.WriteFile(reg, []byte(sb.String()), 0o644)
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(R.hdir, "cmd/replay/registry.go"): reg}})
	ovf := filepath.Join(R.work, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	R.replayBin = filepath.Join(R.work, "replay")
	cmd := exec.Command("go", "build", "-mod=readonly", "-overlay", ovf, "-o", R.replayBin, "./cmd/replay")
	cmd.Dir = R.hdir
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

type replayFile struct {
	Property string            `json:"property"`
	Fn       string            `json:"fn"`
	Params   map[string]int    `json:"params"`
	Inputs   map[string]uint64 `json:"inputs"`
	Message  string            `json:"message,omitempty"`
	Kind     string            `json:"kind,omitempty"`
	Rep      int               `json:"rep,omitempty"`
	How      string            `json:"how,omitempty"`
	Output   string            `json:"native_output,omitempty"`
}

// native runs one assignment against the real code. Outcomes: ok, assert, panic, hang, assume, error.
func (R *runner) native(cs *caseState, inputs map[string]uint64, rep int, path string, timeout time.Duration) (string, string) {
	rf := replayFile{Property: R.prop, Fn: cs.spec.Fn, Params: cs.params, Inputs: inputs, Rep: rep}
	b, _ := json.Marshal(rf)
	if path == "" {
		f, err := os.CreateTemp(R.work, "in")
		if err != nil {
			return "error", err.Error()
		}
		path = f.Name()
		f.Write(b)
		f.Close()
		defer os.Remove(path)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*timeout+5*time.Second)
	defer cancel()
	tmp, _ := os.MkdirTemp(R.work, "fs")
	defer os.RemoveAll(tmp)
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 12000000; exec \"$0\" \"$1\"", R.replayBin, path)
	cmd.Env = append(os.Environ(), "VP_TMP="+tmp, "VP_DATA="+R.hdir, "VP_LIMIT="+timeout.String(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	R.nativeRuns++
	o := out.String()
	if ctx.Err() != nil {
		return "hang", tail(o)
	}
	if err == nil {
		return "ok", o
	}
	if ee, ok := err.(*exec.ExitError); ok {
		switch ee.ExitCode() {
		case 3:
			return "assert", o
		case 4:
			return "assume", o
		case 6:
			return "hang", tail(o)
		case 2:
			if strings.Contains(o, "out of memory") || strings.Contains(o, "cannot allocate memory") {
				return "oom", tail(o)
			}
			return "panic", tail(o)
		}
	}
	return "error", err.Error() + " " + tail(o)
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

type finding struct {
	cs   *caseState
	kind string
	msg  string
	file string
}

type knownF struct {
	prop, match, text string
}

func (R *runner) known() []knownF {
	var out []knownF
	b, err := os.ReadFile(filepath.Join(R.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> match="<text of the assertion and case>" <what fails>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		k := knownF{prop: l[:i]}
		rest := strings.TrimSpace(l[i:])
		if strings.HasPrefix(rest, "match=\"") {
			rest = rest[7:]
			j := strings.IndexByte(rest, '"')
			if j < 0 {
				continue
			}
			k.match, k.text = rest[:j], strings.TrimSpace(rest[j+1:])
			out = append(out, k)
		}
	}
	return out
}

func (R *runner) report(t0 time.Time) int {
	x := R.x
	exploreDone := time.Now()
	known := R.known()
	var viol []finding
	knownHit := map[string]bool{}
	spurious := 0
	var notes []string
	repDir := filepath.Join(R.verif, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, R.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	seen := map[string]bool{}
	nfile := 0
	cexConfirmed := 0
	mk := func(cs *caseState, kind, msg string, inputs map[string]uint64, rep int, output string) {
		key := cs.spec.Fn + "|" + kind + "|" + msg
		if seen[key] {
			return
		}
		seen[key] = true
		for _, k := range known {
			if k.prop == R.prop && strings.Contains(cs.spec.Name+": "+kind+": "+msg+"\n"+output, k.match) {
				if !knownHit[k.text] {
					knownHit[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", R.prop, k.text)
				}
				return
			}
		}
		nfile++
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", R.prop, nfile))
		rf := replayFile{Property: R.prop, Fn: cs.spec.Fn, Params: cs.params, Inputs: inputs, Message: msg, Kind: kind, Rep: rep, Output: tail(output),
			How: "bash /verif/replay.sh " + path}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		viol = append(viol, finding{cs, kind, msg, path})
	}
	replayBudget := time.Now().Add(200 * time.Second)
	if !R.noReplay {
		for _, cs := range R.cases {
			perMsg := map[string]int{}
			for _, c := range cs.cands {
				key := cs.spec.Fn + "|" + c.kind + "|" + c.msg
				if seen[key] || perMsg[c.kind+c.msg] >= 5 || time.Now().After(replayBudget) {
					continue
				}
				perMsg[c.kind+c.msg]++
				rep := 1
				if c.mapDep {
					rep = 300
					if cs.spec.MapRep > 0 {
						rep = cs.spec.MapRep
					}
				}
				limit := 15 * time.Second
				if c.kind == "steps" {
					limit = 5 * time.Second
				}
				out, text := R.native(cs, c.inputs, rep, "", limit)
				if out == "oom" && c.kind == "steps" {
					out = "hang"
				}
				switch out {
				case "assert", "panic":
					cexConfirmed++
					mk(cs, out, nativeMsg(out, text, c.msg), c.inputs, rep, text)
					seen[key] = true
				case "hang":
					if c.kind == "steps" {
						cexConfirmed++
						mk(cs, "hang", "does not terminate: "+c.msg, c.inputs, rep, text)
						seen[key] = true
						break
					}
					spurious++
					notes = append(notes, fmt.Sprintf("%s: candidate %s: %s: native run timed out", cs.spec.Name, c.kind, c.msg))
				default:
					if c.kind == "steps" && out == "ok" {
						notes = append(notes, fmt.Sprintf("%s: step bound reached (%s); the native run of that input ends normally", cs.spec.Name, c.msg))
					} else {
						spurious++
						notes = append(notes, fmt.Sprintf("%s: candidate %s: %s did not reproduce natively (%s)", cs.spec.Name, c.kind, c.msg, out))
						if R.verbose {
							fmt.Println("  inputs:", c.inputs)
						}
					}
				}
			}
		}
	}
	validated, mismatches := 0, 0
	var samples []any
	if !R.noReplay {
		for _, cs := range R.cases {
			for i, s := range cs.samples {
				if time.Now().After(replayBudget) {
					break
				}
				out, text := R.native(cs, s.inputs, 1, "", 15*time.Second)
				ok := out == "ok"
				if ok {
					got := obsLines(text)
					if !s.mapDep && !sameObs(got, s.obs) {
						ok = false
						notes = append(notes, fmt.Sprintf("%s: observation mismatch: engine %v native %v", cs.spec.Name, s.obs, got))
					}
				} else if out == "assert" || out == "panic" {
					// the real code fails on an input of a path the encoding passed
					mk(cs, out, nativeMsg(out, text, "on a path the encoding passed"), s.inputs, 1, text)
				} else {
					notes = append(notes, fmt.Sprintf("%s: sampled path: native outcome %s %s", cs.spec.Name, out, tail(text)))
				}
				if ok {
					validated++
				} else {
					mismatches++
				}
				if i == 0 && len(samples) < 8 {
					samples = append(samples, map[string]any{"case": cs.spec.Name, "inputs": trimInputs(s.inputs), "observed": trimObs(s.obs), "native": out})
				}
			}
		}
	}
	// evidence
	fns, blocks, total := R.P.coverage()
	var paths, done, assumed, budget, stepsHit, asserts, assertQ, dropped, unkPaths int
	var decs, steps int64
	var caseRep []any
	unreached := []string{}
	allExh := true
	for _, cs := range R.cases {
		paths += cs.paths
		done += cs.done
		assumed += cs.assumed
		budget += cs.budget
		stepsHit += cs.stepsHit
		asserts += cs.asserts
		assertQ += cs.assertQ
		dropped += cs.dropped
		unkPaths += cs.unkPaths
		decs += cs.decs
		steps += cs.steps
		exh := cs.dropped == 0 && cs.budget == 0 && cs.stepsHit == 0 && cs.unkPaths == 0 && len(cs.unsup) == 0
		if !exh {
			allExh = false
		}
		for _, r := range cs.spec.Reach {
			if !cs.reach[r] {
				unreached = append(unreached, cs.spec.Name+":"+r)
			}
		}
		cr := map[string]any{"case": cs.spec.Name, "paths": cs.paths, "completed": cs.done, "assumption_false": cs.assumed,
			"assertions_discharged": cs.asserts, "by_query": cs.assertQ, "exhaustive_within_bounds": exh, "longest_path_instructions": cs.maxPath, "cpu_s": round(cs.cpu.Seconds())}
		if cs.dropped > 0 {
			cr["paths_left_unexplored"] = cs.dropped
		}
		if len(cs.unsup) > 0 {
			cr["paths_cut"] = cs.unsup
		}
		if cs.stepsHit > 0 {
			cr["step_bound_hit"] = cs.stepsHit
		}
		if cs.unkPaths > 0 {
			cr["paths_with_undecided_queries"] = cs.unkPaths
		}
		if cs.panics > 0 {
			cr["paths_ending_in_panic"] = cs.panics
		}
		caseRep = append(caseRep, cr)
	}
	if samples == nil {
		samples = []any{}
	}
	var bounds []string
	for _, c := range R.cfg.Cases {
		if c.Bounds != "" && (c.Tier == "" || c.Tier == R.tier) {
			bounds = append(bounds, c.Fn+": "+c.Bounds)
		}
	}
	ev := map[string]any{
		"property": R.prop, "tier": R.tier, "seed": R.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
			"states_meaning":      "execution paths of the real code explored symbolically; each stands for all inputs that satisfy its path condition",
			"transitions_meaning": "symbolic branch and value decisions taken along those paths",
			"exhaustive":          allExh,
			"completed_paths":     done, "paths_with_false_assumption": assumed, "paths_cut": budget, "step_bound_hit": stepsHit, "paths_left_unexplored": dropped,
			"assertions_discharged": asserts, "assertions_by_query": assertQ,
			"solver":                    map[string]any{"bin": strings.Join(x.solverBins, ","), "queries": x.q.n, "sat": x.q.sat, "unsat": x.q.unsat, "unknown": x.q.unk, "errors": x.q.errs, "cache_hits": x.cacheHits.Load(), "time_s": round(x.q.t.Seconds()), "max_query_s": round(x.q.max.Seconds())},
			"in_process_queries":        map[string]any{"queries": x.mic.n, "unsat": x.mic.u, "unsat_confirmed_by_smt_solver": x.mic.a, "time_s": round(x.mic.t.Seconds())},
			"instructions_executed":     steps,
			"functions_encoded":         fns,
			"basic_blocks_reached":      blocks,
			"basic_blocks_encoded":      total,
			"bounds":                    bounds,
			"outside":                   R.cfg.Outside,
			"cases":                     caseRep,
			"unreached_labels":          unreached,
			"native_runs":               R.nativeRuns,
			"counterexamples_replayed":  cexConfirmed,
			"candidates_not_reproduced": spurious,
			"validation_mismatches":     mismatches,
			"notes":                     notes,
		},
		"assumptions": append([]string{
			"logging (logrus) has no effect; log arguments are evaluated",
			"encoding/binary.Read/Write, fmt formatting, sort.Slice's reflection, unicode.IsPrint and math functions are modelled by the engine; everything else in bytes, bufio, io, errors, sort, unicode/utf16, x/text is executed from source",
			"allocations above 2^21 elements end a path (resource bound, not a verdict)",
		}, R.cfg.Assumptions...),
		"wall_s":     round(time.Since(t0).Seconds()),
		"violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(R.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(R.verif, "evidence", R.prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("evidence: %v", err)
	}
	fmt.Printf("%s %s: %d cases, %d paths (%d completed, %d cut, %d unexplored), %d decisions, %d assertions discharged (%d by query), %d+%d queries in %.1f+%.1fs (unknown %d), native runs %d (validated %d, mismatch %d, not reproduced %d), explore %.1fs wall %.1fs, blocks %d/%d\n",
		R.prop, R.tier, len(R.cases), paths, done, budget+stepsHit, dropped, decs, asserts, assertQ, x.mic.n, x.q.n, x.mic.t.Seconds(), x.q.t.Seconds(), x.q.unk, R.nativeRuns, validated, mismatches, spurious, exploreDone.Sub(t0).Seconds(), time.Since(t0).Seconds(), blocks, total)
	if R.verbose {
		for _, cs := range R.cases {
			fmt.Printf("  %s: paths %d done %d assume %d cut %d steps %d drop %d asserts %d/%d reach %v maxsteps %d cpu %.1f unsup %v\n", cs.spec.Name, cs.paths, cs.done, cs.assumed, cs.budget, cs.stepsHit, cs.dropped, cs.asserts, cs.assertQ, keys(cs.reach), cs.maxPath, cs.cpu.Seconds(), cs.unsup)
		}
	}
	for _, n := range notes {
		fmt.Println("note:", tail(n))
	}
	if len(unreached) > 0 {
		fmt.Println("note: labels not reached:", unreached)
	}
	for _, s := range x.internal {
		fmt.Println("note: internal:", s)
	}
	if x.q.lastErr != "" {
		fmt.Println("note: solver error:", x.q.lastErr)
	}
	for _, v := range viol {
		fmt.Printf("violated: %s: %s: %s\n", v.cs.spec.Name, v.kind, firstLine(v.msg))
	}
	for i, v := range viol {
		if i >= 5 {
			break
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", R.prop, v.file)
	}
	if len(viol) > 0 {
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func nativeMsg(kind, text, def string) string {
	for _, l := range strings.Split(text, "\n") {
		if kind == "assert" && strings.HasPrefix(l, "ASSERT ") {
			return strings.TrimPrefix(l, "ASSERT ")
		}
		if kind == "panic" && (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds")) {
			return l
		}
	}
	return def
}

func obsLines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			out = append(out, l[4:])
		}
	}
	return out
}

func sameObs(native, engine []string) bool {
	if len(native) != len(engine) {
		return false
	}
	for i := range native {
		if strings.Contains(engine[i], "?") {
			continue
		}
		if native[i] != engine[i] {
			return false
		}
	}
	return true
}

func trimInputs(in map[string]uint64) map[string]uint64 {
	if len(in) <= 24 {
		return in
	}
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := map[string]uint64{}
	for _, k := range ks[:24] {
		out[k] = in[k]
	}
	return out
}

func trimObs(o []string) []string {
	var out []string
	for i, s := range o {
		if i >= 6 {
			break
		}
		if len(s) > 160 {
			s = s[:160] + "..."
		}
		out = append(out, s)
	}
	return out
}

func keys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }
