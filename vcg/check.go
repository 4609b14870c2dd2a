package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// KnownFinding is a genuine defect that is recorded rather than repaired.
type KnownFinding struct {
	Property   string `json:"property"`
	Function   string `json:"function"`
	Obligation string `json:"obligation"` // name of the failing obligation
	What       string `json:"what"`
}

type knownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

// DriverResult is what a bounded driver reports.
type DriverResult struct {
	Name    string   `json:"name"`
	Cases   int      `json:"cases"`
	Nontriv int      `json:"nontrivial"`
	Rule    string   `json:"rule"`
	Samples []string `json:"samples"`
	Fail    string   `json:"fail"`
	Err     string   `json:"-"`
	Output  string   `json:"-"`
	Secs    float64  `json:"-"`
}

type propInfo struct {
	ID    string `json:"id"`
	Title string `json:"title"`
}

func runCheck(cmd string, fs *flag.FlagSet) int {
	if cmd != "check" || fs.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: vcg check PROP")
		return 2
	}
	prop := fs.Arg(0)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	if tier == "thorough" {
		fullSecs = 120
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0755)

	var known knownFile
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}

	// the bounded drivers run beside the proof
	drvCh := make(chan []*DriverResult, 1)
	setDeadline := func(d time.Duration) {
		n := time.Now().Add(d).UnixNano()
		if o := proofDeadline.Load(); o == 0 || n < o {
			proofDeadline.Store(n)
		}
	}
	if tier == "thorough" {
		setDeadline(840 * time.Second)
	} else {
		setDeadline(600 * time.Second)
	}
	go func() {
		r := runDrivers(prop, tier, seed)
		for _, d := range r {
			if d.Fail != "" { // a failing input is at hand: do not search long for the failing obligation
				setDeadline(60 * time.Second)
			}
		}
		drvCh <- r
	}()

	reps, loadErr := proveProp(prop)
	drvs := <-drvCh

	fail := func(what string) int {
		fmt.Fprintln(os.Stderr, what)
		return 2
	}
	if loadErr != nil && strings.HasPrefix(loadErr.Error(), "spec:") {
		return fail(loadErr.Error())
	}

	type failure struct{ name, text string }
	var fails []failure
	var knownHit []KnownFinding
	nObl, nDis := 0, 0
	backends := map[string]int{}
	secs := 0.0
	assume := map[string]bool{}
	var fnList []string
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	if loadErr != nil {
		fails = append(fails, failure{"load", "the package could not be loaded: " + loadErr.Error()})
	}
	for _, r := range reps {
		secs += r.SolverSecs
		fnList = append(fnList, fmt.Sprintf("%s (%s, %d obligations)", r.Name, r.Pos, len(r.Obls)))
		for _, n := range r.Notes {
			switch {
			case strings.HasPrefix(n, "assumed: "):
				assume[strings.TrimPrefix(n, "assumed: ")] = true
			case strings.HasPrefix(n, "not evaluable"), strings.HasPrefix(n, "invariant not applicable"), strings.HasPrefix(n, "ghost update not"):
			default:
				assume[r.Name+": "+n] = true
			}
		}
		for _, u := range r.Used {
			trusted[u] = true
		}
		for _, u := range r.Inlined {
			inlined[u] = true
		}
		if r.Err != "" {
			fails = append(fails, failure{r.Name + "/outside-subset", r.Err})
		}
		for _, o := range r.Obls {
			nObl++
			if o.Status == "proved" {
				nDis++
				b := o.Result.Backend
				if b == "" {
					b = "simplifier"
				}
				backends[b]++
				continue
			}
			hit := false
			for _, k := range known.Findings {
				if k.Property == prop && k.Obligation == o.Name {
					hit = true
					if !containsKF(knownHit, k) {
						knownHit = append(knownHit, k)
					}
				}
			}
			if hit {
				nObl--
				continue
			}
			fails = append(fails, failure{o.Name, fmt.Sprintf("%s at %s: solver says %s (%s, %.1fs) %s\ngoal: %s", o.Name, o.Pos, o.Status, o.Result.Backend, o.Result.Secs, o.Reason, o.Goal)})
		}
	}
	for _, d := range drvs {
		if d.Fail != "" {
			continue
		}
	}
	sort.Strings(fnList)

	// report
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
	}
	violations := 0
	var realFail *DriverResult
	for _, d := range drvs {
		if d.Fail != "" {
			realFail = d
			break
		}
	}
	if len(fails) > 0 || realFail != nil {
		violations = len(fails)
		if realFail != nil {
			violations++
		}
		rp := filepath.Join(evDir, "replay_"+prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		if realFail != nil {
			fmt.Fprintf(&sb, "Failing input, run against the real code by driver %s (VERIF_SEED=%d VERIF_TIER=%s):\n%s\n\nTo run it again: cd %s && VERIF_SEED=%d VERIF_TIER=%s bash %s/run.sh driver %s\n\n", realFail.Name, seed, tier, realFail.Fail, repoDir, seed, tier, verifDir, prop)
		}
		if len(fails) > 0 {
			fmt.Fprintf(&sb, "Proof obligations that do not hold (%d):\n", len(fails))
			for _, f := range fails {
				fmt.Fprintf(&sb, "\n* %s\n  %s\n", f.name, strings.ReplaceAll(f.text, "\n", "\n  "))
			}
		} else {
			sb.WriteString("All proof obligations were discharged; the failing input lies outside what they state.\n")
		}
		if realFail != nil && realFail.Output != "" {
			fmt.Fprintf(&sb, "\nDriver output:\n%s\n", tail(realFail.Output, 4000))
		}
		os.WriteFile(rp, []byte(sb.String()), 0644)
		for i, f := range fails {
			if i < 12 {
				fmt.Printf("failed obligation: %s\n", f.name)
			}
		}
		if realFail != nil {
			fmt.Printf("failing input: %s\n", firstLine(realFail.Fail))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
	}
	// evidence
	var drvEv []map[string]interface{}
	for _, d := range drvs {
		m := map[string]interface{}{"name": d.Name, "bounded": true, "cases": d.Cases, "nontrivial": d.Nontriv, "rule": d.Rule, "samples": d.Samples, "seconds": d.Secs}
		if d.Err != "" {
			m["not_run"] = d.Err
		}
		if d.Fail != "" {
			m["fail"] = d.Fail
		}
		drvEv = append(drvEv, m)
	}
	var tb []string
	for t := range assume {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	level := "proof"
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":              "bash " + verifDir + "/run.sh check " + prop,
		"trusted_base":             append([]string{"vcg (/verif/vcg): translation of go/ssa to obligations", "go/ssa from golang.org/x/tools v0.52.0 and the Go type checker", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2"}, trustedContracts(reps)...),
		"functions_under_contract": fnList,
		"functions_inlined":        keys(inlined),
		"discharged_by":            backends,
		"solver_seconds":           secs,
		"bounded_drivers":          drvEv,
		"known_findings":           knownHit,
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": append(baseAssumptions(), tb...), "wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), b, 0644); err != nil {
		return fail(err.Error())
	}
	fmt.Printf("%s: %d obligations in %d functions and lemmas, %d discharged, %.1fs solver time, %.1fs wall\n", prop, nObl, len(reps), nDis, secs, time.Since(t0).Seconds())
	for _, d := range drvs {
		s := fmt.Sprintf("%d cases", d.Cases)
		if d.Err != "" {
			s += " (" + d.Err + ")"
		}
		fmt.Printf("%s: bounded driver %s: %s\n", prop, d.Name, s)
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func containsKF(a []KnownFinding, k KnownFinding) bool {
	for _, x := range a {
		if x == k {
			return true
		}
	}
	return false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func baseAssumptions() []string {
	return []string{
		"64-bit int (obligations are generated for GOARCH=amd64, and for s390x where byte order matters)",
		"make and append do not fail for lack of memory; no stack exhaustion",
		"single goroutine; no data races on the values passed in",
		"slices, pointers and interfaces passed to one call do not overlap unless a contract variant says so",
		"floating-point arithmetic (+,-,*,/) is uninterpreted; comparisons are IEEE 754 exactly",
	}
}

func trustedContracts(reps []*FnReport) []string {
	var out []string
	seen := map[string]bool{}
	for _, r := range reps {
		for _, u := range r.Used {
			c := theSpec.Contracts[u]
			if c != nil && (c.Trusted || c.NoVerify) && !seen[u] {
				seen[u] = true
				s := "assumed contract: " + u
				if c.Assume != "" {
					s += " (" + c.Assume + ")"
				}
				out = append(out, s)
			}
		}
	}
	sort.Strings(out)
	return out
}

var theSpec *SpecDB

// proveProp verifies every function and lemma the property rests on.
func proveProp(prop string) ([]*FnReport, error) {
	db := NewSpecDB()
	if err := db.LoadDir(filepath.Join(verifDir, "contracts")); err != nil {
		return nil, fmt.Errorf("spec: %v", err)
	}
	theSpec = db
	worlds := map[string]*World{}
	getW := func(arch string) (*World, error) {
		if w := worlds[arch]; w != nil {
			return w, nil
		}
		a := ""
		if arch == "be" {
			a = "s390x"
		}
		w, err := loadWorld(a, db)
		if err != nil {
			return nil, err
		}
		worlds[arch] = w
		return w, nil
	}
	w, err := getW("le")
	if err != nil {
		return nil, err
	}
	if err := w.loadAxioms(); err != nil {
		return nil, fmt.Errorf("spec: %v", err)
	}
	type job struct{ name, arch string }
	var queue []job
	done := map[job]bool{}
	add := func(n, arch string) {
		j := job{n, arch}
		if !done[j] {
			done[j] = true
			queue = append(queue, j)
		}
	}
	for _, n := range db.Order {
		c := db.Contracts[n]
		if c.Trusted || c.NoVerify || c.Inline || !contains(c.Props, prop) {
			continue
		}
		switch c.Arch {
		case "be":
			add(n, "be")
		case "both":
			add(n, "le")
			add(n, "be")
		default:
			add(n, "le")
		}
	}
	var reps []*FnReport
	var later []int // failed functions, tried again at the end
	var laterJob []job
	lem := map[string]bool{}
	for _, n := range db.LemmaOrder {
		if contains(db.Lemmas[n].Props, prop) {
			lem[n] = true
		}
	}
	for len(queue) > 0 {
		j := queue[0]
		queue = queue[1:]
		w, err := getW(j.arch)
		if err != nil {
			return reps, err
		}
		c := db.Contracts[j.name]
		t0 := time.Now()
		r := verifyMode(w, c, map[string]bool{}, map[string]bool{}, false)
		slowRep(r.Name, t0)
		if j.arch == "be" {
			r.Name += " [big-endian]"
		}
		if !r.ok() {
			later = append(later, len(reps))
			laterJob = append(laterJob, j)
		}
		reps = append(reps, r)
		for _, u := range r.Used {
			uc := db.Contracts[u]
			if uc != nil && !uc.Trusted && !uc.NoVerify && !uc.Inline {
				add(u, j.arch)
			}
		}
		for _, l := range r.Lemmas {
			lem[l] = true
		}
	}
	for {
		n := len(lem)
		for _, l := range db.LemmaOrder {
			if lem[l] {
				for _, u := range db.Lemmas[l].Uses {
					walkCalls(u, func(s string) {
						if db.Lemmas[s] != nil {
							lem[s] = true
						}
					})
				}
			}
		}
		axMu.Lock()
		for a := range axUsed {
			if strings.HasPrefix(a, "lemma:") {
				lem[strings.TrimPrefix(a, "lemma:")] = true
			}
		}
		axMu.Unlock()
		if len(lem) == n {
			break
		}
	}
	for {
		n := 0
		for _, l := range db.LemmaOrder {
			if lem[l] && !done[job{"lemma " + l, ""}] {
				done[job{"lemma " + l, ""}] = true
				t0 := time.Now()
				reps = append(reps, verifyLemma(w, db.Lemmas[l]))
				slowRep(l, t0)
				n++
			}
		}
		axMu.Lock()
		for a := range axUsed {
			if strings.HasPrefix(a, "lemma:") {
				lem[strings.TrimPrefix(a, "lemma:")] = true
			}
		}
		axMu.Unlock()
		if n == 0 {
			break
		}
	}
	for i, k := range later {
		w, _ := getW(laterJob[i].arch)
		name := reps[k].Name
		t0 := time.Now()
		reps[k] = verifyPool(w, db.Contracts[laterJob[i].name], reps[k])
		slowRep(name+" (pool)", t0)
		reps[k].Name = name
	}
	if len(reps) == 0 {
		return nil, fmt.Errorf("spec: no contract belongs to %s", prop)
	}
	return reps, nil
}

// slowRep reports what took long, for development.
func slowRep(name string, t0 time.Time) {
	if d := time.Since(t0); d > 2*time.Second && os.Getenv("VCG_SLOW") != "" {
		fmt.Printf("   %s took %.1fs\n", name, d.Seconds())
	}
}

func walkCalls(x *Expr, f func(string)) {
	if x.K == "call" {
		f(x.Name)
	}
	for _, a := range x.Args {
		walkCalls(a, f)
	}
}

var axMu sync.Mutex
var axUsed = map[string]bool{}

// ---- drivers ----

var panicRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: .*limit.*)$`)

// runDrivers runs the bounded drivers of a property against the real code.
func runDrivers(prop, tier string, seed int) []*DriverResult {
	base := filepath.Join(verifDir, "drivers", prop)
	ents, err := os.ReadDir(base)
	if err != nil {
		return nil
	}
	var out []*DriverResult
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, en := range ents {
		if !en.IsDir() {
			continue
		}
		name := en.Name() // package directory, with __ for /
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := runDriver(base, name, prop, tier, seed)
			mu.Lock()
			out = append(out, r)
			mu.Unlock()
		}()
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func runDriver(base, name, prop, tier string, seed int) *DriverResult {
	t0 := time.Now()
	r := &DriverResult{Name: prop + "/" + name}
	tmp, err := os.MkdirTemp("", "vcgdrv")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	pkgDir := strings.ReplaceAll(name, "__", "/")
	if name == "root" {
		pkgDir = "."
	}
	repl := map[string]string{}
	addFiles := func(dir string) {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			repl[filepath.Join(repoDir, pkgDir, strings.TrimSuffix(filepath.Base(f), ".go")+"_verif_test.go")] = f
		}
	}
	addFiles(filepath.Join(base, name))
	// shared helpers for the package
	addFiles(filepath.Join(verifDir, "drivers", "common", name))
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0644)
	outFile := filepath.Join(tmp, "out.json")
	limit := 240
	if tier == "thorough" {
		limit = 800
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", fmt.Sprintf("ulimit -v 24000000; exec go test -overlay %s -vet=off -count=1 -timeout %ds -run '^TestVerif' ./%s", ov, limit, pkgDir))
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "VERIF_OUT="+outFile, "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOMEMLIMIT=8GiB")
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	err = cmd.Run()
	r.Output = o.String()
	r.Secs = time.Since(t0).Seconds()
	jb, jerr := os.ReadFile(outFile)
	if jerr == nil {
		nm := r.Name
		json.Unmarshal(jb, r)
		r.Name = nm
	}
	if err != nil && r.Fail == "" {
		switch {
		case strings.Contains(r.Output, "[build failed]") || strings.Contains(r.Output, "[setup failed]"):
			r.Err = "the driver does not compile against this tree: " + firstLine(grepErr(r.Output))
		case panicRe.MatchString(r.Output):
			r.Fail = "the code under test crashed the driver: " + panicRe.FindString(r.Output)
		case strings.Contains(r.Output, "--- FAIL"):
			r.Fail = "driver test failed: " + tail(r.Output, 800)
		default:
			r.Err = "driver did not run: " + firstLine(r.Output)
		}
	}
	return r
}

func grepErr(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, ".go:") {
			return l
		}
	}
	return s
}
