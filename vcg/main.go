package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
)

var verifDir = "/verif"

func main() {
	if f := os.Getenv("VCG_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vcg fn NAME... | lemma NAME... | check PROP")
		os.Exit(2)
	}
	if d, err := filepath.Abs(filepath.Join(filepath.Dir(os.Args[0]), "..")); err == nil {
		if _, err := os.Stat(filepath.Join(d, "contracts")); err == nil {
			verifDir = d
		}
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("VCG_REPO"); v != "" {
		repoDir = v
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	arch := fs.String("arch", "", "GOARCH")
	all := fs.Bool("all", false, "list all obligations")
	fs.IntVar(&quickSecs, "q", quickSecs, "quick solver seconds")
	fs.IntVar(&fullSecs, "f", fullSecs, "full solver seconds")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "fn", "lemma":
		db := NewSpecDB()
		if err := db.LoadDir(filepath.Join(verifDir, "contracts")); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		w, err := loadWorld(*arch, db)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if err := w.loadAxioms(); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var reps []*FnReport
		if cmd == "lemma" {
			for _, n := range db.LemmaOrder {
				if len(fs.Args()) == 0 || contains(fs.Args(), n) {
					reps = append(reps, verifyLemma(w, db.Lemmas[n]))
				}
			}
		} else {
			for _, n := range db.Order {
				c := db.Contracts[n]
				hit := false
				for _, a := range fs.Args() {
					if a == n || a == "all" || strings.HasSuffix(a, "*") && strings.HasPrefix(n, a[:len(a)-1]) {
						hit = true
					}
				}
				if hit && !c.Trusted && !c.NoVerify && !c.Inline {
					reps = append(reps, verifyContract(w, c))
				}
			}
		}
		for _, r := range reps {
			printReport(r, *all)
		}
	case "driver":
		seed := 1
		fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		for _, d := range runDrivers(fs.Arg(0), tier, seed) {
			fmt.Printf("%s: %d cases, %d non-trivial, %.1fs fail=%q err=%q\n", d.Name, d.Cases, d.Nontriv, d.Secs, d.Fail, d.Err)
			if d.Err != "" || d.Fail != "" {
				fmt.Println(tail(d.Output, 3000))
			}
		}
	default:
		os.Exit(runCheck(cmd, fs))
	}
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func printReport(r *FnReport, all bool) {
	n := 0
	for _, o := range r.Obls {
		if o.Status == "proved" {
			n++
		}
	}
	st := "OK"
	if !r.ok() {
		st = "FAIL"
	}
	fmt.Printf("%-4s %s: %d/%d obligations, %.1fs solver, %s\n", st, r.Name, n, len(r.Obls), r.SolverSecs, r.Pos)
	if os.Getenv("VCG_SLOW") != "" {
		for _, o := range r.Obls {
			if o.Result.Secs > 2.5 {
				fmt.Printf("   slow %6.1fs %s at %s [%s]\n", o.Result.Secs, o.Name, o.Pos, o.Result.Backend)
			}
		}
	}
	if r.Err != "" {
		fmt.Println("   error:", r.Err)
	}
	for _, o := range r.Obls {
		if all || o.Status != "proved" {
			fmt.Printf("   %-8s %s at %s [%s %.1fs] %s\n", o.Status, o.Name, o.Pos, o.Result.Backend, o.Result.Secs, o.Reason)
			if os.Getenv("VCG_GOAL") != "" {
				fmt.Println("        goal:", o.Goal)
			}
		}
	}
	if all || !r.ok() || os.Getenv("VCG_NOTES") != "" {
		for _, x := range r.Notes {
			fmt.Println("   note:", x)
		}
		if len(r.WrapAt) > 0 {
			fmt.Println("   wraps:", r.WrapAt)
		}
		fmt.Println("   uses:", r.Used, "inlines:", r.Inlined, "pool:", r.Pool, r.Dropped)
	}
}
