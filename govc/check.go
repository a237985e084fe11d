package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type violation struct {
	Property   string     `json:"property"`
	Harness    string     `json:"harness"`
	Package    string     `json:"package"`
	Function   string     `json:"function,omitempty"`
	Concrete   *outcome   `json:"concrete,omitempty"`
	Dict       *dict      `json:"dictionary,omitempty"`
	Obligation []ObResult `json:"failed_obligations,omitempty"`
	Reason     string     `json:"reason,omitempty"`
	HowTo      string     `json:"replay_cmd"`
}

// known findings: lines "finding <id> property=Cxx <text>" and "fixed: property=..."
func knownFindings(verif, prop string) (ids []string, texts map[string]string) {
	texts = map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		fl := strings.Fields(sc.Text())
		if len(fl) < 4 || fl[0] != "finding" || fl[2] != "property="+prop {
			continue
		}
		ids = append(ids, fl[1])
		texts[fl[1]] = strings.Join(fl[3:], " ")
	}
	return
}

var vcFileRe = regexp.MustCompile(`[^\s:]*zz_vc_[a-z0-9_]*\.go`)

// loadTolerant loads the packages, leaving out contract files which no longer
// type-check against the code.
func loadTolerant(repo, verif string, dirs []string) (*Program, map[string]bool, string, error) {
	drop := map[string]bool{}
	msg := ""
	for try := 0; ; try++ {
		p, err := loadProgramDrop(repo, filepath.Join(verif, "contracts"), dirs, drop)
		if err == nil {
			return p, drop, msg, nil
		}
		if try > 6 {
			return nil, drop, err.Error(), err
		}
		found := false
		for _, m := range vcFileRe.FindAllString(err.Error(), -1) {
			rel, e := filepath.Rel(repo, m)
			if e != nil {
				continue
			}
			f := filepath.Join(verif, "contracts", rel)
			if !drop[f] {
				drop[f] = true
				found = true
			}
		}
		msg += err.Error() + "\n"
		if !found {
			return nil, drop, msg, err
		}
	}
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	secs := fs.Float64("secs", 0, "budget of the concrete search")
	to := fs.Duration("t", 0, "solver timeout")
	fs.Parse(args)
	t0 := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *secs == 0 {
		*secs = 30
		if *tier == "thorough" {
			*secs = 300
		}
	}
	if *to == 0 {
		*to = 40 * time.Second
		if *tier == "thorough" {
			*to = 120 * time.Second
		}
	}
	all, err := scanContracts(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	dirset := map[string]bool{}
	for _, h := range all {
		for _, q := range h.props {
			if q == *prop {
				dirset[h.dir] = true
			}
		}
	}
	if len(dirset) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts for", *prop)
		os.Exit(2)
	}
	// other contract packages are loaded as well, so that their contracts apply
	var dirs []string
	for d := range dirset {
		dirs = append(dirs, "./"+d)
	}
	sort.Strings(dirs)
	allDirs := map[string]bool{}
	for _, h := range all {
		allDirs["./"+h.dir] = true
	}
	var vios []violation
	replayDir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0755)
	old, _ := filepath.Glob(filepath.Join(replayDir, *prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	p, drop, loadMsg, err := loadTolerant(*repo, *verif, dirs)
	rn := newRunner(*repo, *verif)
	defer rn.close()
	rn.drop = drop

	var results []*Result
	resOf := map[string]*Result{}
	selected := map[string]*Harness{}
	// execution
	byDir := map[string][]string{}
	names := map[string]bool{}
	textOf := map[string]textHarness{}
	for _, h := range all {
		k := h.dir + ":" + h.name
		textOf[k] = h
		want := false
		for _, q := range h.props {
			if q == *prop {
				want = true
			}
		}
		if want && !drop[h.file] && !names[k] {
			names[k] = true
			byDir[h.dir] = append(byDir[h.dir], h.name)
		}
	}
	dicts := map[string]dict{}
	if p != nil {
		for _, h := range p.harnesses {
			if names[h.key()] {
				dicts[h.key()] = p.dictionary(h)
			}
		}
	}
	var outs []outcome
	outDir := map[string]string{}
	execErr := ""
	concrete := map[string]*outcome{}
	runAll := func(sel func(k string) bool, budget float64, sd uint64) {
		n := 0
		for k := range names {
			if sel(k) {
				n++
			}
		}
		if n == 0 {
			return
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		// several processes share the work
		for d, ns := range byDir {
			var l []string
			for _, m := range ns {
				if sel(d + ":" + m) {
					l = append(l, m)
				}
			}
			if len(l) == 0 {
				continue
			}
			if _, err := rn.build(d, all); err != nil {
				execErr += err.Error()
				continue
			}
			par := 6
			if par > len(l) {
				par = len(l)
			}
			for g := 0; g < par; g++ {
				var part []string
				for i := g; i < len(l); i += par {
					part = append(part, l[i])
				}
				per := budget * float64(par) / float64(n)
				if per < 0.4 {
					per = 0.4
				}
				j := job{Seed: sd, Secs: per, MaxN: 1 << 30, Names: part, Dict: map[string]dict{}}
				if *tier == "quick" {
					j.MaxN = 400000
				}
				for _, m := range part {
					j.Dict[m] = dicts[d+":"+m]
				}
				d := d
				wg.Add(1)
				go func() {
					defer wg.Done()
					o, err := rn.run(d, all, j)
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						execErr += err.Error()
					}
					for i := range o {
						outs = append(outs, o[i])
						outDir[o[i].Name] = d
						if o[i].Fail != "" {
							concrete[d+":"+o[i].Name] = &o[i]
						}
					}
				}()
			}
		}
		wg.Wait()
	}
	runAll(func(string) bool { return true }, *secs, seed)
	execSecs := time.Since(t0).Seconds()
	proofs := len(concrete) == 0 || *tier == "thorough"
	deadline = t0.Add(450 * time.Second)
	if *tier == "thorough" {
		deadline = t0.Add(3 * time.Hour)
	}
	if !proofs {
		fmt.Println("a contract fails on the real code: proofs not attempted")
	}
	if err != nil {
		vios = append(vios, violation{Property: *prop, Reason: "the code does not load with the contracts: " + loadMsg})
	} else if proofs {
		// property harnesses and the contracts they rely on
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		var start func(h *Harness)
		byTarget := map[string]*Harness{}
		for _, h := range p.harnesses {
			if h.kind == "VC" && h.target != nil {
				byTarget[h.fn.RelString(nil)] = h
			}
		}
		start = func(h *Harness) {
			mu.Lock()
			if selected[h.key()] != nil {
				mu.Unlock()
				return
			}
			selected[h.key()] = h
			mu.Unlock()
			if h.kind == "VB" || (h.tier == "thorough" && *tier != "thorough") {
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				r := p.runHarness(h, *to)
				<-sem
				mu.Lock()
				results = append(results, r)
				resOf[h.key()] = r
				mu.Unlock()
				for _, u := range r.UsedFn {
					if g := p.byFn[u]; g != nil {
						start(g)
					}
				}
			}()
		}
		for _, h := range p.harnesses {
			if h.has(*prop) && h.kind != "VI" {
				start(h)
			}
		}
		wg.Wait()
	}
	if err == nil {
		// contract files that no longer compile
		for _, h := range all {
			if !drop[h.file] {
				continue
			}
			for _, q := range h.props {
				if q == *prop {
					vios = append(vios, violation{Property: *prop, Harness: h.name, Package: h.dir, Reason: "the contract does not apply to the current code: " + loadMsg})
				}
			}
		}
	}
	// proofs that failed are tried again, one at a time and with more time
	if len(concrete) == 0 {
		patience = 3
		deadline = deadline.Add(200 * time.Second)
		for i, r := range results {
			if r.ok() || time.Since(t0) > 500*time.Second {
				continue
			}
			for k, q := range resOf {
				if q == r {
					n := p.runHarness(selected[k], 3**to)
					if n.ok() {
						fmt.Printf("%s proved at the second attempt\n", n.Harness)
						resOf[k], results[i] = n, n
					}
					break
				}
			}
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].Harness < results[j].Harness })
	proofSecs := time.Since(t0).Seconds() - execSecs
	// contracts the proofs rely on
	extra := map[string]bool{}
	for k, h := range selected {
		if !names[k] && !drop[textOf[k].file] {
			names[k] = true
			extra[k] = true
			i := strings.Index(k, ":")
			byDir[k[:i]] = append(byDir[k[:i]], k[i+1:])
			dicts[k] = p.dictionary(h)
		}
	}
	runAll(func(k string) bool { return extra[k] }, *secs/3, seed)
	failedProof := map[string]bool{}
	for k, r := range resOf {
		if !r.ok() {
			failedProof[k] = true
		}
	}
	anyConcrete := len(concrete) > 0
	if len(failedProof) > 0 && !anyConcrete {
		// look harder: everything that relies on the failing function too
		runAll(func(k string) bool { return failedProof[k] }, 60, seed+1)
		if len(concrete) == 0 {
			runAll(func(k string) bool { return true }, 60, seed+2)
		}
	}
	seenV := map[string]bool{}
	for k, o := range concrete {
		h := textOf[k]
		dd := dicts[k]
		v := violation{Property: *prop, Harness: h.name, Package: h.dir, Concrete: o, Dict: &dd}
		if r := resOf[k]; r != nil {
			v.Function = r.Target
			v.Obligation = r.Failed
			v.Reason = r.Unsup
		}
		vios = append(vios, v)
		seenV[k] = true
	}
	for k := range failedProof {
		if seenV[k] {
			continue
		}
		r := resOf[k]
		h := textOf[k]
		v := violation{Property: *prop, Harness: h.name, Package: h.dir, Function: r.Target, Obligation: r.Failed, Reason: r.Unsup}
		if r.Vacuous {
			v.Reason = "the contract is vacuous: its precondition cannot be met or the function is not reached"
		}
		vios = append(vios, v)
	}
	if execErr != "" {
		vios = append(vios, violation{Property: *prop, Reason: "the contracts do not compile with the code: " + execErr})
	}

	// evidence
	obl, dis := 0, 0
	solvers := map[string]int{}
	trusted, inlined, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fns []map[string]interface{}
	solverSecs := 0.0
	for _, r := range results {
		obl += r.Obligs
		dis += r.Proved
		solverSecs += r.SolverS
		for k, n := range r.Solvers {
			solvers[k] += n
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inlined[t] = true
		}
		for _, t := range r.Notes {
			notes[t] = true
		}
		m := map[string]interface{}{"contract": r.Harness, "kind": map[string]string{"VC": "function contract", "VT": "theorem"}[r.Kind], "obligations": r.Obligs, "discharged": r.Proved, "paths": r.Paths, "secs": round(r.Secs)}
		if r.Target != "" {
			m["function"] = r.Target
		}
		if len(r.Used) > 0 {
			m["relies_on_contracts"] = r.Used
		}
		if len(r.Known) > 0 {
			m["excluded_known_findings"] = r.Known
		}
		if r.Unsup != "" {
			m["not_verified"] = r.Unsup
		}
		fns = append(fns, m)
	}
	var bounded []map[string]interface{}
	cases, eff := 0, 0
	var samples []string
	sort.Slice(outs, func(i, j int) bool { return outs[i].Name < outs[j].Name })
	for _, o := range outs {
		cases += o.Cases
		eff += o.Cases - o.Skipped
		k := outDir[o.Name] + ":" + o.Name
		only := textOf[k].kind == "VB"
		bounded = append(bounded, map[string]interface{}{"contract": o.Name, "cases": o.Cases, "met_precondition": o.Cases - o.Skipped, "bounded_only": only})
		if len(samples) < 6 {
			for _, s := range o.Samples {
				if len(s) > 300 {
					s = s[:300] + "…"
				}
				samples = append(samples, o.Name+": "+s)
				break
			}
		}
	}
	tb := append([]string{
		"govc (the verifier in /verif/govc) and the semantics it gives Go's SSA form", "golang.org/x/tools/go/ssa", "z3, z3-new, cvc5 answers (unsat)",
		"termination is not verified", "memory exhaustion and stack overflow are not modelled", "pointer parameters are non-nil and distinct unless the contract says otherwise"}, sortedKeys(trusted)...)
	ids, texts := knownFindings(*verif, *prop)
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": levelOf(*verif, *prop), "wall_s": round(time.Since(t0).Seconds()),
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": dis, "checker_cmd": fmt.Sprintf("bash /verif/check.sh %s %s", *prop, *tier), "trusted_base": tb,
			"functions_under_contract": fns, "inlined_functions": sortedKeys(inlined), "discharged_by": solvers, "solver_secs": round(solverSecs), "proof_secs": round(proofSecs),
			"evaluations": cases, "distinct_nontrivial": eff, "rule": "contracts executed on the real code with generated arguments; a case counts when it meets the precondition (distinctness is by generator position)", "samples": samples,
			"bounded_execution": bounded, "notes": sortedKeys(notes), "known_findings": ids, "violations": len(vios),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0644)

	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, texts[id])
	}
	fmt.Printf("%s: %d/%d obligations discharged over %d contracts, %d contract executions, %.1f s\n", *prop, dis, obl, len(results), cases, time.Since(t0).Seconds())
	if len(vios) == 0 {
		rn.close()
		os.Exit(0)
	}
	sort.Slice(vios, func(i, j int) bool {
		if (vios[i].Concrete != nil) != (vios[j].Concrete != nil) {
			return vios[i].Concrete != nil
		}
		return vios[i].Harness < vios[j].Harness
	})
	haveConcrete := vios[0].Concrete != nil
	for i, v := range vios {
		f := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", *prop, i))
		v.HowTo = "bash /verif/check.sh --replay " + f
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0644)
		what := v.Reason
		if len(v.Obligation) > 0 {
			what = "obligation " + v.Obligation[0].Name + " " + v.Obligation[0].Status
		}
		if v.Concrete != nil {
			what = v.Concrete.Fail
		}
		if len(what) > 300 {
			what = what[:300]
		}
		fmt.Printf("  %s %s: %s\n", v.Harness, v.Function, strings.ReplaceAll(what, "\n", " "))
		if v.Concrete != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
		} else if !haveConcrete {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, f)
		}
	}
	rn.close()
	os.Exit(1)
}

func levelOf(verif, prop string) string {
	b, err := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == prop {
					return c.Level
				}
			}
		}
	}
	return "proof"
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func (h *Harness) key() string {
	rel := strings.TrimPrefix(strings.TrimPrefix(h.pkg.Pkg.Path(), modPath), "/")
	if rel == "" {
		rel = "."
	}
	return rel + ":" + h.name
}

func (r *Result) ok() bool { return len(r.Failed) == 0 && r.Unsup == "" && !r.Vacuous }

// cmdReplay re-runs the recorded case on the current code.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if v.Concrete == nil {
		fmt.Println("no concrete input; failed obligations:")
		for _, o := range v.Obligation {
			fmt.Println(" ", o.Name, o.Pos, o.Status, o.Reason)
		}
		return
	}
	all, err := scanContracts(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rn := newRunner(*repo, *verif)
	defer rn.close()
	j := job{Seed: v.Concrete.Seed, Secs: 1000, MaxN: 1 << 30, Names: []string{v.Harness}, Dict: map[string]dict{v.Harness: *v.Dict}, Replay: v.Harness, Case: v.Concrete.Case}
	o, err := rn.run(v.Package, all, j)
	if err != nil {
		fmt.Println(err)
	}
	for _, r := range o {
		fmt.Printf("%s: %s\nargs: %s\n%s\n", r.Name, r.Fail, strings.Join(r.Args, "\n      "), r.Stack)
	}
}
