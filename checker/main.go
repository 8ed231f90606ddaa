package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report collects what one property check analysed and found.
type Report struct {
	ID      string
	P       *Prog
	rule    string
	Rules   []string
	Obl     map[string]int // obligations per rule
	Samples map[string][]string
	Viol    []Finding
	Notes   []string
	seen    map[string]bool
	n       int
}

// Finding is one violated obligation. Key identifies rule + construct (never a
// line number), Msg is the diagnosis.
type Finding struct{ Key, Msg string }

// Rule opens a rule: subsequent obligations are counted under it.
func (r *Report) Rule(name, text string) {
	r.rule = name
	r.Rules = append(r.Rules, name+": "+text)
	if _, ok := r.Obl[name]; !ok {
		r.Obl[name] = 0
	}
}

var dumpOk = os.Getenv("GOK") != "" // for development: print every discharged obligation

// Ok counts a discharged obligation.
func (r *Report) Ok(construct string) {
	if dumpOk {
		fmt.Println("OK", r.rule, construct)
	}
	r.Obl[r.rule]++
	if len(r.Samples[r.rule]) < 400 {
		r.Samples[r.rule] = append(r.Samples[r.rule], construct)
	}
}

// Bad records a violated (or undecidable) obligation.
func (r *Report) Bad(construct, format string, args ...interface{}) {
	r.Obl[r.rule]++
	key := r.rule + "|" + construct
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Viol = append(r.Viol, Finding{key, fmt.Sprintf(format, args...)})
}

// Min requires that the rule had at least n instances.
func (r *Report) Min(n int) {
	if r.Obl[r.rule] < n {
		r.Bad("instances", "rule %s matched %d constructs, fewer than the %d confirmed by hand: the rule no longer sees the code it was written for", r.rule, r.Obl[r.rule], n)
	}
}

func (r *Report) Note(f string, a ...interface{}) { r.Notes = append(r.Notes, fmt.Sprintf(f, a...)) }

// sub is a report that is merged into r later.
func (r *Report) sub() *Report {
	return &Report{ID: r.ID, P: r.P, rule: r.rule, Obl: map[string]int{}, Samples: map[string][]string{}, seen: map[string]bool{}}
}

func (r *Report) merge(s *Report) {
	for k, n := range s.Obl {
		r.Obl[k] += n
	}
	for _, k := range sortedKeys(s.Samples) {
		r.Samples[k] = append(r.Samples[k], s.Samples[k]...)
		if len(r.Samples[k]) > 400 {
			r.Samples[k] = r.Samples[k][:400]
		}
	}
	for _, f := range s.Viol {
		if !r.seen[f.Key] {
			r.seen[f.Key] = true
			r.Viol = append(r.Viol, f)
		}
	}
	r.Notes = append(r.Notes, s.Notes...)
}

type check struct {
	level string
	expl  string
	run   func(p *Prog, r *Report)
}

var checks = map[string]check{}

func register(id, level, expl string, run func(p *Prog, r *Report)) {
	checks[id] = check{level, expl, run}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "")
	dump := flag.Bool("dump", false, "print all obligations")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 0 {
		fmt.Println("usage: checker [-repo dir] ID...")
		os.Exit(2)
	}
	start := time.Now()
	prog, err := loadSafe(*repo)
	code := 0
	for _, id := range ids {
		if runOne(prog, err, id, *verif, *tier, start, *dump) {
			code = 1
		}
		start = time.Now()
	}
	os.Exit(code)
}

func loadSafe(root string) (p *Prog, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("load panicked: %v", x)
		}
	}()
	return load(root)
}

func runOne(prog *Prog, loadErr error, id, verif, tier string, start time.Time, dump bool) (bad bool) {
	c, ok := checks[id]
	r := &Report{ID: id, P: prog, Obl: map[string]int{}, Samples: map[string][]string{}, seen: map[string]bool{}}
	switch {
	case !ok:
		r.rule = "internal"
		r.Bad("unknown", "no such check")
	case loadErr != nil:
		r.rule = "load"
		r.Bad("load", "%v", loadErr)
	default:
		func() {
			defer func() {
				if x := recover(); x != nil {
					if f, ok := x.(failure); ok {
						r.rule = "decide"
						r.Bad("anchor|"+f.msg, "undecided: %s", f.msg)
					} else if u, ok := x.(undecided); ok {
						r.Note("undecided: %s", u.msg)
					} else {
						// the analysis met code it was not written for: no answer, and no alarm
						fmt.Printf("UNDECIDED: property=%s %v\n", id, x)
						r.Note("undecided: the checker failed: %v\n%s", x, debug.Stack())
					}
				}
			}()
			c.run(prog, r)
		}()
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), id)
	var fresh, listed []Finding
	for _, v := range r.Viol {
		if _, ok := known[v.Key]; ok {
			listed = append(listed, v)
		} else {
			fresh = append(fresh, v)
		}
	}
	total := 0
	for _, n := range r.Obl {
		total += n
	}
	// ---- report file
	evdir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evdir, 0o755)
	rep := filepath.Join(evdir, id+".report.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s tier %s\n", id, tier)
	for _, s := range r.Rules {
		name := strings.SplitN(s, ":", 2)[0]
		fmt.Fprintf(&b, "\nrule %s\n  obligations: %d\n", s, r.Obl[name])
		for _, x := range r.Samples[name] {
			fmt.Fprintf(&b, "    ok %s\n", x)
		}
	}
	for _, v := range fresh {
		fmt.Fprintf(&b, "\nVIOLATION key=%s\n  %s\n", v.Key, v.Msg)
	}
	for _, v := range listed {
		fmt.Fprintf(&b, "\nKNOWN key=%s\n  %s\n", v.Key, v.Msg)
	}
	for _, n := range r.Notes {
		fmt.Fprintf(&b, "note: %s\n", n)
	}
	_ = os.WriteFile(rep, []byte(b.String()), 0o644)
	if dump {
		fmt.Print(b.String())
	}
	// ---- evidence
	rules := []map[string]interface{}{}
	for _, s := range r.Rules {
		name := strings.SplitN(s, ":", 2)[0]
		sm := r.Samples[name]
		if len(sm) > 25 {
			sm = sm[:25]
		}
		rules = append(rules, map[string]interface{}{"rule": s, "obligations": r.Obl[name], "constructs": sm})
	}
	fl := func(fs []Finding) []map[string]string {
		out := []map[string]string{}
		for _, f := range fs {
			out = append(out, map[string]string{"key": f.Key, "what": f.Msg})
		}
		return out
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nf, np := 0, 0
	if prog != nil {
		nf, np = len(prog.Funcs), len(prog.Repo)
	}
	cov := map[string]interface{}{
		"explanation":        c.expl,
		"obligations":        total,
		"discharged":         total - len(r.Viol),
		"checker_cmd":        "bash /verif/run.sh " + id,
		"trusted_base":       []string{"go/types and golang.org/x/tools v0.32.0 (go/packages, go/ssa)", "the rule definitions in /verif/checker"},
		"rules":              rules,
		"packages_loaded":    np,
		"functions_in_scope": nf,
		"violations":         fl(fresh),
		"known_findings":     fl(listed),
		"notes":              r.Notes,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": c.level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), js, 0o644); err != nil {
		fmt.Printf("cannot write evidence: %v\n", err)
	}
	fmt.Printf("%s: %d obligations under %d rules, %d violated, %d known\n", id, total, len(r.Rules), len(fresh), len(listed))
	for _, v := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[v.Key])
	}
	for _, v := range fresh {
		fmt.Printf("  [%s]\n    %s\n", v.Key, v.Msg)
	}
	if len(fresh) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		return true
	}
	return false
}

// known-findings.txt lines:
//
//	known: property=<id> key=<rule|construct> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(file, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := sc.Text()
		pre := "known: property=" + id + " key="
		if !strings.HasPrefix(line, pre) {
			continue
		}
		rest := line[len(pre):]
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		out[rest[:i]] = rest[i+4:]
	}
	return out
}
