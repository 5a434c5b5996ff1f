package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Checker collects what one property's check covered and found.
type Checker struct {
	p    *Prog
	r    *Roles
	id   string
	tier string

	obligations int
	discharged  int
	paths       int
	counts      map[string]int
	analysed    map[string]bool
	samples     []string
	rules       []string
	viols       []Viol
	violSeen    map[string]bool
}

type Viol struct {
	Rule, Construct, Pos, Msg string
}

func (c *Checker) rule(s string) { c.rules = append(c.rules, s) }

// ob records an obligation; a failed one is a violation.
func (c *Checker) ob(ok bool, rule, construct, pos, format string, a ...any) bool {
	c.obligations++
	c.counts[rule]++
	if ok {
		c.discharged++
		if len(c.samples) < 12 && c.counts[rule] <= 3 {
			c.samples = append(c.samples, rule+" @ "+construct)
		}
		return true
	}
	c.viol(rule, construct, pos, format, a...)
	return false
}

func (c *Checker) viol(rule, construct, pos, format string, a ...any) {
	k := rule + "|" + construct
	if c.violSeen[k] {
		return
	}
	c.violSeen[k] = true
	c.viols = append(c.viols, Viol{rule, construct, pos, fmt.Sprintf(format, a...)})
}

func (c *Checker) undecided(what string, format string, a ...any) {
	c.viol("undecided", what, "", format, a...)
}

func (c *Checker) mark(ip *Interp, n int) {
	for f := range ip.analysed {
		c.analysed[c.p.short(f)] = true
	}
	c.paths += n
}

// run analyses a function and records what was covered; nil means undecided.
func (c *Checker) run(ip *Interp, st *State, f *ssa.Function, args []*Term) []Outcome {
	if f == nil {
		c.undecided("anchor", "a function that the property is anchored at was not found")
		return nil
	}
	outs := ip.Run(st, f, args)
	c.mark(ip, len(outs))
	if ip.err != "" {
		c.undecided(c.p.short(f), "%s", ip.err)
		return nil
	}
	outs = ip.stayNil(outs)
	if len(outs) == 0 {
		c.undecided(c.p.short(f), "the analysis found no path through the function")
	}
	return outs
}

func (c *Checker) at(f *ssa.Function, pos token.Pos) string { return c.p.at(f, pos) }

// min fails the check when a rule matched fewer sites than were confirmed by
// hand: a rule that matches nothing passes vacuously.
func (c *Checker) min(rule string, n int) {
	if c.counts[rule] < n {
		c.viol("coverage", rule, "", "the rule matched %d sites, at least %d are expected", c.counts[rule], n)
	}
}

type propDef struct {
	run     func(*Checker)
	explain string
}

var props = map[string]propDef{}

func register(id, explain string, run func(*Checker)) {
	props[id] = propDef{run, explain}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-dump" {
		dump(os.Args[2:])
		return
	}
	verif := "/verif"
	repo := "/repo"
	var ids []string
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "-repo":
			i++
			repo = os.Args[i]
		case "-verif":
			i++
			verif = os.Args[i]
		case "-all":
			for id := range props {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		default:
			ids = append(ids, os.Args[i])
		}
	}
	rc := 0
	start := time.Now()
	p, err := load(repo)
	if err == nil {
		p.findRoles()
	}
	for _, id := range ids {
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		if check(p, err, id, verif, t0) {
			rc = 1
		}
	}
	os.Exit(rc)
}

func check(p *Prog, loadErr error, id, verif string, t0 time.Time) bool {
	c := &Checker{p: p, id: id, tier: os.Getenv("VERIF_TIER"), counts: map[string]int{}, analysed: map[string]bool{}, violSeen: map[string]bool{}}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	def, ok := props[id]
	stop := make(chan struct{})
	defer close(stop)
	go watch(p, id, verif, c.tier, def, t0, stop)
	switch {
	case !ok:
		c.viol("driver", id, "", "unknown property")
	case loadErr != nil:
		c.viol("load", "package", "", "the package can't be loaded: %v", loadErr)
	default:
		c.r = p.roles
		for _, m := range c.r.missing {
			c.viol("anchor", m, "", "a construct that the properties are anchored at was not found")
		}
		if len(c.r.missing) == 0 {
			func() {
				defer func() {
					if e := recover(); e != nil {
						c.viol("undecided", "analysis", "", "the analysis failed: %v\n%s", e, debug.Stack())
					}
				}()
				def.run(c)
			}()
		}
	}
	known := knownFindings(verif, id)
	var real []Viol
	for _, v := range c.viols {
		if why, ok := known[v.Rule+"|"+v.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, v.Rule+"|"+v.Construct, why)
			continue
		}
		real = append(real, v)
	}
	if c.obligations == 0 && len(real) == 0 {
		real = append(real, Viol{"coverage", "all", "", "the check matched nothing"})
	}
	report := filepath.Join(verif, "evidence", id+".report.txt")
	os.MkdirAll(filepath.Dir(report), 0o755)
	var sb strings.Builder
	for _, v := range real {
		fmt.Fprintf(&sb, "[%s] %s\n  at %s\n  %s\n", v.Rule, v.Construct, v.Pos, v.Msg)
	}
	if len(real) > 0 {
		os.WriteFile(report, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	} else {
		os.Remove(report)
		fmt.Printf("ok property=%s obligations=%d discharged=%d paths=%d functions=%d (%.1fs)\n",
			id, c.obligations, c.discharged, c.paths, len(c.analysed), time.Since(t0).Seconds())
	}
	c.evidence(verif, def.explain, len(real), time.Since(t0))
	return len(real) > 0
}

const (
	maxTime = 10 * time.Minute
	maxHeap = 12 << 30
)

// watch ends a check that takes too long or too much memory: the property is
// undecided then, which counts as a violation.
func watch(p *Prog, id, verif, tier string, def propDef, t0 time.Time, stop chan struct{}) {
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if time.Since(t0) < maxTime && ms.HeapAlloc < maxHeap {
			continue
		}
		c := &Checker{p: p, id: id, tier: tier, counts: map[string]int{}, analysed: map[string]bool{}}
		report := filepath.Join(verif, "evidence", id+".report.txt")
		os.MkdirAll(filepath.Dir(report), 0o755)
		msg := fmt.Sprintf("[undecided] analysis\n  at the package\n  the analysis was given up after %.0f s with %d MB\n", time.Since(t0).Seconds(), ms.HeapAlloc>>20)
		os.WriteFile(report, []byte(msg), 0o644)
		c.evidence(verif, def.explain, 1, time.Since(t0))
		fmt.Print(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
		os.Exit(1)
	}
}

func (c *Checker) evidence(verif, explain string, nviol int, d time.Duration) {
	var fns []string
	for f := range c.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":          explain,
		"rules":                c.rules,
		"obligations":          c.obligations,
		"discharged":           c.discharged,
		"obligations_by_rule":  c.counts,
		"abstract_paths":       c.paths,
		"functions_analysed":   fns,
		"functions_in_package": 0,
		"samples":              c.samples,
	}
	if c.p != nil {
		cov["functions_in_package"] = len(c.p.fns)
		cov["files"] = c.p.pkg.CompiledGoFiles
		if len(c.p.pkg.IgnoredFiles) > 0 {
			cov["ignored_files"] = c.p.pkg.IgnoredFiles
		}
	}
	if c.samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": d.Seconds(), "violations": nviol,
		"assumptions": []string{
			"the configuration of the responders doesn't change while a request is being served",
			"functions given by the users of the package access its objects only through the exported API",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644)
}

// knownFindings reads the committed list of genuine defects that aren't
// repaired. Lines: finding: property=<id> key=<rule|construct> why=<text>
func knownFindings(verif, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		i := strings.Index(l, " key=")
		j := strings.Index(l, " why=")
		if i < 0 || j < i {
			continue
		}
		m[l[i+5:j]] = l[j+5:]
	}
	return m
}

// dump prints the abstract paths of a function, for debugging.
func dump(a []string) {
	dir := "/repo"
	if d := os.Getenv("DUMP_REPO"); d != "" {
		dir = d
	}
	p, err := load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	p.findRoles()
	fmt.Println("missing roles:", p.roles.missing)
	f := p.method(a[0], a[1])
	if a[0] == "-" {
		f = p.fn(a[1])
		if f == nil {
			f = p.fnByAux["github.com/shohruhadham/nanomux."+a[1]]
		}
	}
	ip := p.newInterp()
	ip.DynHavoc = p.argsHavoc()
	opq := map[string]bool{}
	for _, x := range a[2:] {
		if x == "-reg" {
			// as the registration properties see it
			ip.DynHavoc = nil
			ip.Model = p.regModel(regNames, set("parent"))
			continue
		}
		opq[x] = true
	}
	ip.Opaque = func(f *ssa.Function) bool { return opq[f.Name()] }
	outs := ip.Run(newState(), f, params(f))
	fmt.Println("err", ip.err, "outs", len(outs), "steps", ip.steps, "branches", ip.nbranch)
	for i, o := range outs {
		fmt.Println("----", i, o.Kind, o.Res, p.pos(o.Pos))
		fmt.Println("   facts:", o.St.facts)
		for _, e := range o.St.trace {
			fmt.Println("   ", e)
		}
	}
	for _, b := range ip.backedges {
		fmt.Println("---- back edge", b.Loop)
		for w, n := range b.Next {
			fmt.Println("   next:", w, "init", b.Init[w], "next", n)
		}
		fmt.Println("   facts:", b.St.facts)
		for _, e := range b.St.trace {
			fmt.Println("   ", e)
		}
	}
}

// argsHavoc are the fields of Args that a user's function may change.
func (p *Prog) argsHavoc() map[string]bool {
	r := p.roles
	return map[string]bool{r.idx: true, r.sub: true, r.handled: true, r.hpv: true, r.r: true, r.slc: true,
		"elem:" + r.hpv: true, "elem:" + r.slc: true}
}
