package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"time"
)

// Sel selects lines of the reviewed specification.
type Sel struct {
	Area string
	Root string // regular expression, matched against the whole root name
	Head string // regular expression, searched in the line
	Not  string // regular expression, lines that match are left out
	root *regexp.Regexp
	head *regexp.Regexp
	not  *regexp.Regexp
}

func (s *Sel) compile() {
	if s.root == nil {
		s.root = regexp.MustCompile("^(?:" + s.Root + ")$")
	}
	if s.Head != "" && s.head == nil {
		s.head = regexp.MustCompile(s.Head)
	}
	if s.Not != "" && s.not == nil {
		s.not = regexp.MustCompile(s.Not)
	}
}

func (s *Sel) owns(line string) bool {
	return (s.head == nil || s.head.MatchString(line)) && (s.not == nil || !s.not.MatchString(line))
}

// Check decides one property.
type Check struct {
	ID    string
	Sels  []Sel
	Rules []Rule
	Note  string // what the check decides and how
}

// Finding is one construct that breaks a rule.
type Finding struct {
	Rule string
	Key  string // identifies the construct, without line numbers
	Pos  string
	Msg  string
}

// RuleResult is the outcome of one structural rule.
type RuleResult struct {
	Obligations int
	Findings    []Finding
	Samples     []string
	Functions   int
	What        string
}

// Rule is a structural analysis over the whole program.
type Rule struct {
	Name string
	Run  func(c *Ctx) *RuleResult
}

func findCheck(id string) *Check {
	for _, ch := range allChecks() {
		if ch.ID == id {
			return ch
		}
	}
	return nil
}

func (c *Ctx) specOf(id string) *areaSpec {
	if s := c.specs[id]; s != nil {
		return s
	}
	s, err := loadSpec(id)
	if err != nil {
		panic(err)
	}
	c.specs[id] = s
	return s
}

// resultOf evaluates an area once. want limits the roots of function areas.
func (c *Ctx) resultOf(id string, tier int, want func(string) bool) map[string]*Root {
	key := id + "#" + strconv.Itoa(tier)
	if r := c.results[key]; r != nil {
		return r
	}
	var out map[string]*Root
	done := false
	for _, fa := range fnAreas() {
		if fa.id == id {
			if !c.full {
				fa.want = want
			}
			out = fa.eval(c, tier)
			done = true
		}
	}
	if !done {
		for _, a := range allAreas() {
			if a.ID == id {
				out = a.Eval(c, a)
			}
		}
	}
	c.results[key] = out
	return out
}

func fnAreaOf(id string) *fnArea {
	for _, fa := range fnAreas() {
		if fa.id == id {
			return fa
		}
	}
	return nil
}

// sameElsewhere decides whether a root whose own summary differs is covered
// by coarser summaries that all agree with the specification: then only how
// the work is divided between functions changed.
func (c *Ctx) sameElsewhere(area, root string) bool {
	fa := fnAreaOf(area)
	if fa == nil {
		return false
	}
	sp := c.specOf(area)
	for _, t := range fa.tiers() {
		var keys []string
		for k, fs := range sp.inline {
			if strings.HasPrefix(k, fmt.Sprintf("t%d:", t)) && (in(root, fs) || k == tierKey(t, root)) {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			continue
		}
		wanted := map[string]bool{}
		for _, k := range keys {
			wanted[k[3:]] = true
		}
		// every covering root of this tier, also those wanted later
		all := map[string]bool{}
		res := c.tierResults(fa, t, wanted, all)
		ok := true
		for _, k := range keys {
			r := res[k]
			if r == nil || r.Err != "" || !sp.roots[k][r.hash()] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// sameFollowing decides whether a root whose summary differs does what is
// specified once the functions it calls are looked into: code that was
// replaced by a call of a function that exists already.
func (c *Ctx) sameFollowing(area, root string, r *Root) bool {
	if r == nil || r.Err != "" {
		return false
	}
	key := area + "/" + root
	if same, ok := c.followed[key]; ok {
		return same
	}
	if c.followed == nil {
		c.followed = map[string]bool{}
	}
	c.followed[key] = false
	if c.followBudget++; c.followBudget > 24 {
		return false
	}
	covered := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, n := range r.Funcs {
		if f := c.fnByName[n]; f != nil && !covered[f] {
			covered[f] = true
			fns = append(fns, f)
		}
	}
	byName := map[string]*ssa.Function{}
	var names []string
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Parent() != nil || g.Blocks == nil || !inModuleFn(g) || covered[g] || byName[shortFn(g)] != nil || instrCount(g) > 60 {
					continue
				}
				byName[shortFn(g)] = g
				names = append(names, shortFn(g))
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range fns {
		visit(f)
	}
	sort.Strings(names)
	var tries []map[*ssa.Function]bool
	all := map[*ssa.Function]bool{}
	for _, n := range names {
		f := byName[n]
		if f.Pkg.Pkg.Path() == modPath+"/internal/strs" {
			all[f] = true
		}
	}
	if len(all) > 1 {
		tries = append(tries, all)
	}
	for _, n := range names {
		if all[byName[n]] {
			tries = append(tries, map[*ssa.Function]bool{byName[n]: true})
		}
	}
	for _, n := range names {
		if !all[byName[n]] {
			tries = append(tries, map[*ssa.Function]bool{byName[n]: true})
		}
	}
	if len(tries) > 10 {
		tries = tries[:10]
	}
	sp := c.specOf(area)
	defer func() { following, onlyJob = nil, "" }()
	for _, try := range tries {
		following, onlyJob = try, root
		var res map[string]*Root
		if fa := fnAreaOf(area); fa != nil {
			fa.want = func(n string) bool { return n == root }
			res = fa.eval(c, 1)
		} else {
			for _, a := range allAreas() {
				if a.ID == area {
					res = a.Eval(c, a)
				}
			}
		}
		got := res[root]
		if got == nil || got.Err != "" || len(got.Lines) == 0 {
			continue
		}
		have := map[string]bool{}
		same := true
		for _, l := range got.Lines {
			have[l.spec()] = true
			same = same && sp.roots[root][l.spec()]
		}
		if same && len(have) == len(sp.roots[root]) {
			c.followed[key] = true
			return true
		}
	}
	return false
}

func (c *Ctx) tierResults(fa *fnArea, tier int, wanted, _ map[string]bool) map[string]*Root {
	key := fa.id + "#" + strconv.Itoa(tier)
	have := c.results[key]
	if have == nil {
		have = map[string]*Root{}
		c.results[key] = have
	}
	need := map[string]bool{}
	for w := range wanted {
		if have[tierKey(tier, w)] == nil {
			need[w] = true
		}
	}
	if len(need) > 0 {
		fa.want = func(n string) bool { return need[n] }
		for k, r := range fa.eval(c, tier) {
			have[k] = r
		}
	}
	return have
}

type checkReport struct {
	findings    []Finding
	obligations int
	discharged  int
	roots       int
	coarser     []string
	funcs       map[string]bool
	samples     []string
	rules       []string
	steps       int
}

// runSels compares the selected lines with the specification.
func (c *Ctx) runSels(ch *Check, rep *checkReport) {
	var areas []string
	by := map[string][]*Sel{}
	for i := range ch.Sels {
		s := &ch.Sels[i]
		s.compile()
		if by[s.Area] == nil {
			areas = append(areas, s.Area)
		}
		by[s.Area] = append(by[s.Area], s)
	}
	for _, area := range areas {
		sels := by[area]
		want := func(root string) bool {
			for _, s := range sels {
				if s.root.MatchString(root) {
					return true
				}
			}
			return false
		}
		sp := c.specOf(area)
		res := c.resultOf(area, 1, want)
		keys := map[string]bool{}
		for k := range sp.roots {
			if !isTierKey(k) && want(k) {
				keys[k] = true
			}
		}
		for k := range res {
			if !isTierKey(k) && want(k) {
				keys[k] = true
			}
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			owns := func(line string) bool {
				for _, s := range sels {
					if s.root.MatchString(k) && s.owns(line) {
						return true
					}
				}
				return false
			}
			var want []string
			for l := range sp.roots[k] {
				if owns(l) {
					want = append(want, l)
				}
			}
			sort.Strings(want)
			rep.obligations += len(want)
			r := res[k]
			var fs []Finding
			name := area + "/" + k
			switch {
			case r == nil:
				if len(want) == 0 {
					continue
				}
				fs = append(fs, Finding{Rule: "summary", Key: name, Pos: "-", Msg: "the specified unit " + k + " does not exist any more and what it did is not done by its callers"})
			case r.Err != "":
				fs = append(fs, Finding{Rule: "summary", Key: name, Pos: r.Pos, Msg: r.Err})
			default:
				rep.roots++
				rep.steps += r.Steps
				for _, f := range r.Funcs {
					rep.funcs[f] = true
				}
				have := map[string]Line{}
				for _, l := range r.Lines {
					if owns(l.spec()) {
						have[l.spec()] = l
					}
				}
				miss := 0
				for _, l := range want {
					if _, ok := have[l]; !ok {
						miss++
						fs = append(fs, Finding{Rule: "summary", Key: name + ": " + l, Pos: r.Pos, Msg: "no longer: " + l})
					} else {
						rep.discharged++
						if len(rep.samples) < 6 && len(l) < 300 {
							rep.samples = append(rep.samples, r.Pos+" "+k+": "+l)
						}
					}
				}
				var extra []string
				for l := range have {
					if !sp.roots[k][l] {
						extra = append(extra, l)
					}
				}
				sort.Strings(extra)
				for _, l := range extra {
					fs = append(fs, Finding{Rule: "summary", Key: name + ": " + l, Pos: have[l].Pos, Msg: "now: " + l})
				}
				if len(fs) > 0 {
					rep.discharged += 0
				}
				_ = miss
			}
			if len(fs) > 0 && (c.sameElsewhere(area, k) || c.sameFollowing(area, k, r)) {
				rep.coarser = append(rep.coarser, name)
				rep.discharged += len(want)
				if r != nil && r.Err == "" {
					for _, l := range want {
						for _, x := range r.Lines {
							if x.spec() == l {
								rep.discharged--
								break
							}
						}
					}
				}
				continue
			}
			for i := range fs {
				fs[i].Msg = k + ": " + fs[i].Msg
			}
			rep.findings = append(rep.findings, fs...)
		}
	}
}

// knownFindings reads the committed list of defects that are recorded.
func knownFindings() (map[string]string, error) {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	out := map[string]string{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> rule=<rule> key=<key> :: <what fails>
		p := strings.SplitN(strings.TrimPrefix(l, "known: "), " :: ", 2)
		if len(p) == 2 {
			out[p[0]] = p[1]
		}
	}
	return out, sc.Err()
}

func runCheck(id string) int {
	start := time.Now()
	ch := findCheck(id)
	if ch == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	rep := &checkReport{funcs: map[string]bool{}}
	var c *Ctx
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("PTCHECK_PANIC") != "" {
					panic(e)
				}
				rep.findings = append(rep.findings, Finding{Rule: "analysis", Key: "analysis", Pos: "-", Msg: fmt.Sprintf("the tree cannot be analysed: %v", e)})
			}
		}()
		p, err := loadProgram()
		if err != nil {
			panic(err)
		}
		c = newCtx(p, false)
		if err := c.loadFrozen(); err != nil {
			panic(err)
		}
		c.inlineHelpers()
		for _, fa := range fnAreas() {
			c.specOf(fa.id)
		}
		c.runSels(ch, rep)
		for _, r := range ch.Rules {
			rr := r.Run(c)
			rep.obligations += rr.Obligations
			rep.rules = append(rep.rules, fmt.Sprintf("%s: %d obligations, %d findings: %s", r.Name, rr.Obligations, len(rr.Findings), rr.What))
			bad := map[string]bool{}
			for _, f := range rr.Findings {
				f.Rule = r.Name
				rep.findings = append(rep.findings, f)
				bad[f.Key] = true
			}
			if d := rr.Obligations - len(bad); d > 0 {
				rep.discharged += d
			}
			for i, s := range rr.Samples {
				if i < 4 {
					rep.samples = append(rep.samples, r.Name+": "+s)
				}
			}
		}
	}()
	known, err := knownFindings()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var viol []Finding
	nKnown := 0
	for _, f := range rep.findings {
		if t, ok := known[fmt.Sprintf("property=%s rule=%s key=%s", id, f.Rule, f.Key)]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.Key, t)
			nKnown++
			continue
		}
		viol = append(viol, f)
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range rep.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":        ch.Note,
		"obligations":        rep.obligations,
		"discharged":         rep.discharged,
		"units_summarised":   rep.roots,
		"functions_followed": len(fns),
		"known_findings":     nKnown,
		"samples":            rep.samples,
	}
	if c != nil {
		cov["packages_loaded"] = len(c.p.Pkgs)
		cov["functions_loaded"] = len(c.p.Funcs)
	}
	if len(rep.rules) > 0 {
		cov["rules"] = rep.rules
	}
	if len(rep.coarser) > 0 {
		cov["accepted_at_coarser_granularity"] = rep.coarser
	}
	if len(fns) > 60 {
		cov["functions"] = fns[:60]
	} else {
		cov["functions"] = fns
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": []string{
			"the Go type checker and the SSA construction of golang.org/x/tools represent the source faithfully",
			"functions outside the module behave as documented; those listed as pure in policy.go have no effect the property can observe",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	replay := filepath.Join(evDir, id+".violations.txt")
	os.Remove(replay)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d units=%d\n", id, rep.obligations, rep.discharged, rep.roots)
		return 0
	}
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: [%s] %s\n", f.Pos, f.Rule, f.Msg)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	lines := strings.SplitAfter(sb.String(), "\n")
	if len(lines) > 25 {
		lines = append(lines[:25], fmt.Sprintf("... %d more in %s\n", len(lines)-25, replay))
	}
	fmt.Print(strings.Join(lines, ""))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

// checkAll runs every check in one process; for development.
func checkAll(verbose bool) int {
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := newCtx(p, false)
	c.full = true
	if err := c.loadFrozen(); err != nil {
		panic(err)
	}
	c.inlineHelpers()
	bad := 0
	seen := map[string]bool{}
	var ids []string
	coarse := map[string]bool{}
	for _, ch := range allChecks() {
		rep := &checkReport{funcs: map[string]bool{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					rep.findings = append(rep.findings, Finding{Msg: fmt.Sprint(e)})
				}
			}()
			c.runSels(ch, rep)
			for _, r := range ch.Rules {
				for _, f := range r.Run(c).Findings {
					f.Rule = r.Name
					rep.findings = append(rep.findings, f)
				}
			}
		}()
		for _, f := range rep.coarser {
			coarse[f] = true
		}
		known, _ := knownFindings()
		n := 0
		for _, f := range rep.findings {
			if _, ok := known[fmt.Sprintf("property=%s rule=%s key=%s", ch.ID, f.Rule, f.Key)]; ok {
				continue
			}
			n++
			k := f.Pos + ": [" + f.Rule + "] " + f.Msg
			if !seen[k] {
				seen[k] = true
				if verbose {
					fmt.Println("  ", k)
				}
			}
		}
		if n > 0 {
			bad++
			ids = append(ids, ch.ID)
		}
	}
	fmt.Println("ALARMS", bad, strings.Join(ids, " "), "lines", len(seen), "coarser", len(coarse))
	return 0
}
