package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Root is one unit whose guarded summary is specified.
type Root struct {
	Key    string
	Lines  []Line
	Pos    string
	Err    string
	Steps  int
	Labels map[string]string
	Funcs  []string // functions whose bodies the summary covers
}

// Area is a part of the tree that is compared with a reviewed specification.
type Area struct {
	ID   string
	Eval func(c *Ctx, a *Area) map[string]*Root
}

// areaSpec is the reviewed specification of an area.
type areaSpec struct {
	roots  map[string]map[string]bool
	inline map[string][]string // deep root -> functions covered
}

func specPath(id string) string { return filepath.Join(verifDir(), "checker", "spec", id+".txt") }

func verifDir() string {
	if d := os.Getenv("PTCHECK_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func loadSpec(id string) (*areaSpec, error) {
	b, err := os.ReadFile(specPath(id))
	if err != nil {
		return nil, err
	}
	s := &areaSpec{roots: map[string]map[string]bool{}, inline: map[string][]string{}}
	cur := ""
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "== "):
			cur = strings.TrimPrefix(l, "== ")
			s.roots[cur] = map[string]bool{}
		case strings.HasPrefix(l, "~ "):
			s.inline[cur] = strings.Fields(strings.TrimPrefix(l, "~ "))
		case strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "":
		case strings.HasPrefix(l, "  "):
			s.roots[cur][strings.TrimPrefix(l, "  ")] = true
		}
	}
	return s, nil
}

// hash names the whole summary.
func (r *Root) hash() string {
	var ls []string
	for _, l := range r.Lines {
		ls = append(ls, l.String())
	}
	sort.Strings(ls)
	return fmt.Sprintf("summary:%x", sha256.Sum256([]byte(strings.Join(ls, "\n"))))[:40]
}

func (l Line) spec() string { return l.String() }

func writeSpec(id string, roots map[string]*Root) error {
	var keys []string
	labels := map[string]string{}
	for k, r := range roots {
		keys = append(keys, k)
		for l, d := range r.Labels {
			labels[l] = d
		}
	}
	sort.Strings(keys)
	var sb strings.Builder
	used := map[string]bool{}
	mark := func(s string) {
		for l := range labels {
			if strings.Contains(s, l) {
				used[l] = true
			}
		}
	}
	for _, k := range keys {
		r := roots[k]
		if r.Err != "" {
			return fmt.Errorf("%s: %s", k, r.Err)
		}
		sb.WriteString("== " + k + "\n")
		if isTierKey(k) {
			sb.WriteString("~ " + strings.Join(r.Funcs, " ") + "\n  " + r.hash() + "\n")
			continue
		}
		for _, l := range r.Lines {
			sb.WriteString("  " + l.spec() + "\n")
		}
		sb.WriteString("\n")
	}
	body := sb.String()
	if len(labels) < 4000 {
		mark(body)
		for again := true; again; {
			again = false
			n := len(used)
			for l := range used {
				if d := labels[l]; len(d) < 700 {
					mark(d)
				}
			}
			again = len(used) > n
		}
		var ls []string
		for l := range used {
			if len(labels[l]) < 700 {
				ls = append(ls, l)
			}
		}
		sort.Strings(ls)
		if len(ls) > 0 {
			body += "# abbreviations\n"
		}
		for _, l := range ls {
			body += "# " + l + " = " + strings.ReplaceAll(labels[l], "\n", " ") + "\n"
		}
	}
	if err := os.MkdirAll(filepath.Dir(specPath(id)), 0o755); err != nil {
		return err
	}
	return os.WriteFile(specPath(id), []byte(body), 0o644)
}

// job evaluates one root.
type job struct {
	key string
	run func() *Root
}

// onlyJob limits what runJobs runs, if set.
var onlyJob string

func runJobs(jobs []job) map[string]*Root {
	out := map[string]*Root{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan job)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				r := safeRun(j)
				mu.Lock()
				out[j.key] = r
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		if onlyJob == "" || j.key == onlyJob {
			ch <- j
		}
	}
	close(ch)
	wg.Wait()
	return out
}

func safeRun(j job) (r *Root) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecidedErr); ok {
				r = &Root{Key: j.key, Err: "undecided: " + string(u)}
				return
			}
			if os.Getenv("PTCHECK_PANIC") != "" {
				panic(e)
			}
			r = &Root{Key: j.key, Err: fmt.Sprintf("analysis failed: %v", e)}
		}
	}()
	r = j.run()
	r.Key = j.key
	return r
}

// rootOfFunc summarises fn with symbolic parameters.
func rootOfFunc(p *Program, fn *ssa.Function, pol *Policy) *Root {
	ev := newEval(p, pol)
	eff, rets := ev.Run(fn, nil, nil, nil)
	return ev.finish(fn, eff, rets)
}

func (ev *Eval) finish(fn *ssa.Function, eff []Effect, rets []retVal) *Root {
	r := &Root{Pos: ev.p.pos(fn.Pos()), Steps: ev.steps, Labels: ev.w.dict}
	r.Lines = ev.summarize(eff, rets, nil, true)
	if ev.pol.Seq != nil {
		r.Lines = append(r.Lines, ev.traceLines(rets)...)
		sortLines(r.Lines)
	}
	for f := range ev.covered {
		r.Funcs = append(r.Funcs, shortFn(f))
	}
	sort.Strings(r.Funcs)
	return r
}

// traceLines renders the order of the ordered calls at every return.
func (ev *Eval) traceLines(rets []retVal) []Line {
	w := ev.w
	tc := ev.traceCell()
	var alts []alt
	pos := ""
	for _, r := range rets {
		v, ok := r.mem[tc]
		if !ok {
			continue
		}
		if pos == "" {
			pos = ev.p.pos(r.pos)
		}
		alts = append(alts, alt{r.cond, ev.snap(v, r.mem)})
	}
	if len(alts) == 0 {
		return nil
	}
	return w.orderLines(w.occurrences(w.seqMerge(alts), nil), pos)
}

// occ is one place of an ordered call: it happens under c.
type occ struct {
	t *Term
	c F
}

// occurrences lists the ordered calls of a trace with their conditions, such
// that those that can happen together are listed in their order.
func (w *World) occurrences(t, self *Term) []occ {
	var out []occ
	var rec func(t *Term, c F)
	rec = func(t *Term, c F) {
		if c == fFalse || t.isNil() {
			return
		}
		switch t.op {
		case "cat", "list":
			for _, x := range t.args {
				rec(x, c)
			}
			return
		case "ite":
			for _, a := range t.alts {
				rec(a.t, w.simplifyF(w.and(c, a.c)))
			}
			return
		case "start", "self":
			return
		case "mu":
			if len(t.args) == 2 && w.selfFirst(t.args[1]) {
				rec(t.args[0], c)
				var b strings.Builder
				for _, l := range w.orderLines(w.occurrences(t.args[1], nil), "") {
					b.WriteString(l.Head + " WHEN " + l.Cond + "\n")
				}
				out = append(out, occ{w.T("each", w.abbrev("body", b.String())), c})
				return
			}
		}
		out = append(out, occ{t, c})
	}
	rec(t, fTrue)
	return out
}

// selfFirst reports whether every alternative of a loop body continues the
// trace of the iterations before it.
func (w *World) selfFirst(t *Term) bool {
	switch t.op {
	case "self":
		return true
	case "cat":
		if !w.selfFirst(t.args[0]) {
			return false
		}
		for _, x := range t.args[1:] {
			if mentionsSelf(x) {
				return false
			}
		}
		return true
	case "ite":
		for _, a := range t.alts {
			if !w.selfFirst(a.t) {
				return false
			}
		}
		return true
	}
	return false
}

func mentionsSelf(t *Term) bool {
	for v := range t.freeVars() {
		if v.op == "self" {
			return true
		}
	}
	return false
}

// orderLines renders which ordered calls happen when and, for every two of
// them, when the one is before the other. It depends on the traces only, not
// on how branches are arranged.
func (w *World) orderLines(os []occ, pos string) []Line {
	type nth struct {
		name string
		th   F // at least this many
		is   map[int]F
	}
	byT := map[*Term][]int{}
	var ts []*Term
	for i, o := range os {
		if byT[o.t] == nil {
			ts = append(ts, o.t)
		}
		byT[o.t] = append(byT[o.t], i)
	}
	var ns []*nth
	for _, t := range ts {
		cnt := []F{fTrue} // cnt[k]: exactly k so far
		var mine []*nth
		for _, i := range byT[t] {
			next := make([]F, len(cnt)+1)
			for k := range next {
				next[k] = fFalse
			}
			for k, f := range cnt {
				hit := w.simplifyF(w.and(f, os[i].c))
				next[k] = w.or(next[k], w.and(f, w.not(os[i].c)))
				next[k+1] = w.or(next[k+1], hit)
				if hit == fFalse {
					continue
				}
				for len(mine) <= k {
					n := &nth{th: fFalse, is: map[int]F{}}
					n.name = t.canon()
					if len(mine) > 0 {
						n.name = fmt.Sprintf("%s#%d", n.name, len(mine)+1)
					}
					mine = append(mine, n)
				}
				mine[k].is[i] = hit
				mine[k].th = w.or(mine[k].th, hit)
			}
			cnt = next
			for len(cnt) > 1 && w.simplifyF(cnt[len(cnt)-1]) == fFalse {
				cnt = cnt[:len(cnt)-1]
			}
		}
		ns = append(ns, mine...)
	}
	var live []*nth
	for _, n := range ns {
		n.th = w.simplifyF(n.th)
		if n.th != fFalse && w.canonF(n.th) != "false" {
			live = append(live, n)
		}
	}
	ns = live
	when := func(f F) string {
		c := w.canonF(f)
		if len(c) > 90 {
			c = w.abbrev("when", c)
		}
		return c
	}
	var lines []Line
	for _, a := range ns {
		var after []string
		for _, b := range ns {
			if a == b {
				continue
			}
			f := fFalse
			for i, fi := range a.is {
				for j, fj := range b.is {
					if i < j {
						f = w.or(f, w.and(fi, fj))
					}
				}
			}
			f = w.simplifyF(f)
			if f == fFalse {
				continue
			}
			s := b.name
			if f != w.simplifyF(w.and(a.th, b.th)) {
				s += " if " + when(f)
			}
			after = append(after, s)
		}
		sort.Strings(after)
		s := strings.Join(after, " ; ")
		if len(s) > 120 {
			s = w.abbrev("order", s)
		}
		head := "seq " + a.name
		if s != "" {
			head += " before " + s
		}
		lines = append(lines, Line{head, when(a.th), pos})
	}
	sortLines(lines)
	return lines
}

func sortLines(out []Line) {
	sort.Slice(out, func(i, j int) bool {
		if out[i].Head != out[j].Head {
			return out[i].Head < out[j].Head
		}
		return out[i].Cond < out[j].Cond
	})
}
