package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Line is one canonical statement of a root's summary.
type Line struct {
	Head string // what happens
	Cond string // when
	Pos  string
}

func (l Line) String() string {
	if l.Cond == "true" {
		return l.Head
	}
	return l.Head + "  WHEN  " + l.Cond
}

// summarize renders effects and returns canonically. keep filters effects.
func (ev *Eval) summarize(effects []Effect, rets []retVal, keep func(*Effect) bool, withRets bool) []Line {
	w := ev.w
	type acc struct {
		c   F
		pos string
	}
	m := map[string]*acc{}
	add := func(head string, c F, pos string) {
		if a, ok := m[head]; ok {
			a.c = w.or(a.c, c)
			return
		}
		m[head] = &acc{c, pos}
	}
	// the same is said once, whenever it happens
	seen := map[string]int{}
	var group []Effect
	for i := range effects {
		e := effects[i]
		if keep != nil && !keep(&e) {
			continue
		}
		e.cond, e.args = ev.unfirst(e.cond, e.args)
		k := e.kind + " " + e.name + termKey(e.args)
		if j, ok := seen[k]; ok {
			group[j].cond = w.or(group[j].cond, e.cond)
			continue
		}
		seen[k] = len(group)
		group = append(group, e)
	}
	for i := range group {
		e := &group[i]
		c := w.simplifyF(e.cond)
		if c == fFalse {
			continue
		}
		c = ev.snapF(c, Mem{}, map[*Term]*Term{}, map[*Term]bool{})
		head := e.kind
		if e.name != "" {
			head += " " + e.name
		}
		ev.split(e.args, c, func(c F, args []*Term) {
			add(head+"("+strings.Join(canons(args), ", ")+")", c, ev.p.pos(e.pos))
		})
	}
	if withRets {
		var all []retVal
		for _, r := range ev.groupRets(rets) {
			ev.expandRet(r, func(c F, vals []*Term) {
				all = append(all, retVal{cond: c, vals: vals, typs: r.typs, pos: r.pos})
			})
		}
		for _, r := range ev.sameConst(all) {
			func(c F, vals []*Term) {
				add("return ("+strings.Join(canons(vals), ", ")+")", c, ev.p.pos(r.pos))
			}(r.cond, r.vals)
		}
	}
	var out []Line
	for h, a := range m {
		c := w.simplifyF(a.c)
		if c == fFalse {
			continue
		}
		cs := w.canonF(c)
		if cs == "false" {
			continue
		}
		if len(cs) > 400 && canonMax < 1000 {
			cs = w.abbrev("when", cs)
		}
		if len(h) > 600 && canonMax < 1000 {
			n := strings.IndexAny(h, "([")
			if n < 0 || n > 100 {
				n = 20
			}
			h = h[:n] + w.abbrev("args", h)
		}
		out = append(out, Line{h, cs, a.pos})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Head != out[j].Head {
			return out[i].Head < out[j].Head
		}
		return out[i].Cond < out[j].Cond
	})
	return out
}

// unfirst says what happens after a loop, to the iteration that ended it, as
// what happens in that iteration: whether a file is closed in the loop before
// it is left or after it, it is closed in the iteration that leaves the loop.
func (ev *Eval) unfirst(c F, args []*Term) (F, []*Term) {
	w := ev.w
	for n := 0; n < 4; n++ {
		m := map[*Term]bool{}
		for _, a := range args {
			for _, f := range a.firsts() {
				m[f] = true
			}
		}
		for _, x := range w.support(c) {
			for _, f := range w.atoms[x].firsts() {
				m[f] = true
			}
		}
		free := func(v *Term) bool {
			if w.fvarsOf(c)[v] {
				return true
			}
			for _, a := range args {
				if a.freeVars()[v] {
					return true
				}
			}
			return false
		}
		var fs *Term
		for f := range m {
			v := f.args[0]
			if len(v.firsts()) > 0 || free(v) || w.simplifyF(w.and(c, w.not(w.E(v, f.args[1].f)))) != fFalse {
				continue
			}
			if fs == nil || f.canon() < fs.canon() {
				fs = f
			}
		}
		if fs == nil {
			return c, args
		}
		v, f := fs.args[0], fs.args[1].f
		r := &replacer{w: w, m: map[*Term]*Term{fs: v}, memo: map[*Term]*Term{}, bv: v}
		if v.op == "elem" {
			r.m[w.T("first", "ix", fs.args...)] = w.intern(&Term{op: "ix", args: v.args, n: v.n})
		}
		c2 := r.formula(w.constrain(c, w.E(v, f)))
		na := make([]*Term, len(args))
		for i, a := range args {
			na[i] = r.term(a)
		}
		if r.captured {
			return c, args
		}
		c = w.and(w.and(c2, f), w.fvar(w.T("upto", "", v, v, w.Bool(f))))
		args = na
	}
	return c, args
}

// replacer replaces terms wherever they are.
type replacer struct {
	w        *World
	m        map[*Term]*Term
	memo     map[*Term]*Term
	bv       *Term // the variable that is put in
	captured bool  // it was put where it is bound
}

func (r *replacer) formula(f F) F {
	return r.w.mapAtoms(f, func(a *Term) F { return r.w.boolF(r.term(a)) })
}

func (r *replacer) term(t *Term) *Term {
	if x, ok := r.m[t]; ok {
		return x
	}
	if x, ok := r.memo[t]; ok {
		return x
	}
	w := r.w
	var x *Term
	switch {
	case binder(t) >= 0:
		n := binder(t)
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = r.term(a)
			same = same && args[i] == a
		}
		switch {
		case same:
			x = t
		case t.args[n] == r.bv && args[n+1] != t.args[n+1]:
			r.captured = true
			x = t
		case t.op == "E":
			x = w.Bool(w.E(args[0], w.boolF(args[1])))
		case t.op == "first":
			w.first("", args[0], w.boolF(args[1]))
			x = w.T("first", t.s, args[0], w.Bool(w.boolF(args[1])))
		default:
			x = w.T("upto", "", args[0], args[1], w.Bool(w.boolF(args[2])))
		}
	case t.op == "bool":
		x = w.Bool(r.formula(t.f))
	case t.op == "ite":
		var as []alt
		for _, a := range t.alts {
			as = append(as, alt{r.formula(a.c), r.term(a.t)})
		}
		x = w.Ite(as)
	default:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = r.term(a)
		}
		x = w.rebuild(t, args)
	}
	r.memo[t] = x
	return x
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func termKey(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, ",%d", t.id)
	}
	return b.String()
}

// groupRets splits error results in nil and not nil, and returns of the same
// values are one.
func (ev *Eval) groupRets(rets []retVal) []retVal {
	w := ev.w
	seen := map[string]int{}
	var out []retVal
	for _, r := range rets {
		for _, r := range ev.errSplit(r) {
			k := termKey(r.vals)
			if j, ok := seen[k]; ok {
				out[j].cond = w.simplifyF(w.or(out[j].cond, r.cond))
				continue
			}
			seen[k] = len(out)
			out = append(out, r)
		}
	}
	return out
}

func (ev *Eval) errSplit(r retVal) []retVal {
	w := ev.w
	r.vals, r.mem = ev.snaps(r.vals, r.mem), Mem{}
	last := len(r.vals) - 1
	// what else is returned with an error is not looked at
	if r.typs == nil || last < 0 || r.typs.Len() != last+1 || !isErrorType(r.typs.At(last).Type()) {
		return []retVal{r}
	}
	isNil := w.eq(r.vals[last], w.Nil())
	var out []retVal
	for _, b := range []bool{true, false} {
		g := isNil
		if !b {
			g = w.not(isNil)
		}
		c := w.simplifyF(w.and(r.cond, g))
		if c == fFalse {
			continue
		}
		v2 := append([]*Term(nil), r.vals...)
		if b {
			v2[last] = w.Nil()
		} else {
			for i := 0; i < last; i++ {
				v2[i] = w.T("any", "")
			}
		}
		out = append(out, retVal{cond: c, vals: v2, mem: Mem{}, typs: r.typs, pos: r.pos})
	}
	return out
}

// expandRet splits a return in its guarded alternatives.
func (ev *Eval) expandRet(r retVal, f func(F, []*Term)) {
	w := ev.w
	vals := r.vals
	prod := 1
	for _, v := range vals {
		if v.op == "ite" {
			prod *= len(v.alts)
		}
	}
	if prod > 400 {
		f(r.cond, vals)
		return
	}
	cur := make([]*Term, len(vals))
	var rec func(i int, c F)
	rec = func(i int, c F) {
		c = w.simplifyF(c)
		if c == fFalse {
			return
		}
		if i == len(vals) {
			out := make([]*Term, len(cur))
			for j := range cur {
				out[j] = ev.under(cur[j], c)
			}
			// boolean results are split in true and false
			for j := range out {
				if out[j].op == "bool" && out[j].f > 1 {
					for _, b := range []bool{true, false} {
						g := out[j].f
						if !b {
							g = w.not(g)
						}
						o2 := append([]*Term(nil), out...)
						bv := fFalse
						if b {
							bv = fTrue
						}
						o2[j] = w.Bool(bv)
						c2 := w.simplifyF(w.and(c, g))
						if c2 == fFalse {
							continue
						}
						ev.expandRet(retVal{cond: c2, vals: o2, mem: Mem{}, typs: r.typs}, f)
					}
					return
				}
			}
			ev.split(out, c, func(c F, out []*Term) { ev.constRet(r, c, out, f) })
			return
		}
		if vals[i].op == "ite" {
			for _, a := range vals[i].alts {
				cur[i] = a.t
				rec(i+1, w.and(c, a.c))
			}
			return
		}
		cur[i] = vals[i]
		rec(i+1, c)
	}
	rec(0, r.cond)
}

// splitLimit bounds the alternatives a statement is split in.
const splitLimit = 8

// split gives the values, under the condition, without alternatives in them:
// whether a statement is written once with a value chosen before or once in
// each branch, the same is said. With too many alternatives the values are
// left as they are.
func (ev *Eval) split(vals []*Term, c F, f func(F, []*Term)) {
	w := ev.w
	type leaf struct {
		c    F
		vals []*Term
	}
	under := func(vals []*Term, c F) []*Term {
		out := make([]*Term, len(vals))
		for i, v := range vals {
			out[i] = ev.under(v, c)
		}
		return out
	}
	vals = under(vals, c)
	var leaves []leaf
	var rec func(c F, vals []*Term) bool
	rec = func(c F, vals []*Term) bool {
		var t *Term
		for _, v := range vals {
			if t = choice(v, 0); t != nil {
				break
			}
		}
		if t == nil {
			leaves = append(leaves, leaf{c, vals})
			return len(leaves) <= splitLimit
		}
		for _, a := range t.alts {
			c2 := w.simplifyF(w.and(c, a.c))
			if c2 == fFalse {
				continue
			}
			next := under(vals, c2)
			for i, v := range next {
				// the alternatives are not told apart: take each
				next[i] = choose(v, t, a.t, 0)
			}
			if !rec(c2, next) {
				return false
			}
		}
		return true
	}
	if !rec(c, vals) || len(leaves) == 0 {
		f(c, vals)
		return
	}
	for _, l := range leaves {
		f(l.c, l.vals)
	}
}

// choose puts a in the place of the choice c in t.
func choose(t, c, a *Term, depth int) *Term {
	if t == c {
		return a
	}
	if depth > 4 || len(t.args) == 0 {
		return t
	}
	switch t.op {
	case "struct", "list", "cat", "strcat", "new":
		var args []*Term
		for i, x := range t.args {
			if y := choose(x, c, a, depth+1); y != x {
				if args == nil {
					args = append([]*Term(nil), t.args...)
				}
				args[i] = y
			}
		}
		if args != nil {
			return t.w.rebuild(t, args)
		}
	}
	return t
}

// choice is a term with alternatives in t, or in the parts of t.
func choice(t *Term, depth int) *Term {
	if t.op == "ite" {
		return t
	}
	if depth > 3 {
		return nil
	}
	switch t.op {
	case "struct", "list", "cat", "strcat", "new":
		for _, a := range t.args {
			if r := choice(a, depth+1); r != nil {
				return r
			}
		}
	}
	return nil
}

// constRet splits a return where a value is compared with a constant.
func (ev *Eval) constRet(r retVal, c F, vals []*Term, f func(F, []*Term)) {
	w := ev.w
	if r.typs == nil || r.typs.Len() != len(vals) {
		f(c, vals)
		return
	}
	for _, x := range w.support(c) {
		a, k, ok := eqConst(w.atoms[x])
		if !ok {
			continue
		}
		for i, v := range vals {
			if v.op == "const" || v.op == "bool" || v.op == "any" {
				continue
			}
			k := k
			switch {
			case a == v:
			case a.op == "len" && a.args[0] == v && k.isInt() && k.n == 0 && isString(r.typs.At(i).Type()):
				k = w.Str("")
			default:
				continue
			}
			at := w.mk(x, fFalse, fTrue)
			if c2 := w.simplifyF(w.and(c, at)); c2 != fFalse {
				v2 := append([]*Term(nil), vals...)
				v2[i] = k
				ev.constRet(r, c2, v2, f)
			}
			if c = w.simplifyF(w.and(c, w.not(at))); c == fFalse {
				return
			}
		}
	}
	f(c, vals)
}

// sameConst: where a value is returned that is the constant returned elsewhere,
// the constant is returned.
func (ev *Eval) sameConst(rets []retVal) []retVal {
	w := ev.w
	if len(rets) > 12 {
		return rets
	}
	n := len(rets)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			k, v := rets[i], rets[j]
			if i == j || v.typs == nil || len(k.vals) != len(v.vals) || v.typs.Len() != len(v.vals) {
				continue
			}
			at, diff := -1, 0
			for x := range k.vals {
				if k.vals[x] != v.vals[x] {
					at = x
					diff++
				}
			}
			if diff != 1 || !(k.vals[at].isStr() || k.vals[at].isInt()) {
				continue
			}
			switch v.vals[at].op {
			case "const", "bool", "any", "ite", "struct":
				continue
			}
			if b, ok := v.typs.At(at).Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
				continue
			}
			same := w.eq(v.vals[at], k.vals[at])
			if c := w.simplifyF(w.and(v.cond, same)); c != fFalse {
				rets[j].cond = w.simplifyF(w.and(v.cond, w.not(same)))
				rets = append(rets, retVal{cond: c, vals: k.vals, typs: k.typs, pos: v.pos})
			}
		}
	}
	return rets
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// runRoot evaluates fn and recovers from undecided states.
func (ev *Eval) runRoot(fn *ssa.Function) (eff []Effect, rets []retVal, err error) {
	defer func() {
		if r := recover(); r != nil {
			ev.stack, ev.loopSt, ev.loopBd, ev.cbDepth = nil, nil, nil, 0
			ev.callPos, ev.callPC = nil, nil
			if u, ok := r.(undecidedErr); ok {
				err = fmt.Errorf("undecided: %s", string(u))
				return
			}
			panic(r)
		}
	}()
	ev.steps = 0
	ev.occ, ev.callPos, ev.callPC = nil, nil, nil
	eff, rets = ev.Run(fn, nil, nil, nil)
	return eff, rets, nil
}
