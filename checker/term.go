package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed canonical value of the analysed program.
type Term struct {
	w    *World
	key  string
	op   string
	s    string
	n    int64
	args []*Term
	f    F     // op "bool"
	alts []alt // op "ite"
	fn   *ssa.Function
	typ  types.Type
	id   int
	can  string
	// free bound variables (loop elements) and loop variables
	vars   map[*Term]bool
	fs     []*Term
	fsDone bool
}

type alt struct {
	c F
	t *Term
}

func (t *Term) isInt() bool { return t.op == "const" && t.s == "int" }
func (t *Term) isStr() bool { return t.op == "const" && len(t.s) > 0 && t.s[0] == '"' }
func (t *Term) isNil() bool { return t.op == "const" && t.s == "nil" }
func (t *Term) str() string { s, _ := strconv.Unquote(t.s); return s }

func (w *World) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.s)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.n, 10))
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.op == "bool" {
		fmt.Fprintf(&b, "|F%d", t.f)
	}
	for _, a := range t.alts {
		fmt.Fprintf(&b, "|%d:%d", a.c, a.t.id)
	}
	if t.fn != nil {
		fmt.Fprintf(&b, "|%p", t.fn)
	}
	k := b.String()
	if x, ok := w.terms[k]; ok {
		return x
	}
	t.key = k
	t.w = w
	t.id = len(w.terms) + 1
	w.terms[k] = t
	return t
}

func (w *World) T(op, s string, args ...*Term) *Term {
	return w.intern(&Term{op: op, s: s, args: args})
}

func (w *World) Int(n int64) *Term  { return w.intern(&Term{op: "const", s: "int", n: n}) }
func (w *World) Str(s string) *Term { return w.intern(&Term{op: "const", s: strconv.Quote(s)}) }
func (w *World) Nil() *Term         { return w.intern(&Term{op: "const", s: "nil"}) }
func (w *World) Bool(f F) *Term     { return w.intern(&Term{op: "bool", f: f}) }

// boolF converts a boolean term to a formula.
func (w *World) boolF(t *Term) F {
	switch t.op {
	case "bool":
		return t.f
	case "ite":
		r := fFalse
		for _, a := range t.alts {
			r = w.or(r, w.and(a.c, w.boolF(a.t)))
		}
		return r
	}
	return w.fvar(t)
}

// Ite builds a guarded value; alternatives are merged and sorted. Their
// conditions are relative to the disjunction of all of them.
func (w *World) Ite(alts []alt) *Term {
	tot := fFalse
	for _, a := range alts {
		tot = w.or(tot, a.c)
	}
	tot = w.simplifyF(tot)
	if tot > 1 {
		alts = w.relate(alts, tot)
	}
	return w.iteRaw(alts)
}

func (w *World) iteRaw(alts []alt) *Term {
	if w.ites++; w.ites&1023 == 0 && time.Since(w.start) > rootTime {
		panic(undecided("takes too long"))
	}
	m := map[*Term]F{}
	var order []*Term
	var add func(c F, t *Term)
	add = func(c F, t *Term) {
		c = w.simplifyF(c)
		if c == fFalse {
			return
		}
		if t.op == "ite" {
			for _, a := range t.alts {
				add(w.and(c, a.c), a.t)
			}
			return
		}
		if _, ok := m[t]; !ok {
			order = append(order, t)
			m[t] = fFalse
		}
		m[t] = w.or(m[t], c)
	}
	allBool := len(alts) > 0
	for _, a := range alts {
		if a.t.op != "bool" {
			allBool = false
		}
	}
	if allBool {
		r := fFalse
		for _, a := range alts {
			r = w.or(r, w.and(a.c, a.t.f))
		}
		return w.Bool(r)
	}
	str := false
	for _, a := range alts {
		if a.t.isStr() || a.t.op == "strcat" || a.t.typ != nil && isString(a.t.typ) {
			str = true
		}
	}
	for _, a := range alts {
		add(a.c, w.constUnder(a.t, a.c, str))
	}
	if len(order) == 0 {
		return w.T("dead", "")
	}
	if len(order) > 1 {
		order = w.structs(order, m)
	}
	if len(order) > 1 && len(order) <= 16 {
		order = w.nothing(w.skipped(w.absent(order, m), m), m)
	}
	if len(order) == 1 {
		return order[0]
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	out := make([]alt, len(order))
	for i, t := range order {
		out[i] = alt{m[t], t}
	}
	return w.intern(&Term{op: "ite", alts: out})
}

// constUnder is the constant that t is when c holds, when there is one; str
// says that t is a string.
func (w *World) constUnder(t *Term, c F, str bool) *Term {
	switch t.op {
	case "const", "ite", "struct", "list", "cat", "strcat", "new", "bool":
		return t
	}
	if c <= 1 {
		return t
	}
	for _, v := range w.support(c) {
		a, k, ok := eqConst(w.atoms[v])
		if !ok {
			continue
		}
		if a == t && !k.isNil() {
		} else if str && a.op == "len" && a.args[0] == t && k.isInt() && k.n == 0 {
			k = w.Str("")
		} else {
			continue
		}
		if w.and(c, w.mk(v, fTrue, fFalse)) == fFalse {
			return k
		}
	}
	return t
}

// structs merges alternatives that are structs: the alternatives are those of
// the fields.
func (w *World) structs(order []*Term, m map[*Term]F) []*Term {
	groups := map[string][]*Term{}
	var out []*Term
	for _, t := range order {
		if t.op != "struct" {
			out = append(out, t)
			continue
		}
		k := t.s
		if n := structNames(t); len(t.args) > n {
			k += fmt.Sprintf("/%d", t.args[n].id)
		} else if t.typ != nil {
			k = "of " + typeString(t.typ)
		}
		groups[k] = append(groups[k], t)
	}
	if len(groups) == 0 {
		return order
	}
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		var names []string
		var base, typed *Term
		seen := map[string]bool{}
		for _, t := range g {
			ns := fieldNames(t)
			for _, n := range ns {
				if !seen[n] {
					seen[n] = true
					names = append(names, n)
				}
			}
			if len(t.args) > len(ns) {
				base = t.args[len(ns)]
			}
			if t.typ != nil {
				typed = t
			}
		}
		sort.Strings(names)
		args := make([]*Term, len(names))
		tot := fFalse
		for _, t := range g {
			tot = w.or(tot, m[t])
		}
		for i, n := range names {
			var as []alt
			for _, t := range g {
				var v *Term
				for j, tn := range fieldNames(t) {
					if tn == n {
						v = t.args[j]
					}
				}
				if v == nil {
					st := structOf(typed.typ)
					for j := 0; j < st.NumFields(); j++ {
						if fieldName(st, j) == n {
							v = w.zeroOf(st.Field(j).Type())
						}
					}
				}
				if v == nil {
					v = w.T("zero", "")
				}
				as = append(as, alt{m[t], v})
			}
			args[i] = w.Ite(as)
		}
		u := w.mkStruct(names, args, base)
		if typed != nil && u.op == "struct" && u.typ == nil {
			u.typ = typed.typ
		}
		for _, t := range g {
			delete(m, t)
		}
		m[u] = w.simplifyF(w.or(tot, m[u]))
		out = append(out, u)
	}
	return out
}

// zeroConst reports whether t is the zero value of its type.
func zeroConst(t *Term) bool {
	switch t.op {
	case "zero":
		return true
	case "const":
		return t.isNil() || t.s == "int" && t.n == 0 || t.s == `""`
	case "bool":
		return t.f == fFalse
	}
	return false
}

func fieldNames(t *Term) []string {
	if t.s == "" {
		return nil
	}
	return strings.Split(t.s, ",")
}

func structNames(t *Term) int {
	if t.s == "" {
		return 0
	}
	return strings.Count(t.s, ",") + 1
}

// absent merges the alternative for a key that a map does not have with the
// one for a key it has, where reading the entry gives the first from the
// second: append(m[k], x) is [x] when there is no m[k].
func (w *World) absent(order []*Term, m map[*Term]F) []*Term {
	for i := 0; i < len(order); i++ {
		t := order[i]
		for _, v := range w.support(m[t]) {
			at := w.atoms[v]
			if at.op != "has" || w.and(m[t], w.mk(v, fFalse, fTrue)) != fFalse {
				continue
			}
			for _, u := range order {
				if u == t {
					continue
				}
				lk := findLookup(u, at.args[0], at.args[1], 0)
				if lk == nil || lk.typ == nil {
					continue
				}
				if w.subst(u, map[*Term]*Term{lk: w.zeroOf(lk.typ)}) == t {
					m[u] = w.simplifyF(w.or(m[u], m[t]))
					delete(m, t)
					order = append(append([]*Term(nil), order[:i]...), order[i+1:]...)
					return w.absent(order, m)
				}
			}
		}
	}
	return order
}

// nothing drops the test whether a list is empty where one alternative has the
// list appended and the other has not.
func (w *World) nothing(order []*Term, m map[*Term]F) []*Term {
	for i, t := range order {
		for _, u := range order {
			if u.op != "cat" || t == u {
				continue
			}
			for k := 1; k < len(u.args); k++ {
				if w.cat(u.args[:k]...) != t {
					continue
				}
				e := fTrue
				for _, a := range u.args[k:] {
					e = w.and(e, w.eq(w.lenOf(a), w.Int(0)))
				}
				if w.simplifyF(w.and(m[t], w.not(e))) == fFalse {
					m[u] = w.simplifyF(w.or(m[u], m[t]))
					delete(m, t)
					return w.nothing(append(append([]*Term(nil), order[:i]...), order[i+1:]...), m)
				}
			}
		}
	}
	return order
}

// skipped drops the test whether a list is empty where one alternative is what
// a loop over the list starts with and the other what the loop gives: the loop
// gives what it starts with when the list is empty.
func (w *World) skipped(order []*Term, m map[*Term]F) []*Term {
	for _, u := range order {
		init, body := loopParts(u)
		if init == nil {
			continue
		}
		var srcs map[*Term]bool
		for v := range body.freeVars() {
			if v.op == "elem" || v.op == "key" {
				if srcs == nil {
					srcs = map[*Term]bool{}
				}
				srcs[v.args[0]] = true
			}
		}
		if srcs == nil {
			continue
		}
		for _, t := range order {
			if t != init && !(t.op == "zero" && init.isNil()) || t == u || m[t] == fFalse || m[u] == fFalse {
				continue
			}
			for _, x := range w.support(m[t]) {
				if !srcs[emptied(w.atoms[x])] {
					continue
				}
				e := w.mk(x, fFalse, fTrue)
				tot := w.and(e, w.or(m[t], m[u]))
				a := w.restrict(m[t], x, false)
				m[t] = w.simplifyF(w.or(w.and(m[t], w.not(e)), w.and(tot, a)))
				m[u] = w.simplifyF(w.or(w.and(m[u], w.not(e)), w.and(tot, w.not(a))))
			}
		}
	}
	var out []*Term
	for _, t := range order {
		if m[t] != fFalse {
			out = append(out, t)
		}
	}
	return out
}

// loopParts gives what the loop value u starts with, and its loops.
func loopParts(u *Term) (init, body *Term) {
	switch u.op {
	case "mu":
		return u.args[0], u.args[1]
	case "cat":
		last := u.args[len(u.args)-1]
		if last.op == "mu" && last.args[0].isNil() {
			return u.w.cat(u.args[:len(u.args)-1]...), last.args[1]
		}
	}
	return nil, nil
}

func findLookup(t, m, k *Term, depth int) *Term {
	if t.op == "lookup" && t.args[0] == m && t.args[1] == k {
		return t
	}
	if depth > 5 {
		return nil
	}
	for _, a := range t.args {
		if r := findLookup(a, m, k, depth+1); r != nil {
			return r
		}
	}
	return nil
}

const iteLimit = 48

// lift applies f over the product of the alternatives of its arguments.
func (w *World) lift(args []*Term, f func([]*Term) *Term) *Term {
	prod := 1
	any := false
	for _, a := range args {
		if a.op == "ite" {
			prod *= len(a.alts)
			any = true
		}
	}
	if !any {
		return f(args)
	}
	if prod > iteLimit {
		w.overs++
		return f(args)
	}
	cur := make([]*Term, len(args))
	var out []alt
	var rec func(i int, c F)
	rec = func(i int, c F) {
		if c == fFalse {
			return
		}
		if i == len(args) {
			out = append(out, alt{c, f(append([]*Term(nil), cur...))})
			return
		}
		if args[i].op == "ite" {
			for _, a := range args[i].alts {
				cur[i] = a.t
				rec(i+1, w.simplifyF(w.and(c, a.c)))
			}
			return
		}
		cur[i] = args[i]
		rec(i+1, c)
	}
	rec(0, fTrue)
	return w.Ite(out)
}

// hasVar reports whether t mentions any of the variables in set.
func (t *Term) freeVars() map[*Term]bool {
	if t.vars != nil {
		return t.vars
	}
	m := map[*Term]bool{}
	if t.op == "elem" || t.op == "key" || t.op == "loopvar" || t.op == "self" || t.op == "ix" {
		m[t] = true
	}
	if n := binder(t); n >= 0 {
		// the bound variable is not free in the formula, its source is
		bv := t.args[n]
		for i, a := range t.args {
			for v := range a.freeVars() {
				if v != bv || i < n {
					m[v] = true
				}
			}
		}
		t.vars = m
		return m
	}
	for _, a := range t.args {
		for v := range a.freeVars() {
			m[v] = true
		}
	}
	if t.op == "bool" {
		for v := range t.w.fvarsOf(t.f) {
			m[v] = true
		}
	}
	for _, a := range t.alts {
		for v := range a.t.freeVars() {
			m[v] = true
		}
		for v := range t.w.fvarsOf(a.c) {
			m[v] = true
		}
	}
	t.vars = m
	return m
}

func (w *World) fvarsOf(f F) map[*Term]bool {
	m := map[*Term]bool{}
	for _, v := range w.support(f) {
		for x := range w.atoms[v].freeVars() {
			m[x] = true
		}
	}
	return m
}

// binder returns the index of the bound variable of a quantified term; the
// formula follows it.
func binder(t *Term) int {
	switch t.op {
	case "E", "first":
		return 0
	case "upto":
		return 1
	}
	return -1
}

// first is the first iteration value of the loop over v that satisfies f.
func (w *World) first(kind string, v *Term, f F) *Term {
	t := w.T("first", kind, v, w.Bool(f))
	if _, ok := w.firstC[t]; !ok && kind == "" {
		w.firstC[t] = fTrue
		w.inFirst++
		at := w.substF(f, w.firstMap(v, f), map[*Term]*Term{})
		w.firstC[t] = w.or(w.not(w.E(v, f)), at)
		w.inFirst--
	}
	return t
}

// firstMap maps the variables of the loop over v to the exiting iteration.
func (w *World) firstMap(v *Term, f F) map[*Term]*Term {
	m := map[*Term]*Term{v: w.T("first", "", v, w.Bool(f))}
	if v.op == "elem" {
		ix := w.intern(&Term{op: "ix", args: v.args, n: v.n})
		m[ix] = w.T("first", "ix", v, w.Bool(f))
	}
	return m
}

// firsts are the first-iteration terms that t mentions.
func (t *Term) firsts() []*Term {
	if t.fsDone {
		return t.fs
	}
	t.fsDone = true
	m := map[*Term]bool{}
	add := func(x *Term) {
		for _, f := range x.firsts() {
			m[f] = true
		}
	}
	if t.op == "first" {
		f := t
		if t.s != "" {
			f = t.w.T("first", "", t.args...)
		}
		m[f] = true
	}
	if n := binder(t); n >= 0 {
		// what the loop is over
		for _, a := range t.args[n].args {
			add(a)
		}
	} else {
		for _, a := range t.args {
			add(a)
		}
		for _, a := range t.alts {
			add(a.t)
			for _, v := range t.w.support(a.c) {
				add(t.w.atoms[v])
			}
		}
		if t.op == "bool" {
			for _, v := range t.w.support(t.f) {
				add(t.w.atoms[v])
			}
		}
	}
	for f := range m {
		t.fs = append(t.fs, f)
	}
	sort.Slice(t.fs, func(i, j int) bool { return t.fs[i].id < t.fs[j].id })
	return t.fs
}

// subst replaces terms in t.
func (w *World) subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return w.substMemo(t, m, map[*Term]*Term{})
}

func (w *World) substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	fv := t.freeVars()
	for k := range m {
		if fv[k] {
			hit = true
			break
		}
	}
	if !hit {
		memo[t] = t
		return t
	}
	var r *Term
	if n := binder(t); n >= 0 {
		r = w.substBound(t, n, m, memo)
		memo[t] = r
		return r
	}
	switch t.op {
	case "bool":
		r = w.Bool(w.substF(t.f, m, memo))
	case "ite":
		var as []alt
		for _, a := range t.alts {
			as = append(as, alt{w.substF(a.c, m, memo), w.substMemo(a.t, m, memo)})
		}
		r = w.Ite(as)
	default:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = w.substMemo(a, m, memo)
		}
		r = w.rebuild(t, args)
	}
	memo[t] = r
	return r
}

// substBound substitutes in a quantified term.
func (w *World) substBound(t *Term, n int, m, memo map[*Term]*Term) *Term {
	bv := t.args[n]
	nargs := make([]*Term, len(bv.args))
	for i, a := range bv.args {
		nargs[i] = w.substMemo(a, m, memo)
	}
	nbv := bv
	m2 := map[*Term]*Term{}
	for k, v := range m {
		m2[k] = v
	}
	delete(m2, bv)
	ix := w.intern(&Term{op: "ix", args: bv.args, n: bv.n})
	if bv.op == "elem" {
		delete(m2, ix)
	}
	if len(nargs) > 0 && nargs[0] != bv.args[0] {
		if nargs[0].op == "ite" {
			r := w.lift(nargs, func(a []*Term) *Term {
				return w.substBound2(t, n, bv, ix, a, m, m2)
			})
			return r
		}
		return w.substBound2(t, n, bv, ix, nargs, m, m2)
	}
	return w.rebound(t, n, nbv, w.substF(t.args[n+1].f, m2, map[*Term]*Term{}), m)
}

func (w *World) substBound2(t *Term, n int, bv, ix *Term, nargs []*Term, m, m2 map[*Term]*Term) *Term {
	m3 := map[*Term]*Term{}
	for k, v := range m2 {
		m3[k] = v
	}
	nbv := w.intern(&Term{op: bv.op, s: bv.s, n: bv.n, args: nargs, typ: bv.typ})
	m3[bv] = nbv
	if bv.op == "elem" {
		m3[ix] = w.intern(&Term{op: "ix", args: nargs, n: bv.n})
	}
	return w.rebound(t, n, nbv, w.substF(t.args[n+1].f, m3, map[*Term]*Term{}), m)
}

func (w *World) rebound(t *Term, n int, bv *Term, f F, m map[*Term]*Term) *Term {
	switch t.op {
	case "E":
		return w.Bool(w.E(bv, f))
	case "first":
		w.first("", bv, f)
		return w.T("first", t.s, bv, w.Bool(f))
	}
	return w.T("upto", "", w.substMemo(t.args[0], m, map[*Term]*Term{}), bv, w.Bool(f))
}

func (w *World) substF(f F, m map[*Term]*Term, memo map[*Term]*Term) F {
	return w.mapAtoms(f, func(a *Term) F {
		return w.boolF(w.substMemo(a, m, memo))
	})
}

// rebuild re-applies the constructor of t to new arguments.
func (w *World) rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.args[i] {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case "eq":
		return w.Bool(w.eq(args[0], args[1]))
	case "lt":
		return w.Bool(w.lt(args[0], args[1]))
	case "field":
		return w.fieldOf(args[0], t.s, t.typ)
	case "len":
		return w.lenOf(args[0])
	case "index":
		return w.index(args[0], args[1])
	case "cat":
		return w.cat(args...)
	case "list":
		return w.list(args)
	case "has":
		return w.Bool(w.has(args[0], args[1]))
	case "lookup":
		return w.lookup(args[0], args[1], t.typ)
	case "struct":
		names := fieldNames(t)
		var base *Term
		if len(args) > len(names) {
			base = args[len(names)]
		}
		u := w.mkStruct(names, args[:len(names)], base)
		if u.op == "struct" && u.typ == nil {
			u.typ = t.typ
		}
		return u
	case "call":
		return w.lift(args, func(a []*Term) *Term { return w.intern(&Term{op: t.op, s: t.s, n: t.n, args: a, fn: t.fn, typ: t.typ}) })
	}
	return w.intern(&Term{op: t.op, s: t.s, n: t.n, args: args, fn: t.fn, typ: t.typ})
}

// zeroOf is the zero value of a type.
func (w *World) zeroOf(typ types.Type) *Term {
	if typ == nil {
		return w.T("zero", "")
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return w.Bool(fFalse)
		case u.Info()&types.IsString != 0:
			return w.Str("")
		case u.Info()&types.IsInteger != 0:
			return w.Int(0)
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return w.Nil()
		}
		return w.T("zero", u.Name())
	case *types.Struct:
		return w.T("struct", "")
	case *types.Array:
		return w.T("zero", "array")
	}
	return w.Nil()
}

func (w *World) nonNil(t *Term) bool {
	switch t.op {
	case "new", "struct", "list", "func", "closure", "err", "put", "sliceof", "addr", "map":
		return true
	case "cat":
		for _, a := range t.args {
			if w.nonNil(a) {
				return true
			}
		}
	case "const":
		return !t.isNil()
	case "call":
		return t.s == "go.uber.org/multierr.Append"
	}
	return false
}

// eq is the formula a == b.
func (w *World) eq(a, b *Term) F {
	if a.op == "ite" || b.op == "ite" {
		r := w.lift([]*Term{a, b}, func(x []*Term) *Term {
			if x[0].op == "ite" || x[1].op == "ite" {
				return w.T("eq", "", x[0], x[1])
			}
			return w.Bool(w.eq(x[0], x[1]))
		})
		return w.boolF(r)
	}
	if a == b {
		return fTrue
	}
	if a.op == "bool" || b.op == "bool" {
		fa, fb := w.boolF(a), w.boolF(b)
		return w.ite(fa, fb, w.not(fb))
	}
	if a.op == "const" && b.op == "const" {
		return fFalse
	}
	if b.op != "const" && a.op == "const" {
		a, b = b, a
	}
	if b.isNil() && w.nonNil(a) {
		return fFalse
	}
	if b.op == "const" && b.s == `""` {
		return w.eq(w.lenOf(a), w.Int(0))
	}
	if a.op == "len" && b.isInt() {
		lo, hi := w.lenRange(a.args[0])
		if b.n < lo || hi >= 0 && b.n > hi {
			return fFalse
		}
		if lo == hi {
			return fTrue
		}
		if b.n == 0 && a.args[0].op == "strcat" {
			return w.empty(a.args[0])
		}
		if hi == lo+1 && b.n == hi { // one of two lengths
			return w.not(w.eq(a, w.Int(lo)))
		}
	}
	if ok, has := w.indexCall(a); ok && b.isInt() && b.n < 0 {
		if b.n < -1 {
			return fFalse
		}
		if has != nil {
			return w.not(w.boolF(has))
		}
	}
	if a.op == "len" && b.isInt() && a.args[0].op == "call" {
		// as many parts as the separator is in it
		c := a.args[0]
		if (c.s == "strings.Split" && b.n == 1 || c.s == "strings.SplitN" && b.n <= 2 && c.args[2].isInt() && c.args[2].n == 2) && c.args[1].isStr() && c.args[1].str() != "" {
			f := w.boolF(w.intern(&Term{op: "call", s: "strings.Contains", args: c.args[:2], typ: types.Typ[types.Bool]}))
			if b.n == 1 {
				return w.not(f)
			}
			return f
		}
	}
	if b.isStr() && a.op == "call" && a.s == "strconv.Itoa" {
		if _, err := strconv.Atoi(b.str()); err != nil {
			return fFalse
		}
	}
	if a.op == "len" && a.args[0].op == "cat" && b.isInt() && b.n == 0 {
		return w.empty(a.args[0])
	}
	if a.op == "bin" && a.s == "+" && b.isInt() && b.n == 0 && w.nonNeg(a) {
		return w.and(w.eq(a.args[0], b), w.eq(a.args[1], b))
	}
	if b.op != "const" && a.canon() > b.canon() {
		a, b = b, a
	}
	for i := 0; i < 2; i++ {
		if a.op == "plus" && a.args[0].op == "ix" && a.args[1].isInt() {
			a, b = a.args[0], w.addInt(b, -a.args[1].n)
			return w.eq(a, b)
		}
		if a.op == "ix" && b.isInt() && b.n < 0 {
			return fFalse
		}
		a, b = b, a
	}
	return w.fvar(w.T("eq", "", a, b))
}

// indexCall reports whether t is a position in a text or -1, and what says
// that it is not -1, if that is a question of its own.
func (w *World) indexCall(t *Term) (bool, *Term) {
	if t.op != "call" || len(t.args) != 2 {
		return false, nil
	}
	switch t.s {
	case "strings.Index", "strings.LastIndex":
		return true, w.intern(&Term{op: "call", s: "strings.Contains", args: t.args, typ: types.Typ[types.Bool]})
	case "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte":
		if c := t.args[1]; c.isInt() && c.n > 0 && c.n < 0x80 {
			return true, w.intern(&Term{op: "call", s: "strings.Contains", args: []*Term{t.args[0], w.Str(string(rune(c.n)))}, typ: types.Typ[types.Bool]})
		}
		return true, nil
	case "bytes.Index", "bytes.LastIndex", "bytes.IndexByte", "bytes.LastIndexByte", "bytes.IndexRune", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc":
		return true, nil
	}
	return false, nil
}

// lastIx is the position of the last element, when t is the position of one.
func (w *World) lastIx(t *Term) *Term {
	if t.op != "ix" {
		return nil
	}
	if l := w.addInt(w.lenOf(t.args[0]), -1); l.op == "plus" {
		return l
	}
	return nil
}

// nonNeg reports whether the number t is a sum of lengths.
func (w *World) nonNeg(t *Term) bool {
	switch {
	case t.isInt():
		return t.n >= 0
	case t.op == "len":
		return true
	case t.op == "plus", t.op == "bin" && t.s == "+":
		return w.nonNeg(t.args[0]) && w.nonNeg(t.args[1])
	case t.typ != nil && (t.op == "ret" || t.op == "call" || t.op == "field"):
		b, ok := t.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsUnsigned != 0
	}
	return false
}

// lt is the formula a < b.
func (w *World) lt(a, b *Term) F {
	if a.op == "ite" || b.op == "ite" {
		r := w.lift([]*Term{a, b}, func(x []*Term) *Term {
			if x[0].op == "ite" || x[1].op == "ite" {
				return w.T("lt", "", x[0], x[1])
			}
			return w.Bool(w.lt(x[0], x[1]))
		})
		return w.boolF(r)
	}
	if a == b {
		return fFalse
	}
	if a.isInt() && b.isInt() {
		if a.n < b.n {
			return fTrue
		}
		return fFalse
	}
	if a.op == "plus" && a.args[0].op == "ix" && a.args[1].isInt() {
		return w.lt(a.args[0], w.addInt(b, -a.args[1].n))
	}
	if b.op == "plus" && b.args[0].op == "ix" && b.args[1].isInt() {
		return w.lt(w.addInt(a, -b.args[1].n), b.args[0])
	}
	if last := w.lastIx(a); last != nil {
		switch b {
		case last: // a is not the last
			return w.not(w.eq(a, b))
		case last.args[0]:
			return fTrue
		}
	}
	if last := w.lastIx(b); last != nil && (a == last || a == last.args[0]) {
		return fFalse
	}
	if a.op == "ix" && b.isInt() {
		switch {
		case b.n <= 0:
			return fFalse
		case b.n == 1:
			return w.eq(a, w.Int(0))
		}
	}
	if a.op != "const" && b.op != "const" && a.canon() > b.canon() { // a < b  <=>  !(b < a) & a != b
		return w.and(w.not(w.lt(b, a)), w.not(w.eq(a, b)))
	}
	if a.isInt() { // c < b  <=>  !(b < c+1)
		return w.not(w.lt(b, w.Int(a.n+1)))
	}
	if ok, _ := w.indexCall(a); ok && b.isInt() && b.n <= 0 {
		if b.n < 0 {
			return fFalse
		}
		return w.eq(a, w.Int(-1))
	}
	if a.op == "len" && b.isInt() {
		lo, hi := w.lenRange(a.args[0])
		if b.n <= lo {
			return fFalse
		}
		if hi >= 0 && hi < b.n {
			return fTrue
		}
		if b.n == lo+1 {
			return w.eq(a, w.Int(lo))
		}
		if b.n == 1 {
			return w.eq(a, w.Int(0))
		}
		if b.n <= 4 {
			return w.or(w.lt(a, w.Int(b.n-1)), w.eq(a, w.Int(b.n-1)))
		}
	}
	if a.op != "const" && a.op != "plus" && b.isInt() && b.n <= 1 && w.nonNeg(a) {
		if b.n <= 0 {
			return fFalse
		}
		return w.eq(a, w.Int(0))
	}
	return w.fvar(w.T("lt", "", a, b))
}

func (w *World) lenOf(t *Term) *Term {
	return w.lift([]*Term{t}, func(x []*Term) *Term {
		t := x[0]
		switch {
		case t.isStr():
			return w.Int(int64(len(t.str())))
		case t.isNil():
			return w.Int(0)
		case t.op == "list":
			return w.Int(int64(len(t.args)))
		case t.op == "struct" && t.s == "":
			return w.Int(0)
		}
		return w.T("len", "", t)
	})
}

// lenRange bounds the length of t; hi is negative without an upper bound.
func (w *World) lenRange(t *Term) (lo, hi int64) {
	switch {
	case t.op == "strcat":
		for _, a := range t.args {
			if a.isStr() {
				lo += int64(len(a.str()))
			} else {
				l, _ := w.lenRange(a)
				lo += l
			}
		}
	case t.op == "call":
		switch t.s {
		case "path/filepath.Clean", "path/filepath.Dir", "path/filepath.Base", "strconv.Itoa", "strconv.FormatInt":
			return 1, -1
		case "path/filepath.Join":
			if len(t.args) == 1 && t.args[0].op == "list" {
				for _, a := range t.args[0].args {
					if a.isStr() && a.str() != "" {
						return 1, -1
					}
					if l, _ := w.lenRange(a); l > 0 {
						return 1, -1
					}
				}
			}
		case "strings.Split":
			if len(t.args) == 2 && t.args[1].isStr() && t.args[1].str() != "" {
				return 1, -1
			}
		case "strings.SplitN":
			if len(t.args) == 3 && t.args[1].isStr() && t.args[1].str() != "" && t.args[2].isInt() && t.args[2].n > 0 {
				return 1, t.args[2].n
			}
		}
	}
	return lo, -1
}

// empty is the formula len(t) == 0.
func (w *World) empty(t *Term) F {
	f := fTrue
	for _, a := range t.args {
		f = w.and(f, w.eq(w.lenOf(a), w.Int(0)))
	}
	return f
}

func (w *World) fieldOf(t *Term, f string, typ types.Type) *Term {
	return w.lift([]*Term{t}, func(x []*Term) *Term {
		t := x[0]
		if t.op == "struct" {
			names := strings.Split(t.s, ",")
			for i, n := range names {
				if n == f {
					return t.args[i]
				}
			}
			if len(t.args) == len(names)+1 || (t.s == "" && len(t.args) == 1) { // with base
				return w.fieldOf(t.args[len(t.args)-1], f, typ)
			}
			return w.zeroOf(typ)
		}
		return w.intern(&Term{op: "field", s: f, args: []*Term{t}, typ: typ})
	})
}

// listLimit bounds the alternatives of a list whose elements have alternatives.
const listLimit = 8

// list is the list of the elements; alternatives of an element are
// alternatives of the list.
func (w *World) list(els []*Term) *Term {
	prod := 1
	for _, e := range els {
		if e.op == "ite" {
			prod *= len(e.alts)
		}
		if prod > listLimit {
			break
		}
	}
	if prod == 1 || prod > listLimit {
		return w.T("list", "", els...)
	}
	return w.lift(els, func(a []*Term) *Term { return w.T("list", "", a...) })
}

// catLimit bounds the alternatives of a list with optional parts.
const catLimit = 256

// cat is slice concatenation; args are slices (list terms are flattened) and
// lists with alternatives are alternatives of lists.
func (w *World) cat(args ...*Term) *Term {
	prod := 1
	for _, a := range args {
		if a.op == "ite" {
			if prod *= len(a.alts); prod > catLimit {
				break
			}
		}
	}
	if prod == 1 || prod > catLimit {
		return w.cat1(args...)
	}
	alts := []alt{{fTrue, nil}}
	acc := [][]*Term{nil}
	for _, a := range args {
		as := []alt{{fTrue, a}}
		if a.op == "ite" {
			as = a.alts
		}
		var nalts []alt
		var nacc [][]*Term
		for i, x := range alts {
			for _, y := range as {
				c := w.simplifyF(w.and(x.c, y.c))
				if c == fFalse {
					continue
				}
				nalts = append(nalts, alt{c, nil})
				nacc = append(nacc, append(append([]*Term(nil), acc[i]...), y.t))
			}
		}
		alts, acc = nalts, nacc
	}
	for i := range alts {
		alts[i].t = w.cat1(acc[i]...)
	}
	return w.Ite(alts)
}

func (w *World) cat1(args ...*Term) *Term {
	var out []*Term
	var lit []*Term
	lifted := false
	flush := func() {
		if len(lit) > 0 {
			l := w.list(lit)
			lifted = lifted || l.op == "ite"
			out = append(out, l)
			lit = nil
		}
	}
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.isNil() || t.op == "zero":
		case t.op == "cat":
			for _, a := range t.args {
				add(a)
			}
		case t.op == "list":
			lit = append(lit, t.args...)
		default:
			flush()
			out = append(out, t)
		}
	}
	for _, a := range args {
		add(a)
	}
	flush()
	if len(out) == 0 {
		return w.Nil()
	}
	if len(out) == 1 {
		return out[0]
	}
	if lifted {
		return w.cat(out...)
	}
	return w.T("cat", "", out...)
}

// strcat concatenates strings.
func (w *World) strcat(args ...*Term) *Term {
	return w.lift(args, func(args []*Term) *Term {
		var out []*Term
		var add func(t *Term)
		add = func(t *Term) {
			if t.op == "strcat" {
				for _, a := range t.args {
					add(a)
				}
				return
			}
			if t.isStr() {
				if t.str() == "" {
					return
				}
				if n := len(out); n > 0 && out[n-1].isStr() {
					out[n-1] = w.Str(out[n-1].str() + t.str())
					return
				}
			}
			out = append(out, t)
		}
		for _, a := range args {
			add(a)
		}
		if len(out) == 0 {
			return w.Str("")
		}
		if len(out) == 1 {
			return out[0]
		}
		for i, a := range out { // as %d
			if a.op == "call" && a.s == "strconv.Itoa" && len(a.args) == 1 {
				out[i] = a.args[0]
			}
		}
		return w.T("strcat", "", out...)
	})
}

// constMap returns the entries of a constant map term.
func (w *World) constMap(m *Term) ([][2]*Term, bool) {
	if m.op != "map" || len(m.args) > 160 {
		return nil, false
	}
	var out [][2]*Term
	for i := 0; i+1 < len(m.args); i += 2 {
		if m.args[i].op != "const" {
			return nil, false
		}
		out = append(out, [2]*Term{m.args[i], m.args[i+1]})
	}
	return out, true
}

// ownKey reports whether k is a key of m in an iteration over m.
func ownKey(m, k *Term) bool {
	if k.op == "first" {
		k = k.args[0]
	}
	return k.op == "key" && k.args[0] == m
}

func (w *World) has(m, k *Term) F {
	r := w.lift([]*Term{m, k}, func(x []*Term) *Term {
		m, k := x[0], x[1]
		if m.isNil() || m.op == "zero" {
			return w.Bool(fFalse)
		}
		if m.op == "put" {
			return w.Bool(w.or(w.eq(m.args[1], k), w.has(m.args[0], k)))
		}
		if ownKey(m, k) {
			return w.Bool(fTrue)
		}
		if es, ok := w.constMap(m); ok {
			f := fFalse
			for _, e := range es {
				f = w.or(f, w.eq(k, e[0]))
			}
			return w.Bool(f)
		}
		return w.Bool(w.fvar(w.T("has", "", m, k)))
	})
	return w.boolF(r)
}

func (w *World) lookup(m, k *Term, typ types.Type) *Term {
	return w.lift([]*Term{m, k}, func(x []*Term) *Term {
		m, k := x[0], x[1]
		if m.op == "put" {
			c := w.eq(m.args[1], k)
			return w.Ite([]alt{{c, m.args[2]}, {w.not(c), w.lookup(m.args[0], k, typ)}})
		}
		if m.isNil() || m.op == "zero" {
			return w.zeroOf(typ)
		}
		if es, ok := w.constMap(m); ok {
			var as []alt
			rest := fTrue
			for _, e := range es {
				c := w.eq(k, e[0])
				as = append(as, alt{w.and(rest, c), e[1]})
				rest = w.and(rest, w.not(c))
			}
			as = append(as, alt{rest, w.zeroOf(typ)})
			return w.Ite(as)
		}
		return w.intern(&Term{op: "lookup", args: []*Term{m, k}, typ: typ})
	})
}

// E is the existential closure of f over the loop variable v: true when some
// iteration over v satisfies f. Conjuncts that do not depend on v are pulled out.
func (w *World) E(v *Term, f F) F {
	f = w.simplifyF(f)
	if f < 2 && v.op != "elem" {
		return f
	}
	if f == fFalse {
		return fFalse
	}
	if f == fTrue {
		return w.not(w.eq(w.lenOf(v.args[0]), w.Int(0)))
	}
	for _, x := range w.support(f) {
		if !w.atoms[x].freeVars()[v] && !dependsLoop(w.atoms[x], v) {
			hi := w.E(v, w.restrict(f, x, true))
			lo := w.E(v, w.restrict(f, x, false))
			return w.ite(w.mk(x, fFalse, fTrue), hi, lo)
		}
	}
	if v.op == "elem" && v.args[0].op == "list" && len(v.args[0].args) <= 64 {
		r := fFalse
		for _, c := range v.args[0].args {
			r = w.or(r, w.substF(f, map[*Term]*Term{v: c}, map[*Term]*Term{}))
		}
		return r
	}
	return w.fvar(w.T("E", "", v, w.Bool(f)))
}

func dependsLoop(a, v *Term) bool {
	for x := range a.freeVars() {
		if x.op == "loopvar" && v.op == "loopvar" {
			return true
		}
		if x.op == "ix" && v.op == "elem" && x.args[0] == v.args[0] {
			return true
		}
	}
	return false
}

var canonMax = 140

func init() {
	if os.Getenv("PTCHECK_LONG") != "" {
		canonMax = 1 << 20
	}
}

// shorten replaces a long rendering by a label derived from its contents.
func (w *World) shorten(t *Term, s string) string {
	if len(s) <= canonMax {
		return s
	}
	op := t.op
	if t.op == "call" {
		op = t.s
		if i := strings.LastIndex(op, "."); i >= 0 {
			op = op[i+1:]
		}
	}
	return w.abbrev(op, s)
}

// abbrev names s by its contents.
func (w *World) abbrev(op, s string) string {
	h := sha256.Sum256([]byte(s))
	l := fmt.Sprintf("%s@%x", op, h[:5])
	w.dict[l] = s
	return l
}

// canon is the canonical, source-independent rendering of a term.
func (t *Term) canon() string {
	if t.can != "" {
		return t.can
	}
	s := t.w.shorten(t, t.render())
	t.can = s
	return s
}

func canons(ts []*Term) []string {
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = t.canon()
	}
	return out
}

func (t *Term) render() string {
	join := func() string { return strings.Join(canons(t.args), ", ") }
	switch t.op {
	case "const":
		if t.s == "int" {
			return strconv.FormatInt(t.n, 10)
		}
		return t.s
	case "bool":
		return t.w.canonF(t.f)
	case "ite":
		var ps []string
		for _, a := range t.alts {
			ps = append(ps, t.w.canonF(a.c)+" => "+a.t.canon())
		}
		sort.Strings(ps)
		return "{" + strings.Join(ps, " ; ") + "}"
	case "field":
		return t.args[0].canon() + "." + t.s
	case "param", "glob", "func":
		return t.s
	case "new":
		return "obj(" + t.s + ")"
	case "struct":
		names := strings.Split(t.s, ",")
		var ps []string
		if t.s != "" {
			for i, n := range names {
				ps = append(ps, n+": "+t.args[i].canon())
			}
		} else {
			names = nil
		}
		if len(t.args) > len(names) {
			ps = append(ps, ".."+t.args[len(t.args)-1].canon())
		}
		return "{" + strings.Join(ps, ", ") + "}"
	case "list":
		return "[" + join() + "]"
	case "map":
		var ps []string
		for i := 0; i+1 < len(t.args); i += 2 {
			ps = append(ps, t.args[i].canon()+": "+t.args[i+1].canon())
		}
		sort.Strings(ps)
		return "map{" + strings.Join(ps, ", ") + "}"
	case "put":
		// flatten a chain of puts
		var ps []string
		b := t
		for b.op == "put" {
			ps = append(ps, b.args[1].canon()+": "+b.args[2].canon())
			b = b.args[0]
		}
		sort.Strings(ps)
		return "put(" + b.canon() + "; " + strings.Join(ps, ", ") + ")"
	case "eq":
		return "(" + t.args[0].canon() + " == " + t.args[1].canon() + ")"
	case "lt":
		return "(" + t.args[0].canon() + " < " + t.args[1].canon() + ")"
	case "is":
		return t.args[0].canon() + " is " + t.s
	case "elem":
		sfx := ""
		if t.n > 0 {
			sfx = strings.Repeat("'", int(t.n))
		}
		return "elem" + sfx + "(" + join() + ")"
	case "lookup":
		if t.args[1].op == "key" && t.args[1].args[0] == t.args[0] {
			return "val(" + t.args[0].canon() + ")"
		}
		return "lookup(" + join() + ")"
	case "key":
		return "key(" + join() + ")"
	case "E":
		return "some " + t.args[0].canon() + ": {" + t.args[1].canon() + "}"
	case "first":
		return "first" + t.s + "(" + t.args[0].canon() + " with " + t.args[1].canon() + ")"
	case "upto":
		return "notafter(" + t.args[0].canon() + ": " + t.args[1].canon() + " with " + t.args[2].canon() + ")"
	case "self":
		return "#" + strconv.FormatInt(t.n, 10)
	case "mu":
		return "loop(" + t.args[0].canon() + "; " + t.args[1].canon() + ")"
	case "call":
		return t.s + "(" + join() + ")"
	case "loopvar":
		return "lv(" + t.s + ")"
	}
	if t.s != "" {
		return t.op + "." + t.s + "(" + join() + ")"
	}
	return t.op + "(" + join() + ")"
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
