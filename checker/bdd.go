package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// F is a node of the shared guard-formula BDD. 0 is false, 1 is true.
type F int

const (
	fFalse F = 0
	fTrue  F = 1
)

type bddNode struct {
	v      int // variable index
	lo, hi F
}

// World owns the atoms, terms and the BDD. It is a plain predicate domain for
// the guard dataflow: formulas over atoms, where an atom is a canonical
// boolean term of the program.
type World struct {
	nodes  []bddNode
	unique map[bddNode]F
	iteC   map[[3]F]F
	atoms  []*Term
	atomIx map[string]int
	terms  map[string]*Term

	canonC map[F]string
	simpC  map[F]F
	consC  map[[2]F]F
	ites   int
	start  time.Time
	restC  map[restrictKey]F
	dict   map[string]string
	overs  int

	firstC  map[*Term]F // what holds of a first-iteration term
	inFirst int
}

func newWorld() *World {
	w := &World{start: time.Now(), unique: map[bddNode]F{}, iteC: map[[3]F]F{}, atomIx: map[string]int{}, terms: map[string]*Term{}, canonC: map[F]string{}, simpC: map[F]F{}, consC: map[[2]F]F{}, restC: map[restrictKey]F{}, dict: map[string]string{}, firstC: map[*Term]F{}}
	w.nodes = append(w.nodes, bddNode{v: 1 << 30}, bddNode{v: 1 << 30})
	return w
}

// rootTime is how long the evaluation of one root may take.
const rootTime = 100 * time.Second

func (w *World) mk(v int, lo, hi F) F {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if f, ok := w.unique[n]; ok {
		return f
	}
	w.nodes = append(w.nodes, n)
	f := F(len(w.nodes) - 1)
	w.unique[n] = f
	if len(w.nodes) > 3000000 {
		panic(undecided("guard formula too large"))
	}
	return f
}

type undecidedErr string

func undecided(s string) undecidedErr { return undecidedErr(s) }

func (w *World) topv(fs ...F) int {
	m := 1 << 30
	for _, f := range fs {
		if w.nodes[f].v < m {
			m = w.nodes[f].v
		}
	}
	return m
}

func (w *World) cof(f F, v int, hi bool) F {
	n := w.nodes[f]
	if n.v != v {
		return f
	}
	if hi {
		return n.hi
	}
	return n.lo
}

func (w *World) ite(c, t, e F) F {
	if c == fTrue {
		return t
	}
	if c == fFalse {
		return e
	}
	if t == e {
		return t
	}
	if t == fTrue && e == fFalse {
		return c
	}
	k := [3]F{c, t, e}
	if r, ok := w.iteC[k]; ok {
		return r
	}
	v := w.topv(c, t, e)
	lo := w.ite(w.cof(c, v, false), w.cof(t, v, false), w.cof(e, v, false))
	hi := w.ite(w.cof(c, v, true), w.cof(t, v, true), w.cof(e, v, true))
	r := w.mk(v, lo, hi)
	w.iteC[k] = r
	return r
}

func (w *World) and(a, b F) F { return w.ite(a, b, fFalse) }
func (w *World) or(a, b F) F  { return w.ite(a, fTrue, b) }
func (w *World) not(a F) F    { return w.ite(a, fFalse, fTrue) }
func (w *World) truth(b bool) F {
	if b {
		return fTrue
	}
	return fFalse
}

func (w *World) fvar(t *Term) F {
	ix, ok := w.atomIx[t.key]
	if !ok {
		ix = len(w.atoms)
		w.atoms = append(w.atoms, t)
		w.atomIx[t.key] = ix
	}
	return w.mk(ix, fFalse, fTrue)
}

// size is the number of nodes of f, up to a bound.
func (w *World) size(f F) int {
	seen := map[F]bool{}
	var rec func(F)
	rec = func(f F) {
		if f < 2 || seen[f] || len(seen) > 1000 {
			return
		}
		seen[f] = true
		rec(w.nodes[f].lo)
		rec(w.nodes[f].hi)
	}
	rec(f)
	return len(seen)
}

func (w *World) support(f F) []int {
	seen := map[F]bool{}
	vs := map[int]bool{}
	var rec func(F)
	rec = func(f F) {
		if f < 2 || seen[f] {
			return
		}
		seen[f] = true
		n := w.nodes[f]
		vs[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
	out := make([]int, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

// restrict sets variable v in f.
func (w *World) restrict(f F, v int, val bool) F {
	if f < 2 || w.nodes[f].v > v {
		return f
	}
	k := restrictKey{f, v, val}
	if r, ok := w.restC[k]; ok {
		return r
	}
	r := w.restrict1(f, v, val)
	w.restC[k] = r
	return r
}

type restrictKey struct {
	f   F
	v   int
	val bool
}

func (w *World) restrict1(f F, v int, val bool) F {
	memo := map[F]F{}
	var rec func(F) F
	rec = func(f F) F {
		n := w.nodes[f]
		if f < 2 || n.v > v {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		var r F
		if n.v == v {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = w.ite(w.mk(n.v, fFalse, fTrue), rec(n.hi), rec(n.lo))
		}
		memo[f] = r
		return r
	}
	return rec(f)
}

// constrain is the generalised cofactor of f by c under the canonical order of
// the atoms: equal to f where c holds, and free of what c already says.
func (w *World) constrain(f, c F) F {
	if f < 2 || c < 2 {
		return f
	}
	k := [2]F{f, c}
	if r, ok := w.consC[k]; ok {
		return r
	}
	r := w.constrain1(f, c)
	w.consC[k] = r
	return r
}

func (w *World) constrain1(f, c F) F {
	// literals c implies
	for _, v := range w.support(c) {
		if w.restrict(c, v, false) == fFalse {
			f = w.restrict(f, v, true)
			c = w.restrict(c, v, true)
		} else if w.restrict(c, v, true) == fFalse {
			f = w.restrict(f, v, false)
			c = w.restrict(c, v, false)
		}
	}
	if f < 2 || c < 2 {
		return f
	}
	vars := w.support(c)
	if len(vars) > 6 || w.size(f) > 400 {
		return f
	}
	vars = w.sortVars(vars)
	memo := map[[2]F]F{}
	n := 0
	var rec func(f, c F, i int) F
	rec = func(f, c F, i int) F {
		if f < 2 || c == fTrue || i == len(vars) {
			return f
		}
		k := [2]F{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		n++
		if n > 300 {
			return f
		}
		v := vars[i]
		c0, c1 := w.restrict(c, v, false), w.restrict(c, v, true)
		var r F
		switch {
		case c0 == c1:
			r = rec(f, c, i+1)
		case c0 == fFalse:
			r = rec(w.restrict(f, v, true), c1, i+1)
		case c1 == fFalse:
			r = rec(w.restrict(f, v, false), c0, i+1)
		default:
			r = w.ite(w.mk(v, fFalse, fTrue), rec(w.restrict(f, v, true), c1, i+1), rec(w.restrict(f, v, false), c0, i+1))
		}
		memo[k] = r
		return r
	}
	return rec(f, c, 0)
}

// relate frees the conditions of alternatives from what their disjunction tot
// already says: atoms that do not tell the alternatives apart under tot are
// dropped, the rest is the generalised cofactor by what remains of tot.
func (w *World) relate(alts []alt, tot F) []alt {
	m := map[*Term]int{}
	var as []alt
	for _, a := range alts {
		if i, ok := m[a.t]; ok {
			as[i].c = w.or(as[i].c, a.c)
			continue
		}
		m[a.t] = len(as)
		as = append(as, alt{a.c, a.t})
	}
	vars := w.support(tot)
	size := 0
	for _, a := range as {
		size += w.size(a.c)
	}
	if len(as) < 2 || len(vars) > 24 || size > 800 || len(as) > 12 {
		for i := range as {
			as[i].c = w.constrain(as[i].c, tot)
		}
		return as
	}
	th := w.theory(vars)
	on := make([]F, len(as))
	for i, a := range as {
		on[i] = w.and(w.and(a.c, tot), th)
	}
	for _, v := range w.sortVars(vars) {
		ex := make([]F, len(on))
		sum, ok := fFalse, true
		for i, f := range on {
			ex[i] = w.or(w.restrict(f, v, false), w.restrict(f, v, true))
			if w.and(ex[i], sum) != fFalse {
				ok = false
				break
			}
			sum = w.or(sum, ex[i])
		}
		if ok {
			on = ex
		}
	}
	care := fFalse
	for _, f := range on {
		care = w.or(care, f)
	}
	for i := range as {
		as[i].c = w.constrain(on[i], care)
	}
	return as
}

// sortVars orders atoms by their canonical rendering.
func (w *World) sortVars(vars []int) []int {
	sort.Slice(vars, func(i, j int) bool { return w.atoms[vars[i]].canon() < w.atoms[vars[j]].canon() })
	return vars
}

// theory returns the constraint that relates the atoms in the support: for
// example x==1 and x==2 exclude one another.
func (w *World) theory(vars []int) F {
	t := fTrue
	t = w.firstTheory(vars)
	imp := func(a, b F) { t = w.and(t, w.or(w.not(a), b)) }
	excl := func(a, b F) { t = w.and(t, w.not(w.and(a, b))) }
	vf := func(i int) F { return w.mk(vars[i], fFalse, fTrue) }
	for i := range vars {
		a := w.atoms[vars[i]]
		ac, _ := container(a)
		if ac != nil && ac.op == "ite" {
			// one of the lists it may be is not empty
			var all []alt
			for _, x := range ac.alts {
				e := fFalse
				for j := range vars {
					if emptied(w.atoms[vars[j]]) == x.t {
						e = vf(j)
					}
				}
				all = append(all, alt{x.c, w.Bool(e)})
			}
			for _, x := range all {
				if x.t.f != fFalse && among(w.support(x.c), vars) {
					excl(vf(i), w.and(x.c, x.t.f))
				}
			}
		}
		for j := i + 1; j < len(vars); j++ {
			b := w.atoms[vars[j]]
			if x := emptied(b); x != nil && ac == x {
				excl(vf(i), vf(j))
				continue
			}
			if x := emptied(a); x != nil {
				if bc, _ := container(b); bc == x {
					excl(vf(i), vf(j))
					continue
				}
			}
			if w.oneElem(a, b) {
				imp(vf(i), vf(j))
			}
			if w.oneElem(b, a) {
				imp(vf(j), vf(i))
			}
			switch {
			case a.op == "eq" && b.op == "eq":
				ax, ac, ok1 := eqConst(a)
				bx, bc, ok2 := eqConst(b)
				if ok1 && ok2 && ax == bx && ac.key != bc.key {
					excl(vf(i), vf(j))
				}
				if ok1 && ok2 {
					// the length of a text that is known
					for _, p := range [2][2]int{{i, j}, {j, i}} {
						x, k, l, n := ax, ac, bx, bc
						if p[0] == j {
							x, k, l, n = bx, bc, ax, ac
						}
						if l.op == "len" && l.args[0] == x && k.isStr() && n.isInt() {
							if int64(len(k.str())) == n.n {
								imp(vf(p[0]), vf(p[1]))
							} else {
								excl(vf(p[0]), vf(p[1]))
							}
						}
					}
				}
			case a.op == "is" && b.op == "is":
				if a.args[0] == b.args[0] && a.s != b.s && a.n == 1 && b.n == 1 {
					excl(vf(i), vf(j))
				}
			case a.op == "is" && b.op == "eq", a.op == "eq" && b.op == "is":
				e, s := a, b
				if a.op == "is" {
					e, s = b, a
				}
				if ex, ec, ok := eqConst(e); ok && ec.s == "nil" && ex == s.args[0] {
					excl(vf(i), vf(j))
				}
			case a.op == "lt" && b.op == "lt":
				if a.args[0] == b.args[0] && a.args[1].isInt() && b.args[1].isInt() {
					if a.args[1].n < b.args[1].n {
						imp(vf(i), vf(j))
					} else {
						imp(vf(j), vf(i))
					}
				}
			case a.op == "lt" && b.op == "eq", a.op == "eq" && b.op == "lt":
				e, l := a, b
				ei, li := vf(i), vf(j)
				if a.op == "lt" {
					e, l = b, a
					ei, li = vf(j), vf(i)
				}
				if e.args[0] == l.args[0] && e.args[1] == l.args[1] || e.args[0] == l.args[1] && e.args[1] == l.args[0] {
					excl(ei, li)
				}
				if ex, ec, ok := eqConst(e); ok && ec.isInt() && ex == l.args[0] && l.args[1].isInt() {
					if ec.n < l.args[1].n {
						imp(ei, li)
					} else {
						excl(ei, li)
					}
				}
			}
		}
	}
	return t
}

// among reports whether all of a are in b.
func among(a, b []int) bool {
	for _, x := range a {
		found := false
		for _, y := range b {
			found = found || x == y
		}
		if !found {
			return false
		}
	}
	return true
}

// oneElem reports whether a says that there is only one element, and b that
// the position is that of the first or of the last element.
func (w *World) oneElem(a, b *Term) bool {
	if b.op != "eq" {
		return false
	}
	var x *Term
	switch {
	case a.op == "lt" && a.args[1].isInt() && a.args[1].n <= 2:
		x = a.args[0]
	case a.op == "eq" && a.args[1].isInt() && a.args[1].n <= 1:
		x = a.args[0]
	}
	if x == nil || x.op != "len" {
		return false
	}
	for i := range b.args {
		ix, o := b.args[i], b.args[1-i]
		if ix.op == "ix" && ix.args[0] == x.args[0] && (o.isInt() && o.n == 0 || o == w.lastIx(ix)) {
			return true
		}
	}
	return false
}

// container is what has to have an element for the atom to hold.
func container(a *Term) (*Term, bool) {
	switch a.op {
	case "has":
		return a.args[0], true
	case "E":
		if v := a.args[0]; v.op == "elem" || v.op == "key" {
			return v.args[0], true
		}
	}
	return nil, false
}

// emptied is what has no element when the atom holds.
func emptied(a *Term) *Term {
	x, c, ok := eqConst(a)
	if !ok {
		return nil
	}
	if c.isNil() {
		return x
	}
	if x.op == "len" && c.isInt() && c.n == 0 {
		return x.args[0]
	}
	return nil
}

// firstTheory is what holds of the first-iteration terms in the atoms: when
// some iteration satisfies the formula, the first one does.
func (w *World) firstTheory(vars []int) F {
	t := fTrue
	if len(w.firstC) == 0 || w.inFirst > 0 {
		return t
	}
	seen := map[*Term]bool{}
	var in map[int]bool
	for _, v := range vars {
		for _, fs := range w.atoms[v].firsts() {
			if seen[fs] {
				continue
			}
			seen[fs] = true
			c, ok := w.firstC[fs]
			if !ok {
				w.first("", fs.args[0], fs.args[1].f)
				c = w.firstC[fs]
			}
			if in == nil {
				in = map[int]bool{}
				for _, x := range vars {
					in[x] = true
				}
			}
			for _, x := range w.support(c) {
				if !in[x] {
					c = w.or(w.restrict(c, x, true), w.restrict(c, x, false))
				}
			}
			t = w.and(t, c)
		}
	}
	return t
}

func eqConst(t *Term) (*Term, *Term, bool) {
	if t.op != "eq" {
		return nil, nil, false
	}
	if t.args[1].op == "const" && t.args[0].op != "const" {
		return t.args[0], t.args[1], true
	}
	if t.args[0].op == "const" && t.args[1].op != "const" {
		return t.args[1], t.args[0], true
	}
	return nil, nil, false
}

// simplifyF returns the canonical representative of f modulo the theory.
func (w *World) simplifyF(f F) F {
	if f < 2 {
		return f
	}
	if r, ok := w.simpC[f]; ok {
		return r
	}
	vars := w.support(f)
	r := f
	if len(vars) <= 64 {
		t := w.theory(vars)
		if t != fTrue {
			if w.and(f, t) == fFalse {
				r = fFalse
			} else if w.and(w.not(f), t) == fFalse {
				r = fTrue
			} else if g, ok := w.coverF(f, vars, t); ok {
				r = g
			}
		}
	}
	w.simpC[f] = r
	return r
}

func (w *World) coverF(f F, vars []int, t F) (r F, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(undecidedErr); is {
				r, ok = f, false
				return
			}
			panic(e)
		}
	}()
	_, r = w.isopOf(f, vars, t)
	return r, true
}

type cube []int // literal: var*2 + (1 if positive)

// cubesOf returns a canonical irredundant cover of f (modulo theory).
func (w *World) cubesOf(f F) ([][]string, bool) {
	vars := w.support(f)
	cs, _ := w.isopOf(f, vars, w.theory(vars))
	return cs, true
}

func (w *World) isopOf(f F, vars []int, t F) ([][]string, F) {
	// canonical order: by atom rendering
	sorted := append([]int(nil), vars...)
	sort.Slice(sorted, func(i, j int) bool { return w.atoms[sorted[i]].canon() < w.atoms[sorted[j]].canon() })
	lower, upper := w.and(f, t), w.or(f, w.not(t))
	n := 0
	var isop func(l, u F, i int) ([][]string, F)
	isop = func(l, u F, i int) ([][]string, F) {
		n++
		if n > 20000 {
			panic(undecided("guard formula cover too large"))
		}
		if l == fFalse {
			return nil, fFalse
		}
		if u == fTrue {
			return [][]string{{}}, fTrue
		}
		// next sorted var in support of l or u
		v := sorted[i]
		l0, l1 := w.restrict(l, v, false), w.restrict(l, v, true)
		u0, u1 := w.restrict(u, v, false), w.restrict(u, v, true)
		if l0 == l1 && u0 == u1 {
			return isop(l, u, i+1)
		}
		c0, r0 := isop(w.and(l0, w.not(u1)), u0, i+1)
		c1, r1 := isop(w.and(l1, w.not(u0)), u1, i+1)
		ls := w.or(w.and(l0, w.not(r0)), w.and(l1, w.not(r1)))
		cs, rs := isop(ls, w.and(u0, u1), i+1)
		name := w.atoms[v].canon()
		var out [][]string
		for _, c := range c0 {
			out = append(out, append([]string{"!" + name}, c...))
		}
		for _, c := range c1 {
			out = append(out, append([]string{name}, c...))
		}
		out = append(out, cs...)
		vf := w.mk(v, fFalse, fTrue)
		return out, w.or(rs, w.ite(vf, r1, r0))
	}
	return isop(lower, upper, 0)
}

// canonF renders f canonically as a sum of products.
func (w *World) canonF(f F) string {
	if f == fTrue {
		return "true"
	}
	if f == fFalse {
		return "false"
	}
	if s, ok := w.canonC[f]; ok {
		return s
	}
	cs, over := w.safeCubes(f)
	var s string
	if over {
		s = w.hashF(f)
	} else if len(cs) == 0 {
		s = "false"
	} else {
		var parts []string
		for _, c := range cs {
			if len(c) == 0 {
				parts = append(parts, "true")
				continue
			}
			sort.Slice(c, func(i, j int) bool { return strings.TrimPrefix(c[i], "!") < strings.TrimPrefix(c[j], "!") })
			parts = append(parts, strings.Join(c, " & "))
		}
		sort.Strings(parts)
		s = strings.Join(parts, " | ")
	}
	w.canonC[f] = s
	return s
}

// mapAtoms rebuilds f with every atom replaced by a formula.
func (w *World) mapAtoms(f F, g func(*Term) F) F {
	memo := map[F]F{}
	var rec func(F) F
	rec = func(f F) F {
		if f < 2 {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := w.nodes[f]
		r := w.ite(g(w.atoms[n.v]), rec(n.hi), rec(n.lo))
		memo[f] = r
		return r
	}
	return rec(f)
}

func (w *World) safeCubes(f F) (cs [][]string, over bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(undecidedErr); is {
				cs, over = nil, true
				return
			}
			panic(e)
		}
	}()
	cs, _ = w.cubesOf(f)
	return cs, false
}

// hashF names a formula that has no small cover: the hash of its reduced
// decision diagram under the canonical atom order.
func (w *World) hashF(f F) string {
	vars := w.support(f)
	f = w.and(f, w.theory(vars))
	vars = w.support(f)
	sort.Slice(vars, func(i, j int) bool { return w.atoms[vars[i]].canon() < w.atoms[vars[j]].canon() })
	memo := map[F]string{fFalse: "0", fTrue: "1"}
	n := 0
	var rec func(f F, i int) string
	rec = func(f F, i int) string {
		if s, ok := memo[f]; ok {
			return s
		}
		n++
		if n > 200000 {
			if os.Getenv("PTCHECK_DEBUG") != "" {
				for _, v := range vars {
					fmt.Fprintln(os.Stderr, w.atoms[v].render())
				}
			}
			panic(undecided("guard formula too large to name"))
		}
		v := vars[i]
		lo, hi := w.restrict(f, v, false), w.restrict(f, v, true)
		var s string
		if lo == hi {
			s = rec(lo, i+1)
		} else {
			h := sha256.Sum256([]byte(w.atoms[v].canon() + "?" + rec(hi, i+1) + ":" + rec(lo, i+1)))
			s = fmt.Sprintf("%x", h[:8])
		}
		memo[f] = s
		return s
	}
	return "formula<" + rec(f, 0) + ">"
}
