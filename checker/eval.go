package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Policy decides how calls are treated by the evaluator.
type Policy struct {
	Opaque func(fn *ssa.Function) bool // module functions that are not inlined
	Pure   func(name string) bool      // opaque calls without an effect of their own
	Ignore func(name string) bool      // calls that do not matter (logging)
	Rename func(name string) string
	Seq    func(name string) bool // calls whose relative order matters
	Keeps  func(name string) bool // opaque calls that do not change what their arguments point to
}

// Effect is one guarded effect of a root function.
type Effect struct {
	cond F
	kind string
	name string
	args []*Term
	pos  token.Pos
	fn   *ssa.Function
}

type Mem map[*Term]*Term

func (m Mem) clone() Mem {
	n := make(Mem, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

type retVal struct {
	cond F
	vals []*Term
	mem  Mem
	pos  token.Pos
	typs *types.Tuple
}

type deferred struct {
	cond F
	call *ssa.CallCommon
	fnv  *Term
	args []*Term
	pos  token.Pos
}

// Eval evaluates functions of the program to guarded summaries.
type Eval struct {
	keepObj  func(*Term) bool // objects snap leaves as they are
	p        *Program
	w        *World
	pol      *Policy
	nobj     int64
	nlv      int64
	stack    []*ssa.Function
	loopSt   []*Term // active loop sources, innermost last
	loopBd   []*Term // their iteration variables
	steps    int
	globals  map[*ssa.Global]*Term
	mutated  map[*ssa.Global]bool
	initing  map[*ssa.Package]bool
	initMem  map[*ssa.Package]Mem
	cbDepth  int
	visitTs  map[string]types.Type // concrete types passed to opaque calls as interfaces
	loops    map[*ssa.Function]*loopForest
	covered  map[*ssa.Function]bool // functions whose bodies were followed
	pureMemo map[*ssa.Function]bool
	newMemo  map[*Term]bool
	visits   []visit                // visitors handed to opaque calls
	callPos  []token.Pos            // the call sites being followed
	callPC   []F                    // and the conditions they are under
	occ      map[*Term][]occurrence // calls with effects, to tell repeated calls apart
}

// occurrence is a place where a call with effects happens.
type occurrence struct {
	site string
	cond F
	n    int
}

// visit is a visitor object seen as an argument of an opaque call.
type visit struct {
	obj *Term
	typ types.Type
	mem Mem
}

func newEval(p *Program, pol *Policy) *Eval {
	return &Eval{p: p, w: newWorld(), pol: pol, globals: map[*ssa.Global]*Term{}, initing: map[*ssa.Package]bool{},
		initMem: map[*ssa.Package]Mem{}, visitTs: map[string]types.Type{}, covered: map[*ssa.Function]bool{}, newMemo: map[*Term]bool{}, loops: map[*ssa.Function]*loopForest{}}
}

type frame struct {
	dynSig  *types.Signature // of the dynamic call being evaluated
	writers []*ssa.Function  // what a call that is not followed may run
	ev      *Eval
	fn      *ssa.Function
	vals    map[ssa.Value]*Term
	has     map[*ssa.Lookup]F // whether the map had the key
	bcond   map[*ssa.BasicBlock]F
	econd   map[[2]int]F
	memOut  map[*ssa.BasicBlock]Mem
	emem    map[[2]int]Mem // memory on loop exit edges
	forest  *loopForest
	effects []Effect
	defers  []deferred
	rets    []retVal
	header  map[*ssa.BasicBlock]*headerState
	cond    F
	mem     Mem
}

type headerState struct {
	mem  Mem
	cond F // what holds on entry, relative to the header of the loop
}

// ---------------------------------------------------------------- loops

type loop struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	parent   *loop
	children []*loop
	// analysis state
	bound   *Term // the bound variable of the iteration
	src     *Term
	ixInit  map[*ssa.Phi]int64
	ixDone  bool
	regular bool
}

type loopForest struct {
	inner map[*ssa.BasicBlock]*loop
	top   []*loop
	order map[*loop][]interface{} // *ssa.BasicBlock or *loop; nil key for function level
}

func (ev *Eval) loopsOf(fn *ssa.Function) *loopForest {
	if f, ok := ev.loops[fn]; ok {
		return f
	}
	f := buildLoops(fn)
	ev.loops[fn] = f
	return f
}

func buildLoops(fn *ssa.Function) *loopForest {
	byHeader := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
				}
				// natural loop of b -> s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var ls []*loop
	for _, l := range byHeader {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) < len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	forest := &loopForest{inner: map[*ssa.BasicBlock]*loop{}, order: map[*loop][]interface{}{}}
	for i, l := range ls {
		for j := i + 1; j < len(ls); j++ {
			if ls[j].blocks[l.header] && ls[j] != l {
				l.parent = ls[j]
				break
			}
		}
		for b := range l.blocks {
			if forest.inner[b] == nil {
				forest.inner[b] = l
			}
		}
	}
	for _, l := range ls {
		if l.parent != nil {
			l.parent.children = append(l.parent.children, l)
		} else {
			forest.top = append(forest.top, l)
		}
	}
	var build func(l *loop)
	build = func(l *loop) {
		// nodes directly in l
		node := func(b *ssa.BasicBlock) interface{} {
			in := forest.inner[b]
			if in == l {
				return b
			}
			for in != nil && in.parent != l {
				in = in.parent
			}
			if in == nil {
				return nil
			}
			return in
		}
		visited := map[interface{}]bool{}
		var post []interface{}
		var dfs func(n interface{})
		dfs = func(n interface{}) {
			if n == nil || visited[n] {
				return
			}
			visited[n] = true
			var bs []*ssa.BasicBlock
			switch x := n.(type) {
			case *ssa.BasicBlock:
				bs = []*ssa.BasicBlock{x}
			case *loop:
				for b := range x.blocks {
					bs = append(bs, b)
				}
				sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
			}
			for _, b := range bs {
				for _, s := range b.Succs {
					if l != nil {
						if !l.blocks[s] || s == l.header {
							continue
						}
					}
					m := node(s)
					if m != n {
						dfs(m)
					}
				}
			}
			post = append(post, n)
		}
		if l == nil {
			dfs(node(fn.Blocks[0]))
			if fn.Recover != nil {
				// recover block is handled apart
				_ = fn.Recover
			}
		} else {
			dfs(node(l.header))
		}
		for i := len(post) - 1; i >= 0; i-- {
			forest.order[l] = append(forest.order[l], post[i])
		}
		kids := forest.top
		if l != nil {
			kids = l.children
		}
		for _, k := range kids {
			build(k)
		}
	}
	if len(fn.Blocks) > 0 {
		build(nil)
	}
	return forest
}

// ---------------------------------------------------------------- functions

// Run evaluates fn as a root with symbolic parameters.
func (ev *Eval) Run(fn *ssa.Function, args []*Term, free []*Term, mem Mem) (effects []Effect, rets []retVal) {
	if args == nil {
		for i, pr := range fn.Params {
			args = append(args, ev.w.intern(&Term{op: "param", s: fmt.Sprintf("p%d", i), typ: pr.Type()}))
		}
	}
	if mem == nil {
		mem = Mem{}
	}
	if ev.pol.Seq != nil {
		mem[ev.traceCell()] = ev.w.T("list", "", ev.w.T("start", ""))
	}
	fr := ev.call(fn, args, free, mem)
	// what a returned function does
	for i, r := range fr.rets {
		for _, v := range r.vals {
			if v.op == "closure" || v.op == "func" || v.op == "ite" {
				fr.cond, fr.mem = r.cond, r.mem
				fr.callback(v, r.pos)
				fr.rets[i].mem = fr.mem
			}
		}
	}
	return fr.effects, fr.rets
}

// traceCell is the ghost cell that holds the ordered calls so far.
func (ev *Eval) traceCell() *Term {
	return ev.w.intern(&Term{op: "globaddr", s: "$trace"})
}

func (ev *Eval) call(fn *ssa.Function, args []*Term, free []*Term, mem Mem) *frame {
	fr := &frame{ev: ev, fn: fn, vals: map[ssa.Value]*Term{}, bcond: map[*ssa.BasicBlock]F{}, econd: map[[2]int]F{},
		memOut: map[*ssa.BasicBlock]Mem{}, emem: map[[2]int]Mem{}, forest: ev.loopsOf(fn), header: map[*ssa.BasicBlock]*headerState{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.vals[f] = free[i]
		} else {
			fr.vals[f] = ev.w.intern(&Term{op: "param", s: fmt.Sprintf("fv%d", i), typ: f.Type()})
		}
	}
	ev.covered[fn] = true
	ev.stack = append(ev.stack, fn)
	if len(ev.stack) > 60 {
		panic(undecided("inlining too deep in " + fn.String()))
	}
	fr.header[fn.Blocks[0]] = &headerState{mem, fTrue}
	fr.scope(nil)
	ev.stack = ev.stack[:len(ev.stack)-1]
	return fr
}

func (fr *frame) scope(l *loop) {
	for _, n := range fr.forest.order[l] {
		switch x := n.(type) {
		case *ssa.BasicBlock:
			fr.block(x, l)
		case *loop:
			fr.loop(x)
		}
	}
}

func ekey(a, b *ssa.BasicBlock) [2]int { return [2]int{a.Index, b.Index} }

func (fr *frame) edgeMem(p, b *ssa.BasicBlock) Mem {
	if m, ok := fr.emem[ekey(p, b)]; ok {
		return m
	}
	return fr.memOut[p]
}

// join computes the condition and memory at b from the given predecessors.
func (fr *frame) join(b *ssa.BasicBlock, preds []*ssa.BasicBlock) (F, Mem) {
	w := fr.ev.w
	c := fFalse
	var live []*ssa.BasicBlock
	var conds []F
	seen := map[int]bool{}
	for _, p := range preds {
		if seen[p.Index] {
			continue
		}
		seen[p.Index] = true
		ec, ok := fr.econd[ekey(p, b)]
		if !ok || ec == fFalse {
			continue
		}
		live = append(live, p)
		conds = append(conds, ec)
		c = w.or(c, ec)
	}
	c = w.simplifyF(c)
	if len(live) == 0 {
		return fFalse, Mem{}
	}
	if len(live) == 1 {
		return c, fr.edgeMem(live[0], b).clone()
	}
	var mems []Mem
	for _, p := range live {
		mems = append(mems, fr.edgeMem(p, b))
	}
	return c, fr.ev.mergeMem(mems, conds)
}

func (ev *Eval) mergeMem(mems []Mem, conds []F) Mem {
	out := Mem{}
	keys := map[*Term]bool{}
	for _, m := range mems {
		for k := range m {
			keys[k] = true
		}
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		var alts []alt
		same := true
		var first *Term
		for i, m := range mems {
			v, ok := m[k]
			if !ok {
				// a New object that does not exist on this path does not matter there
				if r := rootOf(k); r.op == "new" && !ev.objIn(m, r) {
					continue
				}
				v = ev.loadDefault(m, k)
			}
			if first == nil {
				first = v
			} else if v != first {
				same = false
			}
			alts = append(alts, alt{conds[i], v})
		}
		if same && first != nil {
			out[k] = first
			continue
		}
		if k.op == "globaddr" && k.s == "$trace" {
			out[k] = ev.w.seqMerge(alts)
			continue
		}
		out[k] = ev.w.Ite(alts)
	}
	return out
}

// seqMerge joins ordered call sequences, sharing what is common to all of
// them at the start and at the end.
func (w *World) seqMerge(alts []alt) *Term {
	var flat []alt
	var rec func(c F, t *Term)
	rec = func(c F, t *Term) {
		if t.op == "ite" {
			for _, a := range t.alts {
				rec(w.and(c, a.c), a.t)
			}
			return
		}
		c = w.simplifyF(c)
		if c != fFalse {
			flat = append(flat, alt{c, t})
		}
	}
	for _, a := range alts {
		rec(a.c, a.t)
	}
	if len(flat) == 0 {
		return w.T("list", "")
	}
	pieces := func(t *Term) []*Term {
		var out []*Term
		var add func(t *Term)
		add = func(t *Term) {
			switch {
			case t.op == "cat":
				for _, a := range t.args {
					add(a)
				}
			case t.op == "list":
				for _, a := range t.args {
					out = append(out, w.T("list", "", a))
				}
			case t.isNil():
			default:
				out = append(out, t)
			}
		}
		add(t)
		return out
	}
	ps := make([][]*Term, len(flat))
	for i, a := range flat {
		ps[i] = pieces(a.t)
	}
	cut := func(front bool) []*Term {
		var out []*Term
		for {
			for _, p := range ps {
				if len(p) == 0 {
					return out
				}
			}
			at := func(p []*Term) *Term {
				if front {
					return p[0]
				}
				return p[len(p)-1]
			}
			h := at(ps[0])
			for _, p := range ps {
				if at(p) != h {
					return out
				}
			}
			for i := range ps {
				if front {
					ps[i] = ps[i][1:]
				} else {
					ps[i] = ps[i][:len(ps[i])-1]
				}
			}
			if front {
				out = append(out, h)
			} else {
				out = append([]*Term{h}, out...)
			}
		}
	}
	pre := cut(true)
	post := cut(false)
	var mid []alt
	for i := range flat {
		t := w.T("list", "")
		if len(ps[i]) > 0 {
			t = w.cat(ps[i]...)
		}
		mid = append(mid, alt{flat[i].c, t})
	}
	all := append(append(append([]*Term(nil), pre...), w.Ite(mid)), post...)
	return w.cat(all...)
}

func (ev *Eval) objIn(m Mem, obj *Term) bool {
	_, ok := m[ev.w.T("exists", "", obj)]
	return ok
}

func rootOf(loc *Term) *Term {
	for loc.op == "addrf" || loc.op == "addri" || loc.op == "exists" {
		loc = loc.args[0]
	}
	return loc
}

func (fr *frame) block(b *ssa.BasicBlock, l *loop) {
	w := fr.ev.w
	var cond F
	var mem Mem
	if hs, ok := fr.header[b]; ok {
		cond, mem = hs.cond, hs.mem.clone()
	} else {
		cond, mem = fr.join(b, b.Preds)
	}
	fr.bcond[b] = cond
	fr.cond, fr.mem = cond, mem
	if cond == fFalse {
		for _, s := range b.Succs {
			fr.econd[ekey(b, s)] = fFalse
		}
		fr.memOut[b] = mem
		return
	}
	for _, ins := range b.Instrs {
		fr.ev.steps++
		if fr.ev.steps > 6000000 {
			panic(undecided("evaluation budget exceeded in " + fr.fn.String()))
		}
		if phi, ok := ins.(*ssa.Phi); ok {
			if _, isHeader := fr.header[b]; isHeader {
				continue // set by loop()
			}
			var alts []alt
			seen := map[int]bool{}
			for i, p := range b.Preds {
				ec := fr.econd[ekey(p, b)]
				if ec == fFalse || seen[p.Index] {
					continue
				}
				seen[p.Index] = true
				alts = append(alts, alt{ec, fr.val(phi.Edges[i])})
			}
			fr.vals[phi] = fr.merge(alts)
			continue
		}
		fr.instr(ins, b, l)
		if fr.cond == fFalse {
			break
		}
	}
	fr.memOut[b] = fr.mem
	if fr.cond == fFalse {
		for _, s := range b.Succs {
			fr.econd[ekey(b, s)] = fFalse
		}
		return
	}
	switch last := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.If:
		c := w.boolF(fr.val(last.Cond))
		if l != nil && l.header == b && (l.blocks[b.Succs[0]] != l.blocks[b.Succs[1]]) {
			if fr.recognize(l, last) {
				// the iteration condition of the loop itself
				for _, s := range b.Succs {
					fr.econd[ekey(b, s)] = fr.cond
				}
				return
			}
		}
		a, e := w.simplifyF(w.and(fr.cond, c)), w.simplifyF(w.and(fr.cond, w.not(c)))
		if b.Succs[0] == b.Succs[1] {
			fr.econd[ekey(b, b.Succs[0])] = fr.cond
		} else {
			fr.econd[ekey(b, b.Succs[0])] = a
			fr.econd[ekey(b, b.Succs[1])] = e
		}
	case *ssa.Jump:
		fr.econd[ekey(b, b.Succs[0])] = fr.cond
	}
}

func (fr *frame) merge(alts []alt) *Term {
	if len(alts) == 0 {
		return fr.ev.w.T("dead", "")
	}
	same := true
	for _, a := range alts {
		if a.t != alts[0].t {
			same = false
		}
	}
	if same {
		return alts[0].t
	}
	return fr.ev.w.Ite(alts)
}

// recognize identifies the iteration condition of l; it reports whether the
// branch is a plain iteration test that holds in every iteration.
func (fr *frame) recognize(l *loop, ifi *ssa.If) bool {
	if l.bound != nil && l.ixDone {
		return true
	}
	return false
}

// ---------------------------------------------------------------- loop evaluation

func (fr *frame) loop(l *loop) {
	ev, w := fr.ev, fr.ev.w
	var entryPreds, backPreds []*ssa.BasicBlock
	for _, p := range l.header.Preds {
		if l.blocks[p] {
			backPreds = append(backPreds, p)
		} else {
			entryPreds = append(entryPreds, p)
		}
	}
	entry, mem0 := fr.join(l.header, entryPreds)
	if hs, ok := fr.header[l.header]; ok && l.header == fr.fn.Blocks[0] {
		entry, mem0 = fTrue, hs.mem
	}
	if entry == fFalse {
		for b := range l.blocks {
			fr.bcond[b] = fFalse
			for _, s := range b.Succs {
				fr.econd[ekey(b, s)] = fFalse
			}
		}
		return
	}
	ev.callPos, ev.callPC = append(ev.callPos, token.NoPos), append(ev.callPC, entry)
	defer func() {
		ev.callPos, ev.callPC = ev.callPos[:len(ev.callPos)-1], ev.callPC[:len(ev.callPC)-1]
	}()
	// initial values of header phis
	type phiInfo struct {
		phi  *ssa.Phi
		init *Term
		lv   *Term
		ix   bool
		base int64
	}
	var phis []*phiInfo
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var alts []alt
		for i, p := range l.header.Preds {
			if l.blocks[p] {
				continue
			}
			ec := fr.econd[ekey(p, l.header)]
			if ec == fFalse {
				continue
			}
			alts = append(alts, alt{ec, fr.val(phi.Edges[i])})
		}
		pi := &phiInfo{phi: phi, init: fr.merge(alts)}
		// induction: every back edge is phi + 1
		if pi.init.isInt() {
			pi.ix = true
			for i, p := range l.header.Preds {
				if l.blocks[p] {
					bo, ok := phi.Edges[i].(*ssa.BinOp)
					if !ok || bo.Op != token.ADD || bo.X != phi || !isConstInt(bo.Y, 1) {
						pi.ix = false
					}
				}
			}
			pi.base = pi.init.n
		}
		phis = append(phis, pi)
	}
	l.bound, l.src, l.ixDone = nil, nil, false
	// the loop source, from the iteration test in the header
	srcOf := fr.loopSource(l, func(phi *ssa.Phi) (int64, bool) {
		for _, pi := range phis {
			if pi.phi == phi && pi.ix {
				return pi.base, true
			}
		}
		return 0, false
	}, mem0, entry)
	if srcOf != nil && srcOf.kind == "slice" && srcOf.src.op == "list" && len(srcOf.src.args) > 0 && len(srcOf.src.args) <= 8 {
		var st []unrollPhi
		for _, pi := range phis {
			st = append(st, unrollPhi{pi.phi, pi.init})
		}
		fr.unrolled(l, st, entry, mem0, backPreds, len(srcOf.src.args))
		return
	}
	nest := int64(0)
	if srcOf != nil {
		for _, a := range ev.loopSt {
			if a == srcOf.src {
				nest++
			}
		}
		l.src = srcOf.src
		switch srcOf.kind {
		case "slice", "string":
			l.bound = w.intern(&Term{op: "elem", args: []*Term{l.src}, n: nest})
		case "map":
			l.bound = w.intern(&Term{op: "key", args: []*Term{l.src}, n: nest})
		case "count":
			l.bound = w.intern(&Term{op: "ix", args: []*Term{l.src}, n: nest})
		}
		l.ixDone = true
		ev.loopSt = append(ev.loopSt, l.src)
	} else {
		ev.nlv++
		l.bound = w.intern(&Term{op: "loopvar", s: "while", n: ev.nlv})
		ev.loopSt = append(ev.loopSt, l.bound)
	}
	ev.loopBd = append(ev.loopBd, l.bound)
	depth := int64(len(ev.loopSt))
	for _, pi := range phis {
		if pi.ix {
			var base *Term
			if l.src != nil {
				base = w.intern(&Term{op: "ix", args: []*Term{l.src}, n: nest})
			} else {
				ev.nlv++
				base = w.intern(&Term{op: "loopvar", s: "ix", n: ev.nlv})
			}
			pi.lv = w.addInt(base, pi.base)
		} else {
			ev.nlv++
			pi.lv = w.intern(&Term{op: "loopvar", s: typeName(pi.phi.Type()), n: ev.nlv, typ: pi.phi.Type()})
		}
	}
	run := func(m Mem) (F, Mem) {
		for _, pi := range phis {
			fr.vals[pi.phi] = pi.lv
		}
		fr.header[l.header] = &headerState{m, fTrue}
		for b := range l.blocks {
			for _, s := range b.Succs {
				delete(fr.emem, ekey(b, s))
			}
		}
		fr.scope(l)
		delete(fr.header, l.header)
		return fr.join(l.header, backPreds)
	}
	ne, nd, nr := len(fr.effects), len(fr.defers), len(fr.rets)
	// find the cells the body changes, until stable
	changed := map[*Term]*Term{}
	lvMem := func() Mem {
		m := mem0.clone()
		for k, lv := range changed {
			m[k] = lv
		}
		return m
	}
	var total F
	var memB Mem
	for pass := 0; ; pass++ {
		fr.effects, fr.defers, fr.rets = fr.effects[:ne], fr.defers[:nd], fr.rets[:nr]
		m := lvMem()
		total, memB = run(m)
		grew := false
		if total != fFalse {
			cells := map[*Term]*Term{}
			for k, v := range memB {
				cells[k] = v
			}
			for k := range m {
				if _, ok := memB[k]; !ok && k.op != "exists" {
					cells[k] = ev.loadDefault(memB, k)
				}
			}
			for k, v := range cells {
				if k.op == "exists" {
					continue
				}
				if r := rootOf(k); r.op == "new" && !ev.objIn(mem0, r) {
					continue
				}
				old, ok := m[k]
				if !ok {
					old = ev.loadDefault(m, k)
				}
				if old != v && changed[k] == nil {
					ev.nlv++
					changed[k] = w.intern(&Term{op: "loopvar", s: "cell", n: ev.nlv, typ: cellType(k)})
					grew = true
				}
			}
		}
		if !grew || pass > 6 {
			break
		}
	}
	total = w.simplifyF(total)
	// exits
	type exit struct {
		p, s *ssa.BasicBlock
		c    F
		reg  bool
	}
	var exits []exit
	early := fFalse
	var lb []*ssa.BasicBlock
	for b := range l.blocks {
		lb = append(lb, b)
	}
	sort.Slice(lb, func(i, j int) bool { return lb[i].Index < lb[j].Index })
	for _, b := range lb {
		for _, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			c, ok := fr.econd[ekey(b, s)]
			if !ok {
				continue
			}
			reg := b == l.header && isIf(b)
			exits = append(exits, exit{b, s, c, reg})
			if !reg {
				early = w.or(early, c)
			}
		}
	}
	// final values
	sub := map[*Term]*Term{}
	mid := map[*Term]*Term{}
	final := func(lv, init, back *Term) *Term {
		if back == lv {
			return init
		}
		if back.op == "bool" || init.op == "bool" || isBoolType(lv.typ) {
			f := w.boolF(back)
			h := w.fvar(lv)
			ix := w.nodes[h].v
			f1, f0 := w.restrict(f, ix, true), w.restrict(f, ix, false)
			if w.simplifyF(w.and(total, w.not(f1))) == fFalse {
				return w.Bool(w.or(w.boolF(init), w.E(l.bound, w.and(total, f0))))
			}
			if w.simplifyF(w.and(total, f0)) == fFalse {
				return w.Bool(w.and(w.boolF(init), w.not(w.E(l.bound, w.and(total, w.not(f1))))))
			}
		}
		self := w.intern(&Term{op: "self", n: depth})
		b := w.subst(ev.under(back, total), map[*Term]*Term{lv: self})
		if !init.isNil() && isSliceType(lv.typ) && appends(b, self) {
			// a list that only grows: what it held before, then what the loop adds
			return w.cat(init, w.intern(&Term{op: "mu", args: []*Term{w.Nil(), b}}))
		}
		if init.op == "zero" && isSliceType(lv.typ) {
			init = w.Nil()
		}
		return w.intern(&Term{op: "mu", args: []*Term{init, b}})
	}
	// inMu applies f to the value of the loop in the final value of a variable
	inMu := func(u *Term, f func(*Term) *Term) *Term { return w.inMu(u, depth, f) }
	type upd struct{ lv, fin, init, back *Term }
	var upds []upd
	for _, pi := range phis {
		if pi.ix {
			continue
		}
		var alts []alt
		for i, p := range l.header.Preds {
			if !l.blocks[p] {
				continue
			}
			ec := fr.econd[ekey(p, l.header)]
			if ec == fFalse {
				continue
			}
			alts = append(alts, alt{ec, fr.val(pi.phi.Edges[i])})
		}
		if len(alts) == 0 {
			upds = append(upds, upd{pi.lv, pi.init, pi.init, pi.lv})
			continue
		}
		bk := ev.snapFresh(fr.merge(alts), memB, mem0)
		upds = append(upds, upd{pi.lv, nil, pi.init, bk})
	}
	var cks []*Term
	for k := range changed {
		cks = append(cks, k)
	}
	sort.Slice(cks, func(i, j int) bool { return cks[i].id < cks[j].id })
	for _, k := range cks {
		init, ok := mem0[k]
		if !ok {
			init = ev.loadDefault(mem0, k)
		}
		back, ok := memB[k]
		if !ok {
			back = init
			if total != fFalse {
				back = ev.loadDefault(memB, k)
			}
		}
		if total == fFalse {
			back = changed[k]
		} else {
			back = ev.snapFresh(back, memB, mem0)
		}
		upds = append(upds, upd{changed[k], nil, init, back})
	}
	// a variable whose next value is computed from another variable of the
	// loop: how that one goes on is part of it
	carried := map[*Term]*upd{}
	for i := range upds {
		if u := &upds[i]; u.back != u.lv && u.lv.s != "cell" {
			carried[u.lv] = u
		}
	}
	var along func(t *Term, over []*Term) *Term
	along = func(t *Term, over []*Term) *Term {
		if len(carried) == 0 || len(over) > 4 {
			return t
		}
		by := map[*Term]*Term{}
		for lv, u := range carried {
			in := false
			for i, o := range over {
				if o == lv {
					in = true
					if i > 0 {
						by[lv] = w.T("own", "", w.Int(int64(len(over)-i)))
					}
				}
			}
			if !in && w.subst(t, map[*Term]*Term{lv: w.T("own", "")}) != t {
				by[lv] = w.T("along", "", u.init, along(u.back, append(append([]*Term(nil), over...), lv)))
			}
		}
		if len(by) == 0 {
			return t
		}
		return w.subst(t, by)
	}
	for i := range upds {
		u := &upds[i]
		if u.back == u.lv {
			u.fin = u.init
			continue
		}
		u.fin = final(u.lv, u.init, along(u.back, []*Term{u.lv}))
	}
	for _, u := range upds {
		sub[u.lv] = u.fin
		mid[u.lv] = inMu(u.fin, func(t *Term) *Term { return w.T("mid", "", t) })
	}
	memo := map[*Term]*Term{}
	substF := func(f F) F { return w.substF(f, sub, memo) }
	earlyS := w.simplifyF(substF(early))
	// early exits happen in the first iteration that satisfies their condition
	subX, memoX := sub, memo
	var firstTm *Term
	if l.src != nil && earlyS != fFalse {
		firstTm = w.first("", l.bound, earlyS)
		subX, memoX = map[*Term]*Term{}, map[*Term]*Term{}
		fm := w.firstMap(l.bound, earlyS)
		for k, v := range fm {
			subX[k] = v
		}
		for lv, v := range sub {
			v = inMu(v, func(t *Term) *Term { return w.T("at", "", t, firstTm) })
			subX[lv] = w.subst(v, fm)
		}
	}
	// values used after the loop
	for _, b := range lb {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if t, ok := fr.vals[v]; ok {
					if b == l.header {
						fr.vals[v] = w.substMemo(t, sub, memo)
					} else {
						fr.vals[v] = w.substMemo(t, subX, memoX)
					}
				}
			}
		}
	}
	if l.src == nil && len(exits) > 0 {
		// a loop that goes over nothing: when it ends is part of what it does
		leaves := fFalse
		for _, x := range exits {
			leaves = w.or(leaves, x.c)
		}
		save := fr.cond
		fr.cond = fTrue
		fr.effect("until", "", []*Term{w.Bool(w.simplifyF(leaves))}, l.header.Instrs[0].Pos())
		fr.cond = save
	}
	memo2 := map[*Term]*Term{}
	for i := ne; i < len(fr.effects); i++ {
		e := &fr.effects[i]
		e.cond = w.and(entry, w.substF(e.cond, mid, memo2))
		if firstTm != nil {
			e.cond = w.and(e.cond, w.fvar(w.T("upto", "", l.bound, l.bound, w.Bool(earlyS))))
		}
		na := make([]*Term, len(e.args))
		for j, a := range e.args {
			na[j] = w.substMemo(a, mid, memo2)
		}
		e.args = na
		if l.bound.op == "elem" || l.bound.op == "key" {
			// there is an iteration, so the list is not empty
			about := w.fvarsOf(e.cond)[l.bound]
			for _, a := range e.args {
				about = about || a.freeVars()[l.bound]
			}
			if !about {
				e.cond = w.and(e.cond, w.not(w.eq(w.lenOf(l.src), w.Int(0))))
			}
			for _, x := range w.support(e.cond) {
				if about && emptied(w.atoms[x]) == l.src {
					e.cond = w.restrict(e.cond, x, false)
				}
			}
			if about && l.src.op == "ite" && w.asksEmpty(e.cond, l.src) {
				e.cond = w.constrain(e.cond, w.not(w.eq(w.lenOf(l.src), w.Int(0))))
			}
		}
	}
	for i := nd; i < len(fr.defers); i++ {
		fr.defers[i].cond = w.and(entry, w.E(l.bound, substF(fr.defers[i].cond)))
	}
	earlyE := w.E(l.bound, earlyS)
	for _, x := range exits {
		var c F
		s, mm := sub, memo
		if !x.reg {
			s, mm = subX, memoX
		}
		if x.reg {
			c = w.and(entry, w.not(earlyE))
		} else if firstTm != nil {
			c = w.and(entry, w.and(earlyE, w.substF(x.c, subX, memoX)))
		} else {
			c = w.and(entry, w.E(l.bound, substF(x.c)))
		}
		fr.econd[ekey(x.p, x.s)] = w.simplifyF(c)
		m := Mem{}
		for k, v := range fr.memOut[x.p] {
			m[k] = w.substMemo(v, s, mm)
		}
		fr.emem[ekey(x.p, x.s)] = m
	}
	for _, b := range lb {
		fr.bcond[b] = w.and(entry, fr.bcond[b])
		for _, s := range b.Succs {
			if l.blocks[s] {
				fr.econd[ekey(b, s)] = w.and(entry, fr.econd[ekey(b, s)])
			}
		}
	}
	ev.loopSt = ev.loopSt[:len(ev.loopSt)-1]
	ev.loopBd = ev.loopBd[:len(ev.loopBd)-1]
}

// asksEmpty reports whether f asks if one of the lists that t may be is empty.
func (w *World) asksEmpty(f F, t *Term) bool {
	for _, x := range w.support(f) {
		for _, a := range t.alts {
			if emptied(w.atoms[x]) == a.t {
				return true
			}
		}
	}
	return false
}

type unrollPhi struct {
	phi *ssa.Phi
	val *Term
}

// unrolled evaluates a loop over a known list of n elements: the sequence of
// its iterations.
func (fr *frame) unrolled(l *loop, phis []unrollPhi, entry F, mem Mem, backPreds []*ssa.BasicBlock, n int) {
	ev, w := fr.ev, fr.ev.w
	l.bound, l.src, l.ixDone = nil, nil, false
	type out struct {
		cond F
		mem  Mem
	}
	exits := map[[2]int][]out{}
	vals := map[ssa.Value][]alt{}
	var lb []*ssa.BasicBlock
	for b := range l.blocks {
		lb = append(lb, b)
	}
	sort.Slice(lb, func(i, j int) bool { return lb[i].Index < lb[j].Index })
	bconds := map[*ssa.BasicBlock]F{}
	cond := entry
	for k := 0; k <= n && cond != fFalse; k++ {
		for _, p := range phis {
			fr.vals[p.phi] = p.val
		}
		for _, b := range lb {
			for _, s := range b.Succs {
				delete(fr.emem, ekey(b, s))
				delete(fr.econd, ekey(b, s))
			}
		}
		fr.header[l.header] = &headerState{mem, cond}
		ev.callPos = append(ev.callPos, token.Pos(k))
		ev.callPC = append(ev.callPC, fTrue)
		fr.scope(l)
		ev.callPos = ev.callPos[:len(ev.callPos)-1]
		ev.callPC = ev.callPC[:len(ev.callPC)-1]
		delete(fr.header, l.header)
		leaves := fFalse
		for _, b := range lb {
			bconds[b] = w.or(bconds[b], fr.bcond[b])
			for _, s := range b.Succs {
				if l.blocks[s] {
					continue
				}
				if c, ok := fr.econd[ekey(b, s)]; ok && c != fFalse {
					exits[ekey(b, s)] = append(exits[ekey(b, s)], out{c, fr.edgeMem(b, s).clone()})
					leaves = w.or(leaves, c)
				}
			}
		}
		if leaves != fFalse {
			for _, b := range lb {
				if fr.bcond[b] == fFalse {
					continue
				}
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok {
						if t, ok := fr.vals[v]; ok {
							vals[v] = append(vals[v], alt{leaves, t})
						}
					}
				}
			}
		}
		next := make([]*Term, len(phis))
		for i, p := range phis {
			var alts []alt
			for j, pr := range l.header.Preds {
				if !l.blocks[pr] {
					continue
				}
				if ec := fr.econd[ekey(pr, l.header)]; ec != fFalse {
					alts = append(alts, alt{ec, fr.val(p.phi.Edges[j])})
				}
			}
			next[i] = fr.merge(alts)
		}
		cond, mem = fr.join(l.header, backPreds)
		for i := range phis {
			phis[i].val = next[i]
		}
	}
	if cond != fFalse {
		panic(undecided("loop over a known list does not end in " + fr.fn.String()))
	}
	for v, as := range vals {
		if len(as) == 1 {
			fr.vals[v] = as[0].t
		} else {
			fr.vals[v] = fr.merge(as)
		}
	}
	for _, b := range lb {
		fr.bcond[b] = bconds[b]
		for _, s := range b.Succs {
			k := ekey(b, s)
			if l.blocks[s] {
				continue
			}
			delete(fr.emem, k)
			fr.econd[k] = fFalse
			if xs := exits[k]; len(xs) > 0 {
				var mems []Mem
				var conds []F
				c := fFalse
				for _, x := range xs {
					mems = append(mems, x.mem)
					conds = append(conds, x.cond)
					c = w.or(c, x.cond)
				}
				fr.econd[k] = w.simplifyF(c)
				if len(mems) == 1 {
					fr.emem[k] = mems[0]
				} else {
					fr.emem[k] = ev.mergeMem(mems, conds)
				}
			}
		}
	}
}

// appends reports whether b is self with elements appended to it.
func appends(b, self *Term) bool {
	switch {
	case b == self:
		return true
	case b.op == "ite":
		for _, a := range b.alts {
			if a.c > 1 {
				for v := range b.w.fvarsOf(a.c) {
					if v == self {
						return false
					}
				}
			}
			if !appends(a.t, self) {
				return false
			}
		}
		return true
	case b.op == "cat":
		if !appends(b.args[0], self) {
			return false
		}
		for _, a := range b.args[1:] {
			if a.freeVars()[self] {
				return false
			}
		}
		return true
	}
	return false
}

// inMu applies f to the loop values of the given depth that t is made of.
func (w *World) inMu(t *Term, depth int64, f func(*Term) *Term) *Term {
	switch t.op {
	case "mu":
		for v := range t.args[1].freeVars() {
			if v.op == "self" && v.n == depth {
				return f(t)
			}
		}
	case "cat":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = w.inMu(a, depth, f)
		}
		return w.cat(args...)
	case "ite":
		var as []alt
		for _, a := range t.alts {
			as = append(as, alt{a.c, w.inMu(a.t, depth, f)})
		}
		return w.Ite(as)
	}
	return t
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIf(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return ok
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
}

type loopSrc struct {
	src  *Term
	kind string
}

// loopSource recognises `for range x` and `for i := 0; i < n; i++`.
func (fr *frame) loopSource(l *loop, ind func(*ssa.Phi) (int64, bool), mem Mem, entry F) *loopSrc {
	ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[l.header.Succs[0]] || l.blocks[l.header.Succs[1]] {
		return nil
	}
	switch c := ifi.Cond.(type) {
	case *ssa.Extract:
		nx, ok := c.Tuple.(*ssa.Next)
		if !ok || c.Index != 0 {
			return nil
		}
		rg := nx.Iter.(*ssa.Range)
		src := fr.val(rg.X)
		src = fr.ev.snap(src, mem)
		if nx.IsString {
			return &loopSrc{src, "string"}
		}
		return &loopSrc{src, "map"}
	case *ssa.BinOp:
		if c.Op != token.LSS && c.Op != token.NEQ {
			return nil
		}
		x := c.X
		off := int64(0)
		if bo, ok := x.(*ssa.BinOp); ok && bo.Op == token.ADD && isConstInt(bo.Y, 1) {
			x, off = bo.X, 1
		}
		phi, ok := x.(*ssa.Phi)
		if !ok || phi.Block() != l.header {
			return nil
		}
		base, ok := ind(phi)
		if !ok || base+off != 0 {
			return nil
		}
		// the bound: len(x) or another loop-invariant value
		y := c.Y
		if call, ok := y.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				arg := call.Call.Args[0]
				if ai, ok := arg.(ssa.Instruction); ok && l.blocks[ai.Block()] {
					// loads in the header are invariant when the operand is
					ld, ok := arg.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						if phi, ok := arg.(*ssa.Phi); ok && phi.Block() == l.header {
							return nil
						}
						return nil
					}
					if ai2, ok := ld.X.(ssa.Instruction); ok && l.blocks[ai2.Block()] {
						// address computed in the header: x.f
						t := fr.headerTerm(ld, l, mem)
						if t == nil {
							return nil
						}
						return &loopSrc{fr.ev.snap(t, mem), "slice"}
					}
					return &loopSrc{fr.ev.snap(fr.ev.load(mem, fr.val(ld.X), ld.Type()), mem), "slice"}
				}
				return &loopSrc{fr.ev.snap(fr.val(arg), mem), "slice"}
			}
		}
		if yi, ok := y.(ssa.Instruction); ok && l.blocks[yi.Block()] {
			return nil
		}
		t := fr.val(y)
		if t.op == "len" {
			return &loopSrc{t.args[0], "slice"}
		}
		return &loopSrc{t, "count"}
	}
	return nil
}

// headerTerm evaluates a side-effect free address/load chain in the header.
func (fr *frame) headerTerm(v ssa.Value, l *loop, mem Mem) *Term {
	ins, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[ins.Block()] {
		return fr.val(v)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		a := fr.headerTerm(x.X, l, mem)
		if a == nil {
			return nil
		}
		return fr.ev.load(mem, a, x.Type())
	case *ssa.FieldAddr:
		a := fr.headerTerm(x.X, l, mem)
		if a == nil {
			return nil
		}
		return fr.ev.addrField(a, fieldNameAt(x.X.Type(), x.Field), x.Type())
	}
	return nil
}

func typeName(t types.Type) string {
	return canonNames(rawTypeName(t))
}

func (w *World) addInt(t *Term, n int64) *Term {
	if t.isInt() {
		return w.Int(t.n + n)
	}
	if t.op == "plus" && t.args[1].isInt() {
		return w.addInt(t.args[0], t.args[1].n+n)
	}
	if n == 0 {
		return t
	}
	return w.T("plus", "", t, w.Int(n))
}

// under specialises guarded values to a context condition.
func (ev *Eval) under(t *Term, care F) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	w := ev.w
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.op {
		case "ite":
			var as []alt
			for _, a := range t.alts {
				c := w.simplifyF(w.and(a.c, care))
				if c != fFalse {
					as = append(as, alt{c, rec(a.t)})
				}
			}
			r = w.Ite(as)
			if len(as) == 0 {
				r = w.T("dead", "")
			}
		case "bool":
			if w.simplifyF(w.and(w.not(t.f), care)) == fFalse {
				r = w.Bool(fTrue)
			} else {
				f := w.simplifyF(w.and(t.f, care))
				r = w.Bool(f)
			}
		case "mu", "E", "mid":
			r = t
		default:
			if len(t.args) == 0 {
				r = t
				break
			}
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = rec(a)
			}
			r = w.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---------------------------------------------------------------- memory

// cellType is the type of what the cell k holds.
func cellType(k *Term) types.Type {
	if k.op == "new" && k.s == "slice" {
		return k.typ
	}
	return locType(k)
}

func locType(k *Term) types.Type {
	if k.typ == nil {
		return nil
	}
	if p, ok := k.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (ev *Eval) newObj(kind string, typ types.Type, mem Mem) *Term {
	ev.nobj++
	t := ev.w.intern(&Term{op: "new", s: kind, n: ev.nobj, typ: typ})
	mem[ev.w.T("exists", "", t)] = t
	return t
}

func (ev *Eval) addrField(base *Term, name string, typ types.Type) *Term {
	return ev.w.lift([]*Term{base}, func(x []*Term) *Term {
		return ev.w.intern(&Term{op: "addrf", s: name, args: []*Term{x[0]}, typ: typ})
	})
}

func (ev *Eval) hasSub(m Mem, loc *Term) bool {
	for k := range m {
		if k.op != "addrf" && k.op != "addri" {
			continue
		}
		for b := k.args[0]; ; {
			if b == loc {
				return true
			}
			if b.op != "addrf" && b.op != "addri" {
				break
			}
			b = b.args[0]
		}
	}
	return false
}

// load reads the cell that the pointer p points to.
func (ev *Eval) load(m Mem, p *Term, typ types.Type) *Term {
	w := ev.w
	if p.op == "ite" {
		return w.lift([]*Term{p}, func(x []*Term) *Term { return ev.load(m, x[0], typ) })
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && (p.op == "new" || p.op == "addrf" || p.op == "addri" || p.op == "param") && ev.hasSub(m, p) {
		return ev.structAt(m, p, st, typ)
	}
	if at, ok := typ.Underlying().(*types.Array); ok && p.op == "new" && ev.hasSub(m, p) {
		return ev.arrayAt(m, p, at)
	}
	if v, ok := m[p]; ok {
		return v
	}
	return ev.loadDefaultT(m, p, typ)
}

func (ev *Eval) arrayAt(m Mem, p *Term, at *types.Array) *Term {
	w := ev.w
	var els []*Term
	n := at.Len()
	if n > 4096 {
		return w.T("array", "", p)
	}
	for i := int64(0); i < n; i++ {
		k := w.intern(&Term{op: "addri", args: []*Term{p, w.Int(i)}})
		v, ok := m[k]
		if !ok {
			if ev.hasSub(m, k) {
				v = ev.load(m, k, at.Elem())
			} else {
				v = w.zeroOf(at.Elem())
			}
		}
		els = append(els, v)
	}
	return w.list(els)
}

func (ev *Eval) structAt(m Mem, p *Term, st *types.Struct, typ types.Type) *Term {
	w := ev.w
	var names []string
	var args []*Term
	var base *Term
	if v, ok := m[p]; ok {
		base = v
	} else if p.op != "new" {
		base = ev.loadDefaultT(m, p, typ)
	}
	for i := 0; i < st.NumFields(); i++ {
		n := fieldName(st, i)
		loc := ev.addrField(p, n, types.NewPointer(st.Field(i).Type()))
		_, has := m[loc]
		if !has && !ev.hasSub(m, loc) {
			continue
		}
		v := ev.load(m, loc, st.Field(i).Type())
		if base == nil && v == w.zeroOf(st.Field(i).Type()) {
			continue
		}
		names = append(names, n)
		args = append(args, v)
	}
	r := w.mkStruct(names, args, base)
	if r.op == "struct" && r.typ == nil {
		r.typ = typ
	}
	return r
}

// mkStruct is base with the fields set to args; without base the other fields
// have their zero value.
func (w *World) mkStruct(names []string, args []*Term, base *Term) *Term {
	idx := make([]int, len(names))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	var n2 []string
	var a2 []*Term
	for _, i := range idx {
		if base == nil && zeroConst(args[i]) {
			continue
		}
		n2 = append(n2, names[i])
		a2 = append(a2, args[i])
	}
	if base != nil {
		if base.op == "struct" {
			// merge
			bn := strings.Split(base.s, ",")
			if base.s == "" {
				bn = nil
			}
			for i, n := range bn {
				found := false
				for _, x := range n2 {
					if x == n {
						found = true
					}
				}
				if !found {
					n2 = append(n2, n)
					a2 = append(a2, base.args[i])
				}
			}
			var bb *Term
			if len(base.args) > len(bn) {
				bb = base.args[len(bn)]
			}
			if len(n2) == 0 && bb != nil {
				return bb
			}
			return w.mkStruct(n2, a2, bb)
		}
		if len(n2) == 0 {
			return base
		}
		a2 = append(a2, base)
	}
	return w.T("struct", strings.Join(n2, ","), a2...)
}

func (ev *Eval) loadDefault(m Mem, k *Term) *Term { return ev.loadDefaultT(m, k, locType(k)) }

func (ev *Eval) loadDefaultT(m Mem, p *Term, typ types.Type) *Term {
	w := ev.w
	switch p.op {
	case "new":
		if typ == nil {
			typ = locType(p)
		}
		return w.zeroOf(typ)
	case "addrf":
		base := p.args[0]
		if v, ok := m[base]; ok {
			return w.fieldOf(v, p.s, typ)
		}
		switch base.op {
		case "new":
			return w.zeroOf(typ)
		case "addrf", "addri":
			return w.fieldOf(ev.loadDefaultT(m, base, locType(base)), p.s, typ)
		case "globaddr":
			return w.fieldOf(ev.loadDefaultT(m, base, locType(base)), p.s, typ)
		}
		return w.fieldOf(base, p.s, typ)
	case "addri":
		base := p.args[0]
		if v, ok := m[base]; ok {
			return ev.w.index(v, p.args[1])
		}
		if base.op == "new" {
			return w.zeroOf(typ)
		}
		if base.op == "addrf" {
			return ev.w.index(ev.loadDefaultT(m, base, locType(base)), p.args[1])
		}
		return ev.w.index(base, p.args[1])
	case "globaddr":
		if t := ev.globalConst(p); t != nil {
			return t
		}
		return w.T("glob", p.s)
	}
	return p
}

// ownElem is the element a loop over s is at, whatever s is.
func (w *World) ownElem(s, i *Term) *Term {
	if i.op == "ix" && i.args[0] == s {
		return w.intern(&Term{op: "elem", args: []*Term{s}, n: i.n})
	}
	if i.op == "first" && i.s == "ix" && i.args[0].args[0] == s {
		return w.T("first", "", i.args...)
	}
	return nil
}

func (w *World) index(s, i *Term) *Term {
	if own := w.ownElem(s, i); own != nil {
		return own
	}
	return w.lift([]*Term{s, i}, func(x []*Term) *Term {
		s, i := x[0], x[1]
		if i.op == "ix" && i.args[0] == s {
			return w.intern(&Term{op: "elem", args: []*Term{s}, n: i.n})
		}
		if i.op == "first" && i.s == "ix" && i.args[0].args[0] == s {
			return w.T("first", "", i.args...)
		}
		if s.op == "list" && i.isInt() && int(i.n) < len(s.args) && i.n >= 0 {
			return s.args[i.n]
		}
		return w.T("index", "", s, i)
	})
}

func (ev *Eval) killSub(m Mem, loc *Term) {
	var dead []*Term
	for k := range m {
		if k.op != "addrf" && k.op != "addri" {
			continue
		}
		for b := k.args[0]; ; {
			if b == loc {
				dead = append(dead, k)
				break
			}
			if b.op != "addrf" && b.op != "addri" {
				break
			}
			b = b.args[0]
		}
	}
	for _, k := range dead {
		delete(m, k)
	}
}

func (fr *frame) store(p, v *Term, pos token.Pos) {
	ev, w := fr.ev, fr.ev.w
	if p.op == "ite" {
		for _, a := range p.alts {
			old := ev.load(fr.mem, a.t, typOr(locType(a.t)))
			nv := w.Ite([]alt{{a.c, v}, {w.not(a.c), old}})
			save := fr.cond
			fr.cond = w.simplifyF(w.and(fr.cond, a.c))
			if fr.cond != fFalse {
				fr.store2(a.t, v, nv, pos)
			}
			fr.cond = save
		}
		return
	}
	fr.store2(p, v, v, pos)
}

func typOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

func (fr *frame) store2(p, v, cell *Term, pos token.Pos) {
	ev := fr.ev
	r := rootOf(p)
	if r.op != "new" {
		fr.storeEffect(p, ev.snap(v, fr.mem), pos)
	}
	if p.op == "addri" && p.args[0].op == "new" && !p.args[1].isInt() {
		// element store at a variable index: add to the contents
		obj := p.args[0]
		old, ok := fr.mem[obj]
		if !ok {
			old = ev.w.Nil()
		}
		fr.mem[obj] = ev.w.cat(old, ev.w.T("list", "", cell))
		return
	}
	ev.killSub(fr.mem, p)
	fr.mem[p] = cell
}

// storeEffect records that v is stored at p. Storing what is there already is
// nothing, so a flag that is set where it may be set already, one that is set
// where it is not, and one that is given the disjunction are stored the same.
func (fr *frame) storeEffect(p, v *Term, pos token.Pos) {
	ev, w := fr.ev, fr.ev.w
	old, ok := fr.mem[p]
	if !ok {
		old = ev.loadDefault(fr.mem, p)
	}
	put := func(c F, v *Term) {
		save := fr.cond
		fr.cond = w.simplifyF(c)
		if fr.cond != fFalse {
			fr.effect("store", "", []*Term{ev.locTerm(p), v}, pos)
		}
		fr.cond = save
	}
	if v.op == "bool" || isBoolType(v.typ) || isBoolType(locType(p)) {
		f := w.boolF(v)
		had := w.boolF(old)
		sup := w.support(had)
		if len(sup) == 1 && had > 1 {
			l := sup[0]
			neg := had != w.mk(l, fFalse, fTrue)
			set, unset := w.restrict(w.and(fr.cond, f), l, neg), w.restrict(w.and(fr.cond, w.not(f)), l, !neg)
			put(set, w.Bool(fTrue))
			put(unset, w.Bool(fFalse))
			return
		}
		put(w.and(fr.cond, f), w.Bool(fTrue))
		put(w.and(fr.cond, w.not(f)), w.Bool(fFalse))
		return
	}
	if v.op == "ite" {
		same := fFalse
		for _, a := range v.alts {
			if a.t == old {
				same = w.or(same, a.c)
			}
		}
		if same != fFalse {
			c := w.simplifyF(w.and(fr.cond, w.not(same)))
			if c == fFalse {
				return
			}
			put(c, ev.under(v, c))
			return
		}
	}
	if v == old && v.op != "const" && v.op != "zero" {
		return
	}
	if v.op == "cat" {
		// nothing is stored when nothing is appended
		for k := 1; k < len(v.args); k++ {
			if w.cat(v.args[:k]...) == old {
				put(w.and(fr.cond, w.not(w.empty(w.T("cat", "", v.args[k:]...)))), v)
				return
			}
		}
	}
	fr.effect("store", "", []*Term{ev.locTerm(p), v}, pos)
}

// locTerm renders a location as a value path.
func (ev *Eval) locTerm(p *Term) *Term {
	switch p.op {
	case "addrf":
		return ev.w.intern(&Term{op: "field", s: p.s, args: []*Term{ev.locTerm(p.args[0])}})
	case "addri":
		return ev.w.T("index", "", ev.locTerm(p.args[0]), p.args[1])
	case "globaddr":
		return ev.w.T("glob", p.s)
	}
	return p
}

// snap replaces pointers to objects of the analysis by their contents.
func (ev *Eval) snap(t *Term, m Mem) *Term {
	memo := map[*Term]*Term{}
	active := map[*Term]bool{}
	return ev.snapM(t, m, memo, active)
}

// snapFresh replaces the objects made since mem0 by their contents in m: what a
// loop carries on cannot refer to the objects of one iteration.
func (ev *Eval) snapFresh(t *Term, m, mem0 Mem) *Term {
	save := ev.keepObj
	ev.keepObj = func(o *Term) bool { return o.s == "chan" || o.s == "box" || ev.objIn(mem0, o) }
	defer func() { ev.keepObj = save }()
	return ev.snap(t, m)
}

func (ev *Eval) snapM(t *Term, m Mem, memo map[*Term]*Term, active map[*Term]bool) *Term {
	w := ev.w
	if r, ok := memo[t]; ok {
		return r
	}
	if !ev.mentionsNew(t) {
		memo[t] = t
		return t
	}
	if active[t] {
		return w.T("cycle", "")
	}
	active[t] = true
	defer delete(active, t)
	var r *Term
	rec := func(x *Term) *Term { return ev.snapM(x, m, memo, active) }
	switch t.op {
	case "new":
		if ev.keepObj != nil && ev.keepObj(t) {
			memo[t] = t
			return t
		}
		switch t.s {
		case "map", "slice":
			v, ok := m[t]
			if !ok {
				v = w.Nil()
				if t.s == "map" {
					v = w.T("map", "")
				}
			}
			if t.s == "slice" && ev.hasSub(m, t) {
				// constant index stores
				var ks []*Term
				for k := range m {
					if k.op == "addri" && k.args[0] == t {
						ks = append(ks, k)
					}
				}
				sort.Slice(ks, func(i, j int) bool { return ks[i].args[1].n < ks[j].args[1].n })
				var els []*Term
				for _, k := range ks {
					els = append(els, m[k])
				}
				v = w.cat(v, w.T("list", "", els...))
			}
			r = rec(v)
		case "chan":
			r = w.T("chan", "")
		default:
			r = rec(ev.load(m, t, typOr(locType(t))))
		}
	case "sliceof":
		if ev.keepObj != nil && ev.keepObj(rootOf(t.args[0])) {
			memo[t] = t
			return t
		}
		r = rec(t.args[0])
	case "addrf", "addri":
		if ev.keepObj != nil && (rootOf(t).op != "new" || ev.keepObj(rootOf(t))) {
			memo[t] = t
			return t
		}
		r = w.T("ptr", "", rec(ev.load(m, t, typOr(locType(t)))))
	case "ite":
		var as []alt
		for _, a := range t.alts {
			as = append(as, alt{ev.snapF(a.c, m, memo, active), rec(a.t)})
		}
		r = w.Ite(as)
	case "bool":
		r = w.Bool(ev.snapF(t.f, m, memo, active))
	case "closure":
		if ev.keepObj != nil {
			r = t
			break
		}
		r = w.T("func", "closure")
	case "mu":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
		}
		r = w.intern(&Term{op: t.op, s: t.s, n: t.n, args: args})
	default:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
		}
		r = w.rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (ev *Eval) snapF(f F, m Mem, memo map[*Term]*Term, active map[*Term]bool) F {
	return ev.w.mapAtoms(f, func(a *Term) F { return ev.w.boolF(ev.snapM(a, m, memo, active)) })
}

func (ev *Eval) mentionsNew(t *Term) bool {
	if v, ok := ev.newMemo[t]; ok {
		return v
	}
	r := t.op == "new" || t.op == "closure"
	for _, a := range t.args {
		if r {
			break
		}
		r = ev.mentionsNew(a)
	}
	for _, a := range t.alts {
		if r {
			break
		}
		r = ev.mentionsNew(a.t)
		for _, v := range ev.w.support(a.c) {
			r = r || ev.mentionsNew(ev.w.atoms[v])
		}
	}
	if t.op == "bool" && !r {
		for _, v := range ev.w.support(t.f) {
			r = r || ev.mentionsNew(ev.w.atoms[v])
		}
	}
	ev.newMemo[t] = r
	return r
}

// fieldName names a field so that renaming an unexported field does not matter.
func fieldName(st *types.Struct, i int) string {
	f := st.Field(i)
	if f.Exported() || !inModule(f.Pkg()) {
		return f.Name()
	}
	ts := strings.ReplaceAll(typeName(f.Type()), ",", ";")
	k := 0
	for j := 0; j < i; j++ {
		if !st.Field(j).Exported() && strings.ReplaceAll(typeName(st.Field(j).Type()), ",", ";") == ts {
			k++
		}
	}
	s := "~" + ts
	if k > 0 {
		s += "#" + strconv.Itoa(k)
	}
	return s
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func fieldNameAt(t types.Type, i int) string { return fieldName(structOf(t), i) }
