package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) val(v ssa.Value) *Term {
	if t, ok := fr.vals[v]; ok {
		return t
	}
	w := fr.ev.w
	switch x := v.(type) {
	case *ssa.Const:
		return fr.ev.constTerm(x)
	case *ssa.Global:
		return fr.ev.globAddr(x)
	case *ssa.Function:
		return w.intern(&Term{op: "func", s: fr.ev.funcName(x), fn: x})
	case *ssa.Builtin:
		return w.T("func", "builtin."+x.Name())
	}
	return w.T("undef", v.Name())
}

func (ev *Eval) constTerm(x *ssa.Const) *Term {
	w := ev.w
	if x.Value == nil {
		return w.zeroOf(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return w.Bool(fTrue)
		}
		return w.Bool(fFalse)
	case constant.String:
		return w.Str(constant.StringVal(x.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(x.Value); ok {
			return w.Int(n)
		}
	}
	return w.T("const", "k:"+x.Value.ExactString())
}

func (ev *Eval) globAddr(g *ssa.Global) *Term {
	return ev.w.intern(&Term{op: "globaddr", s: globName(g.Pkg, g.Name()), typ: g.Type()})
}

// funcName is the canonical name of a function value.
func (ev *Eval) funcName(fn *ssa.Function) string {
	if fn.Pkg != nil && inModule(fn.Pkg.Pkg) && fn.Object() != nil && !fn.Object().Exported() {
		return "fn"
	}
	if fn.Parent() != nil {
		return "closure"
	}
	return shortFn(fn)
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	if fn.Origin() != nil {
		s = fn.Origin().String()
	}
	s = shortName(s)
	if r, ok := sameFunc[s]; ok {
		return r
	}
	if r, ok := renamed[s]; ok {
		return r
	}
	return s
}

// sameFunc are functions that are others under a second name.
var sameFunc = map[string]string{
	"os.ReadFile": "io/ioutil.ReadFile", "os.WriteFile": "io/ioutil.WriteFile", "io.ReadAll": "io/ioutil.ReadAll",
	"os.CreateTemp": "io/ioutil.TempFile", "os.MkdirTemp": "io/ioutil.TempDir", "io.NopCloser": "io/ioutil.NopCloser",
}

// renamed maps the current name of an unexported function to its reviewed name.
var renamed = map[string]string{}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	return canonNames(strings.ReplaceAll(s, modPath+"/", ""))
}

func (fr *frame) effect(kind, name string, args []*Term, pos token.Pos) {
	fr.effects = append(fr.effects, Effect{cond: fr.cond, kind: kind, name: name, args: args, pos: pos, fn: fr.fn})
}

func (fr *frame) instr(ins ssa.Instruction, b *ssa.BasicBlock, l *loop) {
	ev, w := fr.ev, fr.ev.w
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.vals[x] = ev.newObj("cell", x.Type(), fr.mem)
	case *ssa.BinOp:
		fr.vals[x] = fr.binop(x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			fr.vals[x] = ev.load(fr.mem, fr.val(x.X), x.Type())
		case token.NOT:
			fr.vals[x] = w.Bool(w.not(w.boolF(fr.val(x.X))))
		case token.ARROW:
			ch := ev.snap(fr.val(x.X), fr.mem)
			fr.effect("recv", "", []*Term{ch}, x.Pos())
			t := w.T("recv", "", ch)
			if x.CommaOk {
				fr.vals[x] = w.T("tuple", "", t, w.T("recvok", "", ch))
			} else {
				fr.vals[x] = t
			}
		default:
			fr.vals[x] = w.lift([]*Term{fr.val(x.X)}, func(a []*Term) *Term {
				if a[0].isInt() && x.Op == token.SUB {
					return w.Int(-a[0].n)
				}
				return w.T("un", x.Op.String(), a...)
			})
		}
	case *ssa.Call:
		fr.vals[x] = fr.callInstr(&x.Call, x.Pos(), x.Type())
	case *ssa.ChangeType:
		fr.vals[x] = fr.val(x.X)
	case *ssa.ChangeInterface:
		fr.vals[x] = fr.val(x.X)
	case *ssa.MakeInterface:
		fr.vals[x] = fr.box(x)
	case *ssa.Convert:
		fr.vals[x] = fr.val(x.X)
	case *ssa.SliceToArrayPointer:
		fr.vals[x] = fr.val(x.X)
	case *ssa.Extract:
		t := fr.val(x.Tuple)
		fr.vals[x] = ev.extract(t, x.Index, x.Type())
	case *ssa.Field:
		fr.vals[x] = w.fieldOf(fr.val(x.X), fieldNameAt(x.X.Type(), x.Field), x.Type())
	case *ssa.FieldAddr:
		fr.vals[x] = ev.addrField(fr.val(x.X), fieldNameAt(x.X.Type(), x.Field), x.Type())
	case *ssa.Index:
		fr.vals[x] = ev.w.index(ev.snap(fr.val(x.X), fr.mem), ev.snap(fr.val(x.Index), fr.mem))
	case *ssa.IndexAddr:
		base := fr.val(x.X)
		if base.op == "sliceof" {
			base = base.args[0]
		}
		ix := fr.val(x.Index)
		if base.op == "new" && base.s != "slice" && !ix.isInt() {
			base = ev.snap(base, fr.mem)
		}
		if base.op == "ite" {
			if sb := ev.snap(base, fr.mem); w.ownElem(sb, ix) != nil && !ev.mentionsNew(base) {
				fr.vals[x] = w.intern(&Term{op: "addri", args: []*Term{base, ix}, typ: x.Type()})
				break
			}
		}
		fr.vals[x] = w.lift([]*Term{base, ix}, func(a []*Term) *Term {
			return w.intern(&Term{op: "addri", args: a, typ: x.Type()})
		})
	case *ssa.Lookup:
		m := fr.val(x.X)
		k := ev.snap(fr.val(x.Index), fr.mem)
		if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
			fr.vals[x] = ev.w.index(ev.snap(m, fr.mem), k)
			break
		}
		ms := ev.snap(m, fr.mem)
		et := x.X.Type().Underlying().(*types.Map).Elem()
		v := fr.ev.lookupPut(ms, k, et)
		if r := fr.justPut(m, k, et); r != nil {
			v = r
		}
		if fr.has == nil {
			fr.has = map[*ssa.Lookup]F{}
		}
		fr.has[x] = fr.ev.hasPut(ms, k)
		if x.CommaOk {
			fr.vals[x] = w.T("tuple", "", v, w.Bool(fr.has[x]))
		} else {
			fr.vals[x] = v
		}
	case *ssa.Range:
		fr.vals[x] = w.T("range", "", ev.snap(fr.val(x.X), fr.mem))
	case *ssa.Next:
		src := fr.val(x.Iter).args[0]
		nest := int64(0)
		for i, a := range ev.loopSt {
			if a == src && i < len(ev.loopSt)-1 {
				nest++
			}
		}
		ok := w.T("next", "", src)
		if x.IsString {
			fr.vals[x] = w.T("tuple", "", ok, w.intern(&Term{op: "ix", args: []*Term{src}, n: nest}), w.intern(&Term{op: "elem", args: []*Term{src}, n: nest}))
		} else {
			key := w.intern(&Term{op: "key", args: []*Term{src}, n: nest})
			var et types.Type
			if rg, isR := x.Iter.(*ssa.Range); isR {
				et = rg.X.Type().Underlying().(*types.Map).Elem()
			}
			fr.vals[x] = w.T("tuple", "", ok, key, ev.lookupKey(src, key, et))
		}
	case *ssa.MakeClosure:
		var bs []*Term
		for _, bd := range x.Bindings {
			bs = append(bs, fr.val(bd))
		}
		fn := x.Fn.(*ssa.Function)
		fr.vals[x] = w.intern(&Term{op: "closure", s: "", fn: fn, args: bs})
	case *ssa.MakeMap:
		o := ev.newObj("map", x.Type(), fr.mem)
		fr.vals[x] = o
	case *ssa.MakeSlice:
		o := ev.newObj("slice", x.Type(), fr.mem)
		fr.vals[x] = o
	case *ssa.MakeChan:
		fr.vals[x] = ev.newObj("chan", x.Type(), fr.mem)
	case *ssa.MapUpdate:
		m := fr.val(x.Map)
		k, v := ev.snap(fr.val(x.Key), fr.mem), fr.val(x.Value)
		fr.mapPut(m, k, v, x.Map.Type(), x.Pos())
	case *ssa.Store:
		fr.store(fr.val(x.Addr), fr.val(x.Val), x.Pos())
	case *ssa.Slice:
		base := fr.val(x.X)
		if x.Low == nil && x.High == nil {
			if base.op == "new" && base.s == "cell" {
				fr.vals[x] = w.T("sliceof", "", base)
			} else {
				fr.vals[x] = base
			}
			break
		}
		lo, hi := w.Int(0), w.T("end", "")
		if x.Low != nil {
			lo = ev.snap(fr.val(x.Low), fr.mem)
		}
		if x.High != nil {
			hi = ev.snap(fr.val(x.High), fr.mem)
		}
		s := ev.snap(base, fr.mem)
		if base.op == "new" && base.s == "cell" { // array
			s = ev.snap(w.T("sliceof", "", base), fr.mem)
		}
		// a bound of len(x) is the end
		if hi.op == "len" && hi.args[0] == s {
			hi = w.T("end", "")
		}
		fr.vals[x] = w.lift([]*Term{s, lo, hi}, func(a []*Term) *Term {
			if a[1].isInt() && a[1].n == 0 && (a[2].op == "end" || (a[2].op == "len" && a[2].args[0] == a[0])) {
				return a[0]
			}
			if a[2].isInt() && a[1].isInt() && a[1].n == 0 && a[2].n == 0 {
				if _, ok := x.Type().Underlying().(*types.Basic); ok {
					return w.Str("")
				}
				return w.Nil()
			}
			if t := w.cutAt(a[0], a[1], a[2]); t != nil {
				return t
			}
			return w.T("slice", "", a...)
		})
	case *ssa.TypeAssert:
		t := fr.val(x.X)
		if t.op == "bytes" {
			t = t.args[0]
		}
		if t.op == "new" && t.s == "box" && !types.IsInterface(x.AssertedType) {
			t = ev.load(fr.mem, t, x.AssertedType)
		}
		if x.CommaOk {
			fr.vals[x] = w.T("tuple", "", t, w.Bool(ev.isType(ev.snap(t, fr.mem), x.AssertedType, fr.val(x.X))))
		} else {
			fr.vals[x] = t
		}
	case *ssa.Defer:
		fr.defers = append(fr.defers, fr.mkDefer(&x.Call, x.Pos()))
	case *ssa.RunDefers:
		ds := fr.defers
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			save := fr.cond
			c := w.simplifyF(w.and(fr.cond, d.cond))
			if c == fFalse {
				continue
			}
			fr.cond = c
			pre := fr.mem.clone()
			fr.doCall(d.call, d.fnv, d.args, d.pos, nil)
			if c != save {
				fr.mem = ev.mergeMem([]Mem{fr.mem, pre}, []F{c, w.and(save, w.not(c))})
			}
			fr.cond = save
		}
	case *ssa.Go:
		d := fr.mkDefer(&x.Call, x.Pos())
		fr.effect("go", "", nil, x.Pos())
		fr.doCall(d.call, d.fnv, d.args, d.pos, nil)
	case *ssa.Send:
		fr.effect("send", "", []*Term{ev.snap(fr.val(x.Chan), fr.mem), ev.snap(fr.val(x.X), fr.mem)}, x.Pos())
	case *ssa.Select:
		fr.vals[x] = fr.selectTerm(x)
	case *ssa.Return:
		var vs []*Term
		for _, r := range x.Results {
			vs = append(vs, fr.val(r))
		}
		fr.rets = append(fr.rets, retVal{cond: fr.cond, vals: vs, mem: fr.mem.clone(), pos: x.Pos(), typs: fr.fn.Signature.Results()})
	case *ssa.Panic:
		fr.effect("panic", "", nil, x.Pos())
	case *ssa.If, *ssa.Jump:
	default:
		panic(undecided(fmt.Sprintf("unsupported instruction %T in %s", ins, fr.fn)))
	}
}

func (ev *Eval) extract(t *Term, i int, typ types.Type) *Term {
	w := ev.w
	return w.lift([]*Term{t}, func(a []*Term) *Term {
		t := a[0]
		if t.op == "tuple" {
			return t.args[i]
		}
		return w.intern(&Term{op: "ret", n: int64(i), s: fmt.Sprint(i), args: []*Term{t}, typ: typ})
	})
}

func (fr *frame) selectTerm(x *ssa.Select) *Term {
	ev, w := fr.ev, fr.ev.w
	type st struct {
		i  int
		ch *Term
	}
	var sts []st
	for i, s := range x.States {
		ch := ev.snap(fr.val(s.Chan), fr.mem)
		if s.Dir == types.SendOnly {
			ch = w.T("send", "", ch)
		}
		sts = append(sts, st{i, ch})
	}
	sort.SliceStable(sts, func(i, j int) bool { return sts[i].ch.canon() < sts[j].ch.canon() })
	var alts []alt
	rest := fTrue
	var all []*Term
	for _, s := range sts {
		all = append(all, s.ch)
	}
	if !x.Blocking {
		all = append(all, w.T("default", ""))
	}
	for k, s := range sts {
		c := w.fvar(w.intern(&Term{op: "selected", n: int64(k), args: append([]*Term{s.ch}, all...)}))
		if k == len(sts)-1 && x.Blocking {
			c = fTrue
		}
		alts = append(alts, alt{w.and(rest, c), w.Int(int64(s.i))})
		rest = w.and(rest, w.not(c))
	}
	if !x.Blocking {
		alts = append(alts, alt{rest, w.Int(-1)})
	}
	res := []*Term{w.Ite(alts), w.T("recvok", "sel")}
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			res = append(res, w.T("recv", "", ev.snap(fr.val(s.Chan), fr.mem)))
		}
	}
	return w.T("tuple", "", res...)
}

// isType is the formula for a dynamic type test.
func (ev *Eval) isType(t *Term, typ types.Type, orig *Term) F {
	w := ev.w
	r := w.lift([]*Term{t}, func(a []*Term) *Term {
		t := a[0]
		if t.isNil() {
			return w.Bool(fFalse)
		}
		n := int64(1)
		if types.IsInterface(typ) {
			n = 0
		}
		name := typeName(typ)
		if nt := namedOf(typ); nt != nil && inModule(nt.Obj().Pkg()) && !nt.Obj().Exported() {
			name = "~" + nt.Obj().Pkg().Name()
		}
		return w.Bool(w.fvar(w.intern(&Term{op: "is", s: name, n: n, args: []*Term{t}})))
	})
	return w.boolF(r)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (ev *Eval) lookupKey(m, k *Term, et types.Type) *Term {
	return ev.w.intern(&Term{op: "lookup", args: []*Term{m, k}, typ: et})
}

// lookupPut reads through a chain of puts of known keys.
func (ev *Eval) lookupPut(m, k *Term, et types.Type) *Term {
	w := ev.w
	return w.lift([]*Term{m, k}, func(a []*Term) *Term {
		m, k := a[0], a[1]
		if k.op == "key" && k.args[0] == m {
			return ev.lookupKey(m, k, et)
		}
		return w.lookup(m, k, et)
	})
}

func (ev *Eval) hasPut(m, k *Term) F {
	w := ev.w
	r := w.lift([]*Term{m, k}, func(a []*Term) *Term {
		m, k := a[0], a[1]
		return w.Bool(w.has(m, k))
	})
	return w.boolF(r)
}

func (fr *frame) mapPut(m, k, v *Term, typ types.Type, pos token.Pos) {
	ev, w := fr.ev, fr.ev.w
	if m.op == "ite" {
		for _, a := range m.alts {
			save := fr.cond
			fr.cond = w.simplifyF(w.and(fr.cond, a.c))
			if fr.cond != fFalse {
				fr.mapPut(a.t, k, v, typ, pos)
			}
			fr.cond = save
		}
		return
	}
	if m.op == "new" && m.s == "map" {
		old, ok := fr.mem[m]
		if !ok {
			old = w.T("map", "")
		}
		if old.op == "map" && k.op == "const" {
			// a literal entry
			for i := 0; i+1 < len(old.args); i += 2 {
				if old.args[i] == k {
					na := append([]*Term(nil), old.args...)
					na[i+1] = v
					fr.mem[m] = w.T("map", "", na...)
					return
				}
			}
			fr.mem[m] = w.T("map", "", append(append([]*Term(nil), old.args...), k, v)...)
			return
		}
		put := w.T("put", "", w.dropKey(old, k), k, v)
		if p := fr.alreadyPut(old, k, v, typ); p != fFalse {
			put = w.Ite([]alt{{p, old}, {w.and(fr.cond, w.not(p)), put}})
		}
		fr.mem[m] = put
		return
	}
	fr.effect("mapput", "", []*Term{ev.snap(m, fr.mem), k, ev.snap(v, fr.mem)}, pos)
}

// alreadyPut is the part of the condition in force that is known to find the
// entry k of the map m to be v.
func (fr *frame) alreadyPut(m, k, v *Term, typ types.Type) F {
	ev, w := fr.ev, fr.ev.w
	mt, ok := typ.Underlying().(*types.Map)
	if !ok || fr.cond < 2 {
		return fFalse
	}
	known := map[int]bool{}
	for _, x := range w.support(fr.cond) {
		known[x] = true
	}
	h := ev.hasPut(m, k)
	if h < 2 {
		return fFalse
	}
	e := w.eq(w.lookup(m, k, mt.Elem()), v)
	if e < 2 {
		return fFalse
	}
	for _, f := range []F{h, e} {
		for _, x := range w.support(f) {
			if !known[x] {
				return fFalse
			}
		}
	}
	return w.simplifyF(w.and(fr.cond, w.and(h, e)))
}

// dropKey is the map m, or m without its entry k where that was put last.
func (w *World) dropKey(m, k *Term) *Term {
	switch {
	case m.op == "put" && m.args[1] == k:
		return w.dropKey(m.args[0], k)
	case m.op == "ite":
		as := make([]alt, len(m.alts))
		same := true
		for i, a := range m.alts {
			as[i] = alt{a.c, w.dropKey(a.t, k)}
			same = same && as[i].t == a.t
		}
		if !same {
			return w.iteRaw(as)
		}
	}
	return m
}

// justPut is the object itself when the entry k of the local map m was just
// put there, so that what is done to it is done to the object; nil otherwise.
func (fr *frame) justPut(m, k *Term, et types.Type) *Term {
	ev, w := fr.ev, fr.ev.w
	if m.op != "new" || m.s != "map" {
		return nil
	}
	raw, ok := fr.mem[m]
	if !ok {
		return nil
	}
	hit := func(t *Term) bool {
		return t.op == "put" && t.args[1] == k && (t.args[2].op == "new" || t.args[2].op == "sliceof")
	}
	if hit(raw) {
		return raw.args[2]
	}
	if raw.op != "ite" {
		return nil
	}
	any := false
	var as []alt
	for _, a := range raw.alts {
		if hit(a.t) {
			any = true
			as = append(as, alt{a.c, a.t.args[2]})
		} else {
			as = append(as, alt{a.c, ev.lookupPut(ev.snap(a.t, fr.mem), k, et)})
		}
	}
	if !any {
		return nil
	}
	return w.Ite(as)
}

// held is whether the map had the key when v was looked up in it, if nothing
// that the map holds is nil.
func (fr *frame) held(v ssa.Value) (F, bool) {
	l, ok := v.(*ssa.Lookup)
	if e, is := v.(*ssa.Extract); is && e.Index == 0 {
		l, ok = e.Tuple.(*ssa.Lookup)
	}
	if !ok || l == nil || !holdsNoNil(l.X) {
		return fFalse, false
	}
	h, ok := fr.has[l]
	return h, ok
}

// holdsNoNil: a map made here, into which nothing is put but what is made.
func holdsNoNil(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map != v || x.Key == v || x.Value == v || !madeHere(x.Value, map[ssa.Value]bool{}) {
				return false
			}
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Return:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "delete" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// madeHere is a value that was made, or came out of a map of such values.
func madeHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if madeOrNew(v) {
		return true
	}
	if call, ok := v.(*ssa.Call); ok {
		// append(s, x)
		if b, is := call.Call.Value.(*ssa.Builtin); is && b.Name() == "append" && len(call.Call.Args) == 2 {
			if sl, is := call.Call.Args[1].(*ssa.Slice); is && sl.Low == nil && sl.High == nil {
				if al, is := sl.X.(*ssa.Alloc); is {
					a, is := deref(al.Type()).Underlying().(*types.Array)
					return is && a.Len() > 0
				}
			}
		}
	}
	if p, ok := v.(*ssa.Phi); ok && !seen[p] {
		seen[p] = true
		for _, e := range p.Edges {
			if !madeHere(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (fr *frame) binop(x *ssa.BinOp) *Term {
	ev, w := fr.ev, fr.ev.w
	if x.Op == token.EQL || x.Op == token.NEQ {
		// nothing but what a map of non-nil values does not hold is nil
		for _, q := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if !isNilK(q[1]) {
				continue
			}
			if has, ok := fr.held(q[0]); ok {
				if x.Op == token.EQL {
					has = w.not(has)
				}
				return w.Bool(has)
			}
		}
	}
	a, b := ev.snapVal(fr.val(x.X), fr.mem), ev.snapVal(fr.val(x.Y), fr.mem)
	switch x.Op {
	case token.EQL:
		return w.Bool(w.eq(a, b))
	case token.NEQ:
		return w.Bool(w.not(w.eq(a, b)))
	case token.LSS:
		return w.Bool(w.lt(a, b))
	case token.GTR:
		return w.Bool(w.lt(b, a))
	case token.LEQ:
		return w.Bool(w.not(w.lt(b, a)))
	case token.GEQ:
		return w.Bool(w.not(w.lt(a, b)))
	case token.ADD:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return w.strcat(a, b)
		}
		if a.isInt() && b.isInt() {
			return w.Int(a.n + b.n)
		}
		if b.isInt() {
			return w.lift([]*Term{a}, func(t []*Term) *Term { return w.addInt(t[0], b.n) })
		}
		if a.isInt() {
			return w.lift([]*Term{b}, func(t []*Term) *Term { return w.addInt(t[0], a.n) })
		}
		if a.canon() > b.canon() {
			a, b = b, a
		}
	case token.SUB:
		if a.isInt() && b.isInt() {
			return w.Int(a.n - b.n)
		}
		if b.isInt() {
			return w.lift([]*Term{a}, func(t []*Term) *Term { return w.addInt(t[0], -b.n) })
		}
	}
	return w.lift([]*Term{a, b}, func(t []*Term) *Term { return w.T("bin", x.Op.String(), t...) })
}

// snapVal snapshots values that are compared, but keeps object identity for nil tests.
func (ev *Eval) snapVal(t *Term, m Mem) *Term {
	if t.op == "new" || t.op == "closure" || t.op == "func" || t.op == "sliceof" {
		return t
	}
	return ev.snap(t, m)
}

func (fr *frame) mkDefer(c *ssa.CallCommon, pos token.Pos) deferred {
	d := deferred{cond: fr.cond, call: c, pos: pos}
	if c.IsInvoke() {
		d.fnv = fr.val(c.Value)
	} else {
		d.fnv = fr.val(c.Value)
	}
	for _, a := range c.Args {
		d.args = append(d.args, fr.val(a))
	}
	return d
}

func (fr *frame) callInstr(c *ssa.CallCommon, pos token.Pos, typ types.Type) *Term {
	d := fr.mkDefer(c, pos)
	return fr.doCall(c, d.fnv, d.args, pos, typ)
}

func (fr *frame) doCall(c *ssa.CallCommon, fnv *Term, args []*Term, pos token.Pos, typ types.Type) *Term {
	ev := fr.ev
	if typ == nil {
		typ = c.Signature().Results()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(b, c, args, pos, typ)
	}
	if c.IsInvoke() {
		recv := fnv
		if ct := ev.concrete(recv); ct != nil {
			if m := ev.p.SSA.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil && !ev.inlinable(m) {
				return fr.opaque(shortFn(m), append([]*Term{recv}, args...), pos, typ, m)
			}
			if _, ptr := ct.(*types.Pointer); !ptr {
				recv = ev.load(fr.mem, recv, ct)
			}
			if m := ev.p.SSA.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil && ev.inlinable(m) {
				return fr.inline(m, append([]*Term{recv}, args...), nil, pos)
			}
			if m := ev.p.SSA.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil {
				return fr.opaque(shortFn(m), append([]*Term{recv}, args...), pos, typ, m)
			}
		}
		name := shortName("(" + typeString(c.Value.Type()) + ")." + c.Method.Name())
		return fr.opaque(name, append([]*Term{recv}, args...), pos, typ, nil)
	}
	if fn := c.StaticCallee(); fn != nil {
		if ev.inlinable(fn) {
			var free []*Term
			if fnv.op == "closure" {
				free = fnv.args
			}
			return fr.inline(fn, args, free, pos)
		}
		return fr.opaque(ev.calleeName(fn), args, pos, typ, fn)
	}
	save := fr.dynSig
	fr.dynSig = c.Signature()
	defer func() { fr.dynSig = save }()
	return fr.dyn(fnv, args, pos, typ)
}

func typeString(t types.Type) string { return types.TypeString(t, nil) }

func (fr *frame) dyn(fnv *Term, args []*Term, pos token.Pos, typ types.Type) *Term {
	ev, w := fr.ev, fr.ev.w
	if (fnv.op == "closure" || fnv.op == "func") && fnv.fn != nil {
		if ev.inlinable(fnv.fn) {
			return fr.inline(fnv.fn, args, fnv.args, pos)
		}
		return fr.opaque(ev.calleeName(fnv.fn), args, pos, typ, fnv.fn)
	}
	if fnv.op == "ite" {
		var alts []alt
		var mems []Mem
		var conds []F
		base := fr.mem
		saveC := fr.cond
		for _, a := range fnv.alts {
			c := w.simplifyF(w.and(saveC, a.c))
			if c == fFalse {
				continue
			}
			fr.mem = base.clone()
			fr.cond = c
			r := fr.dyn(a.t, args, pos, typ)
			alts = append(alts, alt{a.c, r})
			mems = append(mems, fr.mem)
			conds = append(conds, a.c)
		}
		fr.cond = saveC
		if len(mems) > 0 {
			fr.mem = ev.mergeMem(mems, conds)
		}
		return w.Ite(alts)
	}
	name := "dyn:" + ev.snap(fnv, fr.mem).canon()
	return fr.opaque(name, args, pos, typ, nil)
}

func (ev *Eval) calleeName(fn *ssa.Function) string {
	for _, s := range ev.stack {
		if s == fn {
			return "rec"
		}
	}
	n := shortFn(fn)
	if ev.pol.Rename != nil {
		n = ev.pol.Rename(n)
	}
	return n
}

// box keeps the dynamic type of a struct value with methods.
func (fr *frame) box(x *ssa.MakeInterface) *Term {
	v := fr.val(x.X)
	if s, ok := x.X.Type().Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return fr.ev.w.T("bytes", "", v) // not printed like a text
		}
	}
	n, ok := x.X.Type().(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) || n.NumMethods()+fr.ev.p.SSA.MethodSets.MethodSet(n).Len() == 0 {
		return v
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return v
	}
	b := fr.ev.newObj("box", types.NewPointer(n), fr.mem)
	fr.mem[b] = v
	return b
}

func (ev *Eval) concrete(t *Term) types.Type {
	switch t.op {
	case "new":
		if t.s == "box" {
			return t.typ.(*types.Pointer).Elem()
		}
		if t.s != "cell" || t.typ == nil {
			return nil
		}
		// an object that holds a struct
		if structOf(t.typ) == nil {
			return nil
		}
		return t.typ
	case "ite":
		var r types.Type
		for _, a := range t.alts {
			c := ev.concrete(a.t)
			if c == nil || (r != nil && !types.Identical(r, c)) {
				return nil
			}
			r = c
		}
		return r
	}
	return nil
}

func (ev *Eval) inlinable(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		// synthesized wrapper: bound method, promoted method
		if fn.Object() == nil || fn.Object().Pkg() == nil || !inModule(fn.Object().Pkg()) {
			return false
		}
	} else if !inModule(pk.Pkg) {
		return false
	}
	for _, s := range ev.stack {
		if s == fn {
			return false
		}
	}
	if ev.pol.Opaque != nil && ev.pol.Opaque(fn) {
		return false
	}
	return len(ev.stack) < 40
}

func (fr *frame) inline(fn *ssa.Function, args, free []*Term, pos token.Pos) *Term {
	ev, w := fr.ev, fr.ev.w
	ev.callPos, ev.callPC = append(ev.callPos, pos), append(ev.callPC, fr.cond)
	sub := ev.call(fn, args, free, fr.mem)
	ev.callPos, ev.callPC = ev.callPos[:len(ev.callPos)-1], ev.callPC[:len(ev.callPC)-1]
	for _, e := range sub.effects {
		e.cond = w.simplifyF(w.and(fr.cond, e.cond))
		if e.cond != fFalse {
			fr.effects = append(fr.effects, e)
		}
	}
	if len(sub.rets) == 0 {
		fr.cond = fFalse
		return w.T("dead", "")
	}
	var mems []Mem
	var conds []F
	tot := fFalse
	for _, r := range sub.rets {
		mems = append(mems, r.mem)
		conds = append(conds, r.cond)
		tot = w.or(tot, r.cond)
	}
	if len(mems) == 1 {
		fr.mem = mems[0].clone()
	} else {
		fr.mem = ev.mergeMem(mems, conds)
	}
	tot = w.simplifyF(tot)
	if tot != fTrue {
		fr.cond = w.simplifyF(w.and(fr.cond, tot))
	}
	n := len(sub.rets[0].vals)
	res := make([]*Term, n)
	for i := 0; i < n; i++ {
		var alts []alt
		for _, r := range sub.rets {
			alts = append(alts, alt{r.cond, r.vals[i]})
		}
		if len(alts) == 1 {
			res[i] = alts[0].t
		} else {
			res[i] = fr.merge(alts)
		}
	}
	switch n {
	case 0:
		return w.T("tuple", "")
	case 1:
		return res[0]
	}
	return w.T("tuple", "", res...)
}

func (fr *frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []*Term, pos token.Pos, typ types.Type) *Term {
	ev, w := fr.ev, fr.ev.w
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		if a.op == "new" && a.s == "chan" {
			return w.T("len", "", w.T("chan", ""))
		}
		return w.lenOf(ev.snap(a, fr.mem))
	case "append":
		parts := make([]*Term, 0, len(args))
		for i, a := range args {
			if i > 0 {
				a = ev.snapList(a, fr.mem)
			} else if a.op == "sliceof" || (a.op == "new" && a.s == "slice") {
				a = ev.snapList(a, fr.mem)
			}
			parts = append(parts, a)
		}
		if t := w.appendString(c, parts); t != nil {
			return t
		}
		return w.lift(parts[:1], func(x []*Term) *Term {
			return w.cat(append([]*Term{x[0]}, parts[1:]...)...)
		})
	case "delete":
		m, k := args[0], ev.snap(args[1], fr.mem)
		if m.op == "new" && m.s == "map" {
			old, ok := fr.mem[m]
			if !ok {
				old = w.T("map", "")
			}
			fr.mem[m] = w.T("del", "", old, k)
		} else {
			fr.effect("mapdel", "", []*Term{ev.snap(m, fr.mem), k}, pos)
		}
		return w.T("tuple", "")
	case "copy":
		if args[0].op == "new" && args[0].s == "slice" {
			old, ok := fr.mem[args[0]]
			if !ok {
				old = w.Nil()
			}
			fr.mem[args[0]] = w.cat(old, ev.snapList(args[1], fr.mem))
		} else {
			fr.effect("copy", "", ev.snaps(args, fr.mem), pos)
		}
		return w.T("copied", "")
	case "close":
		fr.effect("close", "", ev.snaps(args, fr.mem), pos)
		return w.T("tuple", "")
	case "panic":
		fr.effect("panic", "", nil, pos)
		return w.T("tuple", "")
	case "recover":
		return w.T("recover", "")
	case "ssa:wrapnilchk":
		return args[0]
	}
	return w.lift(ev.snaps(args, fr.mem), func(a []*Term) *Term { return w.T("builtin", b.Name(), a...) })
}

// snapList snapshots the slice value but not the objects in it.
func (ev *Eval) snapList(a *Term, m Mem) *Term {
	switch {
	case a.op == "sliceof":
		o := a.args[0]
		if at, ok := locType(o).Underlying().(*types.Array); ok {
			return ev.arrayAt(m, o, at)
		}
	case a.op == "new" && a.s == "slice":
		if v, ok := m[a]; ok && !ev.hasSub(m, a) {
			return v
		}
		return ev.snap(a, m)
	}
	return a
}

func (ev *Eval) snaps(args []*Term, m Mem) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = ev.snap(a, m)
	}
	return out
}

// opaque models a call whose body is not followed.
func (fr *frame) opaque(name string, args []*Term, pos token.Pos, typ types.Type, fn *ssa.Function) *Term {
	ev, w := fr.ev, fr.ev.w
	if ev.pol.Ignore(name) {
		return fr.resultOf(w.T("ignored", ""), typ)
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		return w.T("err", "")
	case "fmt.Sprintf":
		ok := true
		t := w.lift(ev.snaps(args, fr.mem), func(a []*Term) *Term {
			if r := ev.sprintf(a); r != nil {
				return r
			}
			ok = false
			return a[0]
		})
		if ok {
			return t
		}
	case "strings.ToUpper", "strings.ToLower":
		if args[0].isStr() {
			if name == "strings.ToUpper" {
				return w.Str(strings.ToUpper(args[0].str()))
			}
			return w.Str(strings.ToLower(args[0].str()))
		}
	case "strings.Join", "strings.Replace", "strings.Cut", "strings.SplitN", "strings.ContainsRune", "strings.ContainsAny", "path/filepath.Join", "strconv.FormatInt", "fmt.Sprint", "strings.TrimSpace", "path/filepath.Clean", "go.uber.org/multierr.Append":
		ok := true
		s := ev.snaps(args, fr.mem)
		t := w.lift(s, func(a []*Term) *Term {
			if r := fr.stdcall(name, a, typ); r != nil {
				return r
			}
			ok = false
			return a[0]
		})
		if ok {
			return t
		}
	case "strings.HasPrefix", "strings.HasSuffix":
		if len(args) == 2 && args[1].isStr() {
			s := ev.snaps(args, fr.mem)
			return w.lift(s[:1], func(a []*Term) *Term { return w.Bool(fr.affix(name, a[0], s[1].str())) })
		}
	case "strings.TrimPrefix", "strings.TrimSuffix":
		// what is cut off where it is there
		if len(args) == 2 && args[1].isStr() {
			s := ev.snaps(args, fr.mem)
			n := int64(len(s[1].str()))
			return ev.under(w.lift(s[:1], func(a []*Term) *Term {
				t := w.T("slice", "", a[0], w.Int(n), w.T("end", ""))
				has := "strings.HasPrefix"
				if name == "strings.TrimSuffix" {
					t = w.T("slice", "", a[0], w.Int(0), w.addInt(w.lenOf(a[0]), -n))
					has = "strings.HasSuffix"
				}
				f := fr.affix(has, a[0], s[1].str())
				return w.Ite([]alt{{f, t}, {w.not(f), a[0]}})
			}), fr.pc())
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		// an empty buffer, like &bytes.Buffer{}
		if len(args) == 1 && (args[0].isNil() || args[0].isStr() && args[0].str() == "") {
			return ev.newObj("cell", typ, fr.mem)
		}
	}
	if n := fprint[name]; n {
		s := ev.snaps(args, fr.mem)
		if t := ev.printed(name, s); t != nil {
			name, args = "fmt.Fprint", []*Term{args[0], w.T("list", "", t)}
		}
	}
	if name == "(*github.com/spf13/cobra.Command).AddCommand" && len(args) == 2 && ev.snap(args[1], fr.mem).op == "list" && len(ev.snap(args[1], fr.mem).args) > 1 {
		var r *Term
		for _, c := range ev.snap(args[1], fr.mem).args {
			r = fr.opaque(name, []*Term{args[0], w.T("list", "", c)}, pos, typ, fn)
		}
		return r
	}
	pure := optionType(typ) || ev.pol.Pure(name) || fn != nil && fn.Name() != "OnStart" && fn.Name() != "Finally" && ev.fnPure(fn)
	sargs := ev.snaps(args, fr.mem)
	for i, a := range sargs {
		if a.op == "list" || a.op == "ite" || a.op == "cat" {
			sargs[i] = fr.options(a)
		}
	}
	if n := len(sargs); n > 0 && concatenates(name) {
		sargs[n-1] = w.pieces(sargs[n-1])
	}
	if !pure {
		pc := fr.pc()
		for i, a := range sargs {
			if a.op == "struct" {
				sargs[i] = ev.under(a, pc)
			}
		}
	}
	// remember the dynamic types handed to other code
	for i, a := range args {
		if i == 1 && strings.HasSuffix(name, ").Accept") && a.op == "param" && a.s == "v" {
			sargs[i] = w.T("visitor", "")
		}
		if ct := ev.concrete(a); ct != nil {
			if i == 1 && strings.HasSuffix(name, ").Accept") {
				sargs[i] = w.T("visitor", "")
			}
			ev.visitTs[ct.String()] = ct
			if i == 0 && fn != nil && (fn.Name() == "OnStart" || fn.Name() == "Finally") {
				sargs[i] = w.T("visitor", "")
				name = "visitor." + fn.Name()
				ev.visits = append(ev.visits, visit{a, ct, fr.mem.clone()})
			}
			if strings.HasSuffix(name, ").Accept") {
				ev.visits = append(ev.visits, visit{a, ct, fr.mem.clone()})
			}
		}
	}
	// what a call with effects returns may differ in every iteration
	cargs := sargs
	if !pure && len(ev.loopSt) > 0 {
		fv := map[*Term]bool{}
		for _, a := range sargs {
			for v := range a.freeVars() {
				fv[v] = true
			}
		}
		for _, b := range ev.loopBd {
			if !fv[b] {
				cargs = append(append([]*Term(nil), cargs...), w.T("in", "", b))
			}
		}
	}
	call := w.lift(cargs, func(a []*Term) *Term {
		t := w.intern(&Term{op: "call", s: name, args: a, typ: typ})
		if !pure {
			if n := fr.ordinal(t, name, fn, pos); n > 0 {
				t = w.intern(&Term{op: "call", s: name, args: append(append([]*Term(nil), a...), w.T("again", "", w.Int(int64(n)))), typ: typ})
			}
		}
		return t
	})
	if ev.pol.Seq != nil && ev.pol.Seq(name) {
		tc := ev.traceCell()
		old, ok := fr.mem[tc]
		if !ok {
			old = w.T("list", "")
		}
		fr.mem[tc] = w.cat(old, w.T("list", "", w.T("ev", name, sargs...)))
	} else if !pure {
		fr.effect("call", name, sargs, pos)
	}
	// callbacks
	if name != "rec" {
		for _, a := range args {
			fr.callback(a, pos)
		}
	}
	// an order given to a list is what was done to it (the effect above), not
	// another value: a list built in another way has no place to keep it
	if !pure && !strings.HasPrefix(name, "sort.") && !(ev.pol.Keeps != nil && ev.pol.Keeps(name)) {
		fr.writers = nil
		if fn != nil && fn.Blocks != nil {
			fr.writers = []*ssa.Function{fn}
		} else if fr.dynSig != nil && strings.HasPrefix(name, "dyn:") {
			fr.writers = ev.p.takenLike(fr.dynSig)
		}
		for i, a := range args {
			fr.havoc(a, w.intern(&Term{op: "out", s: fmt.Sprint(i), n: int64(i), args: []*Term{call}}))
		}
	}
	return fr.resultOf(call, typ)
}

// fprint are the functions that print to a writer.
var fprint = map[string]bool{"fmt.Fprint": true, "fmt.Fprintln": true, "fmt.Fprintf": true, "io.WriteString": true}

// printed is the text a call of one of the functions prints, or nil.
func (ev *Eval) printed(name string, a []*Term) *Term {
	w := ev.w
	switch {
	case name == "io.WriteString" && len(a) == 2:
		return a[1]
	case name == "fmt.Fprintf" && len(a) == 3:
		return ev.sprintf(a[1:])
	case len(a) != 2 || a[1].op != "list":
		return nil
	case name == "fmt.Fprint" && len(a[1].args) == 1:
		return w.strcat(a[1].args[0])
	case name == "fmt.Fprintln":
		var out []*Term
		for i, x := range a[1].args {
			if i > 0 {
				out = append(out, w.Str(" "))
			}
			out = append(out, x)
		}
		return w.strcat(append(out, w.Str("\n"))...)
	}
	return nil
}

// isOption reports whether t is one of this module's option types: functions
// that set one thing each.
func optionType(t types.Type) bool {
	if tt, ok := t.(*types.Tuple); ok && tt.Len() == 1 {
		t = tt.At(0).Type()
	}
	n, ok := t.(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) || !strings.HasSuffix(n.Obj().Name(), "Option") {
		return false
	}
	_, ok = n.Underlying().(*types.Signature)
	return ok
}

// options is a list of options as the options it has, each with the condition
// under which it does: what they set does not depend on the order. Nothing is
// changed about other lists.
func (fr *frame) options(t *Term) *Term {
	w := fr.ev.w
	cond := map[*Term]F{}
	var order []*Term
	var collect func(t *Term, c F) bool
	collect = func(t *Term, c F) bool {
		if c = w.simplifyF(c); c == fFalse {
			return true
		}
		switch {
		case t.op == "list":
			for _, a := range t.args {
				if a.op != "call" || a.typ == nil || !optionType(a.typ) {
					return false
				}
				if _, ok := cond[a]; !ok {
					order = append(order, a)
					cond[a] = fFalse
				} else if w.and(cond[a], c) != fFalse {
					return false
				}
				cond[a] = w.or(cond[a], c)
			}
			return true
		case t.op == "cat":
			for _, a := range t.args {
				if !collect(a, c) {
					return false
				}
			}
			return true
		case t.op == "ite":
			for _, a := range t.alts {
				if !collect(a.t, w.and(c, a.c)) {
					return false
				}
			}
			return true
		}
		return t.isNil()
	}
	pc := fr.pc()
	if !collect(t, pc) || len(order) == 0 {
		return t
	}
	for i, a := range order {
		for _, b := range order[:i] {
			if a.s == b.s && w.simplifyF(w.and(cond[a], cond[b])) != fFalse {
				return t
			}
		}
	}
	sort.Slice(order, func(i, j int) bool {
		if order[i].s != order[j].s {
			return order[i].s < order[j].s
		}
		return order[i].canon() < order[j].canon()
	})
	var parts []*Term
	for _, a := range order {
		parts = append(parts, w.Ite([]alt{{cond[a], w.T("list", "", a)}, {w.and(pc, w.not(cond[a])), w.Nil()}}))
	}
	return w.T("options", "", parts...)
}

// stdcall is what a call of a library function comes to in terms of another,
// or nil.
func (fr *frame) stdcall(name string, a []*Term, typ types.Type) *Term {
	w := fr.ev.w
	call := func(name string, a ...*Term) *Term {
		return w.intern(&Term{op: "call", s: name, args: a, typ: typ})
	}
	str := types.Typ[types.String]
	switch name {
	case "strings.Join":
		if len(a) != 2 {
			return nil
		}
		if a[0].op == "list" {
			var out []*Term
			for i, x := range a[0].args {
				if i > 0 {
					out = append(out, a[1])
				}
				out = append(out, x)
			}
			return w.strcat(out...)
		}
		if l := a[0]; l.op == "call" && l.s == "strings.Split" && len(l.args) == 2 && l.args[1].isStr() && l.args[1].str() != "" {
			return call("strings.ReplaceAll", l.args[0], l.args[1], a[1])
		}
	case "strings.Replace":
		if len(a) == 4 && a[3].isInt() && a[3].n < 0 {
			return call("strings.ReplaceAll", a[:3]...)
		}
	case "strings.SplitN":
		if len(a) == 3 && a[2].isInt() && a[2].n < 0 {
			return call("strings.Split", a[:2]...)
		}
	case "strings.Cut":
		if len(a) == 2 && a[1].isStr() && a[1].str() != "" {
			l := w.intern(&Term{op: "call", s: "strings.SplitN", args: []*Term{a[0], a[1], w.Int(2)}, typ: types.NewSlice(str)})
			found := w.eq(w.lenOf(l), w.Int(2))
			at := func(i int64) *Term { return w.T("index", "", l, w.Int(i)) }
			return w.T("tuple", "", at(0), w.Ite([]alt{{found, at(1)}, {w.not(found), w.Str("")}}), w.Bool(found))
		}
	case "strings.ContainsRune":
		if len(a) == 2 && a[1].isInt() && a[1].n > 0 && a[1].n < 0x80 {
			return fr.stdbool(call("strings.Contains", a[0], w.Str(string(rune(a[1].n)))))
		}
	case "strings.ContainsAny":
		if len(a) == 2 && a[1].isStr() && len(a[1].str()) == 1 && a[1].str()[0] < 0x80 {
			return fr.stdbool(call("strings.Contains", a[0], a[1]))
		}
	case "path/filepath.Join":
		if len(a) == 1 && a[0].op == "list" && len(a[0].args) > 0 {
			// a path put together in steps
			if f := a[0].args[0]; f.op == "call" && f.s == name && len(f.args) == 1 && f.args[0].op == "list" {
				return call(name, w.T("list", "", append(append([]*Term(nil), f.args[0].args...), a[0].args[1:]...)...))
			}
		}
	case "path/filepath.Clean":
		// what is cleaned already
		if len(a) == 1 && a[0].op == "call" {
			switch a[0].s {
			case "path/filepath.Clean", "path/filepath.Join", "path/filepath.Dir":
				return a[0]
			}
		}
		if len(a) == 1 {
			return call(name, a[0])
		}
	case "strconv.FormatInt":
		if len(a) == 2 && a[1].isInt() && a[1].n == 10 {
			return call("strconv.Itoa", a[0])
		}
	case "fmt.Sprint":
		if len(a) == 1 && a[0].op == "list" && len(a[0].args) == 1 {
			return w.strcat(a[0].args[0])
		}
	case "strings.TrimSpace":
		if len(a) == 1 && a[0].op == "call" && a[0].s == name {
			return a[0]
		}
	case "go.uber.org/multierr.Append":
		// the one there is, where there is one only
		if len(a) == 2 {
			l, r := w.eq(a[0], w.Nil()), w.eq(a[1], w.Nil())
			return w.Ite([]alt{{l, a[1]}, {w.and(w.not(l), r), a[0]}, {w.and(w.not(l), w.not(r)), call(name, a...)}})
		}
	}
	return nil
}

// cutAt is the part before or after the first separator in a text, as a part of
// its split, when that is what the bounds take; nil otherwise.
func (w *World) cutAt(t, lo, hi *Term) *Term {
	sep := func(ix *Term) *Term {
		if ix.op != "call" || len(ix.args) != 2 || ix.args[0] != t {
			return nil
		}
		switch c := ix.args[1]; {
		case ix.s == "strings.Index" && c.isStr() && c.str() != "":
			return c
		case (ix.s == "strings.IndexByte" || ix.s == "strings.IndexRune") && c.isInt() && c.n > 0 && c.n < 0x80:
			return w.Str(string(rune(c.n)))
		}
		return nil
	}
	part := func(c *Term, i int64) *Term {
		l := w.intern(&Term{op: "call", s: "strings.SplitN", args: []*Term{t, c, w.Int(2)}, typ: types.NewSlice(types.Typ[types.String])})
		return w.T("index", "", l, w.Int(i))
	}
	if lo.isInt() && lo.n == 0 {
		if c := sep(hi); c != nil {
			return part(c, 0)
		}
	}
	if hi.op == "end" && lo.op == "plus" && lo.args[1].isInt() {
		if c := sep(lo.args[0]); c != nil && lo.args[1].n == int64(len(c.str())) {
			return part(c, 1)
		}
	}
	return nil
}

func (fr *frame) stdbool(t *Term) *Term { return fr.ev.w.Bool(fr.ev.w.boolF(t)) }

// pc is the condition under which the function is where it is.
func (fr *frame) pc() F {
	c := fr.cond
	for _, d := range fr.ev.callPC {
		c = fr.ev.w.and(c, d)
	}
	return c
}

// affix is the formula that text t begins or ends with s.
func (fr *frame) affix(name string, t *Term, s string) F {
	w := fr.ev.w
	switch {
	case s == "":
		return fTrue
	case t.isStr() && name == "strings.HasPrefix":
		return w.truth(strings.HasPrefix(t.str(), s))
	case t.isStr():
		return w.truth(strings.HasSuffix(t.str(), s))
	case len(s) == 1 && name == "strings.HasPrefix":
		return w.and(w.not(w.eq(w.lenOf(t), w.Int(0))), w.eq(w.index(t, w.Int(0)), w.Int(int64(s[0]))))
	}
	return w.fvar(w.intern(&Term{op: "call", s: name, args: []*Term{t, w.Str(s)}, typ: types.Typ[types.Bool]}))
}

// ordinal counts the calls of other modules that have effects and the same
// arguments, and may happen before this one: each may return something else.
func (fr *frame) ordinal(t *Term, name string, fn *ssa.Function, pos token.Pos) int {
	ev, w := fr.ev, fr.ev.w
	if fn == nil && !strings.HasPrefix(name, "(io.") {
		return 0
	}
	if fn != nil && (fn.Pkg == nil || inModule(fn.Pkg.Pkg)) {
		return 0
	}
	cond := fr.cond
	var b strings.Builder
	for i, p := range ev.callPos {
		fmt.Fprintf(&b, "%d/", p)
		cond = w.and(cond, ev.callPC[i])
	}
	fmt.Fprintf(&b, "%d", pos)
	site := b.String()
	if ev.occ == nil {
		ev.occ = map[*Term][]occurrence{}
	}
	n := 0
	for i, o := range ev.occ[t] {
		if o.site == site {
			ev.occ[t][i].cond = cond
			return o.n
		}
		if w.simplifyF(w.and(o.cond, cond)) != fFalse && o.n >= n {
			n = o.n + 1
		}
	}
	ev.occ[t] = append(ev.occ[t], occurrence{site, cond, n})
	return n
}

func (fr *frame) resultOf(call *Term, typ types.Type) *Term {
	w := fr.ev.w
	if tt, ok := typ.(*types.Tuple); ok {
		if tt.Len() == 1 {
			return fr.typed(call, tt.At(0).Type())
		}
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			r := w.lift([]*Term{call}, func(a []*Term) *Term {
				return w.intern(&Term{op: "ret", n: int64(i), s: fmt.Sprint(i), args: []*Term{a[0]}, typ: tt.At(i).Type()})
			})
			rs = append(rs, r)
		}
		return w.T("tuple", "", rs...)
	}
	return fr.typed(call, typ)
}

func (fr *frame) typed(t *Term, typ types.Type) *Term {
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return fr.ev.w.Bool(fr.ev.w.boolF(t))
	}
	return t
}

func (fr *frame) havoc(a, out *Term) {
	switch a.op {
	case "ite":
		for _, x := range a.alts {
			fr.havoc(x.t, out)
		}
	case "sliceof":
		fr.havoc(a.args[0], out)
	case "new":
		if a.s == "chan" || a.s == "box" {
			return
		}
		if fr.havocFields(a, out) {
			return
		}
		fr.ev.killSub(fr.mem, a)
		fr.mem[a] = out
	case "addrf", "addri":
		if rootOf(a).op == "new" {
			fr.ev.killSub(fr.mem, a)
			fr.mem[a] = out
		}
	case "list":
		for _, x := range a.args {
			if x.op == "new" {
				fr.havoc(x, out)
			}
		}
	}
}

// havocFields forgets the fields of a module struct that are ever stored to
// after construction; the others cannot change.
func (fr *frame) havocFields(a, out *Term) bool {
	ev := fr.ev
	t := locType(a)
	n, ok := t.(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	mut := ev.p.mutableBy(fr.writers, n)
	for i := 0; i < st.NumFields(); i++ {
		name := fieldName(st, i)
		loc := ev.addrField(a, name, types.NewPointer(st.Field(i).Type()))
		o := ev.w.fieldOf(out, name, st.Field(i).Type())
		if _, isSt := st.Field(i).Type().Underlying().(*types.Struct); isSt && fr.havocFields(loc, o) {
			continue
		}
		if !mut[i] && !isExternalStruct(st.Field(i).Type()) {
			continue
		}
		ev.killSub(fr.mem, loc)
		fr.mem[loc] = o
	}
	return true
}

func isExternalStruct(t types.Type) bool {
	_, st := t.Underlying().(*types.Struct)
	return st
}

// callback evaluates a function value that opaque code may call.
func (fr *frame) callback(a *Term, pos token.Pos) {
	ev, w := fr.ev, fr.ev.w
	if a.op == "ite" {
		for _, x := range a.alts {
			save := fr.cond
			fr.cond = w.simplifyF(w.and(fr.cond, x.c))
			if fr.cond != fFalse {
				fr.callback(x.t, pos)
			}
			fr.cond = save
		}
		return
	}
	if a.op == "sliceof" && len(a.args) == 1 {
		return
	}
	if (a.op != "closure" && a.op != "func") || a.fn == nil || a.fn.Blocks == nil || !ev.inlinable(a.fn) {
		return
	}
	ev.cbDepth++
	var params []*Term
	for i, p := range a.fn.Params {
		params = append(params, w.intern(&Term{op: "param", s: fmt.Sprintf("cb%d_%d", ev.cbDepth, i), typ: p.Type()}))
	}
	pre := fr.mem
	// it can be called any number of times: a variable it changes can have
	// been changed by an earlier call
	start := pre.clone()
	sub := ev.callFrom(a, params, start, pos, fr.cond)
	for n := 0; n < 2; n++ {
		again := false
		for k, v := range ev.memAfter(sub) {
			if k.op == "exists" {
				continue
			}
			if x := rootOf(k); x.op == "new" && !ev.objIn(pre, x) {
				continue
			}
			old, ok := pre[k]
			if !ok {
				old = ev.loadDefault(pre, k)
			}
			if old == nil || old == v || start[k] != nil && start[k].op == "cbcur" {
				continue
			}
			t := v.typ
			if t == nil {
				t = old.typ
			}
			start[k] = w.intern(&Term{op: "cbcur", args: []*Term{old, v}, typ: t})
			again = true
		}
		if !again {
			break
		}
		sub = ev.callFrom(a, params, start, pos, fr.cond)
	}
	ev.cbDepth--
	for _, e := range sub.effects {
		e.cond = w.simplifyF(w.and(fr.cond, e.cond))
		if e.cond != fFalse {
			fr.effects = append(fr.effects, e)
		}
	}
	if len(sub.rets) == 0 {
		return
	}
	rets := sub.rets
	if res := a.fn.Signature.Results(); res.Len() == 1 && isBool(res.At(0).Type()) {
		// one value, however many return statements give it
		f, tot := fFalse, fFalse
		for _, r := range sub.rets {
			tot = w.or(tot, r.cond)
			f = w.or(f, w.and(r.cond, w.boolF(ev.snap(r.vals[0], r.mem))))
		}
		save := fr.cond
		fr.cond = w.simplifyF(w.and(fr.cond, tot))
		if fr.cond != fFalse {
			fr.effect("cbret", "", []*Term{w.Bool(w.constrain(f, fr.cond))}, pos)
		}
		fr.cond = save
		rets = nil
	}
	for _, r := range ev.groupRets(rets) {
		if len(r.vals) > 0 {
			save := fr.cond
			r.typs = a.fn.Signature.Results()
			r.cond = w.simplifyF(w.and(fr.cond, r.cond))
			if r.cond != fFalse {
				ev.expandRet(r, func(c F, vals []*Term) {
					fr.cond = c
					fr.effect("cbret", "", vals, pos)
				})
			}
			fr.cond = save
		}
	}
	after := ev.memAfter(sub)
	nm := pre.clone()
	for k, v := range after {
		if k.op == "exists" {
			continue
		}
		if r := rootOf(k); r.op == "new" && !ev.objIn(pre, r) {
			continue
		}
		old, ok := pre[k]
		if !ok {
			old = ev.loadDefault(pre, k)
		}
		if old != v {
			nm[k] = w.T("cbmu", "", old, v)
		}
	}
	fr.mem = nm
}

// memAfter is the memory when the function returned, on whatever path.
func (ev *Eval) memAfter(sub *frame) Mem {
	if len(sub.rets) == 0 {
		return nil
	}
	if len(sub.rets) == 1 {
		return sub.rets[0].mem
	}
	var mems []Mem
	var conds []F
	for _, r := range sub.rets {
		mems = append(mems, r.mem)
		conds = append(conds, r.cond)
	}
	return ev.mergeMem(mems, conds)
}

func (ev *Eval) callFrom(a *Term, params []*Term, mem Mem, pos token.Pos, cond F) *frame {
	ev.callPos, ev.callPC = append(ev.callPos, pos), append(ev.callPC, cond)
	sub := ev.call(a.fn, params, a.args, mem.clone())
	ev.callPos, ev.callPC = ev.callPos[:len(ev.callPos)-1], ev.callPC[:len(ev.callPC)-1]
	return sub
}

// sprintf turns simple formats in a concatenation.
func (ev *Eval) sprintf(args []*Term) *Term {
	w := ev.w
	if len(args) != 2 || !args[0].isStr() {
		return nil
	}
	var rest []*Term
	switch {
	case args[1].op == "list":
		rest = args[1].args
	case args[1].isNil():
	default:
		return nil
	}
	f := args[0].str()
	if f == "%d" && len(rest) == 1 && !rest[0].isInt() {
		return w.intern(&Term{op: "call", s: "strconv.Itoa", args: rest, typ: types.Typ[types.String]})
	}
	var out []*Term
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if f[i] != 's' && f[i] != 'v' && f[i] != 'd' || k >= len(rest) {
			return nil
		}
		arg := rest[k]
		if f[i] == 's' && arg.op == "bytes" {
			arg = arg.args[0]
		}
		out = append(out, w.Str(lit), arg)
		lit = ""
		k++
	}
	out = append(out, w.Str(lit))
	return w.strcat(out...)
}

// ---------------------------------------------------------------- globals

// globalConst returns the constant initial value of a package variable, or nil.
func (ev *Eval) globalConst(addr *Term) *Term {
	if g, ok := globOf[addr.s]; ok {
		sp := g.Pkg
		if t, ok := ev.globals[g]; ok {
			return t
		}
		if ev.initing[sp] || ev.isMutated(g) {
			return nil
		}
		t := ev.globalInit(g)
		if t != nil && !ev.constLike(t, 0) {
			t = nil
		}
		ev.globals[g] = t
		return t
	}
	return nil
}

// globalInit is the value of g after package initialisation, snapshotted.
func (ev *Eval) globalInit(g *ssa.Global) *Term {
	m := ev.pkgInit(g.Pkg)
	v, ok := m[ev.globAddr(g)]
	if !ok {
		return nil
	}
	return ev.snap(v, m)
}

func (ev *Eval) pkgInit(sp *ssa.Package) Mem {
	if m, ok := ev.initMem[sp]; ok {
		return m
	}
	ev.initing[sp] = true
	init := sp.Func("init")
	guard := Mem{}
	saveStack, saveLoop, saveBd, saveCb := ev.stack, ev.loopSt, ev.loopBd, ev.cbDepth
	ev.stack, ev.loopSt, ev.loopBd, ev.cbDepth = nil, nil, nil, 0
	if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		guard[ev.globAddr(g)] = ev.w.Bool(fFalse)
	}
	fr := ev.call(init, nil, nil, guard)
	ev.stack, ev.loopSt, ev.loopBd, ev.cbDepth = saveStack, saveLoop, saveBd, saveCb
	var m Mem
	if len(fr.rets) > 0 {
		m = fr.rets[len(fr.rets)-1].mem
		if len(fr.rets) > 1 {
			var ms []Mem
			var cs []F
			for _, r := range fr.rets {
				ms = append(ms, r.mem)
				cs = append(cs, r.cond)
			}
			m = ev.mergeMem(ms, cs)
		}
	} else {
		m = Mem{}
	}
	ev.initMem[sp] = m
	ev.initing[sp] = false
	return m
}

func (ev *Eval) constLike(t *Term, d int) bool {
	if d > 6 {
		return false
	}
	switch t.op {
	case "const", "bool", "zero", "err":
		if t.op == "bool" {
			return t.f < 2
		}
		return true
	case "list", "map", "struct", "strcat":
		if len(t.args) > 320 {
			return false
		}
	case "call":
		if !ev.pol.Pure(t.s) {
			return false
		}
	case "ret":
	default:
		return false
	}
	for _, a := range t.args {
		if !ev.constLike(a, d+1) {
			return false
		}
	}
	return true
}

// isMutated reports whether g may change after initialisation.
func (ev *Eval) isMutated(g *ssa.Global) bool {
	if ev.mutated == nil {
		ev.mutated = map[*ssa.Global]bool{}
		for _, fn := range ev.p.Funcs {
			init := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if r := globalRoot(x.Addr); r != nil && !init {
							ev.mutated[r] = true
						}
					case *ssa.MapUpdate:
						if r := globalRoot(x.Map); r != nil {
							ev.mutated[r] = true
						}
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy") {
							if r := globalRoot(x.Call.Args[0]); r != nil {
								ev.mutated[r] = true
							}
						} else if !init {
							for _, a := range x.Call.Args {
								if gg, ok := a.(*ssa.Global); ok {
									ev.mutated[gg] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return ev.mutated[g]
}

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

// concatenates says whether a function prints its variadic arguments one after
// the other, so that "a", "b" and "ab" are the same to it. That the two do is
// their own specification: Printer.P prints each argument with fmt.Fprint on
// its own, PWithInlineComment hands its arguments to P.
func concatenates(name string) bool {
	return strings.HasSuffix(name, "buf.Printer).P") || strings.HasSuffix(name, "format.baseVisitor).PWithInlineComment")
}

// pieces splits the concatenations in a list of printed values and joins its
// neighbouring constants.
func (w *World) pieces(t *Term) *Term {
	return w.lift([]*Term{t}, func(a []*Term) *Term {
		switch t := a[0]; t.op {
		case "list":
			var out []*Term
			for _, e := range t.args {
				if e.op == "ite" {
					return t
				}
				parts := []*Term{e}
				if e.op == "strcat" {
					parts = e.args
				}
				for _, p := range parts {
					if p.isStr() && p.str() == "" {
						continue
					}
					if n := len(out); n > 0 && p.isStr() && out[n-1].isStr() {
						out[n-1] = w.Str(out[n-1].str() + p.str())
						continue
					}
					out = append(out, p)
				}
			}
			return w.T("list", "", out...)
		case "cat":
			out := make([]*Term, len(t.args))
			for i, e := range t.args {
				out[i] = w.pieces(e)
			}
			return w.cat(out...)
		}
		return a[0]
	})
}

// appendString is the text that results from appending constants or text to a
// conversion []byte(s) of a string; nil if the append is something else.
func (w *World) appendString(c *ssa.CallCommon, parts []*Term) *Term {
	isString := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	conv, ok := c.Args[0].(*ssa.Convert)
	if !ok || !isString(conv.X.Type()) || len(parts) != 2 {
		return nil
	}
	tail := parts[1]
	if conv, ok := c.Args[1].(*ssa.Convert); !isString(c.Args[1].Type()) && !(ok && isString(conv.X.Type())) {
		if tail.op != "list" {
			return nil
		}
		var b []byte
		for _, e := range tail.args {
			if !e.isInt() || e.n < 0 || e.n > 127 {
				return nil
			}
			b = append(b, byte(e.n))
		}
		tail = w.Str(string(b))
	}
	return w.strcat(parts[0], tail)
}
