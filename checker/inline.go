package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"os"
	"reflect"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Helpers: a function that the reviewed tree does not have is put back into
// the functions that call it before anything is decided, and so is a closure
// that is called where it is written. What is judged is then what the callers
// do, however they are divided.

//go:linkname ssaBuildReferrers golang.org/x/tools/go/ssa.buildReferrers
func ssaBuildReferrers(f *ssa.Function)

//go:linkname ssaBuildDomTree golang.org/x/tools/go/ssa.buildDomTree
func ssaBuildDomTree(f *ssa.Function)

//go:linkname ssaOptimizeBlocks golang.org/x/tools/go/ssa.optimizeBlocks
func ssaOptimizeBlocks(f *ssa.Function)

//go:linkname ssaLift golang.org/x/tools/go/ssa.lift
func ssaLift(f *ssa.Function)

//go:linkname ssaSanity golang.org/x/tools/go/ssa.sanityCheck
func ssaSanity(f *ssa.Function, w io.Writer) bool

func setField(x interface{}, name string, val interface{}) {
	f := reflect.ValueOf(x).Elem().FieldByName(name)
	p := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	if val == nil {
		p.Set(reflect.Zero(f.Type()))
	} else {
		p.Set(reflect.ValueOf(val))
	}
}

func setBlock(ins ssa.Instruction, b *ssa.BasicBlock) { setField(ins, "block", b) }

// cloneInstr copies an instruction, with operand lists of its own.
func cloneInstr(ins ssa.Instruction) ssa.Instruction {
	v := reflect.New(reflect.TypeOf(ins).Elem())
	v.Elem().Set(reflect.ValueOf(ins).Elem())
	out := v.Interface().(ssa.Instruction)
	args := func(l []ssa.Value) []ssa.Value { return append([]ssa.Value(nil), l...) }
	switch x := out.(type) {
	case *ssa.Call:
		x.Call.Args = args(x.Call.Args)
	case *ssa.Go:
		x.Call.Args = args(x.Call.Args)
	case *ssa.Defer:
		x.Call.Args = args(x.Call.Args)
	case *ssa.Phi:
		x.Edges = args(x.Edges)
	case *ssa.MakeClosure:
		x.Bindings = args(x.Bindings)
	case *ssa.Return:
		x.Results = args(x.Results)
	case *ssa.Select:
		var st []*ssa.SelectState
		for _, s := range x.States {
			c := *s
			st = append(st, &c)
		}
		x.States = st
	}
	if val, ok := out.(ssa.Value); ok {
		if r := val.Referrers(); r != nil {
			*r = nil
		}
	}
	return out
}

func newPhi(t types.Type, edges []ssa.Value, b *ssa.BasicBlock) *ssa.Phi {
	p := &ssa.Phi{Edges: edges}
	setField(p, "typ", t)
	setBlock(p, b)
	return p
}

type inliner struct {
	c    *Ctx
	done map[*ssa.Function]int // 1 being looked at, 2 done
	cand map[*ssa.Function]bool
	n    map[*ssa.Function]int // calls left
}

// inlineHelpers puts the new functions of the module back into their callers.
func (c *Ctx) inlineHelpers() {
	in := &inliner{c: c, done: map[*ssa.Function]int{}, cand: map[*ssa.Function]bool{}}
	in.count()
	for _, fn := range c.p.Funcs {
		if c.gen || fn.Synthetic != "" || fn.Parent() != nil || isExported(fn) || fn.Name() == "init" || fn.Object() == nil {
			continue
		}
		n := shortFn(fn)
		if c.frozen[n] || !in.plain(fn) {
			continue
		}
		in.cand[fn] = true
	}
	for _, fn := range append([]*ssa.Function(nil), c.p.Funcs...) {
		in.function(fn)
	}
	c.bindCache, c.fieldStores, c.firstLoads = nil, nil, nil
	// what is no longer reached is gone
	used := map[*ssa.Function]bool{}
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						used[f] = true
					}
				}
			}
		}
	}
	var keep []*ssa.Function
	for _, fn := range c.p.Funcs {
		if in.cand[fn] && !used[fn] || fn.Blocks == nil {
			delete(c.fnByName, shortFn(fn))
			continue
		}
		keep = append(keep, fn)
	}
	c.p.Funcs = keep
}

func (in *inliner) count() {
	in.n = map[*ssa.Function]int{}
	for _, fn := range in.c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						in.n[f]++
					}
				}
			}
		}
	}
}

// plain: a function whose body can stand in its caller.
func (in *inliner) plain(fn *ssa.Function) bool {
	if fn.Recover != nil || len(fn.Blocks) == 0 || fn.TypeParams().Len() > 0 {
		return false
	}
	rets := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				return false
			case *ssa.Return:
				rets++
			}
			if call, ok := ins.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return false
				}
				if call.Call.StaticCallee() == fn {
					return false
				}
			}
		}
	}
	return rets > 0
}

// target is the function a call can be replaced with.
func (in *inliner) target(call *ssa.Call) (*ssa.Function, *ssa.MakeClosure) {
	if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
		f := mc.Fn.(*ssa.Function)
		if len(*mc.Referrers()) == 1 && in.n[f] == 1 && in.plain(f) {
			return f, mc
		}
		return nil, nil
	}
	f, ok := call.Call.Value.(*ssa.Function)
	if !ok {
		return nil, nil
	}
	if f.Parent() != nil && in.n[f] == 1 && in.plain(f) {
		return f, nil
	}
	if in.cand[f] && (len(f.AnonFuncs) == 0 || in.n[f] == 1) && in.done[f] == 2 {
		return f, nil
	}
	return nil, nil
}

func (in *inliner) function(fn *ssa.Function) {
	if in.done[fn] != 0 {
		return
	}
	in.done[fn] = 1
	for _, a := range fn.AnonFuncs {
		in.function(a)
	}
	changed := in.defers(fn)
	if in.rangeLookups(fn) {
		in.refs(fn)
	}
	for n := 0; n < 4000; n++ {
		if !in.one(fn) {
			break
		}
		changed = true
	}
	if in.nilEdges(fn) {
		changed = true
	}
	if changed {
		in.finish(fn)
	}
	in.done[fn] = 2
}

// nilEdges reads a variable that is known to be nil where it meets others as
// nil: a loop left as soon as the variable is set carries nil around.
func (in *inliner) nilEdges(fn *ssa.Function) bool {
	changed := false
	for again := true; again; {
		again = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					continue
				}
				for i, e := range ph.Edges {
					if _, ok := e.(*ssa.Const); ok || i >= len(b.Preds) {
						continue
					}
					switch e.Type().Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
					default:
						continue
					}
					p := b.Preds[i]
					isNil, known := nilTested(e, p)
					if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
						if bo, ok := ifi.Cond.(*ssa.BinOp); ok && (bo.X == e && isNilK(bo.Y) || bo.Y == e && isNilK(bo.X)) {
							switch bo.Op.String() {
							case "==":
								isNil, known = p.Succs[0] == b, true
							case "!=":
								isNil, known = p.Succs[1] == b, true
							}
						}
					}
					if !known || !isNil {
						continue
					}
					ph.Edges[i] = ssa.NewConst(nil, ph.Type())
					again, changed = true, true
				}
				// nil on every edge
				all := len(ph.Edges) > 0
				for _, e := range ph.Edges {
					k, ok := e.(*ssa.Const)
					all = all && (ok && k.Value == nil || e == ssa.Value(ph))
				}
				if all && len(ph.Edges) > 1 {
					k := ssa.NewConst(nil, ph.Type())
					for j := range ph.Edges {
						ph.Edges[j] = k
					}
				}
			}
		}
	}
	return changed
}

// rangeLookups reads m[k] at the start of a loop over the keys k of m as the
// value that goes with the key.
func (in *inliner) rangeLookups(fn *ssa.Function) bool {
	changed := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			next, ok := ins.(*ssa.Next)
			if !ok || next.IsString || next.Referrers() == nil {
				continue
			}
			rg, ok := next.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || len(b.Succs[0].Preds) != 1 {
				continue
			}
			_ = ifi
			var key *ssa.Extract
			for _, r := range *next.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
					key = e
				}
			}
			if key == nil {
				continue
			}
			bd := in.c.newBounds(fn)
			mk := bd.valKey(rg.X)
			body := b.Succs[0]
		scan:
			for i, x := range body.Instrs {
				switch y := x.(type) {
				case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
					break scan
				case *ssa.Call:
					// what cannot change the map
					if f := y.Call.StaticCallee(); f != nil && f.Pkg != nil && !inModule(f.Pkg.Pkg) && pureCall(calleeOf(&y.Call)) {
						continue
					}
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() != "delete" {
						continue
					}
					break scan
				case *ssa.Lookup:
					if y.CommaOk || bd.valKey(y.X) != mk && !in.samePlace(bd, b, rg.X, y.X) || bd.canon(y.Index) != ssa.Value(key) {
						continue
					}
					mt, ok := y.X.Type().Underlying().(*types.Map)
					if !ok {
						continue
					}
					e := &ssa.Extract{Tuple: next, Index: 2}
					setField(e, "typ", mt.Elem())
					setField(e, "pos", y.Pos())
					setBlock(e, body)
					body.Instrs[i] = e
					setField(next, "typ", types.NewTuple(types.NewVar(0, nil, "ok", types.Typ[types.Bool]), types.NewVar(0, nil, "k", mt.Key()), types.NewVar(0, nil, "v", mt.Elem())))
					for _, r := range *y.Referrers() {
						for _, op := range r.Operands(nil) {
							if *op == ssa.Value(y) {
								*op = e
							}
						}
					}
					changed = true
				}
			}
		}
	}
	return changed
}

// samePlace: two loads of one field that is not stored to in the loop.
func (in *inliner) samePlace(bd *bounds, head *ssa.BasicBlock, x, y ssa.Value) bool {
	field := func(v ssa.Value) *ssa.FieldAddr {
		if u, ok := bd.canon(v).(*ssa.UnOp); ok && u.Op == token.MUL {
			fa, _ := u.X.(*ssa.FieldAddr)
			return fa
		}
		return nil
	}
	var path func(v ssa.Value) string
	path = func(v ssa.Value) string {
		v = bd.canon(v)
		if fa, ok := v.(*ssa.FieldAddr); ok {
			return path(fa.X) + "." + fmt.Sprint(fa.Field)
		}
		return fmt.Sprintf("%p", v)
	}
	fx, fy := field(x), field(y)
	if fx == nil || fy == nil || path(fx) != path(fy) {
		return false
	}
	id := fieldID(fx)
	for b := range loopOf(head) {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldID(fa) == id {
					return false
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil && inModule(g.Pkg.Pkg) && in.c.storesOf(g)[id] {
					return false
				}
			}
		}
	}
	return true
}

// defers reads defer func() { f(x) }() as defer f(x), where x does not change.
func (in *inliner) defers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for k, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok || len(d.Call.Args) > 0 {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok || len(*mc.Referrers()) != 1 {
				continue
			}
			f := mc.Fn.(*ssa.Function)
			if len(f.Blocks) != 1 || len(f.Blocks[0].Instrs) != 2 || len(f.AnonFuncs) > 0 {
				continue
			}
			call, ok := f.Blocks[0].Instrs[0].(*ssa.Call)
			if !ok || call.Call.IsInvoke() {
				continue
			}
			if _, ok := call.Call.Value.(*ssa.Function); !ok {
				continue
			}
			nd := cloneInstr(d).(*ssa.Defer)
			nd.Call = call.Call
			nd.Call.Args = append([]ssa.Value(nil), call.Call.Args...)
			for i, a := range nd.Call.Args {
				for j, fv := range f.FreeVars {
					if a == ssa.Value(fv) {
						nd.Call.Args[i] = mc.Bindings[j]
					}
				}
			}
			setBlock(nd, b)
			b.Instrs[k] = nd
			for i, x := range b.Instrs {
				if x == ssa.Instruction(mc) {
					b.Instrs = append(b.Instrs[:i:i], b.Instrs[i+1:]...)
					break
				}
			}
			f.Blocks = nil
			for i, a := range fn.AnonFuncs {
				if a == f {
					fn.AnonFuncs = append(fn.AnonFuncs[:i:i], fn.AnonFuncs[i+1:]...)
					break
				}
			}
			in.refs(fn)
			return in.defers(fn) || true
		}
	}
	return false
}

// one replaces the first call of fn that can be.
func (in *inliner) one(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for k, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			if f, ok := call.Call.Value.(*ssa.Function); ok && in.cand[f] {
				in.function(f)
			}
			f, mc := in.target(call)
			if f == nil || f == fn {
				continue
			}
			in.replace(fn, b, k, call, f, mc)
			return true
		}
	}
	return false
}

func (in *inliner) replace(fn *ssa.Function, b *ssa.BasicBlock, k int, call *ssa.Call, f *ssa.Function, mc *ssa.MakeClosure) {
	move := f.Parent() != nil || len(f.AnonFuncs) > 0
	sub := map[ssa.Value]ssa.Value{}
	for i, p := range f.Params {
		sub[p] = call.Call.Args[i]
	}
	if mc != nil {
		for i, v := range f.FreeVars {
			sub[v] = mc.Bindings[i]
		}
	}
	// the body
	blk := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, x := range f.Blocks {
		nb := &ssa.BasicBlock{Comment: x.Comment}
		setField(nb, "parent", fn)
		blk[x] = nb
	}
	for _, x := range f.Blocks {
		nb := blk[x]
		for _, ins := range x.Instrs {
			ni := cloneInstr(ins)
			setBlock(ni, nb)
			nb.Instrs = append(nb.Instrs, ni)
			if v, ok := ins.(ssa.Value); ok {
				sub[v] = ni.(ssa.Value)
			}
			if al, ok := ni.(*ssa.Alloc); ok && !al.Heap {
				fn.Locals = append(fn.Locals, al)
			}
		}
		for _, s := range x.Succs {
			nb.Succs = append(nb.Succs, blk[s])
		}
		for _, p := range x.Preds {
			nb.Preds = append(nb.Preds, blk[p])
		}
	}
	swap := func(ins ssa.Instruction) {
		for _, op := range ins.Operands(nil) {
			if w, ok := sub[*op]; ok {
				*op = w
			}
		}
	}
	var rets []*ssa.BasicBlock
	for _, x := range f.Blocks {
		nb := blk[x]
		for _, ins := range nb.Instrs {
			swap(ins)
		}
		if _, ok := nb.Instrs[len(nb.Instrs)-1].(*ssa.Return); ok {
			rets = append(rets, nb)
		}
	}
	if move {
		for _, a := range f.AnonFuncs {
			setField(a, "parent", fn)
			fn.AnonFuncs = append(fn.AnonFuncs, a)
		}
		f.AnonFuncs = nil
		for i, a := range fn.AnonFuncs {
			if a == f {
				fn.AnonFuncs = append(fn.AnonFuncs[:i:i], fn.AnonFuncs[i+1:]...)
				break
			}
		}
		for i, a := range fn.AnonFuncs {
			setField(a, "anonIdx", int32(i))
		}
		in.n[f]--
	} else {
		in.n[f]--
		for _, x := range f.Blocks {
			for _, ins := range x.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						in.n[g]++
					}
				}
			}
		}
	}
	// the rest of the caller's block
	tail := b.Instrs[k+1:]
	after := &ssa.BasicBlock{Comment: "after"}
	setField(after, "parent", fn)
	after.Succs = append([]*ssa.BasicBlock(nil), b.Succs...)
	for _, s := range b.Succs {
		for i, p := range s.Preds {
			if p == b {
				s.Preds[i] = after
			}
		}
	}
	jump := func(from, to *ssa.BasicBlock) {
		j := &ssa.Jump{}
		setBlock(j, from)
		from.Instrs = append(from.Instrs, j)
		from.Succs = []*ssa.BasicBlock{to}
		to.Preds = append(to.Preds, from)
	}
	entry := blk[f.Blocks[0]]
	b.Instrs = append([]ssa.Instruction(nil), b.Instrs[:k]...)
	if mc != nil {
		for _, x := range fn.Blocks {
			for i, ins := range x.Instrs {
				if ins == ssa.Instruction(mc) {
					x.Instrs = append(x.Instrs[:i:i], x.Instrs[i+1:]...)
					break
				}
			}
		}
	}
	jump(b, entry)
	res := make([][]ssa.Value, 0, len(rets))
	for _, r := range rets {
		ret := r.Instrs[len(r.Instrs)-1].(*ssa.Return)
		r.Instrs = r.Instrs[:len(r.Instrs)-1]
		res = append(res, ret.Results)
		jump(r, after)
	}
	nres := f.Signature.Results().Len()
	val := make([]ssa.Value, nres)
	for i := range val {
		if len(rets) == 1 {
			val[i] = res[0][i]
			continue
		}
		var es []ssa.Value
		for _, r := range res {
			es = append(es, r[i])
		}
		p := newPhi(f.Signature.Results().At(i).Type(), es, after)
		after.Instrs = append(after.Instrs, p)
		val[i] = p
	}
	sub = map[ssa.Value]ssa.Value{}
	for _, ins := range tail {
		if ex, ok := ins.(*ssa.Extract); ok && ex.Tuple == ssa.Value(call) {
			sub[ex] = val[ex.Index]
			continue
		}
		setBlock(ins, after)
		after.Instrs = append(after.Instrs, ins)
	}
	if nres == 1 {
		sub[call] = val[0]
	}
	var bs []*ssa.BasicBlock
	for _, x := range fn.Blocks {
		bs = append(bs, x)
		if x == b {
			for _, y := range f.Blocks {
				bs = append(bs, blk[y])
			}
			bs = append(bs, after)
		}
	}
	fn.Blocks = bs
	for i, x := range fn.Blocks {
		x.Index = i
		for _, ins := range x.Instrs {
			// values handed on through several replacements
			for _, op := range ins.Operands(nil) {
				for w, ok := sub[*op]; ok; w, ok = sub[*op] {
					*op = w
				}
			}
		}
	}
	if move {
		f.Blocks = nil
	}
}

// finish brings a changed function back into the form the analyses expect.
func (in *inliner) finish(fn *ssa.Function) {
	in.refs(fn)
	for n := 0; n < 200 && (in.thread(fn) || in.splitReturns(fn)); n++ {
		in.refs(fn)
	}
	in.prune(fn)
	in.refs(fn)
	ssaBuildDomTree(fn)
	// variables that are no longer shared with another function
	again := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			al, ok := ins.(*ssa.Alloc)
			if !ok || !al.Heap {
				continue
			}
			local := true
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					local = local && y.Val != ssa.Value(al)
				case *ssa.UnOp:
				default:
					local = false
				}
			}
			if local {
				al.Heap = false
				fn.Locals = append(fn.Locals, al)
				again = true
			}
		}
	}
	if again {
		ssaLift(fn)
		in.refs(fn)
		for n := 0; n < 200 && (in.thread(fn) || in.splitReturns(fn)); n++ {
			in.refs(fn)
		}
		in.prune(fn)
		in.refs(fn)
		ssaBuildDomTree(fn)
	}
	if os.Getenv("PTCHECK_DEBUG") != "" {
		if !ssaSanity(fn, os.Stderr) {
			fn.WriteTo(os.Stderr)
		}
	}
}

func (in *inliner) refs(fn *ssa.Function) {
	clear := func(v ssa.Value) {
		if r := v.Referrers(); r != nil {
			*r = nil
		}
	}
	for _, p := range fn.Params {
		clear(p)
	}
	for _, p := range fn.FreeVars {
		clear(p)
	}
	for _, a := range fn.AnonFuncs {
		clear(a)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				clear(v)
			}
		}
	}
	ssaBuildReferrers(fn)
}

// prune drops blocks that are not reached and joins those that follow each other.
func (in *inliner) prune(fn *ssa.Function) {
	ssaOptimizeBlocks(fn)
	sub := map[ssa.Value]ssa.Value{}
	for _, b := range fn.Blocks {
		var keep []ssa.Instruction
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok && len(b.Preds) > 0 {
				// one value only
				var one ssa.Value
				same := true
				for _, e := range ph.Edges {
					if e == ssa.Value(ph) || one != nil && e == one {
						continue
					}
					if one != nil {
						same = false
					}
					one = e
				}
				if same && one != nil {
					sub[ph] = one
					continue
				}
			}
			keep = append(keep, ins)
		}
		b.Instrs = keep
	}
	if len(sub) == 0 {
		return
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				for n := 0; n < 1000; n++ {
					w, ok := sub[*op]
					if !ok {
						break
					}
					*op = w
				}
			}
		}
	}
	in.refs(fn)
	in.prune(fn)
}

// thread sends a path on which a condition has a known value past its test.
func (in *inliner) thread(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] || b.Succs[0] == b || b.Succs[1] == b {
			continue
		}
		// phis, a negation or a comparison of one with a constant, the test
		var phis []*ssa.Phi
		simple := true
		for _, ins := range b.Instrs[:len(b.Instrs)-1] {
			switch x := ins.(type) {
			case *ssa.Phi:
				phis = append(phis, x)
			case *ssa.UnOp, *ssa.BinOp:
				v := ins.(ssa.Value)
				for _, r := range *v.Referrers() {
					if r.Block() != b {
						simple = false
					}
				}
			default:
				simple = false
			}
		}
		if !simple || len(phis) == 0 {
			continue
		}
		for i, p := range b.Preds {
			if p == b {
				continue
			}
			env := map[ssa.Value]ssa.Value{}
			for _, ph := range phis {
				env[ph] = ph.Edges[i]
			}
			v, known := decide(ifi.Cond, env, p)
			if !known {
				continue
			}
			to := b.Succs[1]
			if v {
				to = b.Succs[0]
			}
			if !in.usesFit(b, to, phis) || in.hasPred(to, p) {
				continue
			}
			in.redirect(b, i, p, to, phis)
			return true
		}
	}
	return false
}

func (in *inliner) hasPred(b, p *ssa.BasicBlock) bool {
	for _, q := range b.Preds {
		if q == p {
			return true
		}
	}
	return false
}

// usesFit: the phis of b are used in b, and otherwise only where it is safe to
// bring in another phi at the block the path is sent to.
func (in *inliner) usesFit(b, to *ssa.BasicBlock, phis []*ssa.Phi) bool {
	for _, ph := range phis {
		for _, r := range *ph.Referrers() {
			if r.Block() == b {
				continue
			}
			if x, ok := r.(*ssa.Phi); ok && x.Block() == to {
				// only along the edge from b
				fine := true
				for j, e := range x.Edges {
					if e == ssa.Value(ph) && to.Preds[j] != b {
						fine = false
					}
				}
				if fine {
					continue
				}
			}
			// a use behind the other successor stays as it is
			other := b.Succs[0]
			if other == to {
				other = b.Succs[1]
			}
			if x, ok := r.(*ssa.Phi); ok && x.Block() == other {
				fine := true
				for j, e := range x.Edges {
					if e == ssa.Value(ph) && other.Preds[j] != b && !(len(other.Preds) == 1) {
						fine = false
					}
				}
				if fine {
					continue
				}
			}
			if len(other.Preds) == 1 && behind(other, r, ph) {
				continue
			}
			// behind the block the path is sent to, which only b reaches
			if len(to.Preds) == 1 && behind(to, r, ph) {
				continue
			}
			return false
		}
	}
	return true
}

// behind: every path to the use of v goes through b.
func behind(b *ssa.BasicBlock, r ssa.Instruction, v ssa.Value) bool {
	at := map[*ssa.BasicBlock]bool{}
	if ph, ok := r.(*ssa.Phi); ok {
		for j, e := range ph.Edges {
			if e == v {
				at[ph.Block().Preds[j]] = true
			}
		}
	} else {
		at[r.Block()] = true
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{b.Parent().Blocks[0]}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if at[x] {
			return false
		}
		work = append(work, x.Succs...)
	}
	return true
}

func (in *inliner) redirect(b *ssa.BasicBlock, i int, p, to *ssa.BasicBlock, phis []*ssa.Phi) {
	only := len(to.Preds) == 1
	at := -1
	for j, q := range to.Preds {
		if q == b {
			at = j
		}
	}
	edge := map[*ssa.Phi]ssa.Value{}
	for _, ph := range phis {
		edge[ph] = ph.Edges[i]
	}
	// the phis already there
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		e := ph.Edges[at]
		if q, ok := e.(*ssa.Phi); ok {
			if v, ok := edge[q]; ok {
				e = v
			}
		}
		ph.Edges = append(ph.Edges, e)
	}
	if only {
		for _, ph := range phis {
			var outside []ssa.Instruction
			for _, r := range *ph.Referrers() {
				if r.Block() != b && !(func() bool { x, ok := r.(*ssa.Phi); return ok && x.Block() == to })() && behind(to, r, ph) {
					outside = append(outside, r)
				}
			}
			if len(outside) == 0 {
				continue
			}
			np := newPhi(ph.Type(), []ssa.Value{ph, edge[ph]}, to)
			to.Instrs = append([]ssa.Instruction{np}, to.Instrs...)
			for _, r := range outside {
				for _, op := range r.Operands(nil) {
					if *op == ssa.Value(ph) {
						*op = np
					}
				}
			}
		}
	}
	to.Preds = append(to.Preds, p)
	for j, s := range p.Succs {
		if s == b {
			p.Succs[j] = to
			break
		}
	}
	b.Preds = append(b.Preds[:i:i], b.Preds[i+1:]...)
	for _, ph := range phis {
		ph.Edges = append(ph.Edges[:i:i], ph.Edges[i+1:]...)
	}
}

// decide is the value of a condition when the phis have these values.
func decide(v ssa.Value, env map[ssa.Value]ssa.Value, from *ssa.BasicBlock) (bool, bool) {
	if w, ok := env[v]; ok {
		v = w
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			return constant.BoolVal(k.Value), true
		}
		return tested(v, from)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		b, ok := decide(x.X, env, from)
		return !b, ok
	case *ssa.BinOp:
		eq := x.Op.String() == "=="
		if !eq && x.Op.String() != "!=" {
			return false, false
		}
		a, b := x.X, x.Y
		if w, ok := env[a]; ok {
			a = w
		}
		if w, ok := env[b]; ok {
			b = w
		}
		if isNilK(a) {
			a, b = b, a
		}
		if isNilK(b) {
			if isNilK(a) {
				return eq, true
			}
			if n, ok := nilTested(a, from); ok {
				return n == eq, true
			}
			switch y := a.(type) {
			case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure:
				return !eq, true
			case *ssa.Call:
				switch calleeOf(&y.Call) {
				case "fmt.Errorf", "errors.New":
					return !eq, true
				}
			}
			return false, false
		}
		ka, oka := a.(*ssa.Const)
		kb, okb := b.(*ssa.Const)
		if oka && okb && ka.Value != nil && kb.Value != nil && ka.Value.Kind() == kb.Value.Kind() && ka.Value.Kind() != constant.Float {
			return constant.Compare(ka.Value, x.Op, kb.Value), true
		}
	}
	return false, false
}

// tested: the block is only reached with the value true, or false.
func tested(v ssa.Value, b *ssa.BasicBlock) (bool, bool) {
	for n := 0; n < 50 && len(b.Preds) == 1; n++ {
		p := b.Preds[0]
		if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && ifi.Cond == v && p.Succs[0] != p.Succs[1] {
			return p.Succs[0] == b, true
		}
		b = p
	}
	return false, false
}

// nilTested: the block is only reached with the value nil, or not nil.
func nilTested(v ssa.Value, b *ssa.BasicBlock) (bool, bool) {
	for n := 0; n < 50 && len(b.Preds) == 1; n++ {
		p := b.Preds[0]
		if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			if bo, ok := ifi.Cond.(*ssa.BinOp); ok && (bo.X == v && isNilK(bo.Y) || bo.Y == v && isNilK(bo.X)) {
				switch bo.Op.String() {
				case "==":
					return p.Succs[0] == b, true
				case "!=":
					return p.Succs[0] != b, true
				}
			}
		}
		b = p
	}
	return false, false
}

// splitReturns gives every path its own return, where the paths only meet to
// return.
func (in *inliner) splitReturns(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(b.Preds) < 2 || b.Comment != "after" {
			continue
		}
		small := len(b.Instrs) <= 8
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.RunDefers, *ssa.Return, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract:
			default:
				small = false
			}
		}
		if !small {
			continue
		}
		_ = ret
		p := b.Preds[0]
		nb := &ssa.BasicBlock{Comment: "ret"}
		setField(nb, "parent", fn)
		sub := map[ssa.Value]ssa.Value{}
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				sub[ph] = ph.Edges[0]
				continue
			}
			ni := cloneInstr(ins)
			setBlock(ni, nb)
			for _, op := range ni.Operands(nil) {
				if w, ok := sub[*op]; ok {
					*op = w
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				sub[v] = ni.(ssa.Value)
			}
			nb.Instrs = append(nb.Instrs, ni)
		}
		nb.Preds = []*ssa.BasicBlock{p}
		for j, s := range p.Succs {
			if s == b {
				p.Succs[j] = nb
				break
			}
		}
		b.Preds = b.Preds[1:]
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				ph.Edges = ph.Edges[1:]
			}
		}
		fn.Blocks = append(fn.Blocks, nb)
		for i, x := range fn.Blocks {
			x.Index = i
		}
		return true
	}
	return false
}
