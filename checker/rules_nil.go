package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nil: what a map lookup may not find, what a field of the parsed tree may not
// hold and what an error comes with instead is not used as if it were there;
// nothing is stored into a map that may be nil; no integer is divided by what
// may be zero.

// mayBeNil names why a value may be nil, or "".
func (c *Ctx) mayBeNil(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
	case *ssa.Call:
		if c.returnsNil(x, 0) {
			return "the function may return nil"
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && nilable(x.Type()) && !x.CommaOk && !atRangeKey(x) {
			return "a map may not hold the key"
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 0 && nilable(x.Type()) && !atRangeKey(t) {
				return "a map may not hold the key"
			}
		case *ssa.TypeAssert:
			if x.Index == 0 && nilable(x.Type()) {
				return "the value may have another type"
			}
		case *ssa.Call:
			if c.returnsNil(t, x.Index) {
				return "the function may return nil"
			}
			res := t.Call.Signature().Results()
			if nilable(x.Type()) && isErrorType(res.At(res.Len()-1).Type()) && x.Index < res.Len()-1 {
				return "there may be an error instead"
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					return ""
				}
				f := st.Field(fa.Field)
				if p, ok := f.Type().Underlying().(*types.Pointer); ok {
					if strings.HasSuffix(p.Elem().String(), "emicklei/proto.Comment") {
						return "there may be no comment"
					}
					if _, ok := p.Elem().Underlying().(*types.Basic); ok {
						return "the field may be unset"
					}
				}
			}
		}
	}
	return ""
}

// returnsNil: the function may return nil without an error.
func (c *Ctx) returnsNil(call *ssa.Call, i int) bool {
	f := call.Call.StaticCallee()
	if f == nil || f.Blocks == nil || f.Pkg == nil || !inModule(f.Pkg.Pkg) || i >= f.Signature.Results().Len() {
		return false
	}
	if t := f.Signature.Results().At(i).Type(); !nilable(t) || isErrorType(t) {
		return false
	}
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || failing(ret) {
			continue
		}
		if isNilK(ret.Results[i]) {
			return true
		}
		if ph, ok := ret.Results[i].(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if isNilK(e) {
					return true
				}
			}
		}
	}
	return false
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// place is what may be nil: a value, the place it was loaded from, or the key
// of a map it was looked up with.
type place struct {
	b    *bounds
	v    ssa.Value // as used
	key  string
	mapK string // of a lookup
	keyK string
	addr string // of a load
	busy map[ssa.Value]bool
}

func (c *Ctx) placeOf(fn *ssa.Function, v ssa.Value) *place {
	b := c.newBounds(fn)
	p := &place{b: b, v: v, key: b.valKey(v), busy: map[ssa.Value]bool{}}
	w := b.canon(v)
	if ex, ok := w.(*ssa.Extract); ok && ex.Index == 0 {
		if l, ok := ex.Tuple.(*ssa.Lookup); ok {
			p.mapK, p.keyK = b.valKey(l.X), b.valKey(l.Index)
		}
	}
	if l, ok := w.(*ssa.Lookup); ok {
		p.mapK, p.keyK = b.valKey(l.X), b.valKey(l.Index)
	}
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
		p.addr = c.addrKey(u.X)
	}
	return p
}

// presentAt decides that a value is not nil where an instruction runs: on every
// path to it, a condition, a store or a map store said so.
func (c *Ctx) presentAt(v ssa.Value, at ssa.Instruction, fn *ssa.Function) bool {
	p := c.placeOf(fn, v)
	in := map[*ssa.BasicBlock]bool{}
	for _, blk := range fn.Blocks {
		in[blk] = blk != fn.Blocks[0]
	}
	for changed := true; changed; {
		changed = false
		for _, blk := range fn.Blocks[1:] {
			ok := len(blk.Preds) > 0
			for _, pr := range blk.Preds {
				if !p.edge(pr, blk, p.flow(pr, in[pr], nil)) {
					ok = false
				}
			}
			if in[blk] != ok {
				in[blk] = ok
				changed = true
			}
		}
	}
	if p.flow(at.Block(), in[at.Block()], at) {
		return true
	}
	return p.dominated(at.Block())
}

// flow is whether the place is set after a block, or before an instruction.
func (p *place) flow(blk *ssa.BasicBlock, set bool, upto ssa.Instruction) bool {
	for _, ins := range blk.Instrs {
		if ins == upto {
			break
		}
		switch x := ins.(type) {
		case *ssa.Store:
			if p.addr != "" && p.b.c.addrKey(x.Addr) == p.addr {
				set = madeOrNew(x.Val)
			}
		case *ssa.MapUpdate:
			if p.mapK != "" && p.b.valKey(x.Map) == p.mapK && p.b.valKey(x.Key) == p.keyK {
				set = madeOrNew(x.Value)
			}
		}
	}
	return set
}

func madeOrNew(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeType:
		return madeOrNew(x.X)
	}
	return false
}

func (p *place) edge(from, to *ssa.BasicBlock, set bool) bool {
	if set {
		return true
	}
	if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		return p.says(ifi.Cond, from.Succs[0] == to)
	}
	return false
}

func (p *place) dominated(blk *ssa.BasicBlock) bool {
	for d := blk; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id {
			continue
		}
		if ifi, is := id.Instrs[len(id.Instrs)-1].(*ssa.If); is && id.Succs[0] != id.Succs[1] {
			if p.says(ifi.Cond, id.Succs[0] == d) {
				return true
			}
		}
	}
	return false
}

// says: the condition being so shows that the place is set.
func (p *place) says(x ssa.Value, yes bool) bool {
	b := p.b
	x = b.canon(x)
	switch y := x.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return p.says(y.X, !yes)
		}
	case *ssa.Phi:
		// a && c, a || c: the edges with the other constant are not taken
		if p.busy[y] {
			return false
		}
		p.busy[y] = true
		defer delete(p.busy, y)
		n := 0
		for i, e := range y.Edges {
			if k, is := e.(*ssa.Const); is && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != yes {
					continue
				}
				pr := y.Block().Preds[i]
				if !p.edge(pr, y.Block(), false) && !p.dominated(pr) {
					return false
				}
				n++
				continue
			}
			if !p.says(e, yes) && !p.dominated(y.Block().Preds[i]) {
				return false
			}
			n++
		}
		return n > 0
	case *ssa.Extract:
		if l, is := y.Tuple.(*ssa.Lookup); is && y.Index == 1 && yes && p.mapK != "" {
			return b.valKey(l.X) == p.mapK && b.valKey(l.Index) == p.keyK
		}
		if l, is := y.Tuple.(*ssa.TypeAssert); is && y.Index == 1 && yes {
			if w, is := b.canon(p.v).(*ssa.Extract); is && w.Tuple == ssa.Value(l) {
				return true
			}
		}
	case *ssa.BinOp:
		eq := y.Op == token.EQL
		if y.Op != token.EQL && y.Op != token.NEQ {
			return false
		}
		for _, q := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
			if !isNilK(q[1]) {
				continue
			}
			if eq != yes {
				if b.valKey(q[0]) == p.key {
					return true
				}
				if l, ok := b.canon(q[0]).(*ssa.Lookup); ok && !l.CommaOk && p.mapK != "" && b.valKey(l.X) == p.mapK && b.valKey(l.Index) == p.keyK {
					return true
				}
				if u, ok := b.canon(q[0]).(*ssa.UnOp); ok && u.Op == token.MUL && p.addr != "" && b.c.addrKey(u.X) == p.addr {
					return true
				}
			}
			// no error: the result is there
			if eq == yes && isErrorType(q[0].Type()) {
				if e, is := b.canon(q[0]).(*ssa.Extract); is {
					if w, is := b.canon(p.v).(*ssa.Extract); is && w.Tuple == e.Tuple {
						return true
					}
				}
			}
		}
	}
	return false
}

func isNilK(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// needs: the instruction uses the value in a way that needs it to be there,
// itself or in a function it is handed to.
func (c *Ctx) needs(ins ssa.Instruction, v ssa.Value, depth int) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && x.X == v
	case *ssa.FieldAddr:
		return x.X == v
	case *ssa.IndexAddr:
		_, ok := v.Type().Underlying().(*types.Pointer)
		return ok && x.X == v
	case *ssa.Store:
		return x.Addr == v
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			return cc.Value == v
		}
		if cc.Value == v {
			return true
		}
		f := cc.StaticCallee()
		if f == nil {
			return false
		}
		for i, a := range cc.Args {
			if a == v && i < len(f.Params) && !c.nilSafe(f, i, depth+1) {
				return true
			}
		}
	}
	return false
}

// nilSafe: a function that looks at what it is given only after testing it.
func (c *Ctx) nilSafe(f *ssa.Function, i, depth int) bool {
	if f.Blocks == nil || depth > 3 {
		return f.Signature.Recv() == nil || i > 0
	}
	k := fmt.Sprintf("%p %d", f, i)
	if ok, done := c.nilSafeCache[k]; done {
		return ok
	}
	if c.nilSafeCache == nil {
		c.nilSafeCache = map[string]bool{}
	}
	c.nilSafeCache[k] = true
	p := f.Params[i]
	for _, r := range *p.Referrers() {
		if c.needs(r, p, depth) && !c.presentAt(p, r, f) {
			c.nilSafeCache[k] = false
			return false
		}
	}
	return true
}

// nilFound are the uses that were reviewed: by package, type and why the value
// might not be there.
var nilFound = []struct{ pkg, typ, why, reason string }{
	{"lint", "*github.com/emicklei/proto.Enum", "the value may have another type", "the parser gives every enum field the enum it is in as its parent"},
	{"reflect", "*github.com/uber/prototool/internal/reflect/gen/uber/proto/reflect/v1.MessageOneof", "a map may not hold the key", "the map has every declared oneof, and the index is that of one"},
	{"reflect", "*github.com/uber/prototool/internal/reflect/gen/uber/proto/reflect/v1.Package", "a map may not hold the key", "a package was made for every key of the map that is walked"},
}

func nilAccepted(fn *ssa.Function, v ssa.Value, why string) bool {
	for _, a := range nilFound {
		if topOf(fn).Pkg.Pkg.Name() == a.pkg && v.Type().String() == a.typ && why == a.why {
			return true
		}
	}
	return false
}

func nilRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "what a map lookup may not find, what a field of the parsed file may not hold and the result an error comes with are not used as if they were there; no store into a map that may be nil; no integer division by what may be zero"}
	for _, fn := range c.ruleFuncs() {
		r.Functions++
		for _, blk := range fn.Blocks {
			for _, ins := range blk.Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.REM) {
					if bt, ok := bo.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						r.Obligations++
						if k, ok := bo.Y.(*ssa.Const); !ok || constant.Sign(k.Value) == 0 {
							r.Findings = append(r.Findings, Finding{Key: shortFn(topOf(fn)) + " division", Pos: c.p.pos(bo.Pos()), Msg: "division in " + shortFn(fn) + " by what may be zero"})
						}
					}
				}
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					r.Obligations++
					if why := c.nilMap(fn, mu, mu.Map, map[ssa.Value]bool{}); why != "" {
						r.Findings = append(r.Findings, Finding{Key: shortFn(topOf(fn)) + " map store", Pos: c.p.pos(mu.Pos()), Msg: "store into a map in " + shortFn(fn) + ": " + why})
					}
					continue
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					why := c.mayBeNil(*op)
					if why == "" {
						continue
					}
					if !c.needs(ins, *op, 0) {
						continue
					}
					r.Obligations++
					if !c.presentAt(*op, ins, fn) && !nilAccepted(fn, *op, why) {
						r.Findings = append(r.Findings, Finding{Key: shortFn(topOf(fn)) + " nil " + why, Pos: c.p.pos(ins.Pos()), Msg: fmt.Sprintf("%s is used in %s as if it were there: %s", (*op).Type(), shortFn(fn), why)})
					}
				}
			}
		}
	}
	return r
}

// nilMap says why a map stored into may be nil.
func (c *Ctx) nilMap(fn *ssa.Function, at ssa.Instruction, m ssa.Value, seen map[ssa.Value]bool) string {
	if seen[m] {
		return ""
	}
	seen[m] = true
	if at != nil && c.presentAt(m, at, fn) {
		return ""
	}
	b := c.newBounds(fn)
	v := b.canon(m)
	switch x := v.(type) {
	case *ssa.MakeMap:
		return ""
	case *ssa.Phi:
		for i, e := range x.Edges {
			if p := c.placeOf(fn, e); p.edge(x.Block().Preds[i], x.Block(), false) {
				continue
			}
			if why := c.nilMap(fn, x.Block().Preds[i].Instrs[len(x.Block().Preds[i].Instrs)-1], e, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.Parameter:
		if calls, ok := c.callsOf(x.Parent()); ok && len(calls) > 0 {
			for i, p := range x.Parent().Params {
				if p == x {
					for _, call := range calls {
						if why := c.nilMap(call.Parent(), call, call.Common().Args[i], seen); why != "" {
							return why
						}
					}
					return ""
				}
			}
		}
		return "a parameter"
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil {
			return c.nilResult(f, 0, seen)
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			if atRangeKey(l) {
				return ""
			}
			return "a map may not hold the key"
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && f.Blocks != nil {
				return c.nilResult(f, x.Index, seen)
			}
		}
	case *ssa.Lookup:
		if atRangeKey(x) {
			return ""
		}
		return "a map may not hold the key"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Global:
				return ""
			case *ssa.FieldAddr:
				id := fieldID(a)
				// every object made with the field, or nothing but made maps
				n := 0
				for _, f := range c.ruleFuncs() {
					for _, blk := range f.Blocks {
						for _, ins := range blk.Instrs {
							if st, ok := ins.(*ssa.Store); ok {
								if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldID(fa) == id {
									n++
									if why := c.nilMap(f, st, st.Val, seen); why != "" {
										if k, ok := st.Val.(*ssa.Const); ok && k.Value == nil {
											return "the field is set to nil"
										}
										return why
									}
								}
							}
							// made without the field
							if al, ok := ins.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), deref(a.X.Type())) {
								if !c.fieldGiven(al, a.Field) {
									return "made without the field in " + shortFn(f)
								}
							}
						}
					}
				}
				if n == 0 {
					return "the field is never set"
				}
				return ""
			case *ssa.Alloc:
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						if why := c.nilMap(fn, st, st.Val, seen); why != "" {
							return why
						}
					}
				}
				return ""
			}
		}
	}
	return "it may be nil"
}

func (c *Ctx) nilResult(f *ssa.Function, i int, seen map[ssa.Value]bool) string {
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || failing(ret) && len(ret.Results) > 1 && isNilK(ret.Results[i]) {
			continue
		}
		if why := c.nilMap(f, ret, ret.Results[i], seen); why != "" {
			return why
		}
	}
	return ""
}

// fieldGiven: an object is given the field, copied whole, or handed on empty
// to nobody.
func (c *Ctx) fieldGiven(al *ssa.Alloc, field int) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field == field {
				for _, r2 := range *x.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						return true
					}
				}
			}
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				return true
			}
		}
	}
	return false
}

// atRangeKey says whether a map is looked up at the key a loop over that map is at,
// and nothing in the function removes keys.
func atRangeKey(l *ssa.Lookup) bool {
	e, ok := l.Index.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return false
	}
	n, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	r, ok := n.Iter.(*ssa.Range)
	if !ok || r.X != l.X {
		return false
	}
	for _, b := range l.Parent().Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok && isBuiltin(c, "delete") {
				return false
			}
		}
	}
	return true
}
