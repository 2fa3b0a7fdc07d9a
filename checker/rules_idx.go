package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bounds: every index and slice expression, type assertion and map store is
// shown not to panic, from the conditions that dominate it.

// lin is a value plus a constant.
type lin struct {
	v string // "" for the constant itself
	k int64
}

type bounds struct {
	c  *Ctx
	fn *ssa.Function
	// edge[a][b] = d: a <= b + d
	edge map[string]map[string]int64
	seen map[ssa.Value]bool
	// what parameters are at the call looked at
	sub map[ssa.Value]ssa.Value
	// calls whose boolean result is known
	splits []split
	// the functions looked at so far
	chain []*ssa.Function
	// conditions being looked at
	inCond map[ssa.Value]bool
}

// split is a call of a function of the module with a known boolean result.
type split struct {
	call *ssa.Call
	idx  int
	yes  bool
}

func (b *bounds) le(x, y lin, d int64) {
	// x.v + x.k <= y.v + y.k + d
	w := y.k - x.k + d
	if b.edge[x.v] == nil {
		b.edge[x.v] = map[string]int64{}
	}
	if old, ok := b.edge[x.v][y.v]; !ok || w < old {
		b.edge[x.v][y.v] = w
	}
}

// proves x <= y + d.
func (b *bounds) proves(x, y lin, d int64) bool {
	dist := map[string]int64{x.v: 0}
	for i := 0; i < len(b.edge)+2; i++ {
		changed := false
		for u, du := range dist {
			for v, w := range b.edge[u] {
				if old, ok := dist[v]; !ok || du+w < old {
					dist[v] = du + w
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// x.v <= y.v + dist
	dv, ok := dist[y.v]
	if x.v == y.v && (!ok || dv > 0) {
		dv, ok = 0, true
	}
	return ok && dv+x.k <= y.k+d
}

// canon is the value something was set to, when it was set once.
func (b *bounds) canon(v ssa.Value) ssa.Value {
	for n := 0; n < 20; n++ {
		if w, ok := b.sub[v]; ok {
			v = w
			continue
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := b.c.allocOf(x.X); ok {
					if only := b.c.onlyStore(al); only != nil {
						v = only
						continue
					}
				}
			}
		}
		break
	}
	return v
}

// onlyStore is the value of a variable that is set once, as a whole.
func (c *Ctx) onlyStore(al *ssa.Alloc) ssa.Value {
	var only ssa.Value
	ok := true
	var look func(v ssa.Value)
	look = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == v {
					if only != nil {
						ok = false
					}
					only = y.Val
				} else {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !readOnly(y) {
					ok = false
				}
			case *ssa.IndexAddr:
				if !readOnly(y) {
					ok = false
				}
			case *ssa.MakeClosure:
				if f, is := y.Fn.(*ssa.Function); is {
					for i, b := range y.Bindings {
						if b == v {
							look(f.FreeVars[i])
						}
					}
				}
			default:
				ok = false
			}
		}
	}
	look(al)
	if !ok {
		return nil
	}
	return only
}

// readOnly: an address that is only loaded from.
func readOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnly(y) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnly(y) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// akey names the place an address is of; ok is false if what is there may
// change between two reads in the function.
func (b *bounds) akey(addr ssa.Value) (string, bool) {
	addr = b.canon(addr)
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k, ok := b.akey(x.X)
		if !ok || b.c.fieldStored(b.fn, x) {
			return "", false
		}
		return k + "." + fmt.Sprint(x.Field), true
	case *ssa.IndexAddr:
		k, ok := b.akey(x.X)
		l := b.lin(x.Index)
		return fmt.Sprintf("%s[%s+%d]", k, l.v, l.k), ok
	case *ssa.UnOp:
		return b.valKey(x), true
	case *ssa.Alloc:
		if b.c.onlyStore(x) != nil {
			return fmt.Sprintf("%p", x), true
		}
		// a struct whose fields are looked at one by one
		if _, ok := deref(x.Type()).Underlying().(*types.Struct); ok {
			return fmt.Sprintf("%p", x), true
		}
		return "", false
	case *ssa.Global:
		return x.String(), !b.c.globalStored(x)
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.Lookup, *ssa.Slice, *ssa.MakeSlice, *ssa.Field, *ssa.TypeAssert:
		return b.valKey(addr), true
	}
	return "", false
}

func (c *Ctx) globalStored(g *ssa.Global) bool {
	if g.Pkg == nil || !inModule(g.Pkg.Pkg) {
		return false
	}
	for _, fn := range c.p.Funcs {
		if fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// fieldStored reports whether the field may be stored to while fn runs: in fn,
// its closures, or the functions it calls.
func (c *Ctx) fieldStored(fn *ssa.Function, fa *ssa.FieldAddr) bool {
	if al := baseAlloc(fa); al != nil && al.Parent() == fn && setBeforeRead(al) {
		return false
	}
	if al, ok := c.allocOf(fa.X); ok {
		// a variable of the function
		if c.onlyStore(al) != nil {
			return false
		}
		if al.Parent() == fn && !al.Heap {
			for _, r := range *al.Referrers() {
				if f2, ok := r.(*ssa.FieldAddr); ok && f2.Field == fa.Field && !readOnly(f2) {
					return true
				}
			}
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					n++
				}
			}
			return n > 1
		}
	}
	if c.storesOf(fn)["new "+fieldID(fa)] {
		// objects made here are not what was handed in
		if _, ok := fa.X.(*ssa.Parameter); !ok {
			return true
		}
	}
	return c.storesOf(fn)[fieldID(fa)]
}

// baseAlloc is the variable a field is in.
func baseAlloc(fa *ssa.FieldAddr) *ssa.Alloc {
	for {
		switch x := fa.X.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			fa = x
		default:
			return nil
		}
	}
}

// madeHere is the object a pointer is to, when it was made in the function.
func (c *Ctx) madeHere(v ssa.Value) *ssa.Alloc {
	if al, ok := v.(*ssa.Alloc); ok {
		return al
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if cell, ok := c.allocOf(u.X); ok {
			al, _ := c.onlyStore(cell).(*ssa.Alloc)
			return al
		}
	}
	return nil
}

// handedOut: an object made here that leaves in no other way than as a result.
func (c *Ctx) handedOut(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			cell, ok := x.Addr.(*ssa.Alloc)
			if !ok || c.onlyStore(cell) != v {
				return false
			}
			var look func(a ssa.Value) bool
			look = func(a ssa.Value) bool {
				for _, r := range *a.Referrers() {
					switch y := r.(type) {
					case *ssa.UnOp:
						if !c.handedOut(y) {
							return false
						}
					case *ssa.MakeClosure:
						f := y.Fn.(*ssa.Function)
						for i, b := range y.Bindings {
							if b == a && !look(f.FreeVars[i]) {
								return false
							}
						}
					}
				}
				return true
			}
			if !look(cell) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// setBeforeRead: a variable whose address is not handed on, and that is not
// stored to after it was read.
func setBeforeRead(al *ssa.Alloc) bool {
	var stores, loads []ssa.Instruction
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if !look(x) {
					return false
				}
			case *ssa.IndexAddr:
				if x.X != v || !look(x) {
					return false
				}
			case *ssa.Store:
				if x.Val == v {
					return false
				}
				stores = append(stores, x)
			case *ssa.UnOp:
				loads = append(loads, x)
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	if !look(al) {
		return false
	}
	for _, l := range loads {
		for _, s := range stores {
			if l.Block() == s.Block() && before(l, s) || reaches(l.Block(), s.Block()) {
				return false
			}
		}
	}
	return true
}

func fieldID(fa *ssa.FieldAddr) string {
	return fmt.Sprintf("%s.%d", deref(fa.X.Type()).String(), fa.Field)
}

func (c *Ctx) storesOf(fn *ssa.Function) map[string]bool {
	if c.fieldStores == nil {
		c.fieldStores = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := c.fieldStores[fn]; ok {
		return m
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						// what a new object is given is not a change
						if al := c.madeHere(fa.X); al != nil && al.Parent() == f {
							if f == fn && !c.handedOut(al) {
								out["new "+fieldID(fa)] = true
							}
							continue
						}
						out[fieldID(fa)] = true
					}
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						walk(g)
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil && inModule(g.Pkg.Pkg) {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	c.fieldStores[fn] = out
	return out
}

// pureNames always give the same result for the same arguments.
func pureCall(n string) bool {
	for _, p := range []string{"strings.", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Clean", "path/filepath.Ext", "bytes.LastIndexByte", "bytes.IndexByte"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (b *bounds) valKey(v ssa.Value) string {
	v = b.canon(v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.ExactString()
		}
		return "nil"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k, ok := b.akey(x.X); ok {
				return "*" + k
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if k, ok := b.akey(fa.X); ok {
					return fmt.Sprintf("*%s.%d at %p", k, fa.Field, b.firstLoad(x, fa, k))
				}
			}
		}
	case *ssa.Field:
		return b.valKey(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.Convert:
		return b.valKey(x.X)
	case *ssa.Call:
		// accessors of the same object
		f := x.Call.StaticCallee()
		if f != nil && len(x.Call.Args) == 1 && strings.HasPrefix(f.Name(), "Get") {
			return shortFn(f) + "(" + b.valKey(x.Call.Args[0]) + ")"
		}
		if n := calleeOf(&x.Call); pureCall(n) {
			var as []string
			for _, a := range x.Call.Args {
				as = append(as, b.valKey(a))
			}
			return n + "(" + strings.Join(as, ",") + ")"
		}
	}
	return fmt.Sprintf("%p", v)
}

// firstLoad is the earliest load of the same field that must have given the
// same: it comes before this one on every path, and nothing on the way between
// them stores to the field.
func (b *bounds) firstLoad(x *ssa.UnOp, fa *ssa.FieldAddr, base string) *ssa.UnOp {
	key := fmt.Sprintf("%p %s", x, base)
	if r, ok := b.c.firstLoads[key]; ok {
		return r
	}
	if b.c.firstLoads == nil {
		b.c.firstLoads = map[string]*ssa.UnOp{}
	}
	fn := x.Parent()
	id := fieldID(fa)
	inClosure := false
	for _, a := range fn.AnonFuncs {
		if b.c.storesOf(a)[id] {
			inClosure = true
		}
	}
	kills := func(ins ssa.Instruction) bool {
		switch y := ins.(type) {
		case *ssa.Store:
			if f2, ok := y.Addr.(*ssa.FieldAddr); ok {
				return fieldID(f2) == id
			}
			// the whole object
			return types.Identical(deref(y.Addr.Type()), deref(fa.X.Type()))
		case ssa.CallInstruction:
			g := y.Common().StaticCallee()
			if g == nil {
				return inClosure
			}
			if g.Pkg != nil && inModule(g.Pkg.Pkg) {
				m := b.c.storesOf(g)
				return m[id] || m["new "+id] || inClosure
			}
			return inClosure
		case *ssa.RunDefers:
			return true
		}
		return false
	}
	// clear walks back from x to d
	clear := func(d *ssa.UnOp) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var back func(blk *ssa.BasicBlock, from int) bool
		back = func(blk *ssa.BasicBlock, from int) bool {
			for i := from; i >= 0; i-- {
				if blk.Instrs[i] == ssa.Instruction(d) {
					return true
				}
				if kills(blk.Instrs[i]) {
					return false
				}
			}
			for _, p := range blk.Preds {
				if !seen[p] {
					seen[p] = true
					if !back(p, len(p.Instrs)-1) {
						return false
					}
				}
			}
			return len(blk.Preds) > 0
		}
		at := 0
		for i, ins := range x.Block().Instrs {
			if ins == ssa.Instruction(x) {
				at = i
			}
		}
		return back(x.Block(), at-1)
	}
	best := x
	for _, blk := range fn.Blocks {
		for _, ins := range blk.Instrs {
			d, ok := ins.(*ssa.UnOp)
			if !ok || d.Op != token.MUL || d == x {
				continue
			}
			f2, ok := d.X.(*ssa.FieldAddr)
			if !ok || f2.Field != fa.Field || fieldID(f2) != id {
				continue
			}
			if k, ok := b.akey(f2.X); !ok || k != base {
				continue
			}
			if d.Block() == x.Block() && !before(d, x) || d.Block() != x.Block() && !d.Block().Dominates(x.Block()) {
				continue
			}
			if (best == x || d.Block() == best.Block() && before(d, best) || d.Block() != best.Block() && d.Block().Dominates(best.Block())) && clear(d) {
				best = d
			}
		}
	}
	b.c.firstLoads[key] = best
	return best
}

func (b *bounds) lenKey(x ssa.Value) lin {
	x = b.canon(x)
	switch y := x.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.String {
			return lin{"", int64(len(constant.StringVal(y.Value)))}
		}
		return lin{"", 0}
	case *ssa.Slice:
		if pt, ok := y.X.Type().Underlying().(*types.Pointer); ok && y.Low == nil && y.High == nil {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return lin{"", at.Len()}
			}
		}
	case *ssa.MakeSlice:
		return b.lin(y.Len)
	case *ssa.ChangeType:
		return b.lenKey(y.X)
	}
	if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.String() == "os.Args" {
			// never empty on the systems this runs on
			b.le(lin{"", 1}, lin{"len " + b.valKey(x), 0}, 0)
		}
	}
	return lin{"len " + b.valKey(x), 0}
}

// lin is a value as another one plus a constant; facts about it are added.
func (b *bounds) lin(v ssa.Value) lin {
	v = b.canon(v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			return lin{"", n}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.Value)
				l := b.lin(x.X)
				if x.Op == token.SUB {
					n = -n
				}
				return lin{l.v, l.k + n}
			}
			if c, ok := x.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && x.Op == token.ADD {
				n, _ := constant.Int64Val(c.Value)
				l := b.lin(x.Y)
				return lin{l.v, l.k + n}
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			l := b.lenKey(x.Call.Args[0])
			if l.v != "" {
				b.le(lin{"", 0}, l, 0)
				b.lenFacts(x.Call.Args[0], l)
			}
			return l
		}
		n := calleeOf(&x.Call)
		if (strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.")) && strings.Contains(n, "Index") {
			l := lin{b.valKey(v), 0}
			b.le(lin{"", -1}, l, 0)
			// index + len(sep) <= len(s), if it was found
			sep := int64(1)
			if base := n[strings.LastIndexByte(n, '.')+1:]; base == "Index" || base == "LastIndex" {
				sep = 0
				if c, ok := x.Call.Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					sep = int64(len(constant.StringVal(c.Value)))
				}
			}
			b.le(l, b.lenKey(x.Call.Args[0]), -min64(sep, 1))
			if sep > 1 && b.proves(lin{"", 0}, l, 0) {
				b.le(l, b.lenKey(x.Call.Args[0]), -sep)
			}
			return l
		}
	case *ssa.Convert:
		return b.lin(x.X)
	case *ssa.Phi:
		l := lin{b.valKey(v), 0}
		if b.seen[x] {
			return l
		}
		b.seen[x] = true
		// a counter: starts at constants, and only grows
		lo := int64(1 << 40)
		ok := true
		for _, e := range x.Edges {
			if c, is := e.(*ssa.Const); is && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.Value)
				if n < lo {
					lo = n
				}
				continue
			}
			el := b.lin(e)
			if el.v == l.v && el.k >= 0 {
				continue
			}
			if b.proves(lin{"", 0}, el, 0) && lo > 0 {
				lo = 0
				continue
			}
			ok = false
		}
		if ok && lo < 1<<40 {
			b.le(lin{"", lo}, l, 0)
		}
		// only counts down from something: stays below it
		for _, e := range x.Edges {
			el := b.lin(e)
			if el.v == l.v || el.v == "" {
				continue
			}
			down := true
			for _, e2 := range x.Edges {
				l2 := b.lin(e2)
				if e2 != e && !(l2.v == l.v && l2.k <= 0) {
					down = false
				}
			}
			if down {
				b.le(l, el, 0)
			}
		}
		return l
	case *ssa.Extract:
		// the index of a range over a string
		if n, ok := x.Tuple.(*ssa.Next); ok && n.IsString && x.Index == 1 {
			l := lin{b.valKey(v), 0}
			b.le(lin{"", 0}, l, 0)
			if r, ok := n.Iter.(*ssa.Range); ok {
				b.le(l, b.lenKey(r.X), -1)
			}
			return l
		}
	}
	return lin{b.valKey(v), 0}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// lenFacts are what is known about the length of what a call returns.
func (b *bounds) lenFacts(x ssa.Value, l lin) {
	call, ok := b.canon(x).(*ssa.Call)
	if !ok {
		return
	}
	switch calleeOf(&call.Call) {
	case "strings.Split", "strings.SplitN", "strings.SplitAfter", "bytes.Split":
		if c, ok := call.Call.Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) != "" {
			b.le(lin{"", 1}, l, 0)
		}
	case "path/filepath.Base", "path/filepath.Clean", "path/filepath.Dir", "path.Base", "path.Clean", "path.Dir":
		b.le(lin{"", 1}, l, 0)
	}
}

// facts adds the conditions that hold in a block.
func (b *bounds) facts(blk *ssa.BasicBlock) {
	for d := blk; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id {
			continue
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		b.cond(ifi.Cond, id.Succs[0] == d)
	}
}

func (b *bounds) cond(v ssa.Value, yes bool) {
	v = b.canon(v)
	switch x := v.(type) {
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			b.splits = append(b.splits, split{call, x.Index, yes})
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b.cond(x.X, !yes)
		}
	case *ssa.Phi:
		// a && c, a || c
		if b.inCond[x] {
			return
		}
		b.inCond[x] = true
		defer delete(b.inCond, x)
		var known *bool
		var other ssa.Value
		var from *ssa.BasicBlock
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				k := constant.BoolVal(c.Value)
				if known != nil && *known != k {
					return
				}
				known = &k
			} else {
				if other != nil {
					return
				}
				other = e
				from = x.Block().Preds[i]
			}
		}
		if known != nil && other != nil && *known != yes {
			b.cond(other, yes)
			b.facts(from)
		}
	case *ssa.Call:
		n := calleeOf(&x.Call)
		b.splits = append(b.splits, split{x, -1, yes})
		if yes && (n == "strings.HasPrefix" || n == "strings.HasSuffix" || n == "strings.Contains") {
			if c, ok := x.Call.Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				b.le(lin{"", int64(len(constant.StringVal(c.Value)))}, b.lenKey(x.Call.Args[0]), 0)
			} else {
				b.le(b.lenKey(x.Call.Args[1]), b.lenKey(x.Call.Args[0]), 0)
			}
		}
	case *ssa.BinOp:
		op := x.Op
		if !yes {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			default:
				return
			}
		}
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			// s != ""
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := p[1].(*ssa.Const); ok && c.Value != nil {
					s := constant.StringVal(c.Value)
					if op == token.NEQ && s == "" {
						b.le(lin{"", 1}, b.lenKey(p[0]), 0)
					}
					if op == token.EQL {
						b.le(lin{"", int64(len(s))}, b.lenKey(p[0]), 0)
					}
				}
			}
			return
		}
		bt, ok := x.X.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			return
		}
		l, r := b.lin(x.X), b.lin(x.Y)
		switch op {
		case token.LSS:
			b.le(l, r, -1)
		case token.LEQ:
			b.le(l, r, 0)
		case token.GTR:
			b.le(r, l, -1)
		case token.GEQ:
			b.le(r, l, 0)
		case token.EQL:
			b.le(l, r, 0)
			b.le(r, l, 0)
		case token.NEQ:
			// what is at least n and is not n is more
			if b.proves(r, l, 0) {
				b.le(r, l, -1)
			} else if b.proves(l, r, 0) {
				b.le(l, r, -1)
			}
		}
	}
}

func (c *Ctx) newBounds(fn *ssa.Function) *bounds {
	return &bounds{c: c, fn: fn, edge: map[string]map[string]int64{}, seen: map[ssa.Value]bool{}, inCond: map[ssa.Value]bool{}, sub: map[ssa.Value]ssa.Value{}}
}

func (b *bounds) clone() *bounds {
	n := b.c.newBounds(b.fn)
	for k, m := range b.edge {
		n.edge[k] = map[string]int64{}
		for j, w := range m {
			n.edge[k][j] = w
		}
	}
	for k, v := range b.sub {
		n.sub[k] = v
	}
	n.chain = append([]*ssa.Function{}, b.chain...)
	return n
}

// oblige decides a goal at an instruction from the conditions before it: in
// its function, in the function a literal is in, at every call of an
// unexported function, and in a function of the module whose result is tested.
func (c *Ctx) oblige(fn *ssa.Function, at ssa.Instruction, goal func(b *bounds) bool) bool {
	return c.obligeIn(c.newBounds(fn), fn, at, goal, 0)
}

func (c *Ctx) obligeIn(b *bounds, fn *ssa.Function, at ssa.Instruction, goal func(b *bounds) bool, depth int) bool {
	b.fn = fn
	if contains(b.chain, fn) {
		return false
	}
	b.chain = append(b.chain, fn)
	goal(b) // what the goal is about
	b.facts(at.Block())
	// facts that need others
	b.facts(at.Block())
	b.rangePhis(fn)
	if goal(b) || b.proves(lin{"", 1}, lin{"", 0}, 0) {
		return true
	}
	for _, sp := range b.splits {
		f := sp.call.Call.StaticCallee()
		if f == nil || f.Blocks == nil || f.Pkg == nil || !inModule(f.Pkg.Pkg) || depth > 2 || contains(b.chain, f) {
			continue
		}
		all, n := true, 0
		for _, blk := range f.Blocks {
			ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			i := sp.idx
			if i < 0 {
				i = 0
			}
			if k, ok := ret.Results[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != sp.yes {
				continue
			}
			n++
			b2 := b.clone()
			for j, p := range f.Params {
				b2.sub[p] = sp.call.Call.Args[j]
			}
			b2.fn = f
			b2.facts(blk)
			b2.facts(blk)
			if _, ok := ret.Results[i].(*ssa.Const); !ok {
				b2.cond(ret.Results[i], sp.yes)
			}
			b2.fn = fn
			if !goal(b2) && !b2.proves(lin{"", 1}, lin{"", 0}, 0) {
				all = false
			}
		}
		if all && n > 0 {
			return true
		}
	}
	if depth > 2 {
		return false
	}
	if fn.Parent() != nil {
		// a literal: where it is made
		for _, blk := range fn.Parent().Blocks {
			for _, ins := range blk.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					return c.obligeIn(b.clone(), fn.Parent(), mc, goal, depth+1)
				}
			}
		}
		return false
	}
	calls, ok := c.callsOf(fn)
	if !ok || len(calls) == 0 {
		return false
	}
	for _, call := range calls {
		if call.Parent() == fn {
			return false
		}
		b2 := b.clone()
		for j, p := range fn.Params {
			b2.sub[p] = call.Common().Args[j]
		}
		if !c.obligeIn(b2, call.Parent(), call, goal, depth+1) {
			return false
		}
	}
	return true
}

func contains(l []*ssa.Function, f *ssa.Function) bool {
	for _, g := range l {
		if g == f {
			return true
		}
	}
	return false
}

// callsOf are the calls of an unexported function that is only called.
func (c *Ctx) callsOf(fn *ssa.Function) ([]ssa.CallInstruction, bool) {
	if c.calls == nil {
		c.calls = map[*ssa.Function][]ssa.CallInstruction{}
		c.asValue = map[*ssa.Function]bool{}
		for _, f := range c.p.Funcs {
			for _, blk := range f.Blocks {
				for _, ins := range blk.Instrs {
					ci, isCall := ins.(ssa.CallInstruction)
					for _, op := range ins.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						g, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if isCall && ci.Common().Value == ssa.Value(g) && op == &ci.Common().Value {
							c.calls[g] = append(c.calls[g], ci)
						} else {
							c.asValue[g] = true
						}
					}
				}
			}
		}
	}
	if fn.Object() == nil || fn.Object().Exported() || c.asValue[fn] {
		return nil, false
	}
	return c.calls[fn], true
}

// rangePhis: past the first character of a range over a string, what is
// carried around the loop is what an earlier iteration made.
func (b *bounds) rangePhis(fn *ssa.Function) {
	for _, blk := range fn.Blocks {
		for _, ins := range blk.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
				continue
			}
			for _, in2 := range blk.Instrs {
				nx, ok := in2.(*ssa.Next)
				if !ok || !nx.IsString {
					continue
				}
				for _, r := range *nx.Referrers() {
					ex, ok := r.(*ssa.Extract)
					if !ok || ex.Index != 1 || !b.proves(lin{"", 1}, b.lin(ex), 0) {
						continue
					}
					min := int64(1 << 30)
					for i, e := range ph.Edges {
						if blk.Dominates(blk.Preds[i]) {
							min = min64(min, minLen(e, 0))
						}
					}
					b.le(lin{"", min}, b.lenKey(ph), 0)
				}
			}
		}
	}
}

// minLen is the least length a string may have.
func minLen(v ssa.Value, depth int) int64 {
	if depth > 5 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return int64(len(constant.StringVal(x.Value)))
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return minLen(x.X, depth+1) + minLen(x.Y, depth+1)
		}
	case *ssa.Convert:
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return 1
		}
	case *ssa.Phi:
		min := int64(1 << 30)
		for _, e := range x.Edges {
			min = min64(min, minLen(e, depth+1))
		}
		return min
	}
	return 0
}

// inBounds decides 0 <= i < len(x).
func (c *Ctx) inBounds(fn *ssa.Function, at ssa.Instruction, x, i ssa.Value) bool {
	if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
			if k, ok := i.(*ssa.Const); ok {
				n, _ := constant.Int64Val(k.Value)
				return n >= 0 && n < arr.Len()
			}
			return c.oblige(fn, at, func(b *bounds) bool {
				l := b.lin(i)
				return b.proves(lin{"", 0}, l, 0) && b.proves(l, lin{"", arr.Len()}, -1)
			})
		}
	}
	return c.oblige(fn, at, func(b *bounds) bool {
		b.lenFact(x)
		l := b.lin(i)
		return b.proves(lin{"", 0}, l, 0) && b.proves(l, b.lenKey(x), -1)
	})
}

func (b *bounds) lenFact(x ssa.Value) {
	l := b.lenKey(x)
	if l.v != "" {
		b.le(lin{"", 0}, l, 0)
		b.lenFacts(x, l)
	}
}

// comparison: the closure of a sorting function, what it calls with its
// positions, and the methods of sort.Interface are given positions of the list.
func (c *Ctx) comparison(fn *ssa.Function, x, i ssa.Value) bool {
	return c.positions(fn, x, i, 0)
}

func (c *Ctx) positions(fn *ssa.Function, x, i ssa.Value, depth int) bool {
	par, ok := i.(*ssa.Parameter)
	if !ok || depth > 4 {
		return false
	}
	if fn.Signature.Recv() != nil && (fn.Name() == "Less" || fn.Name() == "Swap") {
		return true
	}
	if fn.Parent() == nil {
		return false
	}
	pi := -1
	for k, p := range fn.Params {
		if p == par {
			pi = k
		}
	}
	var mc *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if m, ok := ins.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fn) {
				mc = m
			}
		}
	}
	if mc == nil || pi < 0 {
		return false
	}
	if forSort(mc) {
		for _, r := range *mc.Referrers() {
			if cl, ok := r.(*ssa.Call); !ok || len(cl.Call.Args) == 0 || c.addrKey(cl.Call.Args[0]) != c.addrKey(x) {
				return false
			}
		}
		return true
	}
	// every use of the closure is a call with a position
	found := false
	key := c.addrKey(mc)
	for _, r := range *mc.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if _, ok := u.Addr.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.Call:
			if u.Call.Value != ssa.Value(mc) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	for _, f := range withClosures(fn.Parent()) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if *op == nil || c.addrKey(*op) != key || *op == ssa.Value(mc) {
						continue
					}
					if cl, ok := ins.(*ssa.Call); ok && cl.Call.Value == *op {
						continue
					}
					return false
				}
				cl, ok := ins.(*ssa.Call)
				if !ok || cl.Call.IsInvoke() || c.addrKey(cl.Call.Value) != key {
					continue
				}
				found = true
				if !c.positions(f, x, cl.Call.Args[pi], depth+1) {
					return false
				}
			}
		}
	}
	return found
}

func withClosures(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withClosures(a)...)
	}
	return out
}

func boundsRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "every index and slice expression is within bounds for every input, by difference constraints from the conditions that dominate it; no unchecked type assertion, no store into a map that may be nil, no reachable explicit panic"}
	for _, fn := range c.ruleFuncs() {
		r.Functions++
		report := func(pos token.Pos, what string) {
			r.Findings = append(r.Findings, Finding{Key: shortFn(topOf(fn)) + " " + what, Pos: c.p.pos(pos), Msg: what + " in " + shortFn(fn) + " may panic: the conditions before it do not show that it is within bounds"})
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.IndexAddr:
					r.Obligations++
					if !c.inBounds(fn, x, x.X, x.Index) && !c.comparison(fn, x.X, x.Index) {
						report(x.Pos(), "index")
					}
				case *ssa.Index:
					r.Obligations++
					if !c.inBounds(fn, x, x.X, x.Index) && !c.comparison(fn, x.X, x.Index) {
						report(x.Pos(), "index")
					}
				case *ssa.Lookup:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						r.Obligations++
						if !c.inBounds(fn, x, x.X, x.Index) {
							report(x.Pos(), "index")
						}
					}
				case *ssa.Slice:
					if x.Low == nil && x.High == nil {
						continue
					}
					r.Obligations++
					ok := c.oblige(fn, x, func(bb *bounds) bool {
						bb.lenFact(x.X)
						lo, hi := lin{"", 0}, bb.lenKey(x.X)
						if x.Low != nil {
							lo = bb.lin(x.Low)
						}
						if x.High != nil {
							hi = bb.lin(x.High)
						}
						return bb.proves(lin{"", 0}, lo, 0) && bb.proves(lo, hi, 0) && bb.proves(hi, bb.lenKey(x.X), 0)
					})
					if !ok && !c.stackPop(fn, x) {
						report(x.Pos(), "slice")
					}
				case *ssa.TypeAssert:
					if !x.CommaOk {
						r.Obligations++
						r.Findings = append(r.Findings, Finding{Key: shortFn(topOf(fn)) + " assertion", Pos: c.p.pos(x.Pos()), Msg: "type assertion in " + shortFn(fn) + " panics for other types"})
					}
				case *ssa.Panic:
					if x.Pos().IsValid() {
						r.Obligations++
						if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
							continue
						}
						r.Findings = append(r.Findings, Finding{Key: shortFn(topOf(fn)) + " panic", Pos: c.p.pos(x.Pos()), Msg: "explicit panic in " + shortFn(fn)})
					}
				}
			}
		}
	}
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// stackPop: the slice drops the last element of a list kept in a field, and
// the function, or every function that calls it, put one there before. Nothing
// else changes the length of the list.
func (c *Ctx) stackPop(fn *ssa.Function, sl *ssa.Slice) bool {
	fa := fieldLoad(sl.X)
	if fa == nil {
		return false
	}
	id := fieldID(fa)
	// what every function of the module does to the field
	for _, f := range c.ruleFuncs() {
		for _, ev := range fieldEvents(f, id) {
			if ev.delta == 0 {
				return false
			}
		}
	}
	return c.popBalanced(fn, sl, id, 0)
}

type fieldEvent struct {
	ins   ssa.Instruction
	delta int
}

// fieldLoad is the field a value was loaded from.
func fieldLoad(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa
		}
	}
	return nil
}

// fieldEvents are the stores to a field: of one more, of one less, or 0 for
// another change; new objects and resets at the start of a file aside.
func fieldEvents(fn *ssa.Function, id string) []fieldEvent {
	var out []fieldEvent
	for _, blk := range fn.Blocks {
		for _, ins := range blk.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldID(fa) != id {
				continue
			}
			d := 0
			switch v := st.Val.(type) {
			case *ssa.Call:
				if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if f2 := fieldLoad(v.Call.Args[0]); f2 != nil && fieldID(f2) == id {
						d = 0
						if sl, ok := v.Call.Args[1].(*ssa.Slice); ok {
							if at, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok {
								d = int(at.Len())
							}
						}
					}
				}
			case *ssa.Slice:
				if f2 := fieldLoad(v.X); f2 != nil && fieldID(f2) == id && (v.Low == nil || isZero(v.Low)) {
					if bo, ok := v.High.(*ssa.BinOp); ok && bo.Op == token.SUB {
						if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
							if n, ok := constant.Int64Val(k.Value); ok && n > 0 && isLenOf(bo.X, id) {
								d = -int(n)
							}
						}
					}
				}
			}
			if d == 0 {
				if al, ok := fa.X.(*ssa.Alloc); ok && !isParamCopy(al) {
					continue
				}
				if fn.Name() == "OnStart" {
					continue
				}
			}
			out = append(out, fieldEvent{st, d})
		}
	}
	return out
}

func isLenOf(v ssa.Value, id string) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return false
	}
	f := fieldLoad(call.Call.Args[0])
	return f != nil && fieldID(f) == id
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0
}

func isParamCopy(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if _, ok := st.Val.(*ssa.Parameter); ok {
				return true
			}
		}
	}
	return false
}

// popBalanced: in fn, an addition comes before the instruction on every path,
// and is not taken off in between.
func (c *Ctx) popBalanced(fn *ssa.Function, at ssa.Instruction, id string, depth int) bool {
	if depth > 3 {
		return false
	}
	// additions and removals of fn, those of the functions it calls included
	var evs []fieldEvent
	evs = append(evs, fieldEvents(fn, id)...)
	for _, blk := range fn.Blocks {
		for _, ins := range blk.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil || g == fn || g.Blocks == nil {
				continue
			}
			ge := fieldEvents(g, id)
			if len(ge) == 1 && len(g.Blocks) == 1 {
				evs = append(evs, fieldEvent{ins, ge[0].delta})
			}
		}
	}
	pushes, pops := 0, 0
	for _, e := range evs {
		if e.ins == at || (e.ins.Block() == at.Block() || e.ins.Block().Dominates(at.Block()) || at.Block().Dominates(e.ins.Block())) {
			if e.delta > 0 && (runsBefore(e.ins, at)) {
				pushes += e.delta
			}
			if e.delta < 0 {
				pops -= e.delta
			}
		} else if e.delta < 0 {
			pops -= e.delta
		}
	}
	if pushes > 0 {
		return pops <= pushes
	}
	// a function that only takes one off
	if len(fn.Blocks) != 1 {
		return false
	}
	if fn.Parent() != nil {
		for _, blk := range fn.Parent().Blocks {
			for _, ins := range blk.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						return c.popBalanced(fn.Parent(), ins, id, depth+1)
					}
				}
			}
		}
		return false
	}
	calls, ok := c.callsOf(fn)
	if !ok || len(calls) == 0 {
		return false
	}
	for _, call := range calls {
		if !c.popBalanced(call.Parent(), call, id, depth+1) {
			return false
		}
	}
	return true
}

// runsBefore: a always runs before b.
func runsBefore(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, ins := range a.Block().Instrs {
		if ins == a {
			return true
		}
		if ins == b {
			return false
		}
	}
	return false
}
