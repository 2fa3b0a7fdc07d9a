package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The order in which Go walks a map is random. A loop over a map may only do
// what comes out the same for every order.

// loopOf are the blocks of the loop with header h.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if out[b] {
			continue
		}
		out[b] = true
		work = append(work, b.Preds...)
	}
	return out
}

// mapLoop is one loop over a map.
type mapLoop struct {
	kinds  []string
	c      *Ctx
	fn     *ssa.Function
	rng    *ssa.Range
	next   *ssa.Next
	blocks map[*ssa.BasicBlock]bool
	region map[*ssa.BasicBlock]bool // the loop and what is left through from inside it
	why    []string
}

func (l *mapLoop) bad(pos token.Pos, format string, args ...interface{}) {
	l.kinds = append(l.kinds, format)
	l.why = append(l.why, l.c.p.pos(pos)+": "+fmt.Sprintf(format, args...))
}

// varies reports whether a value can differ from one iteration to the next.
func (l *mapLoop) varies(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Parameter, *ssa.FreeVar, *ssa.Builtin:
		return false
	case *ssa.Next:
		return x == l.next || l.blocks[x.Block()]
	case ssa.Instruction:
		if !l.region[x.Block()] {
			return false
		}
		if _, ok := x.(*ssa.Call); ok {
			return true
		}
		for _, op := range x.Operands(nil) {
			if l.varies(*op, seen) {
				return true
			}
		}
	}
	return false
}

// fresh reports whether an address belongs to an object made in the iteration.
func (l *mapLoop) fresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return l.region[x.Block()]
	case *ssa.MakeMap, *ssa.MakeSlice:
		return l.region[x.(ssa.Instruction).Block()]
	case *ssa.FieldAddr:
		return l.fresh(x.X)
	case *ssa.IndexAddr:
		return l.fresh(x.X)
	case *ssa.Slice:
		return l.fresh(x.X)
	case *ssa.UnOp:
		// a variable of the iteration that only holds what the iteration made
		if al, ok := x.X.(*ssa.Alloc); ok && l.region[al.Block()] {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !l.fresh(st.Val) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// sortedAfter reports whether every use of a list outside the loop is a
// measurement, or comes after the list was sorted.
func (l *mapLoop) sortedAfter(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, u := range unsortedUses(v) {
		if l.blocks[u.Block()] {
			continue // judged with the loop
		}
		l.bad(u.Pos(), "a list gathered in map order is used before it is sorted")
		return false
	}
	return true
}

// unsortedUses are the uses of a list that are not preceded by a sort of it.
func unsortedUses(v ssa.Value) []ssa.Instruction {
	var sorts, uses []ssa.Instruction
	var collect func(v ssa.Value)
	done := map[ssa.Value]bool{}
	collect = func(v ssa.Value) {
		if done[v] || v.Referrers() == nil {
			return
		}
		done[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				collect(x)
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
				collect(r.(ssa.Value))
			case *ssa.Store:
				al, ok := x.Addr.(*ssa.Alloc)
				if l, is := v.(*ssa.UnOp); is && ok && l.X == ssa.Value(al) {
					continue // given to itself
				}
				if !ok || x.Val != v {
					uses = append(uses, x)
					continue
				}
				// a variable that holds it
				for _, r2 := range *al.Referrers() {
					switch y := r2.(type) {
					case *ssa.UnOp:
						if y.Block() == x.Block() && before(x, y) || reaches(x.Block(), y.Block()) {
							collect(y)
						}
					case *ssa.Store, *ssa.DebugRef:
					case *ssa.MakeClosure:
						if !forSort(y) {
							uses = append(uses, x)
						}
					default:
						uses = append(uses, x)
					}
				}
			case *ssa.Call:
				n := calleeOf(&x.Call)
				switch {
				case isSort(x):
					sorts = append(sorts, x)
				case n == "builtin len" || n == "builtin cap" || isBuiltin(x, "len") || isBuiltin(x, "cap"):
				case isAppend(x):
					collect(x)
				case sortsResult(x):
				default:
					uses = append(uses, x)
				}
			default:
				uses = append(uses, r)
			}
		}
	}
	collect(v)
	var out []ssa.Instruction
	for _, u := range uses {
		if ret, ok := u.(*ssa.Return); ok && failing(ret) {
			continue
		}
		def, _ := v.(ssa.Instruction)
		if avoids(def, u, sorts) {
			out = append(out, u)
		}
	}
	return out
}

// avoids reports whether some path leads from def (or from the entry) to u
// without any of the sorts on it.
func avoids(def, u ssa.Instruction, sorts []ssa.Instruction) bool {
	stop := map[ssa.Instruction]bool{}
	for _, s := range sorts {
		stop[s] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var from func(b *ssa.BasicBlock, is []ssa.Instruction) bool
	from = func(b *ssa.BasicBlock, is []ssa.Instruction) bool {
		for _, i := range is {
			if stop[i] {
				return false
			}
			if i == u {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, s.Instrs) {
					return true
				}
			}
		}
		return false
	}
	if def == nil {
		b := u.Parent().Blocks[0]
		return from(b, b.Instrs)
	}
	if def.Parent() != u.Parent() {
		return true
	}
	b := def.Block()
	for k, i := range b.Instrs {
		if i == def {
			return from(b, b.Instrs[k+1:])
		}
	}
	return true
}

// sortsResult: calls that put their argument in order themselves.
func sortsResult(c *ssa.Call) bool {
	n := calleeOf(&c.Call)
	return n == "strs.SortUniq" || n == "strs.SortUniqModify" || n == "strs.SliceToMap" || n == "strs.Intersection"
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

func isAppend(c *ssa.Call) bool { return isBuiltin(c, "append") }

func isBuiltin(c *ssa.Call, name string) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

// failing reports whether a return hands back an error.
func failing(r *ssa.Return) bool {
	if len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	return isErrorType(last.Type()) && !isNilConst(last)
}

// analyse decides whether the loop comes out the same for every order.
func (l *mapLoop) analyse() {
	h := l.next.Block()
	l.blocks = loopOf(h)
	l.region = map[*ssa.BasicBlock]bool{}
	for _, b := range l.fn.Blocks {
		if l.blocks[b] {
			l.region[b] = true
			continue
		}
		// left through from inside, not through the header
		for p := b; p != nil; p = p.Idom() {
			if l.blocks[p] && p != h {
				l.region[b] = true
				break
			}
			if p == h {
				break
			}
		}
	}
	for _, b := range l.fn.Blocks {
		if !l.region[b] {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				if b == h {
					l.carried(x)
				}
			case *ssa.Store:
				if l.fresh(x.Addr) {
					continue
				}
				if !l.varies(x.Val, map[ssa.Value]bool{}) && !l.varies(x.Addr, map[ssa.Value]bool{}) {
					continue
				}
				if l.ownSlot(x.Addr) || l.scratch(x.Addr) {
					continue
				}
				if st := storeAppend(x); st {
					l.storedList(x)
					continue
				}
				l.bad(x.Pos(), "a store that depends on the order of the map")
			case *ssa.MapUpdate:
				if l.fresh(x.Map) || !l.varies(x.Value, map[ssa.Value]bool{}) || l.fromElem(x.Map, map[ssa.Value]bool{}) || l.byKey(x.Value, x.Key, map[ssa.Value]bool{}) {
					continue
				}
				if l.fromKey(x.Key, map[ssa.Value]bool{}) {
					continue
				}
				if call, ok := x.Value.(*ssa.Call); ok && isAppend(call) {
					l.bad(x.Pos(), "lists in a map are gathered in map order")
					continue
				}
				l.bad(x.Pos(), "a map entry may be set more than once, in map order")
			case *ssa.Return:
				if failing(x) {
					continue
				}
				for _, r := range x.Results {
					if l.varies(r, map[ssa.Value]bool{}) {
						l.bad(x.Pos(), "the result depends on the order of the map")
						break
					}
				}
			case *ssa.Send, *ssa.Go, *ssa.Select:
				l.bad(ins.Pos(), "a message is sent in map order")
			case *ssa.Call:
				l.call(x)
			case *ssa.Defer:
				l.bad(x.Pos(), "calls are deferred in map order")
			}
		}
	}
}

// fromKey reports whether a map key is that of the loop, so that every
// iteration has its own.
func (l *mapLoop) fromKey(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == ssa.Value(l.next) && x.Index == 1
	case *ssa.ChangeType:
		return l.fromKey(x.X, seen)
	case *ssa.Convert:
		return l.fromKey(x.X, seen)
	case *ssa.MakeInterface:
		return l.fromKey(x.X, seen)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !l.fromKey(st.Val, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// byKey reports whether what a value says about the iteration it gets from
// the key it is stored under.
func (l *mapLoop) byKey(v, key ssa.Value, seen map[ssa.Value]bool) bool {
	if v == key || seen[v] || !l.varies(v, map[ssa.Value]bool{}) {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || l.c.orderEffects(f, map[*ssa.Function]bool{}) != "" {
			return false
		}
		for _, a := range x.Call.Args {
			if !l.byKey(a, key, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && !l.byKey(st.Val, key, seen) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.BinOp:
		return l.byKey(x.X, key, seen) && l.byKey(x.Y, key, seen)
	case *ssa.MakeInterface:
		return l.byKey(x.X, key, seen)
	case *ssa.Convert:
		return l.byKey(x.X, key, seen)
	}
	return false
}

// fromElem reports whether v is the key, the element, or what they hold.
func (l *mapLoop) fromElem(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == ssa.Value(l.next)
	case *ssa.FieldAddr:
		return l.fromElem(x.X, seen)
	case *ssa.IndexAddr:
		return l.fromElem(x.X, seen)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !l.fromElem(st.Val, seen) {
					return false
				}
			}
			return true
		}
		return l.fromElem(x.X, seen)
	}
	return false
}

// ownSlot: a store into what the element of the iteration points to.
func (l *mapLoop) ownSlot(addr ssa.Value) bool {
	return l.fromElem(addr, map[ssa.Value]bool{})
}

func storeAppend(st *ssa.Store) bool {
	c, ok := st.Val.(*ssa.Call)
	return ok && isAppend(c)
}

// scratch: a variable that every iteration sets before it reads it.
func (l *mapLoop) scratch(addr ssa.Value) bool {
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	var stores, loads []ssa.Instruction
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			loads = append(loads, x)
		case *ssa.Store:
			if l.region[x.Block()] {
				stores = append(stores, x)
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			if !forSort(x) {
				return false
			}
			loads = append(loads, x)
		default:
			return false
		}
	}
	for _, ld := range loads {
		ok := false
		for _, st := range stores {
			if st.Block() == ld.Block() && before(st, ld) || st.Block() != ld.Block() && st.Block().Dominates(ld.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// storedList: a list kept in memory has to be sorted after the loop, before it
// is used.
func (l *mapLoop) storedList(st *ssa.Store) {
	al, ok := st.Addr.(*ssa.Alloc)
	if !ok {
		if !l.c.sortedField(l.fn, st, l.blocks) {
			l.bad(st.Pos(), "a list is gathered in map order")
		}
		return
	}
	var sorts, uses []ssa.Instruction
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if l.blocks[x.Block()] {
				continue
			}
			if isSorted(x) {
				sorts = append(sorts, x)
			} else {
				uses = append(uses, x)
			}
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if !forSort(x) {
				l.bad(st.Pos(), "a list is gathered in map order")
				return
			}
		default:
			l.bad(st.Pos(), "a list is gathered in map order")
			return
		}
	}
	for _, u := range uses {
		if avoids(st, u, sorts) {
			l.bad(st.Pos(), "a list gathered in map order is used before it is sorted")
			return
		}
	}
}

// isSorted reports whether v is handed to a sorting function.
func isSorted(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
			if isSorted(r.(ssa.Value)) {
				return true
			}
		case *ssa.Call:
			if isSort(x) || sortsResult(x) {
				return true
			}
		}
	}
	return false
}

func isSort(x *ssa.Call) bool {
	n := calleeOf(&x.Call)
	switch n {
	case "sort.Strings", "sort.Sort", "sort.Slice", "sort.SliceStable", "sort.Stable", "sort.Ints":
		return true
	}
	return strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "text.Sort")
}

// forSort: a closure that compares for a sorting function.
func forSort(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if c, ok := r.(*ssa.Call); !ok || !isSort(c) {
			return false
		}
	}
	return true
}

// sortedField reports whether the field a list is stored to is sorted later in
// the same function.
func (c *Ctx) sortedField(fn *ssa.Function, st *ssa.Store, loop map[*ssa.BasicBlock]bool) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	for _, b := range fn.Blocks {
		if loop[b] && b != st.Block() || !reaches(st.Block(), b) {
			continue
		}
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			f2, ok := u.X.(*ssa.FieldAddr)
			if ok && f2.Field == fa.Field && types.Identical(f2.X.Type(), fa.X.Type()) && isSorted(u) {
				return true
			}
		}
	}
	return false
}

// carried judges a value handed from one iteration to the next.
func (l *mapLoop) carried(phi *ssa.Phi) {
	switch phi.Type().Underlying().(type) {
	case *types.Slice:
		l.sortedAfter(phi, map[ssa.Value]bool{})
		return
	case *types.Basic:
		if commutes(phi, phi, map[ssa.Value]bool{}, l) {
			return
		}
	}
	if !l.varies(phi, map[ssa.Value]bool{}) {
		return
	}
	l.bad(phi.Pos(), "%s is carried from one iteration to the next", phi.Comment)
}

// commutes: the new value is the old one, a constant, or an addition to it.
func commutes(phi *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool, l *mapLoop) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		if x != phi && !l.blocks[x.Block()] {
			return true
		}
		for _, e := range x.Edges {
			if !commutes(phi, e, seen, l) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && (x.Op == token.ADD || x.Op == token.OR) && (x.X == ssa.Value(phi) || x.Y == ssa.Value(phi))
	}
	if ins, ok := v.(ssa.Instruction); ok {
		return !l.region[ins.Block()]
	}
	return true
}

// call judges a call made in the loop.
func (l *mapLoop) call(x *ssa.Call) {
	if _, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b := x.Call.Value.(*ssa.Builtin); b.Name() == "copy" {
			l.bad(x.Pos(), "copy in map order")
		}
		return
	}
	if isLogCall(&x.Call) {
		return
	}
	n := calleeOf(&x.Call)
	if f := x.Call.StaticCallee(); f != nil {
		if w := l.c.orderEffects(f, map[*ssa.Function]bool{}); w != "" {
			l.bad(x.Pos(), "%s is called in map order, and %s", n, w)
		}
		return
	}
	if x.Call.IsInvoke() {
		for _, f := range l.c.implementers(x.Call.Value.Type(), x.Call.Method) {
			if w := l.c.orderEffects(f, map[*ssa.Function]bool{}); w != "" {
				l.bad(x.Pos(), "%s is called in map order, and %s", n, w)
				return
			}
		}
		return
	}
	// a function value: what it can be
	for _, f := range l.c.valuesOf(x.Call.Value) {
		if w := l.c.orderEffects(f, map[*ssa.Function]bool{}); w != "" {
			l.bad(x.Pos(), "%s is called in map order, and %s", n, w)
			return
		}
	}
}

// valuesOf are the functions whose value is taken anywhere and that have the
// type of v.
func (c *Ctx) valuesOf(v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Parent() == nil && !c.isTaken(f) {
			continue
		}
		if inModuleFn(topOf(f)) && types.Identical(stripRecv(f.Signature), stripRecv(v.Type().Underlying().(*types.Signature))) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (c *Ctx) isTaken(f *ssa.Function) bool {
	if c.takenSet == nil {
		c.takenSet = map[*ssa.Function]bool{}
		for _, fn := range c.p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					var callee ssa.Value
					if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						callee = ci.Common().Value
					}
					n := 0
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							if *op == callee && n == 0 {
								n++
								continue
							}
							c.takenSet[g] = true
						}
					}
				}
			}
		}
	}
	return c.takenSet[f]
}

// orderEffects tells what a function does that shows the order in which it is
// called: output, and lists that grow. Failures are gathered and sorted before
// they are shown (that they are is checked separately).
func (c *Ctx) orderEffects(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if w, ok := c.orderCache[f]; ok {
		return w
	}
	if seen[f] {
		return ""
	}
	seen[f] = true
	if c.orderCache == nil {
		c.orderCache = map[*ssa.Function]string{}
	}
	if !inModuleFn(topOf(f)) {
		if e := effectOf(f); e != "" && kindOf(e) != "" && kindOf(e) != "makes directories" {
			return "it " + kindOf(e)
		}
		n := shortFn(f)
		for _, p := range []string{"fmt.Fprint", "fmt.Print", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(io.Writer).", "(*bufio.Writer).", "(*text/tabwriter.Writer)."} {
			if strings.HasPrefix(n, p) {
				return n + " writes"
			}
		}
		return ""
	}
	w := ""
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if storeAppend(x) && outlives(x.Addr, map[ssa.Value]bool{}) && !failureList(x.Val.Type()) && !c.sortedField(f, x, nil) {
					w = shortFn(f) + " appends to a list that outlives it"
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok || isLogCall(cc) {
					continue
				}
				var gs []*ssa.Function
				if g := cc.StaticCallee(); g != nil {
					gs = []*ssa.Function{g}
				} else if cc.IsInvoke() {
					if n := calleeOf(cc); strings.HasPrefix(n, "(io.Writer).") {
						w = n
					}
					gs = c.implementers(cc.Value.Type(), cc.Method)
				} else {
					gs = c.valuesOf(cc.Value)
				}
				for _, g := range gs {
					if e := c.orderEffects(g, seen); e != "" {
						w = e
					}
				}
			}
			if w != "" {
				c.orderCache[f] = w
				return w
			}
		}
	}
	if len(seen) == 1 {
		c.orderCache[f] = w
	}
	return w
}

// failureList: failures are sorted before they are shown.
func failureList(t types.Type) bool {
	return strings.HasPrefix(typeString(t), "[]*") && strings.HasSuffix(typeString(t), "text.Failure")
}

// outlives reports whether what is at addr is seen after the function returns
// other than through its result.
func outlives(addr ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[addr] {
		return false
	}
	seen[addr] = true
	switch x := addr.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return false
	case *ssa.FieldAddr:
		return outlives(x.X, seen)
	case *ssa.IndexAddr:
		return outlives(x.X, seen)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return outlives(lk.X, seen)
		}
	case *ssa.Lookup:
		return outlives(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if outlives(e, seen) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return true
		}
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && outlives(st.Val, seen) {
				return true
			}
		}
		return false
	}
	return true
}

// orderAccepted are the loops that were reviewed: by package, map and what
// they do.
var orderAccepted = []struct{ pkg, typ, kind, why string }{
	{"create", "map[string]string", "%s is carried", "the longest prefix of one path is looked for; two prefixes of one length are equal"},
	{"exec", "map[string]string", "a list gathered", "headers of different names have no order"},
	{"file", "map[string][]*file.ProtoFile", "a store that depends", "directories that share a set share its configuration file, and so the stored configuration"},
	{"extract", "map[string]*extract.MessageOneof", "a store that depends", "a field is in one oneof at most"},
	{"lint", "map[string]lint.Linter", "a list gathered", "the rules have no order; the failures are sorted"},
	{"reflect", "map[string]map[string]*descriptor.FileDescriptorProto", "a map entry may be set", "a second, different, value is an error"},
}

func (l *mapLoop) accepted() bool {
	t := shortName(typeString(l.rng.X.Type()))
	for _, k := range l.kinds {
		ok := false
		for _, a := range orderAccepted {
			if a.pkg == pkgName(l.fn) && strings.HasPrefix(k, a.kind) && strings.HasSuffix(t, a.typ[strings.LastIndexAny(a.typ, "]*")+1:]) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(l.kinds) > 0
}

func mapRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "every loop over a map in the module: what it does comes out the same for every order (entries of sets and maps, lists sorted before use, counts, failures that are sorted before they are shown, errors)"}
	for _, fn := range c.ruleFuncs() {
		r.Functions++
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				l := &mapLoop{c: c, fn: fn, rng: x}
				for _, ref := range *x.Referrers() {
					if n, ok := ref.(*ssa.Next); ok {
						l.next = n
					}
				}
				if l.next == nil {
					continue
				}
				r.Obligations++
				l.analyse()
				if len(l.why) == 0 {
					if len(r.Samples) < 8 {
						r.Samples = append(r.Samples, c.p.pos(x.Pos())+" in "+shortFn(fn)+": the same for every order")
					}
					continue
				}
				if !l.accepted() {
					r.Findings = append(r.Findings, Finding{Key: shortFn(topOf(fn)), Pos: c.p.pos(x.Pos()), Msg: "loop over a map in " + shortFn(fn) + ": " + strings.Join(l.why, "; ")})
				}
			}
		}
	}
	return r
}
