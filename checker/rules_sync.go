package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concurrency: locks, goroutines and channels.

// acquires maps an operation to what gives back what it takes.
var acquires = map[string][]string{
	"(*sync.Mutex).Lock":                             {"(*sync.Mutex).Unlock"},
	"(*sync.RWMutex).Lock":                           {"(*sync.RWMutex).Unlock"},
	"(*sync.RWMutex).RLock":                          {"(*sync.RWMutex).RUnlock"},
	"(*github.com/gofrs/flock.Flock).Lock":           {"(*github.com/gofrs/flock.Flock).Unlock", "(*github.com/gofrs/flock.Flock).Close"},
	"(*github.com/gofrs/flock.Flock).TryLock":        {"(*github.com/gofrs/flock.Flock).Unlock", "(*github.com/gofrs/flock.Flock).Close"},
	"(*github.com/gofrs/flock.Flock).TryLockContext": {"(*github.com/gofrs/flock.Flock).Unlock", "(*github.com/gofrs/flock.Flock).Close"},
	"os/signal.Notify":                               {"os/signal.Stop"},
}

// bindings are, for every closure, what its free variables stand for.
func (c *Ctx) bound(fv *ssa.FreeVar) ssa.Value {
	if c.bindCache == nil {
		c.bindCache = map[*ssa.FreeVar]ssa.Value{}
		for _, fn := range c.p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok {
						for i, v := range mc.Bindings {
							c.bindCache[mc.Fn.(*ssa.Function).FreeVars[i]] = v
						}
					}
				}
			}
		}
	}
	return c.bindCache[fv]
}

// addrKey names the object an address or pointer stands for within a function
// and its closures.
func (c *Ctx) addrKey(v ssa.Value) string {
	c.addrDepth++
	defer func() { c.addrDepth-- }()
	if c.addrDepth > 100 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("%s.p%d", x.Parent().String(), i)
			}
		}
	case *ssa.FreeVar:
		if b := c.bound(x); b != nil {
			return c.addrKey(b)
		}
	case *ssa.FieldAddr:
		return c.addrKey(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.Field:
		return c.addrKey(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.IndexAddr:
		return c.addrKey(x.X) + "[]"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// a variable that is set once is what it is set to
			if al, ok := c.allocOf(x.X); ok {
				var only ssa.Value
				n := 0
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						only = st.Val
						n++
					}
				}
				if n == 1 {
					return c.addrKey(only)
				}
			}
			return "*" + c.addrKey(x.X)
		}
	case *ssa.MakeInterface:
		return c.addrKey(x.X)
	case *ssa.ChangeType:
		return c.addrKey(x.X)
	case *ssa.Global:
		return x.String()
	}
	if v == nil {
		return "nil"
	}
	return fmt.Sprintf("%p", v)
}

func (c *Ctx) allocOf(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, true
		case *ssa.FreeVar:
			b := c.bound(x)
			if b == nil {
				return nil, false
			}
			v = b
		default:
			return nil, false
		}
	}
}

// subject is what an acquiring or releasing call is about.
func (c *Ctx) subject(cc *ssa.CallCommon) string {
	if len(cc.Args) == 0 {
		return ""
	}
	return c.addrKey(cc.Args[0])
}

// paramKey maps a key in terms of a parameter of f to the argument of a call.
func (c *Ctx) paramKey(key string, f *ssa.Function, cc *ssa.CallCommon) (string, bool) {
	for i := range f.Params {
		p := fmt.Sprintf("%s.p%d", f.String(), i)
		if i < len(cc.Args) && (key == p || strings.HasPrefix(key, p+".")) {
			return c.addrKey(cc.Args[i]) + key[len(p):], true
		}
		if i < len(cc.Args) && strings.HasPrefix(key, "*"+p) {
			return "*" + c.addrKey(cc.Args[i]) + key[len(p)+1:], true
		}
	}
	return "", false
}

// releasesOf are the (operation, key) pairs a call gives back, directly or in
// the function it calls.
func (c *Ctx) releases(cc *ssa.CallCommon, rel []string, key string, seen map[*ssa.Function]bool) bool {
	n := calleeOf(cc)
	for _, r := range rel {
		if n == r {
			return c.subject(cc) == key
		}
	}
	f := cc.StaticCallee()
	if f == nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		}
	}
	if f == nil || seen[f] || !inModuleFn(topOf(f)) {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	return c.always(f, func(ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cn := calleeOf(ci.Common())
		for _, r := range rel {
			if cn != r {
				continue
			}
			k := c.subject(ci.Common())
			if k == key {
				return true
			}
			if k2, ok := c.paramKey(k, f, cc); ok && k2 == key {
				return true
			}
		}
		if c.releases(ci.Common(), rel, key, seen) {
			return true
		}
		// through a helper of the helper
		if g := ci.Common().StaticCallee(); g != nil && inModuleFn(topOf(g)) && g != f {
			for i, a := range ci.Common().Args {
				if k2, ok := c.paramKey(c.addrKey(a), f, cc); ok && k2 == key && c.releasesParam(g, i, rel, map[*ssa.Function]bool{f: true}) {
					return true
				}
			}
		}
		return false
	})
}

func (c *Ctx) releasesParam(f *ssa.Function, i int, rel []string, seen map[*ssa.Function]bool) bool {
	if seen[f] || i >= len(f.Params) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := calleeOf(ci.Common())
			for _, r := range rel {
				if n == r && c.subject(ci.Common()) == fmt.Sprintf("%s.p%d", f.String(), i) {
					return true
				}
			}
		}
	}
	return false
}

// taken is something a function took: a lock, a file lock, signals.
type taken struct {
	key  string
	rel  []string
	what string
	call *ssa.Call
}

// takes are what a call takes: itself, or by calling a function that takes it
// for its caller.
func (c *Ctx) takes(call *ssa.Call) []taken {
	n := calleeOf(&call.Call)
	if rel := acquires[n]; rel != nil {
		return []taken{{c.subject(&call.Call), rel, n, call}}
	}
	f := call.Call.StaticCallee()
	if f == nil || !inModuleFn(topOf(f)) || f.Blocks == nil {
		return nil
	}
	var out []taken
	for _, t := range c.keeps(f) {
		if k, ok := c.paramKey(t.key, f, &call.Call); ok {
			out = append(out, taken{k, t.rel, t.what, call})
		}
	}
	return out
}

// keeps are the things that are still taken on some successful return of f.
func (c *Ctx) keeps(f *ssa.Function) []taken {
	if r, ok := c.keepCache[f]; ok {
		return r
	}
	if c.keepCache == nil {
		c.keepCache = map[*ssa.Function][]taken{}
	}
	c.keepCache[f] = nil
	var out []taken
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			for _, t := range c.takes(call) {
				if !c.givenBack(f, call, t) {
					out = append(out, t)
				}
			}
		}
	}
	c.keepCache[f] = out
	return out
}

// givenBack reports whether every way from the call to a return of f gives
// back what was taken, leaving out the ways on which taking it failed.
func (c *Ctx) givenBack(f *ssa.Function, call *ssa.Call, t taken) bool {
	// deferred before it was taken
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			if (b == call.Block() && before(d, call) || b != call.Block() && b.Dominates(call.Block())) && c.releases(d.Common(), t.rel, t.key, map[*ssa.Function]bool{}) {
				return true
			}
		}
	}
	var ev ssa.Value
	res := call.Call.Signature().Results()
	if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
		ev = call
		if res.Len() > 1 {
			ev = nil
			for _, r := range *call.Referrers() {
				if x, ok := r.(*ssa.Extract); ok && x.Index == res.Len()-1 {
					ev = x
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, ins := range b.Instrs[from:] {
			switch x := ins.(type) {
			case *ssa.Call:
				if c.releases(&x.Call, t.rel, t.key, map[*ssa.Function]bool{}) {
					return true
				}
			case *ssa.Defer:
				if c.releases(&x.Call, t.rel, t.key, map[*ssa.Function]bool{}) {
					return true
				}
			case *ssa.Return:
				// handing on the failure to take it
				if ev != nil && len(x.Results) > 0 && x.Results[len(x.Results)-1] == ev && knownNotNil(ev, b) {
					return true
				}
				return false
			case *ssa.Panic:
				return true
			}
		}
		for i, s := range b.Succs {
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && ev != nil {
				if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && (cmp.X == ev && isNilConst(cmp.Y) || cmp.Y == ev && isNilConst(cmp.X)) {
					if cmp.Op == token.NEQ && i == 0 || cmp.Op == token.EQL && i == 1 {
						continue
					}
				}
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	idx := 0
	for i, ins := range call.Block().Instrs {
		if ins == ssa.Instruction(call) {
			idx = i + 1
		}
	}
	return walk(call.Block(), idx)
}

func knownNotNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id {
			continue
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(cmp.X == v && isNilConst(cmp.Y)) {
			continue
		}
		if cmp.Op == token.NEQ && id.Succs[0] == d || cmp.Op == token.EQL && id.Succs[1] == d {
			return true
		}
	}
	return false
}

// lockset are the locks that are certainly held before an instruction, true
// for locks held for writing.
type lockset map[string]bool

func (c *Ctx) heldAt(fn *ssa.Function, at ssa.Instruction) lockset {
	in := c.locksets(fn)
	cur := lockset{}
	for k, v := range in[at.Block()] {
		cur[k] = v
	}
	for _, ins := range at.Block().Instrs {
		if ins == at {
			break
		}
		c.lockStep(cur, ins)
	}
	return cur
}

func (c *Ctx) lockStep(cur lockset, ins ssa.Instruction) {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return
	}
	switch calleeOf(&call.Call) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		cur[c.subject(&call.Call)] = true
		return
	case "(*sync.RWMutex).RLock":
		if _, ok := cur[c.subject(&call.Call)]; !ok {
			cur[c.subject(&call.Call)] = false
		}
		return
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		delete(cur, c.subject(&call.Call))
		return
	}
	f := call.Call.StaticCallee()
	if f == nil || !inModuleFn(topOf(f)) {
		return
	}
	for k := range cur {
		if c.releases(&call.Call, []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"}, k, map[*ssa.Function]bool{}) && !c.relocks(f) {
			delete(cur, k)
		}
	}
	for _, t := range c.takes(call) {
		if strings.HasPrefix(t.what, "(*sync.") {
			cur[t.key] = t.what != "(*sync.RWMutex).RLock"
		}
	}
}

// relocks: a helper that takes what it gives back.
func (c *Ctx) relocks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok && strings.HasSuffix(calleeOf(&call.Call), "Lock") && strings.HasPrefix(calleeOf(&call.Call), "(*sync.") {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) locksets(fn *ssa.Function) map[*ssa.BasicBlock]lockset {
	if r, ok := c.lockCache[fn]; ok {
		return r
	}
	if c.lockCache == nil {
		c.lockCache = map[*ssa.Function]map[*ssa.BasicBlock]lockset{}
	}
	in := map[*ssa.BasicBlock]lockset{}
	c.lockCache[fn] = in
	if len(fn.Blocks) == 0 {
		return in
	}
	in[fn.Blocks[0]] = c.entryLocks(fn)
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := lockset{}
		for k, v := range in[b] {
			cur[k] = v
		}
		for _, ins := range b.Instrs {
			c.lockStep(cur, ins)
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			if !ok {
				n := lockset{}
				for k, v := range cur {
					n[k] = v
				}
				in[s] = n
				work = append(work, s)
				continue
			}
			changed := false
			for k, v := range old {
				v2, ok := cur[k]
				if !ok {
					delete(old, k)
					changed = true
				} else if v && !v2 {
					old[k] = false
					changed = true
				}
			}
			if changed {
				work = append(work, s)
			}
		}
	}
	return in
}

// entryLocks are the locks every caller of an internal function holds.
func (c *Ctx) entryLocks(fn *ssa.Function) lockset {
	out := lockset{}
	if fn.Parent() != nil || c.isTaken(fn) || fn.Object() == nil || fn.Object().Exported() {
		return out
	}
	first := true
	for _, g := range c.p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != fn {
					continue
				}
				if _, isCall := ins.(*ssa.Call); !isCall {
					return lockset{}
				}
				if g == fn {
					continue
				}
				held := c.heldAt(g, ins)
				here := lockset{}
				for k, v := range held {
					for i, a := range ci.Common().Args {
						ak := c.addrKey(a)
						if k == ak || strings.HasPrefix(k, ak+".") {
							here[fmt.Sprintf("%s.p%d", fn.String(), i)+k[len(ak):]] = v
						}
					}
				}
				if first {
					out, first = here, false
					continue
				}
				for k, v := range out {
					v2, ok := here[k]
					if !ok {
						delete(out, k)
					} else {
						out[k] = v && v2
					}
				}
			}
		}
	}
	return out
}

// freshBase reports whether an address belongs to an object that its function
// made, and that is not shared yet.
func (c *Ctx) freshBase(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
		return true
	case *ssa.FieldAddr:
		return c.freshBase(x.X, seen)
	case *ssa.IndexAddr:
		return c.freshBase(x.X, seen)
	case *ssa.Slice:
		return c.freshBase(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.freshBase(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.makes(call, x.Index)
		}
	case *ssa.Call:
		if isAppend(x) {
			return c.freshBase(x.Call.Args[0], seen)
		}
		return c.makes(x, 0)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !c.freshBase(st.Val, seen) {
					return false
				}
			}
			return true
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return c.freshBase(fa.X, seen)
		}
	case *ssa.Lookup:
		return c.freshBase(x.X, seen)
	}
	return false
}

// makes: a call of a function that returns objects it made.
func (c *Ctx) makes(call *ssa.Call, i int) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	if !inModuleFn(topOf(f)) {
		return strings.HasPrefix(f.Name(), "New") || strings.HasPrefix(f.Name(), "Command")
	}
	if c.makeCache == nil {
		c.makeCache = map[*ssa.Function]bool{}
	}
	if r, ok := c.makeCache[f]; ok {
		return r
	}
	c.makeCache[f] = true
	ok := f.Blocks != nil
	for _, b := range f.Blocks {
		if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && i < len(ret.Results) {
			if !c.freshBase(ret.Results[i], map[ssa.Value]bool{}) {
				ok = false
			}
		}
	}
	c.makeCache[f] = ok
	return ok
}

// isOption: functions that set up an object before it is used.
func isOption(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 0 {
		return false
	}
	_, ok := s.Params().At(0).Type().(*types.Pointer)
	return ok && fn.Parent() != nil
}

func lockRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "locks, file locks and signal channels are given back on every path; fields of a struct with a mutex that change after construction are read and written with it held"}
	// given back
	for _, fn := range c.ruleFuncs() {
		r.Functions++
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				for _, t := range c.takes(call) {
					r.Obligations++
					if c.givenBack(fn, call, t) {
						r.Samples = append(r.Samples, c.p.pos(call.Pos())+": "+t.what+" in "+shortFn(fn)+" is given back on every path")
						continue
					}
					// handed to the callers
					if strings.Contains(t.key, fn.String()+".p") && fn.Object() != nil && !fn.Object().Exported() && !c.isTaken(fn) {
						continue
					}
					r.Findings = append(r.Findings, Finding{Key: "release " + t.what + " " + shortFn(topOf(fn)), Pos: c.p.pos(call.Pos()), Msg: "what " + t.what + " takes in " + shortFn(fn) + " is not given back on every path"})
				}
			}
		}
	}
	// taken while it is already held
	for _, fn := range c.ruleFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				held := c.heldAt(fn, call)
				if len(held) == 0 {
					continue
				}
				r.Obligations++
				for k := range held {
					if c.takesAgain(&call.Call, k, 0) {
						r.Findings = append(r.Findings, Finding{Key: "again " + shortFn(topOf(fn)), Pos: c.p.pos(call.Pos()), Msg: calleeOf(&call.Call) + ", called in " + shortFn(fn) + " with a lock held, takes that lock again"})
					}
				}
			}
		}
	}
	// guarded fields
	for _, sp := range c.p.SPkgs {
		if !inModule(sp.Pkg) {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := sp.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			mu := -1
			for i := 0; i < st.NumFields(); i++ {
				s := st.Field(i).Type().String()
				if s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex" {
					mu = i
				}
			}
			if mu < 0 {
				continue
			}
			c.guardedFields(r, t.Type(), st, mu)
		}
	}
	return r
}

// takesAgain reports whether a call takes a lock, itself or further down.
func (c *Ctx) takesAgain(cc *ssa.CallCommon, key string, depth int) bool {
	switch calleeOf(cc) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		return c.subject(cc) == key
	}
	f := cc.StaticCallee()
	if f == nil || depth > 12 || !inModuleFn(topOf(f)) {
		return false
	}
	// the lock as the function sees it
	keys := map[string]bool{}
	for i, a := range cc.Args {
		ak := c.addrKey(a)
		if key == ak || strings.HasPrefix(key, ak+".") {
			keys[fmt.Sprintf("%s.p%d", f.String(), i)+key[len(ak):]] = true
		}
	}
	for k := range keys {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(*ssa.Call); ok && c.takesAgain(&call.Call, k, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) guardedFields(r *RuleResult, t types.Type, st *types.Struct, mu int) {
	type access struct {
		fn    *ssa.Function
		fa    *ssa.FieldAddr
		ins   ssa.Instruction
		write bool
	}
	acc := map[int][]access{}
	mutable := map[int]bool{}
	for _, fn := range c.ruleFuncs() {
		if isOption(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || fa.Field == mu || c.freshBase(fa.X, map[ssa.Value]bool{}) {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), t) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					w := false
					switch x := ref.(type) {
					case *ssa.Store:
						w = x.Addr == ssa.Value(fa)
					case *ssa.DebugRef:
						continue
					}
					if w {
						mutable[fa.Field] = true
					}
					acc[fa.Field] = append(acc[fa.Field], access{fn, fa, ref, w})
				}
			}
		}
	}
	for f := range mutable {
		for _, a := range acc[f] {
			r.Obligations++
			held := c.heldAt(a.fn, a.ins)
			k := c.addrKey(a.fa.X) + "." + fmt.Sprint(mu)
			mode, ok := held[k]
			if ok && (mode || !a.write) {
				r.Samples = append(r.Samples, c.p.pos(a.ins.Pos())+": access to "+st.Field(f).Name()+" in "+shortFn(a.fn)+" with the lock held")
				continue
			}
			what := "read"
			if a.write {
				what = "written"
			}
			r.Findings = append(r.Findings, Finding{Key: "guard " + shortName(typeString(t)) + " " + shortFn(topOf(a.fn)), Pos: c.p.pos(a.ins.Pos()), Msg: "field " + st.Field(f).Name() + " of " + shortName(typeString(t)) + " is " + what + " in " + shortFn(a.fn) + " without its lock"})
		}
	}
}

// inCycle reports whether a block can be reached from itself.
func inCycle(b *ssa.BasicBlock) bool { return reaches(b, b) }

// sharedUse is a use of a variable of the enclosing function.
type sharedUse struct {
	ins   ssa.Instruction
	fn    *ssa.Function
	write bool
}

// usesOf are the uses of a captured variable in fn and the closures in it.
func (c *Ctx) usesOf(fn *ssa.Function, al *ssa.Alloc, out *[]sharedUse) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				for i, v := range mc.Bindings {
					if a, ok := c.allocOf(v); ok && a == al {
						_ = i
						c.usesOf(mc.Fn.(*ssa.Function), al, out)
						break
					}
				}
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil || !c.rootedIn(*op, al) {
					continue
				}
				w := false
				switch x := ins.(type) {
				case *ssa.Store:
					w = c.rootedIn(x.Addr, al)
				case *ssa.MapUpdate:
					w = c.rootedIn(x.Map, al)
				case *ssa.FieldAddr, *ssa.IndexAddr:
					continue
				case *ssa.UnOp:
					if x.Op == token.MUL {
						// what is loaded may be changed through calls
						w = c.changedThrough(x)
					}
				}
				*out = append(*out, sharedUse{ins, fn, w})
				break
			}
		}
	}
}

// changedThrough: a loaded pointer, map or buffer on which the loop calls
// something that changes it.
func (c *Ctx) changedThrough(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.Call:
			if len(x.Call.Args) > 0 && x.Call.Args[0] == v {
				n := calleeOf(&x.Call)
				if strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || n == "builtin delete" {
					return true
				}
			}
			if x.Call.IsInvoke() && x.Call.Value == v && calleeOf(&x.Call) == "(io.Writer).Write" {
				return true
			}
		case *ssa.MakeInterface:
			if c.changedThrough(x) {
				return true
			}
		}
	}
	return false
}

// rootedIn reports whether an address lies in a variable.
func (c *Ctx) rootedIn(v ssa.Value, al *ssa.Alloc) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			a, ok := c.allocOf(v)
			return ok && a == al
		}
	}
}

func isSyncType(t types.Type) bool {
	s := typeString(t)
	if strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "*sync.") || strings.HasPrefix(s, "sync/atomic.") {
		return true
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// goRule judges every goroutine.
func goRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "every goroutine: variables it shares are touched under a lock, or after the goroutine was waited for; what it sends is always received or buffered; wait groups are counted before and down on every path; lists gathered by several goroutines are sorted before use; signals are sent to channels with room; objects it changes are its own"}
	for _, fn := range c.ruleFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					r.Functions++
					c.goroutine(r, fn, x)
				case *ssa.Call:
					c.notified(r, fn, &x.Call, x.Pos())
				case *ssa.Defer:
					c.notified(r, fn, &x.Call, x.Pos())
				}
			}
		}
	}
	return r
}

// notified checks that a channel that signals are sent to has room: the
// signal package does not wait, a signal nobody is ready for is lost.
func (c *Ctx) notified(r *RuleResult, fn *ssa.Function, cc *ssa.CallCommon, pos token.Pos) {
	if calleeOf(cc) != "os/signal.Notify" {
		return
	}
	mk := c.makeOf(cc.Args[0])
	if mk == nil {
		return
	}
	if k, ok := mk.Size.(*ssa.Const); ok {
		if n, ok := constant.Int64Val(k.Value); ok && n == 0 {
			r.Findings = append(r.Findings, Finding{Key: "notify " + shortFn(topOf(fn)), Pos: c.p.pos(pos), Msg: shortFn(fn) + ": signals are sent to a channel without room: one that arrives when nothing receives is lost"})
			return
		}
	}
	r.Samples = append(r.Samples, c.p.pos(pos)+": the channel signals are sent to has room")
}

func (c *Ctx) goroutine(r *RuleResult, fn *ssa.Function, g *ssa.Go) {
	where := c.p.pos(g.Pos())
	bad := func(key, format string, args ...interface{}) {
		r.Findings = append(r.Findings, Finding{Key: key + " " + shortFn(topOf(fn)), Pos: where, Msg: "goroutine of " + shortFn(fn) + ": " + fmt.Sprintf(format, args...)})
	}
	ok := func(format string, args ...interface{}) {
		r.Samples = append(r.Samples, where+": "+fmt.Sprintf(format, args...))
	}
	var body *ssa.Function
	var binds []ssa.Value
	if mc, is := g.Call.Value.(*ssa.MakeClosure); is {
		body = mc.Fn.(*ssa.Function)
		binds = mc.Bindings
	} else {
		body = g.Call.StaticCallee()
	}
	if body == nil || body.Blocks == nil {
		bad("go", "what it runs is not known")
		return
	}
	many := inCycle(g.Block())
	binds = append(binds, g.Call.Args...)
	// which channels and wait groups it signals its end with
	joins := map[string]bool{}
	for _, bl := range body.Blocks {
		for _, ins := range bl.Instrs {
			switch x := ins.(type) {
			case *ssa.Send:
				joins[c.goKey(x.Chan, body, g)] = true
			case *ssa.Defer:
				if n := calleeOf(&x.Call); n == "(*sync.WaitGroup).Done" {
					joins[c.goKey(x.Call.Args[0], body, g)] = true
				}
				if b, is := x.Call.Value.(*ssa.Builtin); is && b.Name() == "close" {
					joins[c.goKey(x.Call.Args[0], body, g)] = true
				}
			case *ssa.Call:
				if n := calleeOf(&x.Call); n == "(*sync.WaitGroup).Done" {
					joins[c.goKey(x.Call.Args[0], body, g)] = true
				}
				if b, is := x.Call.Value.(*ssa.Builtin); is && b.Name() == "close" {
					joins[c.goKey(x.Call.Args[0], body, g)] = true
				}
			}
		}
	}
	// shared variables
	for _, bv := range binds {
		al, is := c.allocOf(bv)
		if !is {
			continue
		}
		pt := al.Type().(*types.Pointer)
		if isSyncType(pt.Elem()) {
			continue
		}
		r.Obligations++
		var inner []sharedUse
		if al.Parent() == fn {
			c.usesOf(body, al, &inner)
		}
		own := many && al.Block() != g.Block() && inCycle(al.Block()) && al.Block().Dominates(g.Block()) || many && al.Block() == g.Block() && al.Parent() == fn
		if !many {
			own = true
		}
		writes := false
		locked := true
		for _, u := range inner {
			if u.write {
				writes = true
			}
			if len(c.heldIn(u)) == 0 {
				locked = false
			}
		}
		if writes && !own && !locked {
			for _, u := range inner {
				if len(c.heldIn(u)) == 0 {
					bad("race", "%s is used without a lock (%s), and other goroutines change it", varName(al), c.p.pos(u.ins.Pos()))
					break
				}
			}
			continue
		}
		// uses by the function that started it, before the end was waited for
		raced := false
		for _, u := range c.unjoined(fn, g, al, joins) {
			if (writes || u.write) && len(inner) > 0 && !(locked && len(c.heldAt(fn, u.ins)) > 0) {
				bad("race", "%s is used (%s) while the goroutine may still be running", varName(al), c.p.pos(u.ins.Pos()))
				raced = true
				break
			}
		}
		if raced {
			continue
		}
		// lists gathered by several goroutines have no order
		if sl, is := pt.Elem().Underlying().(*types.Slice); is && writes && many && !own {
			if u := c.unsortedUse(fn, al, body); u != nil {
				bad("order", "%s is gathered by several goroutines and used (%s) before it is sorted", varName(al), c.p.pos(u.Pos()))
				continue
			}
			_ = sl
		}
		ok("%s: %s", varName(al), map[bool]string{true: "changed under a lock or by one goroutine, and used by others after it ended", false: "not changed while shared"}[writes])
	}
	// channels and wait groups
	for _, bl := range body.Blocks {
		for _, ins := range bl.Instrs {
			x, is := ins.(*ssa.Send)
			if !is {
				continue
			}
			r.Obligations++
			k := c.goKey(x.Chan, body, g)
			if c.buffered(x.Chan) {
				ok("what is sent at %s is buffered", c.p.pos(x.Pos()))
				continue
			}
			if p := c.missed(fn, g, k, false); p != "" {
				bad("send", "what it sends at %s is never received when %s returns at %s", c.p.pos(x.Pos()), shortFn(fn), p)
				continue
			}
			ok("what is sent at %s is received on every path", c.p.pos(x.Pos()))
		}
	}
	// waited for with a lock held that it needs
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			key := ""
			switch x := ins.(type) {
			case *ssa.Call:
				if calleeOf(&x.Call) == "(*sync.WaitGroup).Wait" {
					key = c.addrKey(x.Call.Args[0])
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					key = c.addrKey(x.X)
				}
			}
			if key == "" || !joins[key] {
				continue
			}
			r.Obligations++
			for k := range c.heldAt(fn, ins) {
				for _, bl := range body.Blocks {
					for _, i2 := range bl.Instrs {
						if call, is := i2.(*ssa.Call); is && c.takesAgain(&call.Call, k, 0) {
							bad("deadlock", "it is waited for (%s) with a lock held that it takes", c.p.pos(ins.Pos()))
						}
					}
				}
			}
		}
	}
	c.waitGroup(r, fn, g, body, bad, ok)
	c.semaphore(r, fn, g, body, bad, ok)
	c.sharedObjects(r, fn, g, body, bad)
}

func (c *Ctx) heldIn(u sharedUse) lockset {
	return c.heldAt(u.fn, u.ins)
}

func varName(al *ssa.Alloc) string {
	if al.Comment != "" {
		return al.Comment
	}
	return "a variable"
}

// goKey is the key of a channel or wait group in the goroutine, in terms of
// the function that started it.
func (c *Ctx) goKey(v ssa.Value, body *ssa.Function, g *ssa.Go) string {
	k := c.addrKey(v)
	if k2, ok := c.paramKey(k, body, &g.Call); ok {
		return k2
	}
	return k
}

// joined walks the function from the start of the goroutine, and calls visit
// for everything that can be reached before its end was waited for.
func (c *Ctx) joined(fn *ssa.Function, g *ssa.Go, joins map[string]bool, visit func(ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	selects := map[ssa.Value]*ssa.Select{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, ins := range b.Instrs[from:] {
			switch x := ins.(type) {
			case *ssa.Call:
				if calleeOf(&x.Call) == "(*sync.WaitGroup).Wait" && joins[c.addrKey(x.Call.Args[0])] {
					return
				}
				if f := x.Call.StaticCallee(); f != nil && inModuleFn(topOf(f)) {
					for j := range joins {
						for i, a := range x.Call.Args {
							if c.addrKey(a) == j && c.waitsFor(f, i) {
								return
							}
						}
					}
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && joins[c.addrKey(x.X)] {
					return
				}
			case *ssa.Select:
				for _, r := range *x.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
						selects[e] = x
					}
				}
			}
			if !visit(ins) {
				return
			}
		}
		for i, s := range b.Succs {
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && cmp.Op == token.EQL && i == 0 {
					if sel := selects[cmp.X]; sel != nil {
						if k, ok := cmp.Y.(*ssa.Const); ok {
							if n, ok := constant.Int64Val(k.Value); ok && int(n) < len(sel.States) && sel.States[n].Dir == types.RecvOnly && joins[c.addrKey(sel.States[n].Chan)] {
								continue
							}
						}
					}
				}
			}
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	idx := 0
	for i, ins := range g.Block().Instrs {
		if ins == ssa.Instruction(g) {
			idx = i + 1
		}
	}
	walk(g.Block(), idx)
}

func (c *Ctx) waitsFor(f *ssa.Function, i int) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				if calleeOf(&x.Call) == "(*sync.WaitGroup).Wait" && c.addrKey(x.Call.Args[0]) == fmt.Sprintf("%s.p%d", f.String(), i) {
					return true
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && c.addrKey(x.X) == fmt.Sprintf("%s.p%d", f.String(), i) {
					return true
				}
			}
		}
	}
	return false
}

// unjoined are the uses of a variable by fn while the goroutine may run.
func (c *Ctx) unjoined(fn *ssa.Function, g *ssa.Go, al *ssa.Alloc, joins map[string]bool) []sharedUse {
	var all []sharedUse
	c.usesHere(fn, al, &all)
	by := map[ssa.Instruction]sharedUse{}
	for _, u := range all {
		by[u.ins] = u
	}
	var out []sharedUse
	c.joined(fn, g, joins, func(ins ssa.Instruction) bool {
		if ins == ssa.Instruction(al) {
			return false // a new variable from here on
		}
		if u, ok := by[ins]; ok {
			out = append(out, u)
		}
		return true
	})
	return out
}

// usesHere are the uses in fn itself.
func (c *Ctx) usesHere(fn *ssa.Function, al *ssa.Alloc, out *[]sharedUse) {
	var all []sharedUse
	c.usesOf(fn, al, &all)
	for _, u := range all {
		if u.fn == fn {
			*out = append(*out, u)
		}
	}
}

// unsortedUse is a use of a list after the goroutines that is not preceded by
// sorting it; measuring it is no such use.
func (c *Ctx) unsortedUse(fn *ssa.Function, al *ssa.Alloc, body *ssa.Function) ssa.Instruction {
	var sorts, uses []ssa.Instruction
	for _, r := range *al.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok {
			continue
		}
		if isSorted(u) {
			sorts = append(sorts, u)
			continue
		}
		only := true
		for _, r2 := range *u.Referrers() {
			if call, ok := r2.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
			}
			if _, ok := r2.(*ssa.DebugRef); ok {
				continue
			}
			only = false
		}
		if !only {
			uses = append(uses, u)
		}
	}
	for _, u := range uses {
		good := false
		for _, s := range sorts {
			if s.Block() == u.Block() && before(s, u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				good = true
			}
		}
		if good {
			continue
		}
		for _, use := range unsortedUses(u.(ssa.Value)) {
			if !c.sortedByCallers(use, u.(ssa.Value), 0) {
				return u
			}
		}
	}
	return nil
}

// sortedByCallers: the value is returned, and whoever calls the function sorts
// it before anything else.
func (c *Ctx) sortedByCallers(use ssa.Instruction, v ssa.Value, depth int) bool {
	ret, ok := use.(*ssa.Return)
	if !ok || depth > 3 {
		return false
	}
	calls, ok := c.callsOf(ret.Parent())
	if !ok || len(calls) == 0 {
		return false
	}
	found := false
	for i, res := range ret.Results {
		if res != v {
			continue
		}
		found = true
		for _, call := range calls {
			cv, ok := call.(*ssa.Call)
			if !ok {
				return false
			}
			var vals []ssa.Value
			if len(ret.Results) == 1 {
				vals = append(vals, cv)
			} else {
				for _, r := range *cv.Referrers() {
					switch e := r.(type) {
					case *ssa.Extract:
						if e.Index == i {
							vals = append(vals, e)
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
			for _, val := range vals {
				for _, u := range unsortedUses(val) {
					if !c.sortedByCallers(u, val, depth+1) {
						return false
					}
				}
			}
		}
	}
	return found
}

// buffered reports whether a channel has room.
func (c *Ctx) buffered(v ssa.Value) bool {
	mk := c.makeOf(v)
	if mk == nil {
		return false
	}
	k, ok := mk.Size.(*ssa.Const)
	if !ok {
		return false // of a size that is not known
	}
	n, ok := constant.Int64Val(k.Value)
	return ok && n > 0
}

func (c *Ctx) makeOf(v ssa.Value) *ssa.MakeChan {
	switch x := v.(type) {
	case *ssa.MakeChan:
		return x
	case *ssa.ChangeType:
		return c.makeOf(x.X)
	case *ssa.UnOp:
		if al, ok := c.allocOf(x.X); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					return c.makeOf(st.Val)
				}
			}
		}
	case *ssa.FreeVar:
		if b := c.bound(x); b != nil {
			return c.makeOf(b)
		}
	}
	return nil
}

// missed is where fn returns without having received from a channel.
func (c *Ctx) missed(fn *ssa.Function, g *ssa.Go, key string, wg bool) string {
	p := ""
	c.joined(fn, g, map[string]bool{key: true}, func(ins ssa.Instruction) bool {
		if ret, ok := ins.(*ssa.Return); ok {
			p = c.p.pos(ret.Pos())
		}
		return true
	})
	return p
}

// waitGroup: counted up before the start, down on every path, waited for.
func (c *Ctx) waitGroup(r *RuleResult, fn *ssa.Function, g *ssa.Go, body *ssa.Function, bad func(string, string, ...interface{}), ok func(string, ...interface{})) {
	var done []ssa.CallInstruction
	for _, b := range body.Blocks {
		for _, ins := range b.Instrs {
			ci, is := ins.(ssa.CallInstruction)
			if !is {
				continue
			}
			switch calleeOf(ci.Common()) {
			case "(*sync.WaitGroup).Done":
				done = append(done, ci)
			case "(*sync.WaitGroup).Add":
				r.Obligations++
				bad("waitgroup", "it is counted when it already runs")
			}
		}
	}
	// what other goroutines of this function are waited for with
	var waited map[string]ssa.Value
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if call, is := ins.(*ssa.Call); is && calleeOf(&call.Call) == "(*sync.WaitGroup).Add" {
				if waited == nil {
					waited = map[string]ssa.Value{}
				}
				waited[c.addrKey(call.Call.Args[0])] = call
			}
		}
	}
	if len(done) == 0 {
		for _, v := range waited {
			if inst := v.(ssa.Instruction); inst.Block() == g.Block() || inst.Block().Dominates(g.Block()) {
				r.Obligations++
				bad("waitgroup", "it does not count down the wait group it was counted in")
			}
		}
		return
	}
	r.Obligations++
	k := c.goKey(done[0].Common().Args[0], body, g)
	add, is := waited[k]
	if !is {
		bad("waitgroup", "it is not counted before it starts")
		return
	}
	ai := add.(ssa.Instruction)
	if !(ai.Block() == g.Block() && before(ai, g) || ai.Block() != g.Block() && ai.Block().Dominates(g.Block())) {
		bad("waitgroup", "it is not counted before it starts on every path")
		return
	}
	if n, isConst := ai.(*ssa.Call).Call.Args[1].(*ssa.Const); isConst {
		v, _ := constant.Int64Val(n.Value)
		if v != 1 {
			bad("waitgroup", "it is counted %d times", v)
			return
		}
		// one count for each start
		if inCycle(g.Block()) != inCycle(ai.Block()) {
			bad("waitgroup", "the counts and the starts differ")
			return
		}
	}
	if !c.always(body, func(ins ssa.Instruction) bool {
		ci, is := ins.(ssa.CallInstruction)
		return is && calleeOf(ci.Common()) == "(*sync.WaitGroup).Done"
	}) {
		bad("waitgroup", "it does not count down on every path")
		return
	}
	if p := c.missed(fn, g, k, true); p != "" {
		bad("waitgroup", "it is not waited for when %s returns at %s", shortFn(fn), p)
		return
	}
	ok("counted before it starts, counts down on every path, and is waited for")
}

// always reports whether every path of a function passes an instruction.
func (c *Ctx) always(fn *ssa.Function, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, ins := range b.Instrs {
			if is(ins) {
				return true
			}
			if _, ok := ins.(*ssa.Return); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return len(fn.Blocks) == 0 || walk(fn.Blocks[0])
}

// semaphore: a place taken by the starter is given back by the goroutine.
func (c *Ctx) semaphore(r *RuleResult, fn *ssa.Function, g *ssa.Go, body *ssa.Function, bad func(string, string, ...interface{}), ok func(string, ...interface{})) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, is := ins.(*ssa.Send)
			if !is || !(b == g.Block() && before(s, g) || b != g.Block() && b.Dominates(g.Block())) {
				continue
			}
			mk := c.makeOf(s.Chan)
			if mk == nil {
				continue
			}
			if k, is := mk.Size.(*ssa.Const); is {
				if n, _ := constant.Int64Val(k.Value); n == 0 {
					r.Obligations++
					bad("semaphore", "a place is taken at %s in a channel that has none", c.p.pos(s.Pos()))
					continue
				}
			}
			r.Obligations++
			key := c.addrKey(s.Chan)
			if !c.always(body, func(i ssa.Instruction) bool {
				switch x := i.(type) {
				case *ssa.UnOp:
					return x.Op == token.ARROW && c.goKey(x.X, body, g) == key
				case *ssa.Defer:
					f := x.Call.StaticCallee()
					if mc, is := x.Call.Value.(*ssa.MakeClosure); is {
						f = mc.Fn.(*ssa.Function)
					}
					if f == nil {
						return false
					}
					for _, b2 := range f.Blocks {
						for _, i2 := range b2.Instrs {
							if u, is := i2.(*ssa.UnOp); is && u.Op == token.ARROW && c.goKey(u.X, body, g) == key {
								return true
							}
						}
					}
				}
				return false
			}) {
				bad("semaphore", "the place taken at %s is not given back on every path", c.p.pos(s.Pos()))
				continue
			}
			ok("the place taken at %s is given back on every path", c.p.pos(s.Pos()))
		}
	}
}

// sharedObjects: what functions called by the goroutine change in objects they
// did not make.
func (c *Ctx) sharedObjects(r *RuleResult, fn *ssa.Function, g *ssa.Go, body *ssa.Function, bad func(string, string, ...interface{})) {
	_, via := c.effects([]*ssa.Function{body}, nil)
	var fs []*ssa.Function
	for f := range via {
		if f != body && f.Parent() != body {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		if isOption(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var addr ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					addr = x.Addr
				case *ssa.MapUpdate:
					addr = x.Map
				default:
					continue
				}
				if _, is := c.allocOf(addr); is || c.freshBase(addr, map[ssa.Value]bool{}) {
					continue
				}
				r.Obligations++
				if len(c.heldAt(f, ins)) > 0 || c.ownObject(addr) {
					continue
				}
				bad("shared", "%s changes, without a lock, an object it did not make (%s): %s", shortFn(f), c.p.pos(ins.Pos()), chain(via, f))
			}
		}
	}
}

// ownObject: objects that belong to one goroutine each.
func (c *Ctx) ownObject(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	switch typeString(fa.X.Type()) {
	case "*os/exec.Cmd": // the command of the goroutine
		return true
	}
	return false
}
