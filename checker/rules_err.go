package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error propagation: an error result of a call has to be returned, handed on
// or stored; where it is only compared with nil, the side on which it is not
// nil has to end in an error result.

type errUse struct {
	kind string // "dropped", "swallowed"
	pos  token.Pos
}

func calleeOf(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return shortName("(" + typeString(c.Value.Type()) + ")." + c.Method.Name())
	}
	if f := c.StaticCallee(); f != nil {
		return shortFn(f)
	}
	return "dyn " + typeString(c.Value.Type())
}

// ruleFuncs are the functions rules look at: all of the module but generated
// and test support code.
func (c *Ctx) ruleFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Synthetic != "" || fn.Pkg == nil || !inModule(fn.Pkg.Pkg) || fn.Blocks == nil {
			continue
		}
		p := fn.Pkg.Pkg.Path()
		if strings.Contains(p, "/gen/") || strings.HasSuffix(p, "/internal/testing") || strings.Contains(p, "/cmd/gen-") || strings.Contains(p, "/example/") || strings.Contains(p, "testdata") {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func errorRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "every call with an error result in the module: the error is returned, handed on or stored, or its non-nil side ends in an error"}
	for _, fn := range c.ruleFuncs() {
		r.Functions++
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if _, bi := cc.Value.(*ssa.Builtin); bi {
					continue
				}
				res := cc.Signature().Results()
				if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
					continue
				}
				r.Obligations++
				callee := calleeOf(cc)
				kind := ""
				v, isCall := ins.(*ssa.Call)
				switch {
				case !isCall:
					kind = "dropped"
				default:
					var ev ssa.Value = v
					if res.Len() > 1 {
						ev = nil
						for _, ref := range *v.Referrers() {
							if x, ok := ref.(*ssa.Extract); ok && x.Index == res.Len()-1 {
								ev = x
							}
						}
					}
					if ev == nil {
						kind = "dropped"
					} else {
						kind = errFate(fn, ev)
					}
				}
				if len(r.Samples) < 12 && r.Obligations%37 == 1 {
					r.Samples = append(r.Samples, fmt.Sprintf("%s: %s in %s: %s", c.p.pos(ins.Pos()), callee, shortFn(fn), map[bool]string{true: "accounted for", false: kind}[kind == ""]))
				}
				if kind == "" || errAccepted(cc, kind, fn) {
					continue
				}
				r.Findings = append(r.Findings, Finding{Key: callee + " in " + shortFn(topOf(fn)), Pos: c.p.pos(ins.Pos()), Msg: fmt.Sprintf("the error of %s is %s in %s", callee, kind, shortFn(fn))})
			}
		}
	}
	return r
}

func topOf(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func isLogCall(cc *ssa.CallCommon) bool { return defaultIgnore(calleeOf(cc)) }

// errFate decides what becomes of the error value v of fn.
func errFate(fn *ssa.Function, v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	used, tested := false, false
	bad := ""
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				follow(x)
			case *ssa.ChangeInterface:
				follow(x)
			case *ssa.MakeInterface:
				follow(x)
			case *ssa.TypeAssert, *ssa.Extract:
				follow(x.(ssa.Value))
			case *ssa.BinOp:
				if (x.Op == token.NEQ || x.Op == token.EQL) && (isNilConst(x.X) || isNilConst(x.Y)) {
					tested = true
					for _, r2 := range *x.Referrers() {
						ifi, ok := r2.(*ssa.If)
						if !ok {
							used = true // the outcome of the test is a value
							continue
						}
						side := 0
						if x.Op == token.EQL {
							side = 1
						}
						if !failsFrom(ifi.Block(), ifi.Block().Succs[side], v) {
							bad = "swallowed"
						}
					}
				} else {
					used = true
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL && sameOrAfter(x, u) {
							follow(u)
						}
						if _, ok := r2.(*ssa.MakeClosure); ok {
							used = true
						}
						if _, ok := r2.(*ssa.Return); ok {
							used = true
						}
					}
				} else {
					used = true
				}
			case ssa.CallInstruction:
				if !isLogCall(x.Common()) {
					used = true
				}
			case *ssa.Return:
				used = true
			case *ssa.IndexAddr, *ssa.FieldAddr:
				used = true
			default:
				used = true
			}
		}
	}
	follow(v)
	if bad != "" {
		return bad
	}
	if !used && !tested {
		return "dropped"
	}
	return ""
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func sameOrAfter(st *ssa.Store, ld *ssa.UnOp) bool {
	if st.Block() == ld.Block() {
		for _, i := range st.Block().Instrs {
			if i == ssa.Instruction(st) {
				return true
			}
			if i == ssa.Instruction(ld) {
				break
			}
		}
	}
	return reaches(st.Block(), ld.Block())
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// failsFrom reports whether, on the side of the test where the error is not
// nil, the error is used, or every way on ends in an error result.
func failsFrom(from, side *ssa.BasicBlock, v ssa.Value) bool {
	type edge struct{ p, b *ssa.BasicBlock }
	seen := map[*ssa.BasicBlock]bool{}
	vals := aliasesOf(v)
	ok := true
	var walk func(p, b *ssa.BasicBlock)
	walk = func(p, b *ssa.BasicBlock) {
		if !ok || seen[b] {
			return
		}
		seen[b] = true
		for _, ins := range b.Instrs {
			if phi, is := ins.(*ssa.Phi); is {
				// the error goes on into a variable
				for i, pr := range b.Preds {
					if pr == p && vals[phi.Edges[i]] {
						return
					}
				}
				continue
			}
			for _, op := range ins.Operands(nil) {
				if !vals[*op] {
					continue
				}
				switch x := ins.(type) {
				case *ssa.BinOp, *ssa.DebugRef:
				case ssa.CallInstruction:
					if !isLogCall(x.Common()) {
						return
					}
				case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract:
				default:
					return
				}
			}
			switch x := ins.(type) {
			case *ssa.Panic:
				return
			case *ssa.Return:
				if !errReturn(x, p) {
					ok = false
				}
				return
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "os" && f.Name() == "Exit" {
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(b, s)
		}
	}
	walk(from, side)
	return ok
}

// aliasesOf are v and its conversions.
func aliasesOf(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{v: true}
	work := []ssa.Value{v}
	if c, ok := v.(*ssa.Call); ok {
		for _, o := range asksAgain(c) {
			out[o] = true
			work = append(work, o)
		}
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x.Referrers() == nil {
			continue
		}
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract:
				yv := y.(ssa.Value)
				if !out[yv] {
					out[yv] = true
					work = append(work, yv)
				}
			}
		}
	}
	return out
}

// asksAgain are the other calls of the same function for an error a value
// holds: s.Err() where s.Err() was tested.
func asksAgain(c *ssa.Call) []ssa.Value {
	var recv ssa.Value
	switch {
	case c.Call.IsInvoke() && len(c.Call.Args) == 0:
		recv = c.Call.Value
	case !c.Call.IsInvoke() && len(c.Call.Args) == 1 && c.Call.StaticCallee() != nil && c.Call.Signature().Recv() != nil:
		recv = c.Call.Args[0]
	}
	if recv == nil || recv.Referrers() == nil {
		return nil
	}
	var out []ssa.Value
	for _, r := range *recv.Referrers() {
		o, ok := r.(*ssa.Call)
		if !ok || o == c || o.Call.IsInvoke() != c.Call.IsInvoke() || len(o.Call.Args) != len(c.Call.Args) {
			continue
		}
		if c.Call.IsInvoke() && (o.Call.Value != recv || o.Call.Method != c.Call.Method) ||
			!c.Call.IsInvoke() && o.Call.StaticCallee() != c.Call.StaticCallee() {
			continue
		}
		if n := calleeOf(&c.Call); strings.HasSuffix(n, ".Err") {
			out = append(out, o)
		}
	}
	return out
}

// errReturn reports whether a return, reached from p, has an error result that
// is not known to be nil.
func errReturn(r *ssa.Return, p *ssa.BasicBlock) bool {
	if len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	if !isErrorType(last.Type()) {
		// functions without an error result signal failure in their own way
		return false
	}
	if phi, ok := last.(*ssa.Phi); ok && phi.Block() == r.Block() {
		for i, pr := range r.Block().Preds {
			if pr == p {
				last = phi.Edges[i]
			}
		}
	}
	return !isNilConst(last) && !knownNil(last, r.Block()) && !knownNil(last, p)
}

// errAccepted are the errors nothing is lost by: those of operations that
// cannot fail, of cleaning up, and of questions whose error is the answer.
func errAccepted(cc *ssa.CallCommon, kind string, fn *ssa.Function) bool {
	callee := calleeOf(cc)
	arg := func(i int) ssa.Value {
		if i >= len(cc.Args) {
			return nil
		}
		v := cc.Args[i]
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			default:
				return v
			}
		}
	}
	inMemory := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		t := v.Type().String()
		return t == "*bytes.Buffer" || t == "*strings.Builder"
	}
	if kind == "dropped" {
		switch {
		case strings.HasPrefix(callee, "(*bytes.Buffer)."), strings.HasPrefix(callee, "(*strings.Builder)."), callee == "(hash.Hash).Write":
			return true
		case callee == "(io.Writer).Write" && inMemory(arg(0)):
			return true
		case strings.HasPrefix(callee, "fmt.Fprint"):
			// into memory, or the last report there is
			return inMemory(arg(0)) || fn.Pkg != nil && fn.Pkg.Pkg.Name() == "cmd"
		case callee == "(*google.golang.org/grpc.ClientConn).Close":
			return true
		case callee == "(*os.File).Close":
			return onlyRead(arg(0), map[ssa.Value]bool{})
		case callee == "os.Remove", callee == "os.RemoveAll":
			// cleaning up; deleting what the user asked to delete is not
			return !(topOf(fn).Signature.Recv() != nil && strings.Contains(topOf(fn).Signature.Recv().Type().String(), "downloader"))
		}
		return false
	}
	switch callee {
	case "os.Stat", "os.Lstat", "path/filepath.Rel", "strconv.Atoi", "strconv.ParseUint", "strconv.ParseInt", "protoc.getDisplayFilePath":
		return true
	}
	return false
}

// onlyRead reports whether a file was opened for reading.
func onlyRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return v != nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return calleeOf(&c.Call) == "os.Open"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !onlyRead(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !onlyRead(st.Val, seen) {
					return false
				}
			}
			return true
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return onlyReadFree(fv, seen)
		}
	case *ssa.Parameter:
		// in a helper: what its callers hand it is not followed
		return true
	}
	return false
}

func onlyReadFree(fv *ssa.FreeVar, seen map[ssa.Value]bool) bool {
	fn := fv.Parent()
	for i, f := range fn.FreeVars {
		if f != fv || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				mc, ok := ins.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(fn) {
					continue
				}
				al, ok := mc.Bindings[i].(*ssa.Alloc)
				if !ok {
					return false
				}
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !onlyRead(st.Val, seen) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// knownNil reports whether v has been found to be nil where b is reached.
func knownNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id {
			continue
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(id.Succs) != 2 || id.Succs[0] == id.Succs[1] {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(cmp.X == v && isNilConst(cmp.Y) || cmp.Y == v && isNilConst(cmp.X)) {
			continue
		}
		if cmp.Op == token.EQL && id.Succs[0] == d || cmp.Op == token.NEQ && id.Succs[1] == d {
			return true
		}
	}
	return false
}

func sortFindings(fs []Finding) {
	sort.Slice(fs, func(i, j int) bool { return fs[i].Key+fs[i].Pos < fs[j].Key+fs[j].Pos })
}
