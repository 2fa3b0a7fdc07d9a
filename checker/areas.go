package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one run of the checker.
type Ctx struct {
	p            *Program
	gen          bool            // specifications are being written
	full         bool            // every root of an area is evaluated at once
	frozen       map[string]bool // functions of the reviewed tree
	results      map[string]map[string]*Root
	renames      map[string]string // current name -> reviewed name
	specs        map[string]*areaSpec
	fnByName     map[string]*ssa.Function
	followed     map[string]bool
	followBudget int
	refCache     map[*ssa.Function][]*ssa.Function
	implCache    map[string][]*ssa.Function
	takenSet     map[*ssa.Function]bool
	bindCache    map[*ssa.FreeVar]ssa.Value
	keepCache    map[*ssa.Function][]taken
	lockCache    map[*ssa.Function]map[*ssa.BasicBlock]lockset
	makeCache    map[*ssa.Function]bool
	orderCache   map[*ssa.Function]string
	fieldStores  map[*ssa.Function]map[string]bool
	firstLoads   map[string]*ssa.UnOp
	nilSafeCache map[string]bool
	addrDepth    int
	calls        map[*ssa.Function][]ssa.CallInstruction
	asValue      map[*ssa.Function]bool
}

func newCtx(p *Program, gen bool) *Ctx {
	c := &Ctx{p: p, frozen: map[string]bool{}, results: map[string]map[string]*Root{}, renames: map[string]string{}, specs: map[string]*areaSpec{}, fnByName: map[string]*ssa.Function{}}
	c.resolveNames(gen)
	for _, fn := range p.Funcs {
		if fn.Synthetic == "" {
			c.fnByName[shortFn(fn)] = fn
		}
	}
	return c
}

func boundaryPath() string { return filepath.Join(verifDir(), "checker", "spec", "functions.txt") }

func (c *Ctx) loadFrozen() error {
	b, err := os.ReadFile(boundaryPath())
	if err != nil {
		return err
	}
	gone := map[string][][]string{} // by package, receiver and signature
	var order []string
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			f := strings.Split(l, "\t")
			c.frozen[f[0]] = true
			if len(f) > 2 && c.fnByName[f[0]] == nil && !exportedName(f[0]) {
				k := f[0][:strings.LastIndex(f[0], ".")+1] + "\t" + f[1]
				if gone[k] == nil {
					order = append(order, k)
				}
				gone[k] = append(gone[k], f)
			}
		}
	}
	if len(gone) == 0 {
		return nil
	}
	sort.Strings(order)
	now := map[string][]string{}
	for n, fn := range c.fnByName {
		i := strings.LastIndex(n, ".") + 1
		if c.frozen[n] || exportedName(n) || strings.Contains(n, "$") || fn.Parent() != nil {
			continue
		}
		k := n[:i] + "\t" + sigOf(fn)
		if gone[k] != nil {
			now[k] = append(now[k], n)
		}
	}
	// renamed: the only new one of the kind, or as many, in the same order
	for _, k := range order {
		old, cur := gone[k], now[k]
		if len(old) != len(cur) {
			continue
		}
		sort.Slice(old, func(i, j int) bool { return old[i][2] < old[j][2] })
		sort.Slice(cur, func(i, j int) bool { return c.declPos(cur[i]) < c.declPos(cur[j]) })
		for i := range old {
			renamed[cur[i]] = old[i][0]
			c.renames[cur[i]] = old[i][0]
			c.fnByName[old[i][0]] = c.fnByName[cur[i]]
		}
	}
	return nil
}

func exportedName(n string) bool {
	b := n[strings.LastIndex(n, ".")+1:]
	return b == "" || b[0] >= 'A' && b[0] <= 'Z'
}

// declPos orders functions by file and place.
func (c *Ctx) declPos(n string) string {
	return c.place(c.fnByName[n].Pos())
}

func (c *Ctx) writeFrozen() error {
	var ls []string
	for n, fn := range c.fnByName {
		if fn.Parent() != nil || strings.Contains(n, "$") || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		ls = append(ls, n+"\t"+sigOf(fn)+"\t"+c.declPos(n))
	}
	sort.Strings(ls)
	os.MkdirAll(filepath.Dir(boundaryPath()), 0o755)
	return os.WriteFile(boundaryPath(), []byte(strings.Join(ls, "\n")+"\n"), 0o644)
}

func sigOf(fn *ssa.Function) string {
	return canonNames(rawTypeName(fn.Signature))
}

func isExported(fn *ssa.Function) bool { return fn.Object() != nil && fn.Object().Exported() }

func (c *Ctx) isFrozen(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	return c.gen || c.frozen[shortFn(fn)]
}

// boundaryPolicy follows everything inside pkg and stops at the exported
// functions of the other packages of the reviewed tree.
func (c *Ctx) boundaryPolicy(pkgs ...string) *Policy {
	own := map[string]bool{}
	for _, p := range pkgs {
		own[modPath+"/internal/"+p] = true
	}
	return newPolicy(func(f *ssa.Function) bool {
		pk := f.Pkg
		if pk == nil || own[pk.Pkg.Path()] {
			return false
		}
		return isExported(f) && c.isFrozen(f)
	})
}

// ---------------------------------------------------------------- breaking rules

// breakingArea summarises every registered compatibility rule by its ID.
func breakingArea() *Area {
	return &Area{ID: "breaking", Eval: func(c *Ctx, a *Area) map[string]*Root {
		var jobs []job
		ev0 := newEval(c.p, c.boundaryPolicy("breaking"))
		var n int
		reg := func(ev *Eval) []*Term {
			sp := c.p.pkg("breaking")
			m := ev.pkgInit(sp)
			var out []*Term
			g, ok := sp.Members["AllCheckers"].(*ssa.Global)
			if !ok {
				panic(undecided("breaking.AllCheckers not found"))
			}
			l := ev.snap(m[ev.globAddr(g)], m)
			if l.op != "list" {
				panic(undecided("breaking.AllCheckers is not a constant list"))
			}
			out = append(out, l.args...)
			if g, ok := sp.Members["PackagesNoBetaDepsChecker"].(*ssa.Global); ok {
				out = append(out, ev.snap(ev.load(m, ev.globAddr(g), g.Type().Underlying().(*types.Pointer).Elem()), m))
			}
			return out
		}
		fieldT := func(ev *Eval, t *Term, f string) *Term { return ev.w.fieldOf(t, f, nil) }
		all := reg(ev0)
		n = len(all)
		var ids []string
		for i := 0; i < n; i++ {
			i := i
			id := fieldT(ev0, all[i], "ID")
			if !id.isStr() {
				panic(undecided("the ID of a compatibility rule is not constant"))
			}
			ids = append(ids, id.str())
			jobs = append(jobs, job{"rule:" + id.str(), func() *Root {
				ev := newEval(c.p, c.boundaryPolicy("breaking"))
				t := reg(ev)[i]
				f := fieldT(ev, t, "Check")
				return ev.rootOfValue(f, ev.initMem[c.p.pkg("breaking")], "addFailure", "from", "to")
			}})
		}
		out := runJobs(jobs)
		r := &Root{Key: "registry", Pos: "internal/breaking/breaking.go"}
		for i := 0; i < n; i++ {
			r.Lines = append(r.Lines, Line{"registered " + ids[i], "true", r.Pos})
		}
		sortLines(r.Lines)
		out["registry"] = r
		return out
	}}
}

// rootOfValue summarises a call of the function value f.
func (ev *Eval) rootOfValue(f *Term, mem Mem, names ...string) *Root {
	if (f.op != "closure" && f.op != "func") || f.fn == nil || f.fn.Blocks == nil {
		panic(undecided("rule is not a known function: " + f.canon()))
	}
	var args []*Term
	for i, pr := range f.fn.Params {
		n := fmt.Sprintf("p%d", i)
		if i < len(names) {
			n = names[i]
		}
		args = append(args, ev.w.intern(&Term{op: "param", s: n, typ: pr.Type()}))
	}
	eff, rets := ev.Run(f.fn, args, f.args, mem.clone())
	return ev.finish(f.fn, eff, rets)
}

// ---------------------------------------------------------------- lint rules

func (c *Ctx) lintRegistry(ev *Eval) ([]*Term, Mem) {
	sp := c.p.pkg("lint")
	m := ev.pkgInit(sp)
	g, ok := sp.Members["AllLinters"].(*ssa.Global)
	if !ok {
		panic(undecided("lint.AllLinters not found"))
	}
	v := m[ev.globAddr(g)]
	if v == nil {
		panic(undecided("lint.AllLinters is not initialised"))
	}
	l := ev.snapList(v, m)
	if l.op != "list" {
		panic(undecided("lint.AllLinters is not a constant list"))
	}
	return l.args, m
}

func lintArea() *Area {
	return &Area{ID: "lint", Eval: func(c *Ctx, a *Area) map[string]*Root {
		ev0 := newEval(c.p, c.boundaryPolicy("lint"))
		all, m0 := c.lintRegistry(ev0)
		var jobs []job
		for i, obj := range all {
			i := i
			id := ev0.linterID(obj, m0)
			if id == nil || !id.isStr() {
				panic(undecided("the ID of a lint rule is not constant"))
			}
			jobs = append(jobs, job{id.str(), func() *Root {
				ev := newEval(c.p, c.boundaryPolicy("lint"))
				all, m := c.lintRegistry(ev)
				return c.linterRoot(ev, all[i], m)
			}})
		}
		return runJobs(jobs)
	}}
}

// linterID reads the ID of a registered linter object: the field that its ID
// method returns.
func (ev *Eval) linterID(obj *Term, m Mem) *Term {
	if obj.op != "new" || obj.typ == nil {
		return nil
	}
	st := structOf(obj.typ)
	n := namedOf(obj.typ)
	if st == nil || n == nil || !inModule(n.Obj().Pkg()) {
		return nil
	}
	fn := ev.p.SSA.LookupMethod(types.NewPointer(n), n.Obj().Pkg(), "ID")
	if fn == nil {
		return nil
	}
	field := -1
	var find func(fn *ssa.Function, depth int)
	find = func(fn *ssa.Function, depth int) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if structOf(x.X.Type()) == st && field < 0 {
						field = x.Field
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Pkg == fn.Pkg && depth < 4 {
						find(g, depth+1)
					}
				}
			}
		}
	}
	find(fn, 0)
	if field < 0 {
		return nil
	}
	return ev.load(m, ev.addrField(obj, fieldName(st, field), types.NewPointer(st.Field(field).Type())), st.Field(field).Type())
}

// linterRoot summarises the check function of a linter and every method of
// the visitors it uses.
func (c *Ctx) linterRoot(ev *Eval, obj *Term, m Mem) *Root {
	var check *Term
	st := structOf(obj.typ)
	if st == nil {
		panic(undecided("unknown linter type"))
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
			check = ev.load(m, ev.addrField(obj, fieldName(st, i), types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
		}
	}
	if check == nil {
		panic(undecided("linter without check function"))
	}
	follow := ev.pol.Opaque
	ev.pol.Opaque = func(f *ssa.Function) bool {
		return (f.Name() == "OnStart" || f.Name() == "Finally") && f.Signature.Recv() != nil || follow(f)
	}
	r := ev.rootOfValue(check, m, "addFailure", "dirPath", "descriptors")
	ev.pol.Opaque = follow
	for i := range r.Lines {
		r.Lines[i].Head = "check: " + r.Lines[i].Head
	}
	// the source of the rule itself, not of the wrapper around it
	seen := map[string]bool{}
	vs := ev.visits
	for vi := 0; vi < len(ev.visits); vi++ {
		v := ev.visits[vi]
		key := v.typ.String()
		if n := namedOf(v.typ); n != nil {
			key = n.String()
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		r.Lines = append(r.Lines, c.visitorLines(ev, v)...)
	}
	if len(vs) > 0 {
		if n := namedOf(vs[0].typ); n != nil {
			r.Pos = c.p.pos(n.Obj().Pos())
		}
	} else if f := check; f.fn != nil {
		r.Pos = c.p.pos(f.fn.Pos())
		for g := range ev.covered {
			if strings.HasPrefix(g.Name(), "check") && g.Parent() == nil {
				r.Pos = c.p.pos(g.Pos())
			}
		}
	}
	sortLines(r.Lines)
	r.Funcs = nil
	for f := range ev.covered {
		r.Funcs = append(r.Funcs, shortFn(f))
	}
	sort.Strings(r.Funcs)
	return r
}

// mutableFields are the fields of t that are stored to outside of the
// function that makes the value.
func (c *Ctx) mutableFields(t types.Type) map[string]bool {
	out := map[string]bool{}
	st := structOf(t)
	n := namedOf(t)
	if st == nil || n == nil {
		return out
	}
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var addr ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					addr = x.Addr
				case *ssa.MapUpdate:
					addr = x.Map
				}
				var names []string
				for addr != nil {
					switch x := addr.(type) {
					case *ssa.Alloc:
						if _, ptr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); !ptr {
							names = nil // made here
						}
						addr = nil
					case *ssa.FieldAddr:
						if nt := namedOf(x.X.Type()); nt != nil && nt.Obj() == n.Obj() {
							names = append(names, fieldName(st, x.Field))
						}
						addr = x.X
					case *ssa.IndexAddr:
						addr = x.X
					case *ssa.UnOp:
						addr = x.X
					default:
						addr = nil
					}
				}
				for _, f := range names {
					out[f] = true
				}
			}
		}
	}
	return out
}

func (c *Ctx) visitorLines(ev *Eval, v visit) []Line {
	typ := v.typ
	ptr := typ
	if _, ok := typ.(*types.Pointer); !ok {
		ptr = types.NewPointer(typ)
	}
	ms := c.p.SSA.MethodSets.MethodSet(ptr)
	mut := c.mutableFields(typ)
	st := structOf(typ)
	var lines []Line
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		name := sel.Obj().Name()
		if !strings.HasPrefix(name, "Visit") && name != "OnStart" && name != "Finally" {
			continue
		}
		fn := c.p.SSA.MethodValue(sel)
		if fn == nil || fn.Blocks == nil {
			continue
		}
		recv := ev.w.intern(&Term{op: "param", s: "v", typ: ptr})
		// fields that never change after construction keep their value
		m := v.mem.clone()
		for k := range m {
			if rootOf(k) == v.obj {
				delete(m, k)
			}
		}
		for j := 0; j < st.NumFields(); j++ {
			fname := fieldName(st, j)
			if mut[fname] {
				continue
			}
			ft := types.NewPointer(st.Field(j).Type())
			src := ev.addrField(v.obj, fname, ft)
			val := ev.load(v.mem, src, st.Field(j).Type())
			if ev.unknownCell(val) {
				continue
			}
			m[ev.addrField(recv, fname, ft)] = val
		}
		args := []*Term{recv}
		for j, pr := range fn.Params[1:] {
			args = append(args, ev.w.intern(&Term{op: "param", s: fmt.Sprintf("p%d", j+1), typ: pr.Type()}))
		}
		ev.steps = 0
		ev.nobj += 1000
		eff, rets := ev.Run(fn, args, nil, m)
		for _, l := range ev.summarize(eff, rets, nil, true) {
			if l.Head == "return ()" || (l.Head == "return (nil)" && l.Cond == "true") {
				continue
			}
			l.Head = name + ": " + l.Head
			lines = append(lines, l)
		}
	}
	return lines
}

// unknownCell reports whether t depends on what opaque code did to an object.
func (ev *Eval) unknownCell(t *Term) bool {
	if t.op == "loopvar" || t.op == "out" {
		return true
	}
	if t.op == "field" {
		return ev.unknownCell(t.args[0])
	}
	return false
}

// ---------------------------------------------------------------- functions

// fnArea specifies functions one by one: each stops at the other functions
// that are specified.
type fnArea struct {
	id     string
	pkgs   []string // below internal/
	small  int      // unexported functions up to this size are followed, not specified
	skip   func(name string) bool
	inline func(name string) bool
	seq    func(root, name string) bool
	keep   []string // tier 2 also stops at these functions
	noDeep []string // exported functions too large to follow to the boundary
	want   func(name string) bool
}

func instrCount(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	for _, a := range fn.AnonFuncs {
		n += instrCount(a)
	}
	return n
}

func (fa *fnArea) area() *Area {
	return &Area{ID: fa.id, Eval: func(c *Ctx, a *Area) map[string]*Root { return fa.eval(c, 1) }}
}

// tiers are the granularities at which the functions are specified: 1 stops
// at every specified function, 3 only at the package boundary, and 4 also
// follows the small functions beyond it that any code may come to use.
func (fa *fnArea) tiers() []int {
	if len(fa.keep) > 0 {
		return []int{2, 3, 4}
	}
	return []int{3, 4}
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func tierKey(tier int, n string) string {
	if tier == 1 {
		return n
	}
	return fmt.Sprintf("t%d:%s", tier, n)
}

// rootNames are the specified functions.
func (fa *fnArea) rootNames(c *Ctx) []string {
	var names []string
	if !c.gen {
		sp := c.specOf(fa.id)
		for k := range sp.roots {
			if !isTierKey(k) {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		return names
	}
	for n, fn := range c.fnByName {
		if fn.Parent() != nil || fn.Pkg == nil || fn.Blocks == nil || strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil {
			continue
		}
		in := false
		for _, p := range fa.pkgs {
			if fn.Pkg.Pkg.Path() == modPath+"/internal/"+p {
				in = true
			}
		}
		if !in || strings.HasSuffix(c.p.Fset.Position(fn.Pos()).Filename, ".pb.go") {
			continue
		}
		if fa.skip != nil && fa.skip(n) {
			continue
		}
		if !isExported(fn) && (instrCount(fn) <= fa.small || (fa.inline != nil && fa.inline(n))) {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func isTierKey(k string) bool {
	return strings.HasPrefix(k, "t2:") || strings.HasPrefix(k, "t3:") || strings.HasPrefix(k, "t4:")
}

// utility reports whether f, called in package pkg, is a small function that
// may replace the code that does the same.
func utility(f *ssa.Function, pkg *ssa.Package) bool {
	if f.Blocks == nil || f.Pkg == nil || instrCount(f) > 60 {
		return false
	}
	return f.Pkg == pkg || f.Pkg.Pkg.Path() == modPath+"/internal/strs"
}

func (fa *fnArea) eval(c *Ctx, tier int) map[string]*Root {
	names := fa.rootNames(c)
	isRoot := map[string]bool{}
	for _, n := range names {
		isRoot[n] = true
	}
	var jobs []job
	out := map[string]*Root{}
	for _, n := range names {
		n := n
		fn := c.fnByName[n]
		if fn == nil {
			continue // reported as missing
		}
		if fa.want != nil && !fa.want(n) {
			continue
		}
		if tier > 1 && !isExported(fn) && (tier > 2 || !in(n, fa.keep)) || tier > 2 && in(n, fa.noDeep) {
			continue
		}
		key := tierKey(tier, n)
		jobs = append(jobs, job{key, func() *Root {
			pol := newPolicy(func(f *ssa.Function) bool {
				if f.Parent() != nil {
					return false
				}
				if tier == 4 && utility(f, fn.Pkg) {
					return false
				}
				if tier > 1 {
					return isExported(f) && c.isFrozen(f) || tier == 2 && in(shortFn(f), fa.keep)
				}
				return isRoot[shortFn(f)] || (isExported(f) && c.isFrozen(f))
			})
			if fa.seq != nil {
				pol.Seq = func(name string) bool { return fa.seq(n, name) }
				if !fa.seq(n, "") {
					pol.Seq = nil
				}
			}
			t := time.Now()
			r := rootOfFunc(c.p, fn, pol)
			if os.Getenv("PTCHECK_TIME") != "" && time.Since(t) > time.Second {
				fmt.Fprintln(os.Stderr, "slow", key, time.Since(t))
			}
			return r
		}})
	}
	for k, v := range runJobs(jobs) {
		out[k] = v
	}
	return out
}

// formatSeq are the calls that emit text: their order is the output.
func formatSeq(root, name string) bool {
	if name == "" {
		return !strings.Contains(root, "TransformerWith")
	}
	for _, s := range []string{"(*buf.Printer).", "(*format.baseVisitor).P", "(*format.baseVisitor).p", ").Accept", "rec", "(*format.firstPassVisitor).", "(*format.mainVisitor)."} {
		if name == s || strings.HasPrefix(name, s) || strings.HasPrefix(s, ").") && strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// writeSeq are the calls that write text.
func writeSeq(root, name string) bool {
	if name == "" {
		return true
	}
	for _, s := range []string{"(*bytes.Buffer).Write", "(text.FailureWriter).Write", "fmt.Fprint", "(*bufio.Writer).", "(*strings.Builder).Write", "(io.Writer).Write", "(*exec.runner).println"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// execSeq are the calls of the commands that print something.
func execSeq(root, name string) bool {
	if name == "" {
		for _, s := range []string{"printLinters", "Version", "printFailuresForErrorFormat"} {
			if strings.HasSuffix(root, "."+s) {
				return true
			}
		}
		return false
	}
	return writeSeq(root, name) || strings.HasPrefix(name, "(*text/tabwriter.Writer).") || strings.HasPrefix(name, "(*exec.runner).print")
}

func fnAreas() []*fnArea {
	return []*fnArea{
		{id: "settings", pkgs: []string{"settings"}, small: 12},
		{id: "exec", pkgs: []string{"exec"}, small: 12, seq: execSeq,
			keep:   []string{"(*exec.runner).compile", "(*exec.runner).doCompile", "(*exec.runner).format", "(*exec.runner).formatFile", "(*exec.runner).lint", "(*exec.runner).getMeta", "(*exec.runner).newCompiler", "(*exec.runner).newDownloader", "(*exec.runner).printFailuresForErrorFormat", "(*exec.runner).printAffectedFiles", "(*exec.runner).getPackageSetAndConfig"},
			noDeep: []string{"(*exec.runner).Lint", "(*exec.runner).Format", "(*exec.runner).BreakCheck", "(*exec.runner).All"}},
		{id: "protoc", pkgs: []string{"protoc"}, small: 12,
			keep:   []string{"(*protoc.compiler).getCmdMetas", "(*protoc.compiler).runCmdMeta", "(*protoc.compiler).parseProtocOutput", "(*protoc.compiler).getPluginFlagSets", "(*protoc.compiler).parseProtocLine", "(*protoc.downloader).checkDownloaded", "(*protoc.downloader).download"},
			noDeep: []string{"(*protoc.compiler).Compile", "(*protoc.compiler).ProtocCommands", "(*protoc.downloader).Download"}},
		{id: "file", pkgs: []string{"file"}, small: 12},
		{id: "grpc", pkgs: []string{"grpc"}, small: 12,
			keep:   []string{"(*grpc.handler).dial", "grpc.getDescriptorSourceForMethod", "grpc.getAnyResolver"},
			noDeep: []string{"(*grpc.handler).Invoke"}},
		{id: "create", pkgs: []string{"create", "cfginit"}, small: 12},
		{id: "git", pkgs: []string{"git"}, small: 12},
		{id: "text", pkgs: []string{"text"}, small: 12, seq: writeSeq},
		{id: "desc", pkgs: []string{"desc", "diff", "buf"}, small: 12},
		{id: "extract", pkgs: []string{"extract"}, small: 12},
		{id: "reflect", pkgs: []string{"reflect"}, small: 12},
		{id: "format", pkgs: []string{"format"}, small: 12, seq: formatSeq},
		{id: "strs", pkgs: []string{"strs", "protostrs"}, small: 12},
		{id: "breakrun", pkgs: []string{"breaking"}, small: 12, skip: func(n string) bool { return !strings.Contains(n, "unner") }},
		{id: "lintrun", pkgs: []string{"lint"}, small: 12, skip: func(n string) bool {
			return strings.Contains(n, "isitor") && !strings.Contains(n, "runVisitor") || strings.HasPrefix(n, "lint.check") && n != "lint.checkOne" && n != "lint.checkLintID" || strings.HasPrefix(n, "lint.newCheck")
		}},
		{id: "cmd", pkgs: []string{"cmd"}, small: 12},
	}
}

// cmdArea summarises every command: its arguments, flags and what it runs.
func cmdArea() *Area {
	return &Area{ID: "commands", Eval: func(c *Ctx, a *Area) map[string]*Root {
		sp := c.p.pkg("cmd")
		var jobs []job
		for name, mem := range sp.Members {
			g, ok := mem.(*ssa.Global)
			if !ok {
				continue
			}
			n := namedOf(g.Type().Underlying().(*types.Pointer).Elem())
			if n == nil || canonTypeName(n) != "cmdTemplate" {
				continue
			}
			g, name := g, strings.TrimPrefix(globName(sp, name), sp.Pkg.Name()+".")
			jobs = append(jobs, job{name, func() *Root {
				ev := newEval(c.p, newPolicy(func(f *ssa.Function) bool {
					return f.Parent() == nil && isExported(f) && c.isFrozen(f)
				}))
				m := ev.pkgInit(sp)
				obj := ev.load(m, ev.globAddr(g), g.Type().Underlying().(*types.Pointer).Elem())
				st := structOf(obj.typ)
				if obj.op != "new" || st == nil {
					panic(undecided("command is not a constant"))
				}
				r := &Root{Pos: c.p.pos(g.Pos()), Labels: ev.w.dict}
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					v := ev.load(m, ev.addrField(obj, fieldName(st, i), types.NewPointer(f.Type())), f.Type())
					switch f.Name() {
					case "Use", "Args":
						r.Lines = append(r.Lines, Line{f.Name() + ": " + ev.snap(v, m).canon(), "true", r.Pos})
					case "Run", "BindFlags":
						if v.isNil() && f.Name() == "BindFlags" {
							break
						}
						if v.fn == nil {
							panic(undecided("the " + f.Name() + " of a command is not a known function"))
						}
						var names []string
						if f.Name() == "Run" {
							names = []string{"runner", "args", "flags"}
						} else {
							names = []string{"flagSet", "flags"}
						}
						s := ev.rootOfValue(v, m, names...)
						for _, l := range s.Lines {
							l.Head = f.Name() + ": " + l.Head
							r.Lines = append(r.Lines, l)
						}
					}
				}
				sortLines(r.Lines)
				return r
			}})
		}
		return runJobs(jobs)
	}}
}
