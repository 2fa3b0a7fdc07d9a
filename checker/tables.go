package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tablesArea records the value of every package variable that holds data:
// tables, templates, defaults, rule groups.
func tablesArea() *Area {
	return &Area{ID: "tables", Eval: func(c *Ctx, a *Area) map[string]*Root {
		var jobs []job
		for path, sp := range c.p.SPkgs {
			if !strings.HasPrefix(path, modPath+"/internal/") || strings.Contains(path, "/reflect/gen") || strings.HasSuffix(path, "/testing") || strings.HasSuffix(path, "/cmd") {
				continue
			}
			sp := sp
			jobs = append(jobs, job{sp.Pkg.Name(), func() *Root { return c.tableRoot(sp) }})
		}
		out := map[string]*Root{}
		for _, r := range runJobs(jobs) {
			if r.Err != "" {
				out[r.Key] = r
				continue
			}
			byVar := map[string]*Root{}
			for _, l := range r.Lines {
				i := strings.Index(l.Head, "\x00")
				k := l.Head[:i]
				l.Head = l.Head[i+1:]
				if byVar[k] == nil {
					byVar[k] = &Root{Key: k, Pos: l.Pos, Labels: r.Labels}
				}
				byVar[k].Lines = append(byVar[k].Lines, l)
			}
			for k, v := range byVar {
				sortLines(v.Lines)
				out[k] = v
			}
		}
		return out
	}}
}

func (c *Ctx) tableRoot(sp *ssa.Package) *Root {
	ev := newEval(c.p, newPolicy(func(f *ssa.Function) bool {
		return f.Pkg != sp && isExported(f) && c.isFrozen(f)
	}))
	m := ev.pkgInit(sp)
	r := &Root{Labels: ev.w.dict}
	for name, mem := range sp.Members {
		g, ok := mem.(*ssa.Global)
		if !ok || strings.HasPrefix(name, "init$") || name == "_" {
			continue
		}
		if strings.HasSuffix(c.p.Fset.Position(g.Pos()).Filename, ".pb.go") {
			continue
		}
		et := g.Type().Underlying().(*types.Pointer).Elem()
		if n := namedOf(et); n != nil && inModule(n.Obj().Pkg()) && canonTypeName(n) == "cmdTemplate" {
			continue // the commands area
		}
		v := ev.load(m, ev.globAddr(g), et)
		if !g.Object().Exported() {
			// plain constants are seen where they are used
			if ev.globalConst(ev.globAddr(g)) != nil {
				continue
			}
			if v.op == "new" && v.typ != nil && ev.linterID(v, m) != nil {
				continue
			}
		}
		key := globName(sp, name)
		add := func(s string) {
			r.Lines = append(r.Lines, Line{key + "\x00" + s, "true", c.p.pos(g.Pos())})
		}
		// rules are named by their ID
		render := func(t *Term) string {
			if t.op == "new" && t.typ != nil {
				if id := ev.linterID(t, m); id != nil && id.isStr() {
					return "rule " + id.str()
				}
			}
			return ev.snap(t, m).canon()
		}
		list := func(t *Term) []string {
			l := ev.snapList(t, m)
			if l.op != "list" {
				return []string{render(t)}
			}
			var out []string
			for _, x := range l.args {
				out = append(out, render(x))
			}
			return out
		}
		switch et.Underlying().(type) {
		case *types.Slice:
			if v.isNil() {
				add("empty")
				break
			}
			for _, s := range list(v) {
				add(s)
			}
		case *types.Map:
			mv := v
			if v.op == "new" {
				mv = m[v]
			}
			if mv != nil && mv.op == "map" {
				add(fmt.Sprintf("entries: %d", len(mv.args)/2))
				for i := 0; i+1 < len(mv.args); i += 2 {
					k := mv.args[i].canon()
					x := mv.args[i+1]
					if x.op == "sliceof" || x.op == "list" || x.op == "new" && x.s == "slice" {
						l := list(x)
						for _, s := range l {
							add(k + ": " + s)
						}
						if len(l) == 0 {
							add(k + ": (empty)")
						}
						continue
					}
					add(k + ": " + render(x))
				}
				break
			}
			add(render(v))
		default:
			add(render(v))
		}
	}
	return r
}
