package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unexported types, variables, functions and methods may be renamed: a name of
// the reviewed tree that is gone is matched with a new one of the same package
// and shape, when that is unambiguous, and the current name is read as the
// reviewed one.

var (
	typeRenames = map[string]string{} // "pkg.current" -> "pkg.reviewed"
	globRenames = map[string]string{}
	globOf      = map[string]*ssa.Global{} // reviewed name -> variable
	identRx     = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*\.[A-Za-z_][A-Za-z0-9_]*`)
)

// canonNames reads renamed types as the reviewed ones.
func canonNames(s string) string {
	if len(typeRenames) == 0 {
		return s
	}
	return identRx.ReplaceAllStringFunc(s, func(x string) string {
		if r, ok := typeRenames[x]; ok {
			return r
		}
		return x
	})
}

func namesPath() string { return filepath.Join(verifDir(), "checker", "spec", "names.txt") }

// declared lists the unexported types and variables of the module with their shape.
func (c *Ctx) declared() (ts, vs [][2]string) {
	var paths []string
	for p := range c.p.SPkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sp := c.p.SPkgs[p]
		if !inModule(sp.Pkg) {
			continue
		}
		type decl struct {
			pos string
			d   [2]string
		}
		var tl, vl []decl
		for name, m := range sp.Members {
			full := sp.Pkg.Name() + "." + name
			switch m := m.(type) {
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok && !n.Obj().Exported() {
					tl = append(tl, decl{c.place(m.Pos()), [2]string{full, c.shape(n)}})
				}
			case *ssa.Global:
				if m.Object() != nil && !m.Object().Exported() && name != "_" && !strings.Contains(name, "$") {
					vl = append(vl, decl{c.place(m.Pos()), [2]string{full, rawTypeName(m.Type())}})
				}
			}
		}
		sort.Slice(tl, func(i, j int) bool { return tl[i].pos < tl[j].pos })
		sort.Slice(vl, func(i, j int) bool { return vl[i].pos < vl[j].pos })
		for _, d := range tl {
			ts = append(ts, d.d)
		}
		for _, d := range vl {
			vs = append(vs, d.d)
		}
	}
	return ts, vs
}

// place orders declarations by file and line.
func (c *Ctx) place(pos token.Pos) string {
	ps := c.p.Fset.Position(pos)
	return fmt.Sprintf("%s:%06d:%04d", strings.TrimPrefix(ps.Filename, c.p.RepoDir+"/"), ps.Line, ps.Column)
}

func rawTypeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// shape describes an unexported type without the names that may change.
func (c *Ctx) shape(n *types.Named) string {
	self := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	ty := func(t types.Type) string {
		return identRx.ReplaceAllStringFunc(rawTypeName(t), func(x string) string {
			if x == self {
				return "SELF"
			}
			return x
		})
	}
	var ls []string
	switch u := n.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			nm := "~"
			if f.Embedded() {
				nm = "^"
			} else if f.Exported() {
				nm = f.Name()
			}
			ls = append(ls, nm+" "+ty(f.Type()))
		}
	default:
		ls = append(ls, ty(u))
	}
	sort.Strings(ls)
	var ms []string
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		nm := "~"
		if m.Exported() {
			nm = m.Name()
		}
		ms = append(ms, nm+" "+ty(m.Type()))
	}
	sort.Strings(ms)
	return fmt.Sprintf("%q %q", ls, ms)
}

func (c *Ctx) writeNames() error {
	ts, vs := c.declared()
	var b strings.Builder
	for _, d := range ts {
		fmt.Fprintf(&b, "type\t%s\t%s\n", d[0], d[1])
	}
	for _, d := range vs {
		fmt.Fprintf(&b, "var\t%s\t%s\n", d[0], d[1])
	}
	return os.WriteFile(namesPath(), []byte(b.String()), 0o644)
}

// resolveNames matches the reviewed names with the current ones.
func (c *Ctx) resolveNames(gen bool) {
	ts, vs := c.declared()
	var ots, ovs [][2]string
	if !gen {
		if b, err := os.ReadFile(namesPath()); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.SplitN(l, "\t", 3)
				if len(f) != 3 {
					continue
				}
				if f[0] == "type" {
					ots = append(ots, [2]string{f[1], f[2]})
				} else {
					ovs = append(ovs, [2]string{f[1], f[2]})
				}
			}
		}
	}
	match := func(old, cur [][2]string) map[string]string {
		out := map[string]string{}
		have := map[string]bool{}
		for _, d := range cur {
			have[d[0]] = true
		}
		was := map[string]bool{}
		for _, d := range old {
			was[d[0]] = true
		}
		pk := func(s string) string { return s[:strings.Index(s, ".")] }
		gone := map[string][]string{} // package and shape -> names in order of declaration
		for _, d := range old {
			if !have[d[0]] {
				k := pk(d[0]) + "\t" + canonNames(d[1])
				gone[k] = append(gone[k], d[0])
			}
		}
		new := map[string][]string{}
		for _, d := range cur {
			if !was[d[0]] {
				k := pk(d[0]) + "\t" + canonNames(d[1])
				new[k] = append(new[k], d[0])
			}
		}
		for k, g := range gone {
			if n := new[k]; len(n) == len(g) {
				for i := range g {
					out[n[i]] = g[i]
				}
			}
		}
		return out
	}
	if len(ots) > 0 {
		// a type may mention other renamed types
		for i := 0; i < 4; i++ {
			m := match(ots, ts)
			if len(m) == len(typeRenames) {
				break
			}
			typeRenames = m
		}
	}
	if len(ovs) > 0 {
		globRenames = match(ovs, vs)
	}
	for _, sp := range c.p.SPkgs {
		for name, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				globOf[globName(sp, name)] = g
			}
		}
	}
}

func globName(sp *ssa.Package, name string) string {
	s := sp.Pkg.Name() + "." + name
	if r, ok := globRenames[s]; ok {
		return r
	}
	return s
}

// canonTypeName is the reviewed name of a named type, without its package.
func canonTypeName(n *types.Named) string {
	s := n.Obj().Name()
	if n.Obj().Pkg() != nil {
		s = canonNames(n.Obj().Pkg().Name() + "." + s)
	}
	return s[strings.Index(s, ".")+1:]
}
