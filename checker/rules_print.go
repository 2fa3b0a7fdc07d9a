package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the parser finds in a file and the formatter never looks at is lost.

const astPath = "github.com/emicklei/proto"

// astNotPrinted are the parts of the syntax tree that carry nothing of the
// file, or nothing that is not elsewhere.
var astNotPrinted = map[string]string{
	"Comment.Cstyle":             "comments are printed in one style",
	"Comment.ExtraSlash":         "comments are printed in one style",
	"Option.AggregatedConstants": "deprecated copy of Constant",
	"Option.IsEmbedded":          "follows from the parent",
	"Literal.Map":                "deprecated copy of OrderedMap",
	"Literal.Source":             "read through SourceRepresentation",
	"Literal.IsString":           "read through SourceRepresentation",
	"Literal.QuoteRune":          "read through SourceRepresentation",
	"NamedLiteral.PrintsColon":   "the colon is always allowed before a value",
	"RPC.Options":                "copy of the options of Elements",
	"EnumField.ValueOption":      "deprecated copy of the last option of Elements",
	"Range.From":                 "read through SourceRepresentation",
	"Range.To":                   "read through SourceRepresentation",
	"Range.Max":                  "read through SourceRepresentation",
}

// printRule: every part of every kind of element is looked at by the formatter.
func printRule(c *Ctx) *RuleResult {
	r := &RuleResult{What: "every part of every kind of syntax tree node (struct fields of the parser's types) that one of the formatter's visitor methods receives, directly or inside another node, is read by the formatter"}
	sp := c.p.pkg("format")
	if sp == nil {
		panic(undecided("package format does not exist"))
	}
	var funcs []*ssa.Function
	for _, fn := range c.ruleFuncs() {
		if fn.Pkg == sp {
			funcs = append(funcs, fn)
		}
	}
	read := map[string]bool{}
	call := map[string]bool{}
	roots := map[string]*types.Named{}
	add := func(t types.Type) {
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == astPath && structOf(n) != nil {
			roots[n.Obj().Name()] = n
		}
	}
	for _, fn := range funcs {
		r.Functions++
		if strings.HasPrefix(fn.Name(), "Visit") && len(fn.Params) == 2 {
			add(fn.Params[1].Type())
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if n := namedOf(x.X.Type()); n != nil && !onlyStored(x) {
						read[n.Obj().Name()+"."+structOf(n).Field(x.Field).Name()] = true
					}
				case *ssa.Field:
					if n := namedOf(x.X.Type()); n != nil && structOf(n) != nil {
						read[n.Obj().Name()+"."+structOf(n).Field(x.Field).Name()] = true
					}
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil && f.Signature.Recv() != nil {
						if n := namedOf(f.Signature.Recv().Type()); n != nil {
							call[n.Obj().Name()+"."+f.Name()] = true
						}
					}
				}
			}
		}
	}
	// what the nodes contain
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for name, n := range roots {
			if done[name] {
				continue
			}
			done[name], changed = true, true
			st := structOf(n)
			for i := 0; i < st.NumFields(); i++ {
				t := st.Field(i).Type()
				if s, ok := t.Underlying().(*types.Slice); ok {
					t = s.Elem()
				}
				if st.Field(i).Name() != "Parent" {
					add(t)
				}
			}
		}
	}
	var names []string
	for name := range roots {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		st := structOf(roots[name])
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			key := name + "." + f.Name()
			if !f.Exported() || f.Name() == "Position" || f.Name() == "Parent" || f.Embedded() {
				continue
			}
			if why := astNotPrinted[key]; why != "" && (!strings.Contains(why, "SourceRepresentation") || call[name+".SourceRepresentation"]) {
				continue
			}
			r.Obligations++
			if !read[key] {
				r.Findings = append(r.Findings, Finding{Key: key, Pos: c.p.pos(sp.Members[firstMember(sp)].Pos()), Msg: "the formatter never reads " + key + " of the parsed file, so what it holds is lost"})
			}
		}
	}
	return r
}

func firstMember(sp *ssa.Package) string {
	var names []string
	for n, m := range sp.Members {
		if m.Pos().IsValid() {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names[0]
}

func onlyStored(x *ssa.FieldAddr) bool {
	for _, r := range *x.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
			continue
		}
		return false
	}
	return true
}
