package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: ptcheck check <ID> | spec <area> | show <area> [root]")
		os.Exit(1)
	}
	if os.Args[1] == "check" && len(os.Args) > 2 {
		os.Exit(runCheck(os.Args[2]))
	}
	if os.Args[1] == "checkall" {
		os.Exit(checkAll(len(os.Args) > 2))
	}
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	c := newCtx(p, os.Args[1] != "rules")
	if os.Args[1] == "rules" {
		if err := c.loadFrozen(); err != nil {
			panic(err)
		}
	}
	if os.Args[1] != "freeze" {
		g := c.gen
		c.gen = os.Args[1] != "rules"
		c.inlineHelpers()
		c.gen = g
	}
	switch os.Args[1] {
	case "freeze":
		if err := c.writeNames(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if err := c.writeFrozen(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	case "spec", "show":
		c.gen = true
		for _, a := range allAreas() {
			if a.ID != os.Args[2] && os.Args[2] != "all" {
				continue
			}
			roots := a.Eval(c, a)
			if os.Args[1] == "show" {
				for _, fa := range fnAreas() {
					if t := os.Getenv("PTCHECK_TIER"); fa.id == a.ID && t != "" {
						n, _ := strconv.Atoi(t)
						roots = fa.eval(c, n)
					}
				}
				var ks []string
				for k := range roots {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if len(os.Args) > 3 && !strings.Contains(k, os.Args[3]) {
						continue
					}
					r := roots[k]
					fmt.Println("==", k, r.Pos, r.Err)
					for _, l := range r.Lines {
						fmt.Println("   ", l)
					}
				}
				continue
			}
			for _, fa := range fnAreas() {
				if fa.id != a.ID {
					continue
				}
				for _, t := range fa.tiers() {
					for k, r := range fa.eval(c, t) {
						roots[k] = r
					}
				}
			}
			if err := writeSpec(a.ID, roots); err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			n := 0
			for _, r := range roots {
				n += len(r.Lines)
			}
			fmt.Println(a.ID, len(roots), "roots", n, "lines")
		}
	case "uncovered":
		uncovered()
	case "rules":
		for _, ch := range allChecks() {
			for _, r := range ch.Rules {
				if len(os.Args) > 2 && os.Args[2] != r.Name {
					continue
				}
				res := r.Run(c)
				fmt.Println("==", ch.ID, r.Name, res.Functions, "functions", res.Obligations, "obligations")
				for _, f := range res.Findings {
					fmt.Println("   ", f.Pos, f.Key, "::", f.Msg)
				}
				for _, f := range res.Samples {
					fmt.Println("    ok", f)
				}
			}
		}
	case "deep":
		c.gen = true
		for _, fa := range fnAreas() {
			if fa.id != os.Args[2] && os.Args[2] != "all" {
				continue
			}
			for k, r := range fa.eval(c, 2) {
				n := 0
				for _, l := range r.Lines {
					n += len(l.String())
				}
				fmt.Println(fa.id, k, len(r.Lines), n, r.Steps, r.Err, len(r.Funcs))
			}
		}
	case "dump":
		for _, fn := range p.Funcs {
			if strings.Contains(fn.String(), os.Args[2]) && fn.Parent() == nil && fn.Synthetic == "" {
				root := fn.Pkg
				ev := newEval(p, newPolicy(func(f *ssa.Function) bool {
					return f.Pkg != nil && f.Pkg != root && f.Object() != nil && f.Object().Exported()
				}))
				eff, rets, err := ev.runRoot(fn)
				fmt.Println("==", fn, err)
				for _, l := range ev.summarize(eff, rets, nil, true) {
					fmt.Println("   ", l)
				}
			}
		}
	}
}

func allAreas() []*Area {
	as := []*Area{breakingArea(), lintArea(), cmdArea(), tablesArea()}
	for _, f := range fnAreas() {
		as = append(as, f.area())
	}
	return as
}
