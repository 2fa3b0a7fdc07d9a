package main

import (
	"fmt"
	"sort"
)

// uncovered lists the specified effects no property owns.
func uncovered() {
	for _, a := range allAreas() {
		s, err := loadSpec(a.ID)
		if err != nil {
			continue
		}
		var names []string
		for r := range s.roots {
			names = append(names, r)
		}
		sort.Strings(names)
		for _, r := range names {
			n := 0
			for l := range s.roots[r] {
				owned := false
				for _, ch := range allChecks() {
					for i := range ch.Sels {
						sel := &ch.Sels[i]
						sel.compile()
						if sel.Area == a.ID && sel.root.MatchString(r) && sel.owns(l) {
							owned = true
						}
					}
				}
				if !owned {
					n++
				}
			}
			if n > 0 {
				fmt.Println(a.ID, r, n, "of", len(s.roots[r]))
			}
		}
	}
}
