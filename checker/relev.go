package main

import (
	"golang.org/x/tools/go/ssa"
)

// reachMap returns every function from which an instruction accepted by seed
// can be reached through static calls, closures and function values.
func (p *Prog) reachMap(seed func(fn *ssa.Function, in ssa.Instruction) bool) map[*ssa.Function]bool {
	rev := map[*ssa.Function][]*ssa.Function{}
	hit := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if !hit[fn] && seed(fn, in) {
					hit[fn] = true
					q = append(q, fn)
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if o := f.Origin(); o != nil {
							f = o
						}
						rev[f] = append(rev[f], fn)
					}
				}
			}
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range rev[f] {
			if !hit[c] {
				hit[c] = true
				q = append(q, c)
			}
		}
	}
	return hit
}

// small functions are always inlined: they are the helpers conditions and
// arguments are built from.
func (p *Prog) small(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return n <= 80
}
