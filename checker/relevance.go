package main

import "golang.org/x/tools/go/ssa"

// relevance computes which functions (transitively, through static calls and
// the closures they create) contain an instruction that a rule is about.
// Functions that contain none are summarised by what they may modify instead
// of being inlined.
type relevance struct {
	pred func(ssa.Instruction) bool
	memo map[*ssa.Function]bool
	self map[*ssa.Function]bool // contains such an instruction itself
}

func newRelevance(p *Program, pred func(ssa.Instruction) bool) *relevance {
	rv := &relevance{pred: pred, memo: map[*ssa.Function]bool{}, self: map[*ssa.Function]bool{}}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	var all []*ssa.Function
	var add func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		all = append(all, fn)
		calls[fn] = map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					rv.memo[fn] = true
					rv.self[fn] = true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					calls[fn][mc.Fn.(*ssa.Function)] = true
					add(mc.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && len(f.Blocks) > 0 {
						calls[fn][f] = true
						add(f)
					}
				}
			}
		}
	}
	for _, fn := range p.srcFn {
		add(fn)
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range all {
			if rv.memo[fn] {
				continue
			}
			for c := range calls[fn] {
				if rv.memo[c] {
					rv.memo[fn] = true
					changed = true
					break
				}
			}
		}
	}
	return rv
}

func (rv *relevance) has(fn *ssa.Function) bool { return rv.memo[fn] }

// opaque is for Engine.Opaque.
func (rv *relevance) opaque(fn *ssa.Function) bool { return !rv.memo[fn] }
