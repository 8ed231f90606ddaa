package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleNetParse: part of C03.
func ruleNetParse(p *Prog, r *Report) {
	r.Rule("address-checked", "a scanner never stores the nil result of a failed address parse, and inet scanners keep the host part of the address")
	done := map[ssa.Instruction]bool{}
	for _, c := range converters(p) {
		if c.scan == nil {
			continue
		}
		inet := false
		for _, ct := range c.ctor {
			if m := rxCtor.FindStringSubmatch(ct.Name()); m != nil && strings.TrimPrefix(ctorPGType(m[1]), "_") == "inet" {
				inet = true
			}
		}
		for _, f := range reachIn(c.scan) {
			instrs(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					return
				}
				g := call.Call.StaticCallee().String()
				if g == "net.ParseIP" && !done[in] {
					done[in] = true
					if nilTested(call) {
						r.Ok(p.fname(f) + " ParseIP")
					} else {
						r.Bad(p.fname(f)+"|ParseIP", "%s: the result of net.ParseIP at %s is used without testing it for nil: text that is no address is stored as nil and reported as success", p.fname(f), p.pos(call.Pos()))
					}
				}
				if g == "net.ParseCIDR" && inet {
					used := false
					for _, ref := range *call.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 && len(*e.Referrers()) > 0 {
							used = true
						}
					}
					if used {
						r.Ok(p.fname(c.scan) + " keeps the host address")
					} else {
						r.Bad(p.fname(c.scan)+"|ParseCIDR", "%s: the address returned by net.ParseCIDR at %s is discarded: the stored inet loses its host part", p.fname(c.scan), p.pos(call.Pos()))
					}
				}
			})
		}
	}
	r.Min(3)
}

// nilTested: some branch depends on v (or a copy of it) being nil or empty.
func nilTested(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.BinOp:
				if c, ok := ref.Y.(*ssa.Const); ok && c.Value == nil {
					return true
				}
				if c, ok := ref.X.(*ssa.Const); ok && c.Value == nil {
					return true
				}
			case *ssa.Call:
				if b, ok := ref.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return true
				}
			case *ssa.Phi:
				if walk(ref) {
					return true
				}
			case *ssa.ChangeType:
				if walk(ref) {
					return true
				}
			case *ssa.Store:
				if al, ok := ref.Addr.(*ssa.Alloc); ok {
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && walk(u) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// ruleNetNil: part of C02.
func ruleNetNil(p *Prog, r *Report) {
	r.Rule("nil-address", "valuers render an address as text only after testing it for nil, so that a missing address becomes NULL and not the text of a nil value")
	done := map[ssa.Instruction]bool{}
	for _, c := range converters(p) {
		if c.value == nil {
			continue
		}
		for _, f := range reachIn(c.value) {
			instrs(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || done[in] || call.Call.StaticCallee() == nil {
					return
				}
				switch call.Call.StaticCallee().String() {
				case "(net.IP).String", "(*net.IPNet).String", "(net.HardwareAddr).String":
				default:
					return
				}
				done[in] = true
				ok = false
				for b := call.Block(); b != nil; b = b.Idom() {
					for _, x := range b.Instrs {
						bo, isB := x.(*ssa.BinOp)
						if !isB || b == call.Block() {
							continue
						}
						if isAddrTest(bo.X) || isAddrTest(bo.Y) {
							ok = true
						}
					}
				}
				if ok {
					r.Ok(p.fname(f) + " " + call.Call.StaticCallee().Name())
				} else {
					r.Bad(p.fname(f)+"|String", "%s: the address rendered at %s was not tested for nil: a nil address is sent as the text of a nil value instead of NULL", p.fname(f), p.pos(call.Pos()))
				}
			})
		}
	}
	r.Min(6)
}

func isAddrTest(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			v = c.Call.Args[0]
		}
	}
	n, ok := v.Type().(*types.Named)
	if !ok {
		return false
	}
	switch n.String() {
	case "net.IP", "net.IPMask", "net.HardwareAddr":
		return true
	}
	return false
}
