package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var timeFamily = map[string]string{
	"date": "date", "daterange": "date", "time": "time", "timetz": "timetz",
	"timestamp": "timestamp", "tsrange": "timestamp", "timestamptz": "timestamptz", "tstzrange": "timestamptz",
}

const (
	rxDate  = `2006-01-02`
	rxClock = `15:04:05`
	rxFrac  = `[.,](9{6,9}|0{6,9})`
	rxZone  = `(-|Z)07:00(:00)?`
)

var formatRx = map[string]*regexp.Regexp{
	"date":        regexp.MustCompile(`^` + rxDate + `$`),
	"time":        regexp.MustCompile(`^` + rxClock + rxFrac + `$`),
	"timetz":      regexp.MustCompile(`^` + rxClock + rxFrac + rxZone + `$`),
	"timestamp":   regexp.MustCompile(`^` + rxDate + `[ T]` + rxClock + rxFrac + `$`),
	"timestamptz": regexp.MustCompile(`^` + rxDate + `[ T]` + rxClock + rxFrac + rxZone + `$`),
}

// when parsing, package time accepts a fraction after the seconds even if the
// layout has none.
var parseRx = map[string]*regexp.Regexp{
	"date":        regexp.MustCompile(`^` + rxDate + `$`),
	"time":        regexp.MustCompile(`^` + rxClock + `([.,][90]+)?$`),
	"timetz":      regexp.MustCompile(`^` + rxClock + `([.,][90]+)?((-|Z)07(:00){0,2})$`),
	"timestamp":   regexp.MustCompile(`^` + rxDate + ` ` + rxClock + `([.,][90]+)?$`),
	"timestamptz": regexp.MustCompile(`^` + rxDate + ` ` + rxClock + `([.,][90]+)?((-|Z)07(:00){0,2})$`),
}

// reachIn lists root and the functions of its package it statically reaches.
func reachIn(root *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Pkg != root.Pkg {
			return
		}
		seen[f] = true
		out = append(out, f)
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				walk(calleeOf(c.Common()))
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				walk(mc.Fn.(*ssa.Function))
			}
		})
	}
	walk(root)
	return out
}

// argStrings collects the constants v can be, following parameters to the call
// sites inside scope.
func argStrings(v ssa.Value, scope []*ssa.Function, out map[string]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		n, ok := 0, true
		for _, f := range scope {
			instrs(f, func(in ssa.Instruction) {
				if c, isC := in.(ssa.CallInstruction); isC && calleeOf(c.Common()) == x.Parent() {
					n++
					if !argStrings(c.Common().Args[idx], scope, out, seen) {
						ok = false
					}
				}
			})
		}
		return ok && n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !argStrings(e, scope, out, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		a, b := map[string]bool{}, map[string]bool{}
		if !argStrings(x.X, scope, a, map[ssa.Value]bool{}) || !argStrings(x.Y, scope, b, map[ssa.Value]bool{}) {
			return false
		}
		for s := range a {
			for u := range b {
				out[s+u] = true
			}
		}
		return true
	}
	return traceStrings(v, out, map[ssa.Value]bool{})
}

func zoneless(loc ssa.Value) bool {
	switch v := loc.(type) {
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		if !ok {
			return false
		}
		if g.Pkg.Pkg.Path() == "time" {
			return g.Name() == "UTC"
		}
		// a package-level variable initialised with time.UTC or FixedZone(_, 0)
		n, good := 0, true
		if init := g.Pkg.Func("init"); init != nil {
			instrs(init, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					n++
					good = good && zoneless(st.Val)
				}
			})
		}
		return n == 1 && good
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.String() == "time.FixedZone" {
			off, ok := constInt(v.Call.Args[1])
			return ok && off == 0
		}
	}
	return false
}

func init() {
	register("C06", "other",
		"For every converter of a date/time PostgreSQL type the layouts reaching package time's Format and Parse calls are resolved as constants over the call graph of the converter and compared with the components the PostgreSQL type carries (date, clock, six fractional digits, zone offset with minutes); operations that drop part of a time are forbidden. Covers every such converter and call; year ranges, BC dates and infinity are not modelled.",
		func(p *Prog, r *Report) {
			r.Rule("layout-complete", "each time layout used by a converter carries every component of the PostgreSQL type, down to microseconds, and scanners accept every zone form the server prints")
			for _, c := range converters(p) {
				fam := ""
				for _, ct := range c.ctor {
					if m := rxCtor.FindStringSubmatch(ct.Name()); m != nil {
						fam = timeFamily[strings.TrimPrefix(ctorPGType(m[1]), "_")]
					}
				}
				if fam == "" {
					continue
				}
				for _, root := range []*ssa.Function{c.scan, c.value} {
					if root == nil {
						continue
					}
					name := p.fname(root)
					scope := reachIn(root)
					parsed := map[string]bool{}
					for _, f := range scope {
						instrs(f, func(in ssa.Instruction) {
							call, ok := in.(*ssa.Call)
							if !ok {
								return
							}
							g := call.Call.StaticCallee()
							if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "time" {
								return
							}
							args := call.Call.Args
							var layout ssa.Value
							rx := formatRx[fam]
							switch g.String() {
							case "(time.Time).Format":
								layout = args[1]
							case "(time.Time).AppendFormat":
								layout = args[2]
							case "time.Parse", "time.ParseInLocation":
								layout = args[0]
								rx = parseRx[fam]
							case "(time.Time).Truncate", "(time.Time).Round", "(time.Time).Unix", "(time.Time).UnixMilli":
								r.Bad(name+"|"+g.Name(), "%s: %s at %s drops part of the time", name, g.Name(), p.pos(call.Pos()))
								return
							case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
								// the driver delivers zoneless values in UTC
								toUTC := g.Name() == "UTC" || g.Name() == "In" && zoneless(args[1])
								if !strings.HasSuffix(fam, "tz") && !(root == c.scan && toUTC) {
									r.Bad(name+"|"+g.Name(), "%s: %s at %s changes the wall clock of a type without time zone", name, g.Name(), p.pos(call.Pos()))
								} else {
									r.Ok(name + " " + g.Name())
								}
								return
							default:
								return
							}
							set := map[string]bool{}
							if !argStrings(layout, scope, set, map[ssa.Value]bool{}) || len(set) == 0 {
								r.Bad(name+"|"+g.Name()+"|layout", "undecided: the layout of %s at %s is not a constant", g.Name(), p.pos(call.Pos()))
								return
							}
							for s := range set {
								if g.Name() == "Parse" || g.Name() == "ParseInLocation" {
									parsed[s] = true
								}
								if rx.MatchString(s) {
									r.Ok(fmt.Sprintf("%s %s(%q) for %s", name, g.Name(), s, fam))
								} else {
									r.Bad(fmt.Sprintf("%s|%s|%s", name, g.Name(), s), "%s: %s at %s uses layout %q, which loses or misreads part of a PostgreSQL %s", name, g.Name(), p.pos(call.Pos()), s, fam)
								}
							}
							if g.Name() == "ParseInLocation" && !strings.HasSuffix(fam, "tz") {
								if zoneless(args[2]) {
									r.Ok(name + " parses in a zero-offset location")
								} else {
									r.Bad(name+"|location", "%s: %s at %s interprets a zoneless time in a location that is not UTC", name, g.Name(), p.pos(call.Pos()))
								}
							}
						})
					}
					if len(parsed) > 0 && strings.HasSuffix(fam, "tz") {
						forms := map[string]bool{}
						for s := range parsed {
							forms[s[strings.LastIndexAny(s, "-Z"):]] = true
						}
						miss := []string{}
						if !forms["-07"] && !forms["Z07"] {
							miss = append(miss, "±hh")
						}
						if !forms["-07:00"] && !forms["Z07:00"] {
							miss = append(miss, "±hh:mm")
						}
						sort.Strings(miss)
						if len(miss) > 0 {
							r.Bad(name+"|zone-forms", "%s rejects the zone form %s, which the server prints", name, strings.Join(miss, " and "))
						} else {
							r.Ok(name + " accepts the server's zone forms")
						}
					}
				}
			}
			r.Min(30)
		})
}

var _ types.Type
