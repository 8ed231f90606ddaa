package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pgTypes: the PostgreSQL built-in type catalogue (src/include/catalog/pg_type.dat):
// type name -> (oid, oid of its array type).
var pgTypes = map[string][2]int64{
	"bit": {1560, 1561}, "bool": {16, 1000}, "box": {603, 1020}, "bpchar": {1042, 1014}, "bytea": {17, 1001},
	"char": {18, 1002}, "cidr": {650, 651}, "circle": {718, 719}, "date": {1082, 1182}, "daterange": {3912, 3913},
	"float4": {700, 1021}, "float8": {701, 1022}, "inet": {869, 1041}, "int2": {21, 1005}, "int2vector": {22, 1006},
	"int4": {23, 1007}, "int4range": {3904, 3905}, "int8": {20, 1016}, "int8range": {3926, 3927}, "interval": {1186, 1187},
	"json": {114, 199}, "jsonb": {3802, 3807}, "line": {628, 629}, "lseg": {601, 1018}, "macaddr": {829, 1040},
	"macaddr8": {774, 775}, "money": {790, 791}, "numeric": {1700, 1231}, "numrange": {3906, 3907}, "oidvector": {30, 1013},
	"path": {602, 1019}, "point": {600, 1017}, "polygon": {604, 1027}, "text": {25, 1009}, "time": {1083, 1183},
	"timestamp": {1114, 1115}, "timestamptz": {1184, 1185}, "timetz": {1266, 1270}, "tsquery": {3615, 3645},
	"tsrange": {3908, 3909}, "tstzrange": {3910, 3911}, "tsvector": {3614, 3643}, "uuid": {2950, 2951},
	"varbit": {1562, 1563}, "varchar": {1043, 1015}, "xml": {142, 143}, "any": {2276, 0}, "unknown": {705, 0},
}

// pgTypeOf names the PostgreSQL type with the given oid ("int4", "_int4" for arrays).
func pgTypeOf(oid int64) string {
	for n, o := range pgTypes {
		if o[0] == oid {
			return n
		}
		if o[1] == oid && oid != 0 {
			return "_" + n
		}
	}
	return fmt.Sprintf("oid:%d", oid)
}

var rxCtor = regexp.MustCompile(`^(.+?)(From|To)([A-Z].*)$`)

// ctorPGType maps the PostgreSQL part of a converter constructor's exported
// name to a type name.
func ctorPGType(prefix string) string {
	s := strings.ToLower(prefix)
	if strings.HasSuffix(s, "array") {
		s = "_" + strings.TrimSuffix(s, "array")
	} else if strings.HasSuffix(s, "arr") {
		s = "_" + strings.TrimSuffix(s, "arr")
	}
	return s
}

// jsonb values travel as json text.
func pgTypeAlias(t string) string {
	switch t {
	case "jsonb":
		return "json"
	case "_jsonb":
		return "_json"
	}
	return t
}

type compRow struct {
	oid     int64
	typmod1 bool
	lit     string
	valuer  string
	scanner string
	pos     string
}

func (c compRow) key() string {
	s := pgTypeOf(c.oid)
	if c.typmod1 {
		s += "(1)"
	}
	return s + "/" + c.lit
}

// compatRows extracts the rows of the column/field compatibility table.
func compatRows(p *Prog) []compRow {
	rel := "internal/postgres"
	pk := p.pkg(rel)
	ent := pk.Types.Scope().Lookup("compentry")
	if ent == nil {
		fail("anchor type internal/postgres.compentry not found")
	}
	var rows []compRow
	for _, f := range p.funcsIn(rel) {
		instrs(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			outer, ok := mu.Map.Type().Underlying().(*types.Map)
			if !ok {
				return
			}
			inner, ok := outer.Elem().Underlying().(*types.Map)
			if !ok || !types.Identical(inner.Elem(), ent.Type()) {
				return
			}
			if _, isStruct := outer.Key().Underlying().(*types.Struct); !isStruct {
				return // the inverse table, derived from this one
			}
			kf, ok := structFields(mu.Key)
			if !ok {
				fail("key of a compatibility table row at %s is not a literal", p.pos(mu.Pos()))
			}
			var oid int64
			var tm bool
			for n, v := range kf {
				if i, ok := constInt(v); ok {
					oid = i
				} else if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					tm = constant.BoolVal(c.Value)
				} else {
					fail("field %s of a compatibility key at %s is not constant", n, p.pos(mu.Pos()))
				}
			}
			mms := makeMaps(mu.Value, nil)
			if len(mms) == 0 {
				fail("value of a compatibility table row at %s cannot be resolved", p.pos(mu.Pos()))
			}
			for _, mm := range mms {
				for _, r := range *mm.Referrers() {
					iu, ok := r.(*ssa.MapUpdate)
					if !ok || iu.Map != mm {
						continue
					}
					lit, ok := constString(iu.Key)
					if !ok {
						fail("literal type of a compatibility row at %s is not constant", p.pos(iu.Pos()))
					}
					ef, ok := structFields(iu.Value)
					if !ok {
						fail("entry of a compatibility row at %s is not a literal", p.pos(iu.Pos()))
					}
					row := compRow{oid: oid, typmod1: tm, lit: lit, pos: p.pos(iu.Pos())}
					for n, v := range ef {
						s, ok := constString(v)
						if !ok {
							fail("converter name of a compatibility row at %s is not constant", p.pos(iu.Pos()))
						}
						switch n {
						case "valuer":
							row.valuer = s
						case "scanner":
							row.scanner = s
						default:
							fail("unknown compatibility entry field %s", n)
						}
					}
					rows = append(rows, row)
				}
			}
		})
	}
	sort.Slice(rows, func(i, j int) bool { return rows[i].key() < rows[j].key() })
	return rows
}

// litString renders a Go type the way the analysis names literals.
func litString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return normLit(s)
}

var rxWord = regexp.MustCompile(`\b(uint8|int32|any)\b`)

func normLit(s string) string {
	return rxWord.ReplaceAllStringFunc(s, func(w string) string {
		switch w {
		case "uint8":
			return "byte"
		case "int32":
			return "rune"
		}
		return "interface{}"
	})
}

func driverIface(p *Prog, pkg, name string) *types.Interface {
	pk := p.Pkgs[pkg]
	if pk == nil || pk.Types.Scope().Lookup(name) == nil {
		fail("%s.%s not loaded", pkg, name)
	}
	return pk.Types.Scope().Lookup(name).Type().Underlying().(*types.Interface)
}

// checkCtor verifies that name is an exported constructor of package pgsql with
// the given role that takes exactly the Go type lit.
func checkCtor(p *Prog, name, lit string, scanner bool) string {
	obj := p.pkg("pgsql").Types.Scope().Lookup(name)
	f, ok := obj.(*types.Func)
	if !ok {
		return "package pgsql has no function of that name"
	}
	sig := f.Type().(*types.Signature)
	if !f.Exported() || sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Variadic() {
		return "it is not an exported function with one parameter and one result"
	}
	iface, what := driverIface(p, "database/sql/driver", "Valuer"), "driver.Valuer"
	if scanner {
		iface, what = driverIface(p, "database/sql", "Scanner"), "sql.Scanner"
	}
	if !types.Implements(sig.Results().At(0).Type(), iface) {
		return "its result is not a " + what
	}
	if lit == "" {
		return ""
	}
	pt := sig.Params().At(0).Type()
	if i, ok := pt.Underlying().(*types.Interface); ok && i.Empty() {
		return ""
	}
	want := normLit(lit)
	if scanner {
		want = "*" + want
	}
	if got := litString(pt); got != want {
		return fmt.Sprintf("it takes %s, the generated code passes %s", got, want)
	}
	return ""
}

// nativeLits: Go types database/sql and lib/pq transfer without a converter.
func nativeOK(pgt, lit string) bool {
	switch lit {
	case "string", "[]byte":
		return true
	}
	num := map[string]bool{"int": true, "int8": true, "int16": true, "int32": true, "int64": true, "uint": true, "uint8": true, "uint16": true, "uint32": true, "uint64": true, "float32": true, "float64": true}
	switch pgt {
	case "int2", "int4", "int8", "numeric":
		return num[lit]
	case "float4", "float8":
		return lit == "float32" || lit == "float64"
	case "bool":
		return lit == "bool"
	case "bit":
		return lit == "uint" || lit == "uint8" || lit == "bool" // single digit text '0'/'1'
	case "date", "time", "timetz", "timestamp", "timestamptz":
		return lit == "time.Time"
	}
	return false
}

func init() {
	register("C01", "other",
		"The column/field compatibility table, the type-OID tables and every converter name that can reach generated code are extracted from SSA and checked against the exported constructors of package pgsql through go/types and against the PostgreSQL type catalogue. Complete over the finite tables; does not decide whether a converter converts values correctly.",
		func(p *Prog, r *Report) {
			rows := compatRows(p)
			r.Rule("row-types", "each converter named in a compatibility row is an exported pgsql constructor with the right role whose parameter is exactly the row's Go type (a pointer to it for scanners)")
			for _, row := range rows {
				for i, name := range []string{row.valuer, row.scanner} {
					if name == "" {
						continue
					}
					role := []string{"valuer", "scanner"}[i]
					if why := checkCtor(p, name, row.lit, i == 1); why != "" {
						r.Bad(row.key()+"|"+role, "compatibility row %s (%s): %s %q: %s", row.key(), row.pos, role, name, why)
					} else {
						r.Ok(row.key() + " " + role + " " + name)
					}
				}
			}
			r.Min(330)

			r.Rule("row-pgtype", "each converter named in a compatibility row is the one for the row's PostgreSQL type and for the right direction")
			for _, row := range rows {
				for i, name := range []string{row.valuer, row.scanner} {
					if name == "" {
						continue
					}
					role := []string{"valuer", "scanner"}[i]
					want := pgTypeAlias(pgTypeOf(row.oid))
					got, dir := ctorPGType(name), ""
					if m := rxCtor.FindStringSubmatch(name); m != nil {
						got, dir = ctorPGType(m[1]), m[2]
					}
					if got != want || dir != "" && (dir == "From") != (i == 0) {
						r.Bad(row.key()+"|"+role, "compatibility row %s (%s): %s %q converts %s, the column is %s", row.key(), row.pos, role, name, got, want)
					} else {
						r.Ok(row.key() + " " + name)
					}
				}
			}
			r.Min(330)

			r.Rule("row-native", "a compatibility row without a converter names a Go type that database/sql transfers natively for that PostgreSQL type")
			for _, row := range rows {
				t := pgTypeOf(row.oid)
				if row.valuer == "" {
					if nativeOK(t, row.lit) {
						r.Ok(row.key() + " valuer native")
					} else {
						r.Bad(row.key()+"|valuer", "compatibility row %s (%s) accepts %s for %s without a valuer, and the driver cannot encode it", row.key(), row.pos, row.lit, t)
					}
				}
				if row.scanner == "" {
					if nativeOK(t, row.lit) {
						r.Ok(row.key() + " scanner native")
					} else {
						r.Bad(row.key()+"|scanner", "compatibility row %s (%s) accepts %s for %s without a scanner, and database/sql cannot decode it", row.key(), row.pos, row.lit, t)
					}
				}
			}
			r.Min(250)

			r.Rule("row-text", "every supported PostgreSQL type can be read and written as text: it has a string and a []byte row, so that no column of a supported type is unreachable")
			bykey := map[string]map[string]bool{}
			for _, row := range rows {
				k := pgTypeOf(row.oid)
				if bykey[k] == nil {
					bykey[k] = map[string]bool{}
				}
				bykey[k][row.lit] = true
			}
			for t, m := range bykey {
				if m["string"] && m["[]byte"] {
					r.Ok(t)
				} else {
					r.Bad(t, "PostgreSQL type %s has no string or no []byte row", t)
				}
			}
			r.Min(80)

			r.Rule("ctor-wiring", "each exported constructor of package pgsql returns its own converter type holding exactly its argument; two constructors share a converter type only where the text formats are identical")
			shared := map[string][2]string{}
			for _, f := range p.funcsIn("pgsql") {
				if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || len(f.Params) != 1 {
					continue
				}
				res := f.Signature.Results()
				if res.Len() != 1 {
					continue
				}
				v := types.Implements(res.At(0).Type(), driverIface(p, "database/sql/driver", "Valuer"))
				s := types.Implements(res.At(0).Type(), driverIface(p, "database/sql", "Scanner"))
				if !v && !s {
					continue
				}
				name := f.Name()
				cs := concreteResults(f)
				if len(cs) == 0 {
					r.Bad(name+"|result", "constructor %s does not return a converter value", name)
					continue
				}
				bad := false
				for _, nt := range cs {
					tn := nt.Obj().Name()
					pgt := ctorPGType(name)
					if m := rxCtor.FindStringSubmatch(name); m != nil {
						pgt = ctorPGType(m[1])
					}
					pgt = sameText(pgt)
					if prev, ok := shared[tn]; ok && prev[0] != pgt {
						r.Bad(name+"|shared", "constructors %s and %s hand out the same converter %s although the text formats of %s and %s differ", prev[1], name, tn, prev[0], pgt)
						bad = true
					}
					shared[tn] = [2]string{pgt, name}
				}
				// the parameter must be what the converter holds
				held := false
				instrs(f, func(in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok && st.Val == f.Params[0] {
						if _, ok := st.Addr.(*ssa.FieldAddr); ok {
							held = true
						}
					}
					if c, ok := in.(*ssa.Convert); ok && c.X == f.Params[0] {
						held = true
					}
					if c, ok := in.(*ssa.ChangeType); ok && c.X == f.Params[0] {
						held = true
					}
				})
				if !held {
					r.Bad(name+"|arg", "constructor %s does not place its argument in the converter it returns", name)
					bad = true
				}
				if !bad {
					r.Ok(name)
				}
			}
			r.Min(330)

			r.Rule("emitted-names", "every converter name that can be stored in a Valuer or Scanner field of the type-check result is a constructor of package pgsql with that role")
			for _, f := range p.funcsIn("internal/postgres") {
				instrs(f, func(in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						return
					}
					fld := fieldOf(fa)
					if fld == nil || fld.Name() != "Valuer" && fld.Name() != "Scanner" {
						return
					}
					src := map[string]bool{}
					if !traceStrings(st.Val, src, map[ssa.Value]bool{}) {
						r.Bad(p.fname(f)+"|"+fld.Name(), "%s: the converter name stored in %s at %s has an origin the checker cannot resolve", p.fname(f), fld.Name(), p.pos(st.Pos()))
						return
					}
					for s := range src {
						if s == "" || s[0] == 0 {
							continue
						}
						if why := checkCtor(p, s, "", fld.Name() == "Scanner"); why != "" {
							r.Bad(p.fname(f)+"|"+fld.Name()+"|"+s, "%s: %s is set to %q: %s", p.fname(f), fld.Name(), s, why)
						} else {
							r.Ok(p.fname(f) + " " + fld.Name() + " = " + s)
						}
					}
					if src["\x00valuer"] && fld.Name() != "Valuer" || src["\x00scanner"] && fld.Name() != "Scanner" {
						r.Bad(p.fname(f)+"|role|"+fld.Name(), "%s: a %s is taken from the other column of the compatibility table", p.fname(f), fld.Name())
					}
				})
			}
			r.Min(5)

			// ---------------- oid tables
			consts := map[string]int64{}
			sc := p.pkg("internal/postgres/oid").Types.Scope()
			for _, n := range sc.Names() {
				if c, ok := sc.Lookup(n).(*types.Const); ok && litString(c.Type()) == "oid.OID" {
					v, _ := constant.Int64Val(c.Val())
					consts[n] = v
				}
			}
			r.Rule("oid-values", "each type-OID constant has the value PostgreSQL assigns to the type it names")
			for n, v := range consts {
				t := ctorPGType(n)
				e, ok := pgTypes[strings.TrimPrefix(t, "_")]
				want := e[0]
				if strings.HasPrefix(t, "_") {
					want = e[1]
				}
				if !ok || want != v {
					r.Bad(n, "OID constant %s is %d, PostgreSQL assigns %d to %s", n, v, want, t)
				} else {
					r.Ok(fmt.Sprintf("%s=%d", n, v))
				}
			}
			r.Min(90)

			r.Rule("oid-array", "the element-to-array and array-to-element tables hold exactly the pairs PostgreSQL defines, and are each other's inverse")
			fwd, rev := map[int64]int64{}, map[int64]int64{}
			read := func(name string) map[int64]int64 {
				m := map[int64]int64{}
				for _, mu := range globalMap(p, "internal/postgres/oid", name) {
					k, ok1 := constInt(mu.Key)
					v, ok2 := constInt(mu.Value)
					if !ok1 || !ok2 {
						fail("%s has a non-constant entry at %s", name, p.pos(mu.Pos()))
					}
					m[k] = v
				}
				return m
			}
			fwd, rev = read("TypeToArray"), read("ArrayToElem")
			for k, v := range fwd {
				e := pgTypes[pgTypeOf(k)]
				if e[1] != v || rev[v] != k {
					r.Bad("fwd|"+pgTypeOf(k), "TypeToArray[%s] = %s; PostgreSQL's array type is %d and ArrayToElem maps it back to %s", pgTypeOf(k), pgTypeOf(v), e[1], pgTypeOf(rev[v]))
				} else {
					r.Ok(pgTypeOf(k))
				}
			}
			for k, v := range rev {
				if fwd[v] != k {
					r.Bad("rev|"+pgTypeOf(k), "ArrayToElem[%s] = %s but TypeToArray[%s] = %s", pgTypeOf(k), pgTypeOf(v), pgTypeOf(v), pgTypeOf(fwd[v]))
				} else {
					r.Ok(pgTypeOf(k))
				}
			}
			for n, v := range consts {
				if t := pgTypeOf(v); strings.HasPrefix(t, "_") {
					if _, ok := rev[v]; !ok {
						r.Bad("missing|"+n, "array type %s has no element type in ArrayToElem", n)
					} else {
						r.Ok("known " + n)
					}
				}
			}
			r.Min(130)

			r.Rule("oid-zero", "each zero-value literal is a single SQL constant of its type: a quoted string without stray quotes, or a bare number or boolean for numeric and boolean types")
			for _, mu := range globalMap(p, "internal/postgres/oid", "TypeToZeroValue") {
				k, ok := constInt(mu.Key)
				lit, ok2 := constString(mu.Value)
				if !ok || !ok2 {
					fail("TypeToZeroValue has a non-constant entry at %s", p.pos(mu.Pos()))
				}
				t := pgTypeOf(k)
				if why := badZero(t, lit); why != "" {
					r.Bad(t, "zero value of %s is %s: %s", t, lit, why)
				} else {
					r.Ok(t + " " + lit)
				}
			}
			r.Min(88)
		})
}

// sameText canonicalises PostgreSQL types whose text formats coincide.
func sameText(t string) string {
	for _, p := range [][2]string{{"bpchar", "char"}, {"varchar", "text"}, {"macaddr8", "macaddr"}, {"jsonb", "json"}} {
		if strings.TrimPrefix(t, "_") == p[0] {
			return strings.TrimSuffix(t, p[0]) + p[1]
		}
	}
	return t
}

// zeroForm: what the zero literal of each family looks like in PostgreSQL.
var zeroForm = []struct {
	types string
	rx    *regexp.Regexp
	what  string
}{
	{"float4 float8 int2 int4 int8 numeric money", regexp.MustCompile(`^(0|'0')$`), "0"},
	{"bool", regexp.MustCompile(`^(false|'f'|'false')$`), "false"},
	{"bit", regexp.MustCompile(`^'0'$`), "'0'"},
	{"bpchar char text varchar tsquery tsvector varbit xml int2vector oidvector", regexp.MustCompile(`^''$`), "''"},
	{"bytea", regexp.MustCompile(`^'(\\x)?'$`), `'\x'`},
	{"box", regexp.MustCompile(`^'\(0,0\),\(0,0\)'$`), "'(0,0),(0,0)'"},
	{"lseg", regexp.MustCompile(`^'\[\(0,0\),\(0,0\)\]'$`), "'[(0,0),(0,0)]'"},
	{"path polygon", regexp.MustCompile(`^'\(\(0,0\)\)'$`), "'((0,0))'"},
	{"point", regexp.MustCompile(`^'\(0,0\)'$`), "'(0,0)'"},
	{"circle", regexp.MustCompile(`^'<\(0,0\),0>'$`), "'<(0,0),0>'"},
	{"cidr", regexp.MustCompile(`^'0\.0\.0\.0/0'$`), "'0.0.0.0/0'"},
	{"inet", regexp.MustCompile(`^'0\.0\.0\.0(/0)?'$`), "'0.0.0.0'"},
	{"date", regexp.MustCompile(`^'0001-01-01'$`), "'0001-01-01'"},
	{"timestamp timestamptz", regexp.MustCompile(`^'0001-01-01 00:00:00(\+00)?'$`), "'0001-01-01 00:00:00'"},
	{"time", regexp.MustCompile(`^'00:00:00'$`), "'00:00:00'"},
	{"timetz", regexp.MustCompile(`^'00:00:00\+00'$`), "'00:00:00+00'"},
	{"interval", regexp.MustCompile(`^'(00:00:00|0)'$`), "'00:00:00'"},
	{"daterange int4range int8range numrange tsrange tstzrange", regexp.MustCompile(`^'(\(,\)|empty)'$`), "'(,)'"},
	{"json jsonb", regexp.MustCompile(`^'null'$`), "'null'"},
	{"macaddr", regexp.MustCompile(`^'(00:){5}00'$`), "'00:00:00:00:00:00'"},
	{"macaddr8", regexp.MustCompile(`^'(00:){7}00'$`), "'00:00:00:00:00:00:00:00'"},
	{"uuid", regexp.MustCompile(`^'00000000-0000-0000-0000-000000000000'$`), "the nil uuid"},
}

func badZero(t, lit string) string {
	if strings.HasPrefix(t, "_") {
		if lit != "'{}'" {
			return "the zero value of an array type is '{}'"
		}
		return ""
	}
	for _, z := range zeroForm {
		for _, n := range strings.Fields(z.types) {
			if n == t {
				if !z.rx.MatchString(lit) {
					return "expected " + z.what
				}
				return ""
			}
		}
	}
	return "no zero value is defined for this type"
}

func fieldOf(fa *ssa.FieldAddr) *types.Var {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// traceStrings collects the string constants v can be, following phis, closure
// calls and reads of the compatibility table (recorded as "\0valuer"/"\0scanner").
func traceStrings(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if s, ok := constString(v); ok {
		out[s] = true
		return true
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !traceStrings(e, out, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return traceResult(c, v.Index, out, seen)
		}
	case *ssa.Call:
		return traceResult(v, 0, out, seen)
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			f := fieldOf(fa)
			pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := pt.(*types.Named); ok && n.Obj().Name() == "compentry" {
				out["\x00"+f.Name()] = true
				return true
			}
			if f != nil && (f.Name() == "Valuer" || f.Name() == "Scanner") {
				return true // copied from another, separately checked, field
			}
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
					if !traceStrings(s.Val, out, seen) {
						return false
					}
				}
			}
			return true
		}
	case *ssa.Field:
		if n, ok := v.X.Type().(*types.Named); ok && n.Obj().Name() == "compentry" {
			st := n.Underlying().(*types.Struct)
			out["\x00"+st.Field(v.Field).Name()] = true
			return true
		}
	case *ssa.Parameter:
		// every call site's argument
		fn := v.Parent()
		idx := -1
		for i, q := range fn.Params {
			if q == v {
				idx = i
			}
		}
		sites := callersOf(fn)
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if !traceStrings(s.Common().Args[idx], out, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func traceResult(c *ssa.Call, idx int, out map[string]bool, seen map[ssa.Value]bool) bool {
	f := calleeOf(&c.Call)
	if f == nil || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !traceStrings(r.Results[idx], out, seen) {
				return false
			}
		}
	}
	return true
}
