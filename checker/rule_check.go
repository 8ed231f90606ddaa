package main

// The rules in this file decide the properties of the type checker, which compares
// the structs that the analysis has found with the database: see rule_spec.go.

// what is not looked into when the functions that use it are compared
var specLeaves = []string{"loadRelation", "typeCompatibility", "isLength1Type", "matchNumbers", "typeOfLiteral"}

func init() {
	const explain = "Each function of the type checker that decides this is evaluated symbolically, next to the function of checker/spec/postgres.txt that says what it has to do; whether they fail, and what they return and record, must be equivalent for all inputs. "
	both := func(more ...string) []string { return append(more, specLeaves...) }
	directives := []specCase{
		{fn: "typeCheckQueryForceDirective", spec: "vsForce", eff: []string{"c.force"}},
		{fn: "typeCheckQueryDefaultDirective", spec: "vsDefault"},
		{fn: "typeCheckQueryOrderByDirective", spec: "vsOrderBy"},
		{fn: "typeCheckQueryReturnDirective", spec: "vsReturn", keep: both("typeCheckFieldRead", "findQueryColumnField")},
		{fn: "findQueryColumnField", spec: "vsColumnField"},
		{fn: "typeCheckQueryOnConflictStruct", spec: "vsOnConflict", keep: both(), eff: []string{"c.res.Conflict"}},
		{fn: "typeCheckFilterTextSearchDirective", spec: "vsTextSearch"},
	}
	checks := []string{"typeCheckQueryJoinStruct", "typeCheckQueryForceDirective", "typeCheckQueryDefaultDirective",
		"typeCheckQueryOrderByDirective", "typeCheckQueryReturnDirective", "typeCheckQueryResultField", "typeCheckQueryRelField",
		"typeCheckQueryQualifier", "typeCheckQueryWhereStruct", "typeCheckQueryOnConflictStruct",
		"typeCheckFilterRelField", "typeCheckFilterTextSearchDirective"}
	j, f, rf := checks[0], checks[1], checks[6]
	var ord [][2]string
	for _, x := range []string{checks[1], checks[3], checks[4], checks[8]} {
		ord = append(ord, [2]string{j, x})
	}
	for _, x := range []string{checks[4], checks[5], checks[6]} {
		ord = append(ord, [2]string{f, x})
	}
	ord = append(ord, [2]string{rf, checks[7]}, [2]string{rf, checks[9]})
	all := []specCase{
		{fn: "typeCheckQueryStruct", spec: "vsOptional", keep: checks, eff: []string{"c.optional"}, ord: ord},
		{fn: "typeCheckFilterStruct", spec: "vsFilterStruct", keep: checks},
		{fn: "Check", spec: "vsCheckQuery", keep: []string{"loadTargetRelation", "typeCheckQueryStruct", "typeCheckFilterStruct"},
			dyn: map[string]string{"1": "internal/analysis.QueryStruct"}, ord: [][2]string{{"loadTargetRelation", "typeCheckQueryStruct"}}},
		{fn: "Check", spec: "vsCheckFilter", keep: []string{"loadTargetRelation", "typeCheckQueryStruct", "typeCheckFilterStruct"},
			dyn: map[string]string{"1": "internal/analysis.FilterStruct"}, ord: [][2]string{{"loadTargetRelation", "typeCheckFilterStruct"}}},
		{fn: "loadTargetRelation", spec: "vsLoadTarget", keep: both(), eff: []string{"c.rel", "c.rid", "c.relMap"}},
		{fn: "loadJoinRelation", spec: "vsLoadJoin", keep: both(), eff: []string{"c.relMap"}},
	}
	qual := []specCase{
		{fn: "typeCheckQueryQualifier", spec: "vsQualifier"},
		{fn: "typeCheckQueryRelField", spec: "vsRel", keep: both("typeCheckFieldRead", "typeCheckFieldWrite"), eff: []string{"c.res.PKeys"}},
	}
	fields := []specCase{
		{fn: "typeCheckQueryRelField", spec: "vsRel", keep: both("typeCheckFieldRead", "typeCheckFieldWrite"), eff: []string{"c.res.Writes"}},
		{fn: "typeCheckQueryResultField", spec: "vsResult", keep: both("typeCheckFieldRead")},
		{fn: "typeCheckFilterRelField", spec: "vsFilterRel", keep: both("typeCheckFieldFilter")},
		{fn: "typeCheckFieldRead", spec: "vsFieldRead", keep: both(), eff: []string{"c.res.Reads"}},
		{fn: "typeCheckFieldWrite", spec: "vsFieldWrite", keep: both()},
		{fn: "typeCheckFieldFilter", spec: "vsFieldFilter", keep: both(), eff: []string{"c.res.Filters"}},
		{fn: "typeCompatibility", spec: "vsCompatibility", keep: []string{"GenericLiteral"}},
		{fn: "isLength1Type", spec: "vsLength1"},
	}
	condLeaves := both("typeCheckFieldConditional", "typeCheckColumnConditional", "typeCheckComparison", "loadJoinRelation")
	whereLeaves := append([]string{"typeCheckWhereBetweenStruct", "typeCheckWhereItem"}, condLeaves...)
	item := func(t, spec string) specCase {
		return specCase{fn: "typeCheckWhereItem", spec: spec, keep: whereLeaves, dyn: map[string]string{"1": "internal/analysis." + t}}
	}
	conds := []specCase{
		{fn: "typeCheckQueryJoinStruct", spec: "vsJoin", keep: condLeaves, eff: []string{"c.res.Joins"}},
		{fn: "typeCheckQueryWhereStruct", spec: "vsWhere", keep: append([]string{"typeCheckWhereItem"}, condLeaves...), eff: []string{"c.res.Where"}},
		item("WhereBoolTag", "vsWhereBool"),
		item("WhereStruct", "vsWhereStruct"),
		item("WhereColumnDirective", "vsWhereColumn"),
		item("WhereStructField", "vsWhereField"),
		item("WhereBetweenStruct", "vsWhereBetween"),
		{fn: "typeCheckWhereBetweenStruct", spec: "vsBetween", keep: condLeaves},
		{fn: "typeCheckColumnConditional", spec: "vsColumnConditional", keep: both("typeCheckComparison"), eff: []string{"p1.LHSColumn", "p1.RHSColumn", "p1.RHSType"}},
		{fn: "typeCheckFieldConditional", spec: "vsFieldConditional", keep: both("typeCheckFieldConditionalWithFunc", "condValuer"), eff: []string{"p1.Valuer"}},
		{fn: "typeCheckFieldConditionalWithFunc", spec: "vsFieldConditionalFunc", keep: both("typeCheckComparison", "checkTypeCoercion", "condValuer"), eff: []string{"p1.Valuer"}},
		{fn: "condValuer", spec: "vsCondValuer", keep: both()},
		{fn: "typeCheckComparison", spec: "vsComparison"},
		{fn: "checkTypeCoercion", spec: "vsCoercion"},
	}
	reg := func(id, explain string, rules map[string][]specCase) {
		register(id, "static", explain, func(p *Prog, rep *Report) {
			env := loadSpec(p, "internal/postgres", "postgres.txt")
			for _, rule := range sortedCaseKeys(rules) {
				rep.Rule(rule, "the function decides and records what the specification does, for all inputs")
				for _, c := range rules[rule] {
					compareSpec(rep, env, c)
				}
			}
		})
	}
	reg("P01", explain+"Checks of the directives, their order, and the loading of relations.", map[string][]specCase{"directive": directives, "dispatch": all})
	reg("P02", explain+"The check for a qualifier, and the collection of the key fields.", map[string][]specCase{"qualifier": qual})
	reg("P03", explain+"The checks of fields that are read, written and filtered by, and the lookup of conversions.", map[string][]specCase{"field": fields})
	reg("P04", explain+"The checks of joins and where structs, and of the comparison of operands.", map[string][]specCase{"condition": conds})
}

func sortedCaseKeys(m map[string][]specCase) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}
