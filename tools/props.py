PG = "pgsql/"
prop("C01", "Column/field conversions are sound for every supported type pair",
 "For every PostgreSQL column type and Go field type the tool accepts as compatible, the conversion it puts into the generated code exists, is a writer where the value is written and a reader where it is read, takes exactly that Go type, and converts to or from that PostgreSQL type (or one with the same text format). A type pair that is accepted without a conversion is one the database driver can transfer natively in both directions. The literal used in place of a missing value is valid text of the column's type.",
 ["inputs", "programs"], "all accepted (column type, field type) pairs, about 570, and all the converters",
 "Tests exercise each converter with hand-picked values, and the table with a few dozen of its rows; a row that names the wrong converter or the wrong direction is only seen when a user has that combination.",
 ["internal/postgres/compatibility.go", "internal/generator/generator.go", "pgsql/convert_util.go"],
 [("column/field compatibility table", "internal/postgres"), ("exported converter constructors", "pgsql")],
 "table extraction from SSA and cross-check against resolved constructors, catalogue OIDs and zero literals",
 "Sound for the table as built in the source: every row is enumerated and resolved to a declared constructor. The PostgreSQL side of a constructor is read from its exported name; the driver's native conversions and the PostgreSQL type catalogue are frozen tables in the checker.")

prop("C02", "SQL NULL is nil and nil is SQL NULL, and neither is an empty value",
 "Scanning SQL NULL into a destination that has a nil value (a slice, map or interface) succeeds and stores nil, whatever the destination held before. A writer given nil produces SQL NULL, and given an empty, non-nil slice or map produces a literal and not NULL. A nil network or hardware address produces NULL, also as an element of an array.",
 ["inputs"], "all converters, both directions, any previous content of the destination",
 "The round-trip tests use fresh destinations and never deliver NULL to most readers; a reader that leaves stale data behind on NULL passes them.",
 ["pgsql/convert_util.go", "pgsql/textarr.go", "pgsql/inetarr.go"],
 [("nil source branch of the readers", "pgsql, methods Scan"), ("nil test of the writers", "pgsql, methods Value")],
 "sparse conditional constant propagation over SSA specialised to nil/empty inputs, with destination typestate",
 "Each reader and writer is abstractly executed with the source fixed to NULL (nil) or the value fixed to nil / empty; every feasible return must leave the required state. Loops and unknown calls are over-approximated.")

prop("C03", "A reader stores the whole value or reports an error",
 "When a reader of the conversion package reports success it has stored a value in its destination, and when it reports an error it has left the destination as it was. A source of a kind it does not support is an error, never a silent success, and text that is not an address is never stored as a nil address. Readers of network addresses with host part keep the host part.",
 ["inputs", "fault_sequences"], "all readers, every kind of driver value, every return path",
 "Tests feed each reader the text PostgreSQL produced for a valid value; the error returns and the other driver representations (text as string, time, unsupported kinds) are not reached.",
 ["pgsql/convert_util.go", "pgsql/inet.go", "pgsql/bytea.go"],
 [("readers", "pgsql, methods Scan")],
 "path-sensitive typestate of the destination over SSA, specialised per dynamic source type",
 "Every reader x source class x return is judged. Does not decide that the value stored is the right one.")

prop("C04", "Conversions never silently change a number",
 "No conversion between a Go number and a PostgreSQL value wraps around, truncates or rounds the number without an error: a number read from the database that does not fit the destination is reported, amounts of money keep every cent, and floating-point numbers are written with enough digits to read back the same number. The only exception is a floating-point Go value used with an integer PostgreSQL type.",
 ["inputs"], "all numeric converters, all values",
 "Tests use small values well inside every range.",
 ["pgsql/int2arr.go", "pgsql/numericarr.go", "pgsql/money.go", "pgsql/numrange.go"],
 [("bit sizes passed to strconv", "pgsql"), ("numeric conversions", "pgsql")],
 "value-range dataflow over SSA (width, sign, integer/float; refined by strconv bit sizes and branch conditions)",
 "Every numeric conversion expression, strconv parse and strconv format in the package is judged. Arithmetic other than conversions is not modelled.")

prop("C05", "Readers never keep a reference to the driver's buffer",
 "No reader stores, in its destination, bytes that share memory with the byte slice handed to it by the driver; the driver may overwrite that memory after the call returns. This holds for elements of arrays and values nested in maps as well.",
 ["inputs", "histories"], "all readers and all their helpers",
 "Aliasing only shows when the driver reuses its buffer for a later row, while the tests read one row at a time and compare at once.",
 ["pgsql/any.go", "pgsql/convert_util.go", "pgsql/bytea.go"],
 [("copies made before storing", "pgsql, methods Scan")],
 "interprocedural may-alias (escape) dataflow from the source argument to the destination",
 "Over-approximates aliasing inside the repository; standard-library functions are assumed not to retain their argument except in package bytes.")

prop("C06", "Times keep microseconds, zone offset and wall clock",
 "Writing a time to, or reading it from, a date, time, timetz, timestamp or timestamptz column (or array or range of them) preserves every component that type can hold: the date, the clock down to microseconds, and for the types with time zone the whole offset including its minutes. Readers of types with time zone accept an offset printed as hours or as hours and minutes, and values of types without time zone are read as UTC independently of the machine's local zone.",
 ["inputs", "configurations"], "all date/time converters, all times and zones",
 "Tests use whole milliseconds and whole-hour zones.",
 ["pgsql/convert_util.go", "pgsql/timestamptzarr.go", "pgsql/timetz.go"],
 [("layouts", "pgsql/convert_util.go")],
 "constant propagation of layouts over each converter's call graph, checked against the type's components",
 "Every Format/Parse call reachable from a converter is judged, with its layout resolved to constants. Infinity, BC dates and years beyond 9999 are not modelled.")

prop("C07", "Caller text cannot alter the structure of array and hstore literals",
 "Text supplied by the caller as an element of a PostgreSQL array, or as a key or value of an hstore, enters the literal only inside quotes and with every quote and backslash in it escaped (doubly, where the literal is nested). No element text can end its own quoting, add elements, or turn into NULL.",
 ["inputs"], "all writers of array and hstore literals, any text",
 "Tests try a few special characters in a few of the writers.",
 ["pgsql/convert_util.go", "pgsql/textarr.go", "pgsql/hstorearr.go", "pgsql/chararr.go"],
 [("quoting helpers", "pgsql/convert_util.go")],
 "interprocedural taint analysis with path-sensitive escape checking over SSA",
 "All writers with textual elements are followed to every place their text enters the output buffer. Does not decide whether the server accepts the element as a value of its type.")

FI = ["filter/filter.go", "filter/convenience.go"]
FM = [("predicate nodes and the filter constructor", "filter/filter.go"), ("list predicates", "filter/convenience.go")]
prop("F01", "Every filter placeholder has its own argument at the matching position",
 "The SQL text a filter renders, started at any position, contains exactly one placeholder per argument it returns; the first placeholder is the one after the given position, and the nth placeholder stands for the nth argument. Rendering each kind of predicate advances the position by exactly the number of placeholders it wrote.",
 ["inputs", "histories"], "all predicates, any number of list values, any starting position",
 "Tests render a few filters with few values; a predicate that shares, skips or swaps a placeholder only shows when it is combined with others.",
 FI + ["gosql.go"], FM + [("placeholder table", "gosql.go")],
 "typestate (lockstep counting) over SSA of the rendering methods, plus an index analysis of the placeholder table",
 "Each rendering method is followed along every path and through its loops. The caller's own use of the first positions is decided under the generator's properties.")

prop("F02", "Caller values reach a filter's SQL only as bound arguments",
 "No text that a caller supplies as a value, search text or filter/sort string becomes part of the SQL text a filter renders; such text only ever becomes a bound argument. Only column names (which the caller vouches for or which come from the column map), operators and numbers are written into the SQL.",
 ["inputs"], "all filter methods, any text",
 "An injected value only shows with hostile text; tests use plain words.",
 FI, FM,
 "interprocedural field-based taint analysis from caller values to every write of SQL text",
 "Whole package. Column arguments and operators of the direct methods are trusted by contract (documented as already vetted).")

prop("F03", "Filter conditions are always grammatically complete",
 "Whatever sequence of operations builds a filter, its condition never has two operands without an operator between them, an operator without operands on both sides, an empty group or an unmatched parenthesis that the input itself did not leave open. Nothing is rendered for an empty condition.",
 ["inputs", "histories"], "all sequences of filter operations, nested groups, all filter strings",
 "The broken conditions need particular sequences: a group whose content is ignored, an operator before an unknown key, an operator at the end.",
 FI, FM,
 "path-sensitive typestate analysis of the predicate list (grammar of viable prefixes)",
 "The state of the list is abstracted to what its last node allows. Nesting callbacks are assumed to leave the list in any state the public methods can. Balance for unbalanced filter strings is the tokenizer's business.")

prop("F04", "Each filter operation means what it says",
 "A comparison with nil, true or false becomes the matching IS [NOT] NULL / TRUE / FALSE test for = and <> and stays a comparison with any other operator; list conditions become list predicates on the given column; AND joins with AND and OR with OR. Every operator of the filter language is translated to the SQL operator of the same meaning, the converted value is used when a column has a converter, and sort directions and null placement follow their flags.",
 ["inputs"], "all operators, tokens and flags, all types of value",
 "Tests check a few of the combinations.",
 FI, FM,
 "conditional constant propagation specialised to each operation/operator/flag, compared with a meaning table",
 "Exhaustive over the finite operation, operator, token and flag domains. That PostgreSQL gives the operators their meaning is taken for granted.")

prop("F05", "Filter strings only reach mapped columns, and every mistake is reported",
 "A key in a filter or sort string selects a column only through the column map. An unknown key adds nothing, and makes the call return an error in strict mode; every parse or conversion error is returned; the caller's column map is never modified.",
 ["inputs", "configurations"], "all filter and sort strings, strict and lenient mode",
 "Tests try one unknown key in the first position.",
 ["filter/filter.go"], FM[:1],
 "path-sensitive typestate of the key lookup, provenance of column arguments, error-flow analysis",
 "Every path from a key lookup. Says nothing about the third-party tokenizer.")

prop("F06", "Rendering a filter is pure, ordered and independent of how often it is done",
 "Rendering a filter, or the count variant of it, changes nothing in it, so that the same filter can be rendered repeatedly, for different starting positions, with the same result. The clauses appear once each in the order SQL requires, the limit and offset are the numbers that were set, and the count variant has the same condition but no order, limit or offset.",
 ["histories", "inputs"], "all filters, any number of renderings",
 "Tests render each filter once.",
 ["filter/filter.go"], [("rendering", "filter/filter.go")],
 "effect analysis (no reachable write to shared state), typestate of the clause order, provenance of the clause arguments",
 "Effects are tracked through helpers and node implementations in the package.")

CMD = ["cmd/gosql/main.go", "internal/command/command.go", "internal/config/config.go"]
prop("T01", "Every failure while the tool runs is reported and fails the run",
 "When any step of a run of the generator tool fails (reading configuration, searching and analysing input, talking to the database, checking, generating or writing code), the tool reports the failure and exits with a non-zero status. No failure is dropped, overwritten by a later success, or turned into a partial result that looks complete.",
 ["fault sequences", "inputs"], "every call that can fail, on every path of every function the tool can reach",
 "Tests provoke a few of the failures; a lost error needs a particular step to fail.",
 CMD + ["internal/analysis/analysis.go", "internal/search/search.go", "internal/postgres/postgres.go", "internal/generator/generator.go"],
 [("run and exit status", "cmd/gosql/main.go"), ("error results of the analysis", "internal/analysis/analysis.go"), ("error results of the type check", "internal/postgres/postgres.go")],
 "path-sensitive error-flow analysis over SSA of every function reachable from the tool's entry point",
 "Failures are error values and the numeric error codes of the type checker. Panics and failures the standard library hides are not modelled. Calls whose failure cannot matter (closing a read-only file, clean-up on a failure path) are exempt by rule.")

prop("T02", "Output is written all or nothing, and only formatted code is written",
 "A failure while analysing, checking, generating or formatting leaves every file as it was, for all input files of the run. An output file is replaced as a whole or not at all, only code that passed the formatter is written, and an input file is never overwritten.",
 ["crash points", "fault sequences", "inputs"], "every failing step and every interruption of a run, any number of input files",
 "Tests run the tool on input that succeeds.",
 CMD, [("running the steps and writing the output", "internal/command/command.go")],
 "effect and dominance analysis of file-system writes over the whole-program call graph",
 "Writes are found from the file-system functions of the standard library. Several output files of one run are not replaced together.")

prop("T03", "The same input and database produce the same output and the same errors",
 "Generated code, and the choice made whenever the database offers several candidates, depend only on the configuration, the source and the contents of the database. They never depend on map iteration order, on the order in which rows happen to arrive, on time, on scheduling or on random values.",
 ["schedules", "configurations", "inputs"], "every iteration, query and source of variation the tool can reach",
 "A test run sees one of the orders; the others appear with low probability or on another server.",
 ["internal/postgres/postgres.go", "internal/analysis/analysis.go", "internal/generator/generator.go", "internal/search/search.go", "internal/command/command.go"],
 [("catalogue loading and candidate choice", "internal/postgres/postgres.go"), ("code generation", "internal/generator/generator.go")],
 "order-dependence analysis of map iterations, effect analysis of nondeterministic sources, and SQL ordering checks",
 "Each map iteration reachable from the tool must have an order-independent effect or sort before use. Different PostgreSQL versions may still differ.")

prop("T04", "Options follow flag over file over default, and every option takes effect",
 "The value of each option is the one given on the command line, else the one in the configuration file, else the documented default, and a later value replaces an earlier one entirely. Every documented option affects the run, and invalid values are reported before anything is done.",
 ["configurations"], "all options, in flags, file and default, in any combination",
 "Tests set a few options in one way each.",
 CMD + ["internal/config/types.go", "internal/command/usage.go"], [("configuration", "internal/config/config.go"), ("usage text", "internal/command/usage.go")],
 "provenance and dominance analysis of each option's field from flag, file and default to its use",
 "Every field of the configuration. Documentation is compared by the options and defaults named in the usage text.")

prop("T05", "Database results are read completely and shared state stays consistent",
 "Each query result is read until its end, checked for an error that ended it early, and closed, before what was read is used. Information shared between checks that run at the same time is only touched under its lock, is published only when it is complete, and is stored under a key that distinguishes everything it depends on.",
 ["schedules", "fault sequences"], "all queries, all concurrent checks, any connection failure",
 "Needs a connection that fails mid-result, or a particular interleaving.",
 ["internal/postgres/postgres.go", "internal/analysis/analysis.go", "internal/search/search.go"],
 [("catalogue and relation caches", "internal/postgres/postgres.go"), ("type cache", "internal/analysis/analysis.go")],
 "typestate analysis of result sets and locks, publication and cache-key dependency analysis over SSA",
 "Caches are package-level maps and maps guarded by a lock. Key completeness considers parameters that influence the stored value.")

GEN = ["internal/generator/generator.go"]
GENT = "abstract interpretation of the code generator over guarded sequences"

prop("G01", "Arguments of a query are its parameters' values, in order",
 "For every query the tool generates, the argument passed to the database for each numbered parameter is the value of the field that this parameter stands for in the SQL text. There are as many arguments as parameters, also with nested conditions, filters, IN lists, LIMIT and OFFSET fields and queries over slices of rows.",
 ["inputs", "programs"], "all query structs the tool accepts, any number of columns, conditions, nested conditions and rows",
 "The golden-file tests cover some ninety query structs; the numbering goes wrong only for particular combinations of clauses, defaults and nesting.",
 GEN, [("handing out of parameter numbers", "internal/generator/generator.go, makeParamSpec"), ("arguments of the query", "internal/generator/generator.go, buildQueryInput, makeInputArgsList"), ("query text of slices and IN lists", "internal/generator/generator.go, buildQueryStringFor*")],
 GENT,
 "Decides the order and the number of arguments for every accepted query description of 46 kinds. The conditions inside nested groups are covered by induction over the recursive call. The syntax tree printer of the ast dependency is trusted, and context arguments are left out.")

prop("G02", "Generated queries do what their description asks",
 "Every generated query consists of the clauses that its description asks for, in the order SQL requires: the relation, the columns that are written with the value of their own field, DEFAULT or the NULL treatment the field asks for, the joins, ORDER BY, LIMIT and OFFSET, ON CONFLICT and RETURNING. The columns that are read are those of the fields that receive them, in the order in which they are received. A value that a field can hold and its column can store is not rejected because of how the query is written.",
 ["programs", "inputs"], "all query structs the tool accepts, any number of columns, joins, order items and rows",
 "The golden-file tests cover some ninety combinations of clauses; a clause that is lost, repeated or out of order only for one combination (a filter with RETURNING, a slice with ON CONFLICT) is seen by no test.",
 GEN, [("statements", "internal/generator/generator.go, buildSQL*"), ("columns and values", "internal/generator/generator.go, buildQueryInput*, buildQueryOutputSourceColumns"), ("query text of slices", "internal/generator/generator.go, buildQueryStringForSliceInsertOrUpdate")],
 GENT + ", comparing the guarded text of the statement with the text its description calls for",
 "Decides the text of the statements for 46 kinds of queries with all other parts of the description left open. The printer of the ast dependency is evaluated as it is; whether PostgreSQL accepts the column types is the type checker's concern. Known findings: five NULLIF forms that make PostgreSQL take the parameter for an integer.")

prop("G03", "Conditions in a query mean what their tags say",
 "In the WHERE, JOIN and ON clauses of a generated query every condition compares the named column with its value, column or literal using the predicate, quantifier and function its tag asks for, including the negated, symmetric and distinct forms. Conditions are joined with the AND or OR their tags give, in the order of the fields, and nested groups of conditions are parenthesised, to any depth.",
 ["programs", "inputs"], "all predicates, quantifiers, functions and value kinds, any number and nesting of conditions",
 "The golden-file tests use a handful of the combinations of predicate, quantifier, function and nesting.",
 GEN + ["internal/analysis/analysis.go", "internal/postgres/postgres.go"],
 [("conditions of the query text", "internal/generator/generator.go"), ("words of the tags", "internal/analysis/analysis.go"), ("operators", "internal/postgres/postgres.go")],
 GENT + ", rendering every alternative of the condition trees; comparison of the word tables",
 "Decides the text of the conditions for 32 query kinds. Nested groups are unrolled once and hold for any depth by the recursive call. Whether PostgreSQL accepts the operator for the types is the type checker's concern.")

prop("G04", "Generated queries convert every argument with the type's own converter",
 "Every field that a generated method passes to its query, as a column to write, a primary key, a condition or a bound of a range, goes through the value converter that was chosen for its Go type and its column's type, and is passed unchanged exactly if none was chosen. The elements of a slice that a condition compares one by one are converted each, like a single value.",
 ["programs", "inputs"], "56 kinds of queries, any columns, nesting of fields and conditions",
 "The golden-file tests have converters in a few write-only statements; primary keys, nested conditions, ranges and lists with converters are hardly sampled.",
 GEN,
 [("arguments of a query", "internal/generator/generator.go")],
 GENT + ", following every access path of an argument to the call that wraps it",
 "Decides which converter wraps an argument, not that the converter chosen by the type checker is right (C01 to C07 decide what the converters do). Two defects were found and repaired.")

prop("G05", "Generated files import exactly the packages they name, each once",
 "Every package that the code of a generated file names is imported by the file, under the name that the code uses, whatever the packages of the user's types are called and even if several have the same name. Every package that is imported is named somewhere, so that the file compiles, no package is imported twice, and no two imports have one name.",
 ["programs", "inputs"], "56 kinds of queries and filters, any types, converters, options and packages",
 "The golden-file tests name few packages, hardly ever two of one name, and compare text without compiling it.",
 GEN,
 [("imports of a file", "internal/generator/generator.go")],
 GENT + ", proving that every import event is implied by and implies a use; typestate of the name of a new import over SSA",
 "Names of packages that collide with local variables or package-level declarations are not decided.")

prop("G06", "Generated methods run the query and put all of its results in place",
 "A generated method declares the connection, context and result its struct asks for, gives the limit and offset their defaults, adds the text of its filter to the query and runs it exactly once through the call that fits its output. Every error of the query, of scanning, of iterating and of the user's iterator is returned (through the error handler if there is one), and the rows are closed. Every column is read into its own field, nested pointers are allocated before they are read into, and each row reaches its slice element, iterator or result, after its AfterScan method was called.",
 ["programs", "inputs"], "56 kinds of queries, any columns, nesting of fields, outputs, handlers and options",
 "The golden-file tests use a small part of the combinations of output, error handler, context, pointers and iterators, and compare the generated text only.",
 GEN,
 [("generated method", "internal/generator/generator.go")],
 GENT + ", comparing every alternative of the text of the generated method with the statements it has to have",
 "Decides the text of the generated method except the query itself, its arguments and lists (G01, G02, G03). Assumes what the analysis ensures: at most one of result, return and rows affected, and no array outputs. Whether the text compiles for every user type is not decided.")

prop("G07", "Code generated for filters maps keys to columns and fields to methods",
 "The column map of a filter has one entry for every key, naming the column of the key's field the way the configuration quotes identifiers, with the value converter and nullability of that field. Every field gets one method that adds a condition on its own column with the given operator and value, declared with the type of the field, unless the name belongs to a method the filter already has. The initializer passes the map and the text search column, and the two nesting methods combine their conditions with the operator they are named after.",
 ["programs", "inputs"], "both versions of filters, any number, nesting and types of fields",
 "The golden-file tests have a few filter structs; converters, equal keys, reserved names and composite types of values are hardly sampled.",
 GEN,
 [("code for filters", "internal/generator/generator.go")],
 GENT + ", comparing every alternative of the text with the code the filter has to have; typestate of the set of keys",
 "Decides the text of the generated file after its imports. Methods of two fields whose joined names are equal do not compile and are not reported.")

CHK="static analysis: the function and a specification written in Go are evaluated symbolically over the type-checked program; equivalence of the results is decided propositionally"
PT="internal/postgres/postgres.go"

prop("P01", "Directives are checked against the target and joined relations",
 "Before any code is generated, every column named by a force, default, order-by, return, text-search or on-conflict directive is looked up in the relation its qualifier names, and the run fails if the column is missing, if a column told to use its default has none, or if no unique index or unique constraint of the target matches a conflict target. A conflict target carries the expression and predicate of the first matching unique index, or the name of the constraint, and an update on conflict names exactly the requested columns. Every check applies to every query and runs after the checks whose results it uses.",
 ["inputs", "programs"], "all queries and filters, all catalogues: any number of relations, columns, indexes and items",
 "The tests check a few dozen structs against one schema; the order of the checks, several indexes over the same columns, later items of a list and combinations of directives are hardly sampled.",
 [PT],
 [("checks of the directives", PT), ("order of the checks", PT)],
 CHK,
 "Lists are generic: what holds for a generic element holds for all. The comparison of the columns of an index with a list of numbers, and the query that loads a relation, are taken as they are.")

prop("P02", "No update or delete without a qualifier is accepted",
 "A delete without a where struct, a filter or an explicit request for all rows is rejected. An update without any of these is accepted only if its record has a field for every column of the target's primary key and there is at least one such column; these fields are the ones that select the row. Every other query is accepted by this check.",
 ["inputs", "programs"], "all kinds of queries, all relations and primary keys, all records",
 "No test has a delete or update without a qualifier, or a record that has only some of the columns of a key.",
 [PT, "internal/analysis/types.go"],
 [("check of the qualifier", PT), ("collection of the key fields", PT)],
 CHK,
 "Decides which queries pass the check; that the statement has the conditions is G03.")

prop("P03", "Fields are paired with columns they can hold, and only those that may be used",
 "Every field that is read, written or filtered by is paired with the column of the target relation its tag names; a missing column is an error unless the field is optional for that query, and a field whose type cannot hold or supply values of the column is an error. The chosen conversion depends only on the column's type and the field's type: own methods of the field's type come first, JSON and XML columns use those encodings unless the field has the raw form, and everything else follows the compatibility table, where enumerations and types like strings count as text. A field takes part in reading, inserting, updating and filtering exactly when its options, and the force directive, say so.",
 ["inputs", "programs"], "all combinations of column type, field type, field options and directives",
 "Tests cover a few dozen pairs of types; the interplay of options, force and default directives and of the fallbacks of the table is sampled in a few places.",
 [PT, "internal/postgres/compatibility.go"],
 [("checks of fields", PT), ("lookup in the compatibility table", PT)],
 CHK,
 "The rows of the table are C01. The predicates on Go types (is it a scanner, can it be JSON) are taken as they are.")

prop("P04", "Conditions are accepted only if the database can compare their operands",
 "A condition of a where struct or a join is accepted only if its columns exist and its operands are comparable: by an operator of the catalogue for their types, with an implicit cast of one of them, or as an untyped literal compared with text; operands of array predicates and quantifiers are arrays and are compared by their elements. Tests for truth need a boolean column, tests for null a column that can be null, unless the column belongs to a joined relation of a where struct. The checked condition keeps the column, predicate, quantifier, function, literal and conversion that the struct asks for, in the order and nesting of the struct.",
 ["inputs", "programs"], "all conditions, any nesting, all catalogues of types, operators, casts and procedures",
 "Tests have a few conditions per predicate over built-in types; casts in one direction only, overloaded functions, quantifiers with casts and nested structs are hardly sampled.",
 [PT, "internal/postgres/enums.go"],
 [("checks of conditions", PT), ("comparison of types", PT)],
 CHK,
 "The type of a literal is what the server says. For a failing condition the check decides that it fails, not the wording of the report.")

AN="internal/analysis/analysis.go"
prop("A01", "Directives and special fields are recorded only where they are allowed",
 "A directive or special field of a query or filter struct (all, default, force, optional, return, limit, offset, order by, override, text search, context, error handler, filter, result, rows affected, on conflict and its target and action, join, and the relation itself) is accepted exactly for the kinds of query, the types of fields and the combinations with other fields that its documentation allows, and is an error everywhere else. Once accepted it is recorded as written: the columns, directions, numbers and names of its tag in their order, with the flags it stands for, and nothing else of the query changes.",
 ["inputs", "programs"], "all query and filter structs, all tags, all orders of fields",
 "Tests have one struct per accepted directive and one per kind of error; combinations of directives with the other kinds of query, and with what is already recorded, are hardly sampled.",
 [AN], [("directives and special fields", AN)],
 CHK,
 "The tag parser, and the functions that read identifiers, are taken as they are (see A02). That something fails is decided, not the wording. A directive that is given twice is not an error in the code, and not by this property.")

prop("A02", "Names of columns and relations are read from tags as they are written",
 "An identifier of a tag is taken apart into qualifier, name and alias at the documented separators, columns only by the documented syntax and only with a qualifier that a relation of the query declares, and no alias may be declared twice. A list of columns keeps all of them in order, the star stands for all and for nothing else, coalesce options keep their value, and the names and qualified names that are made of an identifier contain exactly its parts. Whether a column belongs to a list or to the fields of a relation is decided by name over all the elements.",
 ["inputs"], "all tags and identifiers",
 "Tests use a handful of well-formed tags and some malformed ones.",
 [AN], [("identifiers and lists", AN)],
 CHK,
 "The regular expression of column names is not interpreted.")

prop("A03", "Options of fields and kinds of types mean what is documented",
 "The options of a field tag add and remove exactly the permissions they stand for: a read-only field is never written, a write-only field never read, insert and update can be allowed separately, and signs add and subtract from that. The kind, element, key, base, package, pointer, imported and marshaller properties recorded for a Go type are those of the type for every composition of named, pointer, slice, array, map, struct and interface types. Iterators, error handlers and filters are recognised by exactly the methods, parameters and results they need.",
 ["inputs", "programs"], "all field tags and Go types",
 "Tests have some options and some dozens of types; combinations of options and compositions of types are unbounded.",
 [AN, "internal/analysis/fieldmode.go"], [("types", AN), ("options of fields", "internal/analysis/fieldmode.go")],
 CHK,
 "Whether a type implements an interface is left to go/types.")

prop("A04", "What a query returns, changes and compares follows from its description",
 "Each predicate has the shape that SQL gives it: two operands, none, a range, an array, a pattern, a truth value, and only comparisons and patterns can be quantified. Which kinds of query select, which select no rows, which write, whether it updates by primary key, a slice or by a condition, whether output goes to the relation, the returned columns or the result field, whether it is a single row, which field and type it has and whether an error handler or qualifier is needed, are decided from kind, relation and directives alone and by the same rule for all queries.",
 ["inputs"], "all query structs and all predicates",
 "Tests generate code for some dozens of combinations of kind, relation and directive.",
 [AN, "internal/analysis/enums.go", "internal/analysis/types.go"], [("questions about a query", "internal/analysis/types.go"), ("predicates", "internal/analysis/enums.go")],
 CHK,
 "How the answers are used is decided by G01 to G07 and P01 to P04.")

prop("A05", "Each field of a query struct has exactly the effect its name and tag call for",
 "Each field of a query struct is handed to the analysis of what its name, type or directive stands for and to no other, and the relation before all others. Each field of a relation that has a column tag becomes one column, or one level of nesting whose prefix and selector all columns inside it have, with the options, type and filter key of its own tag; each condition of a where struct and each condition of a join is read into the column, predicate, quantifier, function, bounds and literal that its tag has, joined by and or or as the tag says, at the nesting level where it stands. What cannot be accessed, is marked as ignored or has no tag is left out, and nothing else.",
 ["inputs", "programs"], "all structs, of any nesting and number of fields, and all tags",
 "Tests have some hundred structs with a few fields each; nesting, combinations of options and the order of fields are unbounded.",
 [AN], [("structs and fields", AN), ("conditions of joins and where structs", AN)],
 CHK,
 "The loops over nested structs are decided for an arbitrary field of an arbitrary struct, and for the end of a struct; that they visit every field in order is decided by how the stack is used in each step. Prepared results of the cache are taken as they are (see T05).")
