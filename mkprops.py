#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=None)))
BUILD = "BuildQueryAndParams / Render / RenderSQL / Values of every builder and condition"
prop("C01", "An obtained query, condition or builder never changes afterwards",
 "Once a caller has obtained a builder, condition, group, clause, field list, field value or unfinished join, everything it renders or reports (SQL text, parameters, accessors) stays the same for as long as it is kept. Nothing another caller derives from it, renders, or does with objects derived from it can change that, in any interleaving of any number of callers. The texts, parameter lists and other slices its calls have handed out stay as they were handed out, too. Finishing the same unfinished join twice gives two independent queries.",
 ["schedules","histories"],
 "every history of constructing, deriving and rendering calls by 1..N callers sharing objects, every interleaving of those calls at statement granularity",
 "README promises immutable builders; the suite checks it for two one-step derivations in one goroutine. Whether two children of one parent share memory depends on chain length, capacity growth and the order in which callers derive, which no fixed example samples.",
 ["group.go","where.go","select_base.go","select_many.go","select_single.go","join_unfinished.go","insert.go","update.go","delete.go","fields.go","limiter.go","lib_equal.go"],
 [dict(name="value receivers returning a modified copy",where="all builders"),
  dict(name="copying of slices held by builders (conditions, joins, ordering, assignments, fields)",where="group.go, select_*.go, insert.go, update.go, fields.go")],
 [dict(name="shared backing arrays",meaning="slices reachable from several builder copies",where="Group.conditions, BaseSelectBuilder.joins, SelectManyBuilder.order, InsertBuilder.setValues, UpdateBuilder.setValues")],[BUILD])
prop("C02", "A derived query holds exactly the clauses its own derivation added",
 "A builder obtained through any chain of derivations and conversions renders exactly the clauses that chain put in: table and alias, selected fields, joins with their kind and ON fields, leaf conditions, ordering, offset and limit, inserted or assigned columns. None is lost, duplicated, reordered or altered, and none leaks in from derivations other callers make from a shared ancestor, in any interleaving. Setting one aspect carries every other aspect over unchanged, and values taken from a map are each placed with their own column exactly once, whatever the map iteration order.",
 ["schedules","histories"],
 "every derivation chain (select, single, many, count, insert, update, delete and the conversions between them) of every caller, every interleaving at statement granularity, every map iteration order",
 "Tests render short chains built by one goroutine; conservation of clauses over long chains with siblings and concurrent callers is a statement about every history and schedule.",
 ["select_base.go","select_many.go","select_single.go","count.go","insert.go","update.go","delete.go","fields.go","join_tables.go","join_unfinished.go","group.go","values_map.go"],
 [dict(name="each derivation copies the receiver and changes one aspect",where="builder methods"),
  dict(name="clause assembly in the build methods",where="BuildQueryAndParams of each builder")],None,[BUILD])
prop("C03", "Placeholders and parameters always match, one to one and in order",
 "In every statement built and every condition or clause rendered, $N placeholders are numbered consecutively in textual order from the requested start, their number equals the number of parameters, and the k-th parameter is the value supplied for the clause that holds the k-th placeholder; the '?' form of a condition or clause has the same placeholders in the same places. This holds while value providers are called, suspend or return a different value on each call, and while other callers build from the same objects. (A list value expands to one placeholder per element inside IN; a comparison given a list of none or several values is refused instead of shifting the later parameters.)",
 ["schedules","histories","fault_sequences"],
 "every condition tree and statement mixing scalar, list, Valuer and provider values; every interleaving; every sequence of values returned by value providers across the repeated calls made during one build",
 "Numbering is threaded through nested rendering and values are fetched in separate passes that call user code; tests use constant values and one goroutine.",
 ["group.go","lib_in.go","lib_equal.go","lib_lt.go","lib_lte.go","lib_gt.go","lib_gte.go","lib_like.go","lib_ilike.go","lib_isnull.go","value.go","limiter.go","select_base.go","select_many.go","update.go","insert.go","delete.go","count.go"],
 [dict(name="parameter count threaded through Render, values gathered by Values",where="group.go, lib_*.go, value.go")],None,[BUILD])
prop("C04", "A value that fails to convert is never silently replaced or dropped",
 "When a value given to a condition, an inserted column or an assigned column cannot be converted - its Valuer returns an error (whichever) or panics on any of the calls made - the build fails visibly (an error, or a panic where there is no error result) and no statement is handed out in which that value is NULL, partial or otherwise substituted. A column assignment whose value does not yield exactly one parameter is refused with an error instead of being truncated. A build none of whose values failed succeeds.",
 ["fault_sequences","schedules","histories"],
 "every assignment of conversion failures to calls of the value providers (first, k-th, last, all; single values and lists; conditions, INSERT and UPDATE columns; select, count and delete filters), under every interleaving",
 "No test uses a failing Valuer; the failing call index and the place of the value in the statement are a large fault space.",
 ["value.go","insert.go","update.go","delete.go","select_base.go","select_many.go","select_single.go","count.go"],
 [dict(name="error of driver.Valuer turned into a failed build",where="value.go Values and the BuildQueryAndParams methods")],None,[BUILD])
prop("C05", "A failed or aborted build harms nothing and a retry succeeds",
 "When user code called during a build or render fails, panics, ends the calling goroutine or itself uses the package (the same builders included), at any of its calls, every builder and condition still renders what it rendered before, other callers' calls complete with correct results, and nobody blocks. Once the fault is gone, repeating the same build on the same object returns exactly the statement it would have returned had the fault never happened. Every call finishes within a bounded number of steps.",
 ["fault_sequences","schedules","crash_points"],
 "every callback invocation (driver.Valuer, value provider, user-defined condition) as the failing point, every kind of failure (error, panic, goroutine exit), every interleaving with other callers",
 "Tests never let a callback fail and never retry on the same builder.",
 ["value.go","group.go","where.go","select_base.go","select_many.go","select_single.go","insert.go","update.go","delete.go","count.go"],
 [dict(name="rendering reads builders without modifying them and keeps no shared state",where="Render/RenderSQL/Values/BuildQueryAndParams")],None,[BUILD])
prop("C06", "Sharing builders between goroutines is free of data races",
 "Any number of goroutines may concurrently call any methods on shared builders, conditions, groups, clauses, fields, values, tables and joins without synchronisation of their own. No such pair of calls contains two unordered accesses to the same memory of which one is a write.",
 ["schedules","histories"],
 "every set of concurrent calls on objects that were obtained before the calls started (or handed over with synchronisation), every interleaving",
 "No test uses a second goroutine, and the race detector is not part of the suite.",
 ["group.go","select_base.go","select_many.go","select_single.go","join_unfinished.go","insert.go","update.go","where.go","fields.go","value.go"],
 [dict(name="no writes through memory shared between copies of a builder",where="whole package")],None,["memory accesses of every exported method"])
prop("C07", "Slices passed in or handed out stay independent of the builder",
 "A caller may overwrite, reorder or append to any slice or map it passed to a constructor or builder method, at any moment after the call returned, and to any slice a builder, condition or clause returned to it, without changing what any existing builder or condition renders, or any other slice that was passed in or handed out. No call writes into a slice or map it was passed. This holds in any interleaving with other callers' derivations and builds. (It covers slices of conditions, fields, orderings, field values and parameters, variadic arguments included, and value maps; the payload inside one single value, such as a []string given as one value to In, is stored as given.)",
 ["histories","schedules"],
 "every argument slice (conditions, fields, ordering, values, value maps) and every returned slice (conditions, field definitions, set values, parameters), overwritten or appended to at every point of every history and interleaving",
 "Tests never modify an argument or a result afterwards.",
 ["group.go","where.go","fields.go","insert.go","update.go","select_base.go","select_many.go","select_single.go","values_map.go","logical.go"],
 [dict(name="copies on the way in and on the way out",where="SetToAll, Conditions, FieldDefinitions, SetValues, Fields")],None,["SetValues, Conditions, FieldDefinitions, Values and build parameters"])
prop("C08", "Executed statements affect exactly the rows their conditions select",
 "A SELECT, COUNT, UPDATE or DELETE built through any history and executed against a database affects exactly the rows selected by the logical combination its conditions denote: Where adds a conjunction, And/GroupAND conjoin, Or/GroupOR alternate between the receiver and the conjunction of the arguments, Not negates, NewGroup joins its members with the given operator, and combining never loses or regroups an operand. Every delivery of a statement has this effect, including rebuilt retries after a connection failure and deliveries interleaved with other callers deriving from the same objects; once failures stop, every caller's statement is acknowledged.",
 ["histories","schedules","fault_sequences"],
 "every condition tree and derivation history, every interleaving of clients sharing builders, every sequence of connection failures (lost request, lost acknowledgement, stall) with retries",
 "Tests compare the text of small condition trees; nesting, negation, flattening and bracketing interact, and tests never execute the statement or rebuild it.",
 ["group.go","logical.go","operations.go","where.go","lib_equal.go","lib_in.go","lib_isnull.go","lib_like.go","lib_ilike.go","lib_lt.go","lib_lte.go","lib_gt.go","lib_gte.go","select_base.go","update.go","delete.go","count.go"],
 [dict(name="bracketing and joining of condition groups",where="group.go"),dict(name="negation prefix",where="base.go, lib_*.go")],None,[BUILD])
prop("C09", "UPDATE or DELETE without an effective condition is always refused",
 "No history of calls produces an UPDATE or DELETE statement that lacks an effective condition: with none (or only empty groups) given, building returns an error and no SQL text, on the first attempt and on every retry, also when the builder came from a SELECT builder. Likewise an INSERT or UPDATE with no columns, or any of the three with an empty table name, is refused. A condition that was given is never missing from the statement that reaches the database.",
 ["histories","schedules","fault_sequences"],
 "every route to an update or delete builder (constructors, tables, conversions from select builders), every mix of empty and non-empty condition lists and groups, every interleaving and retry",
 "Tests check one builder without conditions; routes, empty groups, sharing and retries are not exercised.",
 ["update.go","delete.go","insert.go","group.go","select_base.go","select_many.go","select_single.go","table_ident.go","table_name.go"],
 [dict(name="refusal checks at the start of BuildQueryAndParams",where="update.go, delete.go, insert.go")],None,["UpdateBuilder/DeleteBuilder/InsertBuilder.BuildQueryAndParams"])
prop("C10", "The same derivation always yields the same statement",
 "The same derivation from the same inputs yields byte-identical SQL and equal parameters whoever performs it, whenever and how often it is performed or rendered, whatever other callers did before or are doing meanwhile, under every interleaving, map iteration order and process restart. (The column order taken from a values map is the only exception.)",
 ["schedules","histories","configurations"],
 "every derivation chain; pairs of schedules (including the sequential one); cold and warm process; different processor counts and processes",
 "Every test renders once in one schedule in one process; stability across schedules, process history and restarts needs pairs of executions.",
 ["select_base.go","select_many.go","select_single.go","group.go","value.go","fields.go","insert.go","update.go","delete.go","count.go"],
 [dict(name="rendering depends on nothing but the builder value",where="whole package")],None,[BUILD])
prop("C11", "Field and table specifications parse as documented or are refused",
 "Every field or table specification string is either parsed into exactly the documented name, table and alias or refused with an error; the error-returning constructors never panic.",
 ["inputs"],"every string","Tests sample a few strings out of all of them.",
 ["field_definition.go","table_ident.go"],[dict(name="token count dispatch",where="FieldOrError, TableOrError")])
prop("C12", "Field name validation accepts no unsafe name",
 "A field name that passes validation contains no quotes or spaces, at most one dot and no empty part, and orderings and value maps refuse any other name.",
 ["inputs"],"every string","Tests sample a few names.",
 ["field_name.go","ordering.go","values_map.go"],[dict(name="Validate",where="field_name.go")])
prop("C13", "Aliases are rendered where and only where documented",
 "Field and table aliases appear in selected-field and FROM positions exactly when they differ from the name or the field is table-qualified, and order clauses use the alias when there is one.",
 ["inputs"],"every combination of name, table and alias","Tests sample combinations; pure formatting of one value.",
 ["field_definition.go","table_ident.go","ordering.go"],[dict(name="RenderSpec, RenderField, RenderFrom",where="field_definition.go, table_ident.go")])
prop("C14", "Builders, conditions, clauses and fields report truthfully what they hold",
 "Every accessor tells what the derivation of its object put in, whichever history of constructors, derivations and conversions produced the object and whatever other callers do meanwhile: the SQL operation and the table of a builder, its selected fields or its assigned values in order, the conditions of a clause, the join type, negation and field name of a condition, the name, table and alias of a field or table, the direction of an ordering, the kind and fields of a join, the name and value of a field value. The string forms of a select builder, a clause and a field list name the same. RenderNegate and RenderJoin agree with IsNegate and JoinType.",
 ["histories","schedules"],
 "every accessor of every object obtained through any chain of constructors, derivations and conversions by any number of callers, every interleaving",
 "Tests check a few accessors right after a constructor; what they report after conversions and further derivations, with callers interleaved, is a statement about every history.",
 ["build_base.go","op_type.go","base.go","insert.go","update.go","delete.go","select_base.go","select_many.go","select_single.go","fields.go","field_definition.go","table_ident.go","ordering.go","where.go","group.go","value.go","join_tables.go"],
 [dict(name="accessors return what the receiver holds",where="whole package"),dict(name="BaseBuilder.op",where="build_base.go")],None,["Operation, TableName, RenderFrom, FieldDefinitions, FieldList, SetValues, Conditions, JoinType, IsNegate, RenderNegate, RenderJoin, FieldName, Alias, Direction"])
prop("C15", "Unique field names keeps first occurrences in order",
 "Reducing a list of field names to unique ones returns each distinct name once, in order of first occurrence.",
 ["inputs"],"every list","Tests sample lists; pure function.",["utils.go"],[dict(name="UniqFieldNames",where="utils.go")])
prop("C16", "The work of a call stays in proportion to what it handles",
 "The number of steps any constructing, deriving, rendering or building call takes is bounded by a low polynomial (of degree two) of the size of the derivation it works on - the number of calls, names and values that went into it. It never grows exponentially with how deeply conditions are nested, with how long a chain of derivations is, or with what was done before or is being done by other callers.",
 ["histories","schedules"],
 "every derivation history, deeply nested conditions included, every interleaving",
 "Tests build conditions of depth two or three, where an exponential rendering is as fast as a linear one.",
 ["group.go","where.go","logical.go","select_base.go","select_many.go","update.go","delete.go","count.go","value.go"],
 [dict(name="each level of nesting renders its members once and counts their values once",where="group.go Render, RenderSQL, Values")],None,[BUILD])
prop("C17", "Memory of dropped builders and statements is released",
 "The package holds on to nothing: however long a process goes on constructing, deriving, rendering and building with ever new names and values - failed and aborted builds included - the memory of objects, statements and parameters that callers no longer refer to becomes free. Memory in use does not grow with the number of calls made.",
 ["histories","fault_sequences","schedules"],
 "every history repeated any number of times with other names and values, failing builds included, every interleaving",
 "A test makes each call once and ends; what is retained shows only over a long history.",
 ["field_definition.go","table_ident.go","value.go","group.go","select_base.go","insert.go","update.go","delete.go"],
 [dict(name="no package-level state but constants and Error",where="whole package")],[dict(name="package-level variables",meaning="anything reachable from them is never released",where="whole package")],["heap in use after collection"])
prop("C18", "Count, single row, pages and converted writes agree with the list",
 "All statements obtained from one select builder speak of the same rows. Its count counts exactly the rows its list returns without offset and limit, whatever offset, limit, order and fields were set; its single-row form, which drops orders and pages, returns the first row of the list without them; consecutive pages - offset and limit set in either order and as often as one likes - return consecutive parts of the list without gap or overlap; the UPDATE or DELETE made from it affects exactly the rows listed (joins aside, which these documentedly drop). This holds for every history that produced the builder, with other callers deriving from it in between and with statements repeated over failing connections.",
 ["histories","schedules","fault_sequences"],
 "every select builder obtained through any history, every data set, every interleaving of readers, every pattern of lost and repeated statements",
 "Tests compare the text of single statements; that five statements built at different moments from one shared builder fit together on every data set relates whole histories.",
 ["count.go","select_base.go","select_many.go","select_single.go","limiter.go","update.go","delete.go","where.go","group.go"],
 [dict(name="every form takes over table, joins and conditions of the builder",where="count.go, select_base.go Single, Many, Update, Delete; select_many.go; select_single.go"),dict(name="offset and limit parameters follow those of the conditions",where="select_many.go BuildQueryAndParams")],None,["rows found, counted and affected by a server that sees texts and parameters only"])
prop("C19", "Values are asked for by the call that needs them, each time anew",
 "User code of values (driver.Valuer, ValueProvider, and conditions written by users) runs only inside a call that renders, builds or reads the values of an object it is part of, on the goroutine of that call - never while objects are constructed, derived, converted or asked for names (FieldName.Value with a ValueProvider aside, which documentedly asks at once). Every parameter a call returns was given by its value during that very call: never by an earlier, failed or aborted build, nor by a build another caller is making of the same object at the same time.",
 ["histories","schedules","fault_sequences"],
 "every history and interleaving of constructing, deriving and building, values that change between any two calls, failing and aborted builds followed by further ones",
 "Tests use constant values, for which a remembered value and a fresh one are the same.",
 ["value.go","group.go","lib_in.go","insert.go","update.go","select_base.go","field_name.go","values_map.go"],
 [dict(name="values are stored unconverted, converted by Values()",where="value.go")],None,[BUILD,"calls of Value, DatabaseValue and methods of user conditions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
