From d81888427ee6068e87d0578361ddb7426e3f9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 01/16] fix: additions to a builder or group no longer write
 into arrays shared with its other derivations

---
 group.go         | 26 +++++++++++++-------------
 insert.go        |  2 +-
 select_base.go   |  2 +-
 select_many.go   |  4 ++--
 select_single.go |  2 +-
 update.go        |  2 +-
 utils.go         |  9 +++++++++
 7 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/group.go b/group.go
index 1b476db..e5c5b18 100644
--- a/group.go
+++ b/group.go
@@ -68,26 +68,26 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 
 	// check conditions on have single condition and adding group
 	case haveSingle && op == LogicalAND && addingOnlyAnd: // AND AND (AND),- unpack another group into flat (AND...AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
 	case haveSingle && op == LogicalOR && addingOnlyOR: // OR OR (OR),- unpack another group into flat (OR-OR).
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
 	case haveSingle: // any other single (or group) + group: enclose new group into brackets
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(anotherGroup.WithBrackets()))
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(anotherGroup.WithBrackets()))
 
 	// check conditions on having many conditions and adding group with conjunction
 	case havingOnlyOR && op == LogicalOR && addingOnlyOR: // (OR) OR (OR) => flat OR
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
+		conditionsGroup.conditions = appendCopy[Condition](conditionsGroup.conditions, anotherGroup.WithBrackets())
 	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
 		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
 		// check conditions on having many conditions and adding group with conjunction
 
 	case havingOnlyAND && op == LogicalAND && addingOnlyAnd: // (AND) AND (AND) => flat AND
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
 		// check conditions on having many conditions and adding group
 	case havingOnlyAND && op == LogicalAND && addingAnyOR: // (AND) AND (OR),- AND AND (OR)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
+		conditionsGroup.conditions = appendCopy[Condition](conditionsGroup.conditions, anotherGroup.WithBrackets())
 		// check conditions on having many conditions and adding group
 	// check conditions on having many conditions and adding group
 	case havingAnyAND && op == LogicalOR && addingOnlyOR: // (AND) OR (OR) => (AND) OR OR
@@ -115,14 +115,14 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 	case addingGroup: // process adding groups in separate method
 		return conditionsGroup.addGroup(groupToAdd)
 	case haveNone: // current group empty, join single condition and set group join type
-		conditionsGroup.conditions = append(conditionsGroup.conditions, condition)
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, condition)
 		conditionsGroup.joinType = op
 	case haveSingle: // just join new single to group joining with required op
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(condition))
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(condition))
 	case haveMany && op == LogicalAND && havingOnlyAND: // have many, all joins are AND, join new to group
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(condition))
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(condition))
 	case haveMany && op == LogicalOR && havingOnlyOR: // have many, all joins are OR, join new to group
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(condition))
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(condition))
 	default: // have many, adding single, join is not matched, enclose existing into bracket
 		conditionsGroup.conditions = []Condition{conditionsGroup.WithBrackets(), op.Join(condition)}
 	}
@@ -141,14 +141,14 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 0: // simply return pointer to copy if no new conditions.
 		return conditionsGroup
 	case !haveConditions: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, conditions...)
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, conditions...)
 		conditionsGroup.joinType = op
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
 		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
 	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
+		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
 	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
 		conditionsGroup.conditions = append([]Condition{
 			conditionsGroup.WithBrackets()},
diff --git a/insert.go b/insert.go
index 90cef5a..b73e21f 100644
--- a/insert.go
+++ b/insert.go
@@ -26,7 +26,7 @@ func (inserter InsertBuilder) SetValues() []FieldValue {
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
-	inserter.setValues = append(inserter.setValues, values...)
+	inserter.setValues = appendCopy(inserter.setValues, values...)
 	return inserter
 }
 
diff --git a/select_base.go b/select_base.go
index edecf61..b3cb539 100644
--- a/select_base.go
+++ b/select_base.go
@@ -187,7 +187,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = appendCopy(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
 
diff --git a/select_many.go b/select_many.go
index 30cc574..c8c7f5e 100644
--- a/select_many.go
+++ b/select_many.go
@@ -104,7 +104,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
-	query.order = append(query.order, orderByFields...)
+	query.order = appendCopy(query.order, orderByFields...)
 	return query
 }
 
@@ -134,7 +134,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = appendCopy(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
 
diff --git a/select_single.go b/select_single.go
index dd12af7..edafb30 100644
--- a/select_single.go
+++ b/select_single.go
@@ -54,7 +54,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = appendCopy(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
 
diff --git a/update.go b/update.go
index da0c242..e46f49d 100644
--- a/update.go
+++ b/update.go
@@ -27,7 +27,7 @@ func (updater UpdateBuilder) SetValues() []FieldValue {
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
-	updater.setValues = append(updater.setValues, values...)
+	updater.setValues = appendCopy(updater.setValues, values...)
 	return updater
 }
 
diff --git a/utils.go b/utils.go
index ec15a4c..3ae5360 100644
--- a/utils.go
+++ b/utils.go
@@ -17,3 +17,12 @@ func UniqFieldNames(a []FieldName) []FieldName {
 	}
 	return answer
 }
+
+// appendCopy returns a new slice having items of the list followed by additional items.
+// Unlike append it never writes into the array of the list, which could be shared with other builders or conditions.
+func appendCopy[T any](list []T, items ...T) []T {
+	res := make([]T, 0, len(list)+len(items))
+	res = append(res, list...)
+
+	return append(res, items...)
+}
-- 
2.43.0


From 535ea03c1f108d93f00b489c2a97ffda3b25b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 02/16] fix: finishing a join leaves the unfinished join and
 its other derivations untouched

---
 join_unfinished.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..3db290e 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -11,6 +11,7 @@ type incompleteBaseJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
+	updated.joins = appendCopy(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -28,6 +29,7 @@ type incompleteManyJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
+	updated.joins = appendCopy(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -45,6 +47,7 @@ type incompleteSingleJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
+	updated.joins = appendCopy(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
-- 
2.43.0


From 6e786abc5e6bd3f9a06b786acfa69ad8b424d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 03/16] fix: IsNull conditions combine with Or instead of
 panicking

---
 lib_isnull.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..d1e8e00 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -62,13 +62,13 @@ func (impl nullValue) Values() []interface{} {
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl nullValue) And(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, impl).And(conditions...)
+	return And(impl, conditions...)
 }
 
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return Or(impl, conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From 980e11fb391282d4e2f582f4b7697121e4950766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 04/16] fix: applying a field or table to a group leaves the
 original group untouched

---
 group.go       | 2 ++
 select_many.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/group.go b/group.go
index e5c5b18..ba6a998 100644
--- a/group.go
+++ b/group.go
@@ -307,6 +307,7 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditionsGroup.conditions = appendCopy(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
@@ -317,6 +318,7 @@ func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditionsGroup.conditions = appendCopy(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
diff --git a/select_many.go b/select_many.go
index c8c7f5e..47a116c 100644
--- a/select_many.go
+++ b/select_many.go
@@ -72,6 +72,7 @@ func (query SelectManyBuilder) FieldDefinitions() (res []FieldDefinition) {
 
 // applySpecToOrdering checks if field spec suits for any ordering fields and replaces its spec if required
 func (query SelectManyBuilder) applySpecToOrdering(spec FieldDefinition) SelectManyBuilder {
+	query.order = appendCopy(query.order)
 	for idx, ordering := range query.order {
 		if spec.fieldName == ordering.fieldName {
 			query.order[idx] = query.order[idx].ApplyFieldSpec(spec)
@@ -83,6 +84,7 @@ func (query SelectManyBuilder) applySpecToOrdering(spec FieldDefinition) SelectM
 
 // applySpecToOrdering checks if field spec suits for any ordering fields and replaces its spec if required
 func (query SelectManyBuilder) applyFieldTableToOrdering(tableName TableName) SelectManyBuilder {
+	query.order = appendCopy(query.order)
 	for idx := range query.order {
 		query.order[idx] = query.order[idx].applyFieldTable(tableName)
 	}
-- 
2.43.0


From f7d64e715b97e985d5b20fcc59b38270178b20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 05/16] fix: SetValues returns a copy as documented

---
 insert.go | 2 +-
 update.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index b73e21f..80a022d 100644
--- a/insert.go
+++ b/insert.go
@@ -20,7 +20,7 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return appendCopy(inserter.setValues)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
diff --git a/update.go b/update.go
index e46f49d..be499da 100644
--- a/update.go
+++ b/update.go
@@ -21,7 +21,7 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return appendCopy(updater.setValues)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
-- 
2.43.0


From 935366c98e6dd1791518c52f656370846f2bb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 06/16] fix: SelectSingleBuilder.Fields keeps the table, joins
 and conditions

---
 select_single.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/select_single.go b/select_single.go
index edafb30..047c2f0 100644
--- a/select_single.go
+++ b/select_single.go
@@ -25,6 +25,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
+	updated = query
 	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
-- 
2.43.0


From 77c6cbc0aa49be61c3861d34fa3422f65c23ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 07/16] fix: builders return failed conversions of values as
 errors

---
 count.go         |  2 ++
 delete.go        |  2 ++
 insert.go        |  2 ++
 select_base.go   |  2 ++
 select_many.go   |  3 +++
 select_single.go |  4 ++++
 update.go        |  2 ++
 value.go         | 46 +++++++++++++++++++++++++++++++++++++---------
 8 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/count.go b/count.go
index 2e921dd..1c0ecca 100644
--- a/count.go
+++ b/count.go
@@ -20,6 +20,8 @@ func (query CountBuilder) RenderFrom() string {
 // BuildQueryAndParams generates sql query string with desired parameters set.
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query CountBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
+	defer returnValueError(&sql, &params, &err)
+
 	tokens := append([]string{},
 		DoSelect.String(),
 		kwCount.String()+"("+query.countField.RenderField()+")",
diff --git a/delete.go b/delete.go
index 4fe915c..0343fc9 100644
--- a/delete.go
+++ b/delete.go
@@ -26,6 +26,8 @@ func (updater DeleteBuilder) Where(fieldConditions ...Condition) DeleteBuilder {
 // BuildQueryAndParams returns query string and params to fill in SQL DELETE query string.
 // If query build failed returns non-nil error.
 func (updater DeleteBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
+	defer returnValueError(&sql, &params, &err)
+
 	// disallow some cases
 	switch {
 	case len(updater.where.conditions) == 0:
diff --git a/insert.go b/insert.go
index 80a022d..fb12b9d 100644
--- a/insert.go
+++ b/insert.go
@@ -34,6 +34,8 @@ func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
 // Returns SQL INSERT query string, parameters to fill placeholders in driver.
 // If any errors occurs returns that error.
 func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
+	defer returnValueError(&sql, &params, &err)
+
 	params = make([]interface{}, 0)
 
 	// disallow some cases
diff --git a/select_base.go b/select_base.go
index b3cb539..9d402de 100644
--- a/select_base.go
+++ b/select_base.go
@@ -88,6 +88,8 @@ func (query BaseSelectBuilder) RenderFrom() (fromClause string) {
 // BuildQueryAndParams generates sql query string with desired parameters set.
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query BaseSelectBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
+	defer returnValueError(&sql, &params, &err)
+
 	params = make([]any, 0)
 	tokens := append([]string{},
 		DoSelect.String(),
diff --git a/select_many.go b/select_many.go
index 47a116c..4d34b66 100644
--- a/select_many.go
+++ b/select_many.go
@@ -26,6 +26,9 @@ func (query SelectManyBuilder) RenderFrom() string {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	sql, params, err = query.BaseSelectBuilder.BuildQueryAndParams()
+	if err != nil {
+		return "", nil, err
+	}
 
 	if len(query.order) > 0 {
 		sql += " ORDER BY "
diff --git a/select_single.go b/select_single.go
index 047c2f0..5fe8b43 100644
--- a/select_single.go
+++ b/select_single.go
@@ -14,6 +14,10 @@ func (query SelectSingleBuilder) RenderFrom() string {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	sql, params, err = query.BaseSelectBuilder.BuildQueryAndParams()
+	if err != nil {
+		return "", nil, err
+	}
+
 	return sql + " LIMIT 1", params, nil
 }
 
diff --git a/update.go b/update.go
index be499da..686816c 100644
--- a/update.go
+++ b/update.go
@@ -52,6 +52,8 @@ func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
 // BuildQueryAndParams returns query string and params to fill in SQL UPDATE query string.
 // If query build failed returns non-nil error.
 func (updater UpdateBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
+	defer returnValueError(&sql, &params, &err)
+
 	var fieldsEnum string
 
 	// disallow some cases
diff --git a/value.go b/value.go
index d760d1f..a3460a8 100644
--- a/value.go
+++ b/value.go
@@ -29,20 +29,50 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
+// valueError indicates a failed translation of field value into database value.
+// FieldValue.Values panics with it as it has no other way to report an error, builders return it from BuildQueryAndParams.
+type valueError struct {
+	error
+}
+
+// Unwrap returns wrapped error.
+func (valueErr valueError) Unwrap() error {
+	return valueErr.error
+}
+
+// translate returns database value of driver.Valuer.
+// Panics if translation is failed.
+func translate(valuer driver.Valuer) any {
+	res, err := valuer.Value()
+	if err != nil {
+		panic(valueError{fmt.Errorf("%w: translate value %v(%T): %w", Error, valuer, valuer, err)})
+	}
+
+	return res
+}
+
+// returnValueError is deferred by builders to return a failed value translation as an error. Other panics go on.
+func returnValueError(sql *string, params *[]interface{}, err *error) {
+	switch recovered := recover().(type) {
+	case nil:
+	case valueError:
+		*sql, *params, *err = "", nil, recovered
+	default:
+		panic(recovered)
+	}
+}
+
 // Values returns a slice of interface{} containing single field value.
+// Panics if a value implementing driver.Valuer could not be translated.
 func (fieldValue FieldValue) Values() (result []interface{}) {
-	var err error
-
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
-		singleValue, _ := typedValue.Value()
-		return []any{singleValue}
+		return []any{translate(typedValue)}
 	case []driver.Valuer:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			singleValue, _ := value.Value()
-			result[idx] = singleValue
+			result[idx] = translate(value)
 		}
 
 		return result
@@ -83,9 +113,7 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 				if valuer == nil {
 					res[idx] = nil
 				} else {
-					if res[idx], err = valuer.Value(); err != nil {
-						panic(fmt.Errorf("%w: translate value %v(%T): %v", Error, rawElem, rawElem, err))
-					}
+					res[idx] = translate(valuer)
 				}
 			}
 
-- 
2.43.0


From 7bb21e44a044dadd992031735d9069026a8991ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 08/16] fix: builders refuse column values giving no or many
 database values

---
 insert.go |  6 +++++-
 update.go | 14 ++++++++++----
 value.go  | 11 +++++++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/insert.go b/insert.go
index fb12b9d..807a372 100644
--- a/insert.go
+++ b/insert.go
@@ -50,8 +50,12 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
-		params = append(params, fieldValue.Values()...)
+		value, err := fieldValue.columnValue()
+		if err != nil {
+			return "", nil, err
+		}
 
+		params = append(params, value)
 		columns = append(columns, fieldValue.fieldName)
 		valuePlaceholders = append(valuePlaceholders, "$"+strconv.Itoa(len(params)))
 	}
diff --git a/update.go b/update.go
index 686816c..e79d01b 100644
--- a/update.go
+++ b/update.go
@@ -37,16 +37,19 @@ func (updater UpdateBuilder) Where(fieldConditions ...Condition) UpdateBuilder {
 	return updater
 }
 
-func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
+func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any, err error) {
 	kwPairs := make([]string, len(updater.setValues))
 	params = make([]any, len(updater.setValues))
 
 	for idx, fieldValue := range updater.setValues {
-		params[idx] = fieldValue.Values()[0]
+		if params[idx], err = fieldValue.columnValue(); err != nil {
+			return "", nil, err
+		}
+
 		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
 	}
 
-	return strings.Join(kwPairs, ", "), params
+	return strings.Join(kwPairs, ", "), params, nil
 }
 
 // BuildQueryAndParams returns query string and params to fill in SQL UPDATE query string.
@@ -66,7 +69,10 @@ func (updater UpdateBuilder) BuildQueryAndParams() (sql string, params []interfa
 		return "", params, fmt.Errorf("%w: no table name set", Error)
 	}
 
-	fieldsEnum, params = updater.fieldsAndValues()
+	if fieldsEnum, params, err = updater.fieldsAndValues(); err != nil {
+		return "", nil, err
+	}
+
 	sql = strings.Join([]string{
 		kwUpdate.String(),
 		updater.tableName.String(),
diff --git a/value.go b/value.go
index a3460a8..341f4eb 100644
--- a/value.go
+++ b/value.go
@@ -123,6 +123,17 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// columnValue returns the only database value to store into a table column.
+// Returns error if there are none or many of them, as they could not be written into single column.
+func (fieldValue FieldValue) columnValue() (value any, err error) {
+	values := fieldValue.Values()
+	if len(values) != 1 {
+		return nil, fmt.Errorf("%w: %d values for column `%v`, expected one", Error, len(values), fieldValue.fieldName)
+	}
+
+	return values[0], nil
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From 69f845e59387b9570c0dcf84c0375bcb6a7fb833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 09/16] fix: empty condition groups are no conditions

---
 group.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/group.go b/group.go
index ba6a998..bf0ba66 100644
--- a/group.go
+++ b/group.go
@@ -33,12 +33,9 @@ func (conditionsGroup Group) FieldName() FieldName {
 // NewGroup makes a group of conditions with default external join AND.
 // All conditions inside group joined with requested joinType.
 func NewGroup(joinType JoinType, conditions ...Condition) Group {
-	if conditions == nil {
-		conditions = make([]Condition, 0)
-	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(skipEmpty(conditions)...),
 		withBrackets:  false,
 	}
 }
@@ -133,6 +130,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditions = skipEmpty(conditions)
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
@@ -159,6 +157,24 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	return conditionsGroup
 }
 
+// isEmpty returns true if there is nothing to render in group as it contains neither conditions nor not empty groups.
+func (conditionsGroup Group) isEmpty() bool {
+	return len(skipEmpty(conditionsGroup.conditions)) == 0
+}
+
+// skipEmpty returns a copy of conditions list without empty groups.
+func skipEmpty(conditions []Condition) (result []Condition) {
+	result = make([]Condition, 0, len(conditions))
+
+	for _, condition := range conditions {
+		if group, isGroup := condition.(Group); !isGroup || !group.isEmpty() {
+			result = append(result, condition)
+		}
+	}
+
+	return result
+}
+
 // hasAll returns true if all conditions joined with specified JoinType.
 // Ignores first condition join type as everything joined to it.
 func (conditionsGroup Group) hasAll(joinType JoinType) bool {
-- 
2.43.0


From 5a3bd12c497d609bf29e9805385bc237472fef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 10/16] fix: combining and negating condition groups keeps the
 meaning of operands

---
 group.go | 159 +++++++++++++++++++++++--------------------------------
 1 file changed, 65 insertions(+), 94 deletions(-)

diff --git a/group.go b/group.go
index bf0ba66..078b315 100644
--- a/group.go
+++ b/group.go
@@ -40,121 +40,92 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 	}
 }
 
-// addGroup does extra routines while adding single group element.
-// Note it operates over Group copy and returns pointer to modified copy.
-func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
-	haveNone := len(conditionsGroup.conditions) == 0
-	haveSingle := len(conditionsGroup.conditions) == 1
-
-	havingOnlyAND := conditionsGroup.hasAll(LogicalAND)
-	havingOnlyOR := conditionsGroup.hasAll(LogicalOR)
-	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
-	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
+// operands returns conditions to join with others by op keeping the meaning of group.
+// Conditions of a plain group having the same joins are taken as is, any other group is enclosed into brackets.
+func (conditionsGroup Group) operands(op JoinType) []Condition {
+	if conditionsGroup.hasAll(op) && !conditionsGroup.IsNegate() {
+		return op.SetToAll(conditionsGroup.conditions...)
+	}
 
-	addingOnlyAnd := anotherGroup.hasAll(LogicalAND)
-	addingAnyAnd := anotherGroup.hasOne(LogicalAND)
-	addingOnlyOR := anotherGroup.hasAll(LogicalOR)
-	addingAnyOR := anotherGroup.hasOne(LogicalOR)
+	return []Condition{op.Join(conditionsGroup.WithBrackets())}
+}
 
-	op := anotherGroup.joinType
-
-	switch {
-	case haveNone: // current group empty, reset it op and elements from another
-		conditionsGroup.conditions = anotherGroup.conditions
-		conditionsGroup.joinType = op
-
-	// check conditions on have single condition and adding group
-	case haveSingle && op == LogicalAND && addingOnlyAnd: // AND AND (AND),- unpack another group into flat (AND...AND)
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
-	case haveSingle && op == LogicalOR && addingOnlyOR: // OR OR (OR),- unpack another group into flat (OR-OR).
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
-	case haveSingle: // any other single (or group) + group: enclose new group into brackets
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(anotherGroup.WithBrackets()))
-
-	// check conditions on having many conditions and adding group with conjunction
-	case havingOnlyOR && op == LogicalOR && addingOnlyOR: // (OR) OR (OR) => flat OR
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
-	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
-		conditionsGroup.conditions = appendCopy[Condition](conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
-		// check conditions on having many conditions and adding group with conjunction
-
-	case havingOnlyAND && op == LogicalAND && addingOnlyAnd: // (AND) AND (AND) => flat AND
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, anotherGroup.conditions...)
-		// check conditions on having many conditions and adding group
-	case havingOnlyAND && op == LogicalAND && addingAnyOR: // (AND) AND (OR),- AND AND (OR)
-		conditionsGroup.conditions = appendCopy[Condition](conditionsGroup.conditions, anotherGroup.WithBrackets())
-		// check conditions on having many conditions and adding group
-	// check conditions on having many conditions and adding group
-	case havingAnyAND && op == LogicalOR && addingOnlyOR: // (AND) OR (OR) => (AND) OR OR
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
-
-	default: // have many, adding many, join is not matched, join both with brackets
-		conditionsGroup.conditions = []Condition{conditionsGroup.WithBrackets(), op.Join(anotherGroup.WithBrackets())}
-	}
+// withOperands returns a copy of group having specified conditions.
+// Negation is reset as it is already a part of conditions.
+func (conditionsGroup Group) withOperands(conditions ...Condition) Group {
+	conditionsGroup.conditions = conditions
+	conditionsGroup.negate = false
 
 	return conditionsGroup
 }
 
 // addSingleCondition does extra routines while adding single condition.
-// Note it operates over Group copy and returns pointer to modified copy.
-func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
-	haveNone := len(conditionsGroup.conditions) == 0
-	haveSingle := len(conditionsGroup.conditions) == 1
-	haveMany := len(conditionsGroup.conditions) > 1
-	havingOnlyAND := conditionsGroup.hasAll(LogicalAND)
-	havingOnlyOR := conditionsGroup.hasAll(LogicalOR)
-	groupToAdd, addingGroup := condition.(Group)
-	op := condition.JoinType()
+// Note it operates over Group copy and returns modified copy.
+func (conditionsGroup Group) addSingleCondition(op JoinType, condition Condition) Group {
+	existing := conditionsGroup.operands(op)
 
-	switch {
-	case addingGroup: // process adding groups in separate method
-		return conditionsGroup.addGroup(groupToAdd)
-	case haveNone: // current group empty, join single condition and set group join type
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, condition)
-		conditionsGroup.joinType = op
-	case haveSingle: // just join new single to group joining with required op
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(condition))
-	case haveMany && op == LogicalAND && havingOnlyAND: // have many, all joins are AND, join new to group
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(condition))
-	case haveMany && op == LogicalOR && havingOnlyOR: // have many, all joins are OR, join new to group
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(condition))
-	default: // have many, adding single, join is not matched, enclose existing into bracket
-		conditionsGroup.conditions = []Condition{conditionsGroup.WithBrackets(), op.Join(condition)}
+	if groupToAdd, addingGroup := condition.(Group); addingGroup {
+		return conditionsGroup.withOperands(append(existing, groupToAdd.operands(op)...)...)
 	}
 
-	return conditionsGroup
+	return conditionsGroup.withOperands(append(existing, op.Join(condition))...)
 }
 
 // addConditions adds new conditions into existing set and returns modified group.
-// Note it operates over Group copy and returns pointer to modified copy.
+// Note it operates over Group copy and returns modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
 	conditions = skipEmpty(conditions)
-	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
-	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
-	haveConditions := len(conditionsGroup.conditions) > 0
 
 	switch {
-	case len(conditions) == 0: // simply return pointer to copy if no new conditions.
+	case len(conditions) == 0: // simply return copy if no new conditions.
 		return conditionsGroup
-	case !haveConditions: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, conditions...)
+	case len(conditionsGroup.conditions) == 0: // nothing to join to, take new conditions with their own joins
+		conditionsGroup.conditions = conditions
 		conditionsGroup.joinType = op
+
+		return conditionsGroup
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
-		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
-	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
-	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = appendCopy(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
-	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
-		conditionsGroup.conditions = append([]Condition{
-			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
+		return conditionsGroup.addSingleCondition(op, conditions[0])
+	case op == LogicalAND && conditionsGroup.hasOne(LogicalOR): // enclose existed into brackets and join flat AND-AND
+		return conditionsGroup.withOperands(
+			append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(conditions...)...)...,
+		)
+	default: // adding many, enclose both sets into brackets and return new group with required join.
+		return conditionsGroup.withOperands(
+			conditionsGroup.WithBrackets(),
+			op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()),
 		)
 	}
+}
 
-	return conditionsGroup
+// enclosed returns condition to render as a part of group.
+// A nested group is enclosed into brackets if otherwise its joins are torn apart by joins or negation of group itself.
+func (conditionsGroup Group) enclosed(condition Condition) Condition {
+	nestedGroup, isGroup := condition.(Group)
+	if !isGroup {
+		return condition
+	}
+
+	inner := nestedGroup
+	for len(inner.conditions) == 1 && !inner.IsNegate() && !inner.withBrackets { // brackets to draw are of group inside
+		single, isGroup := inner.conditions[0].(Group)
+		if !isGroup {
+			break
+		}
+
+		inner = single
+	}
+
+	switch {
+	case inner.IsNegate() || inner.withBrackets: // either encloses itself
+		return condition
+	case conditionsGroup.hasOne(LogicalAND) && inner.hasOne(LogicalOR): // AND takes precedence over OR
+		return nestedGroup.WithBrackets()
+	case conditionsGroup.IsNegate() && len(conditionsGroup.conditions) == 1 && len(inner.conditions) > 1:
+		return nestedGroup.WithBrackets()
+	}
+
+	return condition
 }
 
 // isEmpty returns true if there is nothing to render in group as it contains neither conditions nor not empty groups.
@@ -257,7 +228,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
 		parametersCount += len(condition.Values())
 	}
 
@@ -291,7 +262,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.enclosed(condition).RenderSQL()
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From 2758d14640b1e3a38d484eb804bc44b5595d057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 11/16] fix: comparisons refuse list values instead of
 misnumbering later placeholders

---
 lib_equal.go |  6 ++++++
 lib_gt.go    |  6 ++++++
 lib_gte.go   |  6 ++++++
 lib_lt.go    |  6 ++++++
 lib_lte.go   |  6 ++++++
 value.go     | 11 +++++++++++
 6 files changed, 41 insertions(+)

diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..c842f2f 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -61,6 +61,12 @@ func (impl equalTo) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a slice containing single value to compare field with.
+// Panics if a list of none or many values is given, as there is single placeholder to fill.
+func (impl equalTo) Values() []interface{} {
+	return impl.FieldValue.comparedValues()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl equalTo) And(conditions ...Condition) Condition {
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..aff370a 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -61,6 +61,12 @@ func (impl greater) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a slice containing single value to compare field with.
+// Panics if a list of none or many values is given, as there is single placeholder to fill.
+func (impl greater) Values() []interface{} {
+	return impl.FieldValue.comparedValues()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greater) And(conditions ...Condition) Condition {
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..8c3900c 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -62,6 +62,12 @@ func (impl greaterOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a slice containing single value to compare field with.
+// Panics if a list of none or many values is given, as there is single placeholder to fill.
+func (impl greaterOrEqual) Values() []interface{} {
+	return impl.FieldValue.comparedValues()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greaterOrEqual) And(conditions ...Condition) Condition {
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..2cee0cf 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -65,6 +65,12 @@ func (impl less) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a slice containing single value to compare field with.
+// Panics if a list of none or many values is given, as there is single placeholder to fill.
+func (impl less) Values() []interface{} {
+	return impl.FieldValue.comparedValues()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl less) And(conditions ...Condition) Condition {
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..81c46ac 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -66,6 +66,12 @@ func (impl lessOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a slice containing single value to compare field with.
+// Panics if a list of none or many values is given, as there is single placeholder to fill.
+func (impl lessOrEqual) Values() []interface{} {
+	return impl.FieldValue.comparedValues()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl lessOrEqual) And(conditions ...Condition) Condition {
diff --git a/value.go b/value.go
index 341f4eb..27bd45f 100644
--- a/value.go
+++ b/value.go
@@ -134,6 +134,17 @@ func (fieldValue FieldValue) columnValue() (value any, err error) {
 	return values[0], nil
 }
 
+// comparedValues returns a slice containing the only database value to compare field with.
+// Panics if there are none or many of them, builders return it as an error.
+func (fieldValue FieldValue) comparedValues() []interface{} {
+	values := fieldValue.Values()
+	if len(values) != 1 {
+		panic(valueError{fmt.Errorf("%w: %d values to compare `%v` with, expected one", Error, len(values), fieldValue.fieldName)})
+	}
+
+	return values
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From 07268cf022dc1b817e7ad251a11bcbccbd84d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 12/16] fix: lists of values may contain nil driver.Valuer
 elements

---
 value.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/value.go b/value.go
index 27bd45f..74cb1f9 100644
--- a/value.go
+++ b/value.go
@@ -40,9 +40,13 @@ func (valueErr valueError) Unwrap() error {
 	return valueErr.error
 }
 
-// translate returns database value of driver.Valuer.
+// translate returns database value of driver.Valuer, nil if there is no driver.Valuer given.
 // Panics if translation is failed.
 func translate(valuer driver.Valuer) any {
+	if valuer == nil {
+		return nil
+	}
+
 	res, err := valuer.Value()
 	if err != nil {
 		panic(valueError{fmt.Errorf("%w: translate value %v(%T): %w", Error, valuer, valuer, err)})
@@ -109,12 +113,8 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 			for idx := 0; idx < len(res); idx++ {
 				elem := valueReflection.Index(idx)
 				rawElem := elem.Interface()
-				valuer := rawElem.(driver.Valuer)
-				if valuer == nil {
-					res[idx] = nil
-				} else {
-					res[idx] = translate(valuer)
-				}
+				valuer, _ := rawElem.(driver.Valuer)
+				res[idx] = translate(valuer)
 			}
 
 			return res
-- 
2.43.0


From 1879c440b28a88c8db5cf88304e2e28c7e73838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 13/16] fix: groups supplied by pointers are recognized as
 groups

---
 group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/group.go b/group.go
index 078b315..e2da1aa 100644
--- a/group.go
+++ b/group.go
@@ -134,10 +134,15 @@ func (conditionsGroup Group) isEmpty() bool {
 }
 
 // skipEmpty returns a copy of conditions list without empty groups.
+// Groups supplied by pointers are replaced with their values to be recognized as groups.
 func skipEmpty(conditions []Condition) (result []Condition) {
 	result = make([]Condition, 0, len(conditions))
 
 	for _, condition := range conditions {
+		if pointer, isPointer := condition.(*Group); isPointer {
+			condition = *pointer
+		}
+
 		if group, isGroup := condition.(Group); !isGroup || !group.isEmpty() {
 			result = append(result, condition)
 		}
-- 
2.43.0


From f937e499618990d90491e2fb89eb7afb9bd57c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 14/16] fix: nil pointers to types implementing driver.Valuer
 are passed as NULL

---
 value.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 74cb1f9..d45402e 100644
--- a/value.go
+++ b/value.go
@@ -40,10 +40,25 @@ func (valueErr valueError) Unwrap() error {
 	return valueErr.error
 }
 
+// isNil returns true if there is no driver.Valuer given or it is a nil pointer to a type having Value method itself.
+// Such a method could not be called, database/sql takes these pointers as NULL too.
+func isNil(valuer driver.Valuer) bool {
+	if valuer == nil {
+		return true
+	}
+
+	pointer := reflect.ValueOf(valuer)
+	if pointer.Kind() != reflect.Pointer || !pointer.IsNil() {
+		return false
+	}
+
+	return pointer.Type().Elem().Implements(reflect.TypeOf((*driver.Valuer)(nil)).Elem())
+}
+
 // translate returns database value of driver.Valuer, nil if there is no driver.Valuer given.
 // Panics if translation is failed.
 func translate(valuer driver.Valuer) any {
-	if valuer == nil {
+	if isNil(valuer) {
 		return nil
 	}
 
-- 
2.43.0


From b2fe35936f549fb7362ae129fb3d23235c468ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 15/16] fix: lists of values may contain nil ValueProvider
 elements

---
 value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index d45402e..e5feee5 100644
--- a/value.go
+++ b/value.go
@@ -101,7 +101,9 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			result[idx] = value.DatabaseValue()
+			if value != nil {
+				result[idx] = value.DatabaseValue()
+			}
 		}
 
 		return result
-- 
2.43.0


From 9f018f95078d94c1c14590b10dc21a4752df7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:25 +0000
Subject: [PATCH 16/16] fix: errors of failed conversions do not read fields of
 user values

Printing a value by %v reads its fields by reflection without asking the value. It is a data race if the value is used by
another goroutine and guards its state by a lock of its own.
---
 value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index e5feee5..1c08f1c 100644
--- a/value.go
+++ b/value.go
@@ -56,7 +56,8 @@ func isNil(valuer driver.Valuer) bool {
 }
 
 // translate returns database value of driver.Valuer, nil if there is no driver.Valuer given.
-// Panics if translation is failed.
+// Panics if translation is failed. The error names a type of the value only, as printing the value reads its fields
+// without asking it, which is a data race for values guarding them by own locks.
 func translate(valuer driver.Valuer) any {
 	if isNil(valuer) {
 		return nil
@@ -64,7 +65,7 @@ func translate(valuer driver.Valuer) any {
 
 	res, err := valuer.Value()
 	if err != nil {
-		panic(valueError{fmt.Errorf("%w: translate value %v(%T): %w", Error, valuer, valuer, err)})
+		panic(valueError{fmt.Errorf("%w: translate value of %T: %w", Error, valuer, err)})
 	}
 
 	return res
-- 
2.43.0

