// Package simcall calls the generic functions of the package under test from code the race detector sees.
//
// A generic function is compiled into the packages that instantiate it. The harness is invisible to the race detector, so
// an instantiation made there would be invisible as well.
package simcall

import (
	"fmt"

	query "github.com/amarin/query"
)

func bad(x any) string { return fmt.Sprintf("harness: %T", x) }

// Field calls query.Field.
//
//go:noinline
func Field(x any) query.FieldDefinition {
	switch v := x.(type) {
	case string:
		return query.Field(v)
	case query.FieldName:
		return query.Field(v)
	case query.FieldDefinition:
		return query.Field(v)
	}
	panic(bad(x))
}

// FieldOrError calls query.FieldOrError.
//
//go:noinline
func FieldOrError(x any) (*query.FieldDefinition, error) {
	switch v := x.(type) {
	case string:
		return query.FieldOrError(v)
	case query.FieldName:
		return query.FieldOrError(v)
	case query.FieldDefinition:
		return query.FieldOrError(v)
	}
	panic(bad(x))
}

// Table calls query.Table.
//
//go:noinline
func Table(x any) query.TableIdent {
	switch v := x.(type) {
	case string:
		return query.Table(v)
	case query.TableName:
		return query.Table(v)
	case query.TableIdent:
		return query.Table(v)
	}
	panic(bad(x))
}

// TableOrError calls query.TableOrError.
//
//go:noinline
func TableOrError(x any) (*query.TableIdent, error) {
	switch v := x.(type) {
	case string:
		return query.TableOrError(v)
	case query.TableName:
		return query.TableOrError(v)
	case query.TableIdent:
		return query.TableOrError(v)
	}
	panic(bad(x))
}

// SelectFrom calls query.SelectFrom.
//
//go:noinline
func SelectFrom(x any) query.BaseSelectBuilder {
	switch v := x.(type) {
	case string:
		return query.SelectFrom(v)
	case query.TableName:
		return query.SelectFrom(v)
	case query.TableIdent:
		return query.SelectFrom(v)
	}
	panic(bad(x))
}

// SelectManyFrom calls query.SelectManyFrom.
//
//go:noinline
func SelectManyFrom(x any) query.SelectManyBuilder {
	switch v := x.(type) {
	case string:
		return query.SelectManyFrom(v)
	case query.TableName:
		return query.SelectManyFrom(v)
	case query.TableIdent:
		return query.SelectManyFrom(v)
	}
	panic(bad(x))
}

// SelectSingleFrom calls query.SelectSingleFrom.
//
//go:noinline
func SelectSingleFrom(x any) query.SelectSingleBuilder {
	switch v := x.(type) {
	case string:
		return query.SelectSingleFrom(v)
	case query.TableName:
		return query.SelectSingleFrom(v)
	case query.TableIdent:
		return query.SelectSingleFrom(v)
	}
	panic(bad(x))
}

// InsertInto calls query.InsertInto.
//
//go:noinline
func InsertInto(x any) query.InsertBuilder {
	switch v := x.(type) {
	case string:
		return query.InsertInto(v)
	case query.TableName:
		return query.InsertInto(v)
	case query.TableIdent:
		return query.InsertInto(v)
	}
	panic(bad(x))
}

// Update calls query.Update.
//
//go:noinline
func Update(x any) query.UpdateBuilder {
	switch v := x.(type) {
	case string:
		return query.Update(v)
	case query.TableName:
		return query.Update(v)
	case query.TableIdent:
		return query.Update(v)
	}
	panic(bad(x))
}

// Delete calls query.Delete.
//
//go:noinline
func Delete(x any) query.DeleteBuilder {
	switch v := x.(type) {
	case string:
		return query.Delete(v)
	case query.TableName:
		return query.Delete(v)
	case query.TableIdent:
		return query.Delete(v)
	}
	panic(bad(x))
}
