package main

import (
	query "github.com/amarin/query"
	"github.com/amarin/query/zz_verif/simcall"
)

// scribble overwrites, reorders or extends the slices and maps an earlier call was given or returned.
func (c *taskCtx) scribble(s, target *slot) {
	list, which := target.args, 0
	if s.op.N[0] == 1 && len(target.res) > 0 || len(list) == 0 {
		list, which = target.res, 1
	}
	if len(list) > 0 {
		target.scribbled[which] = true
		c.fired("overwrite")
	}
	mode := s.op.N[1]
	junkCond := func() query.Condition { return query.EqualTo("junk", "junk") }
	for _, x := range list {
		switch v := x.(type) {
		case []query.Condition:
			scribbleSlice(mode, v, junkCond())
		case []query.FieldValue:
			scribbleSlice(mode, v, *query.NewFieldValue("junk", "junk"))
		case []query.FieldSorting:
			scribbleSlice(mode, v, query.ASC("junk"))
		case []query.FieldDefinition:
			scribbleSlice(mode, v, simcall.Field("junk"))
		case []query.FieldName:
			scribbleSlice(mode, v, query.FieldName("junk"))
		case []any:
			scribbleSlice(mode, v, any("junk"))
		case query.ValuesMap:
			for _, k := range sortedKeys(v) {
				if mode == 0 {
					delete(v, k)
				} else {
					v[k] = "junk"
				}
			}
			v["junk"] = "junk"
		}
	}
}

func scribbleSlice[T any](mode int, v []T, junk T) {
	switch mode {
	case 0: // overwrite
		for i := range v {
			v[i] = junk
		}
	case 1: // reorder
		for i, j := 0, len(v)-1; i < j; i, j = i+1, j-1 {
			v[i], v[j] = v[j], v[i]
		}
		if len(v) == 1 {
			v[0] = junk
		}
	}
	// append into whatever capacity is left
	for len(v) < cap(v) {
		v = append(v, junk)
	}
}
