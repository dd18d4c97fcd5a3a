// Package simtouch reads what a call returned the way a caller would. It is the one part of the harness that the race
// detector sees.
package simtouch

import "reflect"

// Slice reads every element of a returned slice.
func Slice(v any) {
	if v == nil {
		return
	}
	if xs, ok := v.([]any); ok {
		for _, x := range xs {
			if x == nil {
				use()
			}
		}
		return
	}
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Slice {
		return
	}
	for i := 0; i < r.Len(); i++ {
		if r.Index(i).Interface() == nil {
			use()
		}
	}
}

//go:noinline
func use() {}
