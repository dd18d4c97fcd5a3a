// Package simuser holds values of the user that have a state of their own, guarded by a lock of their own. The race
// detector sees it: whoever reads such a value without asking it races with the callers that ask it.
package simuser

import (
	"database/sql/driver"
	"sync"
)

// Ask answers for the values.
var Ask func(key string, id int) (any, error)

// State counts how often it was asked.
type State struct {
	Key   string
	ID    int
	mu    sync.Mutex
	asked int
}

// Value implements driver.Valuer.
func (s *State) Value() (driver.Value, error) {
	s.mu.Lock()
	s.asked++
	s.mu.Unlock()
	return Ask(s.Key, s.ID)
}
