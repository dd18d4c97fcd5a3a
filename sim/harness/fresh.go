package main

import (
	"regexp"
	"strconv"
	"strings"

	fmt "github.com/amarin/query/zz_verif/simfmt"
)

// C19: values are asked for by the call that needs them, each time anew.

// begin starts the window in which user code is expected to run.
func (c *taskCtx) begin() { c.asked, c.uq0, c.failures0 = c.asked[:0], c.uq, c.failures }

// unasked judges a constructing or deriving call: user code does not run.
func (c *taskCtx) unasked(s *slot) {
	if c.w.prog.Prop == "C19" && len(c.asked) > 0 {
		c.w.violate(s, "%s asks the value #%d for its database value although nothing is rendered or built", s.op, c.asked[0])
	}
}

// named tells whether an accessor has to do with names only.
func named(kind string) bool {
	switch kind {
	case "base", "many", "single", "ins", "upd", "where", "fv":
		return false
	}
	return true
}

// judgeFresh judges an observation.
func judgeFresh(c *taskCtx, t *slot, o *Obs) string {
	if c.elsewhere != 0 {
		return fmt.Sprintf("asks value #%d on a goroutine of its own", c.elsewhere)
	}
	given := map[int]Val{}
	for _, v := range valsOf(t.model) {
		given[v.Val.ID] = v.Val
	}
	for _, id := range c.asked {
		if _, ok := given[id]; !ok {
			return fmt.Sprintf("asks value #%d, which is no part of it", id)
		}
		if o.Aspect == "acc" && named(t.kind) {
			return fmt.Sprintf("asks value #%d to tell names", id)
		}
	}
	if !o.ok() {
		return ""
	}
	for i, p := range o.Params {
		text, ok := p.(string)
		if !ok {
			continue
		}
		name, call, anew := strings.Cut(text, "#")
		m := textOf.FindStringSubmatch(name)
		if m == nil {
			continue
		}
		id, _ := strconv.Atoi(m[1])
		if !given[id].callback() {
			continue
		}
		n, _ := strconv.Atoi(call)
		n -= c.t * 100000
		if !anew || n <= c.uq0 || n > c.uq {
			return fmt.Sprintf("parameter %d is %q, which value #%d did not give during this call", i+1, text, id)
		}
	}
	return ""
}

// textOf tells which value a text belongs to.
var textOf = regexp.MustCompile(`v(\d+)`)
