package main

import (
	"strings"

	fmt "github.com/amarin/query/zz_verif/simfmt"
	"github.com/amarin/query/zz_verif/simrt"
)

// The oracles.

// checkObs judges one observation made by a caller while others run.
func checkObs(c *taskCtx, s, target *slot) {
	checkSeen(c, s, target, s.obs, s.err, s.pan)
}

// checkSeen judges what an observation gave, errs conversions having failed and pans callbacks having panicked.
func checkSeen(c *taskCtx, s, target *slot, o *Obs, errs, pans int) {
	w := c.w
	c.checks++
	if mark := c.foreign(o.Err + o.Panic); mark != "" && w.prog.Prop == "C05" {
		w.violate(s, "a call reports the failure %q, which did not happen in it\n  object: %s\n  observed by %s: %s", mark, target.op, s.op, o.text())
		return
	}
	if o.Panic != "" {
		switch {
		case o.Inj && pans > 0: // user code panicked, and the caller sees it
			return
		case errs > 0 && (o.Aspect != "build" || w.prog.Prop != "C04"): // no error result to report the failed conversion
			return
		case badLeaf(target.model) != "": // refused
			return
		}
		w.violate(s, "%s of the result of %s panicked: %s", s.op, target.op, o.Panic)
		return
	}
	if pans > 0 {
		if w.prog.Prop == "C04" && o.Aspect != "acc" && !o.Failed {
			w.violate(s, "user code of a value panicked, yet %s of the result of %s went on: %s", s.op, target.op, o.text())
		}
		return // user code panicked and the package made something of it
	}
	if errs == 0 && sameAsBefore(w.prog.Prop) {
		if want, ok := target.fp[fpKey(o.Aspect, o.Start)]; ok && want != o.text() {
			w.violate(s, "the result of %s changed\n  was: %s\n  now: %s", target.op, want, o.text())
			return
		}
	}
	if why := judge(c, target, o, errs); why != "" {
		w.violate(s, "%s\n  object: %s\n  observed by %s: %s", why, target.op, s.op, o.text())
	}
}

func sameAsBefore(prop string) bool {
	switch prop {
	case "C01", "C05", "C07":
		return true
	}
	return false
}

// checkRetry judges a repeated observation after the fault is gone.
func checkRetry(c *taskCtx, s, target *slot) {
	c.checks++
	o := s.retry
	if c.w.prog.Prop == "C19" {
		if why := judge(c, target, o, 0); why != "" {
			c.w.violate(s, "after a failed attempt: %s\n  object: %s\n  repeated: %s", why, target.op, o.text())
		}
		return
	}
	if want, ok := target.fp[fpKey(o.Aspect, o.Start)]; ok && want != o.text() {
		c.w.violate(s, "after a failed attempt the result of %s gives something else\n  was: %s\n  now: %s", target.op, want, o.text())
	} else if !ok && o.Panic != "" {
		c.w.violate(s, "after a failed attempt the result of %s panics: %s", target.op, o.Panic)
	}
}

// checkFinal judges an object after everything is over.
func checkFinal(c *taskCtx, s *slot, fp map[string]string) {
	w := c.w
	c.checks++
	if sameAsBefore(w.prog.Prop) {
		for _, k := range sortedKeys(s.fp) {
			if s.fp[k] != fp[k] {
				w.violate(s, "the result of %s changed\n  was: %s\n  now: %s", s.op, s.fp[k], fp[k])
				return
			}
		}
	}
	switch w.prog.Prop {
	case "C02", "C03", "C04", "C08", "C09", "C14", "C19":
		for _, a := range aspectsOf(s.kind) {
			st := 0
			if a == "render" {
				st = 2
			}
			c.begin()
			o := observe(s.kind, a, st, s.obj)
			if simrt.Dying() {
				return
			}
			if o.Panic != "" && badLeaf(s.model) != "" {
				continue
			}
			if o.Panic != "" {
				w.violate(s, "%s of the result of %s panicked: %s", a, s.op, o.Panic)
				return
			}
			if why := judge(c, s, o, 0); why != "" {
				w.violate(s, "%s\n  object: %s\n  observed at the end: %s", why, s.op, o.text())
				return
			}
		}
	}
	s.fpEnd = fp
}

// checkHanded judges, once everything is over, what calls handed out: it stays as it was handed out.
func checkHanded(c *taskCtx, s *slot) {
	if !sameAsBefore(c.w.prog.Prop) {
		return
	}
	for _, h := range s.handed {
		which := 1
		if h.arg {
			which = 0
		}
		if h.mine && s.scribbled[which] {
			continue
		}
		c.checks++
		if now := h.now(c); now != h.was {
			c.w.violate(s, "what %s %s changed afterwards\n  was: %s\n  now: %s", s.op, []string{"was given", "handed out"}[which], h.was, now)
			return
		}
	}
}

// judge compares an observation with what the object's derivation denotes.
func judge(c *taskCtx, target *slot, o *Obs, errs int) string {
	if unfinished(target.kind) { // what it is once it is finished
		m := target.model.(MSelect)
		m.Joins = addJoin(m.Joins)
		m.Joins[len(m.Joins)-1].L, m.Joins[len(m.Joins)-1].R = parseField(finishedBy[0]), parseField(finishedBy[1])
		target = &slot{op: target.op, kind: target.kind[1:], model: m}
	}
	switch c.w.prog.Prop {
	case "C02":
		return judgeClauses(target, o)
	case "C03":
		return judgeParams(target, o)
	case "C04":
		return judgeConversion(target, o, errs)
	case "C08":
		return judgeLogic(c, target, o)
	case "C14":
		return judgeReports(target, o)
	case "C09":
		return judgeGuard(target, o)
	case "C19":
		return judgeFresh(c, target, o)
	}
	return ""
}

func refusal(m any) string {
	if w, ok := m.(MWrite); ok {
		return w.refused()
	}
	return ""
}

func badColumn(m any) string {
	if w, ok := m.(MWrite); ok {
		return w.badColumn()
	}
	return ""
}

// parseObs parses the text of an observation.
func parseObs(o *Obs, sql string) (*Stmt, error) {
	if o.IsStmt {
		return parseStmt(sql)
	}
	return parseCond(sql)
}

func diff(what, want, got string) string {
	if want == got {
		return ""
	}
	return fmt.Sprintf("%s: expected %q, found %q", what, want, got)
}

// judgeClauses: C02.
func judgeClauses(t *slot, o *Obs) string {
	if o.Aspect == "acc" {
		return judgeAccess(t, o)
	}
	if t.kind == "lim" {
		return judgeLimiter(t.model.(MLim), o)
	}
	if refusal(t.model) != "" || badColumn(t.model) != "" {
		return ""
	}
	if o.Failed {
		return "a valid derivation is refused: " + o.Err
	}
	for i, sql := range []string{o.SQL, o.Alt} {
		if i == 1 && !o.HasAlt {
			continue
		}
		st, err := parseObs(o, sql)
		if err != nil {
			return "the text is no statement: " + err.Error()
		}
		if why := clauses(t, o, st); why != "" {
			return why
		}
	}
	st, _ := parseObs(o, o.SQL)
	return attribute(t.model, o, st)
}

func clauses(t *slot, o *Obs, st *Stmt) string {
	join := func(x []string) string { return strings.Join(x, ", ") }
	var where *MExpr
	switch m := t.model.(type) {
	case MCond:
		where = m.expr()
	case MCount:
		where = m.Sel.Where.expr()
		if d := diff("verb", "COUNT", st.Verb); d != "" {
			return d
		}
		if d := diff("counted field", m.Field, st.Count); d != "" {
			return d
		}
		if d := diff("table", m.Sel.Tab.from(), st.Table); d != "" {
			return d
		}
		if d := diff("joins", joinsText(m.Sel.Joins), join(st.Joins)); d != "" {
			return d
		}
	case MSelect:
		where = m.Where.expr()
		if d := diff("verb", "SELECT", st.Verb); d != "" {
			return d
		}
		if d := diff("fields", m.fieldList(), join(st.Fields)); d != "" {
			return d
		}
		if d := diff("table", m.Tab.from(), st.Table); d != "" {
			return d
		}
		if d := diff("joins", joinsText(m.Joins), join(st.Joins)); d != "" {
			return d
		}
		if t.kind == "many" && o.Aspect == "render" {
			break // ordering and pagination are not part of this rendering
		}
		var order []string
		if t.kind == "many" {
			for _, s := range m.Order {
				order = append(order, s.String())
			}
		}
		if d := diff("ordering", join(order), join(st.Order)); d != "" {
			return d
		}
		if (st.Offset >= 0) != (t.kind == "many" && m.Offset > 0) {
			return "offset lost or invented"
		}
		if (st.Limit >= 0) != (t.kind == "many" && m.Limit > 0) {
			return "limit lost or invented"
		}
		lim := 0
		if t.kind == "single" && o.Aspect == "build" {
			lim = 1
		}
		if st.LimitN != lim {
			return fmt.Sprintf("literal limit: expected %d, found %d", lim, st.LimitN)
		}
	case MWrite:
		if m.Verb != "INSERT" {
			where = m.Where.expr()
		}
		if d := diff("verb", m.Verb, st.Verb); d != "" {
			return d
		}
		if d := diff("table", m.Tab, st.Table); d != "" {
			return d
		}
		var cols []string
		for _, v := range m.Vals {
			cols = append(cols, v.F.Name)
		}
		if d := diff("columns", join(cols), join(st.Cols)); d != "" {
			return d
		}
	default:
		return ""
	}
	return diff("conditions", modelLeaves(where), parsedLeaves(st.Where))
}

func joinsText(js []MJoin) string {
	var r []string
	for _, j := range js {
		r = append(r, j.String())
	}
	return strings.Join(r, ", ")
}

func modelLeaves(e *MExpr) string {
	var r []string
	for _, l := range e.leaves(false, nil) {
		n := ""
		if l.Neg {
			n = "NOT "
		}
		r = append(r, n+l.L.F.spec()+" "+l.L.Op)
	}
	return strings.Join(r, "; ")
}

func parsedLeaves(e *PExpr) string {
	var r []string
	for _, l := range e.leaves(false, nil) {
		n := ""
		if l.Neg {
			n = "NOT "
		}
		r = append(r, n+l.L.Field+" "+l.L.Op)
	}
	return strings.Join(r, "; ")
}

func (o *Obs) acc(k string) (string, bool) {
	for _, kv := range o.Acc {
		if kv.K == k {
			return kv.V, true
		}
	}
	return "", false
}

func judgeAccess(t *slot, o *Obs) string {
	want := map[string]string{}
	switch m := t.model.(type) {
	case MSelect:
		want["from"], want["table"] = m.from(), m.Tab.Name
		want["fields"], want["fieldlist"] = fieldList(m.Fields), m.fieldList()
	case MCount:
		want["from"] = m.Sel.from()
	case MWrite:
		want["table"] = m.Tab
		if m.badColumn() == "" {
			want["setvalues"] = fvsModel(m.Vals)
		}
	case []MField:
		want["fields"] = fieldList(m)
		want["len"] = fmt.Sprint(len(m))
	case MField:
		want["spec"], want["name"], want["table"] = m.spec(), m.Name, m.Table
	case MTable:
		want["from"] = m.from()
	case MSort:
		want["render"] = m.String()
	case MFV:
		want["name"], want["table"] = m.F.Name, m.F.Table
	case MJC:
		want["render"] = m.L.full() + "=" + m.R.full()
	case MJoin:
		want["from"] = m.String()
		want["type"] = m.Type
	}
	return o.reports(want)
}

// reports compares what accessors tell with what they should.
func (o *Obs) reports(want map[string]string) string {
	for _, k := range sortedKeys(want) {
		if got, ok := o.acc(k); ok {
			if d := diff("accessor "+k, want[k], got); d != "" {
				return d
			}
		}
	}
	return ""
}

func fieldsString(fs []MField) string {
	r := make([]string, len(fs))
	for i, f := range fs {
		r[i] = f.spec()
	}
	return "Fields(" + strings.Join(r, ",") + ")"
}

// tellsConditions compares conditions given with those in a text.
func tellsConditions(e *MExpr, text string) string {
	if e == nil {
		if text != "" {
			return fmt.Sprintf("tells %q, but there are no conditions", text)
		}
		return ""
	}
	st, err := parseCond(text)
	if err != nil {
		return "tells of conditions which are none: " + err.Error()
	}
	return diff("conditions told", modelLeaves(e), parsedLeaves(st.Where))
}

// judgeReports: C14, what objects tell about themselves.
func judgeReports(t *slot, o *Obs) string {
	if o.Aspect != "acc" {
		return ""
	}
	if why := judgeAccess(t, o); why != "" {
		return why
	}
	want := map[string]string{}
	switch m := t.model.(type) {
	case MSelect:
		want["op"] = "SELECT"
		str, _ := o.acc("string")
		for _, part := range []string{"(" + m.from() + ")", fieldsString(m.Fields)} {
			if !strings.Contains(str, part) {
				return fmt.Sprintf("accessor string: %q does not tell %q", str, part)
			}
		}
		if _, list, ok := strings.Cut(str, ",Where("); ok {
			if why := tellsConditions(m.Where.expr(), strings.TrimSuffix(list, ")")); why != "" {
				return "accessor string: " + why
			}
		}
	case MWrite:
		want["op"], want["from"] = m.Verb, m.Tab
	case []MField:
		want["string"] = fieldsString(m)
		want["fieldlist"] = MSelect{Fields: m}.fieldList()
	case MField:
		want["alias"], want["field"], want["full"], want["tfn"] = m.Alias, m.order(), m.full(), m.full()
	case MTable:
		want["table"], want["alias"] = m.Name, m.Alias
	case MSort:
		want["dir"] = m.Dir
		want["spec"], want["name"], want["table"], want["alias"] = m.F.spec(), m.F.Name, m.F.Table, m.F.Alias
	case MFV:
		want["spec"], want["alias"] = m.F.spec(), m.F.Alias
		var ps []any
		for i := 0; i < m.Val.Count(); i++ {
			ps = append(ps, m.Val.scalar(i))
		}
		want["values"] = paramText(ps)
	case MJoin:
		want["on"] = m.L.full() + "=" + m.R.full()
	case MCond:
		if t.kind == "where" {
			if str, ok := o.acc("string"); ok {
				if why := tellsConditions(m.expr(), strings.TrimSuffix(strings.TrimPrefix(str, "Where("), ")")); why != "" {
					return "accessor string: " + why
				}
			}
			var leaves []string
			for _, s := range o.conds {
				st, err := parseCond(s)
				if err != nil {
					return "a reported condition is none: " + err.Error()
				}
				for _, l := range st.Where.leaves(false, nil) {
					leaves = append(leaves, bare(l.L.Field)+" "+l.L.Op)
				}
			}
			var given []string
			for _, l := range m.expr().leaves(false, nil) {
				given = append(given, l.L.F.Name+" "+l.L.Op)
			}
			return diff("reported conditions", strings.Join(given, "; "), strings.Join(leaves, "; "))
		}
		want["neg"], want["rendernot"], want["firstjoin"] = fmt.Sprint(m.Neg), "", ""
		if m.Neg {
			want["rendernot"] = "NOT"
		}
		want["renderjoin"], _ = o.acc("join")
		if m.Ext != "?" {
			want["renderjoin"], want["join"] = m.Ext, m.Ext
		}
		if n, _ := o.acc("name"); n != "" || t.op.K == "leaf" {
			want["name"] = ""
			if m.Core != nil && m.Core.Op == "leaf" {
				want["name"] = m.Core.L.F.Name
			}
		}
	}
	return o.reports(want)
}

func fvsModel(vs []MFV) string {
	var r []string
	for _, v := range vs {
		var ps []any
		for i := 0; i < v.Val.Count(); i++ {
			ps = append(ps, v.Val.scalar(i))
		}
		r = append(r, v.F.spec()+"="+paramText(ps))
	}
	return strings.Join(r, ", ")
}

func judgeLimiter(m MLim, o *Obs) string {
	want := ""
	n := o.Start
	var ps []any
	alt := ""
	add := func(kw string, v uint) {
		if v > 0 {
			n++
			if want != "" {
				want, alt = want+" ", alt+" "
			}
			want += kw + fmt.Sprintf(" $%d", n)
			alt += kw + " ?"
			ps = append(ps, v)
		}
	}
	add("OFFSET", m.Offset)
	add("LIMIT", m.Limit)
	if d := diff("limiter", want, o.SQL); d != "" {
		return d
	}
	if d := diff("limiter", alt, o.Alt); d != "" {
		return d
	}
	return diff("limiter parameters", paramText(ps), paramText(o.Params))
}

// judgeParams: C03.
func judgeParams(t *slot, o *Obs) string {
	if o.Aspect == "acc" || o.Failed {
		return ""
	}
	if t.kind == "lim" {
		return judgeLimiter(t.model.(MLim), o)
	}
	phs, err := placeholders(o.SQL)
	if err != nil {
		if strings.Contains(err.Error(), badPlaceholder) {
			return "the text has a placeholder without a number: " + err.Error()
		}
		return "" // not about placeholders
	}
	for i, p := range phs {
		if p.n != o.Start+i+1 {
			return fmt.Sprintf("placeholder %d of the text is %s instead of $%d", i+1, p.s, o.Start+i+1)
		}
	}
	if len(phs) != len(o.Params) {
		return fmt.Sprintf("%d placeholders but %d parameters", len(phs), len(o.Params))
	}
	if o.HasAlt {
		if a, b := shape(o.SQL), shape(o.Alt); a != b {
			return fmt.Sprintf("the two forms differ: %q and %q", a, b)
		}
	}
	st, err := parseObs(o, o.SQL)
	if err != nil {
		return ""
	}
	return attribute(t.model, o, st)
}

// attribute checks that every placeholder carries the value given to its clause.
func attribute(model any, o *Obs, st *Stmt) string {
	if len(st.Phs) != len(o.Params) {
		return fmt.Sprintf("%d placeholders but %d parameters", len(st.Phs), len(o.Params))
	}
	var cols, conds []given
	switch m := model.(type) {
	case MWrite:
		for _, v := range m.Vals {
			cols = append(cols, given{v.F.Name, "=", v.Val})
		}
	}
	if e, ok := whereOfModel(model); ok {
		for _, l := range e.leaves(false, nil) {
			conds = append(conds, given{l.L.F.Name, l.L.Op, l.L.Val})
		}
	}
	check := func(from []given, at int, col, op string, phs []int) string {
		var cand []given
		if at < len(from) && from[at].name == bare(col) && from[at].op == op {
			cand = from[at : at+1]
		} else { // somewhere else: that is about clauses, here only the parameters count
			for _, v := range from {
				if v.name == bare(col) && v.op == op {
					cand = append(cand, v)
				}
			}
		}
		if len(cand) == 0 {
			return fmt.Sprintf("%s %s was never given", col, op)
		}
		why := ""
		for _, v := range cand {
			if why = v.carries(o, st, col, phs); why == "" {
				break
			}
		}
		return why
	}
	for i, c := range st.Cols {
		if why := check(cols, i, c, "=", st.ColPhs[i:i+1]); why != "" {
			return why
		}
	}
	for i, l := range st.Where.leaves(false, nil) {
		if why := check(conds, i, l.L.Field, l.L.Op, l.L.Phs); why != "" {
			return why
		}
	}
	if m, ok := model.(MSelect); ok {
		if st.Offset >= 0 {
			if p := o.Params[st.Phs[st.Offset].n-1-o.Start]; fmt.Sprint(p) != fmt.Sprint(m.Offset) {
				return fmt.Sprintf("offset parameter is %v instead of %d", p, m.Offset)
			}
		}
		if st.Limit >= 0 {
			if p := o.Params[st.Phs[st.Limit].n-1-o.Start]; fmt.Sprint(p) != fmt.Sprint(m.Limit) {
				return fmt.Sprintf("limit parameter is %v instead of %d", p, m.Limit)
			}
		}
	}
	return ""
}

// given is a column or condition as the caller gave it.
type given struct {
	name, op string
	val      Val
}

// carries tells whether the placeholders stand for the parameters of the value.
func (v given) carries(o *Obs, st *Stmt, col string, phs []int) string {
	want := v.val.Count()
	if v.op == "NULL" {
		want = 0
	}
	if len(phs) != want {
		return fmt.Sprintf("%s of column %s has %d parameters instead of %d", v.op, col, len(phs), want)
	}
	for i, ph := range phs {
		n := st.Phs[ph].n - 1 - o.Start
		if n < 0 || n >= len(o.Params) {
			return fmt.Sprintf("placeholder %s has no parameter", st.Phs[ph].s)
		}
		if !v.val.matches(v.op, i, o.Params[n]) {
			return fmt.Sprintf("%s of column %s stands for parameter %T:%v instead of element %d of value %s", st.Phs[ph].s, col, o.Params[n], o.Params[n], i, v.val)
		}
	}
	return ""
}

// judgeConversion: C04.
func judgeConversion(t *slot, o *Obs, errs int) string {
	bad := badColumn(t.model)
	if o.Aspect == "build" {
		switch {
		case errs > 0 && !o.Failed:
			return "a value failed to convert, yet the build succeeded"
		case errs > 0 && o.SQL != "":
			return "a value failed to convert, yet a statement is handed out together with the error"
		case errs > 0:
			return ""
		case bad != "" && refusal(t.model) == "" && !o.Failed:
			return "column " + bad + " has not exactly one value, yet the build succeeded"
		case bad != "" || refusal(t.model) != "":
			return ""
		case o.Failed:
			return "no value failed to convert, yet the build failed: " + o.Err
		}
	} else if errs > 0 {
		return "a value failed to convert, yet rendering went on"
	}
	if o.Aspect == "acc" || t.kind == "lim" || bad != "" {
		return ""
	}
	st, err := parseObs(o, o.SQL)
	if err != nil {
		return ""
	}
	return attribute(t.model, o, st)
}

// judgeGuard: C09.
func judgeGuard(t *slot, o *Obs) string {
	m, ok := t.model.(MWrite)
	if !ok || o.Aspect != "build" {
		return ""
	}
	if why := m.refused(); why != "" {
		if !o.Failed {
			return m.Verb + " with " + why + " was built"
		}
		if o.SQL != "" {
			return m.Verb + " with " + why + " was refused, but a statement was handed out"
		}
		return ""
	}
	if o.Failed || m.Verb == "INSERT" {
		return ""
	}
	return guarded(m, o.SQL)
}

// guarded tells whether every condition given is in the statement.
func guarded(m MWrite, sql string) string {
	st, err := parseStmt(sql)
	if err != nil {
		return "the statement handed out is none: " + err.Error()
	}
	if st.Where == nil {
		return m.Verb + " without conditions"
	}
	have := map[string]int{}
	for _, l := range st.Where.leaves(false, nil) {
		have[l.L.Field+" "+l.L.Op]++
	}
	given := map[string]map[int]bool{} // different values compared
	for _, l := range m.Where.expr().leaves(false, nil) {
		k := l.L.F.spec() + " " + l.L.Op
		if given[k] == nil {
			given[k] = map[int]bool{}
		}
		given[k][l.L.Val.ID] = true
		if l.L.Op == "NULL" {
			given[k] = map[int]bool{0: true}
		}
		if have[k] < len(given[k]) {
			return fmt.Sprintf("condition on %s is missing from the statement", l.L.F.spec())
		}
	}
	return ""
}

// three-valued logic
const (
	vF = iota
	vN
	vT
)

func not3(x int) int { return vT - x }

func (e *MExpr) eval(leaf func(*MLeaf) int) int {
	if e == nil {
		return vT
	}
	switch e.Op {
	case "leaf":
		return leaf(e.L)
	case "not":
		return not3(e.Kids[0].eval(leaf))
	case "and":
		r := vT
		for _, k := range e.Kids {
			if x := k.eval(leaf); x < r {
				r = x
			}
		}
		return r
	}
	r := vF
	for _, k := range e.Kids {
		if x := k.eval(leaf); x > r {
			r = x
		}
	}
	return r
}

func (e *PExpr) eval(leaf func(*PLeaf) int) int {
	if e == nil {
		return vT
	}
	switch e.Op {
	case "leaf":
		v := leaf(e.L)
		if e.L.Neg {
			v = not3(v)
		}
		return v
	case "not":
		return not3(e.Kids[0].eval(leaf))
	case "and":
		r := vT
		for _, k := range e.Kids {
			if x := k.eval(leaf); x < r {
				r = x
			}
		}
		return r
	}
	r := vF
	for _, k := range e.Kids {
		if x := k.eval(leaf); x > r {
			r = x
		}
	}
	return r
}

func whereOfModel(m any) (*MExpr, bool) {
	switch x := m.(type) {
	case MCond:
		return x.expr(), true
	case MSelect:
		return x.Where.expr(), true
	case MCount:
		return x.Sel.Where.expr(), true
	case MWrite:
		if x.Verb != "INSERT" {
			return x.Where.expr(), true
		}
	}
	return nil, false
}

func bare(field string) string { return field[strings.LastIndexByte(field, '.')+1:] }

// judgeLogic: C08.
func judgeLogic(c *taskCtx, t *slot, o *Obs) string {
	want, ok := whereOfModel(t.model)
	if !ok || o.Aspect == "acc" || refusal(t.model) != "" {
		return ""
	}
	if o.Failed {
		return "a valid derivation is refused: " + o.Err
	}
	for i, sql := range []string{o.SQL, o.Alt} {
		if i == 1 && !o.HasAlt {
			continue
		}
		st, err := parseObs(o, sql)
		if err != nil {
			return "the text is no statement: " + err.Error()
		}
		if why := equivalent(c.w.prog.Seed, want, st.Where); why != "" {
			return why
		}
	}
	return ""
}

// tree is an expression, whoever wrote it.
type tree struct {
	op   string
	leaf int
	kids []*tree
}

func (e *MExpr) tree(idx map[string]int) *tree {
	if e == nil {
		return nil
	}
	t := &tree{op: e.Op}
	if e.Op == "leaf" {
		t.leaf = idx[e.L.F.Name+" "+e.L.Op]
	}
	for _, k := range e.Kids {
		t.kids = append(t.kids, k.tree(idx))
	}
	return t
}

func (e *PExpr) tree(idx map[string]int) *tree {
	if e == nil {
		return nil
	}
	t := &tree{op: e.Op}
	if e.Op == "leaf" {
		t.leaf = idx[bare(e.L.Field)+" "+e.L.Op]
		if e.L.Neg {
			return &tree{op: "not", kids: []*tree{t}}
		}
	}
	for _, k := range e.Kids {
		t.kids = append(t.kids, k.tree(idx))
	}
	return t
}

// set chooses the truth of the leaves so that the expression is v.
func (t *tree) set(vals []int, v int) {
	switch t.op {
	case "leaf":
		vals[t.leaf] = v
		return
	case "not":
		v = not3(v)
	}
	for _, k := range t.kids {
		k.set(vals, v)
	}
}

// decide chooses the truth of the leaves so that one of them, chosen at random, decides.
func (t *tree) decide(r *simrt.Rng, vals []int) {
	for t.op != "leaf" && len(t.kids) > 0 {
		at := r.Intn(len(t.kids))
		if len(t.kids) > 1 { // deep down rather than at once
			if next := r.Intn(len(t.kids)); t.kids[at].op == "leaf" && r.Intn(4) > 0 {
				at = next
			}
		}
		for i, k := range t.kids {
			if i != at {
				k.set(vals, map[string]int{"and": vT, "or": vF}[t.op])
			}
		}
		t = t.kids[at]
	}
	if t.op == "leaf" {
		vals[t.leaf] = []int{vF, vT, vT, vF, vN}[r.Intn(5)]
	}
}

func equivalent(seed uint64, want *MExpr, got *PExpr) string {
	if want == nil && got == nil {
		return ""
	}
	idx := map[string]int{}
	for _, l := range want.leaves(false, nil) {
		if _, ok := idx[l.L.F.Name+" "+l.L.Op]; !ok {
			idx[l.L.F.Name+" "+l.L.Op] = len(idx)
		}
	}
	for _, l := range got.leaves(false, nil) {
		if _, ok := idx[bare(l.L.Field)+" "+l.L.Op]; !ok {
			return fmt.Sprintf("condition %s %s was never given", l.L.Field, l.L.Op)
		}
	}
	n := len(idx)
	try := func(val func(i int) int) string {
		a := want.eval(func(l *MLeaf) int { return val(idx[l.F.Name+" "+l.Op]) })
		b := got.eval(func(l *PLeaf) int { return val(idx[bare(l.Field)+" "+l.Op]) })
		if (a == vT) == (b == vT) {
			return ""
		}
		var as []string
		for _, k := range sortedKeys(idx) {
			as = append(as, k+":"+[]string{"false", "unknown", "true"}[val(idx[k])])
		}
		return fmt.Sprintf("the condition selects other rows: with %s it gives %s, denoted is %s by %s", strings.Join(as, ", "),
			[]string{"false", "unknown", "true"}[b], []string{"false", "unknown", "true"}[a], want)
	}
	if n <= 7 {
		for m := 0; m < 1<<n; m++ {
			if why := try(func(i int) int { return m >> i & 1 * 2 }); why != "" {
				return why
			}
		}
	}
	r := simrt.NewRng(seed, "truth")
	if n > 7 { // everything else being such that the truth of one condition decides
		trees := [2]*tree{want.tree(idx), got.tree(idx)}
		vals := make([]int, n)
		for k := 0; k < min(4*n, 200); k++ {
			if t := trees[k%2]; t != nil {
				t.decide(r, vals)
				if why := try(func(i int) int { return vals[i] }); why != "" {
					return why
				}
			}
		}
	}
	for k := 0; k < 40+2*n; k++ {
		bias := []int{1, 2, 3}[k%3]
		vals := make([]int, n)
		for i := range vals {
			switch {
			case k < 2*n && k/2 == i:
				vals[i] = []int{vF, vT}[k%2]
			case k < 2*n:
				vals[i] = []int{vT, vF}[k%2]
			case r.Intn(4) < bias:
				vals[i] = vT
			case r.Intn(5) == 0:
				vals[i] = vN
			}
		}
		if why := try(func(i int) int { return vals[i] }); why != "" {
			return why
		}
	}
	return ""
}

// sizeOf is how much went into the result of an operation: everything it was derived from, names, values and calls.
func sizeOf(op *Op, ins []*slot) int {
	n := 1 + len(op.S)
	for _, v := range op.V {
		n += v.Count()
	}
	for _, s := range ins {
		n += s.size
	}
	if n > 1<<20 {
		n = 1 << 20
	}
	return n
}

// steps is the number of statements the caller has executed.
func (c *taskCtx) steps() int {
	if t := simrt.Cur(); t != nil {
		return t.Steps() - c.inner
	}
	return 0
}

// effort judges the number of statements a call took: C16.
func (c *taskCtx) effort(s *slot, size, from int) {
	if c.w.prog.Prop != "C16" {
		return
	}
	c.checks++
	n := c.steps() - from
	if most := 3000 + 500*size + 12*size*size; n > most {
		c.w.violate(s, "a call took %d steps for something of size %d; it should take at most %d", n, size, most)
	}
}
