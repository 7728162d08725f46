package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Rule string
	Pos  string
	Fn   string
	Msg  string
	Path []string
}

// Ctx collects what one check analysed and what it found.
type Ctx struct {
	P        *Program
	ID       string
	Findings []Finding
	Oblig    int
	OK       int
	Funcs    map[string]bool
	Traces   int
	Sites    map[string]bool
	Samples  []string
	Rules    map[string]int
	Notes    []string
	seen     map[string]bool
	memoRuns map[string][]*entryRun
	// entries: the parts of the entries of the download index (C48)
	entries []map[string]bool
	// sharedLoads: loads of captured variables are events
	sharedLoads bool
	cfgMemo     map[*Term][]cfgUse
	// partials: operations that can fail are events
	partials bool
}

func newCtx(p *Program, id string) *Ctx {
	return &Ctx{P: p, ID: id, Funcs: map[string]bool{}, Sites: map[string]bool{}, Rules: map[string]int{}, seen: map[string]bool{}, memoRuns: map[string][]*entryRun{}}
}

// need is one proof obligation: it is discharged or becomes a finding.
func (c *Ctx) need(ok bool, rule string, at token.Pos, tr *Trace, format string, a ...interface{}) bool {
	c.Oblig++
	c.Rules[rule]++
	if at.IsValid() {
		c.Sites[c.P.pos(at)] = true
	}
	if ok {
		c.OK++
		if c.Rules[rule] <= 2 && len(c.Samples) < 24 && at.IsValid() {
			c.Samples = append(c.Samples, rule+" @ "+c.P.pos(at))
		}
		return true
	}
	f := Finding{Rule: rule, Pos: c.P.pos(at), Msg: fmt.Sprintf(format, a...)}
	key := f.Rule + f.Pos + f.Msg
	if c.seen[key] {
		return false
	}
	c.seen[key] = true
	if tr != nil {
		f.Path = traceText(c.P, tr)
		if len(tr.Evs) > 0 && tr.Evs[0].In != nil {
			f.Fn = fnName(tr.Evs[0].In)
		}
	}
	c.Findings = append(c.Findings, f)
	return false
}

// atLeast guards against a rule that silently has nothing to look at.
func (c *Ctx) atLeast(n, min int, rule, what string) {
	c.need(n >= min, rule, token.NoPos, nil, "expected at least %d %s, found %d: the construct the property is about is gone or not recognised", min, what, n)
}

func (c *Ctx) track(x *Exec) {
	for f := range x.Inlined {
		c.Funcs[fnName(f)] = true
	}
}

// run explores fn and fails closed when the exploration is incomplete.
func (c *Ctx) run(x *Exec, fn *ssa.Function, args, bind []*Term, st *State) []*Trace {
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "function to analyse not found")
		return nil
	}
	c.Funcs[fnName(fn)] = true
	n0 := x.paths
	ts := x.Run(fn, args, bind, st)
	c.Traces += x.paths - n0
	for _, t := range ts {
		for _, e := range t.Evs {
			if e.Kind == EvEnter {
				c.Funcs[e.Name] = true
			}
		}
	}
	if x.Err != nil {
		c.need(false, "undecided", fn.Pos(), nil, "analysis of %s is incomplete: %v", fnName(fn), x.Err)
		return nil
	}
	return pruneImpossible(ts)
}

func (c *Ctx) runTerm(x *Exec, f *Term, args []*Term, st *State) []*Trace {
	fn := isFn(f)
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "value %s is not a known function", f)
		return nil
	}
	return c.run(x, fn, args, f.Args, st)
}

func params(fn *ssa.Function) []*Term {
	var args []*Term
	for _, q := range fn.Params {
		_, isPtr := q.Type().Underlying().(*types.Pointer)
		args = append(args, param(q.Name(), q.Type(), isPtr))
	}
	return args
}

// ---- small helpers over traces --------------------------------------------------

func factsAt(t *Trace, i int) map[*Term]bool {
	m := map[*Term]bool{}
	for k := 0; k < i && k < len(t.Evs); k++ {
		if t.Evs[k].Kind == EvCond {
			m[t.Evs[k].Term] = t.Evs[k].Pos
		}
	}
	return m
}

func allFacts(t *Trace) map[*Term]bool { return factsAt(t, len(t.Evs)) }

// holds: the boolean term (or its negation) is an established fact.
func holds(facts map[*Term]bool, t *Term) bool {
	if t.Op == ONot {
		return refuted(facts, t.Args[0])
	}
	if t == tTrue {
		return true
	}
	v, ok := factsKnow(facts, t)
	return ok && v
}
func refuted(facts map[*Term]bool, t *Term) bool {
	if t.Op == ONot {
		return holds(facts, t.Args[0])
	}
	if t == tFalse {
		return true
	}
	v, ok := factsKnow(facts, t)
	return ok && !v
}

func isCall(t *Term, name string) bool { return t.Op == OCall && t.Name == name }

func anyTerm(e *Ev, f func(*Term) bool) bool {
	for _, a := range e.Args {
		if a != nil && a.contains(f) {
			return true
		}
	}
	return false
}

// fieldPath splits a value into the object it comes from and the fields taken.
func fieldPath(t *Term) (*Term, []string) {
	var path []string
	for {
		switch t.Op {
		case ODeref:
			a := t.Args[0]
			if a.Op != OField {
				return t, path
			}
			for a.Op == OField {
				path = append([]string{a.Name}, path...)
				a = a.Args[0]
			}
			t = a
			if t.Op == OParam || t.Op == OAlloc || t.Op == OGlobal {
				return t, path
			}
		case OField:
			path = append([]string{t.Name}, path...)
			t = t.Args[0]
		case OSel:
			path = append([]string{t.Name}, path...)
			t = t.Args[0]
		default:
			return t, path
		}
	}
}

// fieldIs: the value is <anything>.path (by trailing field names).
func fieldIs(t *Term, names ...string) bool {
	_, p := fieldPath(t)
	if len(p) < len(names) {
		return false
	}
	p = p[len(p)-len(names):]
	for i := range p {
		if p[i] != names[i] {
			return false
		}
	}
	return true
}

func typeIs(t types.Type, pkgSuffix, name string) bool {
	if t == nil {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkgSuffix)
}

func isRW(t types.Type) bool  { return typeIs(t, "net/http", "ResponseWriter") }
func isReq(t types.Type) bool { return typeIs(t, "net/http", "Request") }

func traceText(p *Program, t *Trace) []string {
	var out []string
	for _, e := range t.Evs {
		s := ""
		switch e.Kind {
		case EvCond:
			s = fmt.Sprintf("if %s == %v", clip(e.Term.String()), e.Pos)
		case EvCall:
			s = "call " + shortName(e.Name) + "(" + clip(joinTerms(e.Args, ", ", 0)) + ")"
		case EvDyn:
			s = "call value " + clip(e.Term.String()) + "(" + clip(joinTerms(e.Args, ", ", 0)) + ")"
		case EvStore:
			s = "store " + clip(e.Term.String()) + " <- " + clip(e.Args[0].String())
		case EvMapSet:
			s = "map update " + clip(e.Term.String())
		case EvGo:
			s = "go " + clip(e.Term.String())
		case EvEnter:
			s = "enter " + shortName(e.Name)
		case EvLoopHead:
			s = "loop iteration"
		case EvPanic:
			s = "panic"
		default:
			continue
		}
		out = append(out, p.pos(e.At)+": "+s)
	}
	out = append(out, "end: "+t.End.String())
	if len(out) > 160 {
		out = append(out[:60], append([]string{"..."}, out[len(out)-90:]...)...)
	}
	return out
}

func clip(s string) string {
	if len(s) > 220 {
		return s[:217] + "..."
	}
	return s
}

// merge adds what a run for another platform covered and found.
func (c *Ctx) merge(d *Ctx, name string) {
	known := map[string]bool{}
	for _, f := range c.Findings {
		known[f.Rule+f.Pos+f.Msg] = true
	}
	n := 0
	for _, f := range d.Findings {
		if !known[f.Rule+f.Pos+f.Msg] {
			f.Msg = "[" + name + "] " + f.Msg
			c.Findings = append(c.Findings, f)
			n++
		}
	}
	c.Oblig += d.Oblig
	c.OK += d.OK
	c.Traces += d.Traces
	for f := range d.Funcs {
		c.Funcs[f] = true
	}
	for s := range d.Sites {
		c.Sites[s] = true
	}
	for r, k := range d.Rules {
		c.Rules[r] += k
	}
	c.Notes = append(c.Notes, fmt.Sprintf("%s: %d files, %d functions, %d paths, %d obligations, %d discharged, %d violations of its own", name, d.P.Files, len(d.Funcs), d.Traces, d.Oblig, d.OK, n))
}

// ---- output ------------------------------------------------------------------------

func (c *Ctx) report(verif, tier string, seed int, level, technique string, took time.Duration) int {
	var fns, sites []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	for s := range c.Sites {
		sites = append(sites, s)
	}
	sort.Strings(fns)
	sort.Strings(sites)
	if len(sites) > 60 {
		sites = sites[:60]
	}
	cov := map[string]interface{}{
		"explanation": "Static analysis of /repo's current source (type-checked, lowered to SSA). " + technique +
			". Each obligation is one rule instance at one construct on one control-flow path; nothing of the repository was executed.",
		"functions_analysed":   fns,
		"function_count":       len(fns),
		"paths_enumerated":     c.Traces,
		"obligations":          c.Oblig,
		"discharged":           c.OK,
		"obligations_by_rule":  c.Rules,
		"sites":                sites,
		"samples":              c.Samples,
		"source_files_checked": c.P.Files,
	}
	if len(c.Notes) > 0 {
		cov["notes"] = c.Notes
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": took.Seconds(), "violations": len(c.Findings),
		"assumptions": []string{
			"the Go type checker and go/ssa lower the source faithfully; library functions behave as documented",
			"pointers held in different fields of the analysed types do not alias unless the code copies one to the other",
		},
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	rp := filepath.Join(dir, c.ID+".violation.txt")
	if len(c.Findings) == 0 {
		os.Remove(rp)
		fmt.Printf("OK property=%s functions=%d paths=%d obligations=%d\n", c.ID, len(fns), c.Traces, c.Oblig)
		return 0
	}
	var sb strings.Builder
	for i, f := range c.Findings {
		fmt.Fprintf(&sb, "%d. %s: rule %s\n   %s\n", i+1, f.Pos, f.Rule, f.Msg)
		for _, l := range f.Path {
			fmt.Fprintf(&sb, "      %s\n", l)
		}
		sb.WriteString("\n")
		if i < 12 {
			fmt.Printf("%s: %s: %s\n", f.Pos, f.Rule, f.Msg)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}
