package main

// Bounds: a fact base of linear inequalities over terms, read off the branch
// conditions of one path, and a bounded search for a sum of them that yields the
// wanted inequality (demand-driven bounds-check elimination; no solver).

import (
	"go/types"
	"sort"
	"strings"
)

// bprover proves linear inequalities from the facts of one path.
type bprover struct {
	facts map[*Term]bool
	forms []lin // each >= 0
	known map[*Term]bool
	have  map[string]bool
	// given: further bounds of an atom (invariants established elsewhere)
	given func(a *Term) []lin
	steps int
}

func newProver(facts map[*Term]bool, loops []*LoopInfo, given func(a *Term) []lin) *bprover {
	p := &bprover{facts: facts, known: map[*Term]bool{}, have: map[string]bool{}, given: given}
	for f, v := range facts {
		p.fact(f, v)
	}
	for _, l := range loops {
		p.loop(l)
	}
	// x != k sharpens x >= k and x <= k
	for round := 0; round < 3; round++ {
		for f, v := range facts {
			if v || f.Op != OEq {
				continue
			}
			k, ok := f.Args[1].Int()
			if !ok {
				continue
			}
			d := toLin(f.Args[0])
			d.k -= k
			if p.prove(d) {
				p.form(d.add(lin{k: 1}, -1))
			}
			n := lin{c: map[*Term]int64{}}.add(d, -1)
			if p.prove(n) {
				p.form(n.add(lin{k: 1}, -1))
			}
		}
	}
	return p
}

func (l lin) key() string {
	var ks []string
	for a, c := range l.c {
		ks = append(ks, n64(int64(a.ID))+"*"+n64(c))
	}
	sort.Strings(ks)
	return strings.Join(ks, "+") + "|" + n64(l.k)
}

func n64(n int64) string { return mkInt(n).Name[2:] }

func (p *bprover) form(l lin) {
	if k := l.key(); !p.have[k] {
		p.have[k] = true
		p.forms = append(p.forms, l)
		for a := range l.c {
			p.atom(a)
		}
	}
}

func isIntegerT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (p *bprover) fact(f *Term, v bool) {
	switch f.Op {
	case OLt0: // L + N < 0
		l := toLin(f.Args[0])
		l.k += f.N
		if v {
			p.form(lin{c: map[*Term]int64{}, k: -1}.add(l, -1))
		} else {
			p.form(l)
		}
	case OLt: // a < b
		if a, b := f.Args[0], f.Args[1]; isIntegerT(a.Typ) || isIntegerT(b.Typ) {
			d := toLin(b).add(toLin(a), -1)
			if v {
				d.k--
				p.form(d)
			} else {
				p.form(lin{c: map[*Term]int64{}}.add(d, -1))
			}
		}
	case OEq:
		a, b := f.Args[0], f.Args[1]
		if !v {
			if s, ok := b.Str(); ok && s == "" {
				d := toLin(mkLen(a))
				d.k--
				p.form(d)
			}
			return
		}
		_, isInt := b.Int()
		if isInt || isIntegerT(a.Typ) && isIntegerT(b.Typ) {
			d := toLin(a).add(toLin(b), -1)
			p.form(d)
			p.form(lin{c: map[*Term]int64{}}.add(d, -1))
		}
		if s, ok := b.Str(); ok {
			d := toLin(mkLen(a))
			d.k -= int64(len(s))
			p.form(d)
			p.form(lin{c: map[*Term]int64{}}.add(d, -1))
		}
	case OCall:
		if !v || len(f.Args) != 2 {
			return
		}
		switch f.Name {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix":
			p.form(toLin(mkLen(stripConv(f.Args[0]))).add(toLin(mkLen(stripConv(f.Args[1]))), -1))
		}
	}
}

// loop: a variable that only ever grows (shrinks) is at least (most) what it was.
func (p *bprover) loop(l *LoopInfo) {
	if len(l.Backs) == 0 {
		return
	}
	for g, init := range l.Init {
		if !isIntegerT(g.Typ) || init == nil {
			continue
		}
		up, down := true, true
		for _, b := range l.Backs {
			nx := b.Next[g]
			if nx == nil {
				up, down = false, false
				break
			}
			d := toLin(nx).add(toLin(g), -1)
			if len(d.c) != 0 {
				up, down = false, false
				break
			}
			up, down = up && d.k >= 0, down && d.k <= 0
		}
		d := toLin(g).add(toLin(init), -1)
		if up {
			p.form(d)
		}
		if down {
			p.form(lin{c: map[*Term]int64{}}.add(d, -1))
		}
	}
}

// atom adds what is known of a term by what it is.
func (p *bprover) atom(a *Term) {
	if p.known[a] {
		return
	}
	p.known[a] = true
	one := lin{c: map[*Term]int64{a: 1}}
	ge := func(k int64) { p.form(one.add(lin{k: k}, -1)) }
	le := func(k int64) { p.form(lin{c: map[*Term]int64{}, k: k}.add(one, -1)) }
	if a.Typ != nil {
		if b, ok := a.Typ.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsUnsigned != 0 {
				ge(0)
			}
			if b.Kind() == types.Uint8 {
				le(255)
			}
		}
	}
	switch a.Op {
	case OCap:
		p.form(one.add(toLin(mkLen(a.Args[0])), -1))
	case OLen:
		ge(0)
		x := a.Args[0]
		switch x.Op {
		case OSlice:
			d := one.add(toLin(x.Args[2]), -1).add(toLin(x.Args[1]), 1)
			p.form(d)
			p.form(lin{c: map[*Term]int64{}}.add(d, -1))
		case OConcat:
			d := one
			for _, q := range x.Args {
				d = d.add(toLin(mkLen(q)), -1)
			}
			p.form(d)
			p.form(lin{c: map[*Term]int64{}}.add(d, -1))
		case OAppend:
			d := one.add(toLin(mkLen(x.Args[0])), -1).add(toLin(mkLen(x.Args[1])), -1)
			p.form(d)
			p.form(lin{c: map[*Term]int64{}}.add(d, -1))
		case OFmt:
			if x.Name == "%d" {
				ge(1)
			}
		case OCall:
			switch x.Name {
			case "before", "after":
				d := toLin(mkLen(x.Args[0])).add(one, -1)
				if q, ok := x.Args[1].Str(); ok && holds(p.facts, mkContains(stripConv(x.Args[0]), x.Args[1])) {
					d.k -= int64(len(q))
				}
				p.form(d)
			case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimFunc":
				p.form(toLin(mkLen(x.Args[0])).add(one, -1))
			case "path.Clean", "path.Dir", "path.Base", "path/filepath.Clean", "path/filepath.Dir", "path/filepath.Base":
				ge(1)
			case "strings.Split", "bytes.Split":
				if s, ok := sepTerm(x.Args[1]).Str(); ok && s != "" {
					ge(1)
					if holds(p.facts, mkContains(stripConv(x.Args[0]), sepTerm(x.Args[1]))) {
						ge(2)
					}
				}
			case "strings.SplitN", "bytes.SplitN":
				n, ok := x.Args[2].Int()
				if s, ok2 := sepTerm(x.Args[1]).Str(); ok && ok2 && s != "" && n != 0 {
					ge(1)
					if n > 0 {
						le(n)
					}
					if (n < 0 || n >= 2) && holds(p.facts, mkContains(stripConv(x.Args[0]), sepTerm(x.Args[1]))) {
						ge(2)
					}
				}
			}
		}
	case ORangeKey:
		if a.Args[0] != nil && isString(a.Args[0].Typ) {
			ge(0)
			p.form(toLin(mkLen(a.Args[0])).add(one, -1).add(lin{k: 1}, -1))
		}
	case OBin:
		if len(a.Args) != 2 {
			break
		}
		c, ok := a.Args[1].Int()
		c0, ok0 := a.Args[0].Int()
		switch a.Name {
		case "&":
			if ok && c >= 0 {
				ge(0)
				le(c)
			} else if ok0 && c0 >= 0 {
				ge(0)
				le(c0)
			}
		case "%":
			if ok && c > 0 {
				le(c - 1)
				if p.prove(toLin(a.Args[0])) {
					ge(0)
				} else {
					ge(-(c - 1))
				}
			}
		case ">>":
			if ok && c >= 0 && c < 64 {
				if p.prove(toLin(a.Args[0])) {
					ge(0)
				}
				if b, isB := a.Typ.Underlying().(*types.Basic); isB && c > 1 {
					switch b.Kind() {
					case types.Uint64, types.Uint, types.Uintptr:
						le(1<<(64-uint(c)) - 1)
					case types.Uint32:
						if c < 32 {
							le(1<<(32-uint(c)) - 1)
						}
					}
				}
			}
		}
	case OConv:
		if len(a.Args) == 1 && isIntegerT(a.Args[0].Typ) && isIntegerT(a.Typ) {
			in := toLin(a.Args[0])
			if p.prove(in) && p.prove(lin{c: map[*Term]int64{}, k: 1<<31 - 1}.add(in, -1)) {
				d := one.add(in, -1)
				p.form(d)
				p.form(lin{c: map[*Term]int64{}}.add(d, -1))
			}
		}
	case OCall:
		switch a.Name {
		case "strings.Index", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexFunc", "bytes.LastIndex", "bytes.LastIndexByte":
			ge(-1)
			s := stripConv(a.Args[0])
			if a.Name == "strings.Index" && holds(p.facts, mkContains(s, a.Args[1])) {
				ge(0)
			}
			sub := int64(1)
			switch a.Name {
			case "strings.Index", "strings.LastIndex", "bytes.LastIndex":
				q, _ := stripConv(a.Args[1]).Str()
				sub = int64(len(q))
			}
			if sub >= 1 { // also when nothing is found
				p.form(toLin(mkLen(s)).add(one, -1).add(lin{k: 1}, -1))
			}
			if p.prove(one) {
				n := mkInt(1)
				if a.Name == "strings.Index" || a.Name == "strings.LastIndex" || a.Name == "bytes.LastIndex" {
					n = mkLen(a.Args[1])
				}
				p.form(toLin(mkLen(s)).add(one, -1).add(toLin(n), -1))
			}
		}
	}
	if p.given != nil {
		for _, l := range p.given(a) {
			p.form(l)
		}
	}
}

// prove: goal >= 0.
func (p *bprover) prove(goal lin) bool {
	for a := range goal.c {
		p.atom(a)
	}
	p.steps = 0
	return p.search(goal, 6)
}

func (p *bprover) search(goal lin, depth int) bool {
	if len(goal.c) == 0 {
		return goal.k >= 0
	}
	p.steps++
	if depth == 0 || p.steps > 20000 {
		return false
	}
	// cancel the first atom
	var v *Term
	for a := range goal.c {
		if v == nil || a.ID > v.ID {
			v = a
		}
	}
	c := goal.c[v]
	for _, f := range p.forms {
		fc := f.c[v]
		if fc == 0 || (fc > 0) != (c > 0) || c%fc != 0 {
			continue
		}
		if p.search(goal.add(f, -(c/fc)), depth-1) {
			return true
		}
	}
	return false
}

// impossible: the facts contradict each other.
func (p *bprover) impossible() bool {
	for i := 0; i < len(p.forms); i++ {
		p.steps = 0
		if len(p.forms[i].c) == 0 {
			if p.forms[i].k < 0 {
				return true
			}
			continue
		}
		if p.search(lin{c: map[*Term]int64{}, k: -1}.add(p.forms[i], -1), 5) {
			return true
		}
	}
	return false
}

// le: a <= b + k.
func (p *bprover) le(a, b *Term, k int64) bool {
	d := toLin(b).add(toLin(a), -1)
	d.k += k
	return p.prove(d)
}

// nonneg: 0 <= a.
func (p *bprover) nonneg(a *Term) bool { return p.prove(toLin(a)) }

// loopsIn: the loops a path has arrived at before event i.
func loopsIn(t *Trace, i int) []*LoopInfo {
	var ls []*LoopInfo
	for k := 0; k < i && k < len(t.Evs); k++ {
		if t.Evs[k].Kind == EvLoopHead && t.Evs[k].Loop != nil {
			ls = append(ls, t.Evs[k].Loop)
		}
	}
	return ls
}
