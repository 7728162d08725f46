package main

// Interval invariants of loop counters. A counter that moves by a constant in
// every iteration stays within the hull of its entry value and of what the
// iterations leave behind; paths that contradict this are not paths.

// boundsL: bounds of an integer term, also through its linear parts.
func boundsL(facts map[*Term]bool, t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if v, ok := t.Int(); ok {
		return v, v, true, true
	}
	l := toLin(t)
	k := l.k
	l.k = 0
	if len(l.c) == 0 {
		return k, k, true, true
	}
	base := l.term(t.Typ)
	lo, hi, hasLo, hasHi = bounds(facts, base)
	if base.Op == OLin {
		slo, shi := int64(0), int64(0)
		okLo, okHi := true, true
		for a, c := range l.c {
			al, ah, x, y := bounds(facts, a)
			if c < 0 {
				al, ah, x, y = ah, al, y, x
			}
			okLo, okHi = okLo && x, okHi && y
			slo += c * al
			shi += c * ah
		}
		if okLo && (!hasLo || slo > lo) {
			lo, hasLo = slo, true
		}
		if okHi && (!hasHi || shi < hi) {
			hi, hasHi = shi, true
		}
	}
	return lo + k, hi + k, hasLo, hasHi
}

func (l *LoopInfo) counterStep(phi *Term) int64 {
	var step int64
	for i, b := range l.Backs {
		d := toLin(b.Next[phi]).add(toLin(phi), -1)
		if len(d.c) != 0 || d.k == 0 || i > 0 && d.k != step {
			return 0
		}
		step = d.k
	}
	return step
}

// counterRange: values phi can have at the loop header.
func (l *LoopInfo) counterRange(phi *Term, entry map[*Term]bool) (lo, hi int64, hasLo, hasHi bool) {
	in := l.Init[phi]
	if in == nil || !isSignedInt(phi.Typ) {
		return
	}
	lo, hi, hasLo, hasHi = boundsL(entry, in)
	for _, b := range l.Backs {
		n := b.Next[phi]
		if n == nil {
			return 0, 0, false, false
		}
		d := toLin(n).add(toLin(phi), -1)
		if len(d.c) != 0 {
			bl, bh, x, y := boundsL(allFacts(b.Tr), n)
			hasLo, hasHi = hasLo && x, hasHi && y
			lo, hi = min64(lo, bl), max64(hi, bh)
			continue
		}
		bl, bh, x, y := boundsL(allFacts(b.Tr), n)
		if d.k < 0 {
			hasLo = hasLo && x
			lo = min64(lo, bl)
		}
		if d.k > 0 {
			hasHi = hasHi && y
			hi = max64(hi, bh)
		}
	}
	return
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// fixedFlag: a flag that every iteration that goes on leaves as it was before the loop.
func (l *LoopInfo) fixedFlag(g *Term, entry map[*Term]bool) (was, fixed bool) {
	in := l.Init[g]
	if in == nil || !isBool(in.Typ) {
		return
	}
	if was, fixed = knownBool(entry, in); !fixed {
		return
	}
	for _, b := range l.Backs {
		n := b.Next[g]
		if n == g {
			continue
		}
		if n == nil || b.Tr == nil {
			return false, false
		}
		if v, known := knownBool(allFacts(b.Tr), n); !known || v != was {
			return false, false
		}
	}
	return was, true
}

// impossible: the path leaves the range of one of its loop counters.
func impossible(t *Trace) bool {
	for i, e := range t.Evs {
		if e.Kind != EvLoopHead || e.Loop == nil || len(e.Loop.Backs) == 0 {
			continue
		}
		var entry, all map[*Term]bool
		for phi := range e.Loop.Init {
			if isBool(phi.Typ) && (phi.Op == OPhi || phi.Op == OLoopMem) {
				if all == nil {
					entry, all = factsAt(t, i), allFacts(t)
				}
				now, known := factsKnow(all, phi)
				if was, fixed := e.Loop.fixedFlag(phi, entry); known && fixed && now != was {
					return true
				}
			}
			if phi.Op != OPhi || !isSignedInt(phi.Typ) {
				continue
			}
			if all == nil {
				entry, all = factsAt(t, i), allFacts(t)
			}
			lo, hi, hasLo, hasHi := e.Loop.counterRange(phi, entry)
			tl, th, x, y := bounds(all, phi)
			if hasLo && y && th < lo || hasHi && x && tl > hi {
				return true
			}
		}
	}
	return false
}

func pruneImpossible(ts []*Trace) []*Trace {
	drop := map[*Trace]bool{}
	for _, t := range ts {
		if impossible(t) {
			drop[t] = true
		}
	}
	if len(drop) == 0 {
		return ts
	}
	var out []*Trace
	seen := map[*LoopInfo]bool{}
	for _, t := range ts {
		for _, e := range t.Evs {
			if e.Kind == EvLoopHead && !seen[e.Loop] {
				seen[e.Loop] = true
				var bs []*Back
				for _, b := range e.Loop.Backs {
					if !drop[b.Tr] {
						bs = append(bs, b)
					}
				}
				e.Loop.Backs = bs
			}
		}
		if !drop[t] {
			out = append(out, t)
		}
	}
	return out
}
