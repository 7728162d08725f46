package main

import (
	"fmt"
	"os"
)

func dumpTraces(p *Program, ts []*Trace) {
	for i, t := range ts {
		fmt.Printf("--- trace %d: %s", i, t.End)
		for _, r := range t.Ret {
			fmt.Printf(" %s", r)
		}
		if t.Loop != nil {
			fmt.Printf(" loop#%d", t.Loop.ID)
		}
		fmt.Println()
		for _, e := range t.Evs {
			s := ""
			switch e.Kind {
			case EvCond:
				s = fmt.Sprintf("if %v: %s", e.Pos, e.Term)
			case EvCall:
				s = fmt.Sprintf("call %s(%s)", shortName(e.Name), joinTerms(e.Args, ", ", 0))
			case EvDyn:
				s = fmt.Sprintf("dyn %s(%s)", e.Term, joinTerms(e.Args, ", ", 0))
			case EvStore:
				s = fmt.Sprintf("store %s <- %s", e.Term, e.Args[0])
			case EvLoad:
				if os.Getenv("LOADS") == "" {
					continue
				}
				s = fmt.Sprintf("load %s", e.Term)
			case EvMapSet:
				s = fmt.Sprintf("mapset %s %s", e.Term, joinTerms(e.Args, " <- ", 0))
			case EvMapGet:
				if os.Getenv("LOADS") == "" {
					continue
				}
				s = fmt.Sprintf("mapget %s %s", e.Term, joinTerms(e.Args, ", ", 0))
			case EvGo:
				s = fmt.Sprintf("go %s(%s)", e.Term, joinTerms(e.Args, ", ", 0))
			case EvLoopHead:
				s = fmt.Sprintf("loop#%d head, %d backs", e.Loop.ID, len(e.Loop.Backs))
				for g, v := range e.Loop.Init {
					s += fmt.Sprintf(" [%s init %s", g, v)
					for _, b := range e.Loop.Backs {
						s += fmt.Sprintf(" next %s", b.Next[g])
					}
					s += "]"
				}
			case EvLoopOut:
				s = fmt.Sprintf("loop#%d out normal=%v", e.Loop.ID, e.Pos)
			case EvEnter:
				s = "enter " + shortName(e.Name)
			case EvLeave:
				s = "leave " + shortName(e.Name)
			default:
				s = fmt.Sprintf("ev%d %s %s(%s)", e.Kind, e.Term, e.Name, joinTerms(e.Args, ", ", 0))
			}
			fmt.Printf("  %-22s %s\n", p.pos(e.At), s)
		}
	}
}
