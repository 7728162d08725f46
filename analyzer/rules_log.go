package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "Constant propagation of every pair of message level and configured level through the logging method, counting the writes to its output on each path; typestate of the logger each constructor path hands out", ruleC36)
}

// fieldOfType: the only field of the struct with that type.
func fieldOfType(t types.Type, is func(types.Type) bool) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	hit := -1
	for i := 0; i < st.NumFields(); i++ {
		if is(st.Field(i).Type()) {
			if hit >= 0 {
				return -1
			}
			hit = i
		}
	}
	return hit
}

func isStdLogger(t types.Type) bool { return typeIs(t, "log", "Logger") }

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// globalIs: the value of the library variable.
func globalIs(x *Term, name string) bool {
	return x.Op == ODeref && x.Args[0].Op == OGlobal && x.Args[0].Name == name
}

// openedFor: the file the value is the handle of, with the opening call.
func openedFile(x *Term) (call *Term) {
	if x.Op == OExtract && x.N == 0 && x.Args[0].Op == OCall {
		switch x.Args[0].Name {
		case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile":
			return x.Args[0]
		}
	}
	return nil
}

func ruleC36(c *Ctx) {
	fn := c.P.method("debug", "Logger", "Log")
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "the logging method debug.Logger.Log is gone")
		return
	}
	lt := c.P.named("debug", "Logger")
	fi := fieldOfType(lt, isStdLogger)
	ctor := c.P.fn("debug", "NewLogger")
	if fi < 0 || ctor == nil {
		c.need(false, "anchor", fn.Pos(), nil, "the output of debug.Logger or its constructor is not recognised")
		return
	}
	// the field that holds the level: what the constructor stores its level in
	di, max := c.loggerCtor(ctor, lt, fi)
	if di < 0 {
		return
	}
	c.logLevels(fn, lt, fi, di, max)
	c.serverLoggers(ctor, lt)
}

// serverLoggers: every new server logs with the level and to the output of its configuration.
func (c *Ctx) serverLoggers(ctor *ssa.Function, lt types.Type) {
	via := c.P.callReach(ctor)
	delete(via, ctor)
	lvAt, outAt := -1, c.outputParam(ctor)
	for i, p := range params(ctor) {
		if isIntT(p.Typ) {
			lvAt = i
		}
	}
	lf := -1
	st := c.P.named(serverPkg, "Server").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if t := st.Field(i).Type(); types.Identical(t, types.NewPointer(lt)) || types.Identical(t, lt) {
			lf = i
		}
	}
	if lf < 0 || lvAt < 0 {
		c.need(false, "anchor", ctor.Pos(), nil, "the logger of a server is not recognised")
		return
	}
	made := c.newServersWith(via, func(x *Exec, t *Trace, srv, rv *Term) {
		la := mkFieldAddrByName(srv, st.Field(lf).Name())
		lg := x.load(t.St, la, st.Field(lf).Type())
		call := lg
		if lg.Op == OExtract {
			call = lg.Args[0]
		}
		if !c.need(isCall(call, fnName(ctor)), "configured", t.At, t, "the logger of a new server is %s instead of a newly made one", clip(lg.String())) {
			return
		}
		for _, w := range []struct {
			at   int
			name string
		}{{lvAt, "LogLevel"}, {outAt, "LogOut"}} {
			a := mkFieldAddrByName(mkFieldAddrByName(mkFieldAddrByName(srv, "Cfg"), "Core"), w.name)
			v := x.load(t.St, a, ptrElem(a.Typ))
			hit := w.at >= 0 && call.Args[w.at] == v
			for _, p := range call.Args {
				hit = hit || w.at < 0 && p == v // callers fix neither the name nor the output
			}
			c.need(hit, "configured", t.At, t, "the logger of a new server is made by %s without %s of its configuration", clip(call.String()), w.name)
		}
	})
	c.atLeast(made, 2, "coverage", "paths that set up a server")
}

// outputParam: the parameter of the constructor that names the output, the one callers do not
// give a constant for.
func (c *Ctx) outputParam(ctor *ssa.Function) int {
	at := -1
	for i, p := range ctor.Params {
		if !isString(p.Type()) {
			continue
		}
		fixed := true
		for _, f := range c.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == ctor {
						if _, isC := ci.Common().Args[i].(*ssa.Const); !isC {
							fixed = false
						}
					}
				}
			}
		}
		if !fixed {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

func isPrintCall(name string) bool {
	m, ok := strings.CutPrefix(name, "(*log.Logger).")
	if !ok {
		return false
	}
	switch m {
	case "Print", "Printf", "Println", "Output":
		return true
	}
	return false
}

func (c *Ctx) logLevels(fn *ssa.Function, lt types.Type, fi, di int, max int64) {
	levels := []int64{}
	for _, n := range []string{"LogNone", "LogNet", "LogError", "LogDebug", "LogVerbose"} {
		if v, ok := c.constInt("debug", n); ok {
			levels = append(levels, v)
		}
	}
	c.atLeast(len(levels), 5, "coverage", "message levels")
	var lv, ev *Term
	args := params(fn)
	for i, a := range args {
		if i == 0 {
			continue
		}
		if isIntT(a.Typ) {
			lv = a
		} else if isErrorT(a.Typ) {
			ev = a
		}
	}
	if lv == nil || ev == nil || len(args) != 3 {
		c.need(false, "anchor", fn.Pos(), nil, "the logging method does not take a level and an error")
		return
	}
	recv := args[0]
	if _, isPtr := recv.Typ.Underlying().(*types.Pointer); !isPtr {
		c.need(false, "undecided", fn.Pos(), nil, "the logging method works on a copy of the logger")
		return
	}
	recv = param(recv.Name, recv.Typ, true)
	dbg := mkFieldAddr(recv, recv.Typ, di)
	out := mkFieldAddr(recv, recv.Typ, fi)
	pairs := 0
	for conf := int64(0); conf <= max; conf++ {
		for _, level := range levels {
			for _, null := range []bool{false, true} {
				pairs++
				as := []*Term{recv, lv, ev}
				for i := 1; i < 3; i++ {
					if args[i] == lv {
						as[i] = mkInt(level)
					} else if null {
						as[i] = tNil
					} else {
						as[i] = param("err", ev.Typ, true)
					}
				}
				st := newState()
				if c.P.Consts != nil {
					for k, v := range c.P.Consts.mem {
						st.mem[k] = v
					}
					st.maps = append(st.maps, c.P.Consts.maps...)
				}
				st.mem[dbg] = mkInt(conf)
				inst := mkDeref(out, 0, ptrElem(out.Typ))
				want := 0
				if level <= conf && !null {
					want = 1
				}
				for _, t := range c.run(newExec(c.P, nil), fn, as, nil, st) {
					n := 0
					facts := allFacts(t)
					if v, known := factsKnow(facts, mkEq(inst, tNil)); known && v {
						continue // a logger without an output is never handed out
					}
					msg := as[2]
					if args[1] == ev {
						msg = as[1]
					}
					for _, f := range flat(t) {
						e := f.Ev
						switch e.Kind {
						case EvGo, EvDyn:
							c.need(false, "once", e.At, t, "logging calls %s, which the analysis cannot follow", clip(e.Term.String()))
						case EvStore:
							if e.Term == out || e.Term == dbg {
								c.need(false, "once", e.At, t, "logging changes the logger itself")
							}
						case EvCall:
							if isPrintCall(e.Name) {
								ok := stripConv(e.arg(0)) == inst
								c.need(ok, "output", e.At, t, "the message is written to %s instead of the logger's output", clip(e.arg(0).String()))
								if !null {
									c.need(anyTerm(e, func(y *Term) bool { return y == msg }), "message", e.At, t, "what is written does not contain the message")
								}
								if f.maybe {
									n += 2
								}
								n++
								continue
							}
							switch e.Name {
							case "(*log.Logger).SetOutput", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln", "(*log.Logger).Writer":
								c.need(false, "once", e.At, t, "logging calls %s", shortName(e.Name))
							case "(error).Error":
							default:
								if !isPure(e.Name) && !null && e.Name != "append" && !strings.HasPrefix(e.Name, "(*sync.") && anyTerm(e, func(y *Term) bool { return y == msg }) {
									c.need(false, "once", e.At, t, "the message is handed to %s, which the analysis does not know", shortName(e.Name))
								}
							}
						}
					}
					if t.End == EndBack {
						continue
					}
					c.need(t.End == EndReturn, "returns", t.At, t, "logging ends with %s", t.End)
					if null {
						c.need(n == 0, "nil-silent", t.At, t, "a nil error with level %d is written at configured level %d", level, conf)
					} else {
						c.need(n == want, "exactly-when", t.At, t, "a message of level %d is written %d times at configured level %d instead of %d", level, n, conf, want)
					}
				}
			}
		}
	}
	c.atLeast(pairs, 2*5*2, "coverage", "pairs of levels")
	c.Notes = append(c.Notes, "configured levels 0 to "+itoa(max)+" with every message level, with and without a message")
}

func itoa(n int64) string { return mkInt(n).String() }

// loggerCtor checks what the constructor hands out and returns the field of the
// level and the highest level it supports.
func (c *Ctx) loggerCtor(fn *ssa.Function, lt types.Type, fi int) (int, int64) {
	ps := params(fn)
	var lv *Term
	var strs []*Term
	for _, p := range ps {
		if isIntT(p.Typ) {
			lv = p
		}
		if isString(p.Typ) {
			strs = append(strs, p)
		}
	}
	if i := c.outputParam(fn); i >= 0 {
		strs = []*Term{ps[i]}
	}
	if lv == nil {
		c.need(false, "anchor", fn.Pos(), nil, "the constructor of loggers does not take a level")
		return -1, 0
	}
	sup, ok := c.constInt("debug", "LogDebug")
	if !ok {
		c.need(false, "anchor", fn.Pos(), nil, "debug.LogDebug is gone")
		return -1, 0
	}
	if v, ok := c.constInt("debug", "LogVerbose"); ok && v > sup {
		_ = v // LogVerbose is a message level above every supported configuration
	}
	di := -1
	given, std, file := 0, 0, 0
	for _, t := range c.run(newExec(c.P, nil), fn, ps, nil, nil) {
		if t.End != EndReturn || len(t.Ret) != 2 {
			continue
		}
		facts := allFacts(t)
		lo, hi, hasLo, hasHi := bounds(facts, lv)
		if v, known := factsKnow(facts, mkEq(t.Ret[1], tNil)); known && !v || nonNil(t.Ret[1]) {
			// refused: the level is not supported or something failed
			failed := hasHi && hi < 0 || hasLo && lo > sup
			for q, v := range facts {
				failed = failed || !v && q.Op == OEq && q.Args[1] == tNil && isErrorT(q.Args[0].Typ)
			}
			c.need(failed, "refused", t.At, t, "a logger is refused for a supported level")
			continue
		}
		given++
		c.need(hasHi && hi <= sup, "supported-level", t.At, t, "a logger is handed out for a level above %d", sup)
		c.need(hasLo && lo >= 0, "supported-level", t.At, t, "a logger is handed out for a negative level")
		lg := t.Ret[0]
		if !c.need(lg.Op == OAlloc, "handed-out", t.At, t, "the constructor returns %s instead of the logger it made", clip(lg.String())) {
			continue
		}
		st := ptrElem(lg.Typ).Underlying().(*types.Struct)
		hit := -1
		for i := 0; i < st.NumFields(); i++ {
			if !isIntT(st.Field(i).Type()) {
				continue
			}
			if v, ok := fieldAtEv(t, len(t.Evs), lg, st.Field(i).Name()); ok && v == lv {
				hit = i
			}
		}
		if c.need(hit >= 0 && (di < 0 || di == hit), "level-kept", t.At, t, "the configured level is not kept in the logger") {
			di = hit
		}
		inst, found := fieldAtEv(t, len(t.Evs), lg, st.Field(fi).Name())
		if !c.need(found && isCall(inst, "log.New"), "opened", t.At, t, "the logger is handed out with the output %s", clip(inst.String())) {
			continue
		}
		w := stripConv(inst.Args[0])
		isOut := func(x *Term, name string) bool {
			for _, s := range strs {
				if holds(facts, mkEq(s, mkStr(name))) {
					return true
				}
			}
			return false
		}
		switch {
		case globalIs(w, "os.Stdout"):
			std++
			c.need(isOut(w, "stdout"), "opened", t.At, t, "the logger writes to the standard output without this being configured")
		case globalIs(w, "os.Stderr"):
			std++
			c.need(isOut(w, "stderr"), "opened", t.At, t, "the logger writes to the standard error without this being configured")
		default:
			call := openedFile(w)
			if !c.need(call != nil, "opened", t.At, t, "the logger writes to %s", clip(w.String())) {
				continue
			}
			file++
			named := false
			for _, s := range strs {
				named = named || call.Args[0] == s
			}
			c.need(named, "opened", t.At, t, "the log file is %s instead of the configured output", clip(call.Args[0].String()))
			c.need(holdsNil(facts, call, 1), "opened", t.At, t, "the logger is handed out although its output may not have been opened")
			switch call.Name {
			case "os.OpenFile":
				fl, isC := call.Args[1].Int()
				c.need(isC && fl&3 != 0, "writable", t.At, t, "the log file is not opened for writing")
			case "os.Create":
			default:
				c.need(false, "writable", t.At, t, "the log file is not opened for writing")
			}
			for _, e := range t.Evs {
				if e.Kind == EvCall && e.Name == "(*os.File).Close" && e.arg(0) == w {
					c.need(false, "opened", e.At, t, "the log file is closed before the logger is handed out")
				}
			}
		}
	}
	c.atLeast(given, 3, "coverage", "paths that hand out a logger")
	c.atLeast(std, 2, "coverage", "paths that log to the standard output or error")
	c.atLeast(file, 1, "coverage", "paths that log to a file")
	// a logger is only used when the constructor reported no error
	uses := 0
	for _, caller := range c.P.Funcs {
		if caller == fn || !calls(caller, fn) {
			continue
		}
		only := func(f *ssa.Function) bool { return f == fn || f.Synthetic == "" && !reaches(f, fnName(fn)) }
		for _, t := range c.run(newExec(c.P, only), caller, params(caller), nil, nil) {
			for i, e := range t.Evs {
				if e.Kind != EvCall || e.Name != fnName(fn) {
					continue
				}
				uses++
				for j := i + 1; j < len(t.Evs); j++ {
					u := t.Evs[j]
					if u.Kind != EvStore && u.Kind != EvCall {
						continue
					}
					if !anyTerm(u, func(y *Term) bool { return y.Op == OExtract && y.N == 0 && y.Args[0] == e.Term }) {
						continue
					}
					c.need(holdsNil(factsAt(t, j), e.Term, 1), "checked", u.At, t, "the logger is used although creating it may have failed")
				}
			}
		}
	}
	c.atLeast(uses, 2, "coverage", "uses of the constructor")
	return di, sup
}

func calls(fn, callee *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == callee {
				return true
			}
		}
	}
	return false
}
