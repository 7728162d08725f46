package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C58", "Effect analysis: every write to module state on every path a request can take, by the object and field it belongs to (only the limiter's cache, of fixed size, and the metrics may be among them), and every call in request code that changes files, processes or library state", ruleC58)
}

// leavesBehind: library calls that change something that outlives the request.
func leavesBehind(name string) string {
	switch name {
	case "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "syscall.Chdir", "syscall.Umask", "syscall.Setenv", "(*os.File).Chdir":
		return "the process"
	case "mime.AddExtensionType", "net/http.Handle", "net/http.HandleFunc", "(*net/http.ServeMux).Handle", "(*net/http.ServeMux).HandleFunc",
		"log.SetOutput", "log.SetPrefix", "log.SetFlags", "(*log.Logger).SetOutput", "(*log.Logger).SetPrefix", "(*log.Logger).SetFlags",
		"math/rand.Seed", "(*golang.org/x/time/rate.Limiter).SetLimit", "(*golang.org/x/time/rate.Limiter).SetBurst",
		"(*golang.org/x/time/rate.Limiter).SetLimitAt", "(*golang.org/x/time/rate.Limiter).SetBurstAt",
		"(*html/template.Template).Parse", "(*html/template.Template).ParseFiles", "(*html/template.Template).ParseGlob", "(*html/template.Template).AddParseTree", "(*html/template.Template).Funcs", "(*html/template.Template).Delims", "(*html/template.Template).Option",
		"runtime.GOMAXPROCS", "runtime/debug.SetGCPercent":
		return "library state"
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll", "os.Truncate",
		"os.Chmod", "os.Chown", "os.Chtimes", "os.Link", "os.Symlink", "os.CreateTemp", "os.MkdirTemp", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.OpenFile":
		return "files"
	case "os/exec.Command", "os/exec.CommandContext", "os.StartProcess", "syscall.Exec", "syscall.Kill", "(*os.Process).Kill", "(*os.Process).Signal":
		return "processes"
	}
	return ""
}

// keeps: methods that change the synchronised container or counter they are called on.
func keeps(name string) bool {
	for _, p := range []string{"(*sync.Map).", "(*sync/atomic.", "(*container/list.List).", "(*container/ring.Ring).", "container/heap."} {
		if !strings.HasPrefix(name, p) {
			continue
		}
		m := name[strings.LastIndexByte(name, '.')+1:]
		switch m {
		case "Load", "Range", "Front", "Back", "Len", "Next", "Prev", "Do":
			return false
		}
		return true
	}
	return false
}

func ruleC58(c *Ctx) {
	met := c.metricsSchema()
	if met == nil {
		return
	}
	_, accs := c.raceAccesses()
	req := c.P.requestFuncs()
	metName := shortOwner(met.T.Obj().Pkg().Path() + "." + met.T.Obj().Name())
	allowed := func(class string) (ok, ring bool) {
		if strings.HasPrefix(class, metName+".") {
			return true, false
		}
		return strings.HasPrefix(class, "cache."), true
	}
	writes, rings := 0, 0
	for _, a := range accs {
		if !a.write || !req[a.root.fn] || c.syncField(a.loc) {
			continue
		}
		writes++
		ok, ring := allowed(a.class)
		if !c.need(ok, "leaves-nothing", a.at, a.t, "%s changes %s while it handles a request", a.fn, a.class) || !ring {
			continue
		}
		// what is kept per client has a fixed size
		rings++
		for _, e := range a.t.Evs {
			if e.At != a.at {
				continue
			}
			switch e.Kind {
			case EvMapSet:
				c.need(e.Name == "delete", "bounded-memory", e.At, a.t, "%s adds an entry to a map in %s for every new client, so that the memory grows with the number of clients", a.fn, a.class)
			case EvStore:
				c.need(!grows(e.arg(0), e.Term), "bounded-memory", e.At, a.t, "%s appends to %s, which grows with the number of requests", a.fn, a.class)
			}
		}
	}
	calls, sites := 0, 0
	for _, fn := range c.P.Funcs {
		if !req[fn] {
			continue
		}
		sites++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, isGo := in.(*ssa.Go); isGo {
					c.need(false, "leaves-nothing", g.Pos(), nil, "%s starts a goroutine, which outlives the request it belongs to", shortName(fnName(fn)))
					continue
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				calls++
				name := calleeName(ci.Common())
				what := leavesBehind(name)
				c.need(what == "", "leaves-nothing", in.Pos(), nil, "%s changes %s (%s) while it handles a request", shortName(fnName(fn)), what, shortName(name))
				if !keeps(name) || len(ci.Common().Args) == 0 {
					continue
				}
				set := map[string]bool{}
				c.P.chain(ci.Common().Args[0], set, false, 0)
				for k := range set {
					if strings.HasPrefix(k, "captured ") || strings.HasPrefix(k, "param ") {
						continue
					}
					ok, _ := allowed(k)
					c.need(ok, "leaves-nothing", in.Pos(), nil, "%s changes %s while it handles a request", shortName(fnName(fn)), k)
				}
			}
		}
	}
	c.atLeast(writes, 5, "coverage", "writes to module state in request code")
	c.atLeast(rings, 3, "coverage", "writes to the cache")
	c.atLeast(calls, 60, "coverage", "calls in request code")
	c.atLeast(sites, 15, "coverage", "functions of request code")
}

// grows: the value is the container at the location with something appended.
func grows(v, loc *Term) bool {
	return v != nil && v.contains(func(y *Term) bool { return y.Op == OAppend })
}
