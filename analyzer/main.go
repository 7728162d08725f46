package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type check struct {
	id, technique string
	run           func(c *Ctx)
}

var checks = map[string]*check{}

func register(id, technique string, run func(c *Ctx)) { checks[id] = &check{id, technique, run} }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		dumpMain()
		return
	}
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence goes")
	tier := flag.String("tier", "quick", "quick or thorough")
	list := flag.Bool("list", false, "list checks")
	first := flag.Bool("first", false, "stop at the first check that reports (for measuring the checks on variants)")
	subst := flag.String("subst", "", "FILE=SRC: analyse with SRC in place of the repository's FILE (for measuring)")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\n", id, checks[id].technique)
		}
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	var over map[string][]byte
	if f, src, ok := strings.Cut(*subst, "="); ok {
		b, err := os.ReadFile(src)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		over = map[string][]byte{filepath.Join(*repo, f): b}
	}
	for _, id := range ids {
		if checks[id] == nil {
			fmt.Println("no check for", id)
			os.Exit(2)
		}
	}
	keepTerms()
	t0 := time.Now()
	p, err := loadProgram(*repo, nil, over)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		os.Exit(2)
	}
	load := time.Since(t0)
	code := 0
	report := func(c *Ctx, took time.Duration) {
		if r := c.report(*verif, *tier, seed, "other", checks[c.ID].technique, took); r > code {
			code = r
		}
	}
	var cs []*Ctx
	var took []time.Duration
	for _, id := range ids {
		t := time.Now()
		c := newCtx(p, id)
		checks[id].run(c)
		if *tier == "thorough" {
			cs, took = append(cs, c), append(took, load+time.Since(t))
			continue
		}
		report(c, load+time.Since(t))
		if *first && code != 0 {
			break
		}
	}
	if *tier == "thorough" {
		thorough(cs, took, *repo, over)
		for i, c := range cs {
			report(c, took[i])
		}
	}
	os.Exit(code)
}

// platforms are the targets the thorough tier analyses besides the one the checks run on: files and constants
// (runtime.GOOS, sizes of integers) differ between them.
var platforms = []struct{ os, arch string }{
	{"windows", "amd64"}, {"linux", "386"}, {"darwin", "arm64"}, {"freebsd", "amd64"},
}

func thorough(cs []*Ctx, took []time.Duration, repo string, over map[string][]byte) {
	for _, pl := range platforms {
		name := pl.os + "/" + pl.arch
		resetTerms()
		t := time.Now()
		p, err := loadProgram(repo, []string{"GOOS=" + pl.os, "GOARCH=" + pl.arch, "CGO_ENABLED=0"}, over)
		load := time.Since(t)
		for i, c := range cs {
			if err != nil {
				c.Notes = append(c.Notes, "not analysed for "+name+": "+err.Error())
				continue
			}
			t := time.Now()
			d := newCtx(p, c.ID)
			checks[c.ID].run(d)
			c.merge(d, name)
			took[i] += load + time.Since(t)
		}
	}
}

func dumpMain() {
	p, err := loadProgram(os.Args[2], nil, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c := newCtx(p, "dbg")
	pol := c.opq()
	if os.Args[3] == "loops" {
		dbgLoops(p)
		return
	}
	if len(os.Args) > 6 {
		pol = c.opq(os.Args[6:]...)
	}
	t := time.Now()
	if strings.Contains(os.Args[5], "$") {
		for _, fn := range p.Funcs {
			if fn.Name() == os.Args[5] && p.relOf(fn) == os.Args[3] {
				for _, r := range c.explore(fn, pol) {
					fmt.Println("RUN", len(r.Traces), r.X.Err, time.Since(t))
					dumpTraces(p, r.Traces)
				}
			}
		}
		return
	}
	x := newExec(p, pol)
	var fn = p.method(os.Args[3], os.Args[4], os.Args[5])
	if os.Args[4] == "" {
		fn = p.fn(os.Args[3], os.Args[5])
	}
	ts := x.Run(fn, params(fn), nil, nil)
	fmt.Println(x.Err, len(ts), x.steps, time.Since(t))
	dumpTraces(p, ts)
}
