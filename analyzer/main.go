package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	dump := flag.String("dump", "", "dump the graph of pkg:type:func")
	dir := flag.String("dir", "/verif", "where evidence and known findings live")
	tier := flag.String("tier", "quick", "tier recorded in the evidence")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	debug.SetGCPercent(800)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	e, err := Load(*repo)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if err != nil {
		// the program could not be type-checked: nothing is established
		for _, id := range flag.Args() {
			rep := filepath.Join(*dir, "evidence", id+".violation.txt")
			os.MkdirAll(filepath.Dir(rep), 0o755)
			os.WriteFile(rep, []byte("load: "+err.Error()+"\n"), 0o644)
			fmt.Printf("%s: the repository does not load: %v\nVIOLATION property=%s replay=%s\n", id, err, id, rep)
		}
		os.Exit(1)
	}
	if *dump == "" {
		w := newWorld(e)
		fail := false
		for _, id := range flag.Args() {
			found := false
			for _, p := range props {
				if p.ID == id || id == "all" {
					found = true
					if runProp(w, p, *dir, *tier, seed) {
						fail = true
					}
				}
			}
			if !found {
				fmt.Printf("no check for %s\n", id)
				os.Exit(2)
			}
		}
		if fail {
			pprof.StopCPUProfile()
			os.Exit(1)
		}
		return
	}
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	if *dump != "" {
		p := strings.Split(*dump, ":")
		fn := e.fnByName(p[0], p[1], p[2])
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		e.noOpaque[fn] = true
		t0 = time.Now()
		g := e.explore("root", fn, nil, nil, newState(), 0)
		fmt.Fprintf(os.Stderr, "explored in %v\n", time.Since(t0))
		dumpGraph(e, g, map[*Graph]bool{})
	}
}

func dumpGraph(e *Engine, g *Graph, seen map[*Graph]bool) {
	if seen[g] {
		return
	}
	seen[g] = true
	fmt.Printf("=== %s %s nodes=%d undec=%v\n", g.Name, g.Fn, len(g.Nodes), g.Undec)
	for _, n := range g.Nodes {
		h := ""
		if n.Head != nil {
			h = " LOOP"
			for s, v := range n.Init {
				h += fmt.Sprintf("\n      init %s := %s", s, v)
			}
		}
		ev := ""
		if n.Ev != nil {
			var as []string
			for _, a := range n.Ev.Args {
				as = append(as, a.String())
			}
			ev = fmt.Sprintf(" %s %s(%s) @%s", evNames[n.Ev.Kind], n.Ev.Name, strings.Join(as, " ; "), e.pos(n.Ev.Pos))
		}
		fmt.Printf("  n%d %s.%d%s%s\n", n.id, n.ctx.fn.Name(), n.b.Index, h, ev)
		for _, ed := range n.Out {
			var fs []string
			for _, f := range ed.Facts {
				fs = append(fs, fmt.Sprintf("%v=%v", f.C, f.V))
			}
			b := ""
			if ed.Back != nil {
				b = " BACK"
			}
			fmt.Printf("      -> n%d%s %s\n", ed.To.id, b, strings.Join(fs, " && "))
		}
	}
	for _, li := range g.Loops {
		for _, b := range li.Backs {
			fmt.Printf("  loop %s.%d back from n%d to n%d\n", li.Key.c.fn.Name(), li.Key.b.Index, b.From.id, b.H.id)
			for s, v := range b.Vals {
				if s != v {
					if v != nil && v.op == OpMapUpd {
						if vv := b.St.mem[verKey(v.args[2])]; vv != nil {
							fmt.Printf("      content %s\n", vv.show(20))
						}
					}
					fmt.Printf("      %s <- %s\n", s, v)
				}
			}
		}
	}
	for _, n := range g.Nodes {
		if n.Ev != nil {
			if n.Ev.Task != nil {
				dumpGraph(e, n.Ev.Task, seen)
			}
			for _, t := range n.Ev.Tasks {
				dumpGraph(e, t, seen)
			}
		}
	}
	_ = sort.Strings
}
