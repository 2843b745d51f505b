package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// World holds the explored roots shared by the checks.
type World struct {
	e     *Engine
	roots map[string]*Graph
	seqs  []*Seq
	seqOK bool
	hnd   map[string][]*Handler
	memo  map[string]any

	builders []builder // the loops used to tell what a slice holds
}

func newWorld(e *Engine) *World {
	return &World{e: e, roots: map[string]*Graph{}, hnd: map[string][]*Handler{}, memo: map[string]any{}}
}

// root explores one entry point with unknown arguments.
func (w *World) root(pkg, typ, name string) *Graph {
	return w.rootFn(pkg+":"+typ+":"+name, name, w.e.fnByName(pkg, typ, name))
}

func (w *World) rootFn(k, name string, fn *ssa.Function) *Graph {
	if g, ok := w.roots[k]; ok {
		return g
	}
	var g *Graph
	if fn != nil && len(fn.Blocks) > 0 {
		was := w.e.noOpaque[fn]
		w.e.noOpaque[fn] = true
		g = w.e.explore("root "+name, fn, nil, nil, newState(), 0)
		w.e.noOpaque[fn] = was
	}
	w.roots[k] = g
	setParents(g)
	return g
}

// setParents links every task graph to the graph that starts it.
func setParents(g *Graph) {
	if g == nil {
		return
	}
	for _, h := range closureGraphs(g) {
		for _, n := range h.Nodes {
			if n.Ev == nil {
				continue
			}
			for _, t := range append([]*Graph{n.Ev.Task}, n.Ev.Tasks...) {
				if t != nil && t.Parent == nil && t != g {
					t.Parent = h
				}
			}
		}
	}
}

func (w *World) submit() *Graph { return w.root("internal/ctsubmit", "", "MainMain") }

// --- properties -------------------------------------------------------------------------

type Prop struct {
	ID    string
	Level string
	Run   func(c *Check)
}

var props []Prop

func register(id string, run func(c *Check)) { props = append(props, Prop{ID: id, Run: run}) }

type finding struct{ Property, Rule, Construct, Note string }

// knownFindings reads the committed list; a finding is identified by property,
// rule and construct.
func knownFindings(dir string) []finding {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var fs struct {
		Findings []finding `json:"findings"`
	}
	if json.Unmarshal(b, &fs) != nil {
		return nil
	}
	return fs.Findings
}

func runProp(w *World, p Prop, dir, tier string, seed int) (failed bool) {
	t0 := time.Now()
	c := &Check{w: w, id: p.ID, graphs: map[*Graph]bool{}, counts: map[string]int{}}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("ITKOV_PANIC") != "" {
					panic(x)
				}
				c.bad("internal", "analysis", "?", "the analysis did not complete: %v", x)
			}
		}()
		p.Run(c)
	}()
	fns := map[string]bool{}
	nodes, edges := 0, 0
	for g := range c.graphs {
		for f := range g.Funcs {
			fns[f.String()] = true
		}
		nodes += len(g.Nodes)
		for _, n := range g.Nodes {
			edges += len(n.Out)
		}
		for _, u := range g.Undec {
			c.bad("decidable", "analysis of "+g.Fn.String(), w.e.pos(g.Fn.Pos()), "undecided: %s", u)
		}
	}
	if len(c.obs) == 0 {
		c.bad("internal", "analysis", "?", "no obligation was generated")
	}
	known := knownFindings(dir)
	var viol []Ob
	discharged := 0
	suppressed := []string{}
	rules := map[string]int{}
	for _, o := range c.obs {
		rules[o.Rule]++
		if o.OK {
			discharged++
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.Property == p.ID && k.Rule == o.Rule && k.Construct == o.Construct {
				isKnown = true
				suppressed = append(suppressed, fmt.Sprintf("%s: %s", o.Construct, k.Note))
			}
		}
		if !isKnown {
			viol = append(viol, o)
		}
	}
	sort.Strings(suppressed)
	last := ""
	for _, s := range suppressed {
		if s != last {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, s)
		}
		last = s
	}
	var fl []string
	for f := range c.more {
		fns[f] = true
	}
	for f := range fns {
		fl = append(fl, strings.ReplaceAll(f, w.e.modPath+"/", ""))
	}
	sort.Strings(fl)
	var rl []string
	for r, n := range rules {
		rl = append(rl, fmt.Sprintf("%s: %d", r, n))
	}
	sort.Strings(rl)
	var samples []string
	for i, o := range c.obs {
		if o.OK && (i%(len(c.obs)/8+1) == 0) {
			samples = append(samples, o.Rule+" @ "+o.Construct+" "+o.Where)
		}
	}
	cov := map[string]any{
		"explanation":          "static analysis of the type-checked SSA form of /repo's current tree: every path of the listed functions was interpreted abstractly to a fixpoint, and each rule was applied to every construct it matches; an obligation is one rule instance",
		"obligations":          len(c.obs),
		"discharged":           discharged,
		"known_findings":       len(suppressed),
		"rules":                rl,
		"functions":            fl,
		"functions_analysed":   len(fl),
		"task_graphs":          len(c.graphs),
		"supergraph_nodes":     nodes,
		"supergraph_edges":     edges,
		"undischarged":         viol,
		"sample_obligations":   samples,
		"exhaustive":           true,
		"restarts_to_fixpoint": w.e.restarts,
		"nodes_explored":       w.e.steps,
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": []string{"the summaries of external packages in analyzer/engine.go (which calls are pure, which write through their arguments)", "Go memory model; no unsafe or reflection-based writes in the analysed code"}}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	rep := filepath.Join(dir, "evidence", p.ID+".violation.txt")
	os.Remove(rep)
	if len(viol) == 0 {
		fmt.Printf("%s: held; %d obligations in %d functions (%d supergraph nodes)\n", p.ID, len(c.obs), len(fl), nodes)
		return false
	}
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "[%s] %s (%s)\n    %s\n", o.Rule, o.Construct, o.Where, o.Detail)
		for _, s := range o.Path {
			fmt.Fprintf(&sb, "      via %s\n", s)
		}
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rep)
	return true
}
