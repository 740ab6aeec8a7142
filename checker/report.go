package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one broken obligation. Key identifies it without line numbers.
type Finding struct {
	Key   string
	Pos   string
	Msg   string
	Trace string
}

// Ck collects what one property's rules analysed and found.
type Ck struct {
	P        *Prog
	ID       string
	Tier     string
	viols    map[string]Finding
	Obl      map[string]int
	Rules    map[string]string
	Funcs    map[string]bool
	Calls    int
	Paths    int
	States   int
	Samples  map[string][]string
	Assume   []string
	floors   []floor
	oblSeen  map[string]bool
	selfTest []string
	Ladder   []int
}

type floor struct {
	rule string
	n    int
}

func newCk(p *Prog, id, tier string) *Ck {
	return &Ck{P: p, ID: id, Tier: tier, viols: map[string]Finding{}, Obl: map[string]int{}, Rules: map[string]string{}, Funcs: map[string]bool{}, Samples: map[string][]string{}, oblSeen: map[string]bool{}}
}

// Rule declares a rule and the number of obligations confirmed by hand: fewer
// means the rule lost its subject.
func (c *Ck) Rule(name, text string, min int) {
	c.Rules[name] = text
	c.floors = append(c.floors, floor{name, min})
}

// Did records one distinct obligation the rule looked at.
func (c *Ck) Did(rule, what string) {
	k := rule + "\x00" + what
	if c.oblSeen[k] {
		return
	}
	c.oblSeen[k] = true
	c.Obl[rule]++
	if len(c.Samples[rule]) < 6 {
		c.Samples[rule] = append(c.Samples[rule], what)
	}
}

// Bad records a violation. what is a stable name of the construct.
func (c *Ck) Bad(rule, what string, pos token.Pos, format string, args ...any) {
	c.bad(rule, what, c.P.rel(pos), "", format, args...)
}

func (c *Ck) BadAt(rule, what string, e *Eng, fr *Frame, in ssa.Instruction, format string, args ...any) {
	tr := ""
	if fr != nil {
		tr = e.Stack(fr, in)
	}
	c.bad(rule, what, c.P.rel(instrPos(in)), tr, format, args...)
}

func (c *Ck) bad(rule, what, pos, trace, format string, args ...any) {
	k := rule + ": " + what
	if _, ok := c.viols[k]; ok {
		return
	}
	c.viols[k] = Finding{Key: k, Pos: pos, Msg: fmt.Sprintf(format, args...), Trace: trace}
}

// Eng makes an engine whose coverage is accounted to the check.
func (c *Ck) Absorb(e *Eng) {
	for f := range e.Visited {
		c.Funcs[fnName(f)] = true
	}
	c.Calls += e.Calls
	c.Paths += e.Paths
	c.States += e.States
	e.Calls, e.Paths, e.States = 0, 0, 0
}

// RunEntry analyses one entry, with a coarser retry when the precise run
// exceeds its budget. Undecided is a violation.
func (c *Ck) RunEntry(mk func() *Eng, fn *ssa.Function, init func(e *Eng, st *State, ps []*Val)) {
	if fn == nil || fn.Blocks == nil {
		return
	}
	before := map[string]Finding{}
	for k, v := range c.viols {
		before[k] = v
	}
	lad := c.Ladder
	if lad == nil {
		lad = []int{8, 3, 1}
	}
	for i, k := range lad {
		c.viols = map[string]Finding{}
		for k, v := range before {
			c.viols[k] = v
		}
		e := mk()
		e.K, e.KOut = k, (k+1)/2+1
		if e.MaxSteps == 0 {
			e.MaxSteps = 150000
		}
		e.Run(fn, func(st *State, ps []*Val) {
			if init != nil {
				init(e, st, ps)
			}
		})
		c.Absorb(e)
		if e.Over == "" {
			return
		}
		if os.Getenv("CHK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "over", i, fnName(fn), e.Over, e.steps, e.maxState)
		}
	}
	c.Bad("undecided", fnName(fn), fn.Pos(), "analysis budget exceeded; the property is not decided here")
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
	Commit   string `json:"commit,omitempty"`
}

// Finish prints the verdict and writes evidence; it returns the exit code.
func (c *Ck) Finish(start time.Time, seed int, known []knownFinding, evDir string) int {
	for _, f := range c.floors {
		if c.Obl[f.rule] < f.n {
			c.bad(f.rule, "instances", "?", "", "only %d instances found, at least %d were confirmed by hand: the rule lost its subject", c.Obl[f.rule], f.n)
		}
	}
	kn := map[string]knownFinding{}
	for _, k := range known {
		if k.Property == c.ID && k.Status == "known" {
			kn[k.Key] = k
		}
	}
	var keys []string
	for k := range c.viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var fresh []Finding
	for _, k := range keys {
		if kf, ok := kn[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.ID, kf.What, k)
			continue
		}
		fresh = append(fresh, c.viols[k])
	}
	total := 0
	for _, n := range c.Obl {
		total += n
	}
	fns := make([]string, 0, len(c.Funcs))
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation": "Static analysis of the SSA form of the current source. Each rule below was applied to every instance found in the tree; an obligation is one (rule, construct) pair.",
		"rules":       c.Rules, "obligations": total, "discharged": total - len(c.viols), "obligations_by_rule": c.Obl,
		"functions_analysed": len(fns), "functions": fns, "call_sites_interpreted": c.Calls, "abstract_paths": c.Paths, "abstract_states": c.States,
		"samples": c.Samples, "known_findings_reported": len(c.viols) - len(fresh),
	}
	if total-len(c.viols) < 0 {
		cov["discharged"] = 0
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if evDir != "" {
		os.MkdirAll(evDir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644)
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d\n", c.ID, total, len(fns))
		return 0
	}
	var b strings.Builder
	for _, f := range fresh {
		fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", f.Key, f.Pos, f.Msg)
		if f.Trace != "" {
			fmt.Fprintf(&b, "  path: %s\n", f.Trace)
		}
	}
	fmt.Print(b.String())
	rp := "-"
	if evDir != "" {
		rp = filepath.Join(evDir, c.ID+".violations.txt")
		os.WriteFile(rp, []byte(b.String()), 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}
