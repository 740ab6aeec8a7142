package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// checks maps a property to the function that decides it.
var checks = map[string]func(*Ck){}

// aferoChecks are the properties decided for the aferofs module too.
var aferoChecks = map[string]bool{
	"C11": true, "C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C17": true, "C18": true, "C27": true, "C40": true,
}

func main() {
	prop := flag.String("prop", "", "property id, comma separated, or all")
	repo := flag.String("repo", "/repo", "tree to analyse")
	tier := flag.String("tier", "", "quick or thorough")
	ev := flag.String("evidence", "", "evidence directory")
	known := flag.String("known", "/verif/known_findings.json", "known findings")
	trace := flag.String("trace", "", "debug: run the engine on one function")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	var kf []knownFinding
	if b, err := os.ReadFile(*known); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known findings:", err)
			os.Exit(2)
		}
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else if *prop != "" {
		ids = strings.Split(*prop, ",")
	}
	p, err := loadRepo(*repo, "")
	if err != nil {
		for _, id := range ids {
			// A tree that does not load cannot be shown to hold anything.
			fmt.Printf("cannot analyse the tree: %v\nVIOLATION property=%s replay=-\n", err, id)
		}
		os.Exit(1)
	}
	if *trace == "smoke" {
		smoke(p)
		return
	}
	if *trace != "" {
		for _, fn := range p.Funcs {
			if fnName(fn) == *trace {
				e := newEng(p)
				e.MaxSteps = 100000
				e.Dump = true
				t := time.Now()
				e.Run(fn, nil)
				fmt.Println(e.Over, e.steps, time.Since(t))
				fmt.Println(e.dumpSt)
			}
		}
		return
	}
	progs := map[bool][]*Prog{false: {p}}
	for _, id := range ids {
		if aferoChecks[id] && progs[true] == nil {
			a, err := loadAfero(*repo)
			if err != nil {
				fmt.Printf("cannot analyse aferofs: %v\nVIOLATION property=%s replay=-\n", err, id)
				os.Exit(1)
			}
			progs[true] = []*Prog{p, a}
		}
	}
	rc := 0
	type res struct {
		c *Ck
		d time.Duration
	}
	results := make([]res, len(ids))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, id := range ids {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			t := time.Now()
			c := newCk(p, id, *tier)
			results[i].c = c
			for _, pr := range progs[aferoChecks[id]] {
				c.P = pr
				runCheck(c, id)
			}
			results[i].d = time.Since(t)
		}()
	}
	wg.Wait()
	for i := range ids {
		s := start
		if len(ids) > 1 {
			s = time.Now().Add(-results[i].d)
		}
		if r := results[i].c.Finish(s, seed, kf, *ev); r != 0 {
			rc = r
		}
		if len(ids) > 1 {
			fmt.Println("   took", results[i].d)
		}
	}
	os.Exit(rc)
}

func runCheck(c *Ck, id string) {
	defer func() {
		if r := recover(); r != nil {
			c.bad("internal", "panic", "?", string(debug.Stack()), "checker failed: %v", r)
		}
	}()
	f := checks[id]
	if f == nil {
		c.bad("internal", "unknown property", "?", "", "no check for %s", id)
		return
	}
	f(c)
}
