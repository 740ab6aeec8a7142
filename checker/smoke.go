package main

import (
	"fmt"
	"time"
)

func smoke(p *Prog) {
	t0 := time.Now()
	over := 0
	for _, fn := range p.Funcs {
		e := newEng(p)
		e.MaxSteps = 40000
		t := time.Now()
		e.Run(fn, nil)
		if e.Over != "" || time.Since(t) > time.Second {
			over++
			fmt.Println(fnName(fn), "!!!", e.steps, e.Over, e.maxState, time.Since(t))
		}
	}
	fmt.Println(over, time.Since(t0))
}
