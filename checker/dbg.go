package main

import (
	"fmt"
	"os"
)

func dbg(f string, a ...any) {
	if os.Getenv("DBG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
