package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func dumpState(st *State) {
	var ks []string
	for k, c := range st.mem {
		ks = append(ks, fmt.Sprintf("%s = %v", k, c.v))
	}
	sort.Strings(ks)
	fmt.Println(strings.Join(ks, "\n"))
	fmt.Println("facts", st.facts)
	for _, e := range st.events {
		fmt.Println(" ev", e.Kind, e.Args)
	}
}

var dbgHeap = os.Getenv("SA_DUMP") != ""
