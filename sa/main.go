package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
)

func main() {
	verif := os.Getenv("SA_VERIF")
	if verif == "" {
		verif, _ = os.Getwd()
	}
	repo := os.Getenv("SA_REPO")
	if repo == "" {
		repo = "/repo"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(os.Args) == 3 && os.Args[1] == "check" {
		c := checks[os.Args[2]]
		if c == nil {
			fmt.Printf("no check %s\n", os.Args[2])
			fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n", os.Args[2], os.Args[2])
			os.Exit(1)
		}
		os.Exit(run(c, verif, repo, tier, seed))
	}
	if len(os.Args) == 2 && os.Args[1] == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "checks" {
		// several checks, for development
		code := 0
		for _, id := range os.Args[2:] {
			if c := checks[id]; c != nil && run(c, verif, repo, tier, seed) != 0 {
				code = 1
			}
		}
		os.Exit(code)
	}
	if len(os.Args) >= 2 && os.Args[1] == "dump" {
		dump(repo, os.Args[2:])
		return
	}
	fmt.Println("usage: sa check ID | sa list")
	os.Exit(1)
}
