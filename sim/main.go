package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	verif, _ = filepath.Abs(verif)
	repo := os.Getenv("REPO_DIR")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: driver check ID | replay FILE | warm x")
		os.Exit(2)
	}
	code := 2
	func() {
		switch os.Args[1] {
		case "check":
			code = runCheck(os.Args[2], verif, repo)
		case "replay":
			code = runReplay(os.Args[2], verif, repo)
		case "warm":
			base := scratchBase()
			defer os.RemoveAll(base)
			buildSUT(repo, filepath.Join(verif, "sim"), filepath.Join(base, "build"), false, false, true)
			code = 0
		case "list":
			var l []string
			for k := range props {
				l = append(l, k)
			}
			sort.Strings(l)
			fmt.Println(l)
			code = 0
		}
	}()
	os.Exit(code)
}
