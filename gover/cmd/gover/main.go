// Command gover decides one property of the tree in /repo.
package main

import (
	"fmt"
	"os"
	"strconv"

	"gover/check"
)

func main() {
	cfg := check.Config{Repo: "/repo", Verif: "/verif", Tier: "quick", Seed: 1}
	if v := os.Getenv("VERIF_TIER"); v != "" {
		cfg.Tier = v
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		cfg.Seed = v
	}
	if v := os.Getenv("GOVER_VERIF"); v != "" {
		cfg.Verif = v
	}
	if v := os.Getenv("GOVER_REPO"); v != "" {
		cfg.Repo = v
	}
	switch {
	case len(os.Args) == 3 && os.Args[1] == "replay":
		os.Exit(check.Replay(cfg, os.Args[2]))
	case len(os.Args) == 2:
		os.Exit(check.Main(cfg, os.Args[1]))
	}
	fmt.Fprintln(os.Stderr, "usage: gover <property> | gover replay <file>")
	os.Exit(2)
}
