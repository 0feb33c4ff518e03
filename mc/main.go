// Command mc runs the exhaustive checks of /verif.
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	_ "verif/mc/checks"
	"verif/mc/hx"
)

func main() {
	if d := os.Getenv("MC_VERIF"); d != "" {
		hx.VerifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: mc run ID | mc replay FILE | mc list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		hx.WorkerMain(os.Args[2:])
	case "list":
		fmt.Println(strings.Join(hx.IDs(), "\n"))
	case "replay":
		os.Exit(hx.ReplayFile(os.Args[2]))
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		budget := 150 * time.Second
		if tier == "thorough" {
			budget = 750 * time.Second
		}
		if b, err := strconv.Atoi(os.Getenv("MC_BUDGET_S")); err == nil {
			budget = time.Duration(b) * time.Second
		}
		jobs, _ := strconv.Atoi(os.Getenv("MC_JOBS"))
		os.Exit(hx.RunCheck(os.Args[2], hx.Options{Tier: tier, Seed: seed, Budget: budget, Jobs: jobs}))
	default:
		fmt.Println("unknown command", os.Args[1])
		os.Exit(2)
	}
}
