// Command verif decides the properties of go-docx by generated-input search.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/pbt"
	"verif/props"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: verif run|replay|work PROPERTY …")
		os.Exit(2)
	}
	p := props.Find(os.Args[2])
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(2)
	}
	env := &pbt.Env{Verif: os.Getenv("VERIF_DIR"), Tier: os.Getenv("VERIF_TIER"), Seed: 1, Scratch: os.Getenv("VERIF_SCRATCH")}
	if env.Verif == "" {
		env.Verif = "/verif"
	}
	if env.Out = os.Getenv("VERIF_DEV_OUT"); env.Out == "" {
		env.Out = env.Verif
	}
	if env.Tier != "thorough" {
		env.Tier = "quick"
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		env.Seed = s
	}
	if env.Scratch == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		env.Scratch = d
	}
	props.Scratch = env.Scratch
	switch os.Args[1] {
	case "run":
		var extra []string
		if p.Race {
			extra = append(extra, pbt.RaceOpts)
		}
		self, _ := os.Executable()
		code := pbt.Supervise(p, env, []string{self}, extra)
		os.Exit(code)
	case "replay":
		os.Exit(pbt.RunReplay(p, env, os.Args[3]))
	case "work":
		// work ID tier seed out slots only skip budget
		a := os.Args[3:]
		env.Tier = a[0]
		env.Seed, _ = strconv.ParseInt(a[1], 10, 64)
		skip := map[string]bool{}
		for _, s := range strings.Split(a[5], ",") {
			if s != "" {
				skip[s] = true
			}
		}
		budget, _ := time.ParseDuration(a[6])
		props.Scratch = filepath.Dir(a[2])
		if err := pbt.Worker(p, env, a[2], a[3], a[4], skip, budget); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(5)
		}
	}
}
