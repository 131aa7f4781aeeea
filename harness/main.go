package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness run|worker|op ...")
		os.Exit(2)
	}
	mode := os.Args[1]
	if mode == "op" {
		opMain(os.Args[2:])
		return
	}
	if mode == "rusage" {
		rusageMain(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	cfg := &Config{}
	fs.StringVar(&cfg.Prop, "prop", "", "")
	fs.StringVar(&cfg.Tier, "tier", "quick", "")
	fs.Int64Var(&cfg.Seed, "seed", 1, "")
	fs.StringVar(&cfg.CLI, "cli", "", "")
	fs.StringVar(&cfg.Fast, "fast", "", "")
	fs.StringVar(&cfg.Scratch, "scratch", "", "")
	fs.IntVar(&cfg.Workers, "workers", 0, "")
	fs.IntVar(&cfg.Every, "every", 1, "")
	fs.StringVar(&cfg.Must, "must", "", "")
	fs.StringVar(&cfg.Skip, "skip", "", "")
	only := fs.String("case", "", "")
	evidence := fs.String("evidence", "", "")
	replay := fs.String("replaydir", "", "")
	knownFile := fs.String("known", "", "")
	list := fs.Bool("list", false, "")
	fs.Parse(os.Args[2:])
	cfg.Thorough = cfg.Tier == "thorough"
	if cfg.Workers <= 0 {
		cfg.Workers = runtime.NumCPU()
		if cfg.Workers < 2 {
			cfg.Workers = 2
		}
		if cfg.Workers > 8 {
			cfg.Workers = 8
		}
	}
	p := props[cfg.Prop]
	if p == nil {
		fmt.Println("INCONCLUSIVE: unknown property", cfg.Prop)
		os.Exit(2)
	}
	switch mode {
	case "worker":
		workerMain(cfg, p)
	case "run":
		if *list {
			for _, c := range p.Cases(cfg) {
				fmt.Println(c.Name)
			}
			return
		}
		args := []string{"-prop", cfg.Prop, "-tier", cfg.Tier, "-seed", fmt.Sprint(cfg.Seed), "-cli", cfg.CLI, "-fast", cfg.Fast, "-scratch", cfg.Scratch}
		os.Exit(parentMain(cfg, p, *only, *evidence, *replay, *knownFile, args))
	default:
		fmt.Println("unknown mode " + strings.TrimSpace(mode))
		os.Exit(2)
	}
}
