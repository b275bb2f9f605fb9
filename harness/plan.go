package main

import (
	"fmt"
	"math/rand"
)

// planners lists, per property, the episodes that are run against the real code.
var planners = map[string]func(cfg *Cfg) []job{}

func plan(cfg *Cfg) []job {
	p, ok := planners[cfg.prop]
	if !ok {
		must(fmt.Errorf("no plan for %s", cfg.prop))
	}
	return p(cfg)
}

// pick returns q in the quick tier and t in the thorough one.
func (c *Cfg) pick(q, t int) int {
	if c.quick {
		return q
	}
	return t
}

// scripted replays the scripts of a mode against the given kinds of stores.
func scripted(cfg *Cfg, mode string, kinds []string, unis []Universe, o seqOpt) []job {
	var jobs []job
	for i, sc := range cfg.scripts[mode] {
		for j, kind := range kinds {
			i, sc, kind := i, sc, kind
			oo := o
			oo.uni = unis[(i+j)%len(unis)]
			name := fmt.Sprintf("%s%d/%s/%s", mode, i, kind, oo.uni.Name)
			jobs = append(jobs, job{name: name, run: func() *Ep {
				sut := newSUT(kind)
				defer sut.close()
				oo.readTwice = sut.enc
				return runScript(sut, sc, oo, cfg.seed*1000003+int64(i), name)
			}})
		}
	}
	return jobs
}

var localKinds = []string{"mem", "ldb", "memmp", "ldbmp"}

// randomUniverse makes names out of the pieces the stores build their keys from.
func randomUniverse(rnd *rand.Rand, n int) Universe {
	pieces := []string{"a", "b", "$!", "$", "!", "$$", "\x00", "\x01", "\u00ff", "0", "!$", "at", "gsn", "12345678", "aa", "$all$"}
	switch rnd.Intn(4) {
	case 0:
		pieces = []string{"$!", "$", "!", "a"}
	case 1: // what looks alike
		pieces = []string{"a", "A", " ", "\t", "\n", "\r", "\u00a0", "\u00e9", "e\u0301", "/", "//", ".", "-", "_", "%20", "+", "\u200b"}
	}
	name := func() string {
		s := ""
		for k := rnd.Intn(4); k >= 0; k-- {
			s += pieces[rnd.Intn(len(pieces))]
		}
		return s
	}
	distinct := func(k int) []string {
		seen := map[string]bool{}
		var out []string
		for len(out) < k {
			x := name()
			if len(out) > 0 && rnd.Intn(2) == 0 {
				x = out[rnd.Intn(len(out))] + name()
			}
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		return out
	}
	return Universe{fmt.Sprintf("random%d", n), distinct(4), distinct(3)}
}

func randomUniverses(cfg *Cfg, n int) []Universe {
	rnd := rand.New(rand.NewSource(cfg.seed*77 + 5))
	us := append([]Universe{}, universes...)
	for i := 0; i < n; i++ {
		us = append(us, randomUniverse(rnd, i))
	}
	return us
}

func init() {
	planners["P01"] = func(cfg *Cfg) []job {
		jobs := scripted(cfg, "mix", allKinds, universes, seqOpt{observe: 1, bigNums: true})
		for _, kind := range allKinds {
			jobs = append(jobs, longLog(cfg, kind, cfg.pick(310, 1200)))
		}
		return jobs
	}
	planners["P02"] = func(cfg *Cfg) []job {
		jobs := scripted(cfg, "del", localKinds, universes, seqOpt{})
		jobs = append(jobs, scripted(cfg, "save", allKinds, universes, seqOpt{})...)
		for _, kind := range allKinds {
			jobs = append(jobs, longLog(cfg, kind, cfg.pick(310, 1200)))
		}
		return jobs
	}
	planners["P03"] = func(cfg *Cfg) []job {
		jobs := scripted(cfg, "save", allKinds, universes, seqOpt{subs: true})
		for i := 0; i < cfg.pick(2, 12); i++ {
			for j, kind := range allKinds {
				jobs = append(jobs, largeBatches(cfg, kind, i*3+j))
			}
		}
		return append(jobs, failureJobs(cfg)...)
	}
	planners["P04"] = func(cfg *Cfg) []job {
		jobs := scripted(cfg, "opt", allKinds, universes, seqOpt{})
		for _, kind := range allKinds {
			jobs = append(jobs, longLog(cfg, kind, cfg.pick(210, 1200)))
		}
		return jobs
	}
	planners["P05"] = func(cfg *Cfg) []job {
		return scripted(cfg, "del", allKinds, universes, seqOpt{subs: true})
	}
	planners["P06"] = func(cfg *Cfg) []job {
		return scripted(cfg, "mix", []string{"mem", "ldb", "rldb", "ldbmp"}, randomUniverses(cfg, cfg.pick(60, 400)), seqOpt{observe: 1})
	}
}
