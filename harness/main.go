package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Cfg struct {
	prop    string
	tier    string
	seed    int64
	out     string
	scripts map[string][][]scriptOp
	quick   bool
	workers int
	wait    int // workers when episodes mostly wait
}

type job struct {
	name string
	run  func() *Ep
	many func(emit func(*Ep)) // a job of several episodes
}

var deadEps int64

func main() {
	var cfg Cfg
	var only string
	flag.StringVar(&cfg.prop, "prop", "P01", "property")
	flag.StringVar(&cfg.tier, "tier", "quick", "tier")
	flag.Int64Var(&cfg.seed, "seed", 1, "seed")
	flag.StringVar(&cfg.out, "out", "", "output directory")
	flag.StringVar(&only, "only", "", "run only episodes whose name contains this")
	flag.IntVar(&cfg.workers, "workers", 8, "parallel episodes")
	flag.Parse()
	cfg.quick = cfg.tier != "thorough"
	if only == "" && flag.NArg() > 0 {
		childMain(flag.Args())
		return
	}
	scratchRoot = cfg.out + "/scratch"
	must(os.MkdirAll(scratchRoot, 0755))
	cfg.scripts = map[string][][]scriptOp{}
	files, _ := filepath.Glob(cfg.out + "/scripts-*.ndjson")
	for _, file := range files {
		f, err := os.Open(file)
		must(err)
		mode := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(file), "scripts-"), ".ndjson")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			var s []scriptOp
			must(json.Unmarshal(sc.Bytes(), &s))
			cfg.scripts[mode] = append(cfg.scripts[mode], s)
		}
	}
	log.SetOutput(io.Discard)
	jobs := plan(&cfg)
	w := newWriter(cfg.out, 8)
	ch := make(chan job)
	var wg sync.WaitGroup
	start := time.Now()
	var mu sync.Mutex
	running := map[string]bool{}
	var longest time.Duration
	longestName := ""
	note := func() {
		var names []string
		for n := range running {
			names = append(names, n)
		}
		_ = os.WriteFile(cfg.out+"/running", []byte(strings.Join(names, "\n")), 0644)
	}
	for i := 0; i < cfg.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if atomic.LoadInt64(&deadEps) >= 4 {
					continue // enough calls did not return
				}
				mu.Lock()
				running[j.name] = true
				note()
				mu.Unlock()
				emit := func(ep *Ep) {
					w.add(ep)
					if ep.isDead() {
						atomic.AddInt64(&deadEps, 1)
					}
				}
				if j.many != nil {
					j.many(emit)
				} else {
					begun := time.Now()
					done := make(chan *Ep, 1)
					go func() { done <- j.run() }()
					select {
					case ep := <-done:
						if ep != nil {
							emit(ep)
						}
					case <-time.After(hangLimit(&cfg)):
						emit(hungEpisode(j.name, cfg.out))
					}
					mu.Lock()
					if d := time.Since(begun); d > longest {
						longest, longestName = d, j.name
					}
					mu.Unlock()
				}
				mu.Lock()
				delete(running, j.name)
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		if only == "" || strings.Contains(j.name, only) {
			ch <- j
		}
	}
	close(ch)
	wg.Wait()
	w.close()
	_ = os.RemoveAll(scratchRoot)
	sum, _ := json.Marshal(map[string]interface{}{"episodes": w.eps, "lines": w.lines, "sigs": w.sigs, "secs": time.Since(start).Seconds(), "longest": longest.Seconds(), "longestName": longestName})
	must(os.WriteFile(cfg.out+"/summary.json", sum, 0644))
	fmt.Println(string(sum))
}

// hangLimit is far more than any episode takes.
func hangLimit(cfg *Cfg) time.Duration {
	if cfg.quick {
		return 100 * time.Second
	}
	return 600 * time.Second
}
