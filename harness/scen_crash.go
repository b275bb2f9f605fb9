package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A child process (this binary again) works on a LevelDB store and writes what
// it does to a log file. The parent freezes it after every system call that
// writes, and copies the database and the log: the state a kill at this moment
// leaves behind. Each copy is an episode: it is opened, observed and used.

// childMain: run <dir> <log> <kind> <seed> <ops> <workers> <prefix>
func childMain(args []string) {
	dir, logf, kind := args[1], args[2], args[3]
	seed, _ := strconv.Atoi(args[4])
	ops, _ := strconv.Atoi(args[5])
	workers, _ := strconv.Atoi(args[6])
	tagPrefix = args[7]
	f, err := os.OpenFile(logf, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	must(err)
	ep := newEp("child")
	ep.stream = f
	u := universes[seed%2]
	sut := openSUT(kind, dir)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		s := newSeqRun(ep, sut, seqOpt{uni: u}, int64(seed*31+w))
		s.c.conc = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < ops; i++ {
				st := 1 + s.rnd.Intn(3)
				switch x := s.rnd.Intn(20); {
				case x == 0 && i%2 == 0:
					s.batch(s.c, st, 30+s.rnd.Intn(120), -1)
				case x < 9:
					s.batch(s.c, st, 1+s.rnd.Intn(4), -1)
				case x < 12:
					s.batch(s.c, st, 1+s.rnd.Intn(3), s.streamLen(u.Streams[st-1]))
				case x < 15:
					s.c.del(u.Streams[st-1], s.streamLen(u.Streams[st-1]), cxNo)
				case x == 15:
					var evs []*Ev // (the clock is shared, so it stays)
					for i := 0; i < 3; i++ {
						evs = append(evs, newEv(0, u.Types[st-1], fmt.Sprintf("id%d", st), 1, 1, i%2, nil))
					}
					s.c.save(u.Streams[st-1], -1, evs, cxNo, nil)
				case x == 16:
					s.c.read("all", 0, "", nil, readOpt{})
				case x == 17:
					s.batch(s.c, st, 2, 99)
				default:
					if workers == 1 {
						s.c.reopen()
					}
				}
				if ep.isDead() {
					return
				}
			}
		}()
	}
	wg.Wait()
	sut.stopStore()
	_ = f.Close()
}

// readLog turns the log of a child into facts of ep.
func readLog(ep *Ep, b []byte) (facts int) {
	ks := map[int]int{}
	ids := map[int]int{}
	inv := map[int]line{}
	toInts := func(v interface{}) []int {
		out := []int{}
		if xs, ok := v.([]interface{}); ok {
			for _, x := range xs {
				out = append(out, ks[int(x.(float64))])
			}
		}
		return out
	}
	for _, ln := range bytes.SplitAfter(b, []byte("\n")) {
		if len(ln) == 0 || ln[len(ln)-1] != '\n' {
			break // not written completely
		}
		var l line
		if json.Unmarshal(ln, &l) != nil {
			break
		}
		switch l["e"] {
		case "rec":
			tag := l["tag"].(string)
			k := int(l["k"].(float64))
			delete(l, "tag")
			delete(l, "e")
			delete(l, "k")
			for _, f := range []string{"g", "q", "ts"} {
				l[f] = int(l[f].(float64))
			}
			key, _ := json.Marshal(l)
			ks[k] = ep.internLine(string(key), l, tag)
		case "inv":
			id := int(l["id"].(float64))
			ids[id] = 1000000*(1+ep.crashes) + id
			l["id"] = ids[id]
			if evs, ok := l["evs"].([]interface{}); ok {
				var evl []line
				for _, e := range evs {
					evl = append(evl, line(e.(map[string]interface{})))
				}
				if evl == nil {
					evl = []line{}
				}
				l["evs"] = evl
				ep.fixup = append(ep.fixup, func() {
					for _, e := range evl {
						e["k"] = ep.byTag[e["tag"].(string)]
					}
				})
			}
			inv[id] = l
			ep.log(l)
			facts++
		case "res":
			id := int(l["id"].(float64))
			for f, v := range l {
				if f != "e" && f != "id" {
					inv[id][f] = v
				}
			}
			if _, ok := l["out"]; ok {
				inv[id]["out"] = toInts(l["out"])
			}
			ep.mu.Lock()
			ep.sig[fmt.Sprintf("%s:%v", inv[id]["op"], l["r"])]++
			ep.mu.Unlock()
			ep.log(line{"e": "ret", "id": ids[id]})
			facts++
		}
	}
	ep.crashes++
	return facts
}

// signature of a directory: names, sizes and modification times.
func signature(dir string) string {
	es, _ := os.ReadDir(dir)
	var xs []string
	for _, e := range es {
		if e.Name() == "LOG" || e.Name() == "LOG.old" {
			continue
		}
		if i, err := e.Info(); err == nil {
			xs = append(xs, fmt.Sprintf("%s:%d:%d", e.Name(), i.Size(), i.ModTime().UnixNano()))
		} else {
			xs = append(xs, e.Name()+":gone")
		}
	}
	sort.Strings(xs)
	return strings.Join(xs, "|")
}

func copyDir(from, to string) error {
	if err := os.MkdirAll(to, 0755); err != nil {
		return err
	}
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range es {
		src, err := os.Open(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		dst, err := os.Create(filepath.Join(to, e.Name()))
		if err != nil {
			src.Close()
			return err
		}
		_, err = io.Copy(dst, src)
		src.Close()
		dst.Close()
		if err != nil {
			return err
		}
	}
	return nil
}

type snapshot struct {
	dir  string   // the database
	logs [][]byte // logs of the processes that worked on it, one after another
}

var straceWorks = func() func() bool {
	var once sync.Once
	ok := false
	return func() bool {
		once.Do(func() {
			ok = exec.Command("strace", "-qq", "-f", "-o", "/dev/null", "-e", "trace=write", "true").Run() == nil
		})
		return ok
	}
}()

func children(pid int) []int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%d/children", pid, pid))
	var out []int
	for _, f := range strings.Fields(string(b)) {
		n, _ := strconv.Atoi(f)
		out = append(out, n)
	}
	return out
}

func stopped(pid int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	return i > 0 && i+2 < len(s) && (s[i+2] == 't' || s[i+2] == 'T')
}

// crashStates runs a child on base (or a new database) and returns the states it passed through.
func crashStates(base *snapshot, kind string, seed, ops, workers int, prefix string) []snapshot {
	dir := scratch()
	db, logf := filepath.Join(dir, "db"), filepath.Join(dir, "log")
	var logs [][]byte
	if base != nil {
		must(copyDir(base.dir, db))
		logs = base.logs
	}
	exe, err := os.Executable()
	must(err)
	args := []string{exe, "-out", dir, "run", db, logf, kind, strconv.Itoa(seed), strconv.Itoa(ops), strconv.Itoa(workers), prefix}
	traced := straceWorks()
	if traced {
		args = append([]string{"strace", "-qq", "-f", "-o", "/dev/null", "-e",
			"inject=write,pwrite64,writev,rename,renameat,renameat2,unlink,unlinkat,ftruncate,fsync,fdatasync:signal=SIGSTOP"}, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	must(cmd.Start())
	done := goDone(func() { _ = cmd.Wait() })
	defer func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }()
	var out []snapshot
	seen := map[string]bool{}
	take := func() {
		for try := 0; try < 3; try++ {
			l1, _ := os.ReadFile(logf)
			s1 := signature(db)
			if seen[s1+fmt.Sprint(len(l1))] {
				return
			}
			to := filepath.Join(dir, fmt.Sprintf("c%d", len(out)))
			_ = os.RemoveAll(to)
			_ = os.MkdirAll(to, 0755)
			if err := copyDir(db, to); err != nil && !os.IsNotExist(err) {
				continue
			}
			l2, _ := os.ReadFile(logf)
			if len(l1) != len(l2) || s1 != signature(db) {
				continue // it was not frozen
			}
			seen[s1+fmt.Sprint(len(l1))] = true
			out = append(out, snapshot{to, append(append([][]byte{}, logs...), l1)})
			return
		}
	}
	var target int
	deadline := time.After(60 * time.Second)
	for n := 0; ; n++ {
		select {
		case <-done:
			take()
			return out
		case <-deadline:
			return out
		default:
		}
		target = cmd.Process.Pid
		if traced { // strace starts other children first
			ks := children(cmd.Process.Pid)
			if len(ks) == 0 {
				time.Sleep(100 * time.Microsecond)
				continue
			}
			target = ks[len(ks)-1]
		}
		if traced {
			if stopped(target) {
				take()
				_ = syscall.Kill(target, syscall.SIGCONT)
			}
			time.Sleep(50 * time.Microsecond)
		} else {
			_ = syscall.Kill(target, syscall.SIGSTOP)
			time.Sleep(100 * time.Microsecond)
			take()
			_ = syscall.Kill(target, syscall.SIGCONT)
			time.Sleep(time.Duration(50+n%7*40) * time.Microsecond)
		}
	}
}

// afterCrash opens what is left, observes it and goes on.
func afterCrash(name, kind string, u Universe, sn snapshot, seed int64) *Ep {
	ep := newEp(name)
	for i, b := range sn.logs {
		readLog(ep, b)
		if i < len(sn.logs)-1 {
			ep.log(line{"e": "crash"})
		}
	}
	ep.log(line{"e": "crash"})
	var sut *SUT
	c := &Client{ep: ep}
	r := c.do(line{"op": "reopen", "r": "?"}, func(res line) {
		var err error
		sut, err = tryOpenSUT(kind, sn.dir)
		res["r"] = classify(err, res)
	})
	ep.mu.Lock()
	ep.sig["crash"]++
	ep.mu.Unlock()
	if r != "ok" {
		return ep
	}
	defer sut.close()
	s := newSeqRun(ep, sut, seqOpt{uni: u}, seed)
	s.c = c
	s.cs = []*Client{c}
	c.sut, c.store = sut, sut.store
	look := func() {
		c.read("all", 0, "", nil, readOpt{})
		for _, st := range u.Streams[:3] {
			c.read("stream", 0, st, nil, readOpt{})
			c.total(st, cxNo)
		}
		for _, t := range u.Types {
			c.read("types", 0, "", []string{t}, readOpt{})
		}
		c.read("types", 1, "", u.Types, readOpt{})
	}
	look()
	for i := 0; i < 3; i++ {
		st := 1 + (int(seed)+i)%3
		switch s.rnd.Intn(4) {
		case 0:
			c.del(u.Streams[st-1], s.streamLen(u.Streams[st-1]), cxNo)
		case 1:
			c.reopen()
			s.batch(c, st, 1, -1)
		default:
			s.batch(c, st, 1+s.rnd.Intn(3), s.streamLen(u.Streams[st-1]))
		}
	}
	if s.rnd.Intn(2) == 0 {
		c.reopen()
	}
	look()
	return ep
}

// crashJob runs one child and turns every state it passed through into an episode.
func crashJob(cfg *Cfg, kind string, n, ops, workers int) job {
	name := fmt.Sprintf("crash%d/%s/w%d", n, kind, workers)
	return job{name: name, many: func(emit func(*Ep)) {
		seed := int(cfg.seed)*1000 + n
		u := universes[seed%2]
		sts := crashStates(nil, kind, seed, ops, workers, "c")
		rnd := rand.New(rand.NewSource(int64(seed)))
		if len(sts) > cfg.pick(150, 1000) {
			rnd.Shuffle(len(sts), func(i, j int) { sts[i], sts[j] = sts[j], sts[i] })
			sts = sts[:cfg.pick(150, 1000)]
		}
		// crashes of the process that recovers
		for i := 0; i < cfg.pick(2, 8) && len(sts) > 0; i++ {
			b := sts[rnd.Intn(len(sts))]
			again := crashStates(&b, kind, seed, 3, 1, fmt.Sprintf("r%d-", i))
			for j, sn := range again {
				if j < cfg.pick(15, 60) {
					sts = append(sts, sn)
				}
			}
		}
		for i, sn := range sts {
			ep := afterCrash(fmt.Sprintf("%s/state%d", name, i), kind, u, sn, int64(seed+i))
			ep.mu.Lock()
			if len(sn.logs) > 1 {
				ep.sig["crash again"]++
			}
			ep.mu.Unlock()
			emit(ep)
			if ep.isDead() {
				return
			}
		}
	}}
}

var _ = bufio.NewReader

func init() {
	planners["P08"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(8, 40); i++ {
			jobs = append(jobs, crashJob(cfg, []string{"ldb", "ldb", "ldbmp"}[i%3], i, cfg.pick(10, 30), 1+i%2))
		}
		return append(jobs, scripted(cfg, "del", []string{"ldb", "ldbmp"}, universes, seqOpt{})...)
	}
}
