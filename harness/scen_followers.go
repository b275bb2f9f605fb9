package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"context"

	"google.golang.org/protobuf/encoding/prototext"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
)

// progSub is one of the subscriber programs, run as a process of its own; what
// it prints is what it received.
type progSub struct {
	program string // "-wssub" or "-grpcsub"
	host    string
	dir     string
	accept  rangedb.RecordSubscriberFunc
	all     bool
	types   []string
	cmd     *exec.Cmd
	ended   chan struct{}
}

var progTalk = []string{"Dialing", "Connection ended", "gRPC Event", "WebSocket Event", "Subscribing", "Shutting down"}

func (p *progSub) Start() error { return errors.New("the programs start from the beginning") }

func (p *progSub) StartFrom(uint64) error {
	args := []string{"-host", p.host}
	if !p.all {
		args = append(args, "-aggregateTypes", strings.Join(p.types, ","))
	}
	p.cmd = exec.Command(os.Getenv("VH_SERVER")+p.program, args...)
	p.cmd.Dir = p.dir
	p.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + p.dir, "TMPDIR=" + p.dir}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	out, err := p.cmd.StdoutPipe()
	must(err)
	if err := p.cmd.Start(); err != nil {
		return err
	}
	ser := jsonrecordserializer.New()
	bindAll(ser)
	go func() {
		defer close(p.ended)
		rd := bufio.NewReader(out)
	lines:
		for {
			text, err := rd.ReadString('\n')
			if err != nil {
				break
			}
			text = strings.TrimSpace(text)
			for _, t := range progTalk {
				if text == "" || strings.HasPrefix(text, t) || strings.Trim(text, ".") == "" {
					continue lines
				}
			}
			p.accept(p.parse(text, ser))
		}
		_, _ = io.Copy(io.Discard, rd)
		_ = p.cmd.Wait()
	}()
	return nil
}

func (p *progSub) parse(text string, ser rangedb.EventTypeIdentifier) *rangedb.Record {
	if p.program == "-wssub" {
		r, err := parseRecord([]byte(text))
		if err != nil {
			return nil
		}
		return r
	}
	var pb rangedbpb.Record
	if prototext.Unmarshal([]byte(text), &pb) != nil {
		return nil
	}
	r, err := rangedbpb.ToRecord(&pb, ser)
	if err != nil {
		return nil
	}
	return r
}

func (p *progSub) Done() <-chan struct{} { return p.ended }

// Stop interrupts the program; one that goes on is killed later.
func (p *progSub) Stop() {
	if p.cmd == nil || p.cmd.Process == nil {
		return
	}
	_ = p.cmd.Process.Signal(os.Interrupt)
}

func (p *progSub) kill() {
	if p.cmd != nil && p.cmd.Process != nil {
		_ = p.cmd.Process.Kill()
		<-p.ended
	}
}

// followers runs subscriber programs while the server they follow works, is
// killed or interrupted, and comes back at the same address.
func followers(cfg *Cfg, n int) job {
	name := fmt.Sprintf("followers%d", n)
	return job{name: name, run: func() *Ep {
		sut := newSUT("srvldb:stay")
		defer sut.close()
		v := sut.srv
		ep := newEp(name)
		u := webUniverses[n%len(webUniverses)]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*4001+int64(n))
		client := func(i int, conc bool) *Client {
			c := &Client{ep: ep, sut: sut, store: sut.store, conc: conc}
			if i%2 == 1 {
				c.store = v.http
			}
			return c
		}
		var progs []*progSub
		defer func() {
			for _, p := range progs {
				p.kill()
			}
		}()
		sb := newSubber(ep, sut.store)
		nsub := 0
		follow := func(program string) string {
			fs := subFilters(u)
			f := fs[s.rnd.Intn(4)]
			sb.async = true
			sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
				host := v.web
				if program == "-grpcsub" {
					host = v.rpc
				}
				p := &progSub{program: program, host: host, dir: v.dir, accept: accept, all: all, types: types, ended: make(chan struct{})}
				progs = append(progs, p)
				return p
			}
			nsub++
			id := fmt.Sprintf("f%d", nsub)
			sb.startOpt(id, 0, f.all, f.types, 1, nil, cxNo, false)
			return id
		}
		lasting := []string{}
		for round := 0; round < 3 && !ep.isDead(); round++ {
			s.cs = []*Client{client(0, true), client(1, true)}
			s.c = s.cs[0]
			sb.store = sut.store
			if round == 0 || s.rnd.Intn(2) == 0 {
				for i := 0; i < 2; i++ {
					s.batch(s.client(), 1+(n+i)%3, 1+s.rnd.Intn(2), -1)
				}
			}
			if len(lasting) < 2 {
				lasting = append(lasting, follow("-grpcsub"))
			}
			short := follow("-wssub")
			for i := 0; i < 3; i++ {
				s.batch(s.client(), 1+s.rnd.Intn(3), 1+s.rnd.Intn(2), -1)
			}
			sb.settle()
			if s.rnd.Intn(2) == 0 {
				st := s.rnd.Intn(3)
				s.c.del(u.Streams[st], s.streamLen(u.Streams[st]), cxNo)
			}
			s.batch(s.client(), 1+s.rnd.Intn(3), 1, -1)
			sb.settle()
			if ep.isDead() || round == 2 {
				break
			}
			// the server ends, in the middle of work or not, and comes back
			sb.setLossy(short)
			var wg sync.WaitGroup
			if s.rnd.Intn(2) == 0 {
				for w := 0; w < 2; w++ {
					c := client(w, true)
					c.shaky = true
					rnd := rand.New(rand.NewSource(cfg.seed*37 + int64(n*10+w)))
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 8 && !ep.isDead() && !c.lost; i++ {
							s.randomOp(c, rnd)
						}
					}()
				}
				time.Sleep(time.Duration(s.rnd.Intn(8000)) * time.Microsecond)
			}
			if (n+round)%2 == 0 {
				v.kill()
				wg.Wait()
				ep.log(line{"e": "crash"})
				ep.note("killed")
			} else {
				code := v.interrupt()
				wg.Wait()
				ep.log(line{"e": "bye", "code": code, "msg": ""})
				ep.note("interrupted")
			}
			sb.fate(short, true)
			if s.c.conc = false; s.c.reopen() != "ok" {
				return ep
			}
		}
		if ep.isDead() {
			return ep
		}
		sb.settle()
		// asked to stop, the programs end
		sb.stopAll()
		for i := 1; i <= nsub; i++ {
			sb.fate(fmt.Sprintf("f%d", i), true)
		}
		s.cs = []*Client{client(0, true), client(1, true)}
		s.c = s.cs[0]
		s.observe(0)
		return ep
	}}
}

// cutter passes connections on and cuts each of the first ones after some bytes.
type cutter struct {
	l     net.Listener
	mu    sync.Mutex
	after []int
}

func newCutter(to func() string, after []int) *cutter {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	must(err)
	c := &cutter{l: l, after: after}
	go func() {
		for {
			in, err := l.Accept()
			if err != nil {
				return
			}
			c.mu.Lock()
			max := -1
			if len(c.after) > 0 {
				max, c.after = c.after[0], c.after[1:]
			}
			c.mu.Unlock()
			out, err := net.Dial("tcp4", to())
			if err != nil {
				_ = in.Close()
				continue
			}
			go func() {
				_, _ = io.Copy(out, in)
				_ = out.Close()
			}()
			go func() {
				if max >= 0 {
					_, _ = io.CopyN(in, out, int64(max))
				} else {
					_, _ = io.Copy(in, out)
				}
				_ = in.Close()
				_ = out.Close()
			}()
		}
	}()
	return c
}

func (c *cutter) left() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.after)
}

// interrupted cuts the connections of the programs again and again, at any byte.
func interrupted(cfg *Cfg, n int) job {
	name := fmt.Sprintf("interrupted%d", n)
	return job{name: name, run: func() *Ep {
		sut := newSUT("srvldb")
		defer sut.close()
		v := sut.srv
		ep := newEp(name)
		u := webUniverses[n%len(webUniverses)]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*4003+int64(n))
		s.c = &Client{ep: ep, sut: sut, store: sut.store, conc: true}
		s.cs = []*Client{s.c, {ep: ep, sut: sut, store: v.http, conc: true}}
		for i := 0; i < 8+n%8; i++ {
			s.batch(s.client(), 1+s.rnd.Intn(3), 1+s.rnd.Intn(6), -1)
		}
		sb := newSubber(ep, sut.store)
		var progs []*progSub
		defer func() {
			for _, p := range progs {
				p.kill()
			}
		}()
		fs := subFilters(u)
		var cs []*cutter
		start := func(id, program string, to func() string, cuts int) {
			var after []int
			for i := 0; i < cuts; i++ {
				after = append(after, 150+s.rnd.Intn([]int{1500, 6000}[s.rnd.Intn(2)]))
			}
			c := newCutter(to, after)
			cs = append(cs, c)
			f := fs[s.rnd.Intn(4)]
			sb.async = true
			sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
				p := &progSub{program: program, host: c.l.Addr().String(), dir: v.dir, accept: accept, all: all, types: types, ended: make(chan struct{})}
				progs = append(progs, p)
				return p
			}
			sb.startOpt(id, 0, f.all, f.types, 1, nil, cxNo, false)
		}
		rpc := func() string { return v.rpc }
		web := func() string { return v.web }
		for i := 0; i < 3; i++ {
			start(fmt.Sprintf("g%d", i), "-grpcsub", rpc, 6)
		}
		start("w", "-wssub", web, 1)
		sb.setLossy("w")
		start("v", "-wssub", web, 0)
		for i := 0; i < 3; i++ {
			s.batch(s.client(), 1+s.rnd.Intn(3), 1+s.rnd.Intn(2), -1)
			time.Sleep(time.Duration(s.rnd.Intn(20)) * time.Millisecond)
		}
		sb.settle()
		sb.fate("w", false)
		cut := 0
		for _, c := range cs {
			cut += 6 - c.left()
			_ = c.l.Close()
		}
		ep.note(fmt.Sprintf("cut:%t", cut > 12))
		sb.stopAll()
		for _, id := range []string{"g0", "g1", "g2", "w", "v"} {
			sb.fate(id, true)
		}
		s.observe(0)
		return ep
	}}
}

func init() {
	planners["P26"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(60, 600); i++ {
			jobs = append(jobs, followers(cfg, i), interrupted(cfg, i))
		}
		return jobs
	}
}
