package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/remotestore"
)

// server is the server program, run as a process of its own on a directory of
// its own, and the clients of its services.
type server struct {
	sut    *SUT
	db     string // empty: it keeps the events in memory
	dir    string
	cmd    *exec.Cmd
	exited chan struct{}
	errs   *bytes.Buffer
	web    string // address of the HTTP services
	rpc    string // address of the gRPC service
	http   *httpStore
	ws     *wsServer
	cls    []func()
	stay   bool // it is run again with the same addresses
}

var nextPort = int64(os.Getpid()%150) * 100

// freePort finds a port outside of the range outgoing connections use.
func freePort() string {
	for i := 0; ; i++ {
		p := strconv.Itoa(11000 + int(atomic.AddInt64(&nextPort, 1))%20000)
		if l, err := net.Listen("tcp4", ":"+p); err == nil {
			_ = l.Close()
			return p
		}
		if i > 20000 {
			must(errors.New("no free port"))
		}
	}
}

func newServer(s *SUT, disk, stay bool) error {
	v := &server{sut: s, dir: scratch(), stay: stay}
	if disk {
		v.db = filepath.Join(v.dir, "db")
		s.reopen = v.restart
	}
	s.srv, s.clk.real, s.remote = v, true, true
	s.closers = append(s.closers, func() { _ = os.RemoveAll(v.dir) }, v.kill, v.hangUp)
	return v.start()
}

// start runs the program and connects to its services.
func (v *server) start() error {
	var err error
	for try := 0; try < 25; try++ {
		if err = v.run(); err == nil || !strings.Contains(err.Error(), "address already in use") {
			break
		}
		if v.stay && try > 2 {
			time.Sleep(200 * time.Millisecond)
		}
	}
	if err != nil {
		return err
	}
	s := v.sut
	dialRPC := func() *grpc.ClientConn {
		conn, err := grpc.Dial(v.rpc, grpc.WithInsecure(), grpc.WithInitialWindowSize(1<<16), grpc.WithInitialConnWindowSize(1<<16))
		must(err)
		v.cls = append(v.cls, func() { _ = conn.Close() })
		return conn
	}
	s.conn = dialRPC
	s.dial = func() rangedb.Store {
		c, err := remotestore.New(dialRPC())
		must(err)
		bindAll(c)
		return c
	}
	dial := func() (net.Conn, error) { return net.Dial("tcp4", v.web) }
	tr := &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) { return dial() }}
	v.cls = append(v.cls, tr.CloseIdleConnections)
	s.store, s.backing = s.dial(), s.dial()
	v.http = &httpStore{Store: s.dial(), hc: &http.Client{Transport: tr}, base: "/api", plain: true}
	v.ws = &wsServer{dial: dial, base: "/ws"}
	return nil
}

func (v *server) run() error {
	if !v.stay || v.web == "" {
		v.web, v.rpc = "127.0.0.1:"+freePort(), "127.0.0.1:"+freePort()
	}
	web, rpc := v.web[len("127.0.0.1:"):], v.rpc[len("127.0.0.1:"):]
	args := []string{"-port", web, "-gRPCPort", rpc}
	if v.db != "" {
		args = append(args, "-levelDBPath", v.db)
	}
	v.cmd = exec.Command(os.Getenv("VH_SERVER"), args...)
	v.cmd.Dir = v.dir
	v.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + v.dir, "TMPDIR=" + v.dir, "GOTRACEBACK=all"}
	v.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	v.errs = &bytes.Buffer{}
	v.cmd.Stderr = v.errs
	if err := v.cmd.Start(); err != nil {
		must(err)
	}
	cmd, exited := v.cmd, make(chan struct{})
	v.exited = exited
	go func() { _ = cmd.Wait(); close(exited) }()
	for deadline := time.Now().Add(20 * time.Second); ; time.Sleep(3 * time.Millisecond) {
		if v.gone() {
			return fmt.Errorf("the server ended: %s", v.errs)
		}
		if v.answers() {
			return nil
		}
		if time.Now().After(deadline) {
			v.kill()
			return errors.New("the server does not answer")
		}
	}
}

// answers: both services take connections.
func (v *server) answers() bool {
	c, err := net.Dial("tcp4", v.rpc)
	if err != nil {
		return false
	}
	_ = c.Close()
	hc := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 10 * time.Second}
	r, err := hc.Get("http://" + v.web + "/api/health-check")
	if err != nil {
		return false
	}
	_ = r.Body.Close()
	return r.StatusCode == http.StatusOK
}

func (v *server) gone() bool {
	select {
	case <-v.exited:
		return true
	default:
		return false
	}
}

func (v *server) kill() {
	_ = v.cmd.Process.Kill()
	<-v.exited
}

func (v *server) hangUp() {
	for i := len(v.cls) - 1; i >= 0; i-- {
		v.cls[i]()
	}
	v.cls = nil
}

// interrupt asks the server to stop; it returns its exit status, -1 if it goes on.
func (v *server) interrupt() int {
	_ = v.cmd.Process.Signal(os.Interrupt)
	if !waitDone(v.exited, 25*time.Second) {
		return -1
	}
	return v.cmd.ProcessState.ExitCode()
}

// restart: after the server ended, the program is run again on the same directory.
func (v *server) restart() error {
	v.hangUp()
	return v.start()
}

// serverLife works with the server program over all of its services at once,
// kills and interrupts it, and goes on.
func serverLife(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("server%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		v := sut.srv
		ep := newEp(name)
		u := webUniverses[n%len(webUniverses)]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*7919+int64(n))
		rounds := 3
		if kind == "srvmem" {
			rounds = 1
		}
		subs := 0
		uncertain := false // deletions and deaths: the totals are known only roughly
		for round := 0; round < rounds && !ep.isDead(); round++ {
			mk := func(i int) *Client {
				c := &Client{ep: ep, sut: sut, conc: true}
				switch i % 3 {
				case 0:
					c.store = sut.store
				case 1:
					c.store = v.http
				default:
					c.store = sut.backing
				}
				return c
			}
			s.cs = []*Client{mk(0), mk(1), mk(2)}
			s.c = s.cs[0]
			if round > 0 {
				s.observe(0)
				s.serverTotals(v.http, uncertain)
			}
			// followers of every service
			sb := newSubber(ep, sut.store)
			fs := subFilters(u)
			var ids []string
			follow := func(i int) {
				f := fs[s.rnd.Intn(4)]
				g := s.curMaxG()
				from := []int{0, g + 1, s.rnd.Intn(g + 1)}[s.rnd.Intn(3)]
				sb.make, sb.async, sb.store = nil, false, sut.store
				switch i % 4 {
				case 0:
					from = -1
				case 1:
					sb.make, sb.async = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
						return &wsSub{w: v.ws, accept: accept, all: all, types: types, closed: make(chan struct{})}
					}, true
				case 2:
					client := rangedbpb.NewRangeDBClient(sut.conn())
					sb.make, sb.async = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
						return &pbSub{ctx: ctx, client: client, accept: accept, all: all, types: types, ended: make(chan struct{})}
					}, true
				default:
					sb.store = sut.dial()
				}
				subs++
				id := fmt.Sprintf("s%d", subs)
				sb.startOpt(id, from, f.all, f.types, 500, nil, cxNo, false)
				ids = append(ids, id)
			}
			for i := 0; i < 4; i++ {
				follow(i)
			}
			var wg sync.WaitGroup
			work := func(w, ops int, shaky bool) {
				c := mk(w)
				c.shaky = shaky
				rnd := rand.New(rand.NewSource(cfg.seed*31 + int64(n*1000+round*100+w)))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < ops && !ep.isDead() && !c.lost; i++ {
						s.randomOp(c, rnd)
					}
				}()
			}
			for w := 0; w < 3; w++ {
				work(w, 3, false)
			}
			follow(1 + s.rnd.Intn(3))
			wg.Wait()
			sb.store = sut.store
			sb.settle()
			for i, c := range s.cs {
				c.read([]string{"all", "types", "stream"}[(i+round)%3], 0, u.Streams[0], u.Types[:2], readOpt{})
			}
			uncertain = uncertain || ep.has("del", "ok")
			s.serverTotals(v.http, uncertain)
			if ep.isDead() {
				break
			}
			// its end
			for _, id := range ids {
				sb.setLossy(id)
			}
			how := (n + round) % 4
			if how < 3 {
				for w := 0; w < 3; w++ {
					work(10+w, 40, true)
				}
				time.Sleep(time.Duration(s.rnd.Intn(25000)) * time.Microsecond)
			}
			code := 0
			if how%2 == 0 {
				v.kill()
			} else {
				code = v.interrupt()
			}
			wg.Wait()
			uncertain = true
			if how%2 == 0 {
				ep.log(line{"e": "crash"})
				ep.note("killed")
			} else {
				ep.log(line{"e": "bye", "code": code, "msg": short(v.errs.String())})
				ep.note(fmt.Sprintf("interrupted:%d", code))
				if code < 0 {
					ep.kill()
				}
			}
			for _, id := range ids {
				sb.fate(id, true)
			}
			sb.stopAll()
			if sut.reopen == nil {
				break
			}
			s.c.conc = false
			if s.c.reopen() != "ok" {
				return ep
			}
		}
		if sut.reopen != nil && !ep.isDead() {
			s.cs = []*Client{{ep: ep, sut: sut, store: sut.store}, {ep: ep, sut: sut, store: v.http}}
			s.c = s.cs[0]
			s.batch(s.c, 1, 2, -1)
			s.observe(0)
			s.serverTotals(v.http, true)
		}
		return ep
	}}
}

// serverPages is a visitor of the pages the server shows.
type serverPages struct{ v *server }

func (p *serverPages) totals() (map[string]int, int, error) {
	hc := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 10 * time.Second}
	resp, err := hc.Get("http://" + p.v.web + "/")
	if err != nil {
		return nil, 0, err
	}
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	if err != nil || resp.StatusCode != http.StatusOK {
		return nil, 0, fmt.Errorf("status %d %v", resp.StatusCode, err)
	}
	out, total := map[string]int{}, -1
	if h := reHead.FindStringSubmatch(string(b)); h != nil {
		for _, it := range reItem.FindAllStringSubmatch(h[1], -1) {
			if m := reNum.FindStringSubmatch(text(it[1])); m != nil {
				total = number(m[2])
			}
		}
	}
	for _, row := range reRow.FindAllStringSubmatch(string(b), -1) {
		if c := reCell.FindAllStringSubmatch(row[1], -1); len(c) == 2 {
			out[text(c[0][1])] = number(text(c[1][1]))
		}
	}
	return out, total, nil
}

// underway is a save over HTTP that the server began to read.
type underway struct {
	conn net.Conn
	rd   *bufio.Reader
	body []byte
}

func (v *server) beginSave(stream string, ev *Ev) (*underway, error) {
	d, err := json.Marshal(ev.rec.Event)
	must(err)
	body, err := json.Marshal([]map[string]interface{}{{"aggregateType": ev.At, "aggregateID": ev.Aid, "eventType": ev.Et, "data": json.RawMessage(d)}})
	must(err)
	conn, err := net.Dial("tcp4", v.web)
	if err != nil {
		return nil, err
	}
	_ = conn.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(conn, "POST /api/save-events/%s HTTP/1.1\r\nHost: api\r\nContent-Type: application/json\r\nExpect: 100-continue\r\nContent-Length: %d\r\n\r\n", url.PathEscape(stream), len(body))
	rd := bufio.NewReader(conn)
	for {
		ln, err := rd.ReadString('\n')
		if err != nil {
			return nil, err
		}
		if strings.TrimSpace(ln) == "" {
			return &underway{conn, rd, body}, nil
		}
		if !strings.Contains(ln, "100") {
			return nil, errors.New(strings.TrimSpace(ln))
		}
	}
}

// finish sends the rest and waits for the answer.
func (u *underway) finish() (uint64, error) {
	defer u.conn.Close()
	if _, err := u.conn.Write(u.body); err != nil {
		return 0, err
	}
	resp, err := http.ReadResponse(u.rd, nil)
	if err != nil {
		return 0, err
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, err
	}
	return savedAt(resp.StatusCode, b)
}

// lateStore saves what the server already began to read.
type lateStore struct {
	rangedb.Store
	u *underway
}

func (l lateStore) Save(context.Context, string, ...*rangedb.EventRecord) (uint64, error) {
	return l.u.finish()
}

// serverStop interrupts the server while it reads a request, and starts a
// second one on the same directory while the first one runs.
func serverStop(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("serverstop%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		v := sut.srv
		ep := newEp(name)
		u := webUniverses[n%3]
		s := newSeqRun(ep, sut, seqOpt{uni: u, evKinds: []int{0, 1}}, cfg.seed*6007+int64(n))
		for round := 0; round < 3 && !ep.isDead(); round++ {
			s.c = &Client{ep: ep, sut: sut, store: sut.store}
			s.cs = []*Client{s.c, {ep: ep, sut: sut, store: v.http}}
			s.batch(s.client(), 1+round, 1+s.rnd.Intn(3), -1)
			if v.db != "" {
				s.c.do(line{"op": "second", "r": "?"}, func(res line) {
					w := &server{sut: sut, db: v.db, dir: v.dir}
					err := w.run()
					res["r"] = "runs"
					if err != nil {
						res["r"], res["msg"] = "refused", short(err.Error())
					} else {
						w.kill()
					}
				})
				s.c.read("all", 0, "", nil, readOpt{})
			}
			ev := newEv(0, u.Types[0], "id1", uint64(round), 0, 0, nil)
			stream := u.Streams[s.rnd.Intn(2)]
			if stream == u.Streams[1] {
				ev = newEv(0, u.Types[1], "id2", uint64(round), 0, 0, nil)
			}
			way, err := v.beginSave(stream, ev)
			if err != nil {
				s.c.do(line{"op": "save", "st": stream, "exp": -1, "evs": []line{}, "cx": "no", "ts": 0, "tsx": 0, "ex": 0, "ac": 0, "n": 0, "r": "?"}, func(res line) {
					res["r"], res["msg"] = "never", short(err.Error())
				})
				return ep
			}
			code := 0
			stopped := goDone(func() { code = v.interrupt() })
			ended := waitDone(stopped, 60*time.Millisecond)
			late := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
			late.saveTo(lateStore{sut.store, way}, stream, -1, []*Ev{ev}, cxNo, nil)
			_ = ended
			<-stopped
			ep.log(line{"e": "bye", "code": code, "msg": short(v.errs.String())})
			ep.note(fmt.Sprintf("interrupted:%d", code))
			if sut.reopen == nil || code < 0 || s.c.reopen() != "ok" {
				return ep
			}
		}
		s.cs = []*Client{{ep: ep, sut: sut, store: sut.store}, {ep: ep, sut: sut, store: v.http}}
		s.c = s.cs[0]
		s.observe(0)
		s.serverTotals(v.http, false)
		return ep
	}}
}

// serverExport lists events in every format, for a reader who knows their types.
func serverExport(cfg *Cfg) job {
	return job{name: "serverexport", run: func() *Ep {
		sut := newSUT("srvldb")
		defer sut.close()
		ep := newEp("serverexport")
		s := newSeqRun(ep, sut, seqOpt{uni: universes[0], evKinds: []int{0}}, cfg.seed)
		sut.srv.http.plain = false
		s.c.store = sut.srv.http
		s.batch(s.c, 1, 2, -1)
		for i := 0; i < 3 && !ep.has("all", "oth"); i++ {
			s.c.read("all", 0, "", nil, readOpt{})
		}
		return ep
	}}
}

func (e *Ep) note(sig string) {
	e.mu.Lock()
	e.sig[sig]++
	e.mu.Unlock()
}

// has says whether an operation ended that way.
func (e *Ep) has(op, r string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, l := range e.lines {
		if l["op"] == op && l["r"] == r {
			return true
		}
	}
	return false
}

// serverTotals waits until what is stored is counted, and records the totals.
func (s *seqRun) serverTotals(h *httpStore, rough bool) {
	if s.ep.isDead() {
		return
	}
	var from lister = h
	if s.rnd.Intn(2) == 0 {
		from = &serverPages{s.c.sut.srv}
	}
	stored := 0
	it := s.c.store.Events(context.Background(), 0)
	for it.Next() {
		stored++
	}
	s.readTotals(from, rough, func(total int) bool { return total >= stored })
}

func init() {
	planners["P25"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(100, 1200); i++ {
			kind := "srvldb"
			if i%7 == 6 {
				kind = "srvmem"
			}
			jobs = append(jobs, serverLife(cfg, kind, i))
			if i%5 == 0 {
				jobs = append(jobs, serverStop(cfg, kind, i))
			}
		}
		return append(jobs, serverExport(cfg))
	}
}
