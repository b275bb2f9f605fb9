package main

import (
	"context"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/pkg/rangedbui"
)

// uiStore is the store the interface is given: reads can be made to fail.
type uiStore struct {
	rangedb.Store
	mu   sync.Mutex
	fail int // reads fail after so many records; < 0: they do not
}

type failingIter struct {
	rangedb.RecordIterator
	left int
	err  error
}

func (f *failingIter) NextContext(ctx context.Context) bool {
	if f.err != nil {
		return false
	}
	if f.left == 0 {
		f.err = fmt.Errorf("the disk is gone")
		return false
	}
	f.left--
	return f.RecordIterator.NextContext(ctx)
}
func (f *failingIter) Next() bool { return f.NextContext(context.Background()) }
func (f *failingIter) Err() error {
	if f.err != nil {
		return f.err
	}
	return f.RecordIterator.Err()
}

func (s *uiStore) wrap(it rangedb.RecordIterator) rangedb.RecordIterator {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail < 0 {
		return it
	}
	return &failingIter{RecordIterator: it, left: s.fail}
}

func (s *uiStore) EventsByStream(ctx context.Context, n uint64, st string) rangedb.RecordIterator {
	return s.wrap(s.Store.EventsByStream(ctx, n, st))
}

func (s *uiStore) EventsByAggregateTypes(ctx context.Context, n uint64, ats ...string) rangedb.RecordIterator {
	return s.wrap(s.Store.EventsByAggregateTypes(ctx, n, ats...))
}

// uiRun visits the web interface of a store.
type uiRun struct {
	ep    *Ep
	sut   *SUT
	u     Universe
	rnd   *rand.Rand
	rndMu sync.Mutex
	store *uiStore
	stats *projection.AggregateTypeStats
	srv   *httptest.Server
	cl    *http.Client
	mu    sync.Mutex // facts and the log they are about
	known int
	n     uint64
	pages map[int]*uiPage // the page each visitor is looking at
	feeds []*uiFeed
	bad   bool
	wg    sync.WaitGroup
	// hs, if set, is called once when the next handshake has been answered
	hs func()
	// lag holds back what the server sends to the next live feed
	lag *gate
}

type uiPage struct {
	url, next, prev string
	rows            []uiRow
	title           string
	total           int
	status          int
	body            string
}

type uiRow struct {
	l                  line
	typeHref, stHref   string
	typeShown, stShown string
}

type uiFeed struct {
	id   int
	conn *websocket.Conn
	mu   sync.Mutex
	last int
	good bool // the totals shown last are right

	ended chan struct{}
}

// hsListener lets the harness act when the server has answered a handshake.
type hsListener struct {
	net.Listener
	r *uiRun
}
type hsConn struct {
	net.Conn
	r   *uiRun
	lag *gate // of a live feed
}

func (l *hsListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return &hsConn{Conn: c, r: l.r}, nil
}

func (c *hsConn) Write(b []byte) (int, error) {
	if c.lag != nil {
		c.lag.pass()
	}
	n, err := c.Conn.Write(b)
	if strings.HasPrefix(string(b), "HTTP/1.1 101") {
		c.r.mu.Lock()
		c.lag = c.r.lag
		f := c.r.hs
		c.r.hs = nil
		c.r.mu.Unlock()
		if f != nil {
			f()
		}
	}
	return n, err
}

func newUIRun(ep *Ep, sut *SUT, u Universe, seed int64) *uiRun {
	ep.spec = "WebUITrace"
	ep.head = line{"recs": []line{}}
	r := &uiRun{ep: ep, sut: sut, u: u, rnd: rand.New(rand.NewSource(seed)), pages: map[int]*uiPage{}}
	r.store = &uiStore{Store: sut.store, fail: -1}
	api, err := rangedbapi.New(rangedbapi.WithStore(sut.store), rangedbapi.WithLogger(log.New(ioutil.Discard, "", 0)))
	must(err)
	r.stats = api.AggregateTypeStatsProjection()
	srv := httptest.NewUnstartedServer(nil)
	srv.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	srv.Listener = &hsListener{srv.Listener, r}
	srv.Config.Handler = rangedbui.New(r.stats, r.store, rangedbui.WithHost(srv.Listener.Addr().String()))
	srv.Start()
	r.srv = srv
	r.cl = &http.Client{Transport: &http.Transport{}, Timeout: 20 * time.Second}
	return r
}

func (r *uiRun) intn(n int) int {
	r.rndMu.Lock()
	defer r.rndMu.Unlock()
	return r.rnd.Intn(n)
}

func (r *uiRun) close() {
	for _, f := range r.feeds {
		_ = f.conn.Close()
	}
	r.wg.Wait()
	r.cl.CloseIdleConnections()
	r.srv.CloseClientConnections()
	go r.srv.Close()
}

func (r *uiRun) note(l line, sig string) {
	r.ep.mu.Lock()
	r.ep.sig[sig]++
	r.ep.mu.Unlock()
	r.ep.log(l)
}

func dataText(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return ""
	}
	return canonText(string(b))
}

// canonText is a JSON text with the keys in order.
func canonText(s string) string {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return s
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// sync logs the events that are in the log by now. Called with mu held.
func (r *uiRun) sync() {
	it := r.sut.store.Events(context.Background(), uint64(r.known+1))
	for it.Next() {
		x := it.Record()
		if g := int(x.GlobalSequenceNumber); g > r.known {
			r.known = g
			r.note(r.fact(x, line{"e": "save"}), "save")
		}
	}
	if it.Err() != nil {
		r.bad = true
	}
}

func (r *uiRun) fact(x *rangedb.Record, l line) line {
	l["g"], l["q"], l["st"], l["at"] = int(x.GlobalSequenceNumber), int(x.StreamSequenceNumber), x.StreamName, x.AggregateType
	l["x"] = x.EventType + "|" + dataText(x.Data) + "|" + time.Unix(int64(x.InsertTimestamp), 0).UTC().Format("Jan 02, 2006 15:04:05 UTC")
	return l
}

func (r *uiRun) save(s, n int) {
	at := r.u.Types[(s-1)%len(r.u.Types)]
	var ers []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		r.mu.Lock()
		r.n++
		num := r.n
		k := []int{0, 1, 2, 3, 3, 0}[r.intn(6)]
		r.mu.Unlock()
		ers = append(ers, newEv(k, at, fmt.Sprintf("id<%d>", s), num, 0, 0, nil).rec)
	}
	if _, err := r.sut.store.Save(context.Background(), r.u.Streams[s-1], ers...); err != nil {
		r.bad = true
	}
}

func (r *uiRun) del(s int) {
	n, err := r.sut.store.TotalEventsInStream(context.Background(), r.u.Streams[s-1])
	if err != nil || n == 0 {
		return
	}
	r.calm()
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.sut.store.OptimisticDeleteStream(context.Background(), n, r.u.Streams[s-1]); err != nil {
		r.bad = true
		return
	}
	r.note(line{"e": "del", "st": r.u.Streams[s-1]}, "del")
}

// calm waits until the statistics have heard of everything.
func (r *uiRun) calm() {
	r.mu.Lock()
	r.sync()
	last := r.known
	r.mu.Unlock()
	for end := time.Now().Add(5 * time.Second); int(r.stats.LatestGlobalSequenceNumber()) < last; time.Sleep(200 * time.Microsecond) {
		if time.Now().After(end) {
			r.bad = true // what the statistics hear is not decided here
			return
		}
	}
}

var (
	reRow  = regexp.MustCompile(`(?s)<tr>(.*?)</tr>`)
	reCell = regexp.MustCompile(`(?s)<td[^>]*>(.*?)</td>`)
	reHref = regexp.MustCompile(`(?s)<a\s[^>]*?href="([^"]*)"[^>]*>(.*?)</a>`)
	reHead = regexp.MustCompile(`(?s)<ul class="breadcrumbs">(.*?)</ul>`)
	reItem = regexp.MustCompile(`(?s)<li>(.*?)</li>`)
	reTag  = regexp.MustCompile(`(?s)<[^>]*>`)
	reNum  = regexp.MustCompile(`(?s)^(.*) \(([0-9,]+)\)$`)
	reSrc  = regexp.MustCompile(`(?:src|href)="(/static/[^"]+)"`)
	reWS   = regexp.MustCompile(`new WebSocket\('([^']*)'\)`)
	reTot  = regexp.MustCompile(`totalEvents: *([0-9]+)`)
)

func text(s string) string {
	return html.UnescapeString(strings.Trim(reTag.ReplaceAllString(s, ""), "\n\t "))
}

func number(s string) int {
	n, err := strconv.Atoi(strings.ReplaceAll(s, ",", ""))
	if err != nil {
		return -1
	}
	return n
}

// fetch gets a page and reads what a visitor sees on it.
func (r *uiRun) fetch(ref string) *uiPage {
	p := &uiPage{url: ref}
	base, _ := url.Parse(r.srv.URL)
	u, err := base.Parse(ref)
	if err != nil {
		return p
	}
	resp, err := r.cl.Get(u.String())
	if err != nil {
		return p
	}
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	if err != nil {
		return p
	}
	p.status, p.body = resp.StatusCode, string(b)
	if h := reHead.FindStringSubmatch(p.body); h != nil {
		for _, it := range reItem.FindAllStringSubmatch(h[1], -1) {
			if m := reNum.FindStringSubmatch(text(it[1])); m != nil {
				p.title, p.total = m[1], number(m[2])
			}
		}
	}
	for _, row := range reRow.FindAllStringSubmatch(p.body, -1) {
		c := reCell.FindAllStringSubmatch(row[1], -1)
		if len(c) != 7 {
			continue
		}
		x := uiRow{typeShown: text(c[3][1]), stShown: text(c[4][1])}
		if h := reHref.FindStringSubmatch(c[3][1]); h != nil {
			x.typeHref = html.UnescapeString(h[1])
		}
		if h := reHref.FindStringSubmatch(c[4][1]); h != nil {
			x.stHref = html.UnescapeString(h[1])
		}
		x.l = line{"g": number(text(c[0][1])), "q": number(text(c[1][1])), "st": x.stShown, "at": x.typeShown,
			"x": text(c[2][1]) + "|" + canonText(text(c[6][1])) + "|" + text(c[5][1])}
		p.rows = append(p.rows, x)
	}
	for _, h := range reHref.FindAllStringSubmatch(p.body, -1) {
		switch text(h[2]) {
		case "Next":
			p.next = html.UnescapeString(h[1])
		case "Previous":
			p.prev = html.UnescapeString(h[1])
		}
	}
	return p
}

// visit lets visitor w fetch a page.
func (r *uiRun) visit(w int, how, kind, name string, per int, calm bool, fail int) {
	var ref string
	switch how {
	case "open":
		ref = (&url.URL{Path: "/" + kind + "/" + name}).String()
		q := url.Values{}
		switch {
		case per == -1 && r.intn(2) == 0:
			q.Set("itemsPerPage", []string{"", "x", "-1", "1e3"}[r.intn(4)])
		case per >= 0:
			q.Set("itemsPerPage", strconv.Itoa(per))
		}
		if len(q) > 0 {
			ref += "?" + q.Encode()
		}
	default:
		old := r.pages[w]
		if old == nil {
			return
		}
		ref = map[string]string{"next": old.next, "prev": old.prev, "again": old.url}[how]
		if ref == "" {
			return
		}
	}
	if calm {
		r.calm()
	}
	r.mu.Lock()
	r.sync()
	r.note(line{"e": "pbeg", "w": w, "how": how, "kind": kind, "name": name, "per": per, "calm": calm, "fail": fail >= 0}, "pbeg:"+how)
	r.mu.Unlock()
	if fail >= 0 {
		r.store.mu.Lock()
		r.store.fail = fail
		r.store.mu.Unlock()
	}
	p := r.fetch(ref)
	if fail >= 0 {
		r.store.mu.Lock()
		r.store.fail = -1
		r.store.mu.Unlock()
	}
	shown := []line{}
	for _, x := range p.rows {
		shown = append(shown, x.l)
	}
	res := "ok"
	if p.status != 200 {
		res = "err"
	}
	r.mu.Lock()
	r.sync()
	l := line{"e": "pend", "w": w, "r": res, "status": p.status, "title": p.title, "total": p.total, "shown": shown, "next": p.next != "", "prev": p.prev != ""}
	sig := "pend:" + res
	if fail >= 0 {
		sig = "pend:fail:" + res
	}
	r.note(l, sig)
	if how == "next" && res == "ok" {
		r.ep.mu.Lock()
		r.ep.sig["page two"]++
		r.ep.mu.Unlock()
	}
	r.pages[w] = p
	if res != "ok" {
		delete(r.pages, w)
	}
	r.mu.Unlock()
}

// follow opens a link a page has on one of its events.
func (r *uiRun) follow(w int) {
	p := r.pages[w]
	if p == nil || len(p.rows) == 0 {
		return
	}
	row := p.rows[r.intn(len(p.rows))]
	for _, c := range [][2]string{{row.stHref, row.stShown}, {row.typeHref, row.typeShown}} {
		to := r.fetch(c[0])
		l := line{"e": "link", "r": "ok", "says": c[1], "leads": to.title}
		if to.status != 200 {
			l["r"] = "err"
		}
		r.mu.Lock()
		r.note(l, "link")
		r.mu.Unlock()
	}
}

// types visits the list of aggregate types, and follows one of its links.
func (r *uiRun) types() {
	r.calm()
	ref := "/aggregate-types"
	if r.intn(3) == 0 {
		ref = "/"
	}
	p := r.fetch(ref)
	types := []line{}
	var links []uiRow
	for _, row := range reRow.FindAllStringSubmatch(p.body, -1) {
		c := reCell.FindAllStringSubmatch(row[1], -1)
		if len(c) != 2 {
			continue
		}
		types = append(types, line{"at": text(c[0][1]), "n": number(text(c[1][1]))})
		if h := reHref.FindStringSubmatch(c[0][1]); h != nil {
			links = append(links, uiRow{typeHref: html.UnescapeString(h[1]), typeShown: text(c[0][1])})
		}
	}
	r.mu.Lock()
	r.note(line{"e": "types", "status": p.status, "total": p.total, "types": types}, "types")
	r.mu.Unlock()
	if len(links) > 0 {
		x := links[r.intn(len(links))]
		to := r.fetch(x.typeHref)
		l := line{"e": "link", "r": "ok", "says": x.typeShown, "leads": to.title}
		if to.status != 200 {
			l["r"] = "err"
		}
		r.mu.Lock()
		r.note(l, "link")
		r.mu.Unlock()
	}
	// what the pages need is there
	if m := reSrc.FindAllStringSubmatch(p.body, -1); len(m) > 0 {
		x := m[r.intn(len(m))][1]
		l := line{"e": "link", "r": "ok", "says": "", "leads": ""}
		if to := r.fetch(html.UnescapeString(x)); to.status != 200 || to.body == "" {
			l["r"], l["leads"] = "err", x
		}
		r.mu.Lock()
		r.note(l, "link")
		r.mu.Unlock()
	}
}

// watch opens a live page and its feed; type "" is the feed of all types.
func (r *uiRun) watch(at string) *uiFeed {
	page, kind := "/aggregate-types/live", "all"
	if at != "" {
		page, kind = (&url.URL{Path: "/a/" + at + "/live"}).String(), "a"
	}
	p := r.fetch(page)
	m := reWS.FindStringSubmatch(p.body)
	if p.status != 200 || m == nil {
		r.mu.Lock()
		r.note(line{"e": "link", "r": "err", "says": page, "leads": p.status}, "link")
		r.mu.Unlock()
		return nil
	}
	var ref string
	if json.Unmarshal([]byte(`"`+strings.ReplaceAll(html.UnescapeString(m[1]), `\'`, `'`)+`"`), &ref) != nil {
		ref = m[1]
	}
	f := &uiFeed{ended: make(chan struct{})}
	r.mu.Lock()
	f.id = len(r.feeds) + 1
	r.sync()
	r.note(line{"e": "wbeg", "id": f.id, "kind": kind, "name": at}, "wbeg:"+kind)
	r.mu.Unlock()
	conn, resp, err := websocket.DefaultDialer.Dial(ref, nil)
	if err != nil {
		r.mu.Lock()
		r.note(line{"e": "link", "r": "err", "says": ref, "leads": short(err.Error())}, "link")
		r.mu.Unlock()
		return nil
	}
	_ = resp.Body.Close()
	f.conn = conn
	r.mu.Lock()
	r.feeds = append(r.feeds, f)
	r.mu.Unlock()
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		defer close(f.ended)
		for {
			_, b, err := conn.ReadMessage()
			if err != nil {
				return
			}
			r.mu.Lock()
			r.sync()
			if at != "" {
				var m struct {
					Record      rangedb.Record
					TotalEvents int
				}
				_ = json.Unmarshal(b, &m)
				r.note(line{"e": "wrec", "id": f.id, "rec": r.fact(&m.Record, line{}), "total": m.TotalEvents}, "wrec")
				f.last = int(m.Record.GlobalSequenceNumber)
			} else {
				var m struct {
					AggregateTypes []struct {
						Name        string
						TotalEvents int
					}
					TotalEvents int
				}
				_ = json.Unmarshal(b, &m)
				types := []line{}
				for _, t := range m.AggregateTypes {
					types = append(types, line{"at": t.Name, "n": t.TotalEvents})
				}
				r.note(line{"e": "wsum", "id": f.id, "total": m.TotalEvents, "types": types}, "wsum")
				f.last = m.TotalEvents
			}
			r.mu.Unlock()
		}
	}()
	return f
}

func (r *uiRun) connected(f *uiFeed) {
	r.mu.Lock()
	r.sync()
	r.note(line{"e": "wconn", "id": f.id}, "wconn")
	r.mu.Unlock()
}

// quiet waits until the feeds have shown everything, or nothing comes any more.
func (r *uiRun) quiet(want func(f *uiFeed) int) {
	r.calm()
	end := time.Now().Add(3 * time.Second)
	for _, f := range r.feeds {
		for {
			r.mu.Lock()
			done := f.last >= want(f)
			r.mu.Unlock()
			if done || time.Now().After(end) {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	time.Sleep(5 * time.Millisecond)
	r.mu.Lock()
	r.sync()
	r.note(line{"e": "wcalm"}, "wcalm")
	r.mu.Unlock()
}

func (r *uiRun) apply(op scriptOp) {
	switch op.Op {
	case "save":
		r.save(op.S, op.N)
	case "savec": // pages are fetched while events are saved
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2*op.N+2; i++ {
				r.save(1+(op.S+i)%len(r.u.Streams), 1+i%2)
				if r.sut.remote {
					time.Sleep(300 * time.Microsecond)
				}
			}
		}()
		for w := 1; w <= 3; w++ {
			r.visit(w, "next", "", "", 0, false, -1)
		}
		for i, how := range []string{"again", "next", "prev"} {
			r.visit(1+(op.Pos+i)%3, how, "", "", 0, false, -1)
		}
		wg.Wait()
	case "del":
		r.del(op.S)
	case "opena":
		r.visit(op.Pos, "open", "a", r.u.Types[op.T-1], op.N, true, -1)
	case "opens":
		r.visit(op.Pos, "open", "s", r.u.Streams[op.S-1], op.N, true, -1)
	case "next", "prev", "again":
		r.visit(op.Pos, op.Op, "", "", 0, true, -1)
	case "fail":
		r.visit(op.Pos, "again", "", "", 0, true, r.intn(4))
	case "types":
		r.types()
	}
	if r.intn(3) == 0 {
		r.follow(op.Pos)
	}
}

// uiUniverses have names that can be addressed in a path.
var uiUniverses = append(append([]Universe{}, webUniverses...),
	Universe{"digits", []string{"order_2!1", "order_2!2", "v1.2!7", "<b>&'\""}, []string{"order_2", "v1.2", "3"}},
	Universe{"odd", []string{"%41", "?", "#x", "a b+c"}, []string{"100%", "Größe 3", "a?b#c"}},
)

func uiScript(cfg *Cfg, kind string, sc []scriptOp, n int, mode string) job {
	u := uiUniverses[n%len(uiUniverses)]
	name := fmt.Sprintf("%s%d/%s/%s", mode, n, kind, u.Name)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		r := newUIRun(ep, sut, u, cfg.seed*7919+int64(n))
		defer r.close()
		for _, op := range sc {
			if r.bad {
				return ep
			}
			r.apply(op)
		}
		// walk to the end and back
		for w, k := range []string{"a", "s"} {
			name := u.Types[0]
			if k == "s" {
				name = u.Streams[n%4]
			}
			if r.bad {
				return ep
			}
			r.visit(w+1, "open", k, name, 1+r.intn(3), true, -1)
			for i := 0; i < 8 && r.pages[w+1] != nil && r.pages[w+1].next != ""; i++ {
				r.visit(w+1, "next", "", "", 0, true, -1)
			}
			for i := 0; i < 12 && r.pages[w+1] != nil && r.pages[w+1].prev != ""; i++ {
				r.visit(w+1, "prev", "", "", 0, true, -1)
			}
		}
		return ep
	}}
}

// bigPages: as many events as the largest page takes, and one more.
func bigPages(cfg *Cfg, kind string) job {
	name := "bigpages/" + kind
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		r := newUIRun(ep, sut, uiUniverses[0], cfg.seed)
		defer r.close()
		for i := 0; i < 9; i++ {
			r.save(1, 111)
			r.calm()
		}
		r.types()
		for _, total := range []int{999, 1000, 1001} {
			for _, per := range []int{998, 999, 1000, 1001, 100000} {
				r.visit(1, "open", "s", r.u.Streams[0], per, true, -1)
				r.visit(1, "next", "", "", 0, true, -1)
			}
			if total == 1000 {
				r.visit(2, "open", "a", r.u.Types[0], 1000, true, -1)
			}
			r.save(1, 1)
		}
		r.visit(2, "next", "", "", 0, true, -1)
		r.visit(2, "again", "", "", 0, true, -1)
		r.visit(2, "next", "", "", 0, true, -1)
		r.types()
		return ep
	}}
}

// liveFeeds: visitors watch while events are saved.
func liveFeeds(cfg *Cfg, kind string, n int) job {
	u := uiUniverses[n%len(uiUniverses)]
	name := fmt.Sprintf("live%d/%s/%s", n, kind, u.Name)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		r := newUIRun(ep, sut, u, cfg.seed*104729+int64(n))
		defer r.close()
		lastOf := map[int]string{}
		want := func(f *uiFeed) int {
			last, must := 0, -1
			for _, l := range r.ep.lines {
				switch {
				case l["e"] == "wconn" && l["id"] == f.id:
					must = last
				case l["e"] == "save" && (lastOf[f.id] == "" || l["at"] == lastOf[f.id]):
					last = l["g"].(int)
				}
			}
			if last == must && lastOf[f.id] != "" {
				return 0
			}
			return last
		}
		for i := r.intn(4); i > 0; i-- {
			r.save(1+r.intn(4), 1+r.intn(3))
		}
		if r.intn(2) == 0 {
			r.calm()
		}
		for round := 0; round < 4 && !r.bad; round++ {
			ats := []string{u.Types[r.intn(3)], ""}
			for _, at := range ats[:1+r.intn(2)] {
				during := r.intn(3)
				var wg sync.WaitGroup
				if during == 0 {
					r.mu.Lock()
					// the visitor is connected as soon as the handshake is answered, and saves at once
					id, ty := len(r.feeds)+1, at
					wg.Add(1)
					r.hs = func() {
						defer wg.Done()
						r.connected(&uiFeed{id: id})
						for i, t := range u.Types {
							if t == ty {
								r.save(i+1, 2)
							}
						}
						r.save(1+r.intn(4), 1)
						r.calm()
					}
					r.mu.Unlock()
				}
				if during == 1 {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 8; i++ {
							r.save(1+(i*3+n)%4, 1)
							time.Sleep(200 * time.Microsecond)
						}
					}()
				}
				f := r.watch(at)
				if f == nil {
					return ep
				}
				lastOf[f.id] = at
				if during != 0 {
					r.connected(f)
				}
				for i := r.intn(3); i > 0; i-- {
					r.save(1+r.intn(4), 1+r.intn(3))
				}
				wg.Wait()
			}
			r.quiet(want)
		}
		return ep
	}}
}

// stalledFeed: the connection of one visitor makes no progress for a while.
func stalledFeed(cfg *Cfg, kind string, n int) job {
	u := uiUniverses[n%len(uiUniverses)]
	name := fmt.Sprintf("stalled%d/%s/%s", n, kind, u.Name)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		r := newUIRun(ep, sut, u, cfg.seed*7727+int64(n))
		defer r.close()
		lag := &gate{}
		defer lag.open()
		lastOf := func(at string) int {
			last := 0
			for _, l := range r.ep.lines {
				if l["e"] == "wslow" {
					last = 0
				} else if l["e"] == "save" && l["at"] == at {
					last = l["g"].(int)
				}
			}
			return last
		}
		r.save(1+r.intn(4), 1+r.intn(3))
		r.calm()
		feeds := map[string]*uiFeed{}
		for i, at := range []string{u.Types[0], u.Types[0], u.Types[1]} {
			r.mu.Lock()
			r.lag = nil
			if i == 0 {
				r.lag = lag
			}
			r.mu.Unlock()
			f := r.watch(at)
			if f == nil {
				return ep
			}
			r.connected(f)
			feeds[[]string{"slow", "same", "other"}[i]] = f
		}
		want := func(f *uiFeed) int {
			switch f {
			case feeds["same"]:
				return lastOf(u.Types[0])
			case feeds["other"]:
				return lastOf(u.Types[1])
			}
			return 0
		}
		r.mu.Lock()
		r.sync()
		r.note(line{"e": "wslow", "id": feeds["slow"].id}, "wslow")
		r.mu.Unlock()
		lag.close()
		for i := 0; i < 9+n%3*4 && !r.bad; i++ {
			r.save(1, 3)
			if i%4 == 3 {
				r.save(2, 1)
			}
			r.quiet(want)
		}
		time.Sleep(150 * time.Millisecond)
		r.save(1, 2)
		r.quiet(want)
		if n%2 == 0 {
			time.Sleep(150 * time.Millisecond)
		}
		lag.open()
		r.save(1, 1)
		r.save(2, 1)
		r.quiet(want)
		// it shows everything, or has ended
		f, told := feeds["slow"], false
		for end := time.Now().Add(6 * time.Second); !told && time.Now().Before(end); {
			r.mu.Lock()
			all := f.last == lastOf(u.Types[0])
			r.mu.Unlock()
			if all {
				break
			}
			select {
			case <-f.ended:
				told = true
			case <-time.After(5 * time.Millisecond):
			}
		}
		r.mu.Lock()
		r.sync()
		r.note(line{"e": "wfate", "id": f.id, "told": told}, fmt.Sprintf("wfate:%v", told))
		r.mu.Unlock()
		return ep
	}}
}

// liveTotal: the count a feed shows with its first event.
func liveTotal(cfg *Cfg, kind, which string) job {
	name := "livetotal/" + which + "/" + kind
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		r := newUIRun(ep, sut, uiUniverses[0], cfg.seed)
		defer r.close()
		r.save(1, 1)
		r.save(3, 1)
		if which == "same" {
			r.save(1, 1) // the latest event is of the type that is watched
		} else {
			r.save(2, 1)
			r.save(3, 1)
		}
		r.calm()
		f := r.watch(r.u.Types[0])
		if f == nil {
			return ep
		}
		r.connected(f)
		if which != "same" {
			r.save(1, 1)
		}
		for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
			r.mu.Lock()
			for _, l := range r.ep.lines {
				if l["e"] == "wrec" {
					r.note(line{"e": "wtotal", "g": l["rec"].(line)["g"], "name": r.u.Types[0], "total": l["total"]}, "wtotal")
					r.mu.Unlock()
					return ep
				}
			}
			r.mu.Unlock()
		}
		return ep
	}}
}

func init() {
	planners["P23"] = func(cfg *Cfg) []job {
		var jobs []job
		kinds := []string{"mem", "ldb", "rldb", "ldbmp", "rmem"}
		for _, mode := range []string{"ui", "uirush"} {
			for i, sc := range cfg.scripts[mode] {
				for j := 0; j < 2; j++ {
					jobs = append(jobs, uiScript(cfg, kinds[(i+j*2)%len(kinds)], sc, i, mode))
				}
			}
		}
		for i := 0; i < cfg.pick(40, 300); i++ {
			jobs = append(jobs, liveFeeds(cfg, kinds[i%len(kinds)], i))
		}
		for i := 0; i < cfg.pick(6, 40); i++ {
			jobs = append(jobs, stalledFeed(cfg, kinds[i%len(kinds)], i))
		}
		for _, kind := range []string{"mem", "ldb"} {
			jobs = append(jobs, bigPages(cfg, kind), liveTotal(cfg, kind, "same"), liveTotal(cfg, kind, "other"))
		}
		return jobs
	}
}
