package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/gorilla/websocket"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
)

// pipeListener is a network of unbuffered connections.
type pipeListener struct {
	ch   chan net.Conn
	once sync.Once
	done chan struct{}
}

func newPipeListener() *pipeListener {
	return &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, io.EOF
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.UnixAddr{Name: "pipe", Net: "unix"} }
func (l *pipeListener) dial() (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- b:
		return a, nil
	case <-l.done:
		return nil, io.EOF
	}
}

// httpStore is a client of the HTTP API; what the API does not offer is left to the store behind it.
type httpStore struct {
	rangedb.Store
	hc   *http.Client
	n    int64
	base string // path of the API

	// plain: the store behind it does not know the types of events, so numbers
	// come as text in one format (see known-findings.txt)
	plain bool
}

type conflictError struct{}

func (conflictError) Error() string { return "409 conflict" }

func newHTTPStore(s *SUT) *httpStore {
	lis := newPipeListener()
	api, err := rangedbapi.New(rangedbapi.WithStore(s.backing))
	must(err)
	s.stats = api.AggregateTypeStatsProjection()
	srv := &http.Server{Handler: api, ErrorLog: quietLog}
	go func() { _ = srv.Serve(lis) }()
	tr := &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) { return lis.dial() }}
	s.closers = append(s.closers, func() { tr.CloseIdleConnections(); go srv.Close() })
	return &httpStore{Store: s.backing, hc: &http.Client{Transport: tr}}
}

func (h *httpStore) request(ctx context.Context, method, path string, exp int64, body []byte) (int, []byte, error) {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequestWithContext(ctx, method, "http://api"+h.base+path, rd)
	if err != nil {
		return 0, nil, err
	}
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	if exp >= 0 {
		req.Header.Set("ExpectedStreamSequenceNumber", strconv.FormatInt(exp, 10))
	}
	resp, err := h.hc.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func (h *httpStore) save(ctx context.Context, exp int64, stream string, ers []*rangedb.EventRecord) (uint64, error) {
	events := []map[string]interface{}{}
	broken := false
	for _, er := range ers {
		d, err := json.Marshal(er.Event)
		if err != nil {
			broken = true
			d = []byte(`"x"`)
		}
		m, err := json.Marshal(er.Metadata)
		if err != nil {
			broken = true
			m = []byte(`"x"`)
		}
		events = append(events, map[string]interface{}{"aggregateType": er.Event.AggregateType(), "aggregateID": er.Event.AggregateID(),
			"eventType": er.Event.EventType(), "data": json.RawMessage(d), "metadata": json.RawMessage(m)})
	}
	body, err := json.Marshal(events)
	if err != nil {
		return 0, err
	}
	if broken {
		body = body[:len(body)-1] // what an event is that can not be written
	}
	code, b, err := h.request(ctx, "POST", "/save-events/"+url.PathEscape(stream), exp, body)
	if err != nil {
		return 0, err
	}
	return savedAt(code, b)
}

// savedAt reads the answer to a save.
func savedAt(code int, b []byte) (uint64, error) {
	switch code {
	case http.StatusCreated:
		var r struct {
			Status               string
			StreamSequenceNumber uint64
		}
		if err := json.Unmarshal(b, &r); err != nil || r.Status != "OK" {
			return 0, fmt.Errorf("unexpected answer %s", b)
		}
		return r.StreamSequenceNumber, nil
	case http.StatusConflict:
		return 0, conflictError{}
	}
	if code/100 == 2 || code == http.StatusNotFound {
		return 0, fmt.Errorf("unexpected status %d", code)
	}
	return 0, errors.New("status " + strconv.Itoa(code))
}

func (h *httpStore) Save(ctx context.Context, stream string, ers ...*rangedb.EventRecord) (uint64, error) {
	return h.save(ctx, -1, stream, ers)
}

func (h *httpStore) OptimisticSave(ctx context.Context, exp uint64, stream string, ers ...*rangedb.EventRecord) (uint64, error) {
	return h.save(ctx, int64(exp), stream, ers)
}

func (h *httpStore) OptimisticDeleteStream(ctx context.Context, exp uint64, stream string) error {
	code, b, err := h.request(ctx, "POST", "/delete-stream/"+url.PathEscape(stream), int64(exp), nil)
	if err != nil {
		return err
	}
	switch code {
	case http.StatusOK:
		var r struct {
			Status        string
			EventsDeleted uint64
		}
		if err := json.Unmarshal(b, &r); err != nil || r.Status != "OK" || r.EventsDeleted != exp {
			return fmt.Errorf("unexpected answer %s", b)
		}
		return nil
	case http.StatusConflict:
		return conflictError{}
	case http.StatusNotFound:
		return rangedb.ErrStreamNotFound
	}
	return errors.New("status " + strconv.Itoa(code))
}

// listed is the result of a listing.
type listed struct {
	recs []*rangedb.Record
	err  error
	i    int
}

func (l *listed) Next() bool                       { l.i++; return l.i <= len(l.recs) }
func (l *listed) NextContext(context.Context) bool { return l.Next() }
func (l *listed) Record() *rangedb.Record          { return l.recs[l.i-1] }
func (l *listed) Err() error {
	if l.i <= len(l.recs) {
		return nil
	}
	return l.err
}

// parseRecord reads a record as a client would: by the documented field names.
func parseRecord(b []byte) (*rangedb.Record, error) {
	var f struct {
		StreamName           string          `json:"streamName"`
		AggregateType        string          `json:"aggregateType"`
		AggregateID          string          `json:"aggregateID"`
		GlobalSequenceNumber uint64          `json:"globalSequenceNumber"`
		StreamSequenceNumber uint64          `json:"streamSequenceNumber"`
		InsertTimestamp      uint64          `json:"insertTimestamp"`
		EventID              string          `json:"eventID"`
		EventType            string          `json:"eventType"`
		Data                 json.RawMessage `json:"data"`
		Metadata             json.RawMessage `json:"metadata"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	r := &rangedb.Record{StreamName: f.StreamName, AggregateType: f.AggregateType, AggregateID: f.AggregateID, GlobalSequenceNumber: f.GlobalSequenceNumber,
		StreamSequenceNumber: f.StreamSequenceNumber, InsertTimestamp: f.InsertTimestamp, EventID: f.EventID, EventType: f.EventType}
	data, err := eventOf(f.EventType, f.Data)
	r.Data = data
	if err == nil && len(f.Metadata) > 0 {
		err = numbers(f.Metadata, &r.Metadata)
	}
	return r, err
}

// eventOf reads the data of an event.
func eventOf(eventType string, b []byte) (interface{}, error) {
	switch eventType {
	case "EvA":
		var e evA
		err := json.Unmarshal(b, &e.evBase)
		return &e, err
	case "EvB":
		var e evB
		err := json.Unmarshal(b, &e.evBase)
		return &e, err
	}
	var v interface{}
	err := numbers(b, &v)
	return v, err
}

func numbers(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

// decimals turns strings that are numbers into numbers again (see P20).
func decimals(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		if _, err := strconv.ParseInt(x, 10, 64); err == nil {
			return json.Number(x)
		}
	case map[string]interface{}:
		for k, y := range x {
			if k != "tag" {
				x[k] = decimals(y)
			}
		}
	case []interface{}:
		for i, y := range x {
			x[i] = decimals(y)
		}
	}
	return v
}

func (h *httpStore) list(ctx context.Context, path string) rangedb.RecordIterator {
	ext := []string{"json", "ndjson", "msgpack"}[atomic.AddInt64(&h.n, 1)%3]
	code, b, err := h.request(ctx, "GET", path+"."+ext, -1, nil)
	l := &listed{err: err}
	if code != 0 && code != http.StatusOK {
		l.err = fmt.Errorf("status %d", code)
		return l
	}
	switch ext {
	case "json":
		d := json.NewDecoder(bytes.NewReader(b))
		if t, e := d.Token(); e != nil || t != json.Delim('[') {
			l.fail(e)
			return l
		}
		for d.More() {
			var raw json.RawMessage
			if e := d.Decode(&raw); e != nil {
				l.fail(e)
				return l
			}
			l.add(raw)
		}
		if _, e := d.Token(); e != nil {
			l.fail(e)
		}
	case "ndjson":
		for _, ln := range bytes.Split(b, []byte("\n")) {
			if len(bytes.TrimSpace(ln)) > 0 {
				l.add(ln)
			}
		}
	case "msgpack":
		raw, e := base64.RawStdEncoding.DecodeString(string(b))
		if e != nil {
			l.fail(e)
		}
		io := msgpackrecordiostream.New()
		if !h.plain {
			io.Bind(evA{}, evB{})
		}
		it := io.Read(bytes.NewReader(raw))
		for it.Next() {
			r := it.Record()
			if r == nil {
				break
			}
			r.Data, r.Metadata = decimals(r.Data), decimals(r.Metadata)
			if h.plain {
				b, e := json.Marshal(r.Data)
				if e != nil {
					l.fail(e)
					return l
				}
				if r.Data, e = eventOf(r.EventType, b); e != nil {
					l.fail(e)
					return l
				}
			}
			l.recs = append(l.recs, r)
		}
		if it.Err() != nil {
			l.fail(it.Err())
		}
	}
	return l
}

func (l *listed) fail(err error) {
	if l.err == nil {
		if err == nil {
			err = errors.New("damaged listing")
		}
		l.err = err
	}
}

func (l *listed) add(b []byte) {
	if l.err != nil && len(b) > 0 && b[len(b)-1] != '}' {
		return // cut in the middle
	}
	r, err := parseRecord(b)
	if err != nil {
		l.fail(err)
		return
	}
	l.recs = append(l.recs, r)
}

func (h *httpStore) Events(ctx context.Context, from uint64) rangedb.RecordIterator {
	return h.list(ctx, "/all-events")
}

func (h *httpStore) EventsByStream(ctx context.Context, from uint64, stream string) rangedb.RecordIterator {
	return h.list(ctx, "/events-by-stream/"+url.PathEscape(stream))
}

// escapeTypes is the list of types as part of a path.
func escapeTypes(types []string) string {
	var out []string
	for _, t := range types {
		out = append(out, url.PathEscape(t))
	}
	return strings.Join(out, ",")
}

func (h *httpStore) EventsByAggregateTypes(ctx context.Context, from uint64, types ...string) rangedb.RecordIterator {
	return h.list(ctx, "/events-by-aggregate-type/"+escapeTypes(types))
}

// totals reads the listed number of events per aggregate type.
func (h *httpStore) totals() (map[string]int, int, error) {
	code, b, err := h.request(context.Background(), "GET", "/list-aggregate-types", -1, nil)
	if err != nil || code != 200 {
		return nil, 0, fmt.Errorf("%d %v", code, err)
	}
	var r struct {
		TotalEvents int
		Data        []struct {
			Name        string
			TotalEvents int
		}
	}
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, 0, err
	}
	out := map[string]int{}
	for _, d := range r.Data {
		if _, ok := out[d.Name]; ok {
			return nil, 0, errors.New("listed twice")
		}
		out[d.Name] = d.TotalEvents
	}
	return out, r.TotalEvents, nil
}

// wsServer serves the WebSocket feeds of a store.
type wsServer struct {
	lis  *pipeListener
	srv  *http.Server
	dial func() (net.Conn, error)
	base string
}

func newWSServer(s *SUT) *wsServer {
	w := &wsServer{lis: newPipeListener()}
	w.dial = w.lis.dial
	api, err := rangedbws.New(rangedbws.WithStore(s.store), rangedbws.WithLogger(quietLog))
	must(err)
	w.srv = &http.Server{Handler: api, ErrorLog: quietLog}
	go func() { _ = w.srv.Serve(w.lis) }()
	s.closers = append(s.closers, func() { go w.srv.Close() })
	return w
}

// wsSub is a WebSocket client.
type wsSub struct {
	w      *wsServer
	accept rangedb.RecordSubscriberFunc
	all    bool
	types  []string
	mu     sync.Mutex
	conn   *websocket.Conn
	closed chan struct{}
}

func (c *wsSub) Start() error { return errors.New("feeds start from a position") }

func (c *wsSub) StartFrom(from uint64) error {
	u := "ws://api" + c.w.base + "/events"
	if !c.all {
		u += "/" + escapeTypes(c.types)
	}
	if from > 0 {
		u += fmt.Sprintf("?global-sequence-number=%d", from)
	}
	d := websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return c.w.dial() }}
	conn, _, err := d.Dial(u, nil)
	if err != nil {
		return err
	}
	c.mu.Lock()
	c.conn = conn
	c.mu.Unlock()
	go func() {
		defer close(c.closed)
		for {
			_, b, err := conn.ReadMessage()
			if err != nil {
				return
			}
			r, err := parseRecord(b)
			if err != nil {
				r = nil
			}
			c.accept(r)
		}
	}()
	return nil
}

func (c *wsSub) Done() <-chan struct{} { return c.closed }

func (c *wsSub) Stop() {
	c.mu.Lock()
	conn := c.conn
	c.mu.Unlock()
	if conn != nil {
		_ = conn.Close()
	}
}
