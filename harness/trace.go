package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"

	"github.com/inklabs/rangedb"
)

const bigNum = 2000000000

func capNum(n uint64) int {
	if n > bigNum {
		return bigNum
	}
	return int(n)
}

type line map[string]interface{}

// Ep records one episode: a fresh store, everything done to it, everything it answered.
type Ep struct {
	mu     sync.Mutex
	Name   string
	spec   string // trace specification, EventLogTrace if empty
	head   line   // further fields of the first line
	lines  []line
	recs   []line
	index  map[string]int
	byTag  map[string]int
	byPos  map[string]int    // the same, per position in the stream
	secret map[string]string // protected text of the events handed to the store
	known  map[string]bool   // tags of events handed to the store
	fixup  []func()
	dead   bool // an operation hung or panicked: the episode ends here
	ops    int
	sig    map[string]int

	stream  io.Writer // facts are written here at once (child processes)
	crashes int
}

// emit writes a fact to the stream; the caller holds the lock.
func (e *Ep) emit(l line) {
	if e.stream == nil {
		return
	}
	b, err := json.Marshal(l)
	must(err)
	_, _ = e.stream.Write(append(b, '\n'))
}

var episodes sync.Map // the episode last begun under a name

func newEp(name string) *Ep {
	ep := &Ep{Name: name, index: map[string]int{}, byTag: map[string]int{}, byPos: map[string]int{}, secret: map[string]string{}, known: map[string]bool{}, sig: map[string]int{}}
	episodes.Store(name, ep)
	return ep
}

// hungEpisode stands for an episode that does not end: some call into the code never returned.
func hungEpisode(name, out string) *Ep {
	buf := make([]byte, 1<<20)
	_ = os.WriteFile(out+"/hung.txt", buf[:runtime.Stack(buf, true)], 0644)
	ep := newEp(name + "/hung")
	if v, ok := episodes.Load(name); ok {
		ep.spec = v.(*Ep).spec
	}
	ep.log(line{"e": "hung"})
	ep.kill()
	return ep
}

func (e *Ep) log(l line) {
	e.mu.Lock()
	e.emit(l)
	e.lines = append(e.lines, l)
	e.mu.Unlock()
}

func (e *Ep) kill() {
	e.mu.Lock()
	e.dead = true
	e.mu.Unlock()
}

func (e *Ep) isDead() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.dead
}

// intern maps the full content of a record to a small number.
func (e *Ep) intern(r *rangedb.Record) int {
	if r == nil {
		return e.internLine("nil", line{"g": 0, "st": "<nil>", "at": "", "aid": "", "q": 0, "et": "", "d": "", "m": "", "id": "", "ts": 0}, "")
	}
	d, m := canonData(r.Data), canonJSON(r.Metadata)
	l := line{"g": capNum(r.GlobalSequenceNumber), "st": r.StreamName, "at": r.AggregateType, "aid": r.AggregateID,
		"q": capNum(r.StreamSequenceNumber), "et": r.EventType, "d": d, "m": m, "id": r.EventID, "ts": capNum(r.InsertTimestamp)}
	b, _ := json.Marshal(l)
	return e.internLine(string(b), l, tagOfRecord(r))
}

func posKey(tag, stream string, q int) string { return fmt.Sprintf("%s\x00%s\x00%d", tag, stream, q) }

func (e *Ep) secretOf(r *rangedb.Record) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.secret[tagOfRecord(r)]
}

// internProtected maps a record whose protected text may be missing (redacted)
// or encrypted to the number it has with that text.
func (e *Ep) internProtected(r *rangedb.Record, encrypted bool) (k int, red bool, text string) {
	s, ok := r.Data.(*evS)
	if ok && (encrypted || s.Secret == redacted) {
		red, text = s.Secret == redacted, s.Secret
		whole := *r
		d := *s
		e.mu.Lock()
		d.Secret = e.secret[s.Tag]
		e.mu.Unlock()
		whole.Data = &d
		r = &whole
	}
	return e.intern(r), red, text
}

func (e *Ep) internLine(key string, l line, tag string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	if k, ok := e.index[key]; ok {
		return k
	}
	k := len(e.recs) + 1
	l["k"] = k
	e.recs = append(e.recs, l)
	e.index[key] = k
	if e.stream != nil {
		out := line{"e": "rec", "tag": tag}
		for f, v := range l {
			out[f] = v
		}
		e.emit(out)
	}
	if st, ok := l["st"].(string); ok && tag != "" {
		e.byPos[posKey(tag, st, l["q"].(int))] = k
	}
	if tag != "" {
		if _, ok := e.byTag[tag]; !ok {
			e.byTag[tag] = k
		}
	}
	return k
}

// finish resolves what an event of a save became (k), then returns the header and the lines.
func (e *Ep) finish() []line {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, f := range e.fixup {
		f()
	}
	recs := e.recs
	if recs == nil {
		recs = []line{}
	}
	if len(recs) == 0 {
		recs = append(recs, line{"k": 1, "g": 0, "st": "<none>", "at": "", "aid": "", "q": 0, "et": "", "d": "", "m": "", "id": "", "ts": 0})
	}
	head := line{"e": "reset", "name": e.Name, "recs": recs}
	for k, v := range e.head {
		head[k] = v
	}
	out := []line{head}
	return append(out, e.lines...)
}

// Writer spreads the episodes of each trace specification over shard files.
type Writer struct {
	mu     sync.Mutex
	dir    string
	n      int
	shards map[string][]*shard
	eps    int
	lines  int
	sigs   map[string]int
}

type shard struct {
	f    *os.File
	w    *bufio.Writer
	size int
}

func newWriter(dir string, n int) *Writer {
	return &Writer{dir: dir, n: n, shards: map[string][]*shard{}, sigs: map[string]int{}}
}

func (w *Writer) add(e *Ep) {
	ls := e.finish()
	spec := e.spec
	if spec == "" {
		spec = "EventLogTrace"
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.shards[spec]) < w.n {
		f, err := os.Create(fmt.Sprintf("%s/%s-%d.ndjson", w.dir, spec, len(w.shards[spec])))
		must(err)
		w.shards[spec] = append(w.shards[spec], &shard{f: f, w: bufio.NewWriterSize(f, 1<<20)})
	}
	best := w.shards[spec][0]
	for _, s := range w.shards[spec] {
		if s.size < best.size {
			best = s
		}
	}
	for _, l := range ls {
		b, err := json.Marshal(l)
		must(err)
		_, _ = best.w.Write(append(b, '\n'))
	}
	best.size += len(ls)
	w.eps++
	w.lines += len(ls)
	for k, v := range e.sig {
		w.sigs[k] += v
	}
}

func (w *Writer) close() {
	for _, ss := range w.shards {
		for _, s := range ss {
			must(s.w.Flush())
			must(s.f.Close())
		}
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}
