package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strings"
	"testing/iotest"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"
)

// Event types with fields of many kinds.
type ioWide struct {
	Tag    string            `json:"tag"`
	I      int64             `json:"i"`
	U      uint64            `json:"u"`
	F      float64           `json:"f"`
	B      bool              `json:"b"`
	Bytes  []byte            `json:"bytes"`
	List   []string          `json:"list"`
	Map    map[string]string `json:"map"`
	Nested struct {
		X int    `json:"x"`
		Y string `json:"y,omitempty"`
	} `json:"nested"`
	Ptr *string `json:"ptr"`
}

func (ioWide) AggregateID() string   { return "w" }
func (ioWide) AggregateType() string { return "wide" }
func (ioWide) EventType() string     { return "IoWide" }

type ioSmall struct {
	Name string
	N    int
}

func (ioSmall) AggregateID() string   { return "s" }
func (ioSmall) AggregateType() string { return "small" }
func (ioSmall) EventType() string     { return "IoSmall" }

type ioEmpty struct{}

func (ioEmpty) AggregateID() string   { return "e" }
func (ioEmpty) AggregateType() string { return "empty" }
func (ioEmpty) EventType() string     { return "IoEmpty" }

var ioStrings = []string{"", "a", "thing!1", "été/路", "<&>\u2028\"\\/", "line\nbreak\r\ttab", "\x00\x1f", "\U0010ffff", "[{}],", "null", strings.Repeat("x", 300)}

func ioString(r *rand.Rand) string { return ioStrings[r.Intn(len(ioStrings))] }

func ioNumber(r *rand.Rand) uint64 {
	return []uint64{0, 1, 23, 24, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MaxUint64}[r.Intn(17)]
}

// ioValue is data without a type.
func ioValue(r *rand.Rand, depth int) interface{} {
	switch x := r.Intn(9); {
	case x == 0:
		return nil
	case x == 1:
		return r.Intn(2) == 0
	case x == 2:
		return json.Number([]string{"0", "-1", "12345678901234567890", "1.5", "1e3", "0.1", "9007199254740993"}[r.Intn(7)])
	case x < 5 && depth > 0:
		var l []interface{}
		for i := r.Intn(4); i >= 0; i-- {
			l = append(l, ioValue(r, depth-1))
		}
		return l
	case x < 7 && depth > 0:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[ioString(r)] = ioValue(r, depth-1)
		}
		return m
	default:
		return ioString(r)
	}
}

func ioRecord(r *rand.Rand) *rangedb.Record {
	rec := &rangedb.Record{StreamName: ioString(r), AggregateType: ioString(r), AggregateID: ioString(r), GlobalSequenceNumber: ioNumber(r),
		StreamSequenceNumber: ioNumber(r), InsertTimestamp: ioNumber(r), EventID: ioString(r), EventType: "Unknown" + fmt.Sprint(r.Intn(3))}
	switch r.Intn(5) {
	case 0:
		w := &ioWide{Tag: ioString(r), I: int64(ioNumber(r)), U: ioNumber(r), F: []float64{0, 1.5, -3, 1e300, 0.1, math.SmallestNonzeroFloat64}[r.Intn(6)], B: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			w.Bytes, w.List, w.Map = []byte(ioString(r)), []string{ioString(r), ioString(r)}, map[string]string{ioString(r): ioString(r), "k": ""}
			s := ioString(r)
			w.Ptr = &s
		}
		w.Nested.X, w.Nested.Y = -r.Intn(1000), ioString(r)
		rec.Data = w
	case 1:
		rec.Data = &ioSmall{ioString(r), r.Intn(100000)}
	case 2:
		rec.Data = &ioEmpty{}
	case 3: // a type that is not bound, as it is saved
		rec.Data = map[string]interface{}{"Name": ioString(r), "v": ioValue(r, 3)}
	default:
		rec.Data = ioValue(r, 3)
	}
	if e, ok := rec.Data.(rangedb.Event); ok {
		rec.EventType = e.EventType()
	}
	switch r.Intn(4) {
	case 0:
		rec.Metadata = map[string]interface{}{"userID": ioString(r), "n": ioValue(r, 2)}
	case 1:
		rec.Metadata = ioValue(r, 2)
	}
	return rec
}

// ioCanon renders what must be preserved of a record; loose: numbers without a type may have become text.
func ioCanon(rec *rangedb.Record, bound, loose bool) string {
	if rec == nil {
		return "no record"
	}
	any := func(v interface{}, loose bool) string {
		b, err := json.Marshal(v)
		if err != nil {
			return "unmarshalable:" + err.Error()
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var x interface{}
		if err := d.Decode(&x); err != nil {
			return "undecodable:" + err.Error()
		}
		if loose {
			x = numbersAsText(x)
		}
		b, _ = json.Marshal(x)
		return string(b)
	}
	kind, typed := "untyped", false
	switch rec.Data.(type) {
	case *ioWide, *ioSmall, *ioEmpty:
		if bound {
			kind, typed = fmt.Sprintf("%T", rec.Data), true
		}
	}
	return fmt.Sprintf("%q %q %q %d %d %d %q %q %s %s %s", rec.StreamName, rec.AggregateType, rec.AggregateID, rec.GlobalSequenceNumber,
		rec.StreamSequenceNumber, rec.InsertTimestamp, rec.EventID, rec.EventType, kind, any(rec.Data, loose && !typed), any(rec.Metadata, loose))
}

func numbersAsText(x interface{}) interface{} {
	switch v := x.(type) {
	case json.Number:
		return v.String()
	case []interface{}:
		for i := range v {
			v[i] = numbersAsText(v[i])
		}
	case map[string]interface{}:
		for k := range v {
			v[k] = numbersAsText(v[k])
		}
	}
	return x
}

var ioFormats = []string{"json", "ndjson", "msgpack"}

func newIoStream(format string, bound bool) rangedb.RecordIoStream {
	var s rangedb.RecordIoStream
	switch format {
	case "json":
		s = jsonrecordiostream.New()
	case "ndjson":
		s = ndjsonrecordiostream.New()
	default:
		s = msgpackrecordiostream.New()
	}
	if bound {
		s.Bind(ioWide{}, &ioSmall{}, ioEmpty{})
	}
	return s
}

// recordsOf gives records one after the other, and then an error if fail is set.
func recordsOf(recs []*rangedb.Record, fail error) rangedb.RecordIterator {
	ch := make(chan rangedb.ResultRecord)
	go func() {
		defer close(ch)
		for _, r := range recs {
			ch <- rangedb.ResultRecord{Record: r}
		}
		if fail != nil {
			ch <- rangedb.ResultRecord{Err: fail}
		}
	}()
	return rangedb.NewRecordIterator(ch)
}

var errIo = errors.New("the source failed")

// limited accepts n bytes.
type limited struct {
	b bytes.Buffer
	n int
}

func (w *limited) Write(p []byte) (int, error) {
	if w.n >= 0 && w.b.Len()+len(p) > w.n {
		k := w.n - w.b.Len()
		w.b.Write(p[:k])
		return k, errIo
	}
	return w.b.Write(p)
}

func export(format string, recs []*rangedb.Record, src error, limit int) ([]byte, error) {
	w := &limited{n: limit}
	var first error
	for err := range newIoStream(format, true).Write(w, recordsOf(recs, src)) {
		if first == nil {
			first = err
		}
	}
	return w.b.Bytes(), first
}

// chunked gives bytes in pieces, and then the end or a failure.
func chunked(b []byte, fail error, mode int) io.Reader {
	var r io.Reader = bytes.NewReader(b)
	if fail != nil {
		r = io.MultiReader(r, iotest.ErrReader(fail))
	}
	switch mode % 4 {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.HalfReader(r)
	case 3:
		return iotest.DataErrReader(r)
	}
	return r
}

type ioRun struct {
	ep    *Ep
	ids   map[string]int
	bound bool
	loose bool
}

func (o *ioRun) id(rec *rangedb.Record) int {
	c := ioCanon(rec, o.bound, o.loose)
	if _, ok := o.ids[c]; !ok {
		o.ids[c] = len(o.ids) + 1
		o.ep.mu.Lock()
		o.ep.recs = append(o.ep.recs, line{"k": len(o.ids), "d": short(c)})
		o.ep.mu.Unlock()
	}
	return o.ids[c]
}

func (o *ioRun) note(l line) {
	o.ep.mu.Lock()
	o.ep.sig[fmt.Sprintf("%s:%v", l["e"], l["r"])]++
	o.ep.mu.Unlock()
	o.ep.log(l)
}

func (o *ioRun) read(format string, b []byte, how string, n int, fail error, mode int) []*rangedb.Record {
	l := line{"e": "read", "how": how, "n": n, "r": "ok"}
	out := []int{}
	var got []*rangedb.Record
	bad, msg := guard(func() {
		it := newIoStream(format, o.bound).Read(chunked(b, fail, mode))
		for it.Next() {
			out = append(out, o.id(it.Record()))
			got = append(got, it.Record())
			if len(out) > 1000 {
				break
			}
		}
		if it.Err() != nil {
			l["r"], l["msg"] = "err", short(it.Err().Error())
		}
	})
	if bad != "" {
		l["r"], l["msg"] = bad, short(msg)
		out = []int{}
		if bad == "hang" {
			o.ep.kill()
		}
	}
	l["out"] = out
	o.note(l)
	return got
}

func (o *ioRun) write(format string, recs []*rangedb.Record, src int, limit int) (b []byte) {
	given, fail := recs, error(nil)
	if src >= 0 {
		given, fail = recs[:src], errIo
	}
	ks := []int{}
	for _, r := range given {
		ks = append(ks, o.id(r))
	}
	// where each record ends, as the writer itself writes shorter lists
	ends := []int{}
	for i := range given {
		p, err := export(format, given[:i+1], nil, -1)
		must(err)
		if format == "json" {
			ends = append(ends, len(p)-1)
		} else {
			ends = append(ends, len(p))
		}
	}
	l := line{"e": "write", "fmt": format, "ks": ks, "ends": ends, "src": src, "sink": limit >= 0, "r": "ok"}
	bad, msg := guard(func() {
		var err error
		b, err = export(format, given, fail, limit)
		if err != nil {
			l["r"] = "err"
		}
	})
	if bad != "" {
		l["r"], l["msg"] = bad, short(msg)
		if bad == "hang" {
			o.ep.kill()
		}
	}
	l["len"] = len(b)
	o.note(l)
	return b
}

func (o *ioRun) serializers(recs []*rangedb.Record, rnd *rand.Rand) {
	for _, format := range []string{"json", "msgpack"} {
		o.loose = format == "msgpack"
		var s rangedb.RecordSerializer = jsonrecordserializer.New()
		if o.loose {
			s = msgpackrecordserializer.New()
		}
		if o.bound {
			s.Bind(&ioWide{}, ioSmall{}, &ioEmpty{})
		}
		for _, rec := range recs {
			k := o.id(rec)
			b, err := s.Serialize(rec)
			if err != nil && rec.Data == nil {
				continue // refused: it could not be read back
			}
			must(err)
			for n := len(b); n >= 0; n-- {
				if n < len(b) && len(b) > 120 && rnd.Intn(len(b)) > 100 {
					continue
				}
				l := line{"e": "ser", "fmt": format, "k": k, "len": len(b), "n": n, "r": "ok", "out": 0}
				bad, msg := guard(func() {
					got, err := s.Deserialize(append([]byte{}, b[:n]...))
					if err != nil {
						l["r"] = "err"
						return
					}
					l["out"] = o.id(got)
				})
				if bad != "" {
					l["r"], l["msg"] = bad, short(msg)
				}
				o.note(l)
			}
		}
	}
}

func ioEpisode(cfg *Cfg, n int) job {
	name := fmt.Sprintf("io%d", n)
	return job{name: name, run: func() *Ep {
		rnd := rand.New(rand.NewSource(cfg.seed*2221 + int64(n)))
		ep := newEp(name)
		ep.spec = "RecordStreamTrace"
		o := &ioRun{ep: ep, ids: map[string]int{}, bound: n%4 != 0}
		var recs []*rangedb.Record
		size := []int{0, 1, 2, 3, 5}[n%5]
		if n%11 == 10 {
			size = 60 // more than any buffer
		}
		for i := 0; i < size; i++ {
			recs = append(recs, ioRecord(rnd))
		}
		if n%7 == 6 {
			for i := 0; i < 3; i++ {
				rec := ioRecord(rnd)
				if rec.Data == nil || i > 0 {
					rec.Data, rec.EventType = wide(rnd.Intn(1000), ioString(rnd)), "Unknown"
				}
				rec.Metadata = wide(rnd.Intn(1000), ioString(rnd))
				recs = append(recs, rec)
			}
		}
		for fi, format := range ioFormats {
			o.loose = format == "msgpack"
			b := o.write(format, recs, -1, -1)
			for mode := 0; mode < 4; mode++ {
				o.read(format, b, "cut", len(b), nil, mode)
			}
			step := 1 + len(b)/cfg.pick(400, 3000)
			for at := rnd.Intn(step); at < len(b); at += step {
				o.read(format, b[:at], "cut", at, nil, rnd.Intn(4))
			}
			for at := rnd.Intn(step); at <= len(b); at += step {
				if rnd.Intn(3) == 0 {
					o.read(format, b[:at], "broken", at, errIo, rnd.Intn(4))
				}
			}
			// nonsense: a byte that is nowhere allowed
			if format != "msgpack" {
				for at := rnd.Intn(step); at < len(b); at += step {
					if rnd.Intn(3) == 0 {
						x := append([]byte{}, b...)
						x[at] = 1
						o.read(format, x, "broken", at, nil, rnd.Intn(4))
					}
				}
			}
			// every record start: cut, broken, nonsense
			for i := 0; i <= len(recs); i++ {
				p, err := export(format, recs[:i], nil, -1)
				must(err)
				for d := -2; d <= 2; d++ {
					if at := len(p) + d; at >= 0 && at <= len(b) {
						o.read(format, b[:at], "cut", at, nil, rnd.Intn(4))
						o.read(format, b[:at], "broken", at, errIo, rnd.Intn(4))
					}
				}
				if format == "msgpack" && i < len(recs) {
					x := append([]byte{}, b...)
					x[len(p)] = 0xc1
					o.read(format, x, "broken", len(p), nil, rnd.Intn(4))
				}
			}
			// through another format
			other := ioFormats[(fi+1+n%2)%3]
			if got := o.read(format, b, "cut", len(b), nil, 0); len(got) == len(recs) {
				o.loose = o.loose || other == "msgpack"
				b2 := o.write(other, got, -1, -1)
				o.read(other, b2, "cut", len(b2), nil, rnd.Intn(4))
				o.loose = format == "msgpack"
			}
			// failing sources and sinks
			for i := 0; i <= len(recs); i += 1 + len(recs)/8 {
				b := o.write(format, recs, i, -1)
				o.read(format, b, "cut", len(b), nil, rnd.Intn(4))
			}
			for i := 0; i < 12 && len(b) > 0; i++ {
				at := rnd.Intn(len(b))
				p := o.write(format, recs, -1, at)
				o.read(format, p, "cut", len(p), nil, 0)
			}
		}
		if len(recs) > 5 {
			recs = recs[:5]
		}
		o.serializers(recs, rnd)
		return ep
	}}
}

func init() {
	planners["P20"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(60, 400); i++ {
			jobs = append(jobs, ioEpisode(cfg, i))
		}
		return jobs
	}
}
