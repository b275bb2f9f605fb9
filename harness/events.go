package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/vmihailenco/msgpack/v4"
)

// hook runs while an event is being serialized: it can fail or cancel a context.
type hook func() error

type evBase struct {
	Tag string `json:"tag"`
	Num uint64 `json:"num"`
	at  string
	aid string
	h   hook
}

type plainEv struct {
	Tag string `json:"tag"`
	Num uint64 `json:"num"`
}

func (e evBase) AggregateID() string   { return e.aid }
func (e evBase) AggregateType() string { return e.at }

func (e evBase) MarshalJSON() ([]byte, error) {
	if e.h != nil {
		if err := e.h(); err != nil {
			return nil, err
		}
	}
	return json.Marshal(plainEv{e.Tag, e.Num})
}

func (e evBase) EncodeMsgpack(enc *msgpack.Encoder) error {
	if e.h != nil {
		if err := e.h(); err != nil {
			return err
		}
	}
	return enc.Encode(plainEv{e.Tag, e.Num})
}

func (e *evBase) DecodeMsgpack(dec *msgpack.Decoder) error {
	var p plainEv
	if err := dec.Decode(&p); err != nil {
		return err
	}
	e.Tag, e.Num = p.Tag, p.Num
	return nil
}

// evA and evB are bound event types, evU is never bound.
type evA struct{ evBase }
type evB struct{ evBase }
type evU struct{ evBase }

func (evA) EventType() string { return "EvA" }
func (evB) EventType() string { return "EvB" }
func (evU) EventType() string { return "EvU" }

// evS protects its Secret field with the key of subject Sub.
type evS struct {
	Tag    string `json:"tag"`
	Sub    string `json:"sub"`
	Secret string `json:"secret"`
	Open   string `json:"open"`
	at     string
	aid    string
	h      hook
}

type plainEvS struct {
	Tag    string `json:"tag"`
	Sub    string `json:"sub"`
	Secret string `json:"secret"`
	Open   string `json:"open"`
}

func (e evS) AggregateID() string   { return e.aid }
func (e evS) AggregateType() string { return e.at }
func (evS) EventType() string       { return "EvS" }
func (e evS) MarshalJSON() ([]byte, error) {
	if e.h != nil {
		if err := e.h(); err != nil {
			return nil, err
		}
	}
	return json.Marshal(plainEvS{e.Tag, e.Sub, e.Secret, e.Open})
}

func (e evS) EncodeMsgpack(enc *msgpack.Encoder) error {
	if e.h != nil {
		if err := e.h(); err != nil {
			return err
		}
	}
	return enc.Encode(plainEvS{e.Tag, e.Sub, e.Secret, e.Open})
}

func (e *evS) DecodeMsgpack(dec *msgpack.Decoder) error {
	var p plainEvS
	if err := dec.Decode(&p); err != nil {
		return err
	}
	e.Tag, e.Sub, e.Secret, e.Open = p.Tag, p.Sub, p.Secret, p.Open
	return nil
}

func (e *evS) Encrypt(enc crypto.Encryptor) error {
	s, err := enc.Encrypt(e.Sub, e.Secret)
	if err != nil {
		if err == crypto.ErrKeyWasDeleted {
			e.Secret = redacted
		}
		return err
	}
	e.Secret = s
	return nil
}

func (e *evS) Decrypt(enc crypto.Encryptor) error {
	s, err := enc.Decrypt(e.Sub, e.Secret)
	if err != nil {
		if err == crypto.ErrKeyWasDeleted {
			e.Secret = redacted
		}
		return err
	}
	e.Secret = s
	return nil
}

// secretText makes different kinds of protected text; all but the shortest contain leakMark.
func secretText(n int, tag string) string {
	switch n % 10 {
	case 1:
		return ""
	case 2:
		return "x"
	case 3:
		return leakMark + strings.Repeat("long ", 200) + tag
	case 4:
		return leakMark + "été\x00\"\\<&>\U0010ffff" + tag
	case 5:
		return leakMark + "same" // in many events
	case 6:
		return leakMark + "0123456789abcdefghijk" // two blocks of a block cipher
	case 7:
		return base64.StdEncoding.EncodeToString([]byte(leakMark + tag))
	case 8: // looks like what an encryptor makes
		return base64.StdEncoding.EncodeToString([]byte(leakMark + strings.Repeat("0", 40) + tag))
	}
	return leakMark + tag
}

const leakMark = "SECRET-----"

var leakMarks = [][]byte{[]byte(leakMark), []byte("U0VDUkVULS0tLS")}

// leaks tells whether bytes at rest contain protected text.
func leaks(b []byte) bool {
	for _, m := range leakMarks {
		if bytes.Contains(b, m) {
			return true
		}
	}
	return false
}

// saved is an event handed over by value: the pointer methods are out of reach.
type saved struct{ *evS }

func (s saved) byValue() rangedb.Event { return *s.evS }

func bindAll(b rangedb.EventBinder) { b.Bind(evA{}, evB{}, &evS{}) }

var tagCounter uint64

var tagPrefix = "t"

func newTag() string { return fmt.Sprintf("%s%d", tagPrefix, atomic.AddUint64(&tagCounter, 1)) }

// canonData renders event data as it must come back from a read.
func canonData(v interface{}) string {
	kind := "map"
	switch v.(type) {
	case *evA:
		kind = "EvA"
	case *evB:
		kind = "EvB"
	case *evS:
		kind = "EvS"
	case evA, evB, evS, evU, *evU:
		kind = "val"
	case nil:
		kind = "nil"
	}
	return kind + canonJSON(v)
}

func canonJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable:" + err.Error()
	}
	return digest(string(b))
}

// digest keeps long content comparable without writing all of it down.
func digest(s string) string {
	if len(s) < 2500 {
		return s
	}
	return fmt.Sprintf("%s...%d bytes, %x", s[:40], len(s), sha256.Sum256([]byte(s)))
}

// wide makes a map with more entries, a list with more elements, or a text that
// is longer than encodings use a single byte (or two) of length for.
func wide(n int, tag string) interface{} {
	switch n % 6 {
	case 0, 1:
		m := map[string]interface{}{"tag": tag}
		for i := 0; i < 14+n%53; i++ {
			m[fmt.Sprintf("key%d", i)] = fmt.Sprint("value", i)
		}
		return m
	case 2:
		var l []interface{}
		for i := 0; i < 14+n%53; i++ {
			l = append(l, fmt.Sprint("value", i))
		}
		return map[string]interface{}{"tag": tag, "list": l}
	case 3:
		var v interface{} = "deep"
		for i := 0; i < 10+n%60; i++ {
			v = map[string]interface{}{"in": []interface{}{v}}
		}
		return map[string]interface{}{"tag": tag, "v": v}
	case 4:
		return map[string]interface{}{"tag": tag, "text": strings.Repeat("0123456789", 24+n%5)}
	}
	return map[string]interface{}{"tag": tag, "text": strings.Repeat("long text ", []int{400, 410, 1700, 6554, 7001}[n%5])}
}

// tagOfRecord: the tag of an event without data is found in its metadata.
func tagOfRecord(r *rangedb.Record) string {
	if r.Data == nil {
		return tagOf(r.Metadata)
	}
	return tagOf(r.Data)
}

func tagOf(v interface{}) string {
	switch e := v.(type) {
	case *evA:
		return e.Tag
	case *evB:
		return e.Tag
	case *evS:
		return e.Tag
	}
	if l, ok := v.([]interface{}); ok && len(l) > 0 {
		v = l[0]
	}
	if t, ok := v.(string); ok {
		return t
	}
	b, _ := json.Marshal(v)
	var m struct {
		Tag string `json:"tag"`
	}
	_ = json.Unmarshal(b, &m)
	return m.Tag
}

// redacted replaces protected text when the subject was removed.
const redacted = "-redacted-"

const (
	metas   = 14
	bigMeta = 100
)

// pickMeta mostly picks the kinds of metadata that clients use.
func pickMeta(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return r.Intn(3)
	}
	return r.Intn(metas)
}

// Ev is one event to save, as the specification sees it.
type Ev struct {
	At, Aid, Et, D, M string
	Tag               string
	Sub, Secret       string // protected data and whose it is
	Bad               bool
	Nul               bool // without data
	rec               *rangedb.EventRecord
}

// newEv builds a fresh event. kind: 0 bound A, 1 bound B, 2 struct but unbound, 3 raw event, 4 self-encrypting, 5 without data.
func newEv(kind int, at, aid string, num uint64, meta int, bad int, h hook) *Ev {
	tag := newTag()
	ev := &Ev{At: at, Aid: aid, Tag: tag, Bad: bad != 0}
	hk := h
	if bad == 1 {
		hk = func() error {
			if h != nil {
				_ = h()
			}
			return fmt.Errorf("event can not be serialized")
		}
	}
	b := evBase{Tag: tag, Num: num, at: at, aid: aid, h: hk}
	var e rangedb.Event
	plain := canonJSON(plainEv{tag, num})
	switch kind {
	case 0:
		e, ev.D = &evA{b}, "EvA"+plain
	case 1:
		e, ev.D = &evB{b}, "EvB"+plain
	case 2:
		e = &evU{b}
		ev.D = "map" + canonJSON(map[string]interface{}{"tag": tag, "num": num})
	case 4:
		s := &evS{Tag: tag, Sub: "subj-" + aid, Secret: secretText(int(num), tag), Open: "open", at: at, aid: aid, h: hk}
		e = s
		if num%4 == 3 {
			e = saved{s}.byValue()
		}
		ev.Sub, ev.Secret = s.Sub, s.Secret
		ev.D = "EvS" + canonJSON(plainEvS{s.Tag, s.Sub, s.Secret, s.Open})
	case 5:
		ev.Nul, ev.D, meta = true, "nilnull", 2
		var none *evU
		e = rangedb.NewRawEvent(at, aid, "Raw", []interface{}{nil, none}[num%2])
	default:
		nested := map[string]interface{}{"tag": tag, "num": num, "list": []interface{}{"x", true, nil, map[string]interface{}{"y": "é<&>"}}}
		var data interface{} = nested
		switch num % 10 {
		case 5:
			data = wide(int(num/10), tag)
		case 3:
			data = []interface{}{tag, num, map[string]interface{}{}, []interface{}{}, "", false}
		case 4:
			data = tag
		}
		if m, ok := data.(map[string]interface{}); ok {
			nested = m
		}
		ev.D = "map" + canonJSON(data)
		if bad == 1 {
			nested["bad"] = func() {}
			data = nested
		}
		e = rangedb.NewRawEvent(at, aid, "Raw", data)
	}
	ev.Et = e.EventType()
	var m interface{}
	switch meta {
	case 1:
		m = map[string]interface{}{"user": "u1", "n": 7}
	case 2:
		m = map[string]interface{}{"nested": map[string]interface{}{"a": []interface{}{1, "two"}}, "tag": tag}
	case 3:
		m = "text " + tag
	case 4:
		m = []interface{}{"a", true, nil, []interface{}{}}
	case 5:
		m = true
	case 6:
		m = map[string]interface{}{}
	case 7:
		m = ""
	case 8:
		m = []interface{}{}
	case 9:
		m = 12
	case bigMeta:
		m = strings.Repeat("large ", 1500) + tag
	default:
		if meta > 9 {
			m = wide(meta-10+6*int(num%50), tag)
		}
	}
	ev.M = canonJSON(m)
	if bad == 2 {
		m = map[string]interface{}{"f": func() {}}
		ev.M = "unserializable"
	}
	ev.rec = &rangedb.EventRecord{Event: e, Metadata: m}
	return ev
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return strings.TrimSpace(s)
}
