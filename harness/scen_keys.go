package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/dynamodbkeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/vaultkeystore"
)

// keySUT is a key store under test; its layers can be paused and made to fail.
type keySUT struct {
	*SUT
	store   crypto.KeyStore
	fresh   func() // a new, empty cache before the same keys
	strict  bool
	reuse   bool
	forgets bool
	had     sync.Map // subjects that got a key
	broken  int32    // the stand-in for a server got a request it does not know
	stop    func()
}

var keyKinds = []string{"mem", "cache", "cache2", "cachebehind", "vault", "vaultcache", "dynamo", "dynamocache"}

func newKeySUT(kind string) *keySUT {
	k := &keySUT{SUT: &SUT{p: newPauser()}, stop: func() {}}
	mem := func() crypto.KeyStore { return k.keyStore(inmemorykeystore.New()) }
	cached := func(second crypto.KeyStore) {
		k.fresh = func() { k.store = cachekeystore.New(mem(), second) }
		k.fresh()
	}
	switch kind {
	case "mem":
		k.store, k.strict = inmemorykeystore.New(), true
	case "cache":
		cached(mem())
	case "cache2": // the cache is a cached store
		second := mem()
		k.fresh = func() { k.store = cachekeystore.New(cachekeystore.New(mem(), mem()), second) }
		k.fresh()
	case "cachebehind": // the cached store is a cached store
		cached(cachekeystore.New(mem(), mem()))
	case "vault", "vaultcache":
		s, err := vaultkeystore.New(vaultkeystore.Config{Address: "http://vault", Token: "t"})
		must(err)
		s.SetTransport(&fakeVault{k: k, keys: map[string]*vaultEntry{}})
		k.store, k.strict, k.reuse = s, true, true
		if kind == "vaultcache" {
			k.strict, k.forgets = false, true
			cached(s)
		}
	case "dynamo", "dynamocache":
		d := &fakeDynamo{k: k, items: map[string]map[string]json.RawMessage{}, before: map[string]map[string]json.RawMessage{}}
		srv := httptest.NewServer(d)
		k.stop = srv.Close
		s, err := dynamodbkeystore.New(&dynamodbkeystore.Config{AccessKeyID: "a", SecretAccessKey: "b", AWSRegion: "us-east-1", TableName: "keys", EndpointURL: srv.URL})
		must(err)
		k.store, k.strict, k.reuse = s, true, true
		if kind == "dynamocache" {
			k.strict = false
			cached(s)
		}
	default:
		must(fmt.Errorf("unknown key store %s", kind))
	}
	return k
}

func (k *keySUT) episode(name string) *Ep {
	ep := newEp(name)
	ep.spec = "KeyStoreTrace"
	ep.head = line{"strict": k.strict, "reuse": k.reuse, "recs": []line{}}
	return ep
}

// end drops an episode that a stand-in could not follow.
func (k *keySUT) end(ep *Ep) *Ep {
	k.stop()
	if atomic.LoadInt32(&k.broken) != 0 {
		ep.sig = map[string]int{"unsupported": 1}
		ep.lines = nil
		ep.mu.Lock()
		ep.dead = false
		ep.mu.Unlock()
	}
	return ep
}

func (c *Client) keyGet(k *keySUT, s string, cx string) string {
	return c.do(line{"op": "get", "s": s, "cx": cx, "out": ""}, func(l line) {
		key, err := k.store.Get(s)
		l["r"], l["out"] = classifyKey(err, l), key
	})
}

func (c *Client) keySet(k *keySUT, s, key string, cx string) string {
	if k.reuse && key != "" { // such stores do not know the keys of other subjects
		key += "-of-" + s
	}
	return c.do(line{"op": "set", "s": s, "key": key, "cx": cx}, func(l line) {
		err := k.store.Set(s, key)
		if err == nil {
			k.had.Store(s, true)
		}
		l["r"] = classifyKey(err, l)
	})
}

func (c *Client) keyDel(k *keySUT, s string, cx string) string {
	// Vault does not remember that an unknown subject was removed, a cache does
	if _, ok := k.had.Load(s); !ok && k.forgets {
		return c.keyGet(k, s, cx)
	}
	return c.do(line{"op": "kdel", "s": s, "cx": cx}, func(l line) {
		l["r"] = classifyKey(k.store.Delete(s), l)
	})
}

func classifyKey(err error, l line) string {
	switch err {
	case nil:
		return "ok"
	case crypto.ErrKeyNotFound:
		return "nf"
	case crypto.ErrKeyWasDeleted:
		return "del"
	case crypto.ErrKeyExistsForSubjectID:
		return "exists"
	case crypto.ErrKeyAlreadyUsed:
		return "used"
	case crypto.ErrInvalidKey:
		return "invalid"
	}
	l["msg"] = short(err.Error())
	return "oth"
}

var keySubjects = [][]string{
	{"ann", "Ann", "bob", "a", "an", "b-1", "c_2"},
	{"a?x", "a", "a#x", "a?y", "a%41", "aA", "a?x#1"},
	{"a b", "a+b", "a%20b", "été", `a"b`, "a&b=c:d", "a"},
}

func (c *Client) keySubject(i int) string { return keySubjects[c.side%3][i%7] }

func (c *Client) keyCall(k *keySUT, op scriptOp, cx string) {
	switch op.Op {
	case "get":
		c.keyGet(k, c.keySubject(op.S), cx)
	case "set":
		c.keySet(k, c.keySubject(op.S), op.Key, cx)
	case "kdel":
		c.keyDel(k, c.keySubject(op.S), cx)
	}
}

// keyScript replays a generated history; caches are replaced now and then.
func keyScript(cfg *Cfg, kind string, sc []scriptOp, n int, restarts bool) job {
	name := fmt.Sprintf("keys%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		rnd := rand.New(rand.NewSource(cfg.seed*7919 + int64(n)))
		k := newKeySUT(kind)
		ep := k.episode(name)
		c := &Client{ep: ep, sut: k.SUT, side: n}
		for _, op := range sc {
			if restarts && k.fresh != nil && rnd.Intn(3) == 0 {
				k.fresh()
			}
			cx := "no"
			if op.Fail != "" {
				cx = "cut"
				atomic.StoreInt64(&k.keyFail, int64(op.Fail[0]-'0'))
			}
			c.keyCall(k, op, cx)
			atomic.StoreInt64(&k.keyFail, 0)
			if rnd.Intn(2) == 0 {
				c.keyGet(k, c.keySubject(op.S), "no")
			}
		}
		for s := 1; s <= 4; s++ {
			c.keyGet(k, c.keySubject(s), "no")
			c.keyGet(k, c.keySubject(s), "no")
		}
		return k.end(ep)
	}}
}

// keyPauses stops one call at each of its steps while others run.
func keyPauses(cfg *Cfg, kind string) job {
	return job{name: "keypause/" + kind, many: func(emit func(*Ep)) {
		ops := []string{"get", "set", "setown", "kdel"}
		inits := []string{"none", "set", "cold", "gone", "gonecold"}
		var mids [][]string
		for _, a := range ops {
			mids = append(mids, []string{a})
			for _, b := range ops {
				mids = append(mids, []string{a, b})
			}
		}
		for _, first := range ops {
			for _, init := range inits {
				for mi, mid := range mids {
					for at := 1; at <= 6; at++ {
						name := fmt.Sprintf("keypause/%s/%s/%s/%s@%d", kind, init, first, strings.Join(mid, "+"), at)
						k := newKeySUT(kind)
						ep := k.episode(name)
						c := &Client{ep: ep, sut: k.SUT}
						call := func(c *Client, op string, key string) {
							switch op {
							case "get":
								c.keyGet(k, "ann", "no")
							case "set":
								c.keySet(k, "ann", key, "no")
							case "setown": // the key another subject has
								c.keySet(k, "bob", "k-own", "no")
							case "kdel":
								c.keyDel(k, "ann", "no")
							}
						}
						switch init {
						case "set", "cold":
							c.keySet(k, "ann", "k-own", "no")
						case "gone", "gonecold":
							c.keySet(k, "ann", "k-own", "no")
							c.keyDel(k, "ann", "no")
						}
						if strings.HasSuffix(init, "cold") {
							if k.fresh == nil {
								k.stop()
								continue
							}
							k.fresh()
						}
						conc := &Client{ep: ep, sut: k.SUT, conc: true}
						paused, resume := k.p.arm(at)
						done := make(chan struct{})
						go func() {
							defer close(done)
							call(conc, first, "k-first")
						}()
						reached := false
						select {
						case <-paused:
							reached = true
						case <-done:
						}
						if reached {
							other := make(chan struct{})
							go func() {
								defer close(other)
								for i, op := range mid {
									call(conc, op, fmt.Sprintf("k-mid%d", i))
								}
							}()
							select {
							case <-other:
							case <-time.After(300 * time.Millisecond): // waits for the paused call
							}
							resume()
							<-other
						}
						resume()
						<-done
						for i := 0; i < 2; i++ {
							c.keyGet(k, "ann", "no")
							c.keyGet(k, "bob", "no")
						}
						c.keySet(k, "ann", "k-last", "no")
						c.keyGet(k, "ann", "no")
						if k.fresh != nil {
							k.fresh()
							c.keyGet(k, "ann", "no")
							c.keyGet(k, "ann", "no")
						}
						emit(k.end(ep))
						if !reached {
							break
						}
						_ = mi
					}
				}
			}
		}
	}}
}

// keyStress: several callers at once.
func keyStress(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("keystress%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		k := newKeySUT(kind)
		ep := k.episode(name)
		if n%4 != 0 {
			k.p.jitter = 150
		}
		c := &Client{ep: ep, sut: k.SUT}
		rounds := 6
		for r := 0; r < rounds && !ep.isDead(); r++ {
			who := []string{fmt.Sprintf("s%da", r), fmt.Sprintf("s%db", r)}
			if (n+r)%3 == 0 {
				c.keySet(k, who[0], fmt.Sprintf("k%d-0", r), "no")
				if k.fresh != nil {
					k.fresh()
				}
			}
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					rnd := rand.New(rand.NewSource(cfg.seed*6151 + int64(n*100+r*10+g)))
					conc := &Client{ep: ep, sut: k.SUT, conc: true}
					<-gate
					for i := 0; i < 4; i++ {
						s := who[rnd.Intn(5)/4]
						switch x := rnd.Intn(10); {
						case x < 5:
							conc.keyGet(k, s, "no")
						case x < 8:
							key := fmt.Sprintf("k%d-%d%d", r, g, i)
							if rnd.Intn(3) == 0 {
								key = fmt.Sprintf("k%d-shared", r)
							}
							conc.keySet(k, s, key, "no")
						default:
							conc.keyDel(k, s, "no")
						}
					}
				}(g)
			}
			close(gate)
			wg.Wait()
			for _, s := range who {
				c.keyGet(k, s, "no")
				c.keyGet(k, s, "no")
			}
		}
		return k.end(ep)
	}}
}

// ---------------------------------------------------------------- stand-ins for servers

type vaultEntry struct {
	values    []string
	destroyed map[int]bool
}

// fakeVault answers like version 2 of Vault's key value engine.
type fakeVault struct {
	k    *keySUT
	mu   sync.Mutex
	keys map[string]*vaultEntry
}

func (v *fakeVault) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	v.k.p.hit()
	if atomic.AddInt64(&v.k.keyFail, -1) == 0 {
		return nil, errKeys
	}
	code, out := v.serve(r.Method, r.URL.Path, body)
	v.k.p.hit()
	if atomic.AddInt64(&v.k.keyFail, -1) == 0 {
		return nil, errKeys
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(out)), Request: r}, nil
}

func (v *fakeVault) serve(method, path string, body []byte) (int, string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	data, destroy := "/v1/secret/data/", "/v1/secret/destroy/"
	switch {
	case method == "GET" && strings.HasPrefix(path, data):
		e := v.keys[path[len(data):]]
		if e == nil {
			return 404, `{"errors":[]}`
		}
		n := len(e.values)
		meta := fmt.Sprintf(`"metadata":{"created_time":"2021-05-01T00:00:00Z","deletion_time":"","destroyed":%v,"version":%d}`, e.destroyed[n], n)
		if e.destroyed[n] {
			return 404, `{"data":{"data":null,` + meta + `}}`
		}
		return 200, `{"data":{"data":` + e.values[n-1] + `,` + meta + `}}`
	case (method == "POST" || method == "PUT") && strings.HasPrefix(path, data):
		var in struct {
			Data    json.RawMessage `json:"data"`
			Options struct {
				CAS *int `json:"cas"`
			} `json:"options"`
		}
		if json.Unmarshal(body, &in) != nil {
			return 400, `{"errors":["bad request"]}`
		}
		name := path[len(data):]
		e := v.keys[name]
		n := 0
		if e != nil {
			n = len(e.values)
		}
		if in.Options.CAS != nil && *in.Options.CAS != n {
			return 400, `{"errors":["check-and-set parameter did not match the current version"]}`
		}
		if e == nil {
			e = &vaultEntry{destroyed: map[int]bool{}}
			v.keys[name] = e
		}
		e.values = append(e.values, string(in.Data))
		return 200, fmt.Sprintf(`{"data":{"created_time":"2021-05-01T00:00:00Z","deletion_time":"","destroyed":false,"version":%d}}`, n+1)
	case (method == "POST" || method == "PUT") && strings.HasPrefix(path, destroy):
		var in struct {
			Versions []int `json:"versions"`
		}
		if json.Unmarshal(body, &in) != nil {
			return 400, `{"errors":["bad request"]}`
		}
		if e := v.keys[path[len(destroy):]]; e != nil {
			for _, n := range in.Versions {
				e.destroyed[n] = true
			}
		}
		return 204, ""
	}
	atomic.StoreInt32(&v.k.broken, 1)
	return 400, `{"errors":["unsupported"]}`
}

// fakeDynamo answers like DynamoDB; reads that are not asked to be consistent
// may give an item as it was before its last change.
type fakeDynamo struct {
	k      *keySUT
	mu     sync.Mutex
	items  map[string]map[string]json.RawMessage
	before map[string]map[string]json.RawMessage
}

func (d *fakeDynamo) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	d.k.p.hit()
	code, out := d.serve(r.Header.Get("X-Amz-Target"), body)
	d.k.p.hit()
	w.Header().Set("Content-Type", "application/x-amz-json-1.0")
	w.WriteHeader(code)
	_, _ = io.WriteString(w, out)
}

func (d *fakeDynamo) serve(target string, body []byte) (int, string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	var in struct {
		Key, Item                 map[string]json.RawMessage
		ConditionExpression       string
		UpdateExpression          string
		ConsistentRead            bool
		ExpressionAttributeNames  map[string]string
		ExpressionAttributeValues map[string]json.RawMessage
	}
	must(json.Unmarshal(body, &in))
	unsupported := func() (int, string) {
		atomic.StoreInt32(&d.k.broken, 1)
		return 400, `{"__type":"com.amazonaws.dynamodb.v20120810#ValidationException","message":"unsupported"}`
	}
	keyed := func(m map[string]json.RawMessage) string { return string(m["SubjectID"]) }
	write := func(key string, item map[string]json.RawMessage) {
		d.before[key] = d.items[key]
		d.items[key] = item
	}
	holds := func(key string) (bool, bool) {
		switch strings.ReplaceAll(in.ConditionExpression, " ", "") {
		case "":
			return true, true
		case "attribute_not_exists(SubjectID)":
			return d.items[key] == nil, true
		case "attribute_exists(SubjectID)":
			return d.items[key] != nil, true
		}
		return false, false
	}
	const failed = `{"__type":"com.amazonaws.dynamodb.v20120810#ConditionalCheckFailedException","message":"The conditional request failed"}`
	switch target[strings.LastIndex(target, ".")+1:] {
	case "GetItem":
		key := keyed(in.Key)
		item := d.items[key]
		if old, ok := d.before[key]; ok && !in.ConsistentRead {
			delete(d.before, key)
			item = old
		}
		if item == nil {
			return 200, `{}`
		}
		b, _ := json.Marshal(item)
		return 200, `{"Item":` + string(b) + `}`
	case "PutItem":
		key := keyed(in.Item)
		ok, known := holds(key)
		if !known {
			return unsupported()
		}
		if !ok {
			return 400, failed
		}
		write(key, in.Item)
		return 200, `{}`
	case "UpdateItem":
		key := keyed(in.Key)
		ok, known := holds(key)
		if !known || !strings.HasPrefix(in.UpdateExpression, "SET ") {
			return unsupported()
		}
		if !ok {
			return 400, failed
		}
		item := map[string]json.RawMessage{"SubjectID": in.Key["SubjectID"]}
		for a, x := range d.items[key] {
			item[a] = x
		}
		for _, part := range strings.Split(in.UpdateExpression[4:], ",") {
			lr := strings.Split(part, "=")
			if len(lr) != 2 {
				return unsupported()
			}
			name, val := strings.TrimSpace(lr[0]), strings.TrimSpace(lr[1])
			if full, ok := in.ExpressionAttributeNames[name]; ok {
				name = full
			}
			x, ok := in.ExpressionAttributeValues[val]
			if !ok {
				return unsupported()
			}
			item[name] = x
		}
		write(key, item)
		return 200, `{}`
	}
	return unsupported()
}

func init() {
	planners["P18"] = func(cfg *Cfg) []job {
		var jobs []job
		for i, sc := range cfg.scripts["kmix"] {
			for _, kind := range keyKinds {
				jobs = append(jobs, keyScript(cfg, kind, sc, i, i%2 == 0))
			}
		}
		for i, sc := range cfg.scripts["kfault"] {
			for _, kind := range []string{"cache", "cache2", "cachebehind", "vault", "vaultcache"} {
				jobs = append(jobs, keyScript(cfg, kind, sc, 1000+i, i%2 == 0))
			}
		}
		for _, kind := range []string{"cache", "cache2", "cachebehind", "vault", "vaultcache", "dynamo"} {
			jobs = append(jobs, keyPauses(cfg, kind))
		}
		for i := 0; i < cfg.pick(60, 600); i++ {
			jobs = append(jobs, keyStress(cfg, keyKinds[i%len(keyKinds)], i))
		}
		return jobs
	}
}
