package main

import (
	"context"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
)

// subber runs subscriptions of one episode and logs what they receive.
type subber struct {
	ep    *Ep
	store rangedb.Store
	// make builds a subscription other than the store's own
	make func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription
	// async: a successful start does not mean that it caught up
	async bool
	// raw: the subscriptions are those of the store below an encrypting one
	raw bool
	// below is the store below an encrypting one: it can always be read
	below rangedb.Store
	mu    sync.Mutex
	subs  map[string]*subState
}

type subState struct {
	id     string
	sub    rangedb.RecordSubscription
	n      int
	cancel context.CancelFunc
	delay  func(n int)
	lossy  bool
	ok     bool
	all    bool
}

func newSubber(ep *Ep, store rangedb.Store) *subber {
	return &subber{ep: ep, store: store, subs: map[string]*subState{}}
}

func (b *subber) accept(s *subState) rangedb.RecordSubscriberFunc {
	return func(r *rangedb.Record) {
		var k int
		var red bool
		if b.raw {
			var text string
			k, red, text = b.ep.internProtected(r, true)
			if text != "" && text == b.ep.secretOf(r) || leaks([]byte(canonData(r.Data))) {
				k = b.ep.intern(r) // not encrypted
			}
		} else {
			k, red, _ = b.ep.internProtected(r, false)
		}
		b.ep.mu.Lock()
		b.ep.lines = append(b.ep.lines, line{"e": "dlv", "sub": s.id, "k": k, "red": red})
		b.ep.sig["dlv"]++
		b.ep.mu.Unlock()
		b.mu.Lock()
		s.n++
		n := s.n
		d := s.delay
		b.mu.Unlock()
		if d != nil {
			d(n)
		}
	}
}

func (b *subber) start(id string, from int, all bool, types []string, buf int) string {
	return b.startOpt(id, from, all, types, buf, nil, cxNo, false)
}

// startOpt starts a subscription: from < 0 uses Start, else StartFrom.
func (b *subber) startOpt(id string, from int, all bool, types []string, buf int, delay func(int), cx ctxMode, lossy bool) string {
	if types == nil {
		types = []string{}
	}
	ctx, cancel := mkctx(cx)
	s := &subState{id: id, cancel: cancel, delay: delay, lossy: lossy, all: all}
	b.mu.Lock()
	b.subs[id] = s
	b.mu.Unlock()
	if b.make != nil {
		s.sub = b.make(ctx, buf, b.accept(s), all, types)
	} else if all {
		s.sub = b.store.AllEventsSubscription(ctx, buf, b.accept(s))
	} else {
		s.sub = b.store.AggregateTypesSubscription(ctx, buf, b.accept(s), types...)
	}
	b.ep.log(line{"e": "subinv", "sub": id, "from": from, "all": all, "types": types, "async": b.async})
	res := line{"e": "subret", "sub": id, "r": "?", "cx": cxNames[cx]}
	bad, _ := guard(func() {
		var err error
		if from < 0 {
			err = s.sub.Start()
		} else {
			err = s.sub.StartFrom(uint64(from))
		}
		res["r"] = classify(err, res)
	})
	if bad != "" {
		res = line{"e": "subret", "sub": id, "r": bad, "cx": cxNames[cx]}
		b.ep.kill()
	}
	b.mu.Lock()
	s.ok = res["r"] == "ok"
	b.mu.Unlock()
	b.ep.log(res)
	return res["r"].(string)
}

func (b *subber) total() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, s := range b.subs {
		n += s.n
	}
	return n
}

// settle waits until every subscription received what is due to it (a hint
// only: the specification decides), then states that it is quiet.
func (b *subber) settle() {
	if b.ep.isDead() {
		return
	}
	for deadline := time.Now().Add(12 * time.Second); time.Now().Before(deadline); time.Sleep(4 * time.Millisecond) {
		stored, n, ok := b.stored()
		if ok && b.quietIf(func() bool { return b.looksComplete(stored, n, "") }) {
			time.Sleep(2 * time.Millisecond) // anything surplus
			return
		}
	}
	b.quietIf(func() bool { return true })
	b.ep.kill() // (waiting as long for everything that follows tells nothing new)
}

func (b *subber) opsLogged() (n int, running bool) {
	for _, l := range b.ep.lines {
		if l["e"] == "crash" || l["e"] == "bye" {
			running = false
		}
		if (l["e"] == "inv" || l["e"] == "op") && (l["op"] == "save" || l["op"] == "del") {
			n++
			running = running || l["r"] == "?"
		}
	}
	return n, running
}

// stored is the set of events that are in the store after n operations.
func (b *subber) stored() (map[string]bool, int, bool) {
	b.ep.mu.Lock()
	n, running := b.opsLogged()
	b.ep.mu.Unlock()
	if running {
		return nil, 0, false
	}
	out := map[string]bool{}
	bad, _ := guard(func() {
		st := b.store
		if b.below != nil {
			st = b.below
		}
		it := st.Events(context.Background(), 0)
		for it.Next() {
			b.ep.internProtected(it.Record(), b.raw || b.below != nil)
			out[it.Record().EventID] = true
		}
		if it.Err() != nil {
			out = nil // damaged: everything saved counts
		}
	})
	return out, n, bad == ""
}

// looksComplete compares the deliveries with the successful saves recorded so far.
// With only, those of that subscription.
func (b *subber) looksComplete(stored map[string]bool, n int, only string) bool {
	if now, _ := b.opsLogged(); now != n {
		return false
	}
	gone := map[string]bool{}
	for id, s := range b.subs {
		gone[id] = s.lossy
	}
	type sv struct {
		at  int
		evs []line
		may bool // it may have taken effect
	}
	var saves []sv
	got := map[string]map[int]bool{}
	subAt := map[string]int{}
	subLine := map[string]line{}
	okAt := map[string]int{}
	for i, l := range b.ep.lines {
		switch l["e"] {
		case "inv", "op":
			if l["op"] == "save" && (l["r"] == "ok" || l["r"] == "?") {
				saves = append(saves, sv{i, l["evs"].([]line), l["r"] == "?"})
			}
		case "subinv":
			id := l["sub"].(string)
			subAt[id], subLine[id], got[id] = i, l, map[int]bool{}
		case "subret":
			if l["r"] == "ok" {
				okAt[l["sub"].(string)] = i
			}
		case "stop", "halt", "lossy":
			gone[l["sub"].(string)] = true
		case "dlv":
			got[l["sub"].(string)][l["k"].(int)] = true
		}
	}
	for id, at := range okAt {
		if only == "" && gone[id] || only != "" && id != only {
			continue
		}
		sl := subLine[id]
		want := map[string]bool{}
		for _, t := range sl["types"].([]string) {
			want[t] = true
		}
		from := sl["from"].(int)
		first := 0 // without a position: what follows its first event is due
		if from < 0 && (sl["all"].(bool) || len(want) <= 1) {
			for k := range got[id] {
				if g := b.ep.recs[k-1]["g"].(int); first == 0 || g < first {
					first = g
				}
			}
		}
		for _, s := range saves {
			if from < 0 && s.at < at && first == 0 {
				continue
			}
			for _, e := range s.evs {
				if !sl["all"].(bool) && !want[e["at"].(string)] {
					continue
				}
				k := b.ep.byTag[e["tag"].(string)]
				if k == 0 && stored == nil && !s.may && !(from < 0 && s.at < at) {
					return false
				}
				if k == 0 {
					continue // deleted before anyone saw it
				}
				r := b.ep.recs[k-1]
				if stored != nil && !stored[r["id"].(string)] || from >= 0 && r["g"].(int) < from {
					continue
				}
				if from < 0 && s.at < at && r["g"].(int) < first {
					continue
				}
				if !got[id][k] {
					return false
				}
			}
		}
	}
	return true
}

// quietIf states that everything due was delivered, if cond holds.
func (b *subber) quietIf(cond func() bool) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.ep.mu.Lock()
	defer b.ep.mu.Unlock()
	if !cond() {
		return false
	}
	ids := []string{}
	calm := false
	for id, s := range b.subs {
		if !s.lossy && s.ok {
			ids = append(ids, id)
			calm = calm || s.all
		}
	}
	b.ep.lines = append(b.ep.lines, line{"e": "quiet", "subs": ids, "calm": calm})
	return true
}

func (b *subber) stop(id string) {
	b.mu.Lock()
	s := b.subs[id]
	s.lossy = true
	b.mu.Unlock()
	b.ep.log(line{"e": "stop", "sub": id})
	s.sub.Stop()
}

// halt states that the subscription was stopped long ago.
func (b *subber) halt(id string) { b.ep.log(line{"e": "halt", "sub": id}) }

func (b *subber) setLossy(id string) {
	b.mu.Lock()
	b.subs[id].lossy = true
	b.mu.Unlock()
}

func (b *subber) count(id string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.subs[id].n
}

// waitCount waits until the subscription received n records, at most max.
func (b *subber) waitCount(id string, n int, max time.Duration) bool {
	for deadline := time.Now().Add(max); time.Now().Before(deadline); time.Sleep(time.Millisecond) {
		if b.count(id) >= n {
			return true
		}
	}
	return false
}

func (b *subber) stopAll() {
	b.mu.Lock()
	var ids []string
	for id := range b.subs {
		ids = append(ids, id)
	}
	b.mu.Unlock()
	for _, id := range ids {
		b.stop(id)
		b.subs[id].cancel()
	}
}

// fate states whether a subscription that may have been cut off, or was
// stopped, ended visibly, after waiting for that or for what is missing.
func (b *subber) fate(id string, stopped bool) {
	if b.ep.isDead() {
		return
	}
	x, ok := b.subs[id].sub.(interface{ Done() <-chan struct{} })
	if !ok || !b.subs[id].ok {
		return
	}
	told := false
	for deadline := time.Now().Add(6 * time.Second); !told && time.Now().Before(deadline); {
		if stored, n, ok := b.stored(); !stopped && ok {
			b.mu.Lock()
			b.ep.mu.Lock()
			all := b.looksComplete(stored, n, id)
			b.ep.mu.Unlock()
			b.mu.Unlock()
			if all {
				break
			}
		}
		select {
		case <-x.Done():
			told = true
		case <-time.After(5 * time.Millisecond):
		}
	}
	b.ep.log(line{"e": "fate", "sub": id, "told": told})
}
