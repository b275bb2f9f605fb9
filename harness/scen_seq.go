package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
)

// Universe maps the abstract names of a script to concrete ones.
type Universe struct {
	Name    string
	Streams []string
	Types   []string
}

var universes = []Universe{
	{"conventional", []string{"thing!1", "thing!2", "another!1", "that!1"}, []string{"thing", "another", "that"}},
	{"custom", []string{"orders", "x-1", "Customer stream", "été/路"}, []string{"order", "x", "Customer Type"}},
	{"prefixes", []string{"a", "aa", "a!b", "a!bb"}, []string{"t", "tt", "ttt"}},
	{"separators", []string{"a", "a$!x", "a$!", "a$"}, []string{"t", "t$!u", "t$"}},
	{"separators2", []string{"", "$", "$!", "!"}, []string{"$", "$!", "!"}},
	{"nested", []string{"s", "s$!12345678", "s$!12345678$!", "$all$"}, []string{"$at$", "t$!12345678", "t"}},
	{"crossing", []string{"t", "u", "t!1", "$s$"}, []string{"t", "u", "u$!"}},
	{"spaces", []string{"a", " a", "a ", "a\n"}, []string{"t", " t", "t\t"}},
	{"alike", []string{"ab", "Ab", "AB", "a b"}, []string{"caf\u00e9", "cafe\u0301", "CAF\u00c9"}},
	{"paths", []string{"a/b", "a//b", "/a/b", "a/b/"}, []string{"x.y", "x.y.", "x..y"}},
	{"bytes", []string{"n\x00", "n", "n\x01", "\U0010ffff"}, []string{"m\x00", "m", "\U0010ffff"}},
}

// numbers on both sides of every width a position could be squeezed into
type scriptOp struct {
	Op   string `json:"op"`
	S    int    `json:"s"`
	T    int    `json:"t"`
	N    int    `json:"n"`
	Exp  int    `json:"exp"`
	Fail string `json:"fail"`
	Pos  int    `json:"pos"`
	Key  string `json:"key"`

	Fields []declField `json:"fields"`
}

type seqOpt struct {
	uni       Universe
	observe   int // 0 light, 1 full after every operation
	subs      bool
	twoSides  bool // alternate between the store and its backing store
	evKinds   []int
	bigNums   bool
	readTwice bool
}

type seqRun struct {
	ep   *Ep
	c    *Client   // main client
	cs   []*Client // all clients (remote and local side)
	o    seqOpt
	rnd  *rand.Rand
	maxG int
	rmu  sync.Mutex
	step int
}

func (s *seqRun) pickKind() int { return s.o.evKinds[s.rnd.Intn(len(s.o.evKinds))] }

func (s *seqRun) client() *Client {
	return s.cs[s.rnd.Intn(len(s.cs))]
}

func (s *seqRun) curMaxG() int {
	s.ep.mu.Lock()
	defer s.ep.mu.Unlock()
	m := 0
	for _, r := range s.ep.recs {
		if g, ok := r["g"].(int); ok && g > m {
			m = g
		}
	}
	return m
}

func (s *seqRun) opt() readOpt {
	return readOpt{nextCtx: s.rnd.Intn(4) == 0, twice: s.o.readTwice && s.rnd.Intn(2) == 0}
}

// observe reads everything through every read path.
func (s *seqRun) observe(level int) {
	for _, c := range s.cs {
		c.read("all", 0, "", nil, s.opt())
	}
	g := s.curMaxG()
	froms := []int{1, g, g + 1}
	if level > 0 {
		froms = append(froms, s.rnd.Intn(g+1), g-1, g+5, bigNum)
	}
	for i, f := range froms {
		if f > 0 && (level > 0 || i == s.rnd.Intn(3)) {
			s.client().read("all", f, "", nil, s.opt())
		}
	}
	if s.c.sut.enc && !s.c.conc {
		s.c.raw()
	}
	for _, st := range s.o.uni.Streams {
		for _, c := range s.cs {
			c.read("stream", 0, st, nil, s.opt())
		}
		s.client().total(st, cxNo)
		if level > 0 {
			for _, f := range []int{1, 2, 1 + s.rnd.Intn(5), 9} {
				s.client().read("stream", f, st, nil, s.opt())
			}
		}
	}
	s.client().read("stream", 0, "no such stream", nil, s.opt())
	t := s.o.uni.Types
	combos := [][]string{{t[0]}, {t[1]}, {t[2]}, {t[0], t[1]}, {t[2], t[0]}, {t[1], t[2], t[0]}, {t[2], "no such type"}, {"no such type"}}
	for _, cb := range combos {
		from := 0
		if s.rnd.Intn(2) == 0 {
			from = s.rnd.Intn(g + 3)
		}
		if level > 0 || s.rnd.Intn(3) == 0 {
			s.client().read("types", from, "", cb, s.opt())
		}
	}
}

func (s *seqRun) apply(op scriptOp) string {
	s.step++
	s.c.sut.clk.set(int64(1000 + s.step))
	c := s.client()
	switch op.Op {
	case "save":
		u := s.o.uni
		aid := fmt.Sprintf("id%d", op.S)
		at := u.Types[op.T-1]
		var evs []*Ev
		cx := cxNo
		var cancel context.CancelFunc
		for i := 1; i <= op.N; i++ {
			a, t, bad := aid, at, 0
			var h hook
			if op.Pos == i {
				switch op.Fail {
				case "type":
					t = u.Types[op.T%len(u.Types)]
				case "aid":
					a = aid + "x"
				case "ser":
					bad = 1
				case "meta":
					bad = 2
				case "mid":
					h = func() error {
						if cancel != nil {
							cancel()
						}
						return nil
					}
				}
			}
			kind := s.pickKind()
			if op.Fail == "mid" && op.Pos == i && kind == 3 {
				kind = 0
			}
			if kind == 3 && op.Fail == "none" && s.rnd.Intn(16) == 0 {
				kind = 5
			}
			num := uint64(s.rnd.Intn(1000))
			if s.o.bigNums && s.rnd.Intn(3) == 0 {
				num = 9007199254740993 + uint64(s.rnd.Intn(1000))
			}
			evs = append(evs, newEv(kind, t, a, num, pickMeta(s.rnd), bad, h))
		}
		switch op.Fail {
		case "pre":
			cx = cxPre
		case "mid":
			cx = cxMid
		}
		return c.save(u.Streams[op.S-1], op.Exp, evs, cx, &cancel)
	case "del":
		cx := cxNo
		if op.Fail == "pre" {
			cx = cxPre
		}
		return c.del(s.o.uni.Streams[op.S-1], op.Exp, cx)
	case "reopen":
		if s.c.sut.reopen != nil {
			return s.c.reopen()
		}
	}
	return "skip"
}

func newSeqRun(ep *Ep, sut *SUT, o seqOpt, seed int64) *seqRun {
	s := &seqRun{ep: ep, o: o, rnd: rand.New(rand.NewSource(seed))}
	s.c = &Client{ep: ep, sut: sut, store: sut.store}
	s.cs = []*Client{s.c}
	if o.twoSides && sut.backing != sut.store && !sut.enc {
		s.cs = append(s.cs, &Client{ep: ep, sut: sut, store: sut.backing})
	}
	if s.o.evKinds == nil {
		s.o.evKinds = []int{0, 0, 1, 2, 3}
		if sut.enc {
			s.o.evKinds = []int{0, 4, 4, 3}
		}
	}
	return s
}

func runScript(sut *SUT, script []scriptOp, o seqOpt, seed int64, name string) *Ep {
	ep := newEp(name)
	s := newSeqRun(ep, sut, o, seed)
	var sb, below *subber
	if o.subs && !(sut.reopen != nil && hasOp(script, "reopen")) {
		sb = newSubber(ep, s.c.store)
		for _, c := range s.cs {
			c.conc = true // deliveries overlap with the operations
		}
		sb.start("all", -1, true, nil, 400)
		sb.start("t", -1, false, s.o.uni.Types[:1], 400)
		if sut.enc {
			sb.start("t2", -1, false, s.o.uni.Types[:1], 400)
			below = newSubber(ep, sut.backing)
			below.raw = true
			below.start("below", -1, true, nil, 400)
		}
	}
	if s.rnd.Intn(2) == 0 {
		s.observe(0)
	}
	for i, op := range script {
		r := s.apply(op)
		if ep.isDead() {
			return ep
		}
		lvl := s.o.observe
		if r != "skip" && (i == len(script)-1 || lvl > 0 || s.rnd.Intn(3) == 0 || (op.Op == "save" && op.Fail != "none")) {
			if i == len(script)-1 {
				lvl = 1
			}
			s.observe(lvl)
		}
	}
	if below != nil {
		below.settle()
		below.stopAll()
	}
	if sb != nil {
		sb.settle()
		sb.stopAll()
	}
	return ep
}

func hasOp(script []scriptOp, op string) bool {
	for _, o := range script {
		if o.Op == op {
			return true
		}
	}
	return false
}
