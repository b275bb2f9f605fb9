package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/clock"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/provider/remotestore"
)

var _ clock.Clock = (*hclock)(nil)

type hclock struct {
	t    int64
	p    *pauser
	real bool // the store has a clock of its own: that of the system
}

func (c *hclock) Now() time.Time {
	c.p.hit()
	if c.real {
		return time.Now()
	}
	return time.Unix(atomic.LoadInt64(&c.t), 0)
}
func (c *hclock) set(t int64) { atomic.StoreInt64(&c.t, t) }

// gate lets a scenario make stored records undecodable for readers.
type gateSerializer struct {
	rangedb.RecordSerializer
	corrupt atomic.Value // map[string]bool of tags
	mangle  atomic.Value // map[string]bool of tags: their cipher text is damaged
	p       *pauser
	cut     func() // breaks the connection of a remote client
	rebind  func() // binds the event types again
}

func (g *gateSerializer) Serialize(r *rangedb.Record) ([]byte, error) {
	g.p.hit()
	return g.RecordSerializer.Serialize(r)
}

func (g *gateSerializer) setCorrupt(tags map[string]bool) { g.corrupt.Store(tags) }

func (g *gateSerializer) Deserialize(b []byte) (*rangedb.Record, error) {
	g.p.hit()
	r, err := g.RecordSerializer.Deserialize(b)
	if err != nil {
		return nil, err
	}
	if tags, _ := g.corrupt.Load().(map[string]bool); tags[tagOfRecord(r)] {
		return nil, fmt.Errorf("stored record is damaged")
	}
	if tags, _ := g.mangle.Load().(map[string]bool); tags[tagOfRecord(r)] {
		if e, ok := r.Data.(*evS); ok {
			e.Secret = "AAAA"
		}
	}
	return r, nil
}

// SUT is one store under test.
type SUT struct {
	Kind    string
	store   rangedb.Store // what clients use
	backing rangedb.Store // the store below (remote, encrypted), else the same
	clk     *hclock
	gate    *gateSerializer
	keys    crypto.KeyStore
	reopen  func() error
	closers []func()
	dir     string
	keyFail int64 // the n-th call of a key store fails
	enc     bool
	remote  bool
	p       *pauser
	cut     func() // breaks the connection of a remote client
	conn    func() *grpc.ClientConn
	dial    func() rangedb.Store
	lag     *gate                          // holds back what connections made from now on receive
	srv     *server                        // a server program
	stats   *projection.AggregateTypeStats // of the HTTP API
}

func (s *SUT) close() {
	for i := len(s.closers) - 1; i >= 0; i-- {
		s.closers[i]()
	}
}

var quietLog = log.New(io.Discard, "", 0)

var scratchRoot string
var scratchN uint64

func scratch() string {
	d := filepath.Join(scratchRoot, fmt.Sprintf("d%d", atomic.AddUint64(&scratchN, 1)))
	must(os.MkdirAll(d, 0755))
	return d
}

var allKinds = []string{"mem", "memmp", "ldb", "ldbmp", "rmem", "rldb", "emem", "eldb"}

func newSUT(kind string) *SUT { return openSUT(kind, "") }

func openSUT(kind, dir string) *SUT {
	s, err := tryOpenSUT(kind, dir)
	must(err)
	return s
}

// tryOpenSUT opens the database in dir, or a fresh store if dir is empty.
func tryOpenSUT(kind, dir string) (*SUT, error) {
	p := newPauser()
	s := &SUT{Kind: kind, clk: &hclock{t: 1000, p: p}, p: p}
	if strings.HasPrefix(kind, "srv") {
		return s, newServer(s, strings.HasPrefix(kind, "srvldb"), strings.HasSuffix(kind, ":stay"))
	}
	kind, opts, _ := strings.Cut(kind, ":")
	base := kind
	switch kind[0] {
	case 'r':
		s.remote = true
		base = kind[1:]
	case 'e':
		s.enc = true
		base = kind[1:]
		if base[0] == 'r' {
			s.remote = true
			base = base[1:]
		}
	case 'h':
		base = kind[1:]
	}
	var ser rangedb.RecordSerializer
	if base == "memmp" || base == "ldbmp" {
		ser = msgpackrecordserializer.New()
	} else {
		ser = jsonrecordserializer.New()
	}
	s.gate = &gateSerializer{RecordSerializer: ser, p: p}
	switch base {
	case "mem", "memmp":
		s.store = inmemorystore.New(inmemorystore.WithClock(s.clk), inmemorystore.WithSerializer(s.gate), inmemorystore.WithLogger(quietLog))
	case "ldb", "ldbmp":
		s.dir = dir
		if dir == "" {
			s.dir = scratch()
		}
		open := func() error {
			st, err := leveldbstore.New(s.dir, leveldbstore.WithClock(s.clk), leveldbstore.WithSerializer(s.gate), leveldbstore.WithLogger(quietLog))
			if err != nil {
				return err
			}
			s.store = st
			return nil
		}
		if err := open(); err != nil {
			return nil, err
		}
		stop := func() error {
			return s.backing.(interface{ Stop() error }).Stop()
		}
		s.reopen = func() error {
			if err := stop(); err != nil {
				return err
			}
			if err := open(); err != nil {
				return err
			}
			s.backing = s.store
			bindAll(s.store)
			return nil
		}
		s.closers = append(s.closers, func() { _ = os.RemoveAll(s.dir) }, func() {
			go func() { _ = stop() }()
		})
	default:
		panic("unknown kind " + kind)
	}
	bindAll(s.store)
	s.backing = s.store
	if s.remote {
		s.reopen = nil
		s.store = s.remoteClient(s.store)
	}
	if kind[0] == 'h' {
		s.reopen = nil
		s.store = newHTTPStore(s)
	}
	if s.enc {
		s.reopen = nil
		s.encrypt(opts)
	}
	return s, nil
}

// twoSided: clients may use the store and the one below alike.
func (s *SUT) twoSided() bool { return s.remote && !s.enc }

func (s *SUT) stopStore() { _ = s.backing.(interface{ Stop() error }).Stop() }

// encrypt puts an encrypting store in front of the store.
func (s *SUT) encrypt(opts string) {
	below := s.store
	keep := s.keyStore(inmemorykeystore.New())
	wrap := func() {
		var engine crypto.Encryptor
		switch {
		case strings.Contains(opts, "cbc"):
			engine = aes.NewCBCPKCS5Padding()
		case strings.Contains(opts, "xcc"):
			engine = xchacha20poly1305.New()
		default:
			engine = aes.NewGCM()
		}
		s.keys = keep
		if strings.Contains(opts, "cache") { // a new cache before the same keys
			s.keys = cachekeystore.New(s.keyStore(inmemorykeystore.New()), keep)
		}
		if strings.Contains(opts, "cache2") {
			s.keys = cachekeystore.New(s.keyStore(inmemorykeystore.New()), s.keys)
		}
		s.store = encryptedstore.New(below, eventencryptor.New(s.keys, engine))
		bindAll(s.store)
	}
	reopen := s.reopen
	s.reopen = nil
	if !s.remote {
		s.reopen = func() error {
			if reopen != nil {
				if err := reopen(); err != nil {
					return err
				}
				below = s.store
			}
			wrap()
			return nil
		}
	}
	wrap()
}

func (s *SUT) keyStore(k crypto.KeyStore) crypto.KeyStore { return &hookKeys{k, s} }

// hookKeys can be paused and made to fail.
type hookKeys struct {
	crypto.KeyStore
	s *SUT
}

var errKeys = fmt.Errorf("the key store does not answer")

func (h *hookKeys) hit() error {
	h.s.p.hit()
	if atomic.AddInt64(&h.s.keyFail, -1) == 0 {
		return errKeys
	}
	return nil
}

func (h *hookKeys) Get(id string) (string, error) {
	if err := h.hit(); err != nil {
		return "", err
	}
	k, err := h.KeyStore.Get(id)
	h.s.p.hit()
	return k, err
}

func (h *hookKeys) Set(id, key string) error {
	if err := h.hit(); err != nil {
		return err
	}
	err := h.KeyStore.Set(id, key)
	h.s.p.hit()
	return err
}

func (h *hookKeys) Delete(id string) error {
	if err := h.hit(); err != nil {
		return err
	}
	err := h.KeyStore.Delete(id)
	h.s.p.hit()
	return err
}

// remoteClient serves the backing store over gRPC and returns a client of it.
func (s *SUT) remoteClient(backing rangedb.Store) rangedb.Store {
	lis := bufconn.Listen(1 << 20)
	srv, err := rangedbserver.New(rangedbserver.WithStore(backing))
	must(err)
	// fixed windows: while it measures the bandwidth this version of gRPC now and
	// then takes a message for a violation of its own flow control
	g := grpc.NewServer(grpc.InitialWindowSize(1<<16), grpc.InitialConnWindowSize(1<<16))
	rangedbpb.RegisterRangeDBServer(g, srv)
	go func() { _ = g.Serve(lis) }()
	s.conn = func() *grpc.ClientConn {
		var lag *gate
		if s.lag != nil {
			lag = s.lag
		}
		conn, err := grpc.Dial("bufnet", grpc.WithInsecure(), grpc.WithInitialWindowSize(1<<16), grpc.WithInitialConnWindowSize(1<<16), grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) {
			c, err := lis.Dial()
			if err == nil && lag != nil {
				c = gated{c, lag}
			}
			return c, err
		}))
		must(err)
		s.closers = append(s.closers, func() { _ = conn.Close() })
		return conn
	}
	s.dial = func() rangedb.Store {
		c, err := remotestore.New(s.conn())
		must(err)
		bindAll(c)
		return c
	}
	s.closers = append(s.closers, func() { go g.Stop() })
	s.cut = g.Stop
	return s.dial()
}

// gate holds back those that pass while it is shut.
type gate struct {
	mu   sync.Mutex
	shut chan struct{}
}

func (g *gate) close() {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.shut == nil {
		g.shut = make(chan struct{})
	}
}

func (g *gate) open() {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.shut != nil {
		close(g.shut)
		g.shut = nil
	}
}

func (g *gate) pass() {
	g.mu.Lock()
	c := g.shut
	g.mu.Unlock()
	if c != nil {
		<-c
	}
}

type gated struct {
	net.Conn
	g *gate
}

func (c gated) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.g.pass()
	return n, err
}
