package main

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// pauser stops the code under test at a chosen one of the points where it
// calls back into the harness (serializing, deserializing, asking the time).
type pauser struct {
	mu     sync.Mutex
	at     int
	n      int
	paused chan struct{}
	resume chan struct{}
	jitter int64
}

func newPauser() *pauser { return &pauser{} }

// arm makes the k-th point reached from now on pause.
func (p *pauser) arm(k int) (paused <-chan struct{}, resume func()) {
	p.mu.Lock()
	defer p.mu.Unlock()
	pc, rc := make(chan struct{}), make(chan struct{})
	p.at, p.n, p.paused, p.resume = k, 0, pc, rc
	var once sync.Once
	return pc, func() {
		once.Do(func() {
			p.mu.Lock()
			p.at = 0
			p.mu.Unlock()
			close(rc)
		})
	}
}

func (p *pauser) hit() {
	if p == nil {
		return
	}
	if j := atomic.LoadInt64(&p.jitter); j > 0 {
		switch x := rand.Int63n(6); x {
		case 0:
			time.Sleep(time.Duration(rand.Int63n(j)) * time.Microsecond)
		case 1, 2:
			runtime.Gosched()
		}
	}
	p.mu.Lock()
	if p.at == 0 {
		p.mu.Unlock()
		return
	}
	p.n++
	if p.n != p.at {
		p.mu.Unlock()
		return
	}
	pc, rc := p.paused, p.resume
	p.mu.Unlock()
	close(pc)
	select {
	case <-rc:
	case <-time.After(8 * time.Second):
	}
}
