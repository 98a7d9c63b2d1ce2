package selftest

import (
	"sync"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func H_bad_arith() {
	x := v.Uint32("x")
	v.Assert(x*3 != 0xfffffffa, "BAD arith")
}

// sym: delays=2
func H_bad_race() {
	n := 0
	done := make(chan struct{})
	go func() { n++; close(done) }()
	n++
	<-done
}

// sym: delays=2
func H_bad_atomicity() {
	var n atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := n.Load()
			n.Store(x + 1)
		}()
	}
	wg.Wait()
	v.Assert(n.Load() == 2, "BAD lost update")
}

// sym: delays=2
func H_bad_deadlock() {
	var a, b sync.Mutex
	done := make(chan struct{})
	go func() {
		a.Lock()
		b.Lock()
		b.Unlock()
		a.Unlock()
		close(done)
	}()
	b.Lock()
	a.Lock()
	a.Unlock()
	b.Unlock()
	<-done
}

// sym: delays=2
func H_bad_rlock() {
	var m sync.RWMutex
	done := make(chan struct{})
	go func() { m.Lock(); m.Unlock(); close(done) }()
	m.RLock()
	m.RLock()
	m.RUnlock()
	m.RUnlock()
	<-done
}

func H_bad_index() {
	a := []int{1, 2, 3}
	i := v.Int("i", 0, 3)
	v.Observe("a", a[i])
}

// sym: delays=0
func H_bad_leak() {
	c := make(chan int)
	go func() { c <- 1 }()
	v.Quiesce()
	v.NoOthers("BAD leak")
}

// sym: delays=0 steps=10000
func H_bad_loop() {
	x := v.Int("x", 0, 10)
	for x != 5 || x > 100 {
		if x == 7 {
			continue
		}
		break
	}
}
