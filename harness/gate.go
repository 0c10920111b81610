package main

// A gate decides in which order concurrent calls go on: calls wait until all goroutines that can arrive have arrived
// (nothing changed for a while), then one of them is let through.

import (
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type waiter struct {
	key int
	ch  chan struct{}
}

type gate struct {
	mu     sync.Mutex
	wait   []*waiter
	change int
	stop   chan struct{}
	open   bool
	expect int // let one through at once when this many are waiting
	pick   func(keys []int) int
}

func newGate(expect int, pick func(keys []int) int) *gate {
	g := &gate{stop: make(chan struct{}), expect: expect, pick: pick}
	go g.run()
	return g
}

func (g *gate) run() {
	last, quiet := -1, 0
	for {
		select {
		case <-g.stop:
			return
		case <-time.After(150 * time.Microsecond):
		}
		g.mu.Lock()
		if g.change == last {
			quiet++
		} else {
			last, quiet = g.change, 0
		}
		if k := len(g.wait); k > 0 && (quiet >= 3 || k >= g.expect) {
			keys := make([]int, k)
			for i, w := range g.wait {
				keys[i] = w.key
			}
			i := g.pick(keys)
			w := g.wait[i]
			g.wait = append(g.wait[:i:i], g.wait[i+1:]...)
			g.expect = 1 << 30
			close(w.ch)
			quiet = 0
		}
		g.mu.Unlock()
	}
}

// pass blocks until the gate lets the caller through
func (g *gate) pass(key int) {
	g.mu.Lock()
	if g.open {
		g.mu.Unlock()
		return
	}
	w := &waiter{key, make(chan struct{})}
	g.wait = append(g.wait, w)
	g.change++
	g.mu.Unlock()
	<-w.ch
}

func (g *gate) close() {
	g.mu.Lock()
	if !g.open {
		g.open = true
		close(g.stop)
		for _, w := range g.wait {
			close(w.ch)
		}
		g.wait = nil
	}
	g.mu.Unlock()
}

// goid is the number of the calling goroutine (goroutines are numbered in the order in which they are started, by and large)
func goid() int {
	b := make([]byte, 64)
	s := strings.Fields(string(b[:runtime.Stack(b, false)]))
	if len(s) > 1 {
		if v, err := strconv.Atoi(s[1]); err == nil {
			return v
		}
	}
	return 0
}

// policy: which of the waiting calls goes on
func policy(r *rand.Rand) func([]int) int {
	kind := r.Intn(4)
	return func(keys []int) int {
		b := 0
		for i, k := range keys {
			switch kind {
			case 0: // the one that was started last
				if k > keys[b] {
					b = i
				}
			case 1: // the one that arrived last
				b = i
			case 2: // the one that was started first
				if k < keys[b] {
					b = i
				}
			}
		}
		if kind == 3 {
			b = r.Intn(len(keys))
		}
		return b
	}
}

// byOrder lets callers through in the given order; keys are sorted when all have arrived
func byOrder(order []int) func([]int) int {
	rank := map[int]int{}
	done := 0
	return func(keys []int) int {
		if len(rank) == 0 {
			s := append([]int{}, keys...)
			for i := range s {
				for j := i + 1; j < len(s); j++ {
					if s[j] < s[i] {
						s[i], s[j] = s[j], s[i]
					}
				}
			}
			for i, k := range s {
				rank[k] = i + 1
			}
		}
		for ; done < len(order); done++ {
			for i, k := range keys {
				if rank[k] == order[done] {
					done++
					return i
				}
			}
		}
		return 0
	}
}
