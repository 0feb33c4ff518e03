package checks

import (
	"sync/atomic"
	"time"
)

// A cooperative scheduler for code instrumented with scheduling points (see
// ../instr): of two threads exactly one runs at a time, and they switch after
// exactly the given numbers of points.

// setPoint installs the scheduling point hook; nil in a build without
// instrumentation.
var setPoint func(f func(id int))

type sched struct {
	segs   []int // thread 0 runs segs[0] points, thread 1 segs[1], thread 0 segs[2], ...; then each to its end
	next   int
	cur    int
	left   int
	points [2]int
	wake   [2]chan struct{}
	done   [2]int32
	free   int32 // 1: a thread did not come back in time (it waits for the other); both run
	wait   time.Duration
}

const forever = int(^uint(0) >> 1)

func (s *sched) segment() {
	s.left = forever
	if s.next < len(s.segs) {
		s.left = s.segs[s.next]
	}
	s.next++
}

func (s *sched) point(int) {
	if atomic.LoadInt32(&s.free) != 0 {
		return
	}
	s.points[s.cur]++
	if s.left > 0 {
		s.left--
		return
	}
	me := s.cur
	if atomic.LoadInt32(&s.done[1-me]) != 0 {
		s.left = forever
		return
	}
	s.cur = 1 - me
	s.segment()
	s.wake[s.cur] <- struct{}{}
	s.await(me)
}

func (s *sched) await(me int) {
	select {
	case <-s.wake[me]:
		return
	default:
	}
	t := time.NewTimer(s.wait)
	select {
	case <-s.wake[me]:
		t.Stop()
	case <-t.C:
		atomic.StoreInt32(&s.free, 1)
	}
}

// interleave runs a and b, switching from one to the other as segs says;
// starting with a. It returns the number of points of each, and whether the
// schedule was carried out (it is not if one thread waited for the other).
func interleave(segs []int, wait time.Duration, a, b func()) ([2]int, bool) {
	s := &sched{segs: segs, wait: wait}
	for k := range s.wake {
		s.wake[k] = make(chan struct{}, 1)
	}
	s.segment()
	setPoint(s.point)
	end := func(me int) {
		atomic.StoreInt32(&s.done[me], 1)
		if atomic.LoadInt32(&s.free) == 0 && atomic.LoadInt32(&s.done[1-me]) == 0 {
			s.cur, s.left = 1-me, forever
			s.wake[1-me] <- struct{}{}
		}
	}
	fin := make(chan struct{})
	go func() {
		s.await(1)
		b()
		end(1)
		close(fin)
	}()
	a()
	end(0)
	<-fin
	setPoint(nil)
	return s.points, atomic.LoadInt32(&s.free) == 0
}

// countPoints is the number of scheduling points of f.
func countPoints(f func()) int {
	n := 0
	setPoint(func(int) { n++ })
	f()
	setPoint(nil)
	return n
}
