package main

import "golang.org/x/tools/go/ssa"

// Goroutines of the code under test. Each runs on a host goroutine of its
// own, but only the holder of the baton runs: it is passed on when a
// goroutine blocks or ends, to the first one in the queue that can go on.

type coro struct {
	id      int
	f       func()
	started bool
	ready   func() bool // nil: can go on
	wake    chan bool   // true: give up
}

// parked ends a goroutine that stays blocked when the harness is done.
type parked struct{}

func (ex *Exec) self() *coro {
	if ex.cur == nil {
		ex.mainCo = &coro{id: 1, started: true, wake: make(chan bool)}
		ex.cur = ex.mainCo
	}
	return ex.cur
}

func (ex *Exec) goStmt(fr *Frame, fn Value, args []Value) {
	ex.self()
	ex.ncoro++
	ex.coros = append(ex.coros, &coro{id: 1000 + ex.ncoro, f: func() { ex.call(fr, fn, args) }, wake: make(chan bool)})
}

// next takes the first goroutine out of the queue that can go on.
func (ex *Exec) nextCo() *coro {
	for i, c := range ex.coros {
		if c.ready == nil || c.ready() {
			ex.coros = append(append([]*coro{}, ex.coros[:i]...), ex.coros[i+1:]...)
			c.ready = nil
			return c
		}
	}
	return nil
}

// pass gives the baton to c.
func (ex *Exec) pass(c *coro) {
	ex.cur = c
	ex.thread = c.id
	if c.started {
		c.wake <- false
		return
	}
	c.started = true
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(parked); ok {
					ex.gone <- struct{}{}
					return
				}
				ex.coPanic = r
				// the path ends where it started
				ex.cur, ex.thread = ex.mainCo, 1
				ex.drop(ex.mainCo)
				ex.mainCo.wake <- false
				return
			}
			n := ex.nextCo()
			if n == nil {
				ex.coPanic = &goPanic{rt: "all goroutines are asleep - deadlock!"}
				n = ex.mainCo
				ex.drop(n)
				ex.cur, ex.thread = n, 1
				n.wake <- false
				return
			}
			ex.pass(n)
		}()
		c.f()
	}()
}

func (ex *Exec) drop(c *coro) {
	for i, o := range ex.coros {
		if o == c {
			ex.coros = append(append([]*coro{}, ex.coros[:i]...), ex.coros[i+1:]...)
			return
		}
	}
}

// wait is entered by a goroutine that has passed the baton on.
func (ex *Exec) wait(c *coro) {
	if <-c.wake {
		panic(parked{})
	}
	if c == ex.mainCo && ex.coPanic != nil {
		r := ex.coPanic
		ex.coPanic = nil
		panic(r)
	}
}

// block returns when ready does, letting others run; false when there is
// nobody to wait for.
func (ex *Exec) block(ready func() bool) bool {
	if ready() {
		return true
	}
	if len(ex.coros) == 0 {
		return false
	}
	c := ex.self()
	c.ready = ready
	c.id = ex.thread
	ex.coros = append(ex.coros, c)
	n := ex.nextCo()
	if n == nil {
		ex.drop(c)
		panic(&goPanic{rt: "all goroutines are asleep - deadlock!"})
	}
	if n == c {
		return true
	}
	ex.pass(n)
	ex.wait(c)
	return true
}

// drain lets the others run as far as they get, at the end of the harness.
func (ex *Exec) drain() {
	for {
		n := ex.nextCo()
		if n == nil {
			return
		}
		c := ex.self()
		c.ready = nil
		c.id = ex.thread
		ex.coros = append(ex.coros, c)
		ex.pass(n)
		ex.wait(c)
	}
}

// bury ends what is still blocked.
func (ex *Exec) bury() {
	for _, c := range ex.coros {
		if c.started && c != ex.mainCo {
			c.wake <- true
			<-ex.gone
		}
	}
	ex.coros = nil
}

func (ex *Exec) stuck(what string) {
	if len(ex.coros) > 0 || ex.ncoro > 0 {
		panic(&goPanic{rt: "all goroutines are asleep - deadlock!"})
	}
	panic(unsup("blocking %s", what))
}

func (ex *Exec) send(c *Chan, v Value) {
	if c == nil {
		panic(&pathEnd{"blocked forever on nil channel"})
	}
	if c.closed {
		panic(runtimePanic("send on closed channel"))
	}
	if c.cap > 0 {
		if !ex.block(func() bool { return c.closed || len(c.buf) < c.cap }) {
			ex.stuck("channel send")
		}
		if c.closed {
			panic(runtimePanic("send on closed channel"))
		}
		c.buf = append(c.buf, v)
		return
	}
	c.buf = append(c.buf, v)
	c.sent++
	mine := c.sent
	if !ex.block(func() bool { return c.taken >= mine }) {
		ex.stuck("channel send")
	}
}

func (c *Chan) take() Value {
	v := c.buf[0]
	c.buf = c.buf[1:]
	c.taken++
	return v
}

// recv returns the next value; ok is false on a closed channel.
func (ex *Exec) recv(c *Chan) (Value, bool) {
	if c == nil {
		panic(&pathEnd{"blocked forever on nil channel"})
	}
	c.waiting++
	ok := ex.block(func() bool { return len(c.buf) > 0 || c.closed })
	c.waiting--
	if !ok {
		ex.stuck("channel receive")
	}
	if len(c.buf) > 0 {
		return c.take(), true
	}
	return nil, false
}

// ---- WaitGroup ----

func wgIntr(I map[string]intrinsicFn) {
	I["(*sync.WaitGroup).Add"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if ex.wg == nil {
			ex.wg = map[*Value]int{}
		}
		p := a[0].(*Value)
		ex.wg[p] += ex.concInt(a[1], "WaitGroup.Add")
		if ex.wg[p] < 0 {
			panic(runtimePanic("sync: negative WaitGroup counter"))
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if ex.wg[p] <= 0 {
			panic(runtimePanic("sync: negative WaitGroup counter"))
		}
		ex.wg[p]--
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if !ex.block(func() bool { return ex.wg[p] == 0 }) {
			ex.stuck("WaitGroup.Wait")
		}
		return nil
	}
}
