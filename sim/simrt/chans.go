package simrt

import (
	"iter"
	"reflect"
	"sync"
	"unsafe"
)

// Channels of the instrumented library. Every operation on them goes through here: a task that has to
// wait does so in the simulated scheduler, and which of several ready cases a select takes is the
// simulator's choice. The real channel serves as identity only, except for channels the library was
// given from outside, which are polled.

type waiter struct {
	s   *sel
	idx int
	val any
}

// sel is one blocked operation (or select) of a task.
type sel struct {
	done   bool
	idx    int
	val    any
	ok     bool
	closed bool // a send woken by close
}

type chanState struct {
	global bool // made before any run: known for ever
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []waiter
	sendq  []waiter
}

var (
	chMu  sync.Mutex // also carries the happens-before edges of channel communication
	chans = map[unsafe.Pointer]*chanState{}
)

func chanPtr[T any](ch *T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(ch)) }

// MakeChan registers a channel the library has made.
func MakeChan[C any](ch C) C {
	v := reflect.ValueOf(ch)
	chMu.Lock()
	chans[chanPtr(&ch)] = &chanState{keep: ch, cap: v.Cap(), global: !Active()}
	chMu.Unlock()
	return ch
}

const keepChans = 4096

// Channels made during runs are given back to the real runtime, contents and all, when there are too
// many: code that still holds one of them goes on with the real channel.
func init() {
	OnReset(func() {
		if len(chans) >= keepChans {
			forgetChans()
		}
	})
}

func forgetChans() {
	for p, c := range chans {
		if c.global {
			continue
		}
		v := reflect.ValueOf(c.keep)
		for _, x := range c.buf {
			xv := reflect.ValueOf(x)
			if !xv.IsValid() {
				xv = reflect.Zero(v.Type().Elem())
			}
			v.TrySend(xv)
		}
		if c.closed {
			v.Close()
		}
		delete(chans, p)
	}
}

func pop(q *[]waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.s.done {
			return &w
		}
	}
	return nil
}

func (c *chanState) trySend(v any) bool {
	if c == &nilChan {
		return false
	}
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		w.s.done, w.s.idx, w.s.val, w.s.ok = true, w.idx, v, true
		WakeAll(unsafe.Pointer(w.s))
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *chanState) tryRecv() (v any, ok, ready bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]any(nil), c.buf[1:]...)
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.s.done, w.s.idx = true, w.idx
			WakeAll(unsafe.Pointer(w.s))
		}
		return v, true, true
	}
	if w := pop(&c.sendq); w != nil {
		w.s.done, w.s.idx = true, w.idx
		WakeAll(unsafe.Pointer(w.s))
		return w.val, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

// Case is one case of a select.
type Case interface {
	// try attempts the operation without waiting.
	try() bool
	state() (c *chanState, send bool, val any)
	take(v any, ok bool)
}

type RecvCase[T any] struct {
	ch <-chan T
	c  *chanState
	V  T
	OK bool
}

var nilChan chanState // a nil channel: nobody will ever come

func lookup(p unsafe.Pointer) *chanState {
	if p == nil {
		return &nilChan
	}
	chMu.Lock()
	c := chans[p]
	chMu.Unlock()
	return c
}

// CaseRecv is a receive.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{ch: ch, c: lookup(chanPtr(&ch))}
}

func (r *RecvCase[T]) state() (*chanState, bool, any) { return r.c, false, nil }

func (r *RecvCase[T]) take(v any, ok bool) {
	var z T
	r.V, r.OK = z, ok
	if x, is := v.(T); is {
		r.V = x
	}
}

func (r *RecvCase[T]) try() bool {
	if r.c == nil {
		select {
		case r.V, r.OK = <-r.ch:
			return true
		default:
			return false
		}
	}
	v, ok, ready := r.c.tryRecv()
	if ready {
		r.take(v, ok)
	}
	return ready
}

// Get is what was received.
func (r *RecvCase[T]) Get() T { return r.V }

// Get2 is the same with whether it was sent.
func (r *RecvCase[T]) Get2() (T, bool) { return r.V, r.OK }

type SendCase[T any] struct {
	ch chan<- T
	c  *chanState
	v  T
}

// CaseSend is a send.
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, c: lookup(chanPtr(&ch)), v: v} }
}

func (r *SendCase[T]) state() (*chanState, bool, any) { return r.c, true, r.v }
func (r *SendCase[T]) take(any, bool)                 {}
func (r *SendCase[T]) try() bool {
	if r.c == nil {
		select {
		case r.ch <- r.v:
			return true
		default:
			return false
		}
	}
	return r.c.trySend(r.v)
}

// Select performs one of the cases and returns its index, or -1 for the default case.
func Select(def bool, cs ...Case) int {
	Point()
	foreign, polls := false, 0
	for _, c := range cs {
		if st, _, _ := c.state(); st == nil {
			foreign = true
		}
	}
	for {
		chMu.Lock()
		off := 0
		if len(cs) > 1 {
			off = Choose(len(cs))
		}
		for k := range cs {
			i := (k + off) % len(cs)
			ready := false
			func() {
				defer func() {
					if v := recover(); v != nil {
						chMu.Unlock()
						panic(v)
					}
				}()
				ready = cs[i].try()
			}()
			if ready {
				chMu.Unlock()
				return i
			}
		}
		if def {
			chMu.Unlock()
			return -1
		}
		if foreign && len(cs) > 0 { // a channel of somebody else's: ask again later
			chMu.Unlock()
			Poll(polls)
			polls++
			continue
		}
		s := &sel{}
		for i, c := range cs {
			st, send, v := c.state()
			if st == &nilChan {
				continue
			}
			if send {
				st.sendq = append(st.sendq, waiter{s, i, v})
			} else {
				st.recvq = append(st.recvq, waiter{s, i, nil})
			}
		}
		chMu.Unlock()
		for {
			chMu.Lock()
			done := s.done
			chMu.Unlock()
			if done {
				break
			}
			BlockOn(unsafe.Pointer(s))
		}
		if s.closed {
			panic("send on closed channel")
		}
		cs[s.idx].take(s.val, s.ok)
		return s.idx
	}
}

// Offer sends unless that would mean waiting; it never gives the processor away.
func Offer[T any](ch chan<- T, v T) {
	chMu.Lock()
	if c := chans[chanPtr(&ch)]; c != nil && !c.closed {
		c.trySend(v)
	}
	chMu.Unlock()
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := CaseRecv(ch)
	Select(false, c)
	return c.V
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := CaseRecv(ch)
	Select(false, c)
	return c.V, c.OK
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, CaseSend(ch)(v)) }
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	Point()
	c := lookup(chanPtr(&ch))
	if c == nil || ch == nil {
		close(ch)
		return
	}
	chMu.Lock()
	defer chMu.Unlock()
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		w := pop(&c.recvq)
		if w == nil {
			break
		}
		w.s.done, w.s.idx, w.s.val, w.s.ok = true, w.idx, nil, false
		WakeAll(unsafe.Pointer(w.s))
	}
	for {
		w := pop(&c.sendq)
		if w == nil {
			break
		}
		w.s.done, w.s.closed = true, true
		WakeAll(unsafe.Pointer(w.s))
	}
}

// Len is len(ch).
func Len[T any](ch T) int {
	c := lookup(chanPtr(&ch))
	if c == nil {
		return reflect.ValueOf(ch).Len()
	}
	chMu.Lock()
	defer chMu.Unlock()
	return len(c.buf)
}

// ChanSeq is range ch.
func ChanSeq[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
