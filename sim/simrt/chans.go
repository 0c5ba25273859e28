package simrt

import (
	"time"
	"unsafe"
)

// Channels stay what they are; the operations on them go through the scheduler. A buffered channel is
// used by operations that do not block, and who cannot go on is parked until the channel changes. On
// an unbuffered channel sender and receiver find each other here, and the value goes from one to the
// other through a channel of its own, so the happens-before edges are those of the real operation.
// What code outside the simulation sends or closes (a timer, say) is seen when nobody else can run.

// party is a goroutine that waits for one of several communications.
type party struct {
	g     *G
	fired int           // the case that another goroutine completed, or -1
	slot  interface{}   // where the value for a receiver is
	pre   chan struct{} // what the party did before is seen by who completes it
	ack   chan struct{} // what a receiver did before is seen by the sender it received from
}

type offer struct {
	ch   unsafe.Pointer
	send bool
	idx  int
	slot interface{}
	p    *party
	next *offer
}

var offers *offer

// Case is one communication of a select statement.
type Case struct {
	ch   unsafe.Pointer
	unbf bool
	send bool
	try  func() bool
	slot interface{}
	take func(slot interface{})
}

// RecvCase receives.
type RecvCase[T any] struct {
	V  T
	OK bool
	c  Case
}

// C is the case itself.
func (r *RecvCase[T]) C() *Case { return &r.c }

// R is the case that receives from ch.
func R[T any](ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{}
	r.c = Case{ch: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), unbf: cap(ch) == 0,
		try: func() bool {
			select {
			case r.V, r.OK = <-ch:
				return true
			default:
				return false
			}
		},
		take: func(s interface{}) { r.V, r.OK = <-s.(chan T), true },
	}
	return r
}

// T is the case that sends on ch the value it is then given.
func T[E any](ch chan<- E) func(E) *Case {
	return func(v E) *Case {
		slot := make(chan E, 1)
		slot <- v
		return &Case{ch: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), unbf: cap(ch) == 0, send: true, slot: slot,
			try: func() bool {
				select {
				case ch <- v:
					return true
				default:
					return false
				}
			},
		}
	}
}

// Send sends on ch the value it is then given.
func Send[E any](ch chan<- E) func(E) {
	return func(v E) {
		if !Active() {
			ch <- v
			return
		}
		Select(false, T(ch)(v))
	}
}

// Recv receives from ch.
func Recv[E any](ch <-chan E) E {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch and tells whether a value came.
func Recv2[E any](ch <-chan E) (E, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	r := R(ch)
	Select(false, r.C())
	return r.V, r.OK
}

// ZeroC is the zero value of ch's elements.
func ZeroC[E any](ch <-chan E) (e E) { return }

// Close closes ch.
func Close[E any](ch chan<- E) {
	if Active() {
		SyncPoint()
	}
	close(ch)
	if Active() {
		wakeChan(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		SyncPoint()
	}
}

// Select waits until one of the cases can go on, completes it and gives its number; -1 if none can and
// there is a default.
func Select(def bool, cs ...*Case) int {
	if !Active() {
		for {
			for i, c := range cs {
				if c.ch != nil && c.try() {
					return i
				}
			}
			if def {
				return -1
			}
			time.Sleep(time.Millisecond)
		}
	}
	SyncPoint()
	for {
		from := 0
		if len(cs) > 1 {
			from = selectFrom(len(cs))
		}
		for k := range cs {
			i := (from + k) % len(cs)
			c := cs[i]
			if c.ch == nil {
				continue
			}
			if c.unbf {
				if o := partner(c.ch, !c.send); o != nil {
					if c.send {
						fire(o, c.slot)
						<-o.p.pre
					} else {
						fire(o, nil)
						c.take(o.slot)
						o.p.ack <- struct{}{}
					}
					SyncPoint()
					return i
				}
			}
			if c.try() {
				wakeChan(c.ch)
				SyncPoint()
				return i
			}
		}
		if def {
			return -1
		}
		p := newParty()
		for i, c := range cs {
			if c.ch != nil {
				register(p, i, c)
			}
		}
		p.pre <- struct{}{}
		if !park(p) {
			return len(cs) - 1 // the run is being torn down
		}
		if p.fired >= 0 {
			c := cs[p.fired]
			if c.send {
				<-p.ack
			} else {
				c.take(p.slot)
			}
			return p.fired
		}
	}
}

//go:norace
func newParty() *party {
	return &party{g: cur, fired: -1, pre: make(chan struct{}, 1), ack: make(chan struct{}, 1)}
}

//go:norace
func selectFrom(n int) int {
	var v uint32
	if !S.replaying {
		v = uint32(polRng.Next() % uint64(n))
	}
	return int(S.Put(v) % uint32(n))
}

//go:norace
func register(p *party, i int, c *Case) {
	o := &offer{ch: c.ch, send: c.send, idx: i, slot: c.slot, p: p}
	if offers == nil {
		offers = o
		return
	}
	l := offers
	for l.next != nil {
		l = l.next
	}
	l.next = o
}

//go:norace
func unregister(p *party) {
	for l := &offers; *l != nil; {
		if (*l).p == p {
			*l = (*l).next
		} else {
			l = &(*l).next
		}
	}
}

// partner finds who waits to send (or to receive) on an unbuffered channel.
//
//go:norace
func partner(ch unsafe.Pointer, send bool) *offer {
	for o := offers; o != nil; o = o.next {
		if o.ch == ch && o.send == send && o.p.fired < 0 && o.p.g != cur {
			return o
		}
	}
	return nil
}

//go:norace
func fire(o *offer, slot interface{}) {
	o.p.fired, o.p.slot = o.idx, slot
	unregister(o.p)
	WakeG(o.p.g)
}

// park waits until another goroutine completes a case of p or one of its channels changes.
//
//go:norace
func park(p *party) bool {
	if aborting && cur.unw {
		unregister(p)
		return false
	}
	Block(unsafe.Pointer(p))
	unregister(p)
	return !aborting
}

//go:norace
func wakeChan(ch unsafe.Pointer) {
	for o := offers; o != nil; o = o.next {
		if o.ch == ch {
			WakeG(o.p.g)
		}
	}
}

// pollChans lets everybody who waits on a channel look at it again: it may have been changed from
// outside.
//
//go:norace
func pollChans() bool {
	for o := offers; o != nil; o = o.next {
		WakeG(o.p.g)
	}
	return offers != nil
}
