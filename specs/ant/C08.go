package ant

import (
	"context"
	"io"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// queueSection is what the queue's lock protects, and what the goroutine under
// verification does to it while it holds the lock.
type queueSectionSpec struct {
	mq      *memoryQueue
	held    bool
	free    bool // the operation acknowledges a URL, which needs no lock
	was     v.Seq[*URL]
	wasN    int
	stopped bool // when the lock was taken
	saw     bool // stopped at any time
	first   bool // stopped at the first time
	locks   int
	commits int // sections that changed the URLs
	before  v.Seq[*URL]
	after   v.Seq[*URL]
	closed  bool
	wakes   int
	wakeAll bool
	taken   int // URLs that the operation takes
	held1   int // URLs taken and not acknowledged
	waited  bool
	ctx     context.Context
	ended   error
	others  bool // other goroutines are at work
}

// queueState gives the queue a state that its operations can lead to.
func (s *queueSectionSpec) arbitrary() {
	mq := s.mq
	s.others = true
	old := mq.stopped
	mq.pending = v.AnyFresh[URLs]()
	mq.stopped = v.Any[bool]()
	s.held1 = v.Any[int]()
	v.Assume(v.And(s.held1 >= 0, v.Imp(s.free, s.held1 >= 1)))
	v.Assume(v.Imp(old, mq.stopped))
	v.Assume(v.Imp(mq.stopped, len(mq.pending) == 0))
	zzm.SetWaitGroup(mq.wg, len(mq.pending)+s.held1)
	s.others = false
}

// someQueue is a queue with any history, shared with other goroutines.
func someQueueSpec(ctx context.Context, s *queueSectionSpec) Queue {
	q := MemoryQueue(0)
	s.mq = q.(*memoryQueue)
	mq := s.mq
	v.Requires(ctx != nil)
	s.ctx = ctx
	s.ended = v.Any[error]()
	s.before, s.after = v.EmptySeq[*URL](), v.EmptySeq[*URL]()
	s.was = s.before
	s.arbitrary()
	s.free = false
	v.Stub("(context.Context).Err", func(c context.Context) error {
		v.Assert("the given context is asked", c == ctx)
		if s.ended == nil {
			s.ended = v.Any[error]()
		}
		return s.ended
	})
	enter := func() {
		v.Assert("the lock is free", !s.held)
		s.held = true
		s.arbitrary()
		s.was, s.wasN, s.stopped = v.SeqOf(mq.pending), zzm.WaitGroupCount(mq.wg), mq.stopped
		s.first = v.Ite(s.locks == 0, mq.stopped, s.first)
		s.saw = v.Or(s.saw, mq.stopped)
		s.locks++
	}
	leave := func() {
		v.Assert("the lock is held", s.held)
		now := v.SeqOf(mq.pending)
		n := zzm.WaitGroupCount(mq.wg)
		change := v.Or(!now.Eq(s.was), n != s.wasN)
		v.Assert("the URLs are changed once", v.Imp(change, s.commits == 0))
		s.commits = v.Ite(change, s.commits+1, s.commits)
		s.before = v.Ite(change, s.was, s.before)
		s.after = v.Ite(change, now, s.after)
		v.Assert("Wait counts what is queued and not acknowledged", n-s.wasN == now.Len()-s.was.Len()+s.taken*(s.was.Len()-now.Len()))
		v.Assert("a closed queue stays closed", v.Imp(s.stopped, mq.stopped))
		v.Assert("a closed queue is empty", v.Imp(mq.stopped, len(mq.pending) == 0))
		v.Assert("all waiting consumers are told of new URLs and of the end", v.Imp(v.Or(now.Len() > s.was.Len(), v.And(mq.stopped, !s.stopped)), v.Or(s.wakeAll, v.And(!mq.stopped, s.wakes >= now.Len()-s.was.Len()))))
		s.closed = v.Or(s.closed, mq.stopped)
		s.held = false
	}
	v.On("lock", mq.cond.L, enter)
	v.On("unlock", mq.cond.L, leave)
	v.On("rlock", mq.cond.L, enter)
	v.On("runlock", mq.cond.L, leave)
	v.On("wait", mq.cond, func() {
		v.Assert("Dequeue waits while there is nothing only", v.And(s.held, v.And(len(mq.pending) == 0, !mq.stopped)))
	})
	v.On("signal", mq.cond, func() { s.wakes++ })
	v.On("broadcast", mq.cond, func() { s.wakeAll = true })
	v.On("wg", mq.wg, func() {
		v.Assert("Wait's count changes with the lock held", v.Or(s.held, s.free))
		if !s.held {
			s.arbitrary()
			s.wasN = zzm.WaitGroupCount(mq.wg)
		}
	})
	v.On("wgwait", mq.wg, func() {
		v.Assert("the lock is free while Wait waits", !s.held)
		s.arbitrary()
	})
	v.On("wgwaited", mq.wg, func() {
		s.others = true
		s.waited = v.And(s.held1 == 0, len(mq.pending) == 0)
		s.others = false
	})
	use := func() bool { return v.Or(s.held, s.others) }
	v.Guard("the queued URLs are accessed with the lock held", &mq.pending, use, use)
	v.Guard("the end is accessed with the lock held", &mq.stopped, use, use)
	v.Loop("Dequeue", func() {
		v.Inv("nothing changes while it waits", v.And(v.SeqOf(mq.pending).Eq(s.was), v.And(zzm.WaitGroupCount(mq.wg) == s.wasN, mq.stopped == s.stopped)))
		v.Inv("the lock is held", s.held)
		v.Inv("nothing was taken", s.commits == 0)
		v.Inv("closed at first", v.And(v.Imp(s.first, mq.stopped), v.Imp(s.saw, mq.stopped)))
		v.Inv("open", v.And(v.Imp(s.closed, s.saw), s.saw == mq.stopped))
		v.Inv("locked", s.locks >= 1)
		v.Inv("closed is empty", v.Imp(mq.stopped, len(mq.pending) == 0))
		v.Inv("none is negative", v.And(s.held1 >= 0, zzm.WaitGroupCount(mq.wg) == len(mq.pending)+s.held1))
	})
	v.Loop("Close", func(k v.Iter) {
		v.Inv("discarded so far", zzm.WaitGroupCount(mq.wg) == s.wasN-int(k))
		v.Inv("the lock is held", v.And(s.held, s.wasN == s.was.Len()+s.held1))
	})
	return q
}

//verif:property C08
//verif:covers new queues
func verif_C08_new(size int) {
	v.Requires(size >= 0)
	mq := MemoryQueue(size).(*memoryQueue)
	v.Ensures("a new queue is empty and open", v.And(len(mq.pending) == 0, !mq.stopped))
	v.Ensures("nobody has to be waited for", zzm.WaitGroupCount(mq.wg) == 0)
}

//verif:property C08
//verif:covers every Enqueue in every state, with others using the queue
func verif_C08_enqueue(ctx context.Context, urls URLs) {
	s := new(queueSectionSpec)
	q := someQueueSpec(ctx, s)
	cancelled := s.ended
	given := v.SeqOf(urls)
	some := given.Len() > 0
	err := q.Enqueue(ctx, urls)
	v.Ensures("the lock is given back", !s.held)
	v.Ensures("the URLs are appended in order", v.Imp(v.And(err == nil, some), v.And(s.commits == 1, s.after.Eq(s.before.Concat(given)))))
	v.Ensures("no URL adds nothing", v.Imp(!some, s.commits == 0))
	v.Ensures("a failure adds nothing", v.Imp(err != nil, s.commits == 0))
	v.Ensures("a closed queue fails with EOF", v.Imp(v.And(some, s.saw), err == io.EOF))
	v.Ensures("a cancelled context is reported", v.Imp(v.And(some, v.And(!s.saw, cancelled != nil)), err == cancelled))
	v.Ensures("nothing else fails", v.Imp(err != nil, v.Or(v.And(s.saw, err == io.EOF), v.And(s.ended != nil, err == s.ended))))
	v.Ensures("the URLs given stay", v.SeqOf(urls).Eq(given))
	v.Ensures("the queue is not closed", v.Imp(!s.saw, !s.closed))
}

//verif:property C08
//verif:covers every Dequeue in every state, with others using the queue
func verif_C08_dequeue(ctx context.Context) {
	s := new(queueSectionSpec)
	q := someQueueSpec(ctx, s)
	s.taken = 1
	u, err := q.Dequeue(ctx)
	v.Ensures("the lock is given back", !s.held)
	v.Ensures("the oldest URL is handed out and the others stay", v.Imp(err == nil, v.And(s.commits == 1, v.And(s.before.Len() > 0, v.And(u == s.before.At(0), s.after.Eq(s.before.Slice(1, s.before.Len())))))))
	v.Ensures("a failure takes nothing", v.Imp(err != nil, v.And(u == nil, s.commits == 0)))
	v.Ensures("a closed queue hands out EOF", v.Imp(s.first, err == io.EOF))
	v.Ensures("an open queue fails with its context only", v.Imp(v.And(err != nil, !s.saw), v.And(s.ended != nil, err == s.ended)))
	v.Ensures("a queue closed meanwhile hands out EOF", v.Imp(v.And(err != nil, s.saw), v.Or(err == io.EOF, v.And(s.ended != nil, err == s.ended))))
	v.Ensures("the queue is not closed", v.Imp(!s.saw, !s.closed))
	v.Cover("Dequeue returns")
}

//verif:property C08
//verif:covers every acknowledgement, with others using the queue
func verif_C08_done(ctx context.Context, u *URL) {
	s := new(queueSectionSpec)
	q := someQueueSpec(ctx, s)
	s.free = true
	err := q.Done(ctx, u)
	v.Ensures("no error", err == nil)
	v.Ensures("the lock is given back", !s.held)
	v.Ensures("Wait waits for one URL less", zzm.WaitGroupCount(s.mq.wg) == s.wasN-1)
	v.Ensures("no URL is lost", s.commits == 0)
}

//verif:property C08
//verif:covers every Wait, with others using the queue
func verif_C08_wait(ctx context.Context) {
	s := new(queueSectionSpec)
	q := someQueueSpec(ctx, s)
	q.Wait()
	v.Ensures("every URL queued was acknowledged or discarded", s.waited)
	v.Ensures("Wait changes nothing", v.And(!s.held, s.commits == 0))
}

//verif:property C08
//verif:covers every Close in every state, with others using the queue
func verif_C08_close(ctx context.Context) {
	s := new(queueSectionSpec)
	q := someQueueSpec(ctx, s)
	err := q.Close(ctx)
	v.Ensures("no error", err == nil)
	v.Ensures("the lock is given back", !s.held)
	v.Ensures("the queue is closed", s.closed)
}
