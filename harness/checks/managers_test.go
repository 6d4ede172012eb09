package checks

import (
	"context"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/utsm"
	"pgregory.net/rapid"

	"verif/engine"
)

// ------------------------------------------------------ transaction manager

// tsmOp is an operation on the transaction manager. They start every 10 ms; as
// all time-outs end between them the order of everything is known.
type tsmOp struct {
	Kind string `json:"kind"` // acquire, put, send, receive, churn
	// K selects one of the ids that are held
	K int `json:"k"`
	// Wild is used instead of an id that is held
	Wild *int `json:"wild,omitempty"`
	// Timeout in steps of 10 ms
	Timeout int `json:"timeout,omitempty"`
	// Old selects an id that isn't held anymore
	Old bool `json:"old,omitempty"`
}

type tsmCase struct {
	Size int     `json:"size"`
	Ops  []tsmOp `json:"ops"`
}

func genTSM(t *rapid.T) tsmCase {
	c := tsmCase{Size: rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 4), rapid.IntRange(1, 30)).Draw(t, "size")}
	if chance(t, "big", 3) {
		c.Size = pick(t, "bigsize", 254, 255, 300)
	}
	for i := rapid.IntRange(1, 60).Draw(t, "n"); i > 0; i-- {
		o := tsmOp{Kind: pick(t, "kind", "acquire", "acquire", "acquire", "put", "put", "send", "send", "send", "receive", "receive", "receive"), K: rapid.IntRange(0, 30).Draw(t, "k"), Timeout: rapid.IntRange(0, 12).Draw(t, "timeout")}
		if chance(t, "churn", 2) {
			o.Kind, o.K = "churn", rapid.IntRange(1, 300).Draw(t, "rounds")
		}
		if o.Kind != "acquire" && o.Kind != "churn" {
			if chance(t, "wild", 12) {
				w := pick(t, "id", 0, -1, 1, 2, 254, 255, 256, 1000, -255)
				o.Wild = &w
			} else if chance(t, "old", 12) {
				o.Old = true
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// tsmCall is an operation that was started.
type tsmCall struct {
	op       tsmOp
	n        int
	id       int
	gen      int // transaction it belongs to, -1 if none
	start    time.Duration
	deadline time.Duration
	done     bool
	seen     bool
	end      time.Duration
	err      error
	got      any
	newID    int
}

type tsmMsg struct{ call, gen int }

type tsmRun struct {
	mgr   *tsm.TSM
	c     tsmCase
	t0    time.Time
	mu    sync.Mutex
	calls []*tsmCall
	held  []int       // ids in use
	gens  map[int]int // current transaction of an id
	gone  []int       // ids that were released
	next  int
	hits  map[string]bool
}

func (x *tsmRun) now() time.Duration { return time.Since(x.t0) }

func (x *tsmRun) start(o tsmOp, id, gen int, timeout time.Duration, f func(*tsmCall) error) *tsmCall {
	c := &tsmCall{op: o, n: len(x.calls), id: id, gen: gen, start: x.now(), deadline: x.now() + timeout}
	x.calls = append(x.calls, c)
	go func() {
		err := f(c)
		x.mu.Lock()
		defer x.mu.Unlock()
		c.done, c.end, c.err = true, x.now(), err
	}()
	return c
}

func (x *tsmRun) limit() int { return min(x.c.Size, 254) }

// settle waits until nothing moves and compares with the model.
func (x *tsmRun) settle() error {
	synctest.Wait()
	x.mu.Lock()
	defer x.mu.Unlock()
	now := x.now()
	// First the ids that were handed out
	for _, c := range x.calls {
		if !c.done || c.seen || c.op.Kind != "acquire" {
			continue
		}
		c.seen = true
		if c.err != nil {
			if c.end != c.deadline {
				return fmt.Errorf("acquiring at %v fails at %v: %v", c.start, c.end, c.err)
			}
			x.hits["acquire timeout"] = true
			continue
		}
		if c.newID < 1 || c.newID > 255 {
			return fmt.Errorf("id %d", c.newID)
		}
		for _, id := range x.held {
			if id == c.newID {
				return fmt.Errorf("id %d is given to two transactions", id)
			}
		}
		if len(x.held) >= x.c.Size {
			return fmt.Errorf("%d ids are in use although the limit is %d", len(x.held)+1, x.c.Size)
		}
		if c.end > c.start {
			x.hits["waited for an id"] = true
		}
		x.next++
		x.held = append(x.held, c.newID)
		x.gens[c.newID] = x.next
	}
	sent := map[int]*tsmCall{} // by call
	pendingS, pendingR := map[int]int{}, map[int]int{}
	for _, c := range x.calls {
		switch c.op.Kind {
		case "acquire":
			if !c.done {
				if now > c.deadline {
					return fmt.Errorf("acquiring at %v doesn't end although its time ended at %v", c.start, c.deadline)
				}
				if len(x.held) < x.limit() {
					return fmt.Errorf("acquiring waits although only %d of %d ids are in use", len(x.held), x.limit())
				}
			}
		case "send":
			sent[c.n] = c
			if !c.done && x.gens[c.id] == c.gen && c.gen >= 0 {
				pendingS[c.id]++
			}
			if !c.done && (c.gen < 0 || x.gens[c.id] != c.gen) {
				return fmt.Errorf("sending to id %d blocks although it isn't in use anymore", c.id)
			}
			if c.done && c.gen < 0 && c.err == nil {
				return fmt.Errorf("sending to id %d, which isn't in use, succeeds", c.id)
			}
			if c.done && c.gen < 0 && c.end != c.start {
				return fmt.Errorf("sending to id %d, which isn't in use, takes %v", c.id, c.end-c.start)
			}
		case "receive":
			if !c.done && (c.gen < 0 || x.gens[c.id] != c.gen) {
				return fmt.Errorf("receiving from id %d blocks although it isn't in use anymore", c.id)
			}
			if !c.done && now > c.deadline {
				return fmt.Errorf("receiving from id %d blocks longer than %v", c.id, c.deadline-c.start)
			}
			if !c.done {
				pendingR[c.id]++
			}
			if c.done && c.gen < 0 && c.err == nil {
				return fmt.Errorf("receiving from id %d, which isn't in use, succeeds with %v", c.id, c.got)
			}
			if c.done && c.gen < 0 && c.end != c.start {
				return fmt.Errorf("receiving from id %d, which isn't in use, takes %v", c.id, c.end-c.start)
			}
		}
	}
	for id, n := range pendingR {
		if n > 0 && pendingS[id] > 0 {
			return fmt.Errorf("on id %d both sender and receiver wait", id)
		}
	}
	taken := map[int]int{}
	for _, c := range x.calls {
		if c.op.Kind != "receive" || !c.done {
			continue
		}
		if c.err != nil {
			released := c.gen >= 0 && x.gens[c.id] != c.gen
			if c.gen >= 0 && c.end != c.deadline && !released {
				return fmt.Errorf("receiving from id %d of %v..%v fails at %v: %v", c.id, c.start, c.deadline, c.end, c.err)
			}
			continue
		}
		m, ok := c.got.(tsmMsg)
		if !ok {
			return fmt.Errorf("received %v, which nobody sent", c.got)
		}
		if m.gen != c.gen {
			return fmt.Errorf("transaction %d received what was sent to transaction %d on id %d", c.gen, m.gen, c.id)
		}
		if taken[m.call]++; taken[m.call] > 1 {
			return fmt.Errorf("what was sent once was received twice on id %d", c.id)
		}
		if s := sent[m.call]; s.done && s.err != nil {
			return fmt.Errorf("sending on id %d failed (%v) but was received", c.id, s.err)
		}
		x.hits["delivered"] = true
	}
	return nil
}

func (x *tsmRun) pickID(o tsmOp) (id, gen int) {
	if o.Wild != nil {
		id = *o.Wild
	} else if o.Old && len(x.gone) > 0 {
		id = x.gone[o.K%len(x.gone)]
	} else if len(x.held) > 0 {
		id = x.held[o.K%len(x.held)]
	}
	if g := x.gens[id]; g > 0 {
		return id, g
	}
	return id, -1
}

func (x *tsmRun) put(id, gen int) error {
	err := x.mgr.Put(id)
	if gen < 0 {
		if err == nil {
			return fmt.Errorf("releasing id %d, which isn't in use, succeeds", id)
		}
		x.hits["id not in use"] = true
		return nil
	}
	if err != nil {
		return fmt.Errorf("releasing id %d fails: %v", id, err)
	}
	for i, h := range x.held {
		if h == id {
			x.held = append(append([]int{}, x.held[:i]...), x.held[i+1:]...)
		}
	}
	delete(x.gens, id)
	x.gone = append(x.gone, id)
	return nil
}

func (x *tsmRun) acquire(timeout time.Duration) {
	x.start(tsmOp{Kind: "acquire"}, 0, 0, timeout, func(c *tsmCall) error {
		ctx, cancel := context.WithTimeout(context.Background(), timeout)
		defer cancel()
		id, err := x.mgr.ID(ctx)
		c.newID = id
		return err
	})
}

func (x *tsmRun) run() error {
	for i, o := range x.c.Ops {
		// whatever ends at a time-out ends in between
		time.Sleep(10 * ms)
		if err := x.settle(); err != nil {
			return fmt.Errorf("before step %d: %w", i, err)
		}
		timeout := time.Duration(o.Timeout)*10*ms + 5*ms
		id, gen := x.pickID(o)
		switch o.Kind {
		case "acquire":
			x.acquire(timeout)
		case "put":
			if err := x.put(id, gen); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		case "send":
			m := tsmMsg{len(x.calls), gen}
			x.start(o, id, gen, timeout, func(*tsmCall) error { return x.mgr.Send(id, m) })
		case "receive":
			x.start(o, id, gen, timeout, func(c *tsmCall) error {
				v, err := x.mgr.Receive(id, timeout)
				c.got = v
				return err
			})
		case "churn":
			waiting := false
			for _, c := range x.calls {
				waiting = waiting || c.op.Kind == "acquire" && !c.done
			}
			for j := 0; j < o.K && !waiting && len(x.held) < x.limit(); j++ {
				n := len(x.calls)
				x.acquire(5 * ms)
				if err := x.settle(); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				if c := x.calls[n]; !c.done || c.err != nil {
					return fmt.Errorf("step %d: acquiring waits although only %d of %d ids are in use", i, len(x.held), x.limit())
				}
				id := x.calls[n].newID
				x.calls = x.calls[:n]
				if err := x.put(id, 1); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				if j == 253 {
					x.hits["ids reused"] = true
				}
			}
		}
		if err := x.settle(); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.Kind, err)
		}
	}
	// Everything must end once all is released
	for len(x.held) > 0 {
		if err := x.put(x.held[0], 1); err != nil {
			return err
		}
		if err := x.settle(); err != nil {
			return fmt.Errorf("in the end: %w", err)
		}
	}
	time.Sleep(time.Second)
	if err := x.settle(); err != nil {
		return fmt.Errorf("in the end: %w", err)
	}
	for len(x.held) > 0 {
		if err := x.put(x.held[0], 1); err != nil {
			return err
		}
	}
	// The whole capacity is there
	for i := 0; i < x.limit(); i++ {
		x.acquire(5 * ms)
	}
	if err := x.settle(); err != nil {
		return fmt.Errorf("in the end: %w", err)
	}
	if len(x.held) != x.limit() {
		return fmt.Errorf("in the end only %d of %d ids can be acquired", len(x.held), x.limit())
	}
	for _, id := range append([]int{}, x.held...) {
		if err := x.put(id, 1); err != nil {
			return err
		}
	}
	return nil
}

// ----------------------------------------------------- subscription manager

type subCase struct {
	// Overall and Quiet in steps of 10 ms, 0 for the defaults
	Overall int      `json:"overall"`
	Quiet   int      `json:"quiet"`
	Steps   []pubSub `json:"steps"`
}

// pubSub is a step at its own time.
type pubSub struct {
	Gap   int   `json:"gap"` // steps of 10 ms since the last one
	Sub   bool  `json:"sub,omitempty"`
	Low   int   `json:"low"`
	High  int   `json:"high"`
	Inner []int `json:"inner,omitempty"` // published as soon as it is subscribed
	// Ids that are published, by one publisher or by many at once
	Ids      []int `json:"ids,omitempty"`
	Parallel bool  `json:"parallel,omitempty"`
	Times    int   `json:"times,omitempty"` // more than once
}

func genSub(t *rapid.T) subCase {
	c := subCase{}
	if chance(t, "set", 80) {
		c.Overall, c.Quiet = rapid.IntRange(1, 60).Draw(t, "overall"), rapid.IntRange(1, 40).Draw(t, "quiet")
	}
	id := func(l string) int { return rapid.IntRange(0, 12).Draw(t, l) }
	for i := rapid.IntRange(1, 40).Draw(t, "steps"); i > 0; i-- {
		s := pubSub{Gap: rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 12)).Draw(t, "gap")}
		if c.Overall == 0 {
			s.Gap *= rapid.IntRange(1, 20).Draw(t, "times")
		}
		if len(c.Steps) == 0 || chance(t, "sub", 25) {
			s.Sub, s.Low, s.High = true, id("low"), id("high")
			if s.Low > s.High && chance(t, "swap", 90) {
				s.Low, s.High = s.High, s.Low
			}
			if chance(t, "inside", 40) {
				s.Inner = rapid.SliceOfN(rapid.IntRange(0, 12), 1, 4).Draw(t, "inner")
			}
		} else {
			most := 4
			if chance(t, "burst", 8) {
				most = 300
			}
			s.Ids = sliceUpTo(t, "ids", rapid.IntRange(0, 12), 1, most)
			s.Parallel = chance(t, "parallel", 20)
		}
		c.Steps = append(c.Steps, s)
	}
	if s := &c.Steps[len(c.Steps)/2]; !s.Sub && chance(t, "flood", 1) {
		s.Times = rapid.IntRange(2, 3000/len(s.Ids)).Draw(t, "times")
	}
	return c
}

// news is something that was published.
type news struct{ ID, Seq, Group int }

type listener struct {
	low, high  int
	start, end time.Duration // as it must be
	want       []news
	got        []any
	err        error
	ended      time.Duration
	done       bool
}

func (c subCase) run(r *engine.Rec) error {
	var opts []utsm.ManagerOption
	overall, quiet := 10*time.Second, time.Second
	if c.Overall > 0 {
		overall, quiet = time.Duration(c.Overall)*10*ms+5*ms, time.Duration(c.Quiet)*10*ms+5*ms
		opts = append(opts, utsm.DefaultSubscriberTimeout(overall), utsm.DefaultSubscriberLastReceivedTimeout(quiet))
	} else {
		r.Label("default times")
	}
	m := utsm.NewManager(opts...)
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	var mu sync.Mutex
	var ls []*listener
	seq := 0
	var blocked error
	publish := func(n news) {
		t := now()
		m.Publish(n.ID, n)
		mu.Lock()
		defer mu.Unlock()
		if d := now() - t; d > 0 && blocked == nil {
			blocked = fmt.Errorf("publishing takes %v", d)
		}
	}
	// expect adds to the model what is published now
	expect := func(n news) {
		t := now()
		for _, l := range ls {
			if n.ID >= l.low && n.ID <= l.high && t < l.end {
				l.want = append(l.want, n)
				l.end = min(l.start+overall, t+quiet)
			}
		}
	}
	for i, s := range c.Steps {
		// The defaults are round, so publish between them
		gap := time.Duration(s.Gap) * 10 * ms
		if c.Overall == 0 {
			gap += 7*ms + time.Duration(i)*time.Microsecond
		}
		time.Sleep(gap)
		if c.Overall == 0 || s.Gap > 0 {
			synctest.Wait()
		}
		if s.Sub {
			l := &listener{low: s.Low, high: s.High, start: now()}
			l.end = l.start + min(overall, quiet)
			ls = append(ls, l)
			var inner []news
			for _, id := range s.Inner {
				n := news{id, seq, seq}
				seq++
				inner = append(inner, n)
				expect(n)
			}
			go func() {
				got, err := m.Subscribe(s.Low, s.High, utsm.Subscribed(func() {
					for _, n := range inner {
						publish(n)
					}
				}))
				mu.Lock()
				defer mu.Unlock()
				l.got, l.err, l.ended, l.done = got, err, now(), true
			}()
			synctest.Wait()
			continue
		}
		group := seq
		var wg sync.WaitGroup
		ids := s.Ids
		for i := 1; i < s.Times; i++ {
			ids = append(ids[:len(ids):len(ids)], s.Ids...)
		}
		for _, id := range ids {
			n := news{id, seq, group}
			if !s.Parallel {
				n.Group = seq
			}
			seq++
			expect(n)
			if s.Parallel {
				wg.Add(1)
				go func() {
					defer wg.Done()
					publish(n)
				}()
			} else {
				publish(n)
			}
		}
		wg.Wait()
	}
	time.Sleep(overall + time.Second)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	if blocked != nil {
		return blocked
	}
	for i, l := range ls {
		bad := func(format string, a ...any) error {
			return fmt.Errorf("subscription %d for %d..%d at %v: %s", i, l.low, l.high, l.start, fmt.Sprintf(format, a...))
		}
		if !l.done {
			return bad("doesn't end")
		}
		if l.err != nil {
			return bad("fails: %v", l.err)
		}
		if l.ended != l.end {
			return bad("ends at %v instead of %v", l.ended, l.end)
		}
		// In order, only those published at once by several may be mixed
		pos := map[int]bool{}
		for _, g := range l.got {
			n, ok := g.(news)
			if !ok {
				return bad("received %v, which nobody published", g)
			}
			if pos[n.Seq] {
				return bad("received %+v twice", n)
			}
			pos[n.Seq] = true
		}
		if len(l.got) != len(l.want) {
			return bad("received %d messages %v instead of %d %v", len(l.got), l.got, len(l.want), l.want)
		}
		for j, w := range l.want {
			if g := l.got[j].(news); g.Group != w.Group || !pos[w.Seq] {
				return bad("message %d is %+v instead of %+v", j, g, w)
			}
		}
		r.LabelIf(len(l.got) > 1 && l.ended == l.start+overall, "ended by overall time")
		r.LabelIf(len(l.got) > 1 && l.ended < l.start+overall, "ended by quiet period")
	}
	return nil
}

func init() {
	engine.Add("K04", "histories", "an operation waits, times out, meets another one, or uses an id that isn't in use", 20000, 1000000,
		genTSM,
		func(r *engine.Rec, c tsmCase) error {
			return engine.Bubble(r, func() error {
				x := &tsmRun{mgr: tsm.New(c.Size), c: c, t0: time.Now(), gens: map[int]int{}, hits: map[string]bool{}}
				err := x.run()
				for h := range x.hits {
					r.Label("%s", h)
					r.Hit(true)
				}
				return err
			})
		})
	engine.Add("K05", "histories", "a subscription receives several messages, or several subscriptions overlap", 15000, 800000,
		genSub,
		func(r *engine.Rec, c subCase) error {
			subs, pubs := 0, 0
			for _, s := range c.Steps {
				if s.Sub {
					subs++
				}
				pubs += len(s.Ids)
				r.LabelIf(len(s.Inner) > 0, "published while subscribing")
				r.LabelIf(s.Parallel, "parallel publishers")
				r.LabelIf(len(s.Ids) > 100, "burst")
				r.LabelIf(len(s.Ids)*s.Times > 1000, "flood")
				r.LabelIf(s.Sub && s.Low > s.High, "empty range")
			}
			r.Hit(subs > 1 || pubs > 3)
			return engine.Bubble(r, func() error { return c.run(r) })
		})
}

// exhaustCase uses all ids there are.
type exhaustCase struct {
	Size int `json:"size"`
	// Waiting are those that wait for an id while all are used, with their
	// time-outs in ms
	Waiting []int `json:"waiting"`
	// Freed ids are released while others wait
	Freed int `json:"freed"`
	Times int `json:"times"`
	// Late is how many ask with a context that is over already
	Late int `json:"late,omitempty"`
}

func init() {
	engine.Add("K04", "all ids in use", "somebody waits for an id in vain", 300, 8000,
		func(t *rapid.T) exhaustCase {
			return exhaustCase{
				Size:    rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(250, 260), rapid.SampledFrom([]int{254, 255, 256, 300, 1000})).Draw(t, "size"),
				Waiting: sliceUpTo(t, "waiting", rapid.IntRange(0, 50), 0, pick(t, "most", 12, 12, 12, 400)),
				Freed:   rapid.IntRange(0, 4).Draw(t, "freed"),
				Times:   rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 40)).Draw(t, "times"),
				Late:    pick(t, "late", 0, 0, 1, 5, 30, 200),
			}
		},
		func(r *engine.Rec, c exhaustCase) error {
			r.Hit(len(c.Waiting) > c.Freed)
			r.LabelIf(c.Size > 254, "more space than ids")
			r.LabelIf(c.Late > 0, "contexts that are over")
			return engine.Bubble(r, func() error {
				mgr := tsm.New(c.Size)
				most := min(c.Size, 254)
				held := map[int]bool{}
				var mu sync.Mutex
				get := func(d time.Duration) (time.Duration, error) {
					ctx, cancel := context.WithTimeout(context.Background(), d)
					defer cancel()
					start := time.Now()
					id, err := mgr.ID(ctx)
					mu.Lock()
					defer mu.Unlock()
					if err == nil {
						if held[id] || id < 1 || id > 255 {
							return 0, fmt.Errorf("id %d is handed out twice or not possible", id)
						}
						held[id] = true
					}
					return time.Since(start), err
				}
				free := func(n int) error {
					mu.Lock()
					defer mu.Unlock()
					for id := range held {
						if n == 0 {
							break
						}
						n--
						delete(held, id)
						if err := mgr.Put(id); err != nil {
							return fmt.Errorf("releasing id %d: %v", id, err)
						}
					}
					return nil
				}
				for k := 0; k <= c.Times; k++ {
					// an id or none at once, both is fine
					for i := 0; i < c.Late; i++ {
						if d, _ := get(0); d > 0 {
							return fmt.Errorf("time %d: nobody waits without time but it takes %v", k, d)
						}
						if err := free(len(held)); err != nil {
							return err
						}
					}
					for len(held) < most {
						if d, err := get(time.Second); err != nil || d > 0 {
							return fmt.Errorf("time %d: with %d of %d ids in use the next one takes %v: %v", k, len(held), most, d, err)
						}
					}
					errs := make([]error, len(c.Waiting))
					var wg sync.WaitGroup
					for i, w := range c.Waiting {
						wg.Add(1)
						go func() {
							defer wg.Done()
							d, err := get(time.Duration(w)*ms + 500*time.Microsecond)
							if err != nil && d != time.Duration(w)*ms+500*time.Microsecond {
								errs[i] = fmt.Errorf("time %d: waiting for %d ms ends after %v: %v", k, w, d, err)
							}
						}()
					}
					time.Sleep(25 * ms)
					if err := free(c.Freed); err != nil {
						return err
					}
					wg.Wait()
					for _, err := range errs {
						if err != nil {
							return err
						}
					}
					if len(held) > most {
						return fmt.Errorf("%d ids are in use, there are %d", len(held), most)
					}
					if err := free(len(held)); err != nil {
						return err
					}
				}
				return nil
			})
		}, engine.Limit(60*time.Second))
}
