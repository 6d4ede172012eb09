package checks

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// event is a reply to a transmission.
type event struct {
	DelayMs int        `json:"delay_ms"`
	What    string     `json:"what"` // ok, error, cut
	Err     ref.ErrVal `json:"err"`
	Fwd     bool       `json:"fwd,omitempty"` // through a broadcast distributor
}

// op is a request with the replies to each of its transmissions.
type op struct {
	StartMs int        `json:"start_ms"`
	Kind    string     `json:"kind"`
	Peer    int        `json:"peer"`
	Props   int        `json:"props"`
	Plan    [2][]event `json:"plan"`
	SendErr [2]bool    `json:"send_err"`
	// Bad is set if the request can't be expressed
	Bad bool `json:"bad,omitempty"`
}

type opsCase struct {
	// SendMs is how long sending takes, a reply may arrive before that is over
	SendMs int `json:"send_ms,omitempty"`

	Peers []peer `json:"peers"`
	Ops   []op   `json:"ops"`
}

var opKinds = []string{"read", "readmulti", "write", "writemulti"}

func genDelay(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 4800), rapid.IntRange(0, 4800), rapid.IntRange(5200, 16000)).Draw(t, "delay")
}

func genEvents(t *rapid.T, most int) []event {
	var es []event
	for i := rapid.IntRange(0, most).Draw(t, "events"); i > 0; i-- {
		e := event{DelayMs: genDelay(t), What: pick(t, "what", "ok", "ok", "ok", "error", "cut")}
		if e.What == "error" {
			e.Err = ref.ErrVal{Class: rapid.OneOf(rapid.Uint32Range(0, 7), rapid.Uint32Range(0, 7), rapid.Uint32Range(0, 65535)).Draw(t, "class"), Code: rapid.OneOf(rapid.Uint32Range(0, 140), rapid.Uint32Range(0, 140), rapid.Uint32Range(0, 65535)).Draw(t, "code")}
		}
		e.Fwd = chance(t, "fwd", 8)
		es = append(es, e)
	}
	return es
}

func genOps(most, spread int) func(t *rapid.T) opsCase {
	return func(t *rapid.T) opsCase {
		var c opsCase
		c.Peers = genPeers(t, 1, 3)
		c.SendMs = pick(t, "sending", 0, 0, 0, 0, 5, 50)
		for i := rapid.IntRange(1, most).Draw(t, "ops"); i > 0; i-- {
			o := op{StartMs: rapid.IntRange(0, spread).Draw(t, "start"), Kind: rapid.SampledFrom(opKinds).Draw(t, "kind"), Peer: rapid.IntRange(0, len(c.Peers)-1).Draw(t, "peer"), Props: rapid.IntRange(1, 3).Draw(t, "props")}
			o.Plan[0], o.Plan[1] = genEvents(t, 3), genEvents(t, 2)
			o.Bad = chance(t, "bad", 12)
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// objs is what the i-th operation asks for. Everything in it belongs to this
// operation only.
func (o op) objs(i int) []ref.Obj {
	x := ref.Obj{Type: 2, Inst: uint32(1000 + i)}
	n := o.Props
	if o.Kind == "read" || o.Kind == "write" {
		n = 1
	}
	for j := 0; j < n; j++ {
		p := ref.PropV{PropRef: ref.PropRef{ID: uint32(85 + j), Index: ref.ArrayAll}}
		if o.Kind == "write" || o.Kind == "writemulti" {
			p.Vals = []ref.Val{ref.Uint(uint32(i*10 + j))}
			p.Prio = byte(i%16 + 1)
		}
		x.Props = append(x.Props, p)
	}
	return []ref.Obj{x}
}

// answered is objs with the values that the device has.
func (o op) answered(i int) []ref.Obj {
	os := o.objs(i)
	for j := range os[0].Props {
		os[0].Props[j].Vals = []ref.Val{ref.Str(fmt.Sprintf("value %d of request %d", j, i))}
	}
	return os
}

func (o op) request(id byte, i int) []byte {
	switch o.Kind {
	case "read":
		return ref.ReadReq(id, o.objs(i)[0])
	case "write":
		return ref.WriteReq(id, o.objs(i)[0])
	case "readmulti":
		return ref.ReadMultiReq(id, o.objs(i))
	}
	return ref.WriteMultiReq(id, o.objs(i))
}

func (o op) service() byte {
	return map[string]byte{"read": 12, "readmulti": 14, "write": 15, "writemulti": 16}[o.Kind]
}

func (o op) ok(id byte, i int) []byte {
	switch o.Kind {
	case "read":
		return ref.ReadAck(id, o.answered(i)[0])
	case "readmulti":
		return ref.ReadMultiAck(id, o.answered(i))
	}
	return ref.SimpleAck(id, o.service())
}

func (o op) apdu(e event, id byte, i int) []byte {
	switch e.What {
	case "ok":
		return o.ok(id, i)
	case "error":
		return ref.Error(id, o.service(), e.Err, e.DelayMs%2 == 0)
	case "cut":
		b := o.ok(id, i)
		if len(b) == 3 {
			return b[:1+e.DelayMs%2]
		}
		return b[:4+e.DelayMs%(len(b)-4)]
	}
	panic(e.What)
}

func (o op) limit() time.Duration {
	switch o.Kind {
	case "read":
		return 6100 * ms
	case "readmulti":
		return 20100 * ms
	}
	return 11100 * ms
}

// call makes the request and checks what it returns, ok is false if the client
// reports an error.
func (o op) call(cl bacnet.Client, dev btypes.Device, i int) (ok bool, reported error, err error) {
	if o.Bad {
		m := toMPD(o.objs(i))
		if x := &m.Objects[0]; i%2 == 0 || o.Kind == "read" || o.Kind == "readmulti" {
			x.ID.Instance |= 1 << 22
		} else {
			x.Properties[0].Data = struct{}{}
		}
		e := doInvalid(cl, o.Kind, dev, m)
		return e == nil, e, nil
	}
	switch o.Kind {
	case "read":
		out, e := cl.ReadProperty(dev, toPD(o.objs(i)[0]))
		if e != nil {
			return false, e, nil
		}
		return true, nil, sameObj(o.answered(i)[0], out.Object, true)
	case "readmulti":
		out, e := cl.ReadMultiProperty(dev, toMPD(o.objs(i)))
		if e != nil {
			return false, e, nil
		}
		return true, nil, sameObjs(o.answered(i), out.Objects)
	case "write":
		e := cl.WriteProperty(dev, toPD(o.objs(i)[0]))
		return e == nil, e, nil
	}
	e := cl.WriteMultiProperty(dev, toMPD(o.objs(i)))
	return e == nil, e, nil
}

type arrival struct {
	at   time.Duration
	what string
	err  ref.ErrVal
}

// opState is what happened to an operation.
type opState struct {
	frames   []sim.Frame
	ids      []byte
	arrivals []arrival
	started  time.Duration
	ended    time.Duration
	over     bool
	ok       bool
	reported error
}

// opsRun carries out the operations and keeps what happened.
type opsRun struct {
	c     opsCase
	l     *sim.Link
	mu    sync.Mutex
	st    []*opState
	bad   error
	using map[byte]int
	// clash are transmissions with an id that another operation used
	clash []struct {
		id   byte
		op   int
		when time.Duration
	}
	probes []sim.Frame
	delay  time.Duration
}

func newOpsRun(c opsCase) *opsRun {
	x := &opsRun{c: c, using: map[byte]int{}, delay: 50 * ms}
	for range c.Ops {
		x.st = append(x.st, &opState{})
	}
	return x
}

func (x *opsRun) setup(l *sim.Link) {
	x.l = l
	l.OnSend = x.onSend
	l.SendTakes = time.Duration(x.c.SendMs) * ms
}

func (x *opsRun) fail(format string, a ...any) {
	if x.bad == nil {
		x.bad = fmt.Errorf(format, a...)
	}
}

func (x *opsRun) onSend(f sim.Frame) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	fr, err := ref.ParseFrame(f.Data)
	if err != nil || len(fr.Req.Objs) == 0 {
		x.fail("unexpected frame %x: %v", f.Data, err)
		return nil
	}
	q := fr.Req
	inst := q.Objs[0].Inst
	if inst < 1000 { // a probe
		x.probes = append(x.probes, f)
		o := ref.Obj{Type: 2, Inst: inst, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 85, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Uint(inst + 7)}}}}
		p := x.c.Peers[0]
		x.l.InjectLater(x.delay, p.ip(), p.reply(ref.ReadAck(q.Invoke, o)))
		return nil
	}
	i := int(inst - 1000)
	if i >= len(x.c.Ops) {
		x.fail("request for an object nobody asked for: %x", f.Data)
		return nil
	}
	o, s := x.c.Ops[i], x.st[i]
	p := x.c.Peers[o.Peer]
	if err := p.checkFrame(f, fr); err != nil {
		x.fail("operation %d: %w", i, err)
	}
	if err := sameBytes(fmt.Sprintf("request of operation %d", i), o.request(q.Invoke, i), fr.APDU); err != nil {
		x.fail("%w", err)
	}
	if s.over {
		x.fail("operation %d transmits after it returned", i)
	}
	if j, used := x.using[q.Invoke]; used && j != i && !x.st[j].over {
		x.clash = append(x.clash, struct {
			id   byte
			op   int
			when time.Duration
		}{q.Invoke, j, f.At})
	}
	x.using[q.Invoke] = i
	k := len(s.frames)
	s.frames = append(s.frames, f)
	s.ids = append(s.ids, q.Invoke)
	if k < 2 && o.SendErr[k] {
		return fmt.Errorf("sending failed")
	}
	if k < 2 {
		for _, e := range o.Plan[k] {
			d := time.Duration(e.DelayMs) * ms
			s.arrivals = append(s.arrivals, arrival{f.At + d, e.What, e.Err})
			frame := p.reply(o.apdu(e, q.Invoke, i))
			src := p.ip()
			if e.Fwd {
				frame = forwarded(src, frame[4:])
				src = sim.IP(192, 168, 1, 1, 47808)
			}
			x.l.InjectLater(d, src, frame)
		}
	}
	return nil
}

// forwarded wraps what follows a link header for a broadcast distributor.
func forwarded(origin btypes.Address, npdu []byte) []byte {
	return ref.BVLC(4, ref.Cat(origin.Mac, npdu))
}

func (x *opsRun) one(cl bacnet.Client, i int) error {
	o, s := x.c.Ops[i], x.st[i]
	time.Sleep(time.Duration(o.StartMs) * ms)
	return within(o.limit(), fmt.Sprintf("operation %d (%s)", i, o.Kind), func() error {
		dev := x.c.Peers[o.Peer].device(uint32(o.Peer+1), 1476)
		s.started = x.l.Now()
		ok, reported, err := o.call(cl, dev, i)
		x.mu.Lock()
		defer x.mu.Unlock()
		s.ended, s.over, s.ok, s.reported = x.l.Now(), true, ok, reported
		if err != nil {
			return fmt.Errorf("operation %d returns what isn't its own answer: %w", i, err)
		}
		return nil
	})
}

// judge applies what must hold for every operation.
func (x *opsRun) judge() error {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.bad != nil {
		return x.bad
	}
	for _, c := range x.clash {
		if x.st[c.op].ended > c.when {
			return fmt.Errorf("the invoke id %d is used again while operation %d is outstanding", c.id, c.op)
		}
	}
	for i, s := range x.st {
		o := x.c.Ops[i]
		bad := func(format string, a ...any) error {
			return fmt.Errorf("operation %d (%s) of %v..%v: %s", i, o.Kind, s.started, s.ended, fmt.Sprintf(format, a...))
		}
		if o.Bad && (s.ok || len(s.frames) > 0) {
			return bad("the request can't be expressed, but it is transmitted or succeeds")
		}
		most := 2
		if len(s.frames) > most {
			return bad("%d transmissions", len(s.frames))
		}
		for _, f := range s.frames {
			if !bytes.Equal(f.Data, s.frames[0].Data) || !bytes.Equal(f.Dest.Mac, s.frames[0].Dest.Mac) {
				return bad("the retransmission %x differs from %x", f.Data, s.frames[0].Data)
			}
			if f.At > s.ended {
				return bad("transmission after the end")
			}
		}
		if s.ok {
			acked := false
			for _, a := range s.arrivals {
				acked = acked || a.what == "ok" && a.at <= s.ended
			}
			if !acked {
				return bad("success without an acknowledgement")
			}
			continue
		}
		if len(s.frames) == 0 {
			continue
		}
		// The first thing that arrives decides, if it's alone and in time
		first, alone := arrival{at: 1 << 60}, true
		for _, a := range s.arrivals {
			if a.at < first.at {
				first, alone = a, true
			} else if a.at == first.at {
				alone = false
			}
		}
		if alone && first.what == "ok" && first.at < s.frames[0].At+4900*ms && !o.SendErr[0] {
			return bad("the device acknowledged at %v but the operation fails: %v", first.at, s.reported)
		}
		// What is lost is made good by another transmission, but for reads
		if o.Kind != "read" && !o.SendErr[0] && !o.SendErr[1] && first.at > s.frames[0].At+5100*ms {
			if len(s.frames) < 2 || s.frames[1].At > s.frames[0].At+5100*ms {
				return bad("nothing arrives at first, but it isn't transmitted again")
			}
			if alone && first.what == "ok" && first.at < s.frames[1].At+4900*ms {
				return bad("the device acknowledged at %v, after the transmission at %v, but the operation fails: %v", first.at, s.frames[1].At, s.reported)
			}
		}
		onlyErrors, named := true, false
		for _, a := range s.arrivals {
			if a.at > s.ended {
				continue
			}
			if a.what != "error" {
				onlyErrors = false
			} else if names(s.reported, a.err) {
				named = true
			}
		}
		if o.SendErr[0] || o.SendErr[1] {
			onlyErrors = false
		}
		inTime := first.at < s.frames[0].At+4900*ms && first.what == "error"
		if single := o.Kind == "read" || o.Kind == "write"; single && alone && inTime && !o.SendErr[0] {
			if !names(s.reported, first.err) {
				return bad("the device's error %v is reported as %q", first.err, s.reported)
			}
		} else if inTime && onlyErrors && !named && !single && s.ended < s.frames[len(s.frames)-1].At+4900*ms {
			return bad("the device's errors are reported as %q", s.reported)
		}
	}
	return nil
}

// names says whether the text names the class and the code.
func names(err error, e ref.ErrVal) bool {
	if err == nil {
		return false
	}
	s := err.Error()
	cl, co := bacerr.ErrorClass(e.Class).String(), bacerr.ErrorCode(e.Code).String()
	i := strings.Index(s, cl)
	return i >= 0 && strings.Contains(s[i+len(cl):], co)
}

// capacity makes 40 requests at once and returns how many are transmitted at
// once. All of them must get their answers.
func (x *opsRun) capacity(cl bacnet.Client) (int, error) {
	x.mu.Lock()
	x.probes = nil
	x.mu.Unlock()
	start := x.l.Now()
	err := parallel(40, func(i int) error {
		return within(6100*ms, "probe", func() error {
			out, err := cl.ReadProperty(x.c.Peers[0].device(1, 1476), readOf(2, uint32(i), 85, ref.ArrayAll))
			if err != nil {
				return fmt.Errorf("the request %d to a healthy device fails: %v", i, err)
			}
			if v, ok := out.Object.Properties[0].Data.(uint32); !ok || v != uint32(i+7) || uint32(out.Object.ID.Instance) != uint32(i) {
				return fmt.Errorf("request %d gets the answer %+v", i, out)
			}
			return nil
		})
	})
	x.mu.Lock()
	defer x.mu.Unlock()
	n := 0
	for _, f := range x.probes {
		if f.At == start {
			n++
		}
	}
	return n, err
}

func labelOps(r *engine.Rec, c opsCase) {
	for _, o := range c.Ops {
		r.Label("%s", o.Kind)
		r.LabelIf(c.Peers[o.Peer].Via != nil, "routed")
		r.LabelIf(o.Bad, "request that can't be expressed")
		seen := map[string]int{}
		for k, p := range o.Plan {
			for _, e := range p {
				seen[e.What]++
				r.LabelIf(e.DelayMs > 5000, "late reply")
				r.LabelIf(k == 1, "reply to a retransmission")
				r.Label("reply %s", e.What)
			}
		}
		r.LabelIf(seen["ok"] > 1, "duplicate reply")
		r.LabelIf(len(o.Plan[0]) == 0, "lost")
		r.LabelIf(o.SendErr[0] || o.SendErr[1], "send error")
	}
}

func init() {
	engine.Add("K01", "concurrent requests", "several requests are outstanding at once and a reply is late, lost, duplicated or an error", 1500, 60000,
		genOps(40, 3000),
		func(r *engine.Rec, c opsCase) error {
			labelOps(r, c)
			odd := false
			for _, o := range c.Ops {
				odd = odd || len(o.Plan[0]) != 1 || o.Plan[0][0].DelayMs > 5000 || o.Plan[0][0].What != "ok"
			}
			r.Hit(len(c.Ops) > 1 && odd)
			r.LabelIf(len(c.Ops) > 20, "more requests than slots")
			x := newOpsRun(c)
			return withClient(r, x.setup, func(cl bacnet.Client, l *sim.Link) error {
				before, err := x.capacity(cl)
				if err != nil {
					return fmt.Errorf("at first: %w", err)
				}
				if err := parallel(len(c.Ops), func(i int) error { return x.one(cl, i) }); err != nil {
					return err
				}
				if err := x.judge(); err != nil {
					return err
				}
				after, err := x.capacity(cl)
				if err != nil {
					return fmt.Errorf("after everything else: %w", err)
				}
				if after != before {
					return fmt.Errorf("at first %d requests could be outstanding at once, later only %d", before, after)
				}
				return nil
			})
		})

	// A few slots and many rounds, so that ids and slots are used again
	engine.Add("K01", "reuse of ids", "ids are used a second time", 12, 300,
		func(t *rapid.T) opsCase {
			c := opsCase{Peers: []peer{genPeer(t)}}
			n := rapid.IntRange(256, 400).Draw(t, "n")
			for i := 0; i < n; i++ {
				o := op{StartMs: i*rapid.IntRange(0, 400).Draw(t, "gap")/4 + i*60, Kind: rapid.SampledFrom(opKinds).Draw(t, "kind"), Props: 1}
				o.Plan[0] = genEvents(t, 2)
				for j := range o.Plan[0] {
					o.Plan[0][j].DelayMs %= 3000
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		func(r *engine.Rec, c opsCase) error {
			r.Hit(len(c.Ops) > 254)
			x := newOpsRun(c)
			return withClient(r, x.setup, func(cl bacnet.Client, l *sim.Link) error {
				if err := parallel(len(c.Ops), func(i int) error { return x.one(cl, i) }); err != nil {
					return err
				}
				return x.judge()
			})
		}, engine.Limit(60*time.Second))

	// Ids are given out in turns, the ones of the slow requests are skipped
	engine.Add("K01", "many requests beside slow ones", "more than 127 requests are answered while another one waits", 100, 6000,
		func(t *rapid.T) opsCase {
			c := opsCase{Peers: []peer{genPeer(t), genPeer(t)}}
			for i := rapid.IntRange(1, 6).Draw(t, "slow"); i > 0; i-- {
				o := op{StartMs: rapid.IntRange(0, 900).Draw(t, "start"), Kind: rapid.SampledFrom(opKinds).Draw(t, "kind"), Peer: rapid.IntRange(0, 1).Draw(t, "peer"), Props: 1}
				o.Plan[0] = []event{{DelayMs: rapid.IntRange(3500, 4900).Draw(t, "delay"), What: "ok"}}
				c.Ops = append(c.Ops, o)
			}
			kind, peer, gap := rapid.SampledFrom(opKinds).Draw(t, "kind"), rapid.IntRange(0, 1).Draw(t, "peer"), rapid.IntRange(8, 14).Draw(t, "gap")
			for i := rapid.IntRange(130, 400).Draw(t, "quick"); i > 0; i-- {
				o := op{StartMs: i * gap, Kind: kind, Peer: peer, Props: 1}
				o.Plan[0] = []event{{DelayMs: i % 3, What: "ok"}}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		func(r *engine.Rec, c opsCase) error {
			r.Hit(len(c.Ops) > 140)
			x := newOpsRun(c)
			return withClient(r, x.setup, func(cl bacnet.Client, l *sim.Link) error {
				if err := parallel(len(c.Ops), func(i int) error { return x.one(cl, i) }); err != nil {
					return err
				}
				return x.judge()
			})
		}, engine.Limit(60*time.Second))

	engine.Add("K02", "single requests", "there is a retransmission, an error or more than one reply", 3000, 120000,
		func(t *rapid.T) opsCase {
			c := genOps(3, 8000)(t)
			for i := range c.Ops {
				if rapid.Bool().Draw(t, "write") {
					c.Ops[i].Kind = pick(t, "kind", "write", "writemulti")
				}
				if chance(t, "senderr", 15) {
					c.Ops[i].SendErr = [2]bool{rapid.Bool().Draw(t, "first"), rapid.Bool().Draw(t, "second")}
				}
			}
			return c
		},
		func(r *engine.Rec, c opsCase) error {
			labelOps(r, c)
			for _, o := range c.Ops {
				r.Hit(len(o.Plan[0]) != 1 || o.Plan[0][0].What != "ok" || o.Plan[0][0].DelayMs > 5000)
			}
			x := newOpsRun(c)
			return withClient(r, x.setup, func(cl bacnet.Client, l *sim.Link) error {
				if err := parallel(len(c.Ops), func(i int) error { return x.one(cl, i) }); err != nil {
					return err
				}
				// Nothing is transmitted later on
				time.Sleep(30 * time.Second)
				n := 0
				for _, s := range x.st {
					n += len(s.frames)
				}
				if got := len(l.Frames()); got != n {
					return fmt.Errorf("%d frames instead of %d", got, n)
				}
				return x.judge()
			})
		})
}
