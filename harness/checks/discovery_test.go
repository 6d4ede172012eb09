package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// announcement is something that arrives during a discovery.
type announcement struct {
	// At in steps of 10 ms, from the start; -1 if it arrives while the request
	// of the first discovery is being sent
	At   int    `json:"at"`
	Kind string `json:"kind"` // iam, network is, router, bad iam, whois, other, ack
	From peer   `json:"from"`
	Fwd  bool   `json:"fwd,omitempty"`
	Fn   byte   `json:"fn"`
	NPDU ref.NPDU

	Inst   uint32   `json:"inst,omitempty"`
	Max    uint32   `json:"max,omitempty"`
	Seg    uint32   `json:"seg,omitempty"`
	Vendor uint32   `json:"vendor,omitempty"`
	Nets   []uint16 `json:"nets,omitempty"`
	Raw    []byte   `json:"raw,omitempty"`
	// Times is set if as many devices with consecutive instances announce
	// themselves at once
	Times int `json:"times,omitempty"`
}

// discovery is one request.
type discovery struct {
	At     int    `json:"at"`   // steps of 10 ms
	Kind   string `json:"kind"` // devices, number, routers
	Low    int    `json:"low"`
	High   int    `json:"high"`
	Global bool   `json:"global,omitempty"`
	Net    uint16 `json:"net,omitempty"`
	Fails  bool   `json:"fails,omitempty"` // it can't be sent
}

type discoveryCase struct {
	Req  []discovery    `json:"req"`
	Anns []announcement `json:"anns"`
}

func genAnnouncement(t *rapid.T, kinds []string, insts *rapid.Generator[uint32]) announcement {
	a := announcement{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), From: genPeer(t), Fn: pick[byte](t, "fn", 0x0A, 0x0B, 0x0B), Fwd: chance(t, "fwd", 20)}
	a.At = rapid.OneOf(rapid.IntRange(0, 150), rapid.IntRange(0, 400), rapid.IntRange(0, 1100)).Draw(t, "at")
	a.NPDU = ref.NPDU{Version: 1, Prio: byte(rapid.IntRange(0, 3).Draw(t, "prio")), Src: a.From.Via}
	if chance(t, "dst", 25) {
		a.NPDU.Dst, a.NPDU.Hop = &ref.Net{Net: 65535}, rapid.Byte().Draw(t, "hop")
	}
	a.Inst = insts.Draw(t, "inst")
	switch a.Kind {
	case "iam":
		a.Max, a.Seg, a.Vendor = pick[uint32](t, "max", 50, 206, 480, 1024, 1476, 0, 65535, 4294967295), uint32(rapid.IntRange(0, 3).Draw(t, "seg")), rapid.OneOf(rapid.Uint32Range(0, 1000), rapid.Uint32Range(0, 65535)).Draw(t, "vendor")
	case "bad iam":
		good := ref.IAm(a.Inst, 1476, 3, 7)
		if rapid.Bool().Draw(t, "cut") {
			a.Raw = good[:rapid.IntRange(2, len(good)-1).Draw(t, "length")]
		} else {
			// fields of other datatypes
			f := [][]byte{ref.OID(8, a.Inst).Enc(), ref.Uint(1476).Enc(), ref.Enum(3).Enc(), ref.Uint(7).Enc()}
			i := rapid.IntRange(0, 3).Draw(t, "field")
			f[i] = pick(t, "wrong", ref.Str("x"), ref.Real(1), ref.Null(), ref.Bool(true), ref.Double(2)).Enc()
			a.Raw = ref.Cat(good[:2], f[0], f[1], f[2], f[3])
		}
	case "network is":
		a.Nets = []uint16{rapid.Uint16Range(1, 65534).Draw(t, "n")}
	case "router":
		a.Nets = rapid.SliceOfN(rapid.OneOf(rapid.Uint16Range(1, 65534), rapid.Uint16Range(1, 4)), 1, 6).Draw(t, "nets")
	case "version":
		// of another version of the protocol
		a.NPDU.Version = otherVersion(rapid.Byte().Draw(t, "v"))
		switch rapid.IntRange(0, 2).Draw(t, "what") {
		case 0:
			a.Raw = ref.IAm(a.Inst, 1476, 3, 7)
		case 1:
			m := byte(0x13)
			a.NPDU.Msg, a.Raw = &m, []byte{0, 5, 1}
		default:
			m := byte(1)
			a.NPDU.Msg, a.Raw = &m, []byte{0, 5, 0, 6}
		}
	case "whois":
		a.Raw = ref.WhoIs(0, int64(a.Inst))
	case "ack":
		a.Raw = pick(t, "ack", ref.SimpleAck(byte(a.Inst), 15), ref.Error(byte(a.Inst), 12, ref.ErrVal{Class: 1, Code: 31}, true), ref.ReadAck(byte(a.Inst), ref.Obj{Type: 8, Inst: a.Inst, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 77, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Str("x")}}}}))
	default:
		a.Raw = pick(t, "other", ref.Cat([]byte{0x10, 1}, ref.CtxUint(0, 5)), []byte{0x10, 7, 1, 2, 3}, []byte{0x60, 3, 1}, []byte{0xF0, 1, 2}, ref.ConfirmedHeader(9, 12))
	}
	return a
}

// frame makes the frame of the announcement and the address it comes from.
func (a announcement) frame() ([]byte, btypes.Address) {
	n := a.NPDU
	var body []byte
	switch a.Kind {
	case "iam":
		body = ref.IAm(a.Inst, a.Max, a.Seg, a.Vendor)
	case "network is":
		m := byte(0x13)
		n.Msg = &m
		body = []byte{byte(a.Nets[0] >> 8), byte(a.Nets[0]), 1}
	case "router":
		m := byte(1)
		n.Msg = &m
		for _, x := range a.Nets {
			body = append(body, byte(x>>8), byte(x))
		}
	default:
		body = a.Raw
	}
	npdu := ref.Cat(n.Enc(), body)
	src := a.From.ip()
	if a.Fwd {
		return forwarded(src, npdu), sim.IP(192, 168, 1, 1, 47808)
	}
	return ref.BVLC(a.Fn, npdu), src
}

// arrival of an announcement, in the order of time.
type heard struct {
	announcement
	at time.Duration
}

// arrayAll asks for everything.
const arrayAll = int(ref.ArrayAll)

const quietTime, overallTime = 2 * time.Second, 10 * time.Second

// window computes when a subscription ends at the earliest and at the latest.
func window(start time.Duration, hs []heard, counts, may func(announcement) bool) (soonest, latest time.Duration) {
	soonest, latest = start+quietTime, start+quietTime
	for _, h := range hs {
		if h.at < start {
			continue
		}
		if h.at < soonest && counts(h.announcement) {
			soonest = min(h.at+quietTime, start+overallTime)
		}
		if h.at < latest && (counts(h.announcement) || may(h.announcement)) {
			latest = min(h.at+quietTime, start+overallTime)
		}
	}
	return soonest, latest
}

// noise may or may not prolong the wait of a discovery.
func noise(a announcement) bool {
	return a.Kind == "network is" || a.Kind == "router" || a.Kind == "iam"
}

type discoveryRun struct {
	c    discoveryCase
	l    *sim.Link
	mu   sync.Mutex
	sync time.Duration
	sent bool
	bad  error
}

func (x *discoveryRun) setup(l *sim.Link) {
	x.l = l
	x.sync = -1
	l.OnSend = func(f sim.Frame) error {
		x.mu.Lock()
		defer x.mu.Unlock()
		i := x.request(f)
		if i < 0 {
			return nil
		}
		if x.c.Req[i].Fails {
			return fmt.Errorf("sending failed")
		}
		if i == 0 && !x.sent {
			x.sent, x.sync = true, l.Now()
			for _, a := range x.c.Anns {
				if a.At < 0 {
					b, src := a.frame()
					l.Inject(src, b)
				}
			}
		}
		return nil
	}
}

// request finds out which discovery the frame belongs to. The time tells.
func (x *discoveryRun) request(f sim.Frame) int {
	best := -1
	for i := range x.c.Req {
		if s := x.start(i); s <= f.At && f.At < s+ms && (best < 0 || s > x.start(best)) {
			best = i
		}
	}
	if best >= 0 {
		return best
	}
	if x.bad == nil {
		x.bad = fmt.Errorf("unexpected frame %x at %v", f.Data, f.At)
	}
	return -1
}

func (x *discoveryRun) start(i int) time.Duration {
	return time.Duration(x.c.Req[i].At)*10*ms + time.Duration(i)*time.Microsecond
}

// heardAll is what arrives when.
func (x *discoveryRun) heardAll() []heard {
	var hs []heard
	for i, a := range x.c.Anns {
		// no two events have the same time
		at := time.Duration(a.At)*10*ms + time.Duration(i+20)*100*time.Microsecond/2 + 777*time.Nanosecond
		if a.At < 0 {
			if x.sync < 0 {
				continue
			}
			at = x.sync
		}
		hs = append(hs, heard{a, at})
		for k := 1; k < a.Times; k++ {
			one := a
			one.Inst = min(a.Inst+uint32(k), 0x3FFFFF)
			hs = append(hs, heard{one, at + time.Duration(k)*7})
		}
	}
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].at < hs[j].at })
	return hs
}

func (x *discoveryRun) inject() {
	for _, h := range x.heardAll() {
		b, src := h.frame()
		if h.At >= 0 {
			x.l.InjectLater(h.at-x.l.Now(), src, b)
		}
	}
}

// checkBroadcast checks the frame of a discovery.
func (x *discoveryRun) checkBroadcast(i int, want ref.NPDU, apdu []byte) error {
	var mine []sim.Frame
	for _, f := range x.l.Frames() {
		if x.request(f) == i {
			mine = append(mine, f)
		}
	}
	if len(mine) != 1 {
		return fmt.Errorf("discovery %d sends %d frames", i, len(mine))
	}
	if err := sameBytes(fmt.Sprintf("frame of discovery %d", i), ref.BVLC(0x0B, ref.Cat(want.Enc(), apdu)), mine[0].Data); err != nil {
		return err
	}
	if bc := x.l.GetBroadcastAddress(); string(bc.Mac) != string(mine[0].Dest.Mac) {
		return fmt.Errorf("the broadcast goes to %v", mine[0].Dest.Mac)
	}
	return nil
}

// devices runs one device discovery and checks what it returns.
func (x *discoveryRun) devices(cl bacnet.Client, i int) error {
	d := x.c.Req[i]
	opts := &bacnet.WhoIsOpts{Low: d.Low, High: d.High, GlobalBroadcast: d.Global, NetworkNumber: d.Net}
	before := *opts
	var devs []btypes.Device
	var err error
	start := x.l.Now()
	e := within(overallTime+100*ms, fmt.Sprintf("discovery %d", i), func() error {
		devs, err = cl.WhoIs(opts)
		return nil
	})
	end := x.l.Now()
	if e != nil {
		return e
	}
	if *opts != before {
		return fmt.Errorf("the options %+v are changed to %+v", before, *opts)
	}
	if d.Fails {
		if err == nil {
			return fmt.Errorf("discovery %d could not be sent but returns no error", i)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("discovery %d fails: %v", i, err)
	}
	low, high := int64(d.Low), int64(d.High)
	if d.Low <= 0 || d.Low == arrayAll {
		low = 0
	}
	if d.High <= 0 || d.High == arrayAll {
		high = 4194304
	}
	n := ref.NPDU{Version: 1, Hop: 255}
	net := d.Net
	if d.Global {
		net = 65535
	}
	if net != 0 {
		n.Dst = &ref.Net{Net: net}
	}
	apdu := ref.WhoIs(low, high)
	if high >= 4194303 || low >= 4194303 {
		apdu = ref.WhoIs(-1, -1)
	}
	if err := x.checkBroadcast(i, n, apdu); err != nil {
		return err
	}
	in := func(a announcement) bool {
		return a.Kind == "iam" && int64(a.Inst) >= low && int64(a.Inst) <= high
	}
	hs := x.heardAll()
	soonest, latest := window(start, hs, in, func(a announcement) bool { return a.Kind == "network is" || a.Kind == "router" })
	if end < soonest || end > latest {
		return fmt.Errorf("discovery %d of %v ends at %v, not within %v..%v", i, start, end, soonest, latest)
	}
	got := map[uint32]btypes.Device{}
	for _, dev := range devs {
		inst := uint32(dev.ID.Instance)
		if _, twice := got[inst]; twice {
			return fmt.Errorf("discovery %d reports device %d twice", i, inst)
		}
		got[inst] = dev
		ok, seen := false, false
		var why error
		for k := range hs {
			h := &hs[k]
			if h.Inst == inst && in(h.announcement) && h.at >= start && h.at <= end {
				seen = true
				if why = h.described(dev); why == nil {
					ok = true
				}
			}
		}
		if !seen {
			return fmt.Errorf("discovery %d for %d..%d reports the device %d, which didn't announce itself", i, low, high, inst)
		}
		if !ok {
			return fmt.Errorf("discovery %d: device %d: %w", i, inst, why)
		}
	}
	for _, h := range hs {
		if _, there := got[h.Inst]; !there && in(h.announcement) && h.at >= start && h.at < soonest {
			return fmt.Errorf("discovery %d for %d..%d of %v..%v misses the device %d announced at %v", i, low, high, start, end, h.Inst, h.at)
		}
	}
	return nil
}

// described says whether the device is what was announced.
func (a announcement) described(d btypes.Device) error {
	wrong := func(what string, got, want any) error { return fmt.Errorf("%s is %v instead of %v", what, got, want) }
	want := a.From.ip()
	var net uint16
	var adr []byte
	if a.From.Via != nil {
		net, adr = a.From.Via.Net, a.From.Via.Adr
	}
	mstp := 0
	if len(adr) > 0 {
		mstp = int(adr[0])
	}
	ip := fmt.Sprintf("%d.%d.%d.%d", want.Mac[0], want.Mac[1], want.Mac[2], want.Mac[3])
	switch {
	case d.ID.Type != 8 || uint32(d.ID.Instance) != a.Inst || uint32(d.DeviceID) != a.Inst:
		return wrong("id", fmt.Sprint(d.ID, d.DeviceID), a.Inst)
	case d.MaxApdu != a.Max:
		return wrong("size", d.MaxApdu, a.Max)
	case uint32(d.Segmentation) != a.Seg:
		return wrong("segmentation", d.Segmentation, a.Seg)
	case d.Vendor != a.Vendor:
		return wrong("vendor", d.Vendor, a.Vendor)
	case string(d.Addr.Mac) != string(want.Mac) || d.Addr.MacLen != 6:
		return wrong("address", d.Addr.Mac, want.Mac)
	case d.Ip != ip || d.Port != int(a.From.Port):
		return wrong("ip", fmt.Sprint(d.Ip, d.Port), fmt.Sprint(ip, a.From.Port))
	case d.Addr.Net != net || d.NetworkNumber != int(net):
		return wrong("network", fmt.Sprint(d.Addr.Net, d.NetworkNumber), net)
	case string(d.Addr.Adr) != string(adr):
		return wrong("hardware address", d.Addr.Adr, adr)
	case d.MacMSTP != mstp:
		return wrong("MS/TP address", d.MacMSTP, mstp)
	}
	return nil
}

// networks runs one network discovery.
func (x *discoveryRun) networks(cl bacnet.Client, i int) error {
	d := x.c.Req[i]
	start := x.l.Now()
	var got []uint16
	kind, msg := "network is", byte(0x12)
	if d.Kind == "routers" {
		kind, msg = "router", 0
	}
	err := within(overallTime+100*ms, fmt.Sprintf("discovery %d", i), func() error {
		if d.Kind == "number" {
			for _, a := range cl.WhatIsNetworkNumber() {
				got = append(got, a.Net)
			}
			return nil
		}
		r := cl.WhoIsRouterToNetwork()
		if r == nil {
			return nil
		}
		for _, a := range *r {
			got = append(got, a.Net)
		}
		return nil
	})
	end := x.l.Now()
	if err != nil {
		return err
	}
	if !d.Fails {
		if err := x.checkBroadcast(i, ref.NPDU{Version: 1, Hop: 255, Msg: &msg}, nil); err != nil {
			return err
		}
	}
	hs := x.heardAll()
	// Announcements of devices may keep it waiting, too
	soonest, latest := window(start, hs, func(a announcement) bool { return a.Kind == kind }, noise)
	if end < soonest && !d.Fails || end > latest {
		return fmt.Errorf("discovery %d of %v ends at %v, not within %v..%v", i, start, end, soonest, latest)
	}
	// All that had to be heard, in order, and nothing that wasn't heard
	var must, may []uint16
	for _, h := range hs {
		if h.Kind == kind && h.at >= start {
			if h.at < soonest && !d.Fails {
				must = append(must, h.Nets...)
			}
			if h.at <= end {
				may = append(may, h.Nets...)
			}
		}
	}
	for n, k := range counts(got) {
		if most := counts(may)[n]; k > most {
			return fmt.Errorf("discovery %d (%s) of %v..%v returns network %d %d times, it was announced %d times: %v", i, d.Kind, start, end, n, k, most, got)
		}
	}
	g, m, all := distinct(got), distinct(must), distinct(may)
	if len(g) < len(m) || len(g) > len(all) || strings.Join(g[:len(m)], " ") != strings.Join(m, " ") || strings.Join(g, " ") != strings.Join(all[:len(g)], " ") {
		return fmt.Errorf("discovery %d (%s) of %v..%v returns the networks %v instead of %v (at most %v)", i, d.Kind, start, end, got, m, all)
	}
	return nil
}

func counts(ns []uint16) map[uint16]int {
	out := map[uint16]int{}
	for _, n := range ns {
		out[n]++
	}
	return out
}

func distinct(ns []uint16) (out []string) {
	seen := map[uint16]bool{}
	for _, n := range ns {
		if !seen[n] {
			seen[n] = true
			out = append(out, fmt.Sprint(n))
		}
	}
	return out
}

func (x *discoveryRun) run(r *engine.Rec) error {
	c := x.c
	for _, a := range c.Anns {
		r.Label("%s", a.Kind)
		r.LabelIf(a.Fwd, "forwarded")
		r.LabelIf(a.From.Via != nil, "routed")
		r.LabelIf(a.At < 0, "while sending")
	}
	return withClient(r, x.setup, func(cl bacnet.Client, l *sim.Link) error {
		x.inject()
		err := parallel(len(c.Req), func(i int) error {
			time.Sleep(x.start(i) - l.Now())
			if c.Req[i].Kind == "devices" {
				return x.devices(cl, i)
			}
			return x.networks(cl, i)
		})
		if err != nil {
			return err
		}
		time.Sleep(15 * time.Second)
		return x.bad
	})
}

func init() {
	engine.Add("K07", "schedules of announcements", "several announcements arrive, one of them outside the range, late, malformed, twice or of another kind", 6000, 300000,
		func(t *rapid.T) discoveryCase {
			var c discoveryCase
			base := genInst(t, "base")
			near := rapid.Custom(func(t *rapid.T) uint32 {
				return uint32(max(0, min(0x3FFFFF, int64(base)+int64(rapid.IntRange(-6, 6).Draw(t, "d")))))
			})
			for i := pick(t, "reqs", 1, 1, 1, 2, 3); i > 0; i-- {
				d := discovery{Kind: "devices", Low: int(near.Draw(t, "low")), High: int(near.Draw(t, "high")), Fails: chance(t, "fails", 4)}
				if d.Low > d.High && !chance(t, "reversed", 8) {
					d.Low, d.High = d.High, d.Low
				}
				switch rapid.IntRange(0, 7).Draw(t, "range") {
				case 0:
					d.Low, d.High = 0, 0
				case 1:
					d.Low, d.High = pick(t, "l", -1, arrayAll, -7, 0), pick(t, "h", -1, arrayAll, -9, 0, 4194303, 4194304)
				case 2:
					d.High = d.Low
				}
				if len(c.Req) > 0 {
					d.At = rapid.IntRange(0, 500).Draw(t, "at")
				}
				if chance(t, "net", 40) {
					d.Net = rapid.Uint16().Draw(t, "number")
				}
				d.Global = chance(t, "global", 20)
				c.Req = append(c.Req, d)
			}
			insts := rapid.OneOf(near, near, near, rapid.Uint32Range(0, 0x3FFFFF))
			for i := rapid.IntRange(0, 14).Draw(t, "anns"); i > 0; i-- {
				a := genAnnouncement(t, []string{"iam", "iam", "iam", "iam", "iam", "bad iam", "network is", "router", "whois", "other", "ack", "version"}, insts)
				if chance(t, "sync", 15) {
					a.At = -1
				} else if a.Kind == "iam" && i == 1 && chance(t, "crowd", 4) {
					a.Times = rapid.IntRange(2, 700).Draw(t, "times")
					c.Req[0].Low, c.Req[0].High = 0, 0
				}
				c.Anns = append(c.Anns, a)
			}
			return c
		},
		func(r *engine.Rec, c discoveryCase) error {
			n, odd := 0, false
			seen := map[uint32]bool{}
			for _, a := range c.Anns {
				r.LabelIf(a.Times > 250, "more than 250 devices")
				if a.Kind != "iam" {
					odd = true
					continue
				}
				n++
				odd = odd || seen[a.Inst] || a.At > 200 || a.At < 0 || int64(a.Inst) < int64(c.Req[0].Low) || int64(a.Inst) > int64(c.Req[0].High)
				seen[a.Inst] = true
			}
			r.Hit(n > 1 && odd)
			x := &discoveryRun{c: c}
			return x.run(r)
		})

	engine.Add("K08", "schedules of announcements", "several networks are announced among other traffic, or the announcements are spread over more than the quiet period", 5000, 250000,
		func(t *rapid.T) discoveryCase {
			var c discoveryCase
			for i := pick(t, "reqs", 1, 1, 2, 3); i > 0; i-- {
				d := discovery{Kind: pick(t, "what", "number", "routers"), Fails: chance(t, "fails", 3)}
				if len(c.Req) > 0 {
					d.At = rapid.IntRange(0, 500).Draw(t, "at")
				}
				c.Req = append(c.Req, d)
			}
			for i := rapid.IntRange(0, 14).Draw(t, "anns"); i > 0; i-- {
				a := genAnnouncement(t, []string{"network is", "network is", "network is", "router", "router", "router", "iam", "bad iam", "whois", "other", "ack", "version"}, rapid.Uint32Range(0, 70000))
				if a.Kind == "router" && chance(t, "crowd", 4) {
					a.Nets = sliceUpTo(t, "manynets", rapid.Uint16Range(1, 65534), 1, 730)
				}
				if i == 1 && chance(t, "sync", 30) {
					a.At = -1
				}
				c.Anns = append(c.Anns, a)
			}
			return c
		},
		func(r *engine.Rec, c discoveryCase) error {
			nets, others, late := 0, 0, 0
			for _, a := range c.Anns {
				if a.Kind == "network is" || a.Kind == "router" {
					nets++
					if a.At > 200 {
						late++
					}
				} else {
					others++
				}
			}
			for _, d := range c.Req {
				r.Label("query %s", d.Kind)
			}
			r.Hit(nets > 1 && (others > 0 || late > 0))
			x := &discoveryRun{c: c}
			return x.run(r)
		})
}
