package checks

import (
	"fmt"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// datagram arrives at some time from some station.
type datagram struct {
	At   int    `json:"at"` // ms
	From byte   `json:"from"`
	Data []byte `json:"data"`
	N    int    `json:"n"` // how often
	// ID puts the id of the last request where an id belongs
	ID bool `json:"id,omitempty"`
}

type hostileTraffic struct {
	Ops       opsCase     `json:"ops"`
	Disc      []discovery `json:"disc"`
	Datagrams []datagram  `json:"datagrams"`
}

// genFrame makes a frame, mostly a damaged one.
func genFrame(t *rapid.T) []byte {
	id := byte(rapid.OneOf(rapid.IntRange(1, 25), rapid.IntRange(0, 255)).Draw(t, "id"))
	var apdu []byte
	head := ref.NPDU{Version: 1}
	if chance(t, "header", 40) {
		head = genNPDU(t, chance(t, "netmsg", 40))
		if head.Msg != nil && chance(t, "known", 70) {
			m := pick[byte](t, "msg", 0, 1, 0x12, 0x13)
			head.Msg = &m
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "what") {
	case 0, 1:
		apdu = ref.ReadAck(id, genValued(t, 1, 1, 4, true)[0])
	case 2, 3:
		apdu = ref.ReadMultiAck(id, genValued(t, 3, 3, 3, true))
	case 4:
		apdu = ref.SimpleAck(id, 15)
	case 5:
		apdu = ref.Error(id, 12, ref.ErrVal{Class: genU32(t, "class"), Code: genU32(t, "code")}, rapid.Bool().Draw(t, "enclosed"))
	case 6:
		apdu = ref.IAm(genInst(t, "inst"), genU32(t, "max"), 3, genU32(t, "vendor"))
	case 7:
		apdu = ref.WhoIs(int64(genInst(t, "low")), int64(genInst(t, "high")))
	case 8:
		apdu = genAPDU(t)
	default:
		apdu = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "apdu")
	}
	npdu := ref.Cat(head.Enc(), apdu)
	if chance(t, "damage", 50) {
		npdu = mutate(t, npdu)
	}
	var b []byte
	if chance(t, "fwd", 20) {
		b = forwarded(sim.IP(10, 0, 0, 1, 47808), npdu)
	} else {
		b = ref.BVLC(pick[byte](t, "fn", 0x0A, 0x0B, 0x0A, rapid.Byte().Draw(t, "f")), npdu)
	}
	if chance(t, "damage all", 25) {
		b = mutate(t, b)
	}
	return b
}

func init() {
	engine.Add("K03", "hostile traffic", "a datagram arrives while requests or discoveries are running", 4000, 250000,
		func(t *rapid.T) hostileTraffic {
			c := hostileTraffic{Ops: genOps(6, 3000)(t)}
			for i := rapid.IntRange(0, 2).Draw(t, "disc"); i > 0; i-- {
				c.Disc = append(c.Disc, discovery{Kind: pick(t, "dkind", "devices", "number", "routers"), At: rapid.IntRange(0, 300).Draw(t, "dat")})
			}
			for i := rapid.IntRange(1, 25).Draw(t, "datagrams"); i > 0; i-- {
				d := datagram{At: rapid.IntRange(0, 5000).Draw(t, "at"), From: rapid.Byte().Draw(t, "from"), Data: genFrame(t), N: 1}
				if chance(t, "many", 10) {
					d.N = rapid.IntRange(2, 60).Draw(t, "n")
				}
				c.Datagrams = append(c.Datagrams, d)
			}
			return c
		},
		func(r *engine.Rec, c hostileTraffic) error {
			r.Hit(len(c.Ops.Ops)+len(c.Disc) > 0 && len(c.Datagrams) > 0)
			for _, d := range c.Disc {
				r.Label("discovery %s", d.Kind)
			}
			for _, d := range c.Datagrams {
				fn, rest, err := ref.ParseBVLC(d.Data)
				if fn == 4 && len(rest) > 6 {
					rest = rest[6:]
					r.Label("forwarded")
				}
				n, apdu, err2 := ref.ParseNPDU(rest)
				switch {
				case err != nil || err2 != nil:
					r.Label("malformed header")
				case n.Msg != nil:
					r.Label("network message")
				case len(apdu) > 0:
					r.Label("pdu type %x", apdu[0]>>4)
				}
				r.LabelIf(d.N > 1, "repeated")
			}
			x := newOpsRun(c.Ops)
			healthy := false
			setup := func(l *sim.Link) {
				x.setup(l)
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil || fr.Net.Msg != nil || fr.Req.Type != 0 {
						return nil
					}
					x.mu.Lock()
					ok := healthy
					x.mu.Unlock()
					if i := int(fr.Req.Objs[0].Inst) - 1000; i >= 0 && i < len(c.Ops.Ops) && !ok {
						o := c.Ops.Ops[i]
						for _, e := range o.Plan[0] {
							l.InjectLater(time.Duration(e.DelayMs)*ms, c.Ops.Peers[o.Peer].ip(), c.Ops.Peers[o.Peer].reply(o.apdu(e, fr.Req.Invoke, i)))
						}
						return nil
					}
					return x.onSend(f)
				}
			}
			return withClient(r, setup, func(cl bacnet.Client, l *sim.Link) error {
				for _, d := range c.Datagrams {
					for i := 0; i < d.N; i++ {
						l.InjectLater(time.Duration(d.At)*ms, sim.IP(192, 168, 1, d.From, 47808), d.Data)
					}
				}
				err := parallel(len(c.Ops.Ops)+len(c.Disc), func(i int) error {
					if i < len(c.Ops.Ops) {
						// Whatever it returns, it must return
						o := c.Ops.Ops[i]
						time.Sleep(time.Duration(o.StartMs) * ms)
						return within(o.limit(), "request "+o.Kind, func() error {
							dev := c.Ops.Peers[o.Peer].device(1, 1476)
							o.call(cl, dev, i)
							return nil
						})
					}
					d := c.Disc[i-len(c.Ops.Ops)]
					time.Sleep(time.Duration(d.At) * 10 * ms)
					return within(overallTime+100*ms, "discovery "+d.Kind, func() error {
						switch d.Kind {
						case "devices":
							devs, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: d.Low, High: d.High})
							if err != nil {
								return fmt.Errorf("discovery fails: %v", err)
							}
							seen := map[btypes.ObjectInstance]bool{}
							for _, dev := range devs {
								if seen[dev.ID.Instance] {
									return fmt.Errorf("device %d is reported twice", dev.ID.Instance)
								}
								seen[dev.ID.Instance] = true
							}
						case "number":
							cl.WhatIsNetworkNumber()
						default:
							cl.WhoIsRouterToNetwork()
						}
						return nil
					})
				})
				if err != nil {
					return err
				}
				time.Sleep(30 * time.Second)
				x.mu.Lock()
				healthy = true
				x.mu.Unlock()
				n, err := x.capacity(cl)
				if err != nil {
					return fmt.Errorf("after hostile traffic: %w", err)
				}
				if n < 20 {
					return fmt.Errorf("after hostile traffic only %d requests can be outstanding at once", n)
				}
				return nil
			})
		})

	// Everything at once; this is built with the race detector
	engine.Add("R01", "everything at once", "requests, discoveries and traffic overlap", 1200, 40000,
		func(t *rapid.T) raceCase {
			c := raceCase{Ops: genOps(14, 30)(t)}
			for i := range c.Ops.Ops {
				o := &c.Ops.Ops[i]
				o.StartMs = o.StartMs % 3
				for k := range o.Plan {
					for j := range o.Plan[k] {
						o.Plan[k][j].DelayMs %= 4
					}
				}
			}
			for i := rapid.IntRange(0, 5).Draw(t, "disc"); i > 0; i-- {
				c.Disc = append(c.Disc, pick(t, "dkind", "devices", "devices", "number", "routers", "scan", "iam"))
			}
			for i := rapid.IntRange(0, 14).Draw(t, "anns"); i > 0; i-- {
				a := genAnnouncement(t, []string{"iam", "iam", "network is", "router", "ack", "other"}, rapid.Uint32Range(0, 50))
				a.At = rapid.IntRange(0, 2).Draw(t, "when")
				c.Anns = append(c.Anns, a)
			}
			c.CloseAt = rapid.OneOf(rapid.Just(-1), rapid.IntRange(0, 4)).Draw(t, "close")
			c.Closes = rapid.IntRange(1, 3).Draw(t, "closes")
			return c
		},
		func(r *engine.Rec, c raceCase) error {
			r.Hit(len(c.Ops.Ops)+len(c.Disc) > 1)
			r.LabelIf(c.CloseAt >= 0, "closed meanwhile")
			for _, d := range c.Disc {
				r.Label("%s", d)
			}
			scanned := sim.NewDevice(4)
			var list []ref.Val
			for i := uint32(0); i < 9; i++ {
				list = append(list, ref.OID(2, i))
				scanned.Set(2, i, 77, ref.Str("n"))
				scanned.Set(2, i, 28, ref.Str("d"))
			}
			scanned.SetArray(8, 4, 76, list...)
			setup := func(l *sim.Link) {
				var mu sync.Mutex
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil || fr.Net.Msg != nil || fr.Req.Type != 0 || len(fr.Req.Objs) == 0 {
						return nil
					}
					i := int(fr.Req.Objs[0].Inst) - 1000
					if i < 0 || i >= len(c.Ops.Ops) {
						l.Inject(sim.IP(192, 168, 1, 44, 47808), sim.Reply(nil, scanned.Answer(fr.Req)))
						return nil
					}
					mu.Lock()
					defer mu.Unlock()
					o := c.Ops.Ops[i]
					for _, e := range o.Plan[0] {
						l.InjectLater(time.Duration(e.DelayMs)*ms, c.Ops.Peers[o.Peer].ip(), c.Ops.Peers[o.Peer].reply(o.apdu(e, fr.Req.Invoke, i)))
					}
					return nil
				}
			}
			return withClient(r, setup, func(cl bacnet.Client, l *sim.Link) error {
				for _, a := range c.Anns {
					b, src := a.frame()
					l.InjectLater(time.Duration(a.At)*ms, src, b)
				}
				// The devices are shared by all requests
				var devs []btypes.Device
				for _, p := range c.Ops.Peers {
					devs = append(devs, p.device(1, 1476))
				}
				scan := peer{Host: 44, Port: 47808}.device(4, 480)
				all := len(c.Ops.Ops) + len(c.Disc)
				return parallel(all+c.Closes, func(i int) error {
					if i >= all {
						if c.CloseAt >= 0 {
							time.Sleep(time.Duration(c.CloseAt) * ms)
							if i == all {
								cl.ClientClose(false)
							} else {
								cl.Close()
							}
						}
						return nil
					}
					if i < len(c.Ops.Ops) {
						o := c.Ops.Ops[i]
						time.Sleep(time.Duration(o.StartMs) * ms)
						o.call(cl, devs[o.Peer], i)
						return nil
					}
					switch c.Disc[i-len(c.Ops.Ops)] {
					case "devices":
						cl.WhoIs(&bacnet.WhoIsOpts{Low: 0, High: 40})
					case "number":
						cl.WhatIsNetworkNumber()
					case "routers":
						cl.WhoIsRouterToNetwork()
					case "scan":
						cl.Objects(scan)
					case "iam":
						cl.IAm(devs[0].Addr, btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: 7}, MaxApdu: 1476, Segmentation: 3})
					}
					return nil
				})
			})
		}, engine.Limit(60*time.Second))
}

type raceCase struct {
	Ops     opsCase        `json:"ops"`
	Disc    []string       `json:"disc"`
	Anns    []announcement `json:"anns"`
	CloseAt int            `json:"close_at"` // ms, -1 never
	Closes  int            `json:"closes"`
}
