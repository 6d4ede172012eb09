package checks

import (
	"fmt"
	"runtime"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// ---------------------------------------------------------------- K14

// task is something a client does again and again.
type task struct {
	Kind string `json:"kind"`
	Peer peer   `json:"peer"`
	// Replies to each transmission
	Replies []event `json:"replies"`
	Fails   bool    `json:"fails,omitempty"` // sending fails
	Bad     bool    `json:"bad,omitempty"`   // the request can't be expressed
	// Heard are devices or networks that announce themselves
	Heard []event `json:"heard,omitempty"`
	Low   int     `json:"low"`
	High  int     `json:"high"`
	Frame []byte  `json:"frame,omitempty"`
	Par   bool    `json:"par,omitempty"` // at the same time as the next one
}

type leakCase struct {
	Tasks []task `json:"tasks"`
	// Close is set if it is a new client each time
	Close bool `json:"close"`
}

func genTask(t *rapid.T) task {
	k := task{Kind: pick(t, "kind", "read", "read", "readmulti", "write", "writemulti", "devices", "devices", "number", "routers", "idle", "idle iam", "iam"), Peer: genPeer(t)}
	switch k.Kind {
	case "read", "readmulti", "write", "writemulti":
		k.Replies = genEvents(t, 3)
		k.Fails = chance(t, "fails", 10)
		k.Bad = chance(t, "bad", 10)
	case "devices", "number", "routers":
		k.Heard = genEvents(t, 4)
		k.Fails = chance(t, "fails", 10)
		if rapid.Bool().Draw(t, "range") {
			k.Low = rapid.IntRange(0, 500).Draw(t, "low")
			k.High = k.Low + rapid.IntRange(0, 3000).Draw(t, "width")
		}
	case "idle":
		k.Frame = genFrame(t)
	}
	k.Par = chance(t, "par", 20)
	return k
}

func (k task) run(cl bacnet.Client, l *sim.Link, i int) error {
	o := op{Kind: k.Kind, Props: 2, Bad: k.Bad}
	src := k.Peer.ip()
	return within(2*time.Minute, "task "+k.Kind, func() error {
		switch k.Kind {
		case "read", "readmulti", "write", "writemulti":
			_, _, err := o.call(cl, k.Peer.device(5, 1476), i)
			return err
		case "devices", "number", "routers":
			for j, e := range k.Heard {
				var apdu []byte
				n := ref.NPDU{Version: 1, Src: k.Peer.Via}
				num := uint16(j + 1)
				switch k.Kind {
				case "devices":
					apdu = ref.IAm(uint32(300*j+100), 480, 3, 9)
				case "number":
					m := byte(0x13)
					n.Msg, apdu = &m, []byte{byte(num >> 8), byte(num), 1}
				default:
					m := byte(0x01)
					n.Msg, apdu = &m, []byte{byte(num >> 8), byte(num), 9, 9}
				}
				l.InjectLater(time.Duration(e.DelayMs)*ms, src, ref.BVLC(0x0A, ref.Cat(n.Enc(), apdu)))
			}
			switch k.Kind {
			case "devices":
				cl.WhoIs(&bacnet.WhoIsOpts{Low: k.Low, High: k.High, GlobalBroadcast: true})
			case "number":
				cl.WhatIsNetworkNumber()
			default:
				cl.WhoIsRouterToNetwork()
			}
		case "iam":
			cl.IAm(k.Peer.ip(), btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: 7}, MaxApdu: 480})
		case "idle":
			l.Inject(src, k.Frame)
			time.Sleep(100 * ms)
		case "idle iam":
			l.Inject(src, k.Peer.reply(ref.IAm(uint32(i), 480, 3, 9)))
			time.Sleep(100 * ms)
		}
		return nil
	})
}

// reply answers a request of the task.
func (k task) reply(l *sim.Link, f sim.Frame, sent int) error {
	if k.Fails {
		return fmt.Errorf("sending failed")
	}
	fr, err := ref.ParseFrame(f.Data)
	if err != nil || len(fr.Req.Objs) == 0 {
		return nil
	}
	o := op{Kind: k.Kind, Props: 2}
	i := int(fr.Req.Objs[0].Inst) - 1000
	for _, e := range k.Replies {
		l.InjectLater(time.Duration(e.DelayMs)*ms, k.Peer.ip(), k.Peer.reply(o.apdu(e, fr.Req.Invoke, i)))
	}
	return nil
}

type usage struct{ routines, objects, bytes int }

func (u usage) String() string {
	return fmt.Sprintf("%d goroutines, %d objects of %d octets", u.routines, u.objects, u.bytes)
}

// used measures what is in use while nothing is going on.
func used() usage {
	time.Sleep(time.Minute)
	synctest.Wait()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return usage{runtime.NumGoroutine(), int(m.HeapObjects), int(m.HeapAlloc)}
}

func (c leakCase) round(cl bacnet.Client, l *sim.Link) error {
	var wait []chan error
	var err error
	for i, k := range c.Tasks {
		done := make(chan error, 1)
		wait = append(wait, done)
		go func() { done <- k.run(cl, l, i) }()
		if !k.Par {
			for _, d := range wait {
				if e := <-d; e != nil && err == nil {
					err = e
				}
			}
			wait = nil
		}
	}
	for _, d := range wait {
		if e := <-d; e != nil && err == nil {
			err = e
		}
	}
	return err
}

// capacity is how many requests can be outstanding at once.
func capacity(cl bacnet.Client, l *sim.Link) (int, error) {
	var mu sync.Mutex
	n, start := 0, l.Now()
	was := l.OnSend
	defer func() { l.OnSend = was }()
	l.OnSend = func(f sim.Frame) error {
		mu.Lock()
		defer mu.Unlock()
		fr, err := ref.ParseFrame(f.Data)
		if err != nil || len(fr.Req.Objs) == 0 {
			return nil
		}
		if f.At == start {
			n++
		}
		o := ref.Obj{Type: 2, Inst: fr.Req.Objs[0].Inst, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 85, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Uint(1)}}}}
		l.InjectLater(20*ms, f.Dest, sim.Reply(fr.Net.Dst, ref.ReadAck(fr.Req.Invoke, o)))
		return nil
	}
	err := parallel(30, func(i int) error {
		_, err := cl.ReadProperty(peer{Host: 99, Port: 47808}.device(1, 1476), readOf(2, uint32(i), 85, ref.ArrayAll))
		return err
	})
	if err != nil {
		return 0, fmt.Errorf("a request to a healthy device fails: %v", err)
	}
	return n, nil
}

func (c leakCase) setup(l *sim.Link) {
	l.Forget = true
	l.OnSend = func(f sim.Frame) error {
		fr, err := ref.ParseFrame(f.Data)
		if err != nil {
			return nil
		}
		if len(fr.Req.Objs) > 0 {
			if i := int(fr.Req.Objs[0].Inst) - 1000; i >= 0 && i < len(c.Tasks) {
				return c.Tasks[i].reply(l, f, 0)
			}
			return nil
		}
		for _, k := range c.Tasks {
			if k.Fails && len(k.Heard) > 0 {
				return fmt.Errorf("sending failed")
			}
		}
		return nil
	}
}

const leakRounds = 40

// check runs rounds until the usage is the same as before.
func (c leakCase) check(round func() error) error {
	rounds := func(n int) error {
		for i := 0; i < n; i++ {
			if err := round(); err != nil {
				return err
			}
		}
		return nil
	}
	if err := rounds(10); err != nil {
		return err
	}
	before := used()
	first := before
	// Growth that goes on is not a cache that fills
	for try := 0; ; try++ {
		if err := rounds(leakRounds); err != nil {
			return err
		}
		now := used()
		if now.routines <= before.routines && now.objects-before.objects < leakRounds*9/10 && now.bytes-before.bytes < leakRounds*512 {
			return nil
		}
		if try == 4 {
			return fmt.Errorf("after %d times the same there are %v in use, there were %v at first and %v before the last %d times", 10+(try+1)*leakRounds, now, first, before, leakRounds)
		}
		before = now
	}
}

func init() {
	engine.Add("K14", "rounds", "requests or discoveries were carried out", 150, 10000,
		func(t *rapid.T) leakCase {
			return leakCase{Tasks: rapid.SliceOfN(rapid.Custom(genTask), 1, 4).Draw(t, "tasks"), Close: chance(t, "close", 20)}
		},
		func(r *engine.Rec, c leakCase) error {
			for _, k := range c.Tasks {
				r.Label("%s", k.Kind)
				r.LabelIf(k.Fails, "sending fails")
				r.LabelIf(k.Par, "at the same time")
				r.Hit(k.Kind != "idle" && k.Kind != "idle iam")
			}
			if c.Close {
				r.Label("a new client each time")
				return engine.Bubble(r, func() error {
					return c.check(func() error {
						l := sim.NewLink()
						c.setup(l)
						cl, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: l})
						if err != nil {
							return err
						}
						go cl.ClientRun()
						defer cl.Close()
						return c.round(cl, l)
					})
				})
			}
			return withClient(r, c.setup, func(cl bacnet.Client, l *sim.Link) error {
				before, err := capacity(cl, l)
				if err != nil {
					return fmt.Errorf("at first: %w", err)
				}
				if err := c.check(func() error { return c.round(cl, l) }); err != nil {
					return err
				}
				after, err := capacity(cl, l)
				if err != nil {
					return fmt.Errorf("in the end: %w", err)
				}
				if after != before {
					return fmt.Errorf("at first %d requests could be outstanding at once, in the end only %d", before, after)
				}
				return nil
			})
		}, engine.Limit(2*time.Minute))
}

// layerCase is something that is done with a network again and again.
type layerCase struct {
	Stations []station `json:"stations"`
	Ops      []string  `json:"ops"`
	Low      int       `json:"low"`
	High     int       `json:"high"`
	// Run is set if messages are received before a discovery starts to
	Run bool `json:"run"`
}

func (c layerCase) round(w *world, n *network.Network, devs []*network.Device) error {
	opts := &bacnet.WhoIsOpts{Low: c.Low, High: c.High, GlobalBroadcast: true}
	for i, o := range c.Ops {
		d := devs[i%len(devs)]
		pnt := &network.Point{ObjectID: 1, ObjectType: 2}
		if err := within(5*time.Minute, o, func() error {
			switch o {
			case "device discover":
				d.DeviceDiscover(opts)
			case "network discover":
				n.NetworkDiscover(opts)
			case "whois device":
				d.Whois(opts)
			case "whois network":
				n.Whois(opts)
			case "objects":
				d.DeviceObjects(btypes.ObjectInstance(d.DeviceID), true)
			case "points":
				d.GetDevicePoints(btypes.ObjectInstance(d.DeviceID))
			case "read":
				d.PointReadFloat32(pnt)
			case "release":
				d.PointReleasePriority(pnt, 8)
			case "details":
				d.GetDeviceDetails(btypes.ObjectInstance(d.DeviceID))
			case "update":
				n.Store.UpdateDevice(d.StoreID, n, d)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	w.mu.Lock()
	w.log, w.whois = nil, nil
	w.mu.Unlock()
	for _, d := range w.devs {
		d.Forget()
	}
	return w.problem()
}

func init() {
	engine.Add("K14", "network layer", "devices were looked for", 50, 4000,
		func(t *rapid.T) layerCase {
			c := layerCase{Stations: genStations(t, 3, false, false), Run: rapid.Bool().Draw(t, "run")}
			for i := range c.Stations {
				s := &c.Stations[i]
				s.Silent, s.Mute = chance(t, "silent", 15), chance(t, "mute", 10)
			}
			if rapid.Bool().Draw(t, "range") {
				c.Low = int(c.Stations[0].Inst)
				c.High = c.Low + rapid.IntRange(0, 3000).Draw(t, "width")
			}
			c.Ops = rapid.SliceOfN(rapid.SampledFrom([]string{"device discover", "network discover", "whois device", "whois network", "objects", "points", "read", "release", "details", "update"}), 1, 3).Draw(t, "ops")
			switch c.Ops[0] {
			case "read", "release", "details", "update":
				c.Run = true // nothing else starts to receive
			}
			return c
		},
		func(r *engine.Rec, c layerCase) error {
			w := newWorld(c.Stations)
			for i, s := range c.Stations {
				w.devs[i].Set(2, 1, propValue, ref.Real(float32(i)))
				w.devs[i].SetArray(8, s.Inst, propObjectList, ref.OID(8, s.Inst), ref.OID(2, 1))
			}
			for _, o := range c.Ops {
				r.Label("%s", o)
				r.Hit(o != "read" && o != "release" && o != "details" && o != "update")
			}
			r.LabelIf(!c.Run, "received by the discovery")
			return engine.Bubble(r, func() error {
				l := sim.NewLink()
				l.Forget = true
				l.OnSend = w.onSend(l)
				cl, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: l})
				if err != nil {
					return err
				}
				defer cl.Close()
				n := &network.Network{Store: network.NewStore(), StoreID: "net"}
				if !putClient(n, cl) {
					r.Label("no virtual network possible")
					return nil
				}
				if c.Run {
					go n.NetworkRun()
				}
				var devs []*network.Device
				for i := range c.Stations {
					d, err := network.NewDevice(n, w.device(i))
					if err != nil {
						return err
					}
					devs = append(devs, d)
				}
				return leakCase{}.check(func() error { return c.round(w, n, devs) })
			})
		}, engine.Limit(2*time.Minute))
}
