package checks

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// ---------------------------------------------------------------- N05

type storeOp struct {
	Kind    string `json:"kind"`
	ID      string `json:"id"`
	Net     int    `json:"net"`
	Station int    `json:"station"`
	Reuse   bool   `json:"reuse,omitempty"` // change the device that is stored
	Said    string `json:"said,omitempty"`  // the id that an updated device says it has
}

type storeCase struct {
	Stations []station `json:"stations"`
	Nets     int       `json:"nets"`
	Ops      []storeOp `json:"ops"`
}

var storeKinds = []string{"put network", "new device", "new device", "update device", "update device", "get network", "get device", "get device", "use device", "wait",
	"bad network", "device without network", "update without network", "device without store", "device out of reach", "update out of reach"}

func genStore(udp bool) func(t *rapid.T) storeCase {
	return func(t *rapid.T) storeCase {
		c := storeCase{Stations: genStations(t, 4, udp, false), Nets: rapid.IntRange(1, 3).Draw(t, "nets")}
		for n := rapid.IntRange(1, 25).Draw(t, "ops"); n > 0; n-- {
			o := storeOp{Kind: rapid.SampledFrom(storeKinds).Draw(t, "kind"), ID: pick(t, "id", "a", "b", "c", "", "net0", "dev 1", "A", " a", "b ", "a\x00"), Net: rapid.IntRange(0, c.Nets-1).Draw(t, "net"), Station: rapid.IntRange(0, len(c.Stations)-1).Draw(t, "station"), Reuse: rapid.Bool().Draw(t, "reuse")}
			o.Said = pick(t, "said", o.ID, o.ID, "", "a", "c", "never used")
			if udp && (o.Kind == "wait" || o.Kind == "put network" && n%3 != 0) {
				o.Kind = "use device"
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// entry is what the store has under an id.
type entry struct {
	net     *network.Network
	dev     *network.Device
	from    int // where requests come from
	station int
}

// storeEnv is how networks are made.
type storeEnv struct {
	st *network.Store
	// made are the networks there are, from tells where their requests come from
	made []*network.Network
	from []int
	// put stores a network under the id, it returns it and where its requests come from
	put func(id string, k int) (*network.Network, int, error)
	udp bool
}

func runStore(r *engine.Rec, c storeCase, w *world, env *storeEnv) error {
	model := map[string]entry{}
	st := env.st
	for i := range c.Stations {
		w.devs[i].Set(2, 1, propValue, ref.Real(float32(i)+0.5))
	}
	use := func(d *network.Device, e entry) error {
		w.taken()
		v, err := d.PointReadFloat32(&network.Point{ObjectID: 1, ObjectType: 2})
		if err != nil || v != float32(e.station)+0.5 {
			return fmt.Errorf("reading a value of station %d through the device returns %v, %v", e.station, v, err)
		}
		for _, g := range w.taken() {
			if g.station != e.station || g.from != e.from {
				return fmt.Errorf("the device reaches station %d from %d instead of %d from %d", g.station, g.from, e.station, e.from)
			}
		}
		return nil
	}
	checkAll := func(id string) error {
		n, nerr := st.GetNetwork(id)
		d, derr := st.GetDevice(id)
		e := model[id]
		if e.net != nil {
			if nerr != nil || n != e.net {
				return fmt.Errorf("the network %q is looked up as %v, %v", id, n, nerr)
			}
		} else if nerr == nil {
			return fmt.Errorf("there is no network %q but one is found", id)
		}
		if e.dev != nil {
			if derr != nil || d != e.dev {
				return fmt.Errorf("the device %q is looked up as %v, %v", id, d, derr)
			}
		} else if derr == nil {
			return fmt.Errorf("there is no device %q but one is found", id)
		}
		return nil
	}
	reused := 0
	for i, o := range c.Ops {
		what := fmt.Sprintf("operation %d, %s %q", i, o.Kind, o.ID)
		r.Label("%s", o.Kind)
		err := guarded(what, func() error {
			switch o.Kind {
			case "put network":
				n, from, err := env.put(o.ID, o.Net)
				if err != nil {
					return err
				}
				if n == nil {
					return nil
				}
				env.made, env.from = append(env.made, n), append(env.from, from)
				model[o.ID] = entry{net: n}
			case "bad network":
				var err error
				switch o.Net {
				case 0:
					err = st.NewNetwork(o.ID, "no such interface", "", 0, 0)
				case 1:
					err = st.NewNetwork(o.ID, "", "999.1.2.3", 0, 24)
				default:
					err = st.NewNetwork(o.ID, "", "10.0.0.1", 0, 77)
				}
				if err == nil {
					return fmt.Errorf("an unusable configuration is accepted")
				}
			case "new device", "update device":
				k := o.Net % len(env.made)
				d := w.device(o.Station)
				d.StoreID = o.ID
				if o.Kind == "new device" {
					got, err := network.NewDevice(env.made[k], d)
					if err != nil || got == nil {
						return fmt.Errorf("no device: %v", err)
					}
					d = got
				} else {
					if old := model[o.ID].dev; old != nil && o.Reuse {
						reused++
						old.Ip, old.Port, old.DeviceID, old.NetworkNumber, old.MacMSTP, old.MaxApdu, old.Segmentation = d.Ip, d.Port, d.DeviceID, d.NetworkNumber, d.MacMSTP, d.MaxApdu, d.Segmentation
						d = old
						// that is what it says from its beginning
						d.StoreID = o.Said
						// it may be stored under other ids, too
						for id, e := range model {
							if e.dev == old {
								e.from, e.station = env.from[k], o.Station
								model[id] = e
							}
						}
					} else {
						d.StoreID = o.Said
					}
					if err := st.UpdateDevice(o.ID, env.made[k], d); err != nil {
						return fmt.Errorf("the update fails: %v", err)
					}
				}
				model[o.ID] = entry{dev: d, from: env.from[k], station: o.Station}
			case "device without network":
				d := w.device(o.Station)
				d.StoreID = o.ID
				if got, err := network.NewDevice(nil, d); err == nil {
					return fmt.Errorf("a device without a network: %v", got)
				}
			case "update without network":
				if err := st.UpdateDevice(o.ID, nil, w.device(o.Station)); err == nil {
					return fmt.Errorf("no error")
				}
			case "device out of reach", "update out of reach":
				d := w.device(o.Station)
				d.StoreID = o.ID
				switch (o.Net + o.Station + len(o.ID)) % 4 {
				case 0:
					d.MacMSTP += 256
				case 1:
					d.NetworkNumber += 65536
				case 2:
					d.Port = -1
				default:
					d.Ip = "10.0.0"
				}
				var err error
				if old := model[o.ID].dev; o.Kind == "update out of reach" && old != nil && o.Reuse {
					// it stays usable as it was
					before := *old
					old.Ip, old.Port, old.NetworkNumber, old.MacMSTP = d.Ip, d.Port, d.NetworkNumber, d.MacMSTP
					err = st.UpdateDevice(o.ID, env.made[o.Net%len(env.made)], old)
					old.Ip, old.Port, old.NetworkNumber, old.MacMSTP = before.Ip, before.Port, before.NetworkNumber, before.MacMSTP
					if err == nil {
						return fmt.Errorf("no error for the device %+v", d)
					}
					return use(old, model[o.ID])
				}
				if o.Kind == "update out of reach" {
					err = st.UpdateDevice(o.ID, env.made[o.Net%len(env.made)], d)
				} else {
					_, err = network.NewDevice(env.made[o.Net%len(env.made)], d)
				}
				if err == nil {
					return fmt.Errorf("no error for the device %+v", d)
				}
			case "device without store":
				k := o.Net % len(env.made)
				n := *env.made[k]
				n.Store = nil
				d := w.device(o.Station)
				d.StoreID = o.ID
				got, err := network.NewDevice(&n, d)
				if err != nil || got == nil {
					return fmt.Errorf("no device: %v", err)
				}
				return use(got, entry{from: env.from[k], station: o.Station})
			case "get network", "get device":
				return checkAll(o.ID)
			case "use device":
				d, err := st.GetDevice(o.ID)
				e := model[o.ID]
				if e.dev == nil {
					if err == nil {
						return fmt.Errorf("there is no device but one is found")
					}
					return nil
				}
				if err != nil {
					return err
				}
				return use(d, e)
			case "wait":
				time.Sleep(time.Duration(o.Station+1) * 90 * 24 * time.Hour)
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	for _, id := range []string{"a", "b", "c", "", "net0", "dev 1", "A", " a", "b ", "a\x00", "d", "net", "never used"} {
		if err := checkAll(id); err != nil {
			return fmt.Errorf("in the end: %w", err)
		}
		if e := model[id]; e.dev != nil {
			d, _ := st.GetDevice(id)
			if err := use(d, e); err != nil {
				return fmt.Errorf("in the end, %q: %w", id, err)
			}
			if !env.udp {
				s := c.Stations[e.station]
				if d.DeviceID != int(s.Inst) || d.Port != int(s.Port) {
					return fmt.Errorf("in the end, %q is device %d", id, d.DeviceID)
				}
			}
		}
	}
	r.Hit(len(model) > 1)
	r.LabelIf(reused > 0, "device changed in place")
	return w.problem()
}

func init() {
	engine.Add("N05", "store", "more than one id is in use", 6000, 250000, genStore(false),
		func(r *engine.Rec, c storeCase) error {
			w := newWorld(c.Stations)
			return engine.Bubble(r, func() error {
				env := &storeEnv{st: network.NewStore()}
				var cls []bacnet.Client
				running := make(chan struct{}, c.Nets)
				ok := true
				for k := 0; k < c.Nets; k++ {
					l := sim.NewLink()
					l.OnSend = func(fr sim.Frame) error {
						for _, o := range w.handle(fr.Dest.Mac, fr.Data, k) {
							l.InjectLater(o.delay, w.addr(o.station), o.frame)
						}
						return nil
					}
					cl, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: l})
					if err != nil {
						return err
					}
					cls = append(cls, cl)
					go func() { cl.ClientRun(); running <- struct{}{} }()
					n := &network.Network{Store: env.st, StoreID: fmt.Sprint("net", k)}
					ok = putClient(n, cl) && ok
					env.made, env.from = append(env.made, n), append(env.from, k)
				}
				env.put = func(id string, k int) (*network.Network, int, error) {
					n := &network.Network{Store: env.st, StoreID: id}
					putClient(n, cls[k])
					env.st.BacStore.Set(id, n, -1)
					return n, k, nil
				}
				var err error
				if ok {
					err = runStore(r, c, w, env)
				} else {
					r.Label("no virtual network possible")
				}
				for _, cl := range cls {
					cl.Close()
				}
				for range cls {
					<-running
				}
				return err
			})
		}, engine.Limit(60*time.Second))

	engine.Add("N05", "over UDP", "more than one id is in use", 200, 6000, genStore(true),
		func(r *engine.Rec, c storeCase) error {
			w := newWorld(c.Stations)
			s := newServer(w)
			if s == nil {
				r.Label("no addresses on loopback")
				return nil
			}
			s.run()
			defer s.close()
			env := &storeEnv{st: network.NewStore(), udp: true}
			var open []*network.Network
			done := make(chan struct{}, 100)
			defer func() {
				for range open {
					select {
					case <-done:
					case <-time.After(10 * time.Second):
					}
				}
			}()
			defer func() {
				for _, n := range open {
					n.NetworkClose(false)
				}
			}()
			env.put = func(id string, k int) (*network.Network, int, error) {
				for try := 0; ; try++ {
					port := freePort()
					var err error
					iface, ip, subnet := s.iface(), "", 0
					if k%2 == 1 {
						iface, ip, subnet = "", s.iface()[:len(s.iface())-3], 32
					}
					before, _ := env.st.GetNetwork(id)
					if err = env.st.NewNetwork(id, iface, ip, port, subnet); err != nil {
						if try > 5 {
							return nil, 0, err
						}
						if after, _ := env.st.GetNetwork(id); before != after {
							return nil, 0, fmt.Errorf("a network that could not be made is stored")
						}
						continue
					}
					n, err := env.st.GetNetwork(id)
					if err != nil {
						return nil, 0, err
					}
					open = append(open, n)
					go func() { n.NetworkRun(); done <- struct{}{} }()
					if n.Port != port || n.Interface != iface || n.StoreID != id {
						return nil, 0, fmt.Errorf("the network on %s, port %d, has the interface %q, port %d and id %q", iface, port, n.Interface, n.Port, n.StoreID)
					}
					// the port is in use now
					if e := env.st.NewNetwork("d", iface, ip, port, subnet); e == nil {
						return nil, 0, fmt.Errorf("two networks on one port")
					}
					return n, port, nil
				}
			}
			// the first one is made with New
			var first *network.Network
			var err error
			for try := 0; try < 5; try++ {
				p := freePort()
				if first, err = network.New(&network.Network{Interface: s.iface(), Port: p, Store: env.st, StoreID: "net"}); err == nil {
					env.made, env.from = append(env.made, first), append(env.from, p)
					break
				}
			}
			if err != nil {
				return err
			}
			open = append(open, first)
			go func() { first.NetworkRun(); done <- struct{}{} }()
			if n, err := env.st.GetNetwork("net"); err != nil || n != first {
				return fmt.Errorf("the new network isn't in the store: %v", err)
			}
			env.st.BacStore.Set("net", "something else", -1)
			return runStore(r, c, w, env)
		}, engine.Realtime, engine.Limit(120*time.Second))

	engine.Add("N05", "new networks", "every case", 60, 2000,
		func(t *rapid.T) newNetCase {
			return newNetCase{Store: pick(t, "store", "own", "none", "no cache"), ID: pick(t, "id", "", "a", "net"), Iface: rapid.Bool().Draw(t, "iface"), Bad: rapid.IntRange(0, 5).Draw(t, "bad"), Host: byte(rapid.IntRange(1, 250).Draw(t, "host"))}
		},
		func(r *engine.Rec, c newNetCase) error { return c.run(r) }, engine.Realtime, engine.Limit(60*time.Second))
}

// newNetCase makes a network with New.
type newNetCase struct {
	Store string `json:"store"`
	ID    string `json:"id"`
	Iface bool   `json:"iface"`
	Bad   int    `json:"bad"`
	Host  byte   `json:"host"`
}

func (c newNetCase) run(r *engine.Rec) error {
	r.Hit(true)
	r.Label("store: %s", c.Store)
	port := freePort()
	ip := fmt.Sprintf("127.3.2.%d", c.Host)
	n := &network.Network{StoreID: c.ID, Port: port}
	if c.Iface {
		n.Interface = ip + "/24"
	} else {
		n.Ip, n.SubnetCIDR = ip, 24
	}
	switch c.Store {
	case "own":
		n.Store = network.NewStore()
	case "no cache":
		n.Store = &network.Store{}
	}
	bad := true
	switch c.Bad {
	case 1:
		n.Interface, n.Ip, n.SubnetCIDR = "127.3.2.300/24", "127.3.2.300", 24
	case 2:
		n.Interface, n.Ip, n.SubnetCIDR = "", "127.3.2.1", 33
	case 3:
		n.Interface = "nothing"
	case 4:
		n.Interface, n.Ip = "", ""
	case 5:
		n.Port = 70000
	default:
		bad = false
	}
	r.LabelIf(bad, "unusable")
	var got *network.Network
	var err error
	if e := guarded("New", func() error { got, err = network.New(n); return nil }); e != nil {
		return e
	}
	if err == nil {
		defer got.NetworkClose(false)
	}
	if bad || c.Store == "no cache" {
		if err == nil {
			return fmt.Errorf("an unusable network is accepted")
		}
		if c.Store == "own" {
			if x, e := n.Store.GetNetwork(c.ID); e == nil {
				return fmt.Errorf("a network that could not be made is stored: %v", x)
			}
		}
		// nothing keeps the port
		if c.Bad != 5 {
			cl, e := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "127.3.2.1/24", Port: port})
			if e != nil {
				return fmt.Errorf("the port of a network that could not be made is still in use: %v", e)
			}
			cl.Close()
		}
		return nil
	}
	if err != nil || got == nil {
		return fmt.Errorf("no network: %v", err)
	}
	if got.Store != nil && got.Store.BacStore != nil {
		if x, e := got.Store.GetNetwork(c.ID); e != nil || x != got {
			return fmt.Errorf("the network isn't in its store: %v", e)
		}
	}
	if d, e := network.NewDevice(got, &network.Device{Ip: ip, DeviceID: 5, StoreID: "d"}); e != nil || d == nil {
		return fmt.Errorf("no device on the network: %v", e)
	}
	// it listens on the port
	if cl, e := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "127.3.2.1/24", Port: port}); e == nil {
		cl.Close()
		return fmt.Errorf("the port of the network isn't in use")
	}
	if e := got.NetworkClose(false); e != nil {
		return fmt.Errorf("closing fails: %v", e)
	}
	cl, e := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "127.3.2.1/24", Port: port})
	if e != nil {
		return fmt.Errorf("the port of the closed network is still in use: %v", e)
	}
	cl.Close()
	return nil
}

var _ = btypes.ArrayAll
