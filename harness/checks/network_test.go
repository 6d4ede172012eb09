package checks

import (
	"crypto/rand"
	"fmt"
	"net"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// station is a device on the network.
type station struct {
	Inst uint32   `json:"inst"`
	Host byte     `json:"host"`
	Port uint16   `json:"port"`
	Via  *ref.Net `json:"via,omitempty"`
	// what it announces
	Max, Seg, Vendor uint32
	DelayMs          int  `json:"delay_ms"`
	Silent           bool `json:"silent,omitempty"` // doesn't announce itself
	Mute             bool `json:"mute,omitempty"`   // doesn't answer
	// what it holds
	Name       ref.Val  `json:"name"`
	VendorName ref.Val  `json:"vendor_name"`
	HoldsMax   ref.Val  `json:"holds_max"`
	HoldsSeg   ref.Val  `json:"holds_seg"`
	Fails      []uint32 `json:"fails,omitempty"` // properties of the device object that can't be read
}

const (
	propMaxAPDU    = 62
	propName       = 77
	propObjectList = 76
	propValue      = 85
	propPriorities = 87
	propSeg        = 107
	propUnits      = 117
	propVendorName = 121
)

func (s station) model() *sim.Device {
	d := sim.NewDevice(s.Inst)
	d.Set(8, s.Inst, propName, s.Name)
	d.Set(8, s.Inst, propVendorName, s.VendorName)
	d.Set(8, s.Inst, propMaxAPDU, s.HoldsMax)
	d.Set(8, s.Inst, propSeg, s.HoldsSeg)
	for _, p := range s.Fails {
		d.Errs[sim.Key{Type: 8, Inst: s.Inst, Prop: p}] = ref.ErrVal{Class: 2, Code: 32}
	}
	return d
}

func (s station) fails(p uint32) bool {
	for _, x := range s.Fails {
		if x == p {
			return true
		}
	}
	return s.Mute
}

// held is the size and the segmentation that the station answers with, what is
// known stays if it answers with something else.
func (s station) held(max, seg uint32) (uint32, uint32) {
	if !s.fails(propMaxAPDU) && s.HoldsMax.K == "uint" {
		max = uint32(s.HoldsMax.N)
	}
	if !s.fails(propSeg) && s.HoldsSeg.K == "enum" {
		seg = uint32(s.HoldsSeg.N)
	}
	return max, seg
}

// genStations generates stations that differ in their addresses and numbers.
// Over UDP they all have the same port.
func genStations(t *rapid.T, most int, udp, anyMac bool) []station {
	var ss []station
	n := rapid.IntRange(1, most).Draw(t, "stations")
	at, insts := map[string]bool{}, map[uint32]bool{}
	for len(ss) < n {
		s := station{Inst: min(genInst(t, "inst"), 0x3FFFFE), Port: 47808}
		s.Host = byte(rapid.IntRange(20, 20+2*most).Draw(t, "host"))
		if !udp {
			s.Port = pick[uint16](t, "port", 47808, 47808, 47809, 1, 65535, 50000)
			if s.Port != 47808 && chance(t, "beside", 12) {
				s.Host = 10 // the host of the client
			}
		}
		if chance(t, "routed", 40) {
			l := 1
			if anyMac {
				l = pick(t, "adrlen", 1, 1, 2, 6, 18)
			}
			s.Via = &ref.Net{Net: rapid.OneOf(rapid.Uint16Range(1, 4), rapid.Uint16Range(1, 65534)).Draw(t, "net"), Adr: rapid.SliceOfN(rapid.Byte(), l, l).Draw(t, "adr")}
		}
		for insts[s.Inst] {
			s.Inst = (s.Inst + 1) % 0x3FFFFF
		}
		where := func() string {
			if s.Via == nil {
				return fmt.Sprint(s.Host, s.Port)
			}
			return fmt.Sprint(s.Host, s.Port, *s.Via)
		}
		for at[where()] {
			s.Host++
		}
		at[where()], insts[s.Inst] = true, true
		s.Max, s.Seg, s.Vendor = pick[uint32](t, "max", 50, 206, 480, 1024, 1476), uint32(rapid.IntRange(0, 3).Draw(t, "seg")), rapid.Uint32Range(0, 65535).Draw(t, "vendor")
		s.Name, s.VendorName = ref.Str(genText(t, "name", 40)), ref.Str(genText(t, "vendorname", 40))
		s.HoldsMax, s.HoldsSeg = ref.Uint(s.Max), ref.Enum(s.Seg)
		if chance(t, "differs", 30) {
			s.HoldsMax, s.HoldsSeg = ref.Uint(genU32(t, "holdsmax")), ref.Enum(uint32(rapid.IntRange(0, 3).Draw(t, "holdsseg")))
		}
		s.DelayMs = pick(t, "delay", 0, 0, 5, 300)
		ss = append(ss, s)
	}
	return ss
}

// got is a request that a station received.
type got struct {
	station int // -1 if there is none at the address
	req     ref.Req
	from    int // the port it comes from
}

// world is what the network package talks to.
type world struct {
	stations []station
	devs     []*sim.Device
	// answer replaces the answer of a station
	answer func(station int, q ref.Req) (reply []byte, mine bool)

	mu    sync.Mutex
	bad   error
	log   []got
	whois []ref.Req
	// address of the stations
	prefix [3]byte
}

func newWorld(ss []station) *world {
	w := &world{stations: ss, prefix: [3]byte{192, 168, 1}}
	for _, s := range ss {
		w.devs = append(w.devs, s.model())
	}
	return w
}

func (w *world) addr(i int) btypes.Address {
	s := w.stations[i]
	return sim.IP(w.prefix[0], w.prefix[1], w.prefix[2], s.Host, s.Port)
}

// device is the station as it is given to the network package.
func (w *world) device(i int) *network.Device {
	s := w.stations[i]
	d := &network.Device{Ip: fmt.Sprintf("%d.%d.%d.%d", w.prefix[0], w.prefix[1], w.prefix[2], s.Host), Port: int(s.Port), DeviceID: int(s.Inst), MaxApdu: s.Max, Segmentation: s.Seg, StoreID: fmt.Sprint("dev", i)}
	if s.Via != nil {
		d.NetworkNumber, d.MacMSTP = int(s.Via.Net), int(s.Via.Adr[0])
	}
	return d
}

type outgoing struct {
	station int
	delay   time.Duration
	frame   []byte
}

// handle is what happens with a frame for the address.
func (w *world) handle(mac []byte, data []byte, from int) (out []outgoing) {
	w.mu.Lock()
	defer w.mu.Unlock()
	fr, err := ref.ParseFrame(data)
	if err != nil {
		w.fail("the frame %x can't be understood: %v", data, err)
		return nil
	}
	if fr.Req.Type == 0x10 {
		w.whois = append(w.whois, fr.Req)
		if fr.Req.Service != 8 || fr.Fn != 0x0B {
			w.fail("unexpected frame %x", data)
			return nil
		}
		for i, s := range w.stations {
			if s.Silent || fr.Req.Low >= 0 && (int64(s.Inst) < fr.Req.Low || int64(s.Inst) > fr.Req.High) {
				continue
			}
			n := ref.NPDU{Version: 1, Src: s.Via}
			out = append(out, outgoing{i, time.Duration(s.DelayMs) * ms, ref.BVLC(0x0B, ref.Cat(n.Enc(), ref.IAm(s.Inst, s.Max, s.Seg, s.Vendor)))})
		}
		return out
	}
	at := -1
	for i, s := range w.stations {
		a := w.addr(i)
		same := (s.Via == nil) == (fr.Net.Dst == nil)
		if same && s.Via != nil {
			same = s.Via.Net == fr.Net.Dst.Net && string(s.Via.Adr) == string(fr.Net.Dst.Adr)
		}
		if same && string(a.Mac) == string(mac) {
			at = i
		}
	}
	w.log = append(w.log, got{at, fr.Req, from})
	if fr.Fn != 0x0A {
		w.fail("a request to one station has the link function %#x", fr.Fn)
	}
	if at < 0 {
		w.fail("the request %x goes to %v, network %+v, where nobody is", fr.APDU, mac, fr.Net.Dst)
		return nil
	}
	s := w.stations[at]
	if s.Mute {
		return nil
	}
	if w.answer != nil {
		if r, mine := w.answer(at, fr.Req); mine {
			if r == nil {
				return nil
			}
			return []outgoing{{at, 0, sim.Reply(s.Via, r)}}
		}
	}
	return []outgoing{{at, 0, sim.Reply(s.Via, w.devs[at].Answer(fr.Req))}}
}

func (w *world) fail(format string, a ...any) {
	if w.bad == nil {
		w.bad = fmt.Errorf(format, a...)
	}
}

// problem is what went wrong on the network.
func (w *world) problem() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.bad
}

// taken returns the requests received so far and forgets them.
func (w *world) taken() []got {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	return l
}

// putClient puts the client into a network that wasn't made by New. It returns
// false if there is no place for it.
func putClient(n *network.Network, cl bacnet.Client) (ok bool) {
	v := reflect.ValueOf(n).Elem()
	want := reflect.TypeOf((*bacnet.Client)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == want {
			reflect.NewAt(want, unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(&cl).Elem())
			ok = true
		}
	}
	return ok
}

// onSend answers what is sent over the link.
func (w *world) onSend(l *sim.Link) func(fr sim.Frame) error {
	return func(fr sim.Frame) error {
		for _, o := range w.handle(fr.Dest.Mac, fr.Data, 0) {
			l.InjectLater(o.delay, w.addr(o.station), o.frame)
		}
		return nil
	}
}

// virtually runs f with a network in virtual time.
func (w *world) virtually(r *engine.Rec, f func(n *network.Network) error) error {
	setup := func(l *sim.Link) { l.OnSend = w.onSend(l) }
	return withClient(r, setup, func(cl bacnet.Client, l *sim.Link) error {
		n := &network.Network{Store: network.NewStore(), StoreID: "net"}
		if !putClient(n, cl) {
			r.Label("no virtual network possible")
			return nil
		}
		if err := f(n); err != nil {
			return err
		}
		return w.problem()
	})
}

// server is the side of the stations on loopback.
type server struct {
	w     *world
	conns map[byte]*net.UDPConn
	hub   *net.UDPConn
	wg    sync.WaitGroup
}

const hubHost = 1

// newServer binds the addresses of the stations somewhere in 127/8 where
// nobody else is.
func newServer(w *world) *server {
	for try := 0; try < 60; try++ {
		s := &server{w: w, conns: map[byte]*net.UDPConn{}}
		var b [2]byte
		rand.Read(b[:])
		w.prefix = [3]byte{127, 16 + b[0]%200, b[1]}
		if s.bind() {
			return s
		}
		s.close()
		time.Sleep(time.Duration(try) * 10 * ms)
	}
	return nil
}

func (s *server) listen(host byte, port uint16) *net.UDPConn {
	p := s.w.prefix
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(p[0], p[1], p[2], host), Port: int(port)})
	if err != nil {
		return nil
	}
	return c
}

func (s *server) bind() bool {
	if s.hub = s.listen(hubHost, 47808); s.hub == nil {
		return false
	}
	for _, st := range s.w.stations {
		if s.conns[st.Host] == nil {
			if s.conns[st.Host] = s.listen(st.Host, st.Port); s.conns[st.Host] == nil {
				return false
			}
		}
	}
	return true
}

func (s *server) run() {
	read := func(c *net.UDPConn) {
		defer s.wg.Done()
		b := make([]byte, 4096)
		for {
			n, src, err := c.ReadFromUDP(b)
			if err != nil {
				return
			}
			at := c.LocalAddr().(*net.UDPAddr)
			mac := append(append([]byte{}, at.IP.To4()...), byte(at.Port>>8), byte(at.Port))
			for _, o := range s.w.handle(mac, clone(b[:n]), src.Port) {
				out := s.conns[s.w.stations[o.station].Host]
				if o.delay == 0 {
					out.WriteToUDP(o.frame, src)
				} else {
					time.AfterFunc(o.delay, func() { out.WriteToUDP(o.frame, src) })
				}
			}
		}
	}
	s.wg.Add(1 + len(s.conns))
	go read(s.hub)
	for _, c := range s.conns {
		go read(c)
	}
}

func (s *server) close() {
	if s.hub != nil {
		s.hub.Close()
	}
	for _, c := range s.conns {
		if c != nil {
			c.Close()
		}
	}
	s.wg.Wait()
}

// iface is the address of the client, the only one that its broadcasts reach.
func (s *server) iface() string {
	return fmt.Sprintf("127.%d.%d.%d/32", s.w.prefix[1], s.w.prefix[2], hubHost)
}

// freePort returns a port that nobody uses at the moment.
func freePort() int {
	for i := 0; ; i++ {
		var b [2]byte
		rand.Read(b[:])
		p := 20000 + (int(b[0])<<8|int(b[1]))%12000
		c, err := net.ListenUDP("udp4", &net.UDPAddr{Port: p})
		if err == nil {
			c.Close()
			return p
		}
		if i > 200 {
			panic(err)
		}
	}
}

// overUDP runs f with a network on loopback, in real time.
func (w *world) overUDP(r *engine.Rec, f func(n *network.Network) error) error {
	s := newServer(w)
	if s == nil {
		r.Label("no addresses on loopback")
		return nil
	}
	s.run()
	defer s.close()
	var n *network.Network
	var err error
	for try := 0; try < 5; try++ {
		n, err = network.New(&network.Network{Interface: s.iface(), Port: freePort(), Store: network.NewStore(), StoreID: "net"})
		if err == nil {
			break
		}
	}
	if err != nil {
		return fmt.Errorf("no network on %s: %v", s.iface(), err)
	}
	done := make(chan struct{})
	go func() { n.NetworkRun(); close(done) }()
	err = f(n)
	if e := n.NetworkClose(false); e != nil && err == nil {
		err = fmt.Errorf("closing the network fails: %v", e)
	}
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		if err == nil {
			err = fmt.Errorf("the network still runs after it is closed")
		}
	}
	if err != nil {
		return err
	}
	return w.problem()
}

// guarded turns a panic into an error.
func guarded(what string, f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%s panics: %v", what, p)
		}
	}()
	return f()
}
