package checks

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	stdlog "log"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// What the library prints is of no interest.
func init() {
	stdlog.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	if os.Getenv("VERIF_LOUD") == "" {
		quiet()
	}
}

// quiet discards what goes to the standard files; the runtime's own messages
// still get through.
func quiet() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout, os.Stderr = null, null
}

const ms = time.Millisecond

// withClient runs f with a client on a link in memory, in virtual time. In the
// end the client must end its receive loop.
func withClient(r *engine.Rec, setup func(l *sim.Link), f func(cl bacnet.Client, l *sim.Link) error) error {
	return withBuilder(r, &bacnet.ClientBuilder{}, setup, f)
}

func withBuilder(r *engine.Rec, b *bacnet.ClientBuilder, setup func(l *sim.Link), f func(cl bacnet.Client, l *sim.Link) error) error {
	return engine.Bubble(r, func() error {
		l := sim.NewLink()
		if setup != nil {
			setup(l)
		}
		b.DataLink = l
		cl, err := bacnet.NewClient(b)
		if err != nil {
			return fmt.Errorf("no client: %v", err)
		}
		running := make(chan struct{})
		go func() {
			defer close(running)
			cl.ClientRun()
		}()
		err = f(cl, l)
		if e := cl.Close(); e != nil && !errors.Is(e, sim.ErrClosed) && err == nil {
			err = fmt.Errorf("closing failed: %v", e)
		}
		select {
		case <-running:
		case <-time.After(time.Hour):
			if err == nil {
				err = fmt.Errorf("the receive loop doesn't end although the client is closed")
			}
		}
		if e := l.CheckAddresses(); err == nil {
			err = e
		}
		return err
	})
}

// peer is a station the client can talk to.
type peer struct {
	Host byte     `json:"host"`
	Port uint16   `json:"port"`
	Via  *ref.Net `json:"via,omitempty"` // behind a router
	// Far is set if it isn't in the client's subnet
	Far *[3]byte `json:"far,omitempty"`
	// What is known about it besides its address
	Seg    byte   `json:"seg"`
	Vendor uint32 `json:"vendor"`
	Name   string `json:"name,omitempty"`
	// Built is set if its address is made by the library's constructor
	Built bool `json:"built,omitempty"`
}

// genPeers generates stations, some of which differ in one thing only.
func genPeers(t *rapid.T, least, most int) []peer {
	var ps []peer
	for i := rapid.IntRange(least, most).Draw(t, "peers"); i > 0; i-- {
		p := genPeer(t)
		if len(ps) > 0 && chance(t, "twin", 60) {
			p = twin(t, rapid.SampledFrom(ps).Draw(t, "of"))
		}
		ps = append(ps, p)
	}
	return ps
}

// twin generates a station that differs from p in one thing only.
func twin(t *rapid.T, p peer) peer {
	kinds := []string{"host", "port", "port"}
	if p.Via != nil {
		v := *p.Via
		v.Adr = clone(v.Adr)
		p.Via = &v
		kinds = []string{"net", "adr", "longer", "router"}
	}
	switch pick(t, "differs", kinds...) {
	case "host", "router":
		p.Host ^= 1
	case "port":
		p.Port ^= uint16(1 << rapid.IntRange(0, 15).Draw(t, "bit"))
	case "net":
		p.Via.Net = p.Via.Net%65534 + 1
	case "adr":
		i := rapid.IntRange(0, len(p.Via.Adr)-1).Draw(t, "octet")
		p.Via.Adr[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
	case "longer":
		if len(p.Via.Adr) > 17 {
			p.Via.Adr = p.Via.Adr[:17]
		} else {
			p.Via.Adr = append(p.Via.Adr, rapid.Byte().Draw(t, "more"))
		}
	}
	return p.notUs()
}

// notUs moves a peer that has the very address of the client.
func (p peer) notUs() peer {
	if p.Far == nil && p.Host == 10 && p.Port == 47808 {
		p.Host = 12
	}
	return p
}

func genPeer(t *rapid.T) peer {
	p := peer{Host: byte(rapid.IntRange(20, 250).Draw(t, "host")), Port: pick[uint16](t, "port", 47808, 47809, 50000)}
	if chance(t, "beside", 6) {
		p.Host = 10 // the host of the client, with another port
	}
	if chance(t, "far", 15) {
		p.Far = &[3]byte{pick[byte](t, "a", 10, 172, 0, 223), rapid.Byte().Draw(t, "b"), rapid.Byte().Draw(t, "c")}
	}
	if chance(t, "routed", 40) {
		p.Via = &ref.Net{Net: rapid.Uint16Range(1, 65534).Draw(t, "net"), Adr: rapid.SliceOfN(rapid.Byte(), 1, pick(t, "adrlen", 1, 1, 2, 6, 18)).Draw(t, "adr")}
	}
	p.Seg = pick[byte](t, "seg", 3, 3, 0, 1, 2)
	p.Vendor = pick[uint32](t, "vendor", 0, 0, 1, 65535)
	p.Name = pick(t, "name", "", "", "name")
	p.Built = chance(t, "built", 40)
	return p.notUs()
}

// ip is the address of the peer, or of the router to it.
func (p peer) ip() btypes.Address {
	if p.Far != nil {
		return sim.IP(p.Far[0], p.Far[1], p.Far[2], p.Host, p.Port)
	}
	return sim.IP(192, 168, 1, p.Host, p.Port)
}

// device is the peer as it is given to the client.
func (p peer) device(inst, maxAPDU uint32) btypes.Device {
	a := p.ip()
	if p.Via != nil {
		a.Net, a.Adr = p.Via.Net, clone(p.Via.Adr)
	}
	if p.Built && p.Port != 0 && (p.Via == nil || len(p.Via.Adr) == 1) {
		b := &btypes.Device{Ip: net.IP(a.Mac[:4]).String(), Port: int(p.Port), NetworkNumber: int(a.Net)}
		if p.Via != nil {
			b.MacMSTP = int(p.Via.Adr[0])
		}
		b, err := btypes.NewDevice(b)
		if err != nil {
			panic(err)
		}
		a = b.Addr
	}
	d := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}, DeviceID: int(inst), Addr: a, MaxApdu: maxAPDU, Segmentation: btypes.Enumerated(p.Seg), Vendor: p.Vendor}
	if p.Name != "" {
		d.DeviceName, d.VendorName, d.Ip, d.Port, d.NetworkNumber, d.MacMSTP = p.Name, p.Name, "10.9.8.7", 4711, 99, 77
		d.Objects = btypes.ObjectMap{2: {1: {Name: p.Name}}}
		d.SupportsRPM, d.SupportsWPM = p.Host%2 == 0, p.Host%3 == 0
	}
	return d
}

// reply makes a frame of the peer's reply.
func (p peer) reply(apdu []byte) []byte { return sim.Reply(p.Via, apdu) }

func (p peer) wantDst() *ref.Net { return p.Via }

// sameDst checks that a frame is addressed to the peer.
func (p peer) checkFrame(f sim.Frame, fr ref.Frame) error {
	want := p.ip()
	if string(f.Dest.Mac) != string(want.Mac) {
		return fmt.Errorf("the frame goes to %v instead of %v", f.Dest.Mac, want.Mac)
	}
	if fr.Fn != 0x0A {
		return fmt.Errorf("the frame to one station has the link function %#x", fr.Fn)
	}
	n := fr.Net
	if n.Version != 1 || !n.Expect || n.Src != nil || n.Msg != nil || n.Prio != 0 {
		return fmt.Errorf("wrong network header %+v", n)
	}
	if p.Via == nil {
		if n.Dst != nil {
			return fmt.Errorf("unexpected destination network %+v", *n.Dst)
		}
		return nil
	}
	if n.Dst == nil || n.Dst.Net != p.Via.Net || string(n.Dst.Adr) != string(p.Via.Adr) {
		return fmt.Errorf("destination network %+v instead of %+v", n.Dst, *p.Via)
	}
	if n.Hop != 255 {
		return fmt.Errorf("hop count %d", n.Hop)
	}
	return nil
}

// within runs f and reports an error if it takes longer, in virtual time.
func within(limit time.Duration, what string, f func() error) error {
	start := time.Now()
	done := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Errorf("%s panics: %v", what, p)
			}
		}()
		done <- f()
	}()
	select {
	case err := <-done:
		if d := time.Since(start); d > limit {
			return fmt.Errorf("%s took %v, more than %v", what, d, limit)
		}
		return err
	case <-time.After(limit + time.Hour):
		return fmt.Errorf("%s doesn't end", what)
	}
}

// parallel runs f for each number and returns the first error.
func parallel(n int, f func(i int) error) error {
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
			}()
			errs[i] = f(i)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func readOf(t uint16, inst, prop, index uint32) btypes.PropertyData {
	return toPD(ref.Obj{Type: t, Inst: inst, Props: []ref.PropV{{PropRef: ref.PropRef{ID: prop, Index: index}}}})
}
