package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// responder answers every confirmed request at once, as the station it goes to.
func responder(l *sim.Link, mu *sync.Mutex, bad *error) {
	l.OnSend = func(f sim.Frame) error {
		fr, err := ref.ParseFrame(f.Data)
		if err != nil {
			mu.Lock()
			defer mu.Unlock()
			if *bad == nil {
				*bad = fmt.Errorf("malformed frame %x: %w", f.Data, err)
			}
			return nil
		}
		if fr.Net.Msg != nil || fr.Req.Type != 0 {
			return nil
		}
		l.Inject(f.Dest, sim.Reply(fr.Net.Dst, positive(fr.Req)))
		return nil
	}
}

// positive is the positive answer to the request.
func positive(q ref.Req) []byte {
	for i := range q.Objs {
		for j := range q.Objs[i].Props {
			q.Objs[i].Props[j].Vals = []ref.Val{ref.Uint(uint32(j))}
		}
	}
	switch q.Service {
	case 12:
		return ref.ReadAck(q.Invoke, q.Objs[0])
	case 14:
		return ref.ReadMultiAck(q.Invoke, q.Objs)
	}
	return ref.SimpleAck(q.Invoke, q.Service)
}

// doRequest makes the request and returns its error.
func doRequest(cl bacnet.Client, kind string, dev btypes.Device, os []ref.Obj) error {
	return doInvalid(cl, kind, dev, toMPD(os))
}

func doInvalid(cl bacnet.Client, kind string, dev btypes.Device, m btypes.MultiplePropertyData) (err error) {
	before := fmt.Sprintf("%#v %#v", dev, m)
	defer func() {
		if after := fmt.Sprintf("%#v %#v", dev, m); after != before {
			panic(fmt.Sprintf("what the caller hands over is changed from %s to %s", before, after))
		}
	}()
	switch kind {
	case "read":
		_, err = cl.ReadProperty(dev, single(m))
	case "readmulti":
		_, err = cl.ReadMultiProperty(dev, m)
	case "write":
		err = cl.WriteProperty(dev, single(m))
	case "writemulti":
		err = cl.WriteMultiProperty(dev, m)
	}
	return err
}

func encodeRequest(kind string, id byte, os []ref.Obj) []byte {
	switch kind {
	case "read":
		return ref.ReadReq(id, os[0])
	case "readmulti":
		return ref.ReadMultiReq(id, os)
	case "write":
		return ref.WriteReq(id, sentAs(os[0]))
	}
	return ref.WriteMultiReq(id, os)
}

// sentAs is the object as single writes send it: present values of binary
// outputs and values are enumerations.
func sentAs(o ref.Obj) ref.Obj {
	o = clone2(o)
	for i := range o.Props {
		p := &o.Props[i]
		if (o.Type == 4 || o.Type == 5) && p.ID == 85 && len(p.Vals) == 1 && p.Vals[0].K == "uint" {
			p.Vals = []ref.Val{ref.Enum(uint32(p.Vals[0].N))}
		}
	}
	return o
}

type sizeCase struct {
	Kind string    `json:"kind"`
	Peer peer      `json:"peer"`
	Objs []ref.Obj `json:"objs"`
	// Off is how much smaller than the request the accepted size is, or Max is used
	Off int     `json:"off"`
	Max *uint32 `json:"max,omitempty"`
}

// dest is an address as the caller may give it.
type dest struct {
	Mac   []byte `json:"mac"`
	NoLen bool   `json:"no_len,omitempty"` // MacLen isn't set
	Net   uint16 `json:"net,omitempty"`
	Adr   []byte `json:"adr,omitempty"`
	Len   bool   `json:"len,omitempty"` // Len is set already
	Was   byte   `json:"was,omitempty"` // Len of an earlier address
}

func (d dest) addr() btypes.Address {
	a := btypes.Address{Mac: clone(d.Mac), Net: d.Net}
	if !d.NoLen {
		a.MacLen = uint8(len(d.Mac))
	}
	if len(d.Adr) > 0 {
		a.Adr = clone(d.Adr)
	}
	if d.Len {
		a.Len = uint8(len(d.Adr))
	} else if len(d.Adr) > 0 {
		a.Len = d.Was
	}
	return a
}

func (d dest) fn() byte {
	if len(d.Adr) == 0 && (d.Net > 0 || d.NoLen) {
		return 0x0B
	}
	return 0x0A
}

func genDest(t *rapid.T) dest {
	d := dest{Mac: []byte{pick[byte](t, "a", 10, 127, 192, 224, 255), rapid.Byte().Draw(t, "b"), rapid.Byte().Draw(t, "c"), rapid.Byte().Draw(t, "d"), rapid.Byte().Draw(t, "e"), rapid.Byte().Draw(t, "f")}}
	switch rapid.IntRange(0, 6).Draw(t, "form") {
	case 0, 1:
	case 2, 3: // behind a router
		d.Net = rapid.Uint16Range(1, 65534).Draw(t, "net")
		d.Adr = rapid.SliceOfN(rapid.Byte(), 1, pick(t, "adrlen", 1, 2, 6, 7, 18)).Draw(t, "adr")
		d.Len = rapid.Bool().Draw(t, "len")
		if chance(t, "stale", 10) {
			d.Was = rapid.Byte().Draw(t, "was")
		}
	case 4: // a whole network, or all
		d.Net = rapid.OneOf(rapid.Uint16Range(1, 65535), rapid.Just[uint16](65535)).Draw(t, "net")
	case 5:
		d.NoLen = true
		if rapid.Bool().Draw(t, "routed") {
			d.Net = rapid.Uint16Range(1, 65534).Draw(t, "net")
			d.Adr = rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "adr")
		}
	case 6: // as NewDevice does it
		d.NoLen = true
		d.Adr = []byte{rapid.Byte().Draw(t, "mstp")}
	}
	return d
}

type frameOp struct {
	Kind string    `json:"kind"`
	To   dest      `json:"to"`
	Objs []ref.Obj `json:"objs,omitempty"`
	IAm  [4]uint32 `json:"iam"`
	Low  int       `json:"low"`
	High int       `json:"high"`
	Net  uint16    `json:"net"`
	All  bool      `json:"all,omitempty"`
}

type invalidClientCase struct {
	Bad  invalidCase `json:"bad"`
	To   dest        `json:"to"`
	IAm  *[4]uint32  `json:"iam,omitempty"`
	Type uint16      `json:"type"`
}

type bigCase struct {
	Kind string    `json:"kind"`
	Objs []ref.Obj `json:"objs"`
	// Fill is the octets the reply is short of Size
	Size   int      `json:"size"`
	Src    *ref.Net `json:"src,omitempty"`
	Dst    *ref.Net `json:"dst,omitempty"`
	Fwd    bool     `json:"fwd,omitempty"`
	MaxPDU uint16   `json:"max_pdu"`
}

// fill appends text so that the reply has exactly the size.
func (c bigCase) filled() ([]ref.Obj, []byte) {
	var os []ref.Obj
	for _, o := range c.Objs {
		os = append(os, clone2(o))
	}
	enc := func() []byte {
		if c.Kind == "read" {
			return ref.ReadAck(0, os[0])
		}
		return ref.ReadMultiAck(0, os)
	}
	last := &os[len(os)-1]
	p := &last.Props[len(last.Props)-1]
	vals := p.Vals
	for missing := c.Size - len(enc()); missing > 0; missing = c.Size - len(enc()) {
		n := min(missing, 300)
		if missing > 300 && missing < 310 {
			n = 200
		}
		// text of n octets with its tag
		text := n - 2
		if n > 5 {
			text = n - 3
		}
		if n > 256 {
			text = n - 5
		}
		if n < 3 {
			vals = append(vals, ref.Null())
		} else {
			vals = append(vals, ref.Str(repeat('a'+byte(missing%26), max(text, 0))))
		}
		p.Vals = vals
	}
	return os, enc()
}

type segmentCase struct {
	Kind   string    `json:"kind"`
	Objs   []ref.Obj `json:"objs"`
	Cuts   []int     `json:"cuts"`
	Any    bool      `json:"any,omitempty"` // cut anywhere
	First  int       `json:"first"`         // those before are lost
	Window byte      `json:"window"`
	Hold   int       `json:"hold"`
	// Group is the group of properties that is asked for, if any
	Group uint32 `json:"group,omitempty"`
}

// segments are the parts of the reply, each with the header of the whole. They
// end where an object, property or value ends.
func (c segmentCase) segments() [][]byte {
	enc := func(os []ref.Obj) []byte {
		if c.Kind == "read" {
			return ref.ReadAck(0, os[0])
		}
		return ref.ReadMultiAck(0, os)
	}
	whole := enc(c.Objs)
	// where it can be cut
	var ends []int
	var os []ref.Obj
	for _, o := range c.Objs {
		x := clone2(o)
		x.Props = nil
		for _, p := range o.Props {
			for i := range p.Vals {
				part := p
				part.Vals = p.Vals[:i+1]
				y := clone2(x)
				y.Props = append(y.Props, part)
				b := enc(append(os[:len(os):len(os)], y))
				// with, and without the closing tags
				for n := len(b); n > 3 && n > len(b)-3; n-- {
					if bytes.HasPrefix(whole, b[:n]) {
						ends = append(ends, n)
					}
				}
			}
			x.Props = append(x.Props, p)
		}
		os = append(os, x)
	}
	var cuts []int
	for _, k := range c.Cuts {
		if c.Any {
			cuts = append(cuts, 3+k%(len(whole)-2))
		} else {
			cuts = append(cuts, ends[k%len(ends)])
		}
	}
	sort.Ints(cuts)
	var out [][]byte
	from := 3
	for _, k := range append(cuts, len(whole)) {
		if k > from || k == len(whole) && len(out) == 0 {
			out = append(out, ref.Cat(whole[:3], whole[from:k]))
			from = k
		}
	}
	return out
}

// fake carries the id of a request but isn't its answer.
type fake struct {
	At   int    `json:"at"` // ms after the request
	Kind string `json:"kind"`
	N    uint32 `json:"n"`
	Data []byte `json:"data,omitempty"`
	Fwd  bool   `json:"fwd,omitempty"`
}

type fakeCase struct {
	Kind  string `json:"kind"`
	Peer  peer   `json:"peer"`
	Fakes []fake `json:"fakes"`
	// At is when the answer arrives, -1 if it never does
	At    int         `json:"at"`
	Fwd   bool        `json:"fwd,omitempty"`
	Fn    byte        `json:"fn"`
	Dst   *ref.Net    `json:"dst,omitempty"`
	Error *ref.ErrVal `json:"error,omitempty"`
}

var fakeKinds = []string{"request", "unconfirmed", "network", "function", "type", "segment ack", "unknown pdu", "i-am", "other id", "short forward", "short header", "other station", "other station", "other station", "other station's error", "other service", "other service's error", "cut", "version"}

// other is another station of the network, or of another network. The router to
// it is nil.
func other(n *ref.Net, k uint32) *ref.Net {
	if n == nil {
		if k%5 == 0 { // a station behind a router that isn't the one that was asked
			return &ref.Net{Net: uint16(k%65534) + 1, Adr: []byte{byte(k)}}
		}
		return nil
	}
	if k%7 == 0 {
		return nil
	}
	o := ref.Net{Net: n.Net, Adr: clone(n.Adr)}
	switch k % 3 {
	case 0:
		o.Adr[len(o.Adr)-1] ^= byte(k/3%255) + 1
	case 1:
		o.Adr = append(o.Adr, 1)
	default:
		o.Net = n.Net%65534 + 1
	}
	return &o
}

func otherVersion(v byte) byte {
	if v == 1 {
		return 2
	}
	return v
}

// source is where the frame comes from.
func (f fake) source(p peer) btypes.Address {
	if strings.HasPrefix(f.Kind, "other station") && p.Via == nil {
		if f.N%2 == 0 && p.Far == nil {
			p.Host = 21 + (p.Host-20+byte(f.N/2%100))%100
			return sim.IP(192, 168, 2, p.Host, p.Port)
		}
		p.Port++
	}
	return p.ip()
}

// frame makes the frame for the request with the id, whose acknowledgement is ack.
func (f fake) frame(id byte, service byte, ack []byte, from peer) []byte {
	head := ref.NPDU{Version: 1, Src: from.Via}
	var npdu []byte
	switch f.Kind {
	case "version":
		// a network header of another version of the protocol
		head.Version = otherVersion(byte(f.N))
		npdu = ref.Cat(head.Enc(), ack)
	case "request":
		npdu = ref.Cat(head.Enc(), ref.ConfirmedHeader(id, service), f.Data)
		if len(ack) > 3 {
			npdu = ref.Cat(head.Enc(), ref.ConfirmedHeader(id, service), ack[3:])
		}
	case "unconfirmed":
		npdu = ref.Cat(head.Enc(), []byte{0x10, byte(f.N)}, ack)
		if byte(f.N) == 0 {
			npdu = ref.Cat(head.Enc(), []byte{0x10, 2, id}, ack)
		}
	case "network":
		m := byte(f.N)
		head.Msg = &m
		npdu = ref.Cat(head.Enc(), ack)
	case "segment ack":
		npdu = ref.Cat(head.Enc(), []byte{0x40 | byte(f.N)&3, id, 0, 1})
	case "unknown pdu":
		npdu = ref.Cat(head.Enc(), []byte{0x80 + byte(f.N)<<4&0x70, id, service}, ack[3:])
	case "i-am":
		npdu = ref.Cat(head.Enc(), ref.IAm(uint32(id), 1476, 3, f.N))
	case "other id":
		b := clone(ack)
		b[1] = id + 1 + byte(f.N%250)
		npdu = ref.Cat(head.Enc(), b)
	case "other station's error":
		head.Src = other(from.Via, f.N)
		npdu = ref.Cat(head.Enc(), ref.Error(id, service, ref.ErrVal{Class: f.N % 8, Code: f.N}, f.N%2 == 0))
	case "other station":
		head.Src = other(from.Via, f.N)
		npdu = ref.Cat(head.Enc(), ack)
	case "other service":
		b := clone(ack)
		b[2] ^= byte(f.N%31 + 1)
		npdu = ref.Cat(head.Enc(), b)
	case "other service's error":
		npdu = ref.Cat(head.Enc(), ref.Error(id, service^byte(f.N%31+1), ref.ErrVal{Class: 1, Code: f.N}, f.Fwd))
	case "cut":
		// ends before its service
		b := ack
		if f.N/3%2 == 0 {
			b = ref.Error(id, service, ref.ErrVal{}, false)
		}
		npdu = ref.Cat(head.Enc(), b[:f.N%3])
	case "short forward":
		return ref.BVLC(4, ack[:min(len(ack), int(f.N%6))])
	case "short header":
		return ref.BVLC(0x0A, ref.NPDU{Version: 1, Src: &ref.Net{Net: 5, Adr: make([]byte, 10)}}.Enc()[:2+f.N%13])
	default:
		npdu = ref.Cat(head.Enc(), ack)
	}
	switch {
	case f.Kind == "function":
		// neither original, nor forwarded
		fn := byte(f.N)
		for fn == 4 || fn == 0x0A || fn == 0x0B {
			fn++
		}
		return ref.BVLC(fn, npdu)
	case f.Kind == "type":
		b := ref.BVLC(0x0A, npdu)
		if b[0] = byte(f.N); b[0] == 0x81 {
			b[0] = 0x82
		}
		return b
	case f.Fwd:
		return forwarded(f.source(from), npdu)
	}
	return ref.BVLC(0x0B-byte(f.N%2), npdu)
}

func genRequest(t *rapid.T, kind string, objs, props int) []ref.Obj {
	switch kind {
	case "read":
		return genObjs(t, 1, 1)
	case "write":
		os := genWrites(t, 1, 1)
		if p := &os[0].Props[0]; (os[0].Type == 4 || os[0].Type == 5) && p.ID == 85 {
			p.Vals[0] = genVal(t, "v", []string{"uint", "uint", "null"})
		}
		return os
	case "readmulti":
		return genObjs(t, objs, props)
	}
	return genWrites(t, objs, props)
}

// longFrame is a request whose frame has a certain length.
type longFrame struct {
	Kind  string `json:"kind"`
	Peer  peer   `json:"peer"`
	Total int    `json:"total"`
}

func init() {
	engine.Add("K06", "requests around the accepted size", "the request is within 40 octets of the accepted size, or the size is unknown", 6000, 250000,
		func(t *rapid.T) sizeCase {
			c := sizeCase{Kind: pick(t, "kind", "readmulti", "writemulti"), Peer: genPeer(t)}
			c.Objs = genRequest(t, c.Kind, pick(t, "most", 1, 5, 30), 6)
			c.Off = rapid.OneOf(rapid.IntRange(-3, 3), rapid.IntRange(-40, 40)).Draw(t, "off")
			if chance(t, "fixed", 25) {
				m := pick[uint32](t, "max", 0, 1, 2, 50, 128, 480, 1476, 65535, 65536, 0xFFFFFFFF)
				c.Max = &m
			}
			return c
		},
		func(r *engine.Rec, c sizeCase) error {
			var mu sync.Mutex
			var bad error
			return withClient(r, func(l *sim.Link) { responder(l, &mu, &bad) }, func(cl bacnet.Client, l *sim.Link) error {
				size := len(ref.NPDU{Version: 1, Dst: c.Peer.Via}.Enc()) + len(encodeRequest(c.Kind, 1, c.Objs))
				accepted := uint32(max(0, size-c.Off))
				if c.Max != nil {
					accepted = *c.Max
				}
				r.Hit(accepted == 0 || int64(accepted)-int64(size) < 40 && int64(accepted)-int64(size) > -40)
				fits := int64(size) <= int64(accepted)
				r.LabelIf(fits, "fits")
				r.LabelIf(!fits, "too large")
				r.LabelIf(accepted == 0, "unknown size")
				r.Label("%s", c.Kind)
				err := within(30*time.Second, "the request", func() error { return doRequest(cl, c.Kind, c.Peer.device(3, accepted), c.Objs) })
				time.Sleep(30 * time.Second)
				fs := l.Frames()
				if !fits {
					if err == nil {
						return fmt.Errorf("a request of %d octets for a device that accepts %d succeeds", size, accepted)
					}
					if len(fs) > 0 {
						return fmt.Errorf("a request of %d octets for a device that accepts %d is transmitted", size, accepted)
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("a request of %d octets for a device that accepts %d fails: %v", size, accepted, err)
				}
				if len(fs) != 1 {
					return fmt.Errorf("%d frames", len(fs))
				}
				if bad != nil {
					return bad
				}
				fr, _ := ref.ParseFrame(fs[0].Data)
				if err := c.Peer.checkFrame(fs[0], fr); err != nil {
					return err
				}
				return sameBytes("the request", encodeRequest(c.Kind, fr.Req.Invoke, c.Objs), fr.APDU)
			})
		})

	engine.Add("K10", "frames of all requests", "a destination is behind a router or is a broadcast", 6000, 250000,
		func(t *rapid.T) []frameOp {
			var c []frameOp
			for i := rapid.IntRange(1, 4).Draw(t, "ops"); i > 0; i-- {
				o := frameOp{Kind: pick(t, "kind", "read", "readmulti", "write", "writemulti", "iam", "iam", "devices", "number", "routers"), To: genDest(t)}
				switch o.Kind {
				case "iam":
					o.IAm = [4]uint32{genInst(t, "inst"), genU32(t, "max"), uint32(rapid.IntRange(0, 3).Draw(t, "seg")), genU32(t, "vendor")}
				case "devices":
					o.Low, o.High, o.All = rapid.IntRange(1, 4194302).Draw(t, "low"), 4194302, rapid.Bool().Draw(t, "all")
					if rapid.Bool().Draw(t, "net?") {
						o.Net = rapid.Uint16().Draw(t, "net")
					}
				case "number", "routers":
				default:
					o.Objs = genRequest(t, o.Kind, 4, 3)
					if chance(t, "large", 10) && o.Kind == "writemulti" { // its answer is small
						for n := rapid.IntRange(1, 60).Draw(t, "times"); n > 0; n-- {
							o.Objs = append(o.Objs, genRequest(t, o.Kind, 3, 3)...)
						}
					} else if p := o.Objs[0].Props[0]; chance(t, "long", 6) && o.Kind == "write" && p.ID != 85 {
						o.Objs[0].Props[0].Vals = []ref.Val{ref.Str(repeat('x', rapid.IntRange(200, 1400).Draw(t, "length")))}
					}
				}
				c = append(c, o)
			}
			return c
		},
		func(r *engine.Rec, c []frameOp) error {
			var mu sync.Mutex
			var bad error
			return withClient(r, func(l *sim.Link) { responder(l, &mu, &bad) }, func(cl bacnet.Client, l *sim.Link) error {
				for i, o := range c {
					n := len(l.Frames())
					dev := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: 1}, DeviceID: 1, Addr: o.To.addr(), MaxApdu: 100000, Segmentation: btypes.Enumerated(i % 4)}
					r.Label("%s", o.Kind)
					r.LabelIf(o.To.Net > 0 && len(o.To.Adr) > 0, "routed")
					r.LabelIf(o.To.fn() == 0x0B, "broadcast")
					r.Hit(o.To.Net > 0 || o.To.fn() == 0x0B)
					var err error
					fn, to := o.To.fn(), o.To.Mac
					npdu := ref.NPDU{Version: 1, Hop: 255}
					if o.To.Net != 0 {
						npdu.Dst = &ref.Net{Net: o.To.Net, Adr: o.To.Adr}
					}
					var apdu []byte
					what := fmt.Sprintf("operation %d (%s)", i, o.Kind)
					e := within(30*time.Second, what, func() error {
						switch o.Kind {
						case "iam":
							err = cl.IAm(o.To.addr(), btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(o.IAm[0])}, MaxApdu: o.IAm[1], Segmentation: btypes.Enumerated(o.IAm[2]), Vendor: o.IAm[3]})
							apdu = ref.IAm(o.IAm[0], o.IAm[1], o.IAm[2], o.IAm[3])
						case "devices":
							_, err = cl.WhoIs(&bacnet.WhoIsOpts{Low: o.Low, High: o.High, GlobalBroadcast: o.All, NetworkNumber: o.Net})
							fn, to, npdu.Dst = 0x0B, l.GetBroadcastAddress().Mac, nil
							if o.All {
								npdu.Dst = &ref.Net{Net: 65535}
							} else if o.Net != 0 {
								npdu.Dst = &ref.Net{Net: o.Net}
							}
							apdu = ref.WhoIs(int64(o.Low), int64(o.High))
						case "number", "routers":
							fn, to, npdu.Dst = 0x0B, l.GetBroadcastAddress().Mac, nil
							m := byte(0x12)
							if o.Kind == "number" {
								cl.WhatIsNetworkNumber()
							} else {
								m = 0
								cl.WhoIsRouterToNetwork()
							}
							npdu.Msg = &m
						default:
							err = doRequest(cl, o.Kind, dev, o.Objs)
							npdu.Expect = true
						}
						return nil
					})
					if e != nil {
						return e
					}
					fs := l.Frames()[n:]
					if len(fs) != 1 {
						return fmt.Errorf("%s sends %d frames, error %v", what, len(fs), err)
					}
					if npdu.Expect {
						apdu = encodeRequest(o.Kind, fs[0].Data[len(fs[0].Data)-len(encodeRequest(o.Kind, 0, o.Objs))+2], o.Objs)
					}
					if err := sameBytes("frame of "+what, ref.BVLC(fn, ref.Cat(npdu.Enc(), apdu)), fs[0].Data); err != nil {
						return err
					}
					if !bytes.Equal(fs[0].Dest.Mac, to) {
						return fmt.Errorf("%s is sent to %v instead of %v", what, fs[0].Dest.Mac, to)
					}
					if bad != nil {
						return bad
					}
					if err != nil {
						return fmt.Errorf("%s fails: %v", what, err)
					}
				}
				return nil
			})
		})

	engine.Add("K10", "messages of any length", "the message is within 100 octets of what the link header can say, or longer", 300, 8000,
		func(t *rapid.T) longFrame {
			c := longFrame{Kind: pick(t, "kind", "write", "writemulti"), Peer: genPeer(t)}
			c.Total = rapid.OneOf(rapid.IntRange(65530, 65540), rapid.IntRange(65436, 65635), rapid.IntRange(1500, 140000)).Draw(t, "total")
			return c
		},
		func(r *engine.Rec, c longFrame) error {
			var mu sync.Mutex
			var bad error
			return withClient(r, func(l *sim.Link) { responder(l, &mu, &bad) }, func(cl bacnet.Client, l *sim.Link) error {
				// A text that makes the frame as long as that
				o := ref.Obj{Type: 40, Inst: 7, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 28, Index: ref.ArrayAll}}}}
				frame := func(invoke byte, n int) []byte {
					o.Props[0].Vals = []ref.Val{ref.Str(repeat('x', n))}
					return ref.BVLC(0x0A, ref.Cat(ref.NPDU{Version: 1, Dst: c.Peer.Via, Hop: 255, Expect: true}.Enc(), encodeRequest(c.Kind, invoke, []ref.Obj{o})))
				}
				n := c.Total
				for k := 0; k < 3; k++ {
					n = max(0, n+c.Total-len(frame(1, n)))
				}
				total := len(frame(1, n))
				r.Hit(total > 65435)
				r.LabelIf(total > 65535, "too long")
				r.LabelIf(total <= 65535, "fits")
				err := within(60*time.Second, "the request", func() error {
					return doRequest(cl, c.Kind, c.Peer.device(3, 0xFFFFFFFF), []ref.Obj{o})
				})
				fs := l.Frames()
				if total > 65535 {
					if err == nil || len(fs) > 0 {
						return fmt.Errorf("a message of %d octets is sent: %d frames, error %v", total, len(fs), err)
					}
					return nil
				}
				if err != nil || len(fs) != 1 {
					return fmt.Errorf("a message of %d octets: %d frames, error %v", total, len(fs), err)
				}
				fr, e := ref.ParseFrame(fs[0].Data)
				if e != nil {
					return e
				}
				if err := c.Peer.checkFrame(fs[0], fr); err != nil {
					return err
				}
				return sameBytes("the message", frame(fr.Req.Invoke, n), fs[0].Data)
			})
		})

	engine.Add("C13", "requests of the client", "the request can't be expressed", 4000, 200000,
		func(t *rapid.T) invalidClientCase {
			c := invalidClientCase{Bad: genInvalid(t), To: genDest(t)}
			if chance(t, "i-am", 15) {
				c.IAm = &[4]uint32{genInst(t, "inst"), genU32(t, "max"), 3, genU32(t, "vendor")}
				c.Type = 8
				if rapid.Bool().Draw(t, "type") {
					c.Type = uint16(rapid.IntRange(1024, 65535).Draw(t, "t"))
				} else {
					c.IAm[0] = rapid.Uint32Range(0x400000, 0xFFFFFFFF).Draw(t, "big")
				}
			}
			return c
		},
		func(r *engine.Rec, c invalidClientCase) error {
			r.Hit(true)
			var mu sync.Mutex
			var bad error
			return withClient(r, func(l *sim.Link) { responder(l, &mu, &bad) }, func(cl bacnet.Client, l *sim.Link) error {
				var err error
				what := c.Bad.Service + " with bad " + c.Bad.What
				if c.IAm != nil {
					what = "i-am"
				}
				r.Label("%s", what)
				e := within(30*time.Second, what, func() error {
					if c.IAm != nil {
						err = cl.IAm(c.To.addr(), btypes.IAm{ID: btypes.ObjectID{Type: btypes.ObjectType(c.Type), Instance: btypes.ObjectInstance(c.IAm[0])}, MaxApdu: c.IAm[1], Segmentation: 3, Vendor: c.IAm[3]})
						return nil
					}
					dev := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: 1}, Addr: c.To.addr(), MaxApdu: 100000}
					err = doInvalid(cl, c.Bad.Service, dev, c.Bad.build())
					return nil
				})
				if e != nil {
					return e
				}
				if fs := l.Frames(); len(fs) > 0 {
					return fmt.Errorf("%s is transmitted as %x", what, fs[0].Data)
				}
				if err == nil {
					return fmt.Errorf("%s isn't transmitted but succeeds", what)
				}
				return nil
			})
		})

	engine.Add("C04", "truncated replies to the client", "the reply is cut inside of its only object", 4000, 200000,
		func(t *rapid.T) op {
			o := op{Kind: rapid.SampledFrom(opKinds).Draw(t, "kind"), Props: rapid.IntRange(1, 3).Draw(t, "props")}
			for k := range o.Plan {
				o.Plan[k] = []event{{What: "cut", DelayMs: rapid.IntRange(0, 200).Draw(t, "cut")}}
			}
			return o
		},
		func(r *engine.Rec, o op) error {
			r.Hit(o.Kind == "read" || o.Kind == "readmulti")
			r.Label("%s", o.Kind)
			c := opsCase{Peers: []peer{{Host: 20, Port: 47808}}, Ops: []op{o}}
			x := newOpsRun(c)
			return withClient(r, x.setup, func(cl bacnet.Client, l *sim.Link) error {
				if err := x.one(cl, 0); err != nil {
					return err
				}
				if x.st[0].ok {
					return fmt.Errorf("a truncated reply is a success")
				}
				return x.judge()
			})
		})

	engine.Add("K12", "large replies", "the reply has more than 1400 octets", 3000, 150000,
		func(t *rapid.T) bigCase {
			c := bigCase{Kind: pick(t, "kind", "read", "readmulti"), Size: rapid.OneOf(rapid.IntRange(1440, 1476), rapid.SampledFrom([]int{1476, 1475, 1470, 1024, 480, 1400}), rapid.IntRange(30, 1476)).Draw(t, "size"), MaxPDU: pick[uint16](t, "maxpdu", 0, 0, 50, 128, 206, 480, 1024, 1476, 2000)}
			if c.Kind == "read" {
				c.Objs = genObjs(t, 1, 1)
			} else {
				c.Objs = genObjs(t, 4, 3)
			}
			for i := range c.Objs {
				for j := range c.Objs[i].Props {
					c.Objs[i].Props[j].Vals = []ref.Val{genValN(t, "v", allKinds, 30)}
				}
			}
			net := func(l string) *ref.Net {
				if !chance(t, l+"?", 60) {
					return nil
				}
				return &ref.Net{Net: rapid.Uint16Range(1, 65534).Draw(t, l), Adr: rapid.SliceOfN(rapid.Byte(), 1, pick(t, l+"len", 1, 6, 18)).Draw(t, l+"adr")}
			}
			c.Src, c.Dst, c.Fwd = net("src"), net("dst"), rapid.Bool().Draw(t, "fwd")
			if chance(t, "largest", 20) {
				// the largest datagram there is: every header in front of the largest message
				full := func(l string) *ref.Net {
					return &ref.Net{Net: rapid.Uint16Range(1, 65534).Draw(t, l), Adr: rapid.SliceOfN(rapid.Byte(), 18, 18).Draw(t, l+"adr")}
				}
				c.Src, c.Dst, c.Fwd, c.Size = full("fullsrc"), full("fulldst"), true, 1476-rapid.IntRange(0, 2).Draw(t, "less")
			}
			return c
		},
		func(r *engine.Rec, c bigCase) error {
			objs, ack := c.filled()
			if len(ack) > 1476 {
				// the objects alone are too large
				return nil
			}
			r.Hit(len(ack) > 1400)
			r.LabelIf(len(ack) == 1476, "largest")
			r.LabelIf(c.Fwd && c.Src != nil && c.Dst != nil, "all headers")
			setup := func(l *sim.Link) {
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil {
						return err
					}
					b := clone(ack)
					b[1] = fr.Req.Invoke
					npdu := ref.Cat(ref.NPDU{Version: 1, Src: c.Src, Dst: c.Dst, Hop: 254}.Enc(), b)
					if c.Fwd {
						l.Inject(sim.IP(192, 168, 1, 1, 47808), forwarded(sim.IP(192, 168, 1, 20, 47808), npdu))
					} else {
						l.Inject(sim.IP(192, 168, 1, 20, 47808), ref.BVLC(0x0A, npdu))
					}
					return nil
				}
			}
			return withBuilder(r, &bacnet.ClientBuilder{MaxPDU: c.MaxPDU}, setup, func(cl bacnet.Client, l *sim.Link) error {
				dev := peer{Host: 20, Port: 47808}.device(1, 1476)
				return within(30*time.Second, "the request", func() error {
					if c.Kind == "read" {
						out, err := cl.ReadProperty(dev, toPD(strip(objs)[0]))
						if err != nil {
							return fmt.Errorf("a reply of %d octets: %v", len(ack), err)
						}
						return sameObj(objs[0], out.Object, true)
					}
					out, err := cl.ReadMultiProperty(dev, toMPD(strip(objs)))
					if err != nil {
						return fmt.Errorf("a reply of %d octets: %v", len(ack), err)
					}
					return sameObjs(objs, out.Objects)
				})
			})
		})

	genParts := func(t *rapid.T, most int) segmentCase {
		c := segmentCase{Kind: pick(t, "kind", "read", "readmulti", "readmulti"), Window: pick[byte](t, "window", 1, 1, 4, 127), Hold: rapid.IntRange(0, 300).Draw(t, "hold")}
		if c.Kind == "read" {
			c.Objs = genObjs(t, 1, 1)
			c.Objs[0].Props[0].Vals = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ref.Val { return genVal(t, "v", allKinds) }), 1, 6).Draw(t, "vals")
		} else {
			c.Objs = genObjs(t, 4, 3)
			for i := range c.Objs {
				for j := range c.Objs[i].Props {
					c.Objs[i].Props[j].Vals = []ref.Val{genVal(t, "v", allKinds)}
				}
			}
			if chance(t, "group?", 40) {
				c.Group = pick[uint32](t, "group", 8, 80, 105)
				if n := len(c.Objs); n > 1 && chance(t, "same object", 40) {
					// told in two goes
					c.Objs[n-1].Type, c.Objs[n-1].Inst = c.Objs[0].Type, c.Objs[0].Inst
				}
			}
		}
		for i := rapid.IntRange(min(most, 1), most).Draw(t, "cuts"); i > 0; i-- {
			c.Cuts = append(c.Cuts, rapid.IntRange(0, 1000).Draw(t, "cut"))
		}
		c.Any = chance(t, "any", 30)
		c.First = rapid.IntRange(0, 3).Draw(t, "first")
		return c
	}
	// whole makes the request and checks that its result, if any, is all of it
	whole := func(cl bacnet.Client, c segmentCase, some bool) error {
		dev := peer{Host: 20, Port: 47808}.device(1, 1476)
		return within(30*time.Second, "the request", func() error {
			var got []btypes.Object
			var err error
			if c.Kind == "read" {
				var out btypes.PropertyData
				out, err = cl.ReadProperty(dev, toPD(strip(c.Objs)[0]))
				got = []btypes.Object{out.Object}
			} else {
				var out btypes.MultiplePropertyData
				asked := strip(c.Objs)
				if c.Group != 0 {
					for i := range asked {
						asked[i].Props = []ref.PropV{{PropRef: ref.PropRef{ID: c.Group, Index: ref.ArrayAll}}}
					}
				}
				out, err = cl.ReadMultiProperty(dev, toMPD(asked))
				got = out.Objects
			}
			if err != nil {
				return nil
			}
			if !some {
				return fmt.Errorf("the request succeeds although nothing of its reply arrives")
			}
			if e := sameObjs(c.Objs, got); e != nil {
				return fmt.Errorf("a part of a reply is taken for all of it: %w", e)
			}
			return nil
		})
	}
	engine.Add("K12", "segments of a reply", "the segment ends where a value, property or object ends", 3000, 100000,
		func(t *rapid.T) segmentCase { return genParts(t, 3) },
		func(r *engine.Rec, c segmentCase) error {
			parts := c.segments()
			r.Hit(!c.Any && len(parts) > 1)
			r.Label("%d segments", len(parts))
			setup := func(l *sim.Link) {
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil || fr.Req.Type != 0 {
						return nil
					}
					for i, p := range parts {
						if i < c.First && len(parts) > 1 {
							continue // lost
						}
						b := ref.Cat([]byte{0x38, fr.Req.Invoke, byte(i), c.Window, p[2]}, p[3:])
						if i < len(parts)-1 {
							b[0] |= 4
						}
						l.InjectLater(time.Duration(i*c.Hold)*ms, f.Dest, sim.Reply(fr.Net.Dst, b))
					}
					return nil
				}
			}
			return withClient(r, setup, func(cl bacnet.Client, l *sim.Link) error {
				return whole(cl, c, c.First < len(parts) || len(parts) == 1)
			})
		}, engine.Limit(30*time.Second))

	engine.Add("K12", "incomplete datagrams", "the part that arrives ends where a value, property or object ends", 3000, 100000,
		func(t *rapid.T) segmentCase { return genParts(t, 1) },
		func(r *engine.Rec, c segmentCase) error {
			parts := c.segments()
			r.Hit(!c.Any && len(parts) > 1)
			setup := func(l *sim.Link) {
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil || fr.Req.Type != 0 {
						return nil
					}
					lost := 0
					b := clone(parts[0])
					b[1] = fr.Req.Invoke
					for _, p := range parts[1:] {
						b = append(b, p[3:]...)
						lost += len(p) - 3
					}
					d := sim.Reply(fr.Net.Dst, b)
					if c.First == 0 {
						d = forwarded(f.Dest, ref.Cat(ref.NPDU{Version: 1, Src: fr.Net.Dst}.Enc(), b))
					}
					l.Inject(f.Dest, d[:len(d)-lost])
					return nil
				}
			}
			return withClient(r, setup, func(cl bacnet.Client, l *sim.Link) error { return whole(cl, c, true) })
		}, engine.Limit(30*time.Second))

	engine.Add("K11", "frames that are no replies", "a frame carries the id of the request but isn't its reply", 6000, 250000,
		func(t *rapid.T) fakeCase {
			c := fakeCase{Kind: rapid.SampledFrom(opKinds).Draw(t, "kind"), Peer: genPeer(t), At: rapid.IntRange(0, 4500).Draw(t, "at"), Fwd: rapid.Bool().Draw(t, "fwd"), Fn: pick[byte](t, "fn", 0x0A, 0x0A, 0x0B)}
			if chance(t, "lost", 15) {
				c.At = -1
			}
			if chance(t, "error", 20) {
				c.Error = &ref.ErrVal{Class: uint32(rapid.IntRange(1, 6).Draw(t, "class")), Code: uint32(rapid.IntRange(1, 100).Draw(t, "code"))}
			}
			if chance(t, "dst", 20) {
				c.Dst = &ref.Net{Net: rapid.Uint16Range(1, 65535).Draw(t, "dnet"), Adr: rapid.SliceOfN(rapid.Byte(), 0, 7).Draw(t, "dadr")}
			}
			for i := rapid.IntRange(0, 6).Draw(t, "fakes"); i > 0; i-- {
				c.Fakes = append(c.Fakes, fake{At: rapid.IntRange(0, 4500).Draw(t, "when"), Kind: rapid.SampledFrom(fakeKinds).Draw(t, "what"), N: rapid.Uint32Range(0, 300).Draw(t, "n"), Data: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "data"), Fwd: chance(t, "ffwd", 30)})
			}
			return c
		},
		func(r *engine.Rec, c fakeCase) error {
			r.Hit(len(c.Fakes) > 0)
			for _, f := range c.Fakes {
				r.Label("%s", f.Kind)
			}
			r.LabelIf(c.Fwd, "forwarded")
			r.LabelIf(c.At < 0, "no reply")
			o := op{Kind: c.Kind, Props: 2}
			return withClient(r, func(l *sim.Link) {
				l.OnSend = func(f sim.Frame) error {
					if len(l.Frames()) > 1 {
						return nil
					}
					fr, err := ref.ParseFrame(f.Data)
					if err != nil {
						return err
					}
					ack := o.ok(fr.Req.Invoke, 0)
					for _, k := range c.Fakes {
						l.InjectLater(time.Duration(k.At)*ms, k.source(c.Peer), k.frame(fr.Req.Invoke, o.service(), ack, c.Peer))
					}
					if c.At < 0 {
						return nil
					}
					if c.Error != nil {
						ack = ref.Error(fr.Req.Invoke, o.service(), *c.Error, c.At%2 == 0)
					}
					npdu := ref.Cat(ref.NPDU{Version: 1, Src: c.Peer.Via, Dst: c.Dst, Hop: 3}.Enc(), ack)
					at := time.Duration(c.At)*ms + 500*time.Microsecond
					if c.Fwd {
						l.InjectLater(at, sim.IP(192, 168, 1, 1, 47808), forwarded(c.Peer.ip(), npdu))
					} else {
						l.InjectLater(at, c.Peer.ip(), ref.BVLC(c.Fn, npdu))
					}
					return nil
				}
			}, func(cl bacnet.Client, l *sim.Link) error {
				return within(30*time.Second, "the request", func() error {
					ok, reported, err := o.call(cl, c.Peer.device(1, 1476), 0)
					if err != nil {
						return err
					}
					end := l.Now()
					at := time.Duration(c.At)*ms + 500*time.Microsecond
					switch {
					case c.At < 0:
						if ok || end < 5*time.Second {
							return fmt.Errorf("the request ends at %v (%v) although nobody answers it", end, reported)
						}
					case c.Error == nil && (!ok || end != at):
						return fmt.Errorf("the request ends at %v (%v) instead of %v when it is answered", end, reported, at)
					case c.Error != nil && (ok || !names(reported, *c.Error) && (o.Kind == "read" || o.Kind == "write")):
						return fmt.Errorf("the device's error %v becomes %v", *c.Error, reported)
					case c.Error != nil && end < at:
						return fmt.Errorf("the request ends at %v before it is answered at %v", end, at)
					}
					return nil
				})
			})
		})
}

// strip removes the values.
func strip(os []ref.Obj) []ref.Obj {
	var out []ref.Obj
	for _, o := range os {
		o = clone2(o)
		for j := range o.Props {
			o.Props[j].Vals = nil
		}
		out = append(out, o)
	}
	return out
}
