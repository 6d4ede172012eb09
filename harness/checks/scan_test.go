package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

type scanObj struct {
	Type uint16  `json:"type"`
	Inst uint32  `json:"inst"`
	Name ref.Val `json:"name"`
	Desc ref.Val `json:"desc"`
}

// scanCase is a device that is scanned.
type scanCase struct {
	Inst uint32    `json:"inst"`
	Peer peer      `json:"peer"`
	Max  uint32    `json:"max"`
	Objs []scanObj `json:"objs"`
	// Many is the number of objects there are besides
	Many int `json:"many,omitempty"`
	// Fault is what goes wrong at the At-th request
	Fault string     `json:"fault,omitempty"`
	At    int        `json:"at"`
	N     uint32     `json:"n"`
	Err   ref.ErrVal `json:"err"`
	Delay int        `json:"delay"` // ms for each reply
}

var scanFaults = []string{"error pdu", "property error", "silent", "lost", "fewer objects", "fewer properties", "more objects", "no objects", "other object", "swapped", "other property", "other index", "wrong datatype", "list", "truncated", "wrong length", "huge length", "reject"}

func genScanObjs(t *rapid.T, inst uint32, most int) []scanObj {
	seen := map[[2]uint32]bool{}
	var out []scanObj
	n := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, most)).Draw(t, "n")
	dense := rapid.Bool().Draw(t, "dense")
	for i := 0; i < n; i++ {
		o := scanObj{Type: genObjType(t, "type"), Inst: genInst(t, "oinst")}
		if dense {
			o.Type, o.Inst = uint16(i%5), uint32(i/5)
		}
		if len(out) == 0 && rapid.Bool().Draw(t, "itself") {
			o.Type, o.Inst = 8, inst
		}
		if o.Type == 8 && o.Inst == 0x3FFFFF {
			o.Inst-- // this one stands for the device itself
		}
		if k := [2]uint32{uint32(o.Type), o.Inst}; seen[k] {
			continue
		} else {
			seen[k] = true
		}
		o.Name = ref.Str(fmt.Sprintf("object %d:%d", o.Type, o.Inst))
		if chance(t, "nameless", 5) {
			o.Name = ref.Str("")
		}
		o.Desc = ref.Str(genText(t, "desc", 20))
		if chance(t, "longer", 3) {
			o.Desc = ref.Str(strings.Repeat("0123456789abcdefghij", 10)[:rapid.IntRange(60, 200).Draw(t, "desclen")])
		} else if chance(t, "ucs", 10) {
			o.Desc = genValN(t, "desc", []string{"ucs2"}, 20)
		}
		out = append(out, o)
	}
	return out
}

// spoil makes the fault out of the right reply.
func (c scanCase) spoil(q ref.Req, d *sim.Device) ([]byte, bool) {
	good := func() []byte { return d.Answer(q) }
	if c.Fault == "error pdu" {
		return ref.Error(q.Invoke, q.Service, c.Err, c.N%2 == 0), true
	}
	switch c.Fault {
	case "silent":
		return nil, true
	case "reject":
		return ref.Reject(q.Invoke, byte(c.N)), true
	case "truncated":
		b := good()
		if q.Service == 14 && len(q.Objs) > 0 {
			// not between two objects, that's fewer objects
			first := len(ref.ReadMultiAck(q.Invoke, q.Objs[:1]))
			return b[:4+int(c.N)%(max(1, min(len(b), first)-4))], true
		}
		return b[:4+int(c.N)%(len(b)-4)], true
	}
	d.Answer(q) // fills in the values
	os := q.Objs
	o := &os[int(c.N)%len(os)]
	p := &o.Props[int(c.N/7)%len(o.Props)]
	if q.Service == 12 && c.Fault != "wrong datatype" && c.Fault != "wrong length" && c.Fault != "huge length" && c.Fault != "list" {
		return nil, false
	}
	switch c.Fault {
	case "property error":
		p.Vals, p.Err = nil, &c.Err
	case "fewer objects":
		os = os[:len(os)-1]
		if len(os) == 0 {
			return nil, false
		}
	case "no objects":
		os = nil
	case "fewer properties":
		o.Props = o.Props[:len(o.Props)-1]
		if len(o.Props) == 0 {
			return nil, false
		}
	case "more objects":
		os = append(os, os[0])
	case "other object":
		o.Inst ^= 1
	case "swapped":
		if len(os) < 2 {
			if len(o.Props) < 2 {
				return nil, false
			}
			o.Props[0], o.Props[1] = o.Props[1], o.Props[0]
		} else {
			os[0], os[1] = os[1], os[0]
		}
	case "other property":
		p.ID++
	case "other index":
		p.Index++
	case "wrong datatype":
		p.Vals = []ref.Val{ref.Real(3)}
	case "list":
		p.Vals = append(append([]ref.Val{}, p.Vals...), p.Vals...)
	case "wrong length":
		if q.Service != 12 {
			return nil, false
		}
		p.Vals = []ref.Val{ref.Uint(uint32(len(c.Objs)) + 1 + c.N%50)}
	}
	if c.Fault == "huge length" {
		if q.Service != 12 {
			return nil, false
		}
		p.Vals = []ref.Val{ref.Uint(1<<24 + c.N)}
	}
	if q.Service == 12 {
		return ref.ReadAck(q.Invoke, os[0]), true
	}
	return ref.ReadMultiAck(q.Invoke, os), true
}

func (c scanCase) device() *sim.Device {
	d := sim.NewDevice(c.Inst)
	var list []ref.Val
	for _, o := range c.Objs {
		list = append(list, ref.OID(o.Type, o.Inst))
		d.Set(o.Type, o.Inst, 77, o.Name)
		d.Set(o.Type, o.Inst, 28, o.Desc)
	}
	d.SetArray(8, c.Inst, 76, list...)
	return d
}

// same checks that the objects are those of the device.
func (c scanCase) same(m btypes.ObjectMap) error {
	n := 0
	for t, os := range m {
		for i, o := range os {
			n++
			if o.ID.Type != t || o.ID.Instance != i {
				return fmt.Errorf("object %v is filed under %v:%v", o.ID, t, i)
			}
		}
	}
	if n != len(c.Objs) {
		return fmt.Errorf("%d objects instead of %d", n, len(c.Objs))
	}
	for _, w := range c.Objs {
		o, ok := m[btypes.ObjectType(w.Type)][btypes.ObjectInstance(w.Inst)]
		if !ok {
			return fmt.Errorf("object %d:%d is missing", w.Type, w.Inst)
		}
		if w.Type > 128 && o.Name == "" && o.Description == "" {
			continue
		}
		if o.Name != string(w.Name.B) || o.Description != string(w.Desc.B) {
			return fmt.Errorf("object %d:%d has the name %q and description %q instead of %q and %q", w.Type, w.Inst, o.Name, o.Description, w.Name.B, w.Desc.B)
		}
	}
	return nil
}

func init() {
	engine.Add("K09", "scans", "there are more objects than fit one request, or the device fails or answers wrongly", 3000, 150000,
		func(t *rapid.T) scanCase {
			c := scanCase{Inst: min(genInst(t, "inst"), 0x3FFFFE), Peer: genPeer(t)}
			c.Max = rapid.OneOf(rapid.SampledFrom([]uint32{50, 128, 206, 480, 1024, 1476}), rapid.Uint32Range(50, 1476), rapid.Uint32Range(50, 120)).Draw(t, "max")
			if chance(t, "huge", 10) {
				// over other networks more is possible
				c.Max = rapid.OneOf(rapid.SampledFrom([]uint32{1477, 1497, 2048, 4096, 61327, 65535, 65536, 1 << 24}), rapid.Uint32Range(1477, 5000), rapid.Uint32Range(1477, 70000)).Draw(t, "hugemax")
			}
			c.Objs = genScanObjs(t, c.Inst, 160)
			if chance(t, "faulty", 55) {
				c.Fault = rapid.SampledFrom(scanFaults).Draw(t, "fault")
				most := 1 + len(c.Objs)/int(max(1, c.Max/20)) + len(c.Objs)/4 + 1
				c.At = rapid.IntRange(0, most).Draw(t, "at")
				c.N = rapid.Uint32Range(0, 5000).Draw(t, "n")
				c.Err = ref.ErrVal{Class: uint32(rapid.IntRange(0, 7).Draw(t, "class")), Code: uint32(rapid.IntRange(1, 100).Draw(t, "code"))}
			}
			c.Delay = pick(t, "delay", 0, 0, 1, 100)
			if c.Max > 1476 && chance(t, "some", 50) {
				c.Many = rapid.IntRange(100, 400).Draw(t, "somen")
			}
			if c.Max >= 480 && chance(t, "many", 2) {
				c.Many = rapid.OneOf(rapid.IntRange(200, 600), rapid.IntRange(200, 5000), rapid.IntRange(5000, 20000)).Draw(t, "manyn")
			}
			return c
		},
		func(r *engine.Rec, c scanCase) error {
			for i := 0; i < c.Many; i++ {
				o := scanObj{Type: 20, Inst: uint32(0x200000 + i)}
				o.Name, o.Desc = ref.Str(fmt.Sprintf("log %d", i)), ref.Str("")
				c.Objs = append(c.Objs, o)
			}
			r.LabelIf(len(c.Objs) > 1000, "more than 1000 objects")
			r.Hit(len(c.Objs) > int(c.Max/20) || c.Fault != "")
			r.LabelIf(len(c.Objs) == 0, "no objects")
			r.LabelIf(len(c.Objs)%max(1, int(c.Max/20)) == 0 && len(c.Objs) > 0, "whole requests")
			r.LabelIf(c.Peer.Via != nil, "routed")
			r.LabelIf(c.Max > 1476, "more than the client accepts")
			d := c.device()
			var bad error
			requests, at, spoiled := 0, -1, false
			setup := func(l *sim.Link) {
				var last []byte
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil || len(fr.Req.Objs) == 0 {
						bad = fmt.Errorf("unexpected frame %x: %v", f.Data, err)
						return nil
					}
					if e := c.Peer.checkFrame(f, fr); e != nil {
						bad = e
					}
					if n := len(f.Data) - 4; n > int(c.Max) {
						bad = fmt.Errorf("a request of %d octets is sent to a device that accepts %d", n, c.Max)
					}
					// A retransmission has the same number
					if string(last) != string(f.Data) {
						at++
					}
					again := string(last) == string(f.Data)
					last = f.Data
					requests++
					reply := d.Answer(fr.Req)
					if c.Fault != "" && at == c.At && !(c.Fault == "lost" && again) {
						if c.Fault == "lost" {
							spoiled = fr.Req.Service == 12
							return nil
						}
						if b, ok := c.spoil(fr.Req, d); ok {
							reply, spoiled = b, true
						}
					}
					if len(reply) > 1476 {
						// The client says that it doesn't accept more
						r.Label("reply that can't be sent")
						reply = ref.Abort(fr.Req.Invoke, 4)
					}
					if reply != nil {
						l.InjectLater(time.Duration(c.Delay)*ms, c.Peer.ip(), c.Peer.reply(reply))
					}
					return nil
				}
			}
			return withClient(r, setup, func(cl bacnet.Client, l *sim.Link) error {
				var got btypes.Device
				var err error
				e := within(10*time.Minute, "the scan", func() error {
					got, err = cl.Objects(c.Peer.device(c.Inst, c.Max))
					return nil
				})
				if e != nil {
					return e
				}
				if bad != nil {
					return bad
				}
				if spoiled {
					r.Label("%s", c.Fault)
				}
				if err != nil {
					if !spoiled {
						return fmt.Errorf("scanning a device that answers correctly fails: %v", err)
					}
					return nil
				}
				if e := c.same(got.Objects); e != nil {
					return fmt.Errorf("%s, without an error: %w", c.Fault, e)
				}
				if want := c.Peer.device(c.Inst, c.Max); got.ID != want.ID || got.MaxApdu != want.MaxApdu || string(got.Addr.Mac) != string(want.Addr.Mac) {
					return fmt.Errorf("the device becomes %+v", got)
				}
				return nil
			})
		}, engine.Limit(60*time.Second))
}
