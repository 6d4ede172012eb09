package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"

	"pgregory.net/rapid"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"

	"verif/engine"
	"verif/ref"
)

// ---------------------------------------------------------------- messages

// genValued generates objects with properties and values of all kinds.
func genValued(t *rapid.T, maxObjs, maxProps, maxVals int, constructed bool) []ref.Obj {
	os := genObjs(t, maxObjs, maxProps)
	for i := range os {
		for j := range os[i].Props {
			p := &os[i].Props[j]
			if constructed && chance(t, "constructed", 30) {
				p.Raw = genConstructed(t, 3)
			} else {
				p.Vals = genVals(t, allKinds, maxVals)
			}
		}
	}
	return os
}

// genConstructed generates the octets of constructed data: application values,
// context tagged values, and both nested in opening and closing tags.
func genConstructed(t *rapid.T, depth int) []byte {
	var b []byte
	n := rapid.IntRange(1, 4).Draw(t, "parts")
	for i := 0; i < n; i++ {
		num := byte(rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 30), rapid.IntRange(0, 254)).Draw(t, "ctx"))
		kinds, most := allKinds, 60
		if chance(t, "long", 6) {
			// one of which the length takes more than an octet
			kinds, most = []string{"octets", "str"}, 700
		}
		switch k := rapid.IntRange(0, 3).Draw(t, "part"); {
		case k == 0:
			b = append(b, genLongN(t, "app", kinds, most).Enc()...)
		case k == 1:
			b = append(b, genLongN(t, "ctxval", kinds, most).Ctx(num)...)
		case k == 2:
			// a time stamp
			d, tm := ref.Val{K: "date", B: genDate(t, "d")}, ref.Val{K: "time", B: genTime(t, "t")}
			b = ref.Cat(b, ref.Open(2), d.Enc(), tm.Enc(), ref.Close(2))
		case depth > 0:
			b = ref.Cat(b, ref.Open(num), genConstructed(t, depth-1), ref.Close(num))
		default:
			b = ref.Cat(b, ref.Open(num), ref.Close(num))
		}
	}
	return b
}

// genLongN is a value of up to most octets, a long one if many are allowed.
func genLongN(t *rapid.T, label string, kinds []string, most int) ref.Val {
	if most <= 60 {
		return genValN(t, label, kinds, most)
	}
	n := rapid.OneOf(rapid.IntRange(250, 260), rapid.IntRange(0, most)).Draw(t, label+"/n")
	if rapid.SampledFrom(kinds).Draw(t, label+"/kind") == "str" {
		return ref.Str(strings.Repeat("y", n))
	}
	return ref.Val{K: "octets", B: bytes.Repeat([]byte{rapid.Byte().Draw(t, label+"/fill")}, n)}
}

func genNPDU(t *rapid.T, msg bool) ref.NPDU {
	n := ref.NPDU{Version: 1, Prio: byte(rapid.IntRange(0, 3).Draw(t, "prio")), Expect: rapid.Bool().Draw(t, "expect"), Hop: rapid.Byte().Draw(t, "hop")}
	if chance(t, "version", 10) {
		n.Version = rapid.Byte().Draw(t, "v")
	}
	addr := func(label string) *ref.Net {
		if !chance(t, label+"?", 60) {
			return nil
		}
		m := pick(t, label+"/most", 6, 6, 20, 255)
		return &ref.Net{
			Net: rapid.OneOf(rapid.Uint16Range(1, 65535), rapid.SampledFrom([]uint16{1, 255, 256, 65535})).Draw(t, label+"/net"),
			Adr: rapid.SliceOfN(rapid.Byte(), 0, m).Draw(t, label+"/adr"),
		}
	}
	n.Dst, n.Src = addr("dst"), addr("src")
	if msg {
		m := rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 0x12, 0x13, 0x7F, 0x80, 0xFF})).Draw(t, "msg")
		n.Msg = &m
		if m >= 0x80 {
			n.Vendor = rapid.Uint16().Draw(t, "vendor")
		}
	}
	return n
}

// A decoder under test.
type decoderTest struct {
	name string
	// msg generates a well formed message
	msg func(t *rapid.T) []byte
	run func(b []byte, n int64) error
}

func runOn(f func(d *encoding.Decoder) error) func([]byte, int64) error {
	return func(b []byte, _ int64) error {
		d := encoding.NewDecoder(b)
		return decErr(d, f(d))
	}
}

var decoders = []decoderTest{
	{"value", func(t *rapid.T) []byte { return ref.EncAll(genVals(t, allKinds, 4)) }, runOn(func(d *encoding.Decoder) error {
		for len(d.Bytes()) > 0 {
			if _, err := d.AppData(); decErr(d, err) != nil {
				return decErr(d, err)
			}
		}
		return nil
	})},
	{"value of tag", func(t *rapid.T) []byte { return genVal(t, "v", allKinds).Content() }, func(b []byte, n int64) error {
		d := encoding.NewDecoder(b)
		_, err := d.AppDataOfTag(uint8(n>>40), int(int32(n)))
		return decErr(d, err)
	}},
	{"read property", func(t *rapid.T) []byte { return ref.ReadAckBody(genValued(t, 1, 1, 5, true)[0]) }, runOn(func(d *encoding.Decoder) error {
		return d.ReadProperty(&btypes.PropertyData{})
	})},
	{"read multiple", func(t *rapid.T) []byte {
		os := genValued(t, 3, 3, 3, true)
		if chance(t, "err", 15) {
			os[0].Props[0].Err = &ref.ErrVal{Class: genU32(t, "class"), Code: genU32(t, "code")}
		}
		return ref.ReadMultiAckBody(os)
	}, runOn(func(d *encoding.Decoder) error {
		return d.ReadMultiplePropertyAck(&btypes.MultiplePropertyData{})
	})},
	{"network header", func(t *rapid.T) []byte {
		b := genNPDU(t, rapid.Bool().Draw(t, "netmsg")).Enc()
		return append(b, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "payload")...)
	}, runOn(func(d *encoding.Decoder) error {
		_, err := d.NPDU(&btypes.NPDU{})
		return err
	})},
	{"application header", func(t *rapid.T) []byte { return genAPDU(t) }, runOn(func(d *encoding.Decoder) error {
		return d.APDU(&btypes.APDU{})
	})},
	{"link header", func(t *rapid.T) []byte {
		return ref.BVLC(rapid.Byte().Draw(t, "fn"), rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(t, "payload"))
	}, runOn(func(d *encoding.Decoder) error { return d.BVLC(&btypes.BVLC{}) })},
	{"i-am", func(t *rapid.T) []byte {
		return ref.IAm(genInst(t, "inst"), genU32(t, "max"), uint32(rapid.IntRange(0, 4).Draw(t, "seg")), genU32(t, "vendor"))[2:]
	}, runOn(func(d *encoding.Decoder) error { return d.IAm(&btypes.IAm{}) })},
	{"who-is", func(t *rapid.T) []byte {
		return ref.WhoIs(int64(genInst(t, "low")), int64(genInst(t, "high")))[2:]
	}, runOn(func(d *encoding.Decoder) error {
		var low, high int32
		return d.WhoIs(&low, &high)
	})},
	{"address", func(t *rapid.T) []byte {
		a := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "adr")
		return ref.Cat([]byte{1, 2, byte(len(a))}, a)
	}, runOn(func(d *encoding.Decoder) error { d.Address(&btypes.Address{}); return nil })},
	{"skip", func(t *rapid.T) []byte { return rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "b") }, func(b []byte, n int64) error {
		d := encoding.NewDecoder(b)
		return decErr(d, d.Skip(uint32(n)))
	}},
}

func genAPDU(t *rapid.T) []byte {
	id, service := rapid.Byte().Draw(t, "id"), rapid.Byte().Draw(t, "service")
	payload := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "payload")
	switch rapid.IntRange(0, 6).Draw(t, "pdu") {
	case 0:
		return ref.Cat([]byte{0x30, id, service}, payload)
	case 1:
		return ref.Cat([]byte{0x38, id, rapid.Byte().Draw(t, "seq"), rapid.Byte().Draw(t, "win"), service}, payload)
	case 2:
		return ref.SimpleAck(id, service)
	case 3:
		return ref.Cat([]byte{0x10, service}, payload)
	case 4:
		return ref.Cat([]byte{0x00, rapid.Byte().Draw(t, "sizes"), id, service}, payload)
	case 5:
		return ref.Error(id, service, ref.ErrVal{Class: genU32(t, "class"), Code: genU32(t, "code")}, rapid.Bool().Draw(t, "enclosed"))
	default:
		return ref.Cat([]byte{rapid.Byte().Draw(t, "type"), id, service}, payload)
	}
}

// mutate damages a message.
func mutate(t *rapid.T, b []byte) []byte {
	b = clone(b)
	for i := rapid.IntRange(0, 4).Draw(t, "mutations"); i > 0; i-- {
		if len(b) == 0 {
			return b
		}
		at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 6).Draw(t, "mutation") {
		case 0:
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			b[at] = rapid.Byte().Draw(t, "octet")
		case 2:
			b = b[:at]
		case 3:
			b = ref.Cat(b[:at], rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "insert"), b[at:])
		case 4: // lengths that can't be
			x := pick(t, "length", []byte{5, 254, 255, 255}, []byte{0x75, 255, 255, 255, 255, 255}, []byte{0x65, 255, 0x7F, 255, 255, 255}, []byte{0x25, 200}, []byte{0x85, 255, 0x80, 0, 0, 0}, []byte{0xFE, 255}, []byte{0x3D, 255, 255, 255, 255, 255})
			b = ref.Cat(b[:at], x, b[at:])
		case 5:
			n := rapid.IntRange(1, len(b)-at).Draw(t, "dup")
			b = ref.Cat(b[:at+n], b[at:])
		default: // opening and closing tags
			b = ref.Cat(b[:at], []byte{rapid.Byte().Draw(t, "tag")&0xF0 | pick[byte](t, "mark", 0x0E, 0x0F)}, b[at:])
		}
	}
	return b
}

type hostileCase struct {
	Dec   string `json:"dec"`
	Data  []byte `json:"data"`
	N     int64  `json:"n"`
	Times int    `json:"times"`
}

// run decodes the octets, r may be nil.
func (c hostileCase) run(r *engine.Rec) error {
	if r != nil {
		r.Label("%s", c.Dec)
		r.Hit(len(c.Data) > 8 || c.Times > 1)
	}
	in := clone(c.Data)
	for i := 1; i < c.Times; i++ {
		in = append(in, c.Data...)
	}
	for _, d := range decoders {
		if d.name != c.Dec {
			continue
		}
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		err := d.run(in, c.N)
		runtime.ReadMemStats(&after)
		if r != nil {
			r.LabelIf(err != nil, "refused")
			r.LabelIf(err == nil, "accepted")
		}
		if used, most := after.TotalAlloc-before.TotalAlloc, uint64(1<<20+4096*len(in)); used > most {
			return fmt.Errorf("decoding %d octets as %s allocates %d octets", len(in), c.Dec, used)
		}
	}
	return nil
}

type cutCase struct {
	Kind string     `json:"kind"`
	Val  *ref.Val   `json:"val,omitempty"`
	Objs []ref.Obj  `json:"objs,omitempty"`
	NPDU *ref.NPDU  `json:"npdu,omitempty"`
	Nets []uint16   `json:"nets,omitempty"`
	Nums [4]uint32  `json:"nums"`
	Err  ref.ErrVal `json:"err"`
}

// mustFail runs the decoder on every cut except the allowed ones.
func mustFail(msg []byte, allowed map[int]bool, run func(d *encoding.Decoder) error) error {
	for n := 0; n < len(msg); n++ {
		if allowed[n] {
			continue
		}
		d := encoding.NewDecoder(clone(msg[:n]))
		if decErr(d, run(d)) == nil {
			return fmt.Errorf("%x cut to its first %d octets is decoded without an error", msg, n)
		}
	}
	d := encoding.NewDecoder(clone(msg))
	if err := decErr(d, run(d)); err != nil {
		return fmt.Errorf("the complete message %x is refused: %v", msg, err)
	}
	return nil
}

func init() {
	engine.Add("C03", "hostile octets", "the octets are a damaged message or a long one, not just a few random octets", 40000, 3000000,
		func(t *rapid.T) hostileCase {
			dec := rapid.SampledFrom(decoders).Draw(t, "decoder")
			c := hostileCase{Dec: dec.name, N: rapid.Int64().Draw(t, "n")}
			if rapid.Bool().Draw(t, "tag") {
				c.N = int64(rapid.IntRange(0, 16).Draw(t, "number"))<<40 | int64(uint32(rapid.OneOf(rapid.Int32Range(-3, 300), rapid.Int32()).Draw(t, "len")))
			}
			switch rapid.IntRange(0, 9).Draw(t, "how") {
			case 0:
				c.Data = sliceUpTo(t, "data", rapid.Byte(), 0, 40)
			case 1:
				c.Data = sliceUpTo(t, "data", rapid.Byte(), 0, 1600)
			case 2: // repeated
				x := mutate(t, dec.msg(t))
				if len(x) > 0 {
					c.Times = rapid.IntRange(1, 1+20000/len(x)).Draw(t, "times")
				}
				c.Data = x
			default:
				c.Data = mutate(t, dec.msg(t))
			}
			return c
		},
		func(r *engine.Rec, c hostileCase) error { return c.run(r) })

	// The same with octets of one message handed to the decoder of another.
	engine.Add("C03", "messages of another kind", "the message isn't empty", 10000, 500000,
		func(t *rapid.T) hostileCase {
			from, dec := rapid.SampledFrom(decoders).Draw(t, "from"), rapid.SampledFrom(decoders).Draw(t, "decoder")
			return hostileCase{Dec: dec.name, Data: from.msg(t), N: rapid.Int64().Draw(t, "n")}
		},
		func(r *engine.Rec, c hostileCase) error {
			r.Hit(len(c.Data) > 0)
			for _, d := range decoders {
				if d.name == c.Dec {
					var before, after runtime.MemStats
					runtime.ReadMemStats(&before)
					d.run(clone(c.Data), c.N)
					runtime.ReadMemStats(&after)
					if used, most := after.TotalAlloc-before.TotalAlloc, uint64(1<<20+4096*len(c.Data)); used > most {
						return fmt.Errorf("decoding %d octets as %s allocates %d octets", len(c.Data), c.Dec, used)
					}
				}
			}
			return nil
		})

	kinds := []string{"value", "npdu", "router", "network is", "complex ack", "segmented ack", "simple ack", "request", "segmented request", "unconfirmed", "error", "read", "read", "multi", "multi", "iam", "whois", "bvlc"}
	engine.Add("C04", "every cut", "the message has more than four octets", 20000, 600000,
		func(t *rapid.T) cutCase {
			c := cutCase{Kind: pick(t, "kind", kinds...)}
			switch c.Kind {
			case "value":
				v := genValN(t, "v", allKinds, 60)
				c.Val = &v
			case "npdu":
				n := genNPDU(t, rapid.Bool().Draw(t, "netmsg"))
				if n.Msg != nil && (*n.Msg == 1 || *n.Msg == 0x13) {
					*n.Msg = 2
				}
				c.NPDU = &n
			case "router", "network is":
				n := genNPDU(t, false)
				m := byte(1)
				if c.Kind != "router" {
					m = 0x13
				}
				n.Msg = &m
				c.NPDU = &n
				c.Nets = rapid.SliceOfN(rapid.Uint16(), 1, 6).Draw(t, "nets")
			case "error":
				c.Err = ref.ErrVal{Class: genU32(t, "class"), Code: genU32(t, "code")}
				c.Nums[3] = uint32(rapid.IntRange(0, 1).Draw(t, "enclosed"))
			case "read":
				c.Objs = genValued(t, 1, 1, 4, true)
			case "multi":
				c.Objs = genValued(t, 3, 3, 3, true)
			default:
				c.Nums = [4]uint32{genInst(t, "a"), genU32(t, "b"), genU32(t, "c"), genU32(t, "d")}
			}
			return c
		},
		func(r *engine.Rec, c cutCase) error {
			r.Label("%s", c.Kind)
			none := map[int]bool{}
			apdu := func(d *encoding.Decoder) error { return d.APDU(&btypes.APDU{}) }
			a, b := byte(c.Nums[0]), byte(c.Nums[1])
			switch c.Kind {
			case "value":
				r.Hit(len(c.Val.Enc()) > 4)
				return mustFail(c.Val.Enc(), none, func(d *encoding.Decoder) error { _, err := d.AppData(); return err })
			case "npdu", "router", "network is":
				msg := c.NPDU.Enc()
				head := len(msg)
				if c.Kind == "router" {
					for i, n := range c.Nets {
						if i > 0 {
							none[head+2*i] = true
						}
						msg = append(msg, byte(n>>8), byte(n))
					}
				} else if c.Kind == "network is" {
					msg = append(msg, byte(c.Nets[0]>>8), byte(c.Nets[0]), 1)
					none[head+2] = true // whether the number is configured isn't used
				}
				r.Hit(len(msg) > 4)
				return mustFail(msg, none, func(d *encoding.Decoder) error { _, err := d.NPDU(&btypes.NPDU{}); return err })
			case "complex ack":
				return mustFail(ref.ComplexAck(a, b), none, apdu)
			case "segmented ack":
				r.Hit(true)
				return mustFail([]byte{0x3C, a, b, byte(c.Nums[2]), byte(c.Nums[3])}, none, apdu)
			case "simple ack":
				return mustFail(ref.SimpleAck(a, b), none, apdu)
			case "request":
				return mustFail(ref.ConfirmedHeader(a, b), none, apdu)
			case "segmented request":
				r.Hit(true)
				return mustFail([]byte{0x08, 5, a, b, byte(c.Nums[2]), byte(c.Nums[3])}, none, apdu)
			case "unconfirmed":
				return mustFail([]byte{0x10, b}, none, apdu)
			case "error":
				r.Hit(true)
				return mustFail(ref.Error(a, b, ref.ErrVal{Class: c.Err.Class & 0xFFFF, Code: c.Err.Code}, c.Nums[3] == 1), none, apdu)
			case "read":
				msg := ref.ReadAckBody(c.Objs[0])
				p := c.Objs[0].Props[0]
				request := len(ref.ReadReq(1, ref.Obj{Props: []ref.PropV{{PropRef: ref.PropRef{ID: p.ID, Index: ref.ArrayAll}}}})) - 4
				none[request] = true
				withIndex := len(ref.ReadReq(1, ref.Obj{Props: []ref.PropV{{PropRef: p.PropRef}}})) - 4
				none[withIndex] = true
				r.Hit(len(msg) > 14)
				for n := range none {
					// A request is a prefix of the reply, it has no value then
					var pd btypes.PropertyData
					d := encoding.NewDecoder(clone(msg[:n]))
					if err := decErr(d, d.ReadProperty(&pd)); err == nil && pd.Object.Properties[0].Data != nil {
						return fmt.Errorf("%x has the value %v", msg[:n], pd.Object.Properties[0].Data)
					}
				}
				return mustFail(msg, none, func(d *encoding.Decoder) error { return d.ReadProperty(&btypes.PropertyData{}) })
			case "multi":
				msg := ref.ReadMultiAckBody(c.Objs)
				at := 0
				for i, o := range c.Objs {
					none[at] = true
					at += len(ref.ReadMultiAckBody([]ref.Obj{o}))
					// Whole objects may be missing, those that are there are complete
					var m btypes.MultiplePropertyData
					d := encoding.NewDecoder(clone(msg[:at]))
					if err := decErr(d, d.ReadMultiplePropertyAck(&m)); err != nil {
						return fmt.Errorf("%x is refused: %v", msg[:at], err)
					}
					if len(m.Objects) != i+1 {
						return fmt.Errorf("%x has %d objects but %d are decoded", msg[:at], i+1, len(m.Objects))
					}
				}
				r.Hit(len(msg) > 14)
				return mustFail(msg, none, func(d *encoding.Decoder) error { return d.ReadMultiplePropertyAck(&btypes.MultiplePropertyData{}) })
			case "iam":
				r.Hit(true)
				return mustFail(ref.IAm(c.Nums[0], c.Nums[1], c.Nums[2]&3, c.Nums[3])[2:], none, func(d *encoding.Decoder) error { return d.IAm(&btypes.IAm{}) })
			case "whois":
				r.Hit(true)
				none[0] = true
				return mustFail(ref.WhoIs(int64(c.Nums[0]), int64(c.Nums[1]&0x3FFFFF))[2:], none, func(d *encoding.Decoder) error {
					var low, high int32
					return d.WhoIs(&low, &high)
				})
			case "bvlc":
				return mustFail([]byte{0x81, a, 0, 4}, none, func(d *encoding.Decoder) error { return d.BVLC(&btypes.BVLC{}) })
			}
			panic(c.Kind)
		})
}
