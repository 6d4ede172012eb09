package checks

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/encoding"

	"verif/engine"
	"verif/ref"
)

type npduCase struct {
	Head    ref.NPDU `json:"head"`
	Payload []byte   `json:"payload"`
	// Zero adds addresses with the network number zero, which is none
	Zero bool     `json:"zero"`
	Nets []uint16 `json:"nets"`
}

func toAddr(n *ref.Net) *btypes.Address {
	if n == nil {
		return nil
	}
	return &btypes.Address{Net: n.Net, Len: uint8(len(n.Adr)), Adr: clone(n.Adr)}
}

func toNPDU(n ref.NPDU) *btypes.NPDU {
	x := &btypes.NPDU{Version: n.Version, Destination: toAddr(n.Dst), Source: toAddr(n.Src), VendorId: n.Vendor, ExpectingReply: n.Expect, Priority: btypes.NPDUPriority(n.Prio), HopCount: n.Hop}
	if n.Msg != nil {
		x.IsNetworkLayerMessage = true
		x.NetworkLayerMessageType = ndpu.NetworkMessageType(*n.Msg)
	}
	return x
}

func sameNet(what string, want *ref.Net, got *btypes.Address) error {
	if want == nil {
		if got != nil && (got.Net != 0 || len(got.Adr) != 0) {
			return fmt.Errorf("%s decoded as %+v although there is none", what, *got)
		}
		return nil
	}
	if got == nil {
		return fmt.Errorf("%s %+v is lost", what, *want)
	}
	if got.Net != want.Net || int(got.Len) != len(want.Adr) || !bytes.Equal(got.Adr, want.Adr) {
		return fmt.Errorf("%s %+v decoded as %+v", what, *want, *got)
	}
	return nil
}

func sameNPDU(want ref.NPDU, got btypes.NPDU) error {
	if got.Version != want.Version || byte(got.Priority) != want.Prio || got.ExpectingReply != want.Expect || got.IsNetworkLayerMessage != (want.Msg != nil) {
		return fmt.Errorf("header %+v decoded as %+v", want, got)
	}
	if want.Msg != nil && byte(got.NetworkLayerMessageType) != *want.Msg {
		return fmt.Errorf("network message %d decoded as %d", *want.Msg, got.NetworkLayerMessageType)
	}
	if want.Msg != nil && *want.Msg >= 0x80 && got.VendorId != want.Vendor {
		return fmt.Errorf("vendor %d decoded as %d", want.Vendor, got.VendorId)
	}
	if want.Dst != nil && got.HopCount != want.Hop {
		return fmt.Errorf("hop count %d decoded as %d", want.Hop, got.HopCount)
	}
	return sameNet("destination", want.Dst, got.Destination)
}

type apduCase struct {
	Type    byte   `json:"type"`
	Flags   byte   `json:"flags"`
	Segs    byte   `json:"segs"`
	Size    byte   `json:"size"`
	Invoke  byte   `json:"invoke"`
	Seq     byte   `json:"seq"`
	Win     byte   `json:"win"`
	Service byte   `json:"service"`
	Payload []byte `json:"payload"`
	MaxApdu uint   `json:"max_apdu"`
	MaxSegs uint   `json:"max_segs"`
}

var apduSizes = []uint{50, 128, 206, 480, 1024, 1476}
var segCounts = []uint{0, 2, 4, 8, 16, 32, 64, 65}

func (c apduCase) octets(sizes byte) []byte {
	b := []byte{c.Type | c.Flags}
	seg := c.Flags&8 != 0
	switch c.Type {
	case 0x00:
		b = append(b, sizes, c.Invoke)
		if seg {
			b = append(b, c.Seq, c.Win)
		}
		b = append(b, c.Service)
	case 0x10:
		b = append(b, c.Service)
	case 0x20:
		b = append(b, c.Invoke, c.Service)
	case 0x30:
		b = append(b, c.Invoke)
		if seg {
			b = append(b, c.Seq, c.Win)
		}
		b = append(b, c.Service)
	}
	return b
}

func genApduCase(types ...byte) func(t *rapid.T) apduCase {
	return func(t *rapid.T) apduCase {
		c := apduCase{
			Type: rapid.SampledFrom(types).Draw(t, "type"), Invoke: rapid.Byte().Draw(t, "invoke"), Service: rapid.Byte().Draw(t, "service"),
			Seq: rapid.Byte().Draw(t, "seq"), Win: rapid.Byte().Draw(t, "win"), Payload: rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "payload"),
			Segs: byte(rapid.IntRange(0, 7).Draw(t, "segs")), Size: byte(rapid.IntRange(0, 5).Draw(t, "size")),
		}
		switch c.Type {
		case 0x00:
			c.Flags = byte(rapid.IntRange(0, 7).Draw(t, "flags")) << 1
		case 0x30:
			c.Flags = byte(rapid.IntRange(0, 3).Draw(t, "flags")) << 2
		}
		c.MaxApdu = uint(rapid.OneOf(rapid.UintRange(0, 2000), rapid.SampledFrom([]uint{49, 50, 51, 127, 128, 129, 205, 206, 207, 479, 480, 481, 1023, 1024, 1025, 1475, 1476, 1477, 65535})).Draw(t, "maxapdu"))
		c.MaxSegs = rapid.UintRange(0, 80).Draw(t, "maxsegs")
		return c
	}
}

type errorCase struct {
	Invoke   byte       `json:"invoke"`
	Service  byte       `json:"service"`
	Err      ref.ErrVal `json:"err"`
	W        [2]int     `json:"w"`
	Enclosed bool       `json:"enclosed"`
	Num      byte       `json:"num"`
	Trail    []byte     `json:"trail"`
	Bad      string     `json:"bad"`
	Kinds    [2]ref.Val `json:"kinds"`
}

func genErrorCase(t *rapid.T) errorCase {
	small := rapid.OneOf(rapid.Uint32Range(0, 7), rapid.Uint32Range(0, 200), rapid.Uint32Range(0, 65535))
	return errorCase{
		Invoke: rapid.Byte().Draw(t, "invoke"), Service: rapid.Byte().Draw(t, "service"),
		Err:      ref.ErrVal{Class: small.Draw(t, "class"), Code: small.Draw(t, "code")},
		W:        [2]int{rapid.IntRange(0, 4).Draw(t, "w"), rapid.IntRange(0, 4).Draw(t, "w")},
		Enclosed: rapid.Bool().Draw(t, "enclosed"), Num: byte(rapid.IntRange(0, 3).Draw(t, "num")),
	}
}

type whoIsCase struct {
	Low  int32 `json:"low"`
	High int32 `json:"high"`
}

type iamCase struct {
	Inst, Max, Seg, Vendor uint32
	Type                   uint16
	Trail                  []byte
	W                      [3]int
}

type badIAmCase struct {
	Fields []ref.Val `json:"fields"`
	Ctx    []bool    `json:"ctx"`
}

func init() {
	genHead := func(t *rapid.T) npduCase {
		return npduCase{Head: genNPDU(t, rapid.Bool().Draw(t, "netmsg")), Payload: rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "payload"), Zero: chance(t, "zero", 15)}
	}
	engine.Add("C09", "round trip", "there is a destination or a source", 20000, 600000, genHead,
		func(r *engine.Rec, c npduCase) error {
			n := c.Head
			r.LabelIf(n.Dst != nil, "destination")
			r.LabelIf(n.Src != nil, "source")
			r.LabelIf(n.Msg != nil, "network message")
			r.LabelIf(n.Msg != nil && *n.Msg >= 0x80, "vendor")
			r.LabelIf(n.Dst != nil && len(n.Dst.Adr) == 0, "empty address")
			r.LabelIf(n.Dst != nil && len(n.Dst.Adr) > 6, "long address")
			r.Hit(n.Dst != nil || n.Src != nil)
			in := toNPDU(n)
			if c.Zero {
				if in.Destination == nil {
					in.Destination = &btypes.Address{Len: 2, Adr: []byte{1, 2}}
				}
				if in.Source == nil {
					in.Source = &btypes.Address{}
				}
			}
			e := encoding.NewEncoder()
			e.NPDU(in)
			if e.Error() != nil {
				return fmt.Errorf("refused: %v", e.Error())
			}
			if err := sameBytes("header", n.Enc(), e.Bytes()); err != nil {
				return err
			}
			if n.Msg != nil && (*n.Msg == 1 || *n.Msg == 0x13) {
				return nil // has content, see below
			}
			var got btypes.NPDU
			d := encoding.NewDecoder(ref.Cat(n.Enc(), c.Payload))
			if _, err := d.NPDU(&got); decErr(d, err) != nil {
				return fmt.Errorf("not decoded: %v", decErr(d, err))
			}
			if err := sameNPDU(n, got); err != nil {
				return err
			}
			if err := sameNet("source", n.Src, got.Source); err != nil {
				return err
			}
			return sameBytes("octets left", c.Payload, d.Bytes())
		})

	engine.Add("C09", "router announcements", "several networks are announced", 5000, 200000,
		func(t *rapid.T) npduCase {
			c := npduCase{Head: genNPDU(t, false)}
			m := byte(1)
			c.Head.Msg = &m
			c.Nets = sliceUpTo(t, "nets", rapid.OneOf(rapid.Uint16Range(1, 8), rapid.Uint16(), rapid.Uint16()), 1, pick(t, "most", 40, 40, 40, 40, 40, 40, 740))
			return c
		},
		func(r *engine.Rec, c npduCase) error {
			r.Hit(len(c.Nets) > 1)
			b := c.Head.Enc()
			var want []uint16
			seen := map[uint16]bool{}
			for _, n := range c.Nets {
				b = append(b, byte(n>>8), byte(n))
				if !seen[n] {
					seen[n] = true
					want = append(want, n)
				}
			}
			r.LabelIf(len(want) < len(c.Nets), "repeated networks")
			var got btypes.NPDU
			d := encoding.NewDecoder(b)
			list, err := d.NPDU(&got)
			if err := decErr(d, err); err != nil {
				return fmt.Errorf("not decoded: %v", err)
			}
			if err := sameNPDU(c.Head, got); err != nil {
				return err
			}
			var nets []uint16
			for _, a := range list {
				nets = append(nets, a.Net)
			}
			if fmt.Sprint(nets) != fmt.Sprint(want) {
				return fmt.Errorf("networks %v decoded as %v", c.Nets, nets)
			}
			return nil
		})

	engine.Add("C09", "network number announcements", "there is a destination or a source", 3000, 100000,
		func(t *rapid.T) npduCase {
			c := npduCase{Head: genNPDU(t, false), Payload: []byte{byte(rapid.IntRange(0, 1).Draw(t, "configured"))}}
			m := byte(0x13)
			c.Head.Msg = &m
			c.Nets = []uint16{rapid.Uint16().Draw(t, "net")}
			return c
		},
		func(r *engine.Rec, c npduCase) error {
			r.Hit(c.Head.Dst != nil || c.Head.Src != nil)
			var got btypes.NPDU
			d := encoding.NewDecoder(ref.Cat(c.Head.Enc(), []byte{byte(c.Nets[0] >> 8), byte(c.Nets[0])}, c.Payload))
			if _, err := d.NPDU(&got); decErr(d, err) != nil {
				return fmt.Errorf("not decoded: %v", decErr(d, err))
			}
			if err := sameNPDU(c.Head, got); err != nil {
				return err
			}
			if got.Source == nil || got.Source.Net != c.Nets[0] {
				return fmt.Errorf("network %d decoded as %+v", c.Nets[0], got.Source)
			}
			return nil
		})

	engine.Add("C10", "encode", "a flag is set or there are segments", 15000, 400000, genApduCase(0x00, 0x00, 0x10, 0x30),
		func(r *engine.Rec, c apduCase) error {
			r.Label("type %x", c.Type)
			r.Hit(c.Flags != 0)
			a := btypes.APDU{
				DataType: btypes.PDUType(c.Type), SegmentedMessage: c.Flags&8 != 0, MoreFollows: c.Flags&4 != 0, SegmentedResponseAccepted: c.Flags&2 != 0,
				MaxSegs: segCounts[c.Segs], MaxApdu: apduSizes[c.Size], InvokeId: c.Invoke, Sequence: c.Seq, WindowNumber: c.Win,
				Service: btypes.ServiceConfirmed(c.Service), UnconfirmedService: btypes.ServiceUnconfirmed(c.Service),
			}
			e := encoding.NewEncoder()
			if err := encErr(e, e.APDU(a)); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			return sameBytes("header", c.octets(c.Segs<<4|c.Size), e.Bytes())
		})

	engine.Add("C10", "decode", "a flag is set or there is a payload", 15000, 400000, genApduCase(0x00, 0x10, 0x20, 0x30),
		func(r *engine.Rec, c apduCase) error {
			r.Label("type %x", c.Type)
			r.Hit(c.Flags != 0 || len(c.Payload) > 0)
			if c.Type == 0x20 {
				c.Payload = nil
			}
			var a btypes.APDU
			d := encoding.NewDecoder(ref.Cat(c.octets(c.Segs<<4|c.Size), c.Payload))
			if err := decErr(d, d.APDU(&a)); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			bad := func(what string) error { return fmt.Errorf("%s of %+v decoded as %+v", what, c, a) }
			if byte(a.DataType) != c.Type || a.SegmentedMessage != (c.Flags&8 != 0) || a.MoreFollows != (c.Flags&4 != 0) || a.SegmentedResponseAccepted != (c.Flags&2 != 0) {
				return bad("type or flags")
			}
			if c.Type != 0x10 && a.InvokeId != c.Invoke {
				return bad("invoke id")
			}
			if c.Type == 0x10 && byte(a.UnconfirmedService) != c.Service || c.Type != 0x10 && byte(a.Service) != c.Service {
				return bad("service")
			}
			if c.Flags&8 != 0 && (a.Sequence != c.Seq || a.WindowNumber != c.Win) {
				return bad("sequence and window")
			}
			if c.Type == 0 {
				if a.MaxApdu != apduSizes[c.Size] {
					return bad("size")
				}
				if c.Segs > 0 && a.MaxSegs != segCounts[c.Segs] {
					return bad("segments")
				}
			}
			payload := a.RawData
			if c.Type == 0x30 {
				payload = d.Bytes()
			}
			return sameBytes("payload", c.Payload, payload)
		})

	engine.Add("C10", "sizes", "the size or the count isn't a standard one", 8000, 200000, genApduCase(0x00),
		func(r *engine.Rec, c apduCase) error {
			size, seg := byte(5), byte(0)
			for i := 5; i >= 0; i-- {
				if c.MaxApdu <= apduSizes[i] {
					size = byte(i)
				}
			}
			for i, n := range segCounts {
				if c.MaxSegs >= n {
					seg = byte(i)
				}
			}
			r.Hit(apduSizes[size] != c.MaxApdu || segCounts[seg] != c.MaxSegs)
			e := encoding.NewEncoder()
			if err := encErr(e, e.APDU(btypes.APDU{DataType: btypes.ConfirmedServiceRequest, MaxApdu: c.MaxApdu, MaxSegs: c.MaxSegs})); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			if got := e.Bytes()[1]; got != seg<<4|size {
				return fmt.Errorf("size %d with %d segments is advertised as %#x instead of %#x", c.MaxApdu, c.MaxSegs, got, seg<<4|size)
			}
			return nil
		})

	engine.Add("C11", "decode", "the class or code needs several octets, or the error is enclosed in tags", 12000, 400000,
		func(t *rapid.T) errorCase {
			c := genErrorCase(t)
			c.Trail = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "trail")
			return c
		},
		func(r *engine.Rec, c errorCase) error {
			r.LabelIf(c.Enclosed, "enclosed")
			r.LabelIf(len(c.Trail) > 0, "more follows")
			r.Hit(c.Enclosed || c.Err.Class > 255 || c.Err.Code > 255 || c.W[0] > 1 || c.W[1] > 1)
			var a btypes.APDU
			b := ref.Cat([]byte{0x50, c.Invoke, c.Service}, c.body(), c.Trail)
			d := encoding.NewDecoder(b)
			if err := decErr(d, d.APDU(&a)); err != nil {
				return fmt.Errorf("%x is refused: %v", b, err)
			}
			if a.DataType != btypes.Error || a.InvokeId != c.Invoke || byte(a.Service) != c.Service || a.Error.Class != bacerr.ErrorClass(c.Err.Class) || a.Error.Code != bacerr.ErrorCode(c.Err.Code) {
				return fmt.Errorf("%x decoded as %+v", b, a)
			}
			return nil
		})

	engine.Add("C11", "malformed", "the defect isn't just a cut", 8000, 300000,
		func(t *rapid.T) errorCase {
			c := genErrorCase(t)
			c.Bad = pick(t, "bad", "class", "code", "both", "cut", "not closed", "class context", "code context")
			if c.Bad == "not closed" {
				c.Enclosed = true
			}
			others := []string{"null", "uint", "int", "real", "double", "octets", "str", "bits", "date", "time", "oid"}
			c.Kinds = [2]ref.Val{genValN(t, "v", others, 10), genValN(t, "v", others, 10)}
			return c
		},
		func(r *engine.Rec, c errorCase) error {
			r.Label("%s", c.Bad)
			r.Hit(c.Bad != "cut")
			cl, co := ref.Enum(c.Err.Class).Enc(), ref.Enum(c.Err.Code).Enc()
			switch c.Bad {
			case "class":
				cl = c.Kinds[0].Enc()
			case "code":
				co = c.Kinds[1].Enc()
			case "both":
				cl, co = c.Kinds[0].Enc(), c.Kinds[1].Enc()
			case "class context":
				cl = ref.CtxUint(9, c.Err.Class)
			case "code context":
				co = ref.CtxUint(9, c.Err.Code)
			case "cut":
				co = nil
			}
			b := ref.Cat([]byte{0x50, c.Invoke, c.Service})
			if c.Enclosed {
				b = ref.Cat(b, ref.Open(c.Num))
			}
			b = ref.Cat(b, cl, co)
			if c.Enclosed && c.Bad != "not closed" {
				b = ref.Cat(b, ref.Close(c.Num))
			} else if c.Bad == "not closed" {
				b = ref.Cat(b, ref.Uint(1).Enc())
			}
			var a btypes.APDU
			d := encoding.NewDecoder(b)
			if decErr(d, d.APDU(&a)) == nil {
				return fmt.Errorf("%x is decoded as class %d code %d", b, a.Error.Class, a.Error.Code)
			}
			return nil
		})

	engine.Add("C12", "who-is", "there is a range", 10000, 300000,
		func(t *rapid.T) whoIsCase {
			if chance(t, "all", 15) {
				return pick(t, "all", whoIsCase{-1, -1}, whoIsCase{0, 4194303}, whoIsCase{-5, 10}, whoIsCase{3, -1}, whoIsCase{0, -1}, whoIsCase{-1, 0}, whoIsCase{-2147483648, 2147483647})
			}
			a, b := int32(genInst(t, "low")), int32(genInst(t, "high"))
			a, b = min(a, 4194302), min(b, 4194302)
			return whoIsCase{min(a, b), max(a, b)}
		},
		func(r *engine.Rec, c whoIsCase) error {
			e := encoding.NewEncoder()
			if err := encErr(e, e.WhoIs(c.Low, c.High)); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			low, high := int64(c.Low), int64(c.High)
			if c.Low < 0 || c.High < 0 || c.High >= 4194303 {
				low, high = -1, -1
			}
			r.Hit(low >= 0)
			r.LabelIf(low == high && low >= 0, "one device")
			if err := sameBytes(fmt.Sprintf("who-is %d..%d", c.Low, c.High), ref.WhoIs(low, high), e.Bytes()); err != nil {
				return err
			}
			var l, h int32
			d := encoding.NewDecoder(clone(e.Bytes()[2:]))
			if err := decErr(d, d.WhoIs(&l, &h)); err != nil {
				return fmt.Errorf("not decoded: %v", err)
			}
			if int64(l) != low || int64(h) != high {
				return fmt.Errorf("range %d..%d decoded as %d..%d", low, high, l, h)
			}
			if low < 0 {
				return nil
			}
			// A decoder says what was received, also when no device is in the range.
			d = encoding.NewDecoder(ref.WhoIs(high, low)[2:])
			if err := decErr(d, d.WhoIs(&l, &h)); err != nil {
				return fmt.Errorf("%d..%d not decoded: %v", high, low, err)
			}
			if int64(l) != high || int64(h) != low {
				return fmt.Errorf("range %d..%d decoded as %d..%d", high, low, l, h)
			}
			return nil
		})

	engine.Add("C12", "i-am", "a field needs several octets", 10000, 300000,
		func(t *rapid.T) iamCase {
			return iamCase{Inst: genInst(t, "inst"), Max: genU32(t, "max"), Seg: genU32(t, "seg") % 8, Vendor: genU32(t, "vendor"), Trail: rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "trail"),
				Type: pick[uint16](t, "type", 8, 8, 8, 0, 1023), W: [3]int{rapid.IntRange(0, 4).Draw(t, "w"), rapid.IntRange(0, 4).Draw(t, "w"), rapid.IntRange(0, 4).Draw(t, "w")}}
		},
		func(r *engine.Rec, c iamCase) error {
			r.Hit(c.Max > 255 || c.Vendor > 255)
			in := btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(c.Inst)}, MaxApdu: c.Max, Segmentation: btypes.Enumerated(c.Seg), Vendor: c.Vendor}
			e := encoding.NewEncoder()
			if err := encErr(e, e.IAm(in)); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			if err := sameBytes("i-am", ref.IAm(c.Inst, c.Max, c.Seg, c.Vendor), e.Bytes()); err != nil {
				return err
			}
			// and with any legal widths
			m, s, v := ref.Uint(c.Max), ref.Enum(c.Seg), ref.Uint(c.Vendor)
			m.W, s.W, v.W = c.W[0], c.W[1], c.W[2]
			for i, b := range [][]byte{e.Bytes()[2:], ref.Cat(ref.OID(8, c.Inst).Enc(), m.Enc(), s.Enc(), v.Enc(), c.Trail)} {
				var got btypes.IAm
				d := encoding.NewDecoder(clone(b))
				if err := decErr(d, d.IAm(&got)); err != nil {
					return fmt.Errorf("%x not decoded: %v", b, err)
				}
				if got.ID != in.ID || got.MaxApdu != in.MaxApdu || got.Segmentation != in.Segmentation || got.Vendor != in.Vendor {
					return fmt.Errorf("%x decoded as %+v", b, got)
				}
				if i == 1 {
					if err := sameBytes("octets left", c.Trail, d.Bytes()); err != nil {
						return err
					}
				}
			}
			return nil
		})

	engine.Add("C12", "malformed i-am", "several fields are there", 8000, 300000,
		func(t *rapid.T) badIAmCase {
			c := badIAmCase{
				Fields: []ref.Val{ref.OID(8, genInst(t, "inst")), ref.Uint(genU32(t, "max")), ref.Enum(uint32(rapid.IntRange(0, 3).Draw(t, "seg"))), ref.Uint(genU32(t, "vendor"))},
				Ctx:    make([]bool, 4),
			}
			i := rapid.IntRange(0, 3).Draw(t, "at")
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				v := genValN(t, "v", allKinds, 20)
				if v.K == c.Fields[i].K {
					v = ref.Null()
				}
				c.Fields[i] = v
			case 1:
				c.Ctx[i] = true
			case 2: // one is missing
				c.Fields = append(c.Fields[:i:i], c.Fields[i+1:]...)
			default:
				c.Fields = c.Fields[:i]
			}
			return c
		},
		func(r *engine.Rec, c badIAmCase) error {
			r.Hit(len(c.Fields) > 1)
			var b []byte
			for i, f := range c.Fields {
				if c.Ctx[i] {
					b = append(b, f.Ctx(byte(i))...)
				} else {
					b = append(b, f.Enc()...)
				}
			}
			var got btypes.IAm
			d := encoding.NewDecoder(clone(b))
			if decErr(d, d.IAm(&got)) == nil {
				return fmt.Errorf("%x is decoded as %+v", b, got)
			}
			return nil
		})
}

func (c errorCase) body() []byte {
	cl, co := ref.Enum(c.Err.Class), ref.Enum(c.Err.Code)
	cl.W, co.W = c.W[0], c.W[1]
	if c.Enclosed {
		return ref.Cat(ref.Open(c.Num), cl.Enc(), co.Enc(), ref.Close(c.Num))
	}
	return ref.Cat(cl.Enc(), co.Enc())
}
