package checks

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"pgregory.net/rapid"
	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// ---------------------------------------------------------------- C14

type malformedCase struct {
	Kind string    `json:"kind"`
	Toks []ref.Tok `json:"toks"`
	What string    `json:"what"`
}

var malformedKinds = []string{"value", "read reply", "read reply", "read multiple reply", "read multiple reply", "error", "i-am", "who-is"}

func genTokens(t *rapid.T, kind string) []ref.Tok {
	var b []byte
	switch kind {
	case "value":
		b = ref.EncAll(genVals(t, allKinds, 4))
	case "read reply":
		b = ref.ReadAckBody(genValued(t, 1, 1, 4, true)[0])
	case "read multiple reply":
		b = ref.ReadMultiAckBody(genValued(t, 3, 3, 3, true))
	case "error":
		b = ref.Error(0, 0, ref.ErrVal{Class: genU32(t, "class"), Code: genU32(t, "code")}, rapid.Bool().Draw(t, "enclosed"))[3:]
	case "i-am":
		b = ref.IAm(genInst(t, "inst"), genU32(t, "max"), uint32(rapid.IntRange(0, 4).Draw(t, "seg")), genU32(t, "vendor"))[2:]
	case "who-is":
		b = ref.WhoIs(int64(genInst(t, "low")), int64(genInst(t, "high")))[2:]
	}
	ks, err := ref.Toks(b)
	if err != nil {
		panic(err)
	}
	return ks
}

// damage makes one change to the structure of the message.
func damage(t *rapid.T, ks []ref.Tok) ([]ref.Tok, string) {
	ks = append([]ref.Tok{}, ks...)
	if len(ks) == 0 {
		return ks, "none"
	}
	at := rapid.IntRange(0, len(ks)-1).Draw(t, "at")
	k := &ks[at]
	switch what := pick(t, "damage", "number", "number", "length", "length", "length", "class", "kind", "drop", "double", "swap", "insert", "content"); what {
	case "number":
		k.Num = byte(rapid.OneOf(rapid.IntRange(0, 15), rapid.IntRange(0, 254)).Draw(t, "num"))
		return ks, what
	case "length":
		n := rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 300)).Draw(t, "length")
		body := make([]byte, n)
		copy(body, k.Body)
		if k.Kind == 0 && (k.Ctx || k.Num != 1) {
			k.Body = body
		}
		return ks, what
	case "class":
		if k.Kind == 0 {
			k.Ctx = !k.Ctx
		}
		return ks, what
	case "kind":
		k.Kind = rapid.IntRange(0, 2).Draw(t, "kind")
		if k.Kind != 0 {
			k.Body, k.Ctx = nil, true
		}
		return ks, what
	case "drop":
		return append(ks[:at:at], ks[at+1:]...), what
	case "double":
		return append(ks[:at+1:at+1], ks[at:]...), what
	case "swap":
		o := rapid.IntRange(0, len(ks)-1).Draw(t, "with")
		ks[at], ks[o] = ks[o], ks[at]
		return ks, what
	case "insert":
		n := ref.Tok{Num: byte(rapid.IntRange(0, 6).Draw(t, "num")), Ctx: true, Kind: rapid.IntRange(0, 2).Draw(t, "kind")}
		if n.Kind == 0 {
			n.Body = rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "body")
		}
		return append(append(ks[:at:at], n), ks[at:]...), what
	default:
		if k.Kind == 0 {
			k.Body = rapid.SliceOfN(rapid.Byte(), len(k.Body), len(k.Body)).Draw(t, "body")
		}
		return ks, what
	}
}

func (c malformedCase) run() error {
	b := ref.EncToks(c.Toks)
	d := encoding.NewDecoder(b)
	switch c.Kind {
	case "value":
		for len(d.Bytes()) > 0 {
			if _, err := d.AppData(); decErr(d, err) != nil {
				return decErr(d, err)
			}
		}
		return nil
	case "read reply":
		return decErr(d, d.ReadProperty(&btypes.PropertyData{}))
	case "read multiple reply":
		return decErr(d, d.ReadMultiplePropertyAck(&btypes.MultiplePropertyData{}))
	case "error":
		d = encoding.NewDecoder(ref.Cat([]byte{0x50, 1, 12}, b))
		return decErr(d, d.APDU(&btypes.APDU{}))
	case "i-am":
		return decErr(d, d.IAm(&btypes.IAm{}))
	case "who-is":
		var low, high int32
		return decErr(d, d.WhoIs(&low, &high))
	}
	panic(c.Kind)
}

func init() {
	engine.Add("C14", "damaged structure", "the standard's grammar does not allow the damaged message", 60000, 3000000,
		func(t *rapid.T) malformedCase {
			c := malformedCase{Kind: rapid.SampledFrom(malformedKinds).Draw(t, "kind")}
			c.Toks, c.What = damage(t, genTokens(t, c.Kind))
			if chance(t, "again", 15) {
				c.Toks, _ = damage(t, c.Toks)
				c.What += " and more"
			}
			return c
		},
		func(r *engine.Rec, c malformedCase) error {
			v := ref.Judge(c.Kind, c.Toks)
			r.Label("%s", v)
			r.Label("%s", c.Kind)
			if v == ref.Valid {
				if err := c.run(); err != nil {
					return fmt.Errorf("the %s %v is well formed and refused: %v", c.Kind, c.Toks, err)
				}
			}
			if v != ref.Invalid {
				return nil
			}
			r.Hit(true)
			r.Label("%s", c.What)
			if c.run() == nil {
				return fmt.Errorf("the %s %v is accepted, its %s is wrong", c.Kind, c.Toks, c.What)
			}
			return nil
		})

	// The same with a client that asks for what the reply is about.
	engine.Add("C14", "damaged replies to a client", "the standard's grammar does not allow the damaged reply", 6000, 300000,
		func(t *rapid.T) malformedReply {
			c := malformedReply{Multi: rapid.Bool().Draw(t, "multi"), Peer: genPeer(t), Good: chance(t, "good", 20)}
			kind, most := "read reply", 1
			if c.Multi {
				kind, most = "read multiple reply", 3
			}
			c.Objs = genValued(t, most, most, 3, true)
			b := ref.ReadMultiAckBody(c.Objs)
			if !c.Multi {
				b = ref.ReadAckBody(c.Objs[0])
			}
			ks, err := ref.Toks(b)
			if err != nil {
				panic(err)
			}
			c.Kind = kind
			c.Toks, c.What = damage(t, ks)
			return c
		},
		func(r *engine.Rec, c malformedReply) error {
			v := ref.Judge(c.Kind, c.Toks)
			r.Label("%s", v)
			if v != ref.Invalid || len(ref.EncToks(c.Toks)) > 1400 {
				return nil
			}
			r.Hit(true)
			r.Label("%s", c.Kind)
			r.LabelIf(c.Good, "answered well the second time")
			return c.ask(r)
		})
}

type malformedReply struct {
	malformedCase
	Multi bool      `json:"multi"`
	Peer  peer      `json:"peer"`
	Objs  []ref.Obj `json:"objs"`
	// Good is set if the device answers the second transmission well
	Good bool `json:"good"`
}

func (c malformedReply) ask(r *engine.Rec) error {
	sent := 0
	return withClient(r, func(l *sim.Link) {
		l.OnSend = func(f sim.Frame) error {
			fr, err := ref.ParseFrame(f.Data)
			if err != nil {
				return nil
			}
			sent++
			service := byte(12)
			if c.Multi {
				service = 14
			}
			body := ref.EncToks(c.Toks)
			if c.Good && sent == 2 {
				body = ref.ReadMultiAckBody(c.Objs)
				if !c.Multi {
					body = ref.ReadAckBody(c.Objs[0])
				}
			}
			l.InjectLater(10*ms, c.Peer.ip(), c.Peer.reply(ref.Cat(ref.ComplexAck(fr.Req.Invoke, service), body)))
			return nil
		}
	}, func(cl bacnet.Client, l *sim.Link) error {
		dev := c.Peer.device(1, 1476)
		return within(time.Minute, "the request", func() error {
			var err error
			if c.Multi {
				_, err = cl.ReadMultiProperty(dev, toMPD(c.Objs))
			} else {
				_, err = cl.ReadProperty(dev, toPD(c.Objs[0]))
			}
			if err == nil && !(c.Good && sent == 2) {
				return fmt.Errorf("the reply %v is taken for an answer, its %s is wrong", c.Toks, c.What)
			}
			return nil
		})
	})
}
