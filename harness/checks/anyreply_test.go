package checks

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// anyReply is a request and the octets that come back, made for invoke id 1.
type anyReply struct {
	Kind  string    `json:"kind"`
	Peer  peer      `json:"peer"`
	Objs  []ref.Obj `json:"objs"`
	Frame []byte    `json:"frame"`
}

// swapID gives the frame the id of the request instead of 1, and the other way
// round.
func swapID(frame []byte, id byte) []byte {
	frame = clone(frame)
	at := 4
	if len(frame) > 1 && frame[1] == 4 {
		at = 10
	}
	if at >= len(frame) {
		return frame
	}
	_, rest, err := ref.ParseNPDU(frame[at:])
	if err != nil || len(rest) < 2 {
		return frame
	}
	p := &frame[len(frame)-len(rest)+1]
	if rest[0]>>4 == 0 { // a request
		if len(rest) < 3 {
			return frame
		}
		p = &frame[len(frame)-len(rest)+2]
	}
	switch *p {
	case 1:
		*p = id
	case id:
		*p = 1
	}
	return frame
}

// judge says what the frame is for the request: its answer, something that can't
// be taken for its answer, or neither for sure. Answers come with what they say,
// nil if that has constructed values.
func (c anyReply) judge() (v ref.Verdict, os []ref.Obj, why string) {
	worst := ref.Valid
	bad := func(w string) (ref.Verdict, []ref.Obj, string) { return ref.Invalid, nil, w }
	f := c.Frame
	if len(f) < 4 || f[0] != 0x81 {
		return bad("link header")
	}
	switch n := int(f[2])<<8 | int(f[3]); {
	case n > len(f):
		return bad("too short")
	case n < len(f):
		worst = ref.Unjudged
	}
	switch f[1] {
	case 0x0A, 0x0B:
		f = f[4:]
	case 4:
		if len(f) < 10 {
			return bad("link header")
		}
		worst = ref.Unjudged
		if from := c.Peer.ip(); c.Peer.Via == nil && !bytes.Equal(f[4:10], from.Mac[:6]) {
			return bad("forwarded from elsewhere")
		}
		f = f[10:]
	default:
		return bad("link function")
	}
	if len(f) > 1 && f[1]&0x50 != 0 { // reserved bits
		return ref.Unjudged, nil, ""
	}
	n, apdu, err := ref.ParseNPDU(f)
	switch {
	case err != nil:
		return bad("network header")
	case n.Msg != nil:
		return bad("network message")
	case n.Version != 1 || n.Dst != nil:
		worst = ref.Unjudged
	}
	switch {
	case c.Peer.Via == nil:
		if n.Src != nil {
			worst = ref.Unjudged
		}
	case n.Src == nil || n.Src.Net != c.Peer.Via.Net || !bytes.Equal(n.Src.Adr, c.Peer.Via.Adr):
		return bad("other station")
	}
	if len(apdu) < 3 {
		return bad("no reply")
	}
	o := op{Kind: c.Kind}
	kind := apdu[0] >> 4
	if apdu[0]&15 != 0 {
		worst = ref.Unjudged
	}
	if apdu[1] != 1 {
		return bad("other id")
	}
	write := c.Kind == "write" || c.Kind == "writemulti"
	seg := kind == 3 && apdu[0]&8 != 0
	if seg && !write && (apdu[0]&4 != 0 || apdu[2] != 0) {
		return bad("a segment")
	}
	if seg {
		return ref.Unjudged, nil, ""
	}
	if apdu[2] != o.service() {
		return bad("other service")
	}
	body := apdu[3:]
	switch {
	case kind == 2 && write:
		if len(body) > 0 {
			worst = ref.Unjudged
		}
		return worst, nil, ""
	case kind == 3 && write:
		return ref.Unjudged, nil, ""
	case kind == 2 && len(body) > 0: // something behind a complete message
		return ref.Unjudged, nil, ""
	case kind != 3:
		return bad(fmt.Sprintf("pdu type %d", kind))
	}
	what := "read reply"
	if c.Kind == "readmulti" {
		what = "read multiple reply"
	}
	ks, terr := ref.Toks(body)
	if terr != nil {
		whole := ref.Judge(what, ks[:max(0, len(ks)-1)])
		if what == "read reply" && whole != ref.Invalid {
			return ref.Unjudged, nil, ""
		}
		return bad("cut value")
	}
	for _, k := range ks {
		if k.Kind != 0 && !k.Ctx {
			return ref.Unjudged, nil, ""
		}
	}
	switch ref.Judge(what, ks) {
	case ref.Invalid:
		return bad("grammar")
	case ref.Unjudged:
		return ref.Unjudged, nil, ""
	}
	os, plain := tokObjs(what, ks)
	type ofProp struct {
		t       uint16
		i, p, x uint32
	}
	props := func(os []ref.Obj) (out []ofProp) {
		for _, o := range os {
			for _, p := range o.Props {
				out = append(out, ofProp{o.Type, o.Inst, p.ID, p.Index})
			}
		}
		return
	}
	asked, given := props(c.Objs), props(os)
	for _, a := range asked {
		if a.t == 8 && a.i == 0x3FFFFF {
			return ref.Unjudged, nil, ""
		}
	}
	for _, x := range append(props(c.Objs), given...) {
		if x.p == 8 || x.p == 80 || x.p == 105 { // groups of properties
			return ref.Unjudged, nil, ""
		}
	}
	has := func(all []ofProp, x ofProp) bool {
		for _, a := range all {
			if a == x {
				return true
			}
		}
		return false
	}
	for _, a := range asked {
		if !has(given, a) {
			return bad("lacks something")
		}
	}
	for _, g := range given {
		if !has(asked, g) {
			return bad("other question")
		}
	}
	if fmt.Sprint(asked) != fmt.Sprint(given) || len(os) != len(c.Objs) {
		worst = ref.Unjudged
	}
	for _, o := range os {
		if len(o.Props) == 0 {
			worst = ref.Unjudged
		}
		for _, p := range o.Props {
			if plain && len(p.Vals) == 0 {
				worst = ref.Unjudged
			}
		}
	}
	if !plain {
		return worst, nil, ""
	}
	return worst, os, ""
}

func (c anyReply) run(r *engine.Rec) error {
	v, want, why := c.judge()
	r.Hit(v != ref.Unjudged)
	r.Label("%s %s", c.Kind, v)
	r.LabelIf(why != "", why)
	return withClient(r, func(l *sim.Link) {
		l.OnSend = func(f sim.Frame) error {
			if fr, err := ref.ParseFrame(f.Data); err == nil {
				l.InjectLater(10*ms, c.Peer.ip(), swapID(c.Frame, fr.Req.Invoke))
			}
			return nil
		}
	}, func(cl bacnet.Client, l *sim.Link) error {
		dev := c.Peer.device(1, 1476)
		return within(40*time.Second, "the request", func() error {
			var got []btypes.Object
			var err error
			switch m := toMPD(c.Objs); c.Kind {
			case "read":
				var p btypes.PropertyData
				p, err = cl.ReadProperty(dev, single(m))
				got = []btypes.Object{p.Object}
			case "readmulti":
				m, err = cl.ReadMultiProperty(dev, m)
				got = m.Objects
			case "write":
				err = cl.WriteProperty(dev, single(m))
			default:
				err = cl.WriteMultiProperty(dev, m)
			}
			switch {
			case v == ref.Valid && err != nil:
				return fmt.Errorf("%x is the answer to the %s but it fails: %v", c.Frame, c.Kind, err)
			case v == ref.Invalid && err == nil:
				return fmt.Errorf("%x is taken for the answer to the %s (%s)", c.Frame, c.Kind, why)
			case v == ref.Valid && want != nil:
				if e := sameObjs(want, got); e != nil {
					return fmt.Errorf("%x, the answer to the %s: %w", c.Frame, c.Kind, e)
				}
			}
			return nil
		})
	})
}

// answer is what the peer answers to the request.
func (c anyReply) answer() []byte {
	o := op{Kind: c.Kind}
	switch c.Kind {
	case "read":
		return ref.ReadAck(1, c.Objs[0])
	case "readmulti":
		return ref.ReadMultiAck(1, c.Objs)
	}
	return ref.SimpleAck(1, o.service())
}

func init() {
	engine.Add("K11", "any frame in reply", "it is known whether the frame answers the request", 6000, 300000,
		func(t *rapid.T) anyReply {
			c := anyReply{Kind: rapid.SampledFrom(opKinds).Draw(t, "kind"), Peer: genPeer(t)}
			switch c.Kind {
			case "read":
				c.Objs = genValued(t, 1, 1, 3, true)
			case "readmulti":
				c.Objs = genValued(t, 2, 2, 2, true)
			default:
				c.Objs = []ref.Obj{{Type: 2, Inst: 7, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 85, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Real(5)}}}}}
			}
			apdu := c.answer()
			if chance(t, "error", 10) {
				apdu = ref.Error(1, op{Kind: c.Kind}.service(), ref.ErrVal{Class: genU32(t, "class"), Code: genU32(t, "code")}, rapid.Bool().Draw(t, "enclosed"))
			}
			switch pick(t, "where", "apdu", "apdu", "npdu", "frame") {
			case "apdu":
				c.Frame = c.Peer.reply(mutate(t, apdu))
			case "npdu":
				c.Frame = ref.BVLC(0x0A, mutate(t, c.Peer.reply(apdu)[4:]))
			default:
				f := c.Peer.reply(apdu)
				if chance(t, "fwd", 20) {
					f = forwarded(c.Peer.ip(), f[4:])
				}
				c.Frame = mutate(t, f)
			}
			if len(c.Frame) > 1490 {
				c.Frame = c.Frame[:1490]
			}
			return c
		},
		func(r *engine.Rec, c anyReply) error { return c.run(r) })
}

func FuzzReply(f *testing.F) {
	cs := []anyReply{}
	for _, k := range opKinds {
		for _, p := range []peer{{Host: 20, Port: 47808}, {Host: 20, Port: 47808, Via: &ref.Net{Net: 9, Adr: []byte{7}}}} {
			c := anyReply{Kind: k, Peer: p, Objs: []ref.Obj{{Type: 2, Inst: 7, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 85, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Real(5)}}}}}}
			if k == "readmulti" {
				c.Objs = append(c.Objs, ref.Obj{Type: 2, Inst: 8, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 87, Index: 3}, Vals: []ref.Val{ref.Str("x")}}}})
			}
			f.Add(byte(len(cs)), c.Peer.reply(c.answer()))
			cs = append(cs, c)
		}
	}
	f.Fuzz(func(t *testing.T, k byte, b []byte) {
		c := cs[int(k)%len(cs)]
		if c.Frame = b; len(b) > 1490 {
			c.Frame = b[:1490]
		}
		fuzzing(t, c, func() error { return c.run(engine.NewRec(t)) })
	})
}
