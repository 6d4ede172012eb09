package checks

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// A device answers less than it was asked for, or something else: a well-formed
// acknowledgement with the right id that isn't the answer to the question.

type otherAnswer struct {
	Asked []ref.Obj `json:"asked"`
	// Edits turn what was asked for into what is answered
	Edits []answerEdit `json:"edits"`
	// Single is set if it is asked for with the service for one property
	Single bool `json:"single,omitempty"`
}

type answerEdit struct {
	What string `json:"what"`
	Obj  int    `json:"obj"`
	Prop int    `json:"prop"`
	N    uint32 `json:"n"`
}

// given is what the device answers.
func (c otherAnswer) given() []ref.Obj {
	var os []ref.Obj
	for _, o := range c.Asked {
		os = append(os, clone2(o))
	}
	for _, e := range c.Edits {
		if len(os) == 0 {
			break
		}
		i := e.Obj % len(os)
		o := &os[i]
		j := 0
		if len(o.Props) > 0 {
			j = e.Prop % len(o.Props)
		} else if e.What != "no object" && e.What != "type" && e.What != "instance" {
			continue
		}
		switch e.What {
		case "no property":
			o.Props = append(o.Props[:j:j], o.Props[j+1:]...)
		case "no object":
			os = append(os[:i:i], os[i+1:]...)
		case "type":
			o.Type = (o.Type + uint16(e.N%1023) + 1) % 1024
		case "instance":
			o.Inst = (o.Inst + e.N%0x3FFFFF + 1) % 0x400000
		case "property":
			o.Props[j].ID = (o.Props[j].ID + e.N%4194303 + 1) % 4194304
		case "element":
			if o.Props[j].Index == ref.ArrayAll {
				o.Props[j].Index = e.N % 100
			} else {
				o.Props[j].Index = ref.ArrayAll
			}
		case "next element":
			if o.Props[j].Index != ref.ArrayAll && o.Props[j].Index+1 != ref.ArrayAll {
				o.Props[j].Index++
			}
		case "property twice":
			o.Props = append(o.Props, o.Props[j])
		case "object twice":
			os = append(os, clone2(*o))
		case "one more property":
			p := o.Props[j]
			p.ID = e.N
			o.Props = append(o.Props, p)
		}
	}
	return os
}

// sameObject tells whether the answer is about the object that was asked for.
// Any device answers for the wildcard.
func sameObject(asked, given ref.Obj) bool {
	return asked.Type == given.Type && (asked.Inst == given.Inst || asked.Type == 8 && asked.Inst == 0x3FFFFF)
}

// lacks tells whether something of a isn't in b.
func lacks(a, b []ref.Obj, same func(a, b ref.Obj) bool) bool {
	for _, x := range a {
		for _, p := range x.Props {
			found := false
			for _, y := range b {
				if !same(x, y) {
					continue
				}
				for _, q := range y.Props {
					found = found || p.PropRef == q.PropRef
				}
			}
			if !found {
				return true
			}
		}
	}
	return false
}

func init() {
	engine.Add("K12", "answers that lack something", "the reply lacks something, or has something that nobody asked for", 3000, 100000,
		func(t *rapid.T) otherAnswer {
			c := otherAnswer{Single: chance(t, "single", 25)}
			if c.Asked = genObjs(t, 4, 4); c.Single {
				c.Asked = genObjs(t, 1, 1)
			}
			for i := range c.Asked {
				for j := range c.Asked[i].Props {
					p := &c.Asked[i].Props[j]
					p.Vals = []ref.Val{genValN(t, "v", allKinds, 30)}
					if chance(t, "size", 10) {
						p.Index = 0
					}
					switch p.ID {
					case 8, 80, 105: // groups of properties
						p.ID++
					}
				}
				if chance(t, "wildcard", 8) {
					c.Asked[i].Type, c.Asked[i].Inst = 8, 0x3FFFFF
				}
			}
			for i := rapid.IntRange(0, 3).Draw(t, "edits"); i > 0; i-- {
				c.Edits = append(c.Edits, answerEdit{
					What: pick(t, "what", "no property", "no property", "no object", "type", "instance", "property", "element", "next element", "property twice", "object twice", "one more property"),
					Obj:  rapid.IntRange(0, 3).Draw(t, "obj"), Prop: rapid.IntRange(0, 3).Draw(t, "prop"), N: rapid.Uint32Range(0, 5000).Draw(t, "n"),
				})
			}
			return c
		},
		func(r *engine.Rec, c otherAnswer) error {
			given := c.given()
			if c.Single && (len(given) != 1 || len(given[0].Props) != 1) {
				return nil
			}
			ack := ref.ReadMultiAck(0, given)
			if c.Single {
				ack = ref.ReadAck(0, given[0])
			}
			if len(ack) > 1476 {
				return nil
			}
			less := lacks(c.Asked, given, sameObject)
			more := lacks(given, c.Asked, func(g, a ref.Obj) bool { return sameObject(a, g) })
			r.Hit(less || more)
			r.LabelIf(less, "lacks something")
			r.LabelIf(more, "something else")
			r.LabelIf(!less && !more, "whole")
			r.LabelIf(len(given) == 0, "nothing")
			return withClient(r, func(l *sim.Link) {
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil {
						return err
					}
					b := clone(ack)
					b[1] = fr.Req.Invoke
					l.Inject(f.Dest, sim.Reply(fr.Net.Dst, b))
					return nil
				}
			}, func(cl bacnet.Client, l *sim.Link) error {
				return within(30*time.Second, "the request", func() error {
					dev := peer{Host: 20, Port: 47808}.device(1, 1476)
					var got []btypes.Object
					var err error
					if c.Single {
						var out btypes.PropertyData
						out, err = cl.ReadProperty(dev, toPD(strip(c.Asked)[0]))
						got = []btypes.Object{out.Object}
					} else {
						var out btypes.MultiplePropertyData
						out, err = cl.ReadMultiProperty(dev, toMPD(strip(c.Asked)))
						got = out.Objects
					}
					switch {
					case (less || more) && err == nil:
						return fmt.Errorf("asking for %v is answered with %v and succeeds", strip(c.Asked), given)
					case len(c.Edits) == 0 && err != nil:
						return fmt.Errorf("the answer isn't accepted: %v", err)
					case err == nil:
						return sameObjs(given, got)
					}
					return nil
				})
			})
		}, engine.Limit(30*time.Second))
}
