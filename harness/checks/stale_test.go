package checks

import (
	"fmt"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// A device answers after the time-out, when its invoke id is used for another
// request already: ids come around after as many requests as there are ids.

// mistaken tells whether a reply of o can be taken for one of p: they are the
// same device, or o is behind the router that p is.
func (p peer) mistaken(o peer) bool {
	if p.Via != nil {
		return o.Via != nil && p.Via.Net == o.Via.Net && string(p.Via.Adr) == string(o.Via.Adr)
	}
	return string(p.ip().Mac) == string(o.ip().Mac)
}

type staleCase struct {
	Peers []peer `json:"peers"`
	// First is answered after FirstMs, long after its time-out
	First   op  `json:"first"`
	FirstMs int `json:"first_ms"`
	Between int `json:"between"`
	// Later are the requests that are waiting when that answer arrives, the
	// answers to them need LaterMs
	Later   []op `json:"later"`
	LaterMs int  `json:"later_ms"`
	// Differ is what the requests differ in: they are for several objects, for
	// several properties of an object or for several elements of a property, or
	// only the last one of the properties differs
	Differ string `json:"differ"`
}

func genStale(t *rapid.T) staleCase {
	var c staleCase
	c.Peers = genPeers(t, 1, 3)
	one := func(kinds ...string) op {
		return op{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Peer: rapid.IntRange(0, len(c.Peers)-1).Draw(t, "peer"), Props: rapid.IntRange(1, 3).Draw(t, "props")}
	}
	c.First = one(opKinds...)
	wait := 5000
	if c.First.Kind != "read" {
		wait = 10000
	}
	c.FirstMs = wait + rapid.IntRange(300, 1500).Draw(t, "late")
	c.Between = rapid.OneOf(rapid.IntRange(246, 258), rapid.IntRange(0, 300)).Draw(t, "between")
	n := rapid.IntRange(1, 20).Draw(t, "later")
	for i := 0; i < n; i++ {
		c.Later = append(c.Later, one(opKinds...))
	}
	c.LaterMs = rapid.IntRange(1600, 4500).Draw(t, "later ms")
	c.Differ = pick(t, "differ", "object", "property", "index", "last property", "last index", "one more")
	return c
}

func init() {
	engine.Add("K01", "late answers and reused ids", "the late answer carries the id of a request that is waiting", 500, 15000, genStale,
		func(r *engine.Rec, c staleCase) error {
			// the operations by the number that is in their objects
			ops := append([]op{c.First}, c.Later...)
			var mu sync.Mutex
			ids := map[int]byte{}
			sent := map[int]time.Duration{}
			same := func(i int, id byte, q ref.Req) (os []ref.Obj) {
				for _, o := range q.Objs {
					x := ref.Obj{Type: o.Type, Inst: o.Inst}
					for j, p := range o.Props {
						x.Props = append(x.Props, ref.PropV{PropRef: p.PropRef, Vals: []ref.Val{ref.Str(fmt.Sprintf("value %d of request %d", j, i))}})
					}
					os = append(os, x)
				}
				return os
			}
			answer := func(i int, q ref.Req) []byte {
				switch ops[i].Kind {
				case "read":
					return ref.ReadAck(q.Invoke, same(i, q.Invoke, q)[0])
				case "readmulti":
					return ref.ReadMultiAck(q.Invoke, same(i, q.Invoke, q))
				}
				return ref.SimpleAck(q.Invoke, ops[i].service())
			}
			// what the i-th one asks for
			objs := func(i int) []ref.Obj {
				os := ops[i].objs(i)
				if c.Differ == "object" {
					return os
				}
				os[0].Inst = 1000
				ps := os[0].Props
				last := &ps[len(ps)-1]
				switch c.Differ {
				case "property":
					for j := range ps {
						ps[j].ID = uint32(200 + i*10 + j)
					}
				case "index":
					for j := range ps {
						ps[j].Index = uint32(i)
					}
				case "last property":
					last.ID = uint32(200 + i)
				case "last index":
					last.Index = uint32(i)
				case "one more":
					// The first one asks for a part of what the others ask for
					if o := ops[i]; i > 0 && (o.Kind == "readmulti" || o.Kind == "writemulti") {
						x := *last
						x.ID = uint32(200 + i)
						os[0].Props = append(ps, x)
					} else if i > 0 {
						last.ID = uint32(200 + i)
					}
				}
				return os
			}
			number := func(o ref.Obj) int {
				last := o.Props[len(o.Props)-1]
				switch c.Differ {
				case "property":
					return int(last.ID-200) / 10
				case "index", "last index":
					return int(last.Index)
				case "last property", "one more":
					if last.ID < 200 {
						return 0
					}
					return int(last.ID - 200)
				}
				return int(o.Inst - 1000)
			}
			return withClient(r, func(l *sim.Link) {
				l.OnSend = func(f sim.Frame) error {
					fr, err := ref.ParseFrame(f.Data)
					if err != nil || len(fr.Req.Objs) == 0 {
						return err
					}
					q := fr.Req
					if q.Objs[0].Inst < 1000 { // one between
						o := ref.Obj{Type: 2, Inst: q.Objs[0].Inst, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 85, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Uint(1)}}}}
						l.InjectLater(ms/10, c.Peers[0].ip(), c.Peers[0].reply(ref.ReadAck(q.Invoke, o)))
						return nil
					}
					i := number(q.Objs[0])
					mu.Lock()
					defer mu.Unlock()
					if _, again := ids[i]; again {
						return nil
					}
					ids[i], sent[i] = q.Invoke, f.At
					d := time.Duration(c.LaterMs) * ms
					if i == 0 {
						d = time.Duration(c.FirstMs) * ms
					}
					p := c.Peers[ops[i].Peer]
					l.InjectLater(d, p.ip(), p.reply(answer(i, q)))
					return nil
				}
			}, func(cl bacnet.Client, l *sim.Link) error {
				call := func(i int) (bool, error) {
					o, dev := ops[i], c.Peers[ops[i].Peer].device(uint32(ops[i].Peer+1), 1476)
					want := same(i, 0, ref.Req{Objs: objs(i)})
					switch o.Kind {
					case "read":
						out, err := cl.ReadProperty(dev, toPD(objs(i)[0]))
						if err != nil {
							return false, nil
						}
						return true, sameObj(want[0], out.Object, true)
					case "readmulti":
						out, err := cl.ReadMultiProperty(dev, toMPD(objs(i)))
						if err != nil {
							return false, nil
						}
						return true, sameObjs(want, out.Objects)
					case "write":
						return cl.WriteProperty(dev, toPD(objs(i)[0])) == nil, nil
					}
					return cl.WriteMultiProperty(dev, toMPD(objs(i))) == nil, nil
				}
				ok, err := call(0)
				if err != nil || ok {
					return fmt.Errorf("a request that wasn't answered yet returns: %v", err)
				}
				for i := 0; i < c.Between; i++ {
					if _, err := cl.ReadProperty(c.Peers[0].device(1, 1476), readOf(2, uint32(i), 85, ref.ArrayAll)); err != nil {
						return fmt.Errorf("request %d: %v", i, err)
					}
				}
				late := sent[0] + time.Duration(c.FirstMs)*ms
				return parallel(len(c.Later), func(k int) error {
					i := k + 1
					return within(ops[i].limit(), fmt.Sprintf("request %d", i), func() error {
						ok, err := call(i)
						mu.Lock()
						defer mu.Unlock()
						hit := ids[i] == ids[0] && l.Now() >= late && sent[i] < late
						r.Hit(hit)
						if err != nil {
							return fmt.Errorf("request %d returns what isn't its own answer: %w", i, err)
						}
						// A device can't tell its acknowledgements of two writes apart
						alike := ops[i].service() == c.First.service() && c.Peers[ops[i].Peer].mistaken(c.Peers[c.First.Peer])
						own := sent[i] + time.Duration(c.LaterMs)*ms
						r.LabelIf(hit && alike, "same station and service")
						r.LabelIf(hit && !alike, "another station or service")
						if !alike && (!ok || l.Now() != own) {
							return fmt.Errorf("request %d is answered at %v but ends at %v, success: %v", i, own, l.Now(), ok)
						}
						if alike && ok && l.Now() < own && len(ref.SimpleAck(0, 0)) != len(answer(i, ref.Req{Objs: objs(i)})) {
							return fmt.Errorf("request %d succeeds before it is answered", i)
						}
						return nil
					})
				})
			})
		}, engine.Limit(60*time.Second))
}
