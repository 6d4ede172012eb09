package checks

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"

	"verif/engine"
	"verif/ref"
)

// Properties whose values are records with context-tagged members, as the
// standard's clause 21 defines them. The library knows their datatypes, so
// that the members must come back as the values that were sent.

type member struct {
	Tag int     `json:"tag"` // -1 is an application-tagged one
	Val ref.Val `json:"val"`
	// Hidden members are part of something nested, of which nothing is said
	Hidden []byte `json:"hidden,omitempty"`
}

type recordsCase struct {
	Multi   bool       `json:"multi"`
	Obj     ref.Obj    `json:"obj"`
	Records [][]member `json:"records"`
}

type recordDef struct {
	prop uint32
	name string
	gen  func(t *rapid.T) []member
}

func maybe(t *rapid.T, ms []member, m func() member) []member {
	if rapid.Bool().Draw(t, "present") {
		return append(ms, m())
	}
	return ms
}

func ctxM(tag int, v ref.Val) member { return member{Tag: tag, Val: v} }

func genOID(t *rapid.T, devices bool) ref.Val {
	ty := genObjType(t, "type")
	if devices {
		ty = 8
	}
	return ref.OID(ty, genInst(t, "inst"))
}

func genEnum(t *rapid.T) ref.Val { return ref.Enum(genPropID(t, "property")) }
func genUint(t *rapid.T) ref.Val { return ref.Uint(genU32(t, "n")) }
func genFlag(t *rapid.T) ref.Val { return ref.Bool(rapid.Bool().Draw(t, "flag")) }
func genReal(t *rapid.T) ref.Val { return ref.Real(rapid.Float32().Draw(t, "real")) }

func genShed(t *rapid.T) []member {
	switch i := rapid.IntRange(0, 2).Draw(t, "choice"); i {
	case 2:
		return []member{ctxM(2, genReal(t))}
	default:
		return []member{ctxM(i, genUint(t))}
	}
}

var records = []recordDef{
	{212, "shed level", genShed}, {218, "shed level", genShed}, {214, "shed level", genShed},
	{2, "action", func(t *rapid.T) []member {
		var ms []member
		ms = maybe(t, ms, func() member { return ctxM(0, genOID(t, true)) })
		ms = append(ms, ctxM(1, genOID(t, false)), ctxM(2, genEnum(t)))
		ms = maybe(t, ms, func() member { return ctxM(3, genUint(t)) })
		ms = maybe(t, ms, func() member { return ctxM(5, ref.Uint(rapid.Uint32Range(1, 16).Draw(t, "priority"))) })
		ms = maybe(t, ms, func() member { return ctxM(6, genUint(t)) })
		return append(ms, ctxM(7, genFlag(t)), ctxM(8, genFlag(t)))
	}},
	{53, "group members", func(t *rapid.T) []member {
		var nested []byte
		for i := rapid.IntRange(1, 3).Draw(t, "properties"); i > 0; i-- {
			nested = ref.Cat(nested, ref.Enum(genPropID(t, "property")).Ctx(0))
			if rapid.Bool().Draw(t, "index?") {
				nested = ref.Cat(nested, ref.CtxUint(1, genU32(t, "index")))
			}
		}
		return []member{ctxM(0, genOID(t, false)), {Hidden: ref.Cat(ref.Open(1), nested, ref.Close(1))}}
	}},
	{38, "exception schedule", func(t *rapid.T) []member {
		// Of the entries only those that refer to a calendar
		return []member{ctxM(1, ref.OID(6, genInst(t, "inst"))), ctxM(3, ref.Uint(rapid.Uint32Range(1, 16).Draw(t, "priority")))}
	}},
	{132, "log reference", func(t *rapid.T) []member {
		ms := []member{ctxM(0, genOID(t, false)), ctxM(1, genEnum(t))}
		ms = maybe(t, ms, func() member { return ctxM(2, genUint(t)) })
		return maybe(t, ms, func() member { return ctxM(3, genOID(t, true)) })
	}},
	{211, "subordinates", func(t *rapid.T) []member {
		var ms []member
		ms = maybe(t, ms, func() member { return ctxM(0, genOID(t, true)) })
		return append(ms, ctxM(1, genOID(t, false)))
	}},
	{102, "recipients", func(t *rapid.T) []member {
		ms := []member{
			ctxM(-1, ref.Val{K: "bits", Bits: rapid.SliceOfN(rapid.Bool(), 7, 7).Draw(t, "days")}),
			ctxM(-1, ref.Val{K: "time", B: genTime(t, "from")}), ctxM(-1, ref.Val{K: "time", B: genTime(t, "to")}),
		}
		if rapid.Bool().Draw(t, "device") {
			ms = append(ms, ctxM(0, genOID(t, true)))
		} else {
			ms = append(ms, member{Hidden: ref.Open(1)}, ctxM(-1, ref.Uint(rapid.Uint32Range(0, 65535).Draw(t, "net"))),
				ctxM(-1, ref.Val{K: "octets", B: rapid.SliceOfN(rapid.Byte(), 0, 7).Draw(t, "mac")}), member{Hidden: ref.Close(1)})
		}
		return append(ms, ctxM(-1, genUint(t)), ctxM(-1, genFlag(t)), ctxM(-1, ref.Val{K: "bits", Bits: rapid.SliceOfN(rapid.Bool(), 3, 3).Draw(t, "transitions")}))
	}},
	{152, "subscriptions", func(t *rapid.T) []member {
		recipient := ref.Cat(ref.Open(0), ref.Open(0), genOID(t, true).Ctx(0), ref.Close(0), genUint(t).Ctx(1), ref.Close(0))
		monitored := ref.Cat(genOID(t, false).Ctx(0), genEnum(t).Ctx(1))
		if rapid.Bool().Draw(t, "index?") {
			monitored = ref.Cat(monitored, genUint(t).Ctx(2))
		}
		ms := []member{{Hidden: ref.Cat(recipient, ref.Open(1), monitored, ref.Close(1))}, ctxM(2, genFlag(t)), ctxM(3, genUint(t))}
		return maybe(t, ms, func() member { return ctxM(4, genReal(t)) })
	}},
}

func init() {
	gen := func(multi bool) func(t *rapid.T) recordsCase {
		return func(t *rapid.T) recordsCase {
			c := recordsCase{Multi: multi, Obj: genObjs(t, 1, 1)[0]}
			d := rapid.SampledFrom(records).Draw(t, "property")
			p := &c.Obj.Props[0]
			p.ID = d.prop
			most := 5
			if d.name == "shed level" {
				most = 1
			}
			for i := rapid.IntRange(1, most).Draw(t, "records"); i > 0; i-- {
				c.Records = append(c.Records, d.gen(t))
			}
			return c
		}
	}
	run := func(r *engine.Rec, c recordsCase) error {
		for _, d := range records {
			r.LabelIf(d.prop == c.Obj.Props[0].ID, d.name)
		}
		raw := []byte{}
		var want []ref.Val
		for _, ms := range c.Records {
			for _, m := range ms {
				switch {
				case m.Hidden != nil:
					raw = ref.Cat(raw, m.Hidden)
				case m.Tag < 0:
					raw = ref.Cat(raw, m.Val.Enc())
					want = append(want, m.Val)
				default:
					raw = ref.Cat(raw, m.Val.Ctx(byte(m.Tag)))
					want = append(want, m.Val)
				}
			}
		}
		r.Hit(len(c.Records) > 1)
		c.Obj.Props[0].Raw = raw
		var data any
		if c.Multi {
			second := ref.Obj{Type: 1, Inst: 2, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 77, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Str("x")}}}}
			var m btypes.MultiplePropertyData
			d := encoding.NewDecoder(ref.ReadMultiAckBody([]ref.Obj{c.Obj, second}))
			if err := decErr(d, d.ReadMultiplePropertyAck(&m)); err != nil {
				return fmt.Errorf("%x is refused: %v", raw, err)
			}
			if err := sameObjs([]ref.Obj{c.Obj, second}, m.Objects); err != nil {
				return err
			}
			data = m.Objects[0].Properties[0].Data
		} else {
			var pd btypes.PropertyData
			d := encoding.NewDecoder(ref.ReadAckBody(c.Obj))
			if err := decErr(d, d.ReadProperty(&pd)); err != nil {
				return fmt.Errorf("%x is refused: %v", raw, err)
			}
			if err := sameObj(c.Obj, pd.Object, true); err != nil {
				return err
			}
			data = pd.Object.Properties[0].Data
		}
		if err := ref.SameList(want, data); err != nil {
			return fmt.Errorf("the members of %x: %w", raw, err)
		}
		return nil
	}
	engine.Add("C07", "records", "there are several records", 4000, 150000, gen(false), run)
	engine.Add("C08", "records", "there are several records", 4000, 150000, gen(true), run)
}
