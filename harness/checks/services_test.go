package checks

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"

	"verif/engine"
	"verif/ref"
)

type serviceCase struct {
	Invoke byte      `json:"invoke"`
	Objs   []ref.Obj `json:"objs"`
}

func labelObjs(r *engine.Rec, os []ref.Obj) (nontrivial bool) {
	r.LabelIf(len(os) > 1, "several objects")
	for _, o := range os {
		r.LabelIf(o.Type > 127, "proprietary type")
		r.LabelIf(len(o.Props) > 1, "several properties")
		for _, p := range o.Props {
			r.LabelIf(p.Index != ref.ArrayAll, "index")
			r.LabelIf(p.Index == 0, "index zero")
			r.LabelIf(p.ID > 255, "property above 255")
			r.LabelIf(p.Prio > 0, "priority")
			r.LabelIf(len(p.Vals) == 0 && p.Raw == nil, "no value")
			r.LabelIf(len(p.Vals) > 1, "list")
			r.LabelIf(p.Raw != nil, "constructed")
			if p.Index != ref.ArrayAll || p.ID > 255 || p.Prio > 0 || len(p.Vals) > 1 {
				nontrivial = true
			}
			for _, v := range p.Vals {
				r.Label("kind=%s", v.K)
			}
		}
	}
	return nontrivial || len(os) > 1
}

// genWrites generates objects with one value for each property.
func genWrites(t *rapid.T, maxObjs, maxProps int) []ref.Obj {
	os := genObjs(t, maxObjs, maxProps)
	for i := range os {
		for j := range os[i].Props {
			p := &os[i].Props[j]
			p.Vals = []ref.Val{genVal(t, "v", encodable)}
			p.Prio = byte(rapid.OneOf(rapid.IntRange(0, 16), rapid.Just(0)).Draw(t, "prio"))
		}
	}
	return os
}

// constructedList is a list value with the decoder's view of its time stamps.
type stampsCase struct {
	Multi bool      `json:"multi"`
	Obj   ref.Obj   `json:"obj"`
	Dates [][]byte  `json:"dates"`
	Times [][]byte  `json:"times"`
	After []ref.Val `json:"after"`
}

func init() {
	const some = "an index, a priority, a property above 255, a list or several objects are involved"

	engine.Add("C05", "single read", some, 15000, 500000,
		func(t *rapid.T) serviceCase {
			return serviceCase{rapid.Byte().Draw(t, "invoke"), genObjs(t, 1, 1)}
		},
		func(r *engine.Rec, c serviceCase) error {
			r.Hit(labelObjs(r, c.Objs))
			o := c.Objs[0]
			e := encoding.NewEncoder()
			if err := encErr(e, e.ReadProperty(c.Invoke, toPD(o))); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			if err := sameBytes("request", ref.ReadReq(c.Invoke, o), e.Bytes()); err != nil {
				return err
			}
			var a btypes.APDU
			d := encoding.NewDecoder(clone(e.Bytes()))
			if err := decErr(d, d.APDU(&a)); err != nil {
				return fmt.Errorf("header not decoded: %v", err)
			}
			if a.DataType != btypes.ConfirmedServiceRequest || a.InvokeId != c.Invoke || a.Service != btypes.ServiceConfirmedReadProperty {
				return fmt.Errorf("header decoded as %+v", a)
			}
			var pd btypes.PropertyData
			d = encoding.NewDecoder(clone(e.Bytes()[4:]))
			if err := decErr(d, d.ReadProperty(&pd)); err != nil {
				return fmt.Errorf("request not decoded: %v", err)
			}
			return sameObj(o, pd.Object, false)
		})

	engine.Add("C05", "multiple read", some, 8000, 300000,
		func(t *rapid.T) serviceCase {
			return serviceCase{rapid.Byte().Draw(t, "invoke"), genObjs(t, 12, 6)}
		},
		func(r *engine.Rec, c serviceCase) error {
			r.Hit(labelObjs(r, c.Objs))
			e := encoding.NewEncoder()
			if err := encErr(e, e.ReadMultipleProperty(c.Invoke, toMPD(c.Objs))); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			return sameBytes("request", ref.ReadMultiReq(c.Invoke, c.Objs), e.Bytes())
		})

	engine.Add("C06", "single write", "the write has an index or a priority, or the value isn't a single octet", 20000, 600000,
		func(t *rapid.T) serviceCase {
			os := genWrites(t, 1, 1)
			if chance(t, "binary", 25) {
				os[0].Type = pick[uint16](t, "type", 4, 5)
				os[0].Props[0].ID = 85
			}
			if (os[0].Type == 4 || os[0].Type == 5) && os[0].Props[0].ID == 85 {
				os[0].Props[0].Vals[0] = genVal(t, "v", []string{"uint", "uint", "null"})
			}
			return serviceCase{rapid.Byte().Draw(t, "invoke"), os}
		},
		func(r *engine.Rec, c serviceCase) error {
			o := c.Objs[0]
			r.Hit(labelObjs(r, c.Objs) || interesting(o.Props[0].Vals))
			e := encoding.NewEncoder()
			if err := encErr(e, e.WriteProperty(c.Invoke, toPD(o))); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			if (o.Type == 4 || o.Type == 5) && o.Props[0].ID == 85 {
				r.Label("binary")
				want := clone2(o)
				if want.Props[0].Vals[0].K == "uint" {
					want.Props[0].Vals[0].K = "enum"
				}
				o = want
			}
			return sameBytes("request", ref.WriteReq(c.Invoke, o), e.Bytes())
		})

	engine.Add("C06", "multiple write", some, 10000, 300000,
		func(t *rapid.T) serviceCase {
			return serviceCase{rapid.Byte().Draw(t, "invoke"), genWrites(t, 10, 5)}
		},
		func(r *engine.Rec, c serviceCase) error {
			r.Hit(labelObjs(r, c.Objs))
			e := encoding.NewEncoder()
			if err := encErr(e, e.WriteMultiProperty(c.Invoke, toMPD(c.Objs))); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			return sameBytes("request", ref.WriteMultiReq(c.Invoke, c.Objs), e.Bytes())
		})

	engine.Add("C07", "decode", some, 20000, 600000,
		func(t *rapid.T) serviceCase {
			return serviceCase{rapid.Byte().Draw(t, "invoke"), genValued(t, 1, 1, 17, true)}
		},
		func(r *engine.Rec, c serviceCase) error {
			o := c.Objs[0]
			r.Hit(labelObjs(r, c.Objs) || o.Props[0].Raw != nil)
			var a btypes.APDU
			d := encoding.NewDecoder(clone(ref.ReadAck(c.Invoke, o)))
			if err := decErr(d, d.APDU(&a)); err != nil {
				return fmt.Errorf("header not decoded: %v", err)
			}
			if a.DataType != btypes.ComplexAck || a.InvokeId != c.Invoke || a.Service != btypes.ServiceConfirmedReadProperty {
				return fmt.Errorf("header decoded as %+v", a)
			}
			var pd btypes.PropertyData
			if err := decErr(d, d.ReadProperty(&pd)); err != nil {
				return fmt.Errorf("%x is refused: %v", ref.ReadAck(c.Invoke, o), err)
			}
			return sameObj(o, pd.Object, true)
		})

	encodeAck := func(t *rapid.T, objs, props int) serviceCase {
		c := serviceCase{rapid.Byte().Draw(t, "invoke"), genObjs(t, objs, props)}
		for i := range c.Objs {
			for j := range c.Objs[i].Props {
				vs := genVals(t, encodable, 17)
				if len(vs) == 0 {
					vs = []ref.Val{ref.Null()}
				}
				c.Objs[i].Props[j].Vals = vs
			}
		}
		return c
	}
	engine.Add("C07", "encode", some, 8000, 300000,
		func(t *rapid.T) serviceCase { return encodeAck(t, 1, 1) },
		func(r *engine.Rec, c serviceCase) error {
			r.Hit(labelObjs(r, c.Objs))
			e := encoding.NewEncoder()
			if err := encErr(e, e.ReadPropertyAck(c.Invoke, toPD(c.Objs[0]))); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			return sameBytes("acknowledgement", ref.ReadAck(c.Invoke, c.Objs[0]), e.Bytes())
		})

	engine.Add("C08", "decode", some, 12000, 400000,
		func(t *rapid.T) serviceCase {
			return serviceCase{rapid.Byte().Draw(t, "invoke"), genValued(t, 6, 4, 8, true)}
		},
		func(r *engine.Rec, c serviceCase) error {
			r.Hit(labelObjs(r, c.Objs))
			var a btypes.APDU
			d := encoding.NewDecoder(clone(ref.ReadMultiAck(c.Invoke, c.Objs)))
			if err := decErr(d, d.APDU(&a)); err != nil {
				return fmt.Errorf("header not decoded: %v", err)
			}
			if a.DataType != btypes.ComplexAck || a.InvokeId != c.Invoke || a.Service != btypes.ServiceConfirmedReadPropMultiple {
				return fmt.Errorf("header decoded as %+v", a)
			}
			var m btypes.MultiplePropertyData
			if err := decErr(d, d.ReadMultiplePropertyAck(&m)); err != nil {
				return fmt.Errorf("%x is refused: %v", ref.ReadMultiAck(c.Invoke, c.Objs), err)
			}
			return sameObjs(c.Objs, m.Objects)
		})

	engine.Add("C08", "encode", some, 5000, 200000,
		func(t *rapid.T) serviceCase { return encodeAck(t, 6, 4) },
		func(r *engine.Rec, c serviceCase) error {
			r.Hit(labelObjs(r, c.Objs))
			e := encoding.NewEncoder()
			if err := encErr(e, e.ReadMultiplePropertyAck(c.Invoke, toMPD(c.Objs))); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			return sameBytes("acknowledgement", ref.ReadMultiAck(c.Invoke, c.Objs), e.Bytes())
		})

	engine.Add("C08", "access errors", "the error isn't in the first property", 5000, 200000,
		func(t *rapid.T) serviceCase {
			c := serviceCase{1, genValued(t, 4, 4, 3, true)}
			o := &c.Objs[rapid.IntRange(0, len(c.Objs)-1).Draw(t, "at")]
			p := &o.Props[rapid.IntRange(0, len(o.Props)-1).Draw(t, "at")]
			p.Err = &ref.ErrVal{Class: rapid.OneOf(rapid.Uint32Range(0, 7), rapid.Uint32Range(0, 65535)).Draw(t, "class"), Code: rapid.OneOf(rapid.Uint32Range(0, 140), rapid.Uint32Range(0, 65535)).Draw(t, "code")}
			return c
		},
		func(r *engine.Rec, c serviceCase) error {
			var want *ref.ErrVal
			for i, o := range c.Objs {
				for j, p := range o.Props {
					if want == nil && p.Err != nil {
						want = p.Err
						r.Hit(i+j > 0)
					}
				}
			}
			var m btypes.MultiplePropertyData
			d := encoding.NewDecoder(clone(ref.ReadMultiAckBody(c.Objs)))
			err := decErr(d, d.ReadMultiplePropertyAck(&m))
			if err == nil {
				return fmt.Errorf("the access error %+v is not reported", *want)
			}
			// Both numbers, in that order
			cl := strings.Index(err.Error(), fmt.Sprint(want.Class))
			if cl < 0 || !strings.Contains(err.Error()[cl+len(fmt.Sprint(want.Class)):], fmt.Sprint(want.Code)) {
				return fmt.Errorf("the access error %+v is reported as %q", *want, err)
			}
			return nil
		})

	stamps := func(r *engine.Rec, c stampsCase) error {
		r.Hit(len(c.Dates) > 1)
		r.LabelIf(c.Multi, "multiple")
		p := &c.Obj.Props[0]
		var raw []byte
		for i := range c.Dates {
			raw = ref.Cat(raw, ref.Open(2), ref.Val{K: "date", B: c.Dates[i]}.Enc(), ref.Val{K: "time", B: c.Times[i]}.Enc(), ref.Close(2))
		}
		raw = ref.Cat(raw, ref.EncAll(c.After))
		p.Raw = raw
		var data any
		if c.Multi {
			second := ref.Obj{Type: 1, Inst: 2, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 77, Index: ref.ArrayAll}, Vals: []ref.Val{ref.Str("x")}}}}
			var m btypes.MultiplePropertyData
			d := encoding.NewDecoder(ref.ReadMultiAckBody([]ref.Obj{c.Obj, second}))
			if err := decErr(d, d.ReadMultiplePropertyAck(&m)); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			if err := sameObjs([]ref.Obj{c.Obj, second}, m.Objects); err != nil {
				return err
			}
			data = m.Objects[0].Properties[0].Data
		} else {
			var pd btypes.PropertyData
			d := encoding.NewDecoder(ref.ReadAckBody(c.Obj))
			if err := decErr(d, d.ReadProperty(&pd)); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			if err := sameObj(c.Obj, pd.Object, true); err != nil {
				return err
			}
			data = pd.Object.Properties[0].Data
		}
		list, ok := data.([]interface{})
		if n := len(c.Dates) + len(c.After); n == 1 {
			list, ok = []interface{}{data}, true
		} else if !ok || len(list) != n {
			return fmt.Errorf("%d elements decoded as %T %v", n, data, data)
		}
		for i := range c.Dates {
			dt, ok := list[i].(*btypes.DataTime)
			if !ok || dt == nil {
				return fmt.Errorf("time stamp %d decoded as %T %v", i, list[i], list[i])
			}
			if err := ref.SameDate(c.Dates[i], dt.Date); err != nil {
				return fmt.Errorf("time stamp %d: %w", i, err)
			}
			if err := ref.SameTime(c.Times[i], dt.Time); err != nil {
				return fmt.Errorf("time stamp %d: %w", i, err)
			}
		}
		for i, v := range c.After {
			if err := v.Same(list[len(c.Dates)+i]); err != nil {
				return fmt.Errorf("after the time stamps: %w", err)
			}
		}
		return nil
	}
	genStamps := func(multi bool) func(t *rapid.T) stampsCase {
		return func(t *rapid.T) stampsCase {
			c := stampsCase{Multi: multi, Obj: genObjs(t, 1, 1)[0]}
			for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
				c.Dates = append(c.Dates, genDate(t, "d"))
				c.Times = append(c.Times, genTime(t, "t"))
			}
			if rapid.Bool().Draw(t, "after?") {
				c.After = genVals(t, allKinds, 3)
			}
			return c
		}
	}
	engine.Add("C07", "time stamps", "there are several time stamps", 3000, 100000, genStamps(false), stamps)
	engine.Add("C08", "time stamps", "there are several time stamps", 3000, 100000, genStamps(true), stamps)

	engine.Add("C13", "encoders", "the defect isn't in the only or first object", 12000, 400000,
		genInvalid,
		func(r *engine.Rec, c invalidCase) error {
			r.Label("%s", c.What)
			r.Label("%s", c.Service)
			r.Hit(c.At > 0 || c.PropAt > 0)
			e := encoding.NewEncoder()
			var err error
			m := c.build()
			switch c.Service {
			case "read":
				err = e.ReadProperty(7, single(m))
			case "write":
				err = e.WriteProperty(7, single(m))
			case "readmulti":
				err = e.ReadMultipleProperty(7, m)
			case "writemulti":
				err = e.WriteMultiProperty(7, m)
			}
			if encErr(e, err) == nil {
				return fmt.Errorf("%s with %s is encoded as %x", c.Service, c.What, e.Bytes())
			}
			return nil
		})
}

func clone2(o ref.Obj) ref.Obj {
	ps := make([]ref.PropV, len(o.Props))
	copy(ps, o.Props)
	for i := range ps {
		ps[i].Vals = append([]ref.Val{}, ps[i].Vals...)
	}
	o.Props = ps
	return o
}

func sameObjs(want []ref.Obj, got []btypes.Object) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d objects decoded as %d", len(want), len(got))
	}
	for i := range want {
		if err := sameObj(want[i], got[i], true); err != nil {
			return fmt.Errorf("object %d: %w", i, err)
		}
	}
	return nil
}

// invalidCase is a request that can't be expressed.
type invalidCase struct {
	Service string    `json:"service"`
	Objs    []ref.Obj `json:"objs"`
	What    string    `json:"what"`
	At      int       `json:"at"`
	PropAt  int       `json:"prop_at"`
	N       uint32    `json:"n"`
}

func genInvalid(t *rapid.T) invalidCase {
	c := invalidCase{Service: pick(t, "service", "read", "write", "readmulti", "writemulti")}
	kinds := []string{"type", "instance", "property", "no property"}
	switch c.Service {
	case "read":
		c.Objs = genObjs(t, 1, 1)
	case "write":
		c.Objs = genWrites(t, 1, 1)
		kinds = append(kinds, "data", "data", "list")
	case "readmulti":
		c.Objs = genObjs(t, 4, 3)
		kinds = append(kinds, "no object")
	case "writemulti":
		c.Objs = genWrites(t, 4, 3)
		kinds = append(kinds, "no object", "data", "data", "list")
	}
	c.What = rapid.SampledFrom(kinds).Draw(t, "what")
	c.At = rapid.IntRange(0, len(c.Objs)-1).Draw(t, "at")
	c.PropAt = rapid.IntRange(0, len(c.Objs[c.At].Props)-1).Draw(t, "prop")
	switch c.What {
	case "type":
		c.N = rapid.Uint32Range(1024, 65535).Draw(t, "n")
	case "instance":
		c.N = rapid.OneOf(rapid.Uint32Range(0x400000, 0xFFFFFFFF), rapid.SampledFrom([]uint32{0x400000, 0xFFFFFFFF, 0x800000})).Draw(t, "n")
	case "property":
		c.N = rapid.OneOf(rapid.Uint32Range(4194304, 0xFFFFFFFF), rapid.SampledFrom([]uint32{4194304, 0xFFFFFFFF})).Draw(t, "n")
	case "data":
		c.N = uint32(rapid.IntRange(0, len(inexpressible)-1).Draw(t, "n"))
	}
	return c
}

// inexpressible are values of datatypes that can't be sent.
var inexpressible = []any{
	nil, int(1), int64(1), uint64(1), uint(1), int8(1), uint8(1), int16(1), uint16(1), []byte{1}, btypes.Date{}, btypes.Time{},
	btypes.NewBitString(8), &btypes.DataTime{}, struct{}{}, map[string]int{}, []string{"x"}, &null.Null{}, complex(1, 1),
	btypes.ObjectID{Type: 1024, Instance: 1}, btypes.ObjectID{Type: 1, Instance: 0x400000},
}

func (c invalidCase) build() btypes.MultiplePropertyData {
	m := toMPD(c.Objs)
	if c.What == "no object" {
		m.Objects = nil
		return m
	}
	o := &m.Objects[c.At]
	p := &o.Properties[c.PropAt]
	switch c.What {
	case "type":
		o.ID.Type = btypes.ObjectType(c.N)
	case "instance":
		o.ID.Instance = btypes.ObjectInstance(c.N)
	case "property":
		p.Type = btypes.PropertyType(c.N)
	case "no property":
		o.Properties = nil
	case "data":
		p.Data = inexpressible[c.N]
	case "list":
		p.Data = []interface{}{float32(1), float32(2)}
	}
	return m
}

func single(m btypes.MultiplePropertyData) btypes.PropertyData {
	return btypes.PropertyData{Object: m.Objects[0]}
}
