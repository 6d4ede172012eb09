package checks

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/units"
	"github.com/NubeDev/bacnet/network"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// ---------------------------------------------------------------- N01

type pointRead struct {
	Kind    string      `json:"kind"`
	Station int         `json:"station"`
	Type    uint16      `json:"type"`
	Inst    uint32      `json:"inst"`
	Prop    uint32      `json:"prop,omitempty"`
	Index   uint32      `json:"index,omitempty"`
	Vals    []ref.Val   `json:"vals,omitempty"`
	Units   *ref.Val    `json:"units,omitempty"`
	Err     *ref.ErrVal `json:"err,omitempty"`
	Missing bool        `json:"missing,omitempty"` // the device doesn't have it
	// Then is the value it has when it is read once more
	Then []ref.Val `json:"then,omitempty"`
}

type pointsCase struct {
	Stations []station   `json:"stations"`
	Reads    []pointRead `json:"reads"`
	Together bool        `json:"together"`
}

var readKinds = []string{"float", "bool", "multistate", "priority", "name", "device name", "string", "details", "raw"}

func genErrVal(t *rapid.T) ref.ErrVal {
	return ref.ErrVal{Class: uint32(rapid.IntRange(0, 7).Draw(t, "class")), Code: rapid.OneOf(rapid.Uint32Range(1, 140), rapid.Uint32Range(1, 140), rapid.Uint32Range(1, 65535)).Draw(t, "code")}
}

func genPointType(t *rapid.T) uint16 {
	return rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 2, 3, 4, 5, 13, 14, 19}), rapid.Custom(func(t *rapid.T) uint16 { return genObjType(t, "type") })).Draw(t, "pointtype")
}

func genPointRead(t *rapid.T, stations, i int) pointRead {
	// every read has its own object
	p := pointRead{Kind: rapid.SampledFrom(readKinds).Draw(t, "kind"), Station: rapid.IntRange(0, stations-1).Draw(t, "station"), Type: genPointType(t), Inst: genInst(t, "inst")}
	p.Inst = (p.Inst &^ 15) | uint32(i)
	kinds := map[string][]string{"float": {"real"}, "bool": {"enum", "uint"}, "multistate": {"uint", "enum"}, "name": {"str"}, "device name": {"str"}, "string": {"str"}, "details": {"str"}, "raw": allKinds}[p.Kind]
	if chance(t, "odd", 15) {
		kinds = allKinds
	}
	switch p.Kind {
	case "priority":
		kinds = pick(t, "kinds", []string{"null", "real"}, []string{"null", "null", "null", "enum"}, []string{"null", "uint"}, []string{"null", "real", "uint", "enum", "int", "double"}, []string{"null", "real", "real"})
		for n := pick(t, "n", 16, 16, 16, 16, 0, 2, 15, 17); n > 0; n-- {
			p.Vals = append(p.Vals, genValN(t, "v", kinds, 6))
		}
	case "raw", "string":
		p.Vals = []ref.Val{genValN(t, "v", kinds, 40)}
		p.Prop, p.Index = genPropID(t, "prop"), ref.ArrayAll
		if chance(t, "indexed", 30) {
			p.Index = uint32(rapid.IntRange(0, 6).Draw(t, "index"))
			for n := rapid.IntRange(0, 5).Draw(t, "n"); n > 0; n-- {
				p.Vals = append(p.Vals, genValN(t, "v", kinds, 40))
			}
		} else if p.Kind == "raw" && chance(t, "empty", 5) {
			p.Vals = nil
		}
	default:
		p.Vals = []ref.Val{genValN(t, "v", kinds, 40)}
		if chance(t, "list", 5) {
			p.Vals = append(p.Vals, p.Vals[0])
		}
	}
	if p.Kind == "device name" {
		p.Type = 8
	}
	if p.Kind == "details" && chance(t, "units", 75) {
		u := ref.Enum(rapid.OneOf(rapid.Uint32Range(0, 300), rapid.Uint32()).Draw(t, "units"))
		if chance(t, "oddunits", 10) {
			u = genValN(t, "units", allKinds, 10)
		}
		p.Units = &u
	}
	if chance(t, "err", 15) {
		e := genErrVal(t)
		p.Err = &e
	} else {
		p.Missing = chance(t, "missing", 8)
	}
	if chance(t, "then", 15) && len(p.Vals) == 1 {
		p.Then = []ref.Val{genValN(t, "then", kinds, 40)}
	}
	return p
}

func (p pointRead) prop() uint32 {
	switch p.Kind {
	case "float", "bool", "multistate":
		return propValue
	case "priority":
		return propPriorities
	case "name", "device name", "details":
		return propName
	}
	return p.Prop
}

// arrange puts the point into the model of the device.
func (p pointRead) arrange(d *sim.Device) {
	k := sim.Key{Type: p.Type, Inst: p.Inst, Prop: p.prop()}
	delete(d.Props, k)
	if !p.Missing {
		d.Props[k] = p.Vals
		if p.Index != 0 && p.Index != ref.ArrayAll || p.Kind == "priority" || (p.Kind == "raw" || p.Kind == "string") && p.Index != ref.ArrayAll {
			d.Arrays[k] = true
		}
	}
	if p.Err != nil {
		d.Errs[k] = *p.Err
	}
	// other properties of the object, and other objects, that must not be taken
	for _, other := range []uint32{propValue, propName, propPriorities, 104} {
		o := sim.Key{Type: p.Type, Inst: p.Inst, Prop: other}
		if _, ok := d.Props[o]; !ok && o != k {
			d.Props[o] = []ref.Val{ref.Str("another property")}
		}
	}
	u := sim.Key{Type: p.Type, Inst: p.Inst, Prop: propUnits}
	if p.Units != nil && u != k {
		d.Props[u] = []ref.Val{*p.Units}
	}
}

// held is what the device answers, nil if it doesn't.
func (p pointRead) held() []ref.Val {
	if p.Err != nil || p.Missing {
		return nil
	}
	if p.Kind != "raw" && p.Kind != "string" || p.Index == ref.ArrayAll {
		return p.Vals
	}
	if p.Index == 0 {
		return []ref.Val{ref.Uint(uint32(len(p.Vals)))}
	}
	if int(p.Index) > len(p.Vals) {
		return nil
	}
	return p.Vals[p.Index-1 : p.Index]
}

func textOf(vs []ref.Val) string {
	if len(vs) == 1 && vs[0].K == "str" {
		return string(vs[0].B)
	}
	return ""
}

func textOrUCS2(vs []ref.Val) string {
	if len(vs) == 1 && (vs[0].K == "str" || vs[0].K == "ucs2") {
		return string(vs[0].B)
	}
	return ""
}

func numberOf(vs []ref.Val) uint32 {
	if len(vs) == 1 && (vs[0].K == "uint" || vs[0].K == "enum") {
		return uint32(vs[0].N)
	}
	return 0
}

// mistyped tells whether the device holds a value of a type the read can't return.
func (p pointRead) mistyped(held []ref.Val) bool {
	switch p.Kind {
	case "float":
		return len(held) != 1 || held[0].K != "real"
	case "bool", "multistate":
		return len(held) != 1 || held[0].K != "uint" && held[0].K != "enum"
	case "name", "device name", "string":
		return len(held) != 1 || held[0].K != "str" && held[0].K != "ucs2"
	}
	return false
}

// run does the read and checks what it returns.
func (p pointRead) run(d *network.Device) error {
	pnt := &network.Point{ObjectID: btypes.ObjectInstance(p.Inst), ObjectType: btypes.ObjectType(p.Type)}
	held := p.held()
	var err error
	var wrong error
	switch p.Kind {
	case "float":
		var f float32
		f, err = d.PointReadFloat32(pnt)
		want := float32(0)
		if len(held) == 1 && held[0].K == "real" {
			want = math.Float32frombits(uint32(held[0].N))
		}
		if f != want && !(f != f && want != want) {
			wrong = fmt.Errorf("is read as %v", f)
		}
	case "bool", "multistate":
		var n uint32
		if p.Kind == "bool" {
			n, err = d.PointReadBool(pnt)
		} else {
			n, err = d.PointReadMultiState(pnt)
		}
		if n != numberOf(held) {
			wrong = fmt.Errorf("is read as %v", n)
		}
	case "priority":
		pri, e := d.PointReadPriority(pnt)
		if err = e; err == nil {
			if pri == nil {
				return fmt.Errorf("%s: no priority array", p)
			}
			for i, s := range slots(pri) {
				var want *float32
				if len(held) > 1 && i < len(held) {
					want = slotOf(held[i])
				}
				if !sameSlot(want, s) {
					wrong = fmt.Errorf("has %v in slot %d", deref(s), i+1)
				}
			}
		}
	case "name", "device name", "string":
		var s string
		switch p.Kind {
		case "name":
			s, err = d.ReadPointName(pnt)
		case "device name":
			s, err = d.ReadDeviceName(pnt.ObjectID)
		default:
			s, err = d.ReadString(&network.Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(p.Prop), ArrayIndex: p.Index})
		}
		if s != textOrUCS2(held) {
			wrong = fmt.Errorf("is read as %q", s)
		}
	case "raw":
		out, e := d.Read(&network.Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(p.Prop), ArrayIndex: p.Index})
		if err = e; err == nil && p.Err == nil && !p.Missing && (len(held) > 0 || p.Index == ref.ArrayAll) {
			o := ref.Obj{Type: p.Type, Inst: p.Inst, Props: []ref.PropV{{PropRef: ref.PropRef{ID: p.Prop, Index: p.Index}, Vals: held}}}
			wrong = sameObj(o, out.Object, true)
		}
	case "details":
		dt, e := d.PointDetails(pnt)
		if e != nil || dt == nil {
			return fmt.Errorf("%s: no details: %v", p, e)
		}
		return p.sameDetails(dt)
	}
	if p.Kind == "priority" && p.Err == nil && !p.Missing && len(held) == 0 {
		return wrong // an empty array
	}
	if p.Kind == "raw" && p.Index == ref.ArrayAll && p.Err == nil && !p.Missing && len(held) == 0 {
		if err != nil {
			return fmt.Errorf("%s: reading the empty list fails: %v", p, err)
		}
		return wrong
	}
	if len(held) == 0 {
		if err == nil {
			return fmt.Errorf("%s: reading it fails on the device but no error is returned", p)
		}
		return nil
	}
	if p.mistyped(held) {
		if err == nil {
			return fmt.Errorf("%s: it is of another type but no error is returned", p)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: reading it fails: %v", p, err)
	}
	if wrong != nil {
		return fmt.Errorf("%s: %w", p, wrong)
	}
	return nil
}

func (p pointRead) sameDetails(dt *network.PointDetails) error {
	if dt.ObjectID != btypes.ObjectInstance(p.Inst) || dt.ObjectType != btypes.ObjectType(p.Type) || dt.PointType != btypes.ObjectType(p.Type).String() {
		return fmt.Errorf("%s: the details are of %v %v (%s)", p, dt.ObjectType, dt.ObjectID, dt.PointType)
	}
	if dt.Name != textOrUCS2(p.held()) {
		return fmt.Errorf("%s: the name is read as %q", p, dt.Name)
	}
	if p.Units != nil && (p.Type == 3 || p.Type == 4 || p.Type == 5) {
		return nil // binary points have no units
	}
	unit, text := uint32(0), ""
	if p.Units != nil && (p.Units.K == "enum" || p.Units.K == "uint") {
		unit = uint32(p.Units.N)
		text = units.Unit(unit).String()
	}
	if dt.Unit != unit || dt.UnitString != text {
		return fmt.Errorf("%s: the units are read as %d %q instead of %d %q", p, dt.Unit, dt.UnitString, unit, text)
	}
	return nil
}

func (p pointRead) String() string {
	return fmt.Sprintf("%s of %d:%d property %d[%d] with %v units %v error %v missing %v", p.Kind, p.Type, p.Inst, p.prop(), p.Index, p.Vals, p.Units, p.Err, p.Missing)
}

func genPointsCase(udp bool) func(t *rapid.T) pointsCase {
	return func(t *rapid.T) pointsCase {
		c := pointsCase{Stations: genStations(t, 3, udp, false), Together: chance(t, "together", 30)}
		for i := rapid.IntRange(1, 6).Draw(t, "reads"); i > 0; i-- {
			c.Reads = append(c.Reads, genPointRead(t, len(c.Stations), i))
		}
		return c
	}
}

func runPoints(r *engine.Rec, c pointsCase, env func(*world, *engine.Rec, func(n *network.Network) error) error) error {
	w := newWorld(c.Stations)
	for _, p := range c.Reads {
		p.arrange(w.devs[p.Station])
		r.Label("%s", p.Kind)
		r.LabelIf(p.Err != nil, "device error")
		r.LabelIf(p.Missing, "missing")
		r.LabelIf(len(p.held()) > 0 && p.mistyped(p.held()), "of another type")
		r.LabelIf(c.Stations[p.Station].Via != nil, "routed")
	}
	return env(w, r, func(n *network.Network) error {
		r.Hit(true)
		devs := make([]*network.Device, len(c.Stations))
		for i := range devs {
			d, err := network.NewDevice(n, w.device(i))
			if err != nil || d == nil {
				return fmt.Errorf("no device for %+v: %v", c.Stations[i], err)
			}
			devs[i] = d
		}
		one := func(i int) error {
			p := c.Reads[i]
			return guarded(p.String(), func() error { return p.run(devs[p.Station]) })
		}
		if c.Together {
			if err := parallel(len(c.Reads), one); err != nil {
				return err
			}
		} else {
			for i := range c.Reads {
				if err := one(i); err != nil {
					return err
				}
				// only this was asked of that device
				for _, g := range w.taken() {
					p := c.Reads[i]
					if g.station != p.Station || len(g.req.Objs) != 1 || g.req.Objs[0].Type != p.Type || g.req.Objs[0].Inst != p.Inst {
						return fmt.Errorf("%s asks device %d for %+v", p, g.station, g.req.Objs)
					}
					if x := g.req.Objs[0].Props[0]; x.ID != p.prop() && !(p.Kind == "details") {
						return fmt.Errorf("%s asks for property %d", p, x.ID)
					}
				}
				if p := c.Reads[i]; len(p.Then) > 0 {
					r.Label("read again with another value")
					p.Vals = p.Then
					p.arrange(w.devs[p.Station])
					if err := guarded(p.String(), func() error { return p.run(devs[p.Station]) }); err != nil {
						return fmt.Errorf("with its value changed from %v: %w", c.Reads[i].Vals, err)
					}
					w.taken()
				}
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- N02

type pointWrite struct {
	Kind    string      `json:"kind"`
	Station int         `json:"station"`
	Type    uint16      `json:"type"`
	Inst    uint32      `json:"inst"`
	Prop    uint32      `json:"prop,omitempty"`
	Prio    byte        `json:"prio"`
	Val     ref.Val     `json:"val"`
	Odd     string      `json:"odd,omitempty"` // an unsupported type
	Err     *ref.ErrVal `json:"err,omitempty"`
	Silence bool        `json:"silence,omitempty"`
	// Else is set if the point has more in it than the call is about
	Else bool `json:"else,omitempty"`
	// Again is set if the same is written once more
	Again bool `json:"again,omitempty"`
}

type writesCase struct {
	Stations []station    `json:"stations"`
	Writes   []pointWrite `json:"writes"`
	Together bool         `json:"together"`
}

var writeKinds = []string{"analogue", "bool", "multistate", "release", "name", "device name", "write", "write null", "release nil"}

// genLongStr is a text that may be as long as the device has room for.
func genLongStr(t *rapid.T, max uint32) ref.Val {
	if most := int(max) - 40; most > 100 && chance(t, "long", 25) {
		n := rapid.OneOf(rapid.IntRange(100, most), rapid.IntRange(min(248, most), min(260, most))).Draw(t, "bytes")
		return ref.Str(strings.Repeat(pick(t, "text", "a", "bc", "x y", "0123456789"), n)[:n])
	}
	return genValN(t, "v", []string{"str"}, 100)
}

func genPointWrite(t *rapid.T, stations []station, i int, udp bool) pointWrite {
	p := pointWrite{Kind: rapid.SampledFrom(writeKinds).Draw(t, "kind"), Station: rapid.IntRange(0, len(stations)-1).Draw(t, "station"), Type: genPointType(t), Inst: genInst(t, "inst")}
	p.Inst = (p.Inst &^ 15) | uint32(i)
	p.Prio = byte(rapid.OneOf(rapid.IntRange(0, 16), rapid.IntRange(0, 18), rapid.IntRange(0, 255)).Draw(t, "prio"))
	switch p.Kind {
	case "analogue":
		p.Val = genVal(t, "v", []string{"real"})
	case "bool", "multistate":
		p.Val = genVal(t, "v", []string{"uint"})
	case "name", "device name":
		p.Val, p.Prio = genLongStr(t, stations[p.Station].Max), 0
	case "write":
		p.Prop = rapid.OneOf(rapid.Just[uint32](85), rapid.Custom(func(t *rapid.T) uint32 { return genPropID(t, "prop") })).Draw(t, "prop")
		if p.Val = genValN(t, "v", []string{"real", "uint", "double", "str"}, 100); p.Val.K == "str" {
			p.Val = genLongStr(t, stations[p.Station].Max)
		}
		if chance(t, "unsupported", 15) {
			p.Odd = pick(t, "odd", "int", "int64", "uint8", "uint16", "uint64", "int8", "bytes", "nil", "struct", "bits", "date", "map", "ptr", "strings", "bool", "uint")
		}
	case "write null":
		p.Prop = rapid.OneOf(rapid.Just[uint32](85), rapid.Custom(func(t *rapid.T) uint32 { return genPropID(t, "prop") })).Draw(t, "prop")
	}
	if p.Kind == "device name" {
		p.Type = 8
	}
	if chance(t, "err", 20) {
		e := genErrVal(t)
		p.Err = &e
	} else {
		p.Silence = !udp && chance(t, "silence", 5)
	}
	p.Else = chance(t, "else", 40)
	p.Again = !p.Silence && chance(t, "again", 15)
	if chance(t, "impossible", 4) {
		p.Inst |= 0x400000 << rapid.IntRange(0, 9).Draw(t, "bit")
	}
	return p
}

func (p pointWrite) prop() uint32 {
	switch p.Kind {
	case "name", "device name":
		return propName
	case "write", "write null":
		return p.Prop
	}
	return propValue
}

// want is what the device has to receive, nil if the write has to be refused.
func (p pointWrite) want() (vals []ref.Val) {
	if p.Inst > 0x3FFFFF || p.Odd != "" || p.Kind == "release nil" {
		return nil
	}
	if p.Prio > 16 || p.Kind == "release" && p.Prio == 0 {
		return nil
	}
	if p.Kind == "release" || p.Kind == "write null" {
		return []ref.Val{ref.Null()}
	}
	v := p.Val
	// binary outputs and values have enumerated present values
	if (p.Type == 4 || p.Type == 5) && p.prop() == propValue {
		if v.K != "uint" {
			return nil
		}
		return []ref.Val{ref.Enum(uint32(v.N))}
	}
	return []ref.Val{v}
}

func (p pointWrite) run(d *network.Device) error {
	pnt := &network.Point{ObjectID: btypes.ObjectInstance(p.Inst), ObjectType: btypes.ObjectType(p.Type), WritePriority: p.Prio}
	if p.Else {
		// what to write is said by the call
		pnt.WriteValue, pnt.WriteNull = float32(77), p.Kind != "release"
		pnt.ReadPresentValue, pnt.ReadPriority = true, true
	}
	switch p.Kind {
	case "analogue":
		return d.PointWriteAnalogue(pnt, math.Float32frombits(uint32(p.Val.N)))
	case "bool":
		return d.PointWriteBool(pnt, uint32(p.Val.N))
	case "multistate":
		return d.PointWriteMultiState(pnt, uint32(p.Val.N))
	case "release":
		// the priority of the point is of no interest
		pnt.WritePriority = 3
		return d.PointReleasePriority(pnt, p.Prio)
	case "release nil":
		return d.PointReleasePriority(nil, p.Prio)
	case "name":
		return d.WritePointName(pnt, string(p.Val.B))
	case "device name":
		return d.WriteDeviceName(pnt.ObjectID, string(p.Val.B))
	}
	wr := &network.Write{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(p.Prop), WritePriority: p.Prio}
	switch {
	case p.Kind == "write null":
		wr.WriteNull = true
		wr.WriteValue = uint32(5) // of no interest
	case p.Odd == "bool":
		wr.WriteValue = true
	case p.Odd != "":
		wr.WriteValue = unsupported(p.Odd, uint32(p.Val.N))
	default:
		wr.WriteValue, _ = p.Val.In()
	}
	return d.Write(wr)
}

func (p pointWrite) String() string {
	return fmt.Sprintf("%s to %d:%d property %d value %v at %d (%s error %v silence %v)", p.Kind, p.Type, p.Inst, p.prop(), p.Val, p.Prio, p.Odd, p.Err, p.Silence)
}

// check compares what was received with what was asked for.
func (p pointWrite) check(err error, received []got) error {
	want := p.want()
	if want == nil {
		if err == nil {
			return fmt.Errorf("%s is not refused", p)
		}
		if len(received) > 0 {
			return fmt.Errorf("%s is refused (%v) after %x was sent", p, err, received[0].req.Raw)
		}
		return nil
	}
	if len(received) == 0 {
		return fmt.Errorf("%s: nothing is sent, the error is %v", p, err)
	}
	// the prop ID may be a binary value
	for _, g := range received {
		q := g.req
		if g.station != p.Station || q.Service != 15 || len(q.Objs) != 1 {
			return fmt.Errorf("%s becomes service %d for device %d: %x", p, q.Service, g.station, q.Raw)
		}
		o := ref.Obj{Type: p.Type, Inst: p.Inst, Props: []ref.PropV{{PropRef: ref.PropRef{ID: p.prop(), Index: ref.ArrayAll}, Vals: want, Prio: p.Prio}}}
		if e := sameBytes(p.String(), ref.WriteReq(q.Invoke, o), q.Raw); e != nil {
			return e
		}
	}
	if p.Err != nil || p.Silence {
		if err == nil {
			return fmt.Errorf("%s: the device doesn't accept it but there is no error", p)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s fails although the device accepts it: %v", p, err)
	}
	if len(received) != 1 {
		return fmt.Errorf("%s is sent %d times", p, len(received))
	}
	return nil
}

func genWritesCase(udp bool) func(t *rapid.T) writesCase {
	return func(t *rapid.T) writesCase {
		c := writesCase{Stations: genStations(t, 3, udp, false), Together: chance(t, "together", 30)}
		for i := rapid.IntRange(1, 6).Draw(t, "writes"); i > 0; i-- {
			c.Writes = append(c.Writes, genPointWrite(t, c.Stations, i, udp))
		}
		return c
	}
}

func runWrites(r *engine.Rec, c writesCase, env func(*world, *engine.Rec, func(n *network.Network) error) error) error {
	w := newWorld(c.Stations)
	silent := map[sim.Key]bool{}
	for _, p := range c.Writes {
		k := sim.Key{Type: p.Type, Inst: p.Inst, Prop: p.prop()}
		if p.Err != nil {
			w.devs[p.Station].Errs[k] = *p.Err
		}
		if p.Silence {
			silent[k] = true
		}
		r.Label("%s", p.Kind)
		r.LabelIf(p.want() == nil, "refused")
		r.LabelIf(p.Err != nil, "device error")
		r.LabelIf(p.Silence, "no answer")
		r.LabelIf(c.Stations[p.Station].Via != nil, "routed")
	}
	w.answer = func(_ int, q ref.Req) ([]byte, bool) {
		return nil, len(q.Objs) == 1 && silent[sim.Key{Type: q.Objs[0].Type, Inst: q.Objs[0].Inst, Prop: q.Objs[0].Props[0].ID}]
	}
	return env(w, r, func(n *network.Network) error {
		r.Hit(true)
		devs := make([]*network.Device, len(c.Stations))
		for i := range devs {
			d, err := network.NewDevice(n, w.device(i))
			if err != nil || d == nil {
				return fmt.Errorf("no device for %+v: %v", c.Stations[i], err)
			}
			devs[i] = d
		}
		one := func(i int) (err error) {
			p := c.Writes[i]
			e := guarded(p.String(), func() error {
				err = p.run(devs[p.Station])
				return nil
			})
			if e != nil {
				return e
			}
			return p.check(err, w.taken())
		}
		if !c.Together {
			for i, p := range c.Writes {
				if err := one(i); err != nil {
					return err
				}
				if p.Again {
					if err := one(i); err != nil {
						return fmt.Errorf("the second time: %w", err)
					}
				}
			}
			return nil
		}
		errs := make([]error, len(c.Writes))
		if err := parallel(len(c.Writes), func(i int) error {
			p := c.Writes[i]
			return guarded(p.String(), func() error {
				errs[i] = p.run(devs[p.Station])
				return nil
			})
		}); err != nil {
			return err
		}
		all := w.taken()
		for i, p := range c.Writes {
			var mine []got
			for _, g := range all {
				// every write has its own instance
				if len(g.req.Objs) == 1 && g.req.Objs[0].Inst == p.Inst && g.req.Objs[0].Type == p.Type {
					mine = append(mine, g)
				}
			}
			if err := p.check(errs[i], mine); err != nil {
				return err
			}
		}
		return nil
	})
}

func virtual(w *world, r *engine.Rec, f func(n *network.Network) error) error {
	return w.virtually(r, f)
}
func udp(w *world, r *engine.Rec, f func(n *network.Network) error) error { return w.overUDP(r, f) }

func init() {
	engine.Add("N01", "reads", "points were read", 6000, 250000, genPointsCase(false),
		func(r *engine.Rec, c pointsCase) error { return runPoints(r, c, virtual) }, engine.Limit(60*time.Second))
	engine.Add("N01", "over UDP", "points were read", 400, 12000, genPointsCase(true),
		func(r *engine.Rec, c pointsCase) error { return runPoints(r, c, udp) }, engine.Realtime, engine.Limit(120*time.Second))
	engine.Add("N02", "writes", "points were written", 6000, 250000, genWritesCase(false),
		func(r *engine.Rec, c writesCase) error { return runWrites(r, c, virtual) }, engine.Limit(60*time.Second))
	engine.Add("N02", "over UDP", "points were written", 400, 12000, genWritesCase(true),
		func(r *engine.Rec, c writesCase) error { return runWrites(r, c, udp) }, engine.Realtime, engine.Limit(120*time.Second))
}
