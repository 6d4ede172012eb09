package checks

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/units"
	"github.com/NubeDev/bacnet/network"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
	"verif/sim"
)

// ---------------------------------------------------------------- N03

type listed struct {
	Type  uint16  `json:"type"`
	Inst  uint32  `json:"inst"`
	Name  ref.Val `json:"name"`
	Units int64   `json:"units"` // -1 if it has none
	Err   bool    `json:"err,omitempty"`
}

type listCase struct {
	Stations []station  `json:"stations"`
	Objs     []listed   `json:"objs"`
	NoWhole  bool       `json:"no_whole"`
	Check    bool       `json:"check"` // ask who it is before
	Points   bool       `json:"points"`
	Fault    string     `json:"fault,omitempty"`
	At       int        `json:"at"` // the read that is answered wrongly, -1 is the whole list
	ErrVal   ref.ErrVal `json:"err"`
	// Many is the number of objects there are besides
	Many int `json:"many,omitempty"`
	// Claims is how many objects too many the device says there are
	Claims uint32 `json:"claims,omitempty"`
	// Then are the objects it has when it is asked again
	Then []listed `json:"then,omitempty"`
}

var listFaults = []string{"error", "lost", "wrong datatype", "context data", "two values", "other list", "empty", "reject", "cut"}

func genList(udp bool) func(t *rapid.T) listCase {
	return func(t *rapid.T) listCase {
		c := listCase{Stations: genStations(t, 3, udp, false), NoWhole: rapid.Bool().Draw(t, "nowhole"), Check: !udp && chance(t, "check", 30), ErrVal: genErrVal(t)}
		n := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 30), rapid.IntRange(0, 260)).Draw(t, "n")
		if n == 0 && rapid.Bool().Draw(t, "one") {
			n = 1
		}
		for i := 0; i < n; i++ {
			o := listed{Type: genPointType(t), Inst: genInst(t, "inst"), Units: -1}
			if i == 0 && chance(t, "self", 60) {
				o.Type, o.Inst = 8, c.Stations[0].Inst
			}
			c.Objs = append(c.Objs, o)
		}
		if !udp && chance(t, "many", 1) {
			c.Many, c.NoWhole = rapid.OneOf(rapid.IntRange(200, 600), rapid.IntRange(200, 8000)).Draw(t, "manyn"), true
		}
		c.Points = c.Many == 0 && n <= 40 && chance(t, "points", 40) && (!udp || chance(t, "slow", 5))
		if c.Points {
			for i := range c.Objs {
				o := &c.Objs[i]
				o.Inst = o.Inst&0x3FFF00 | uint32(i) // all different
				if i == 0 && o.Type == 8 {
					o.Inst = c.Stations[0].Inst
				}
				o.Name = ref.Str(genText(t, "name", 30))
				if chance(t, "units", 70) {
					o.Units = int64(rapid.Uint32Range(0, 300).Draw(t, "u"))
				}
				o.Err = chance(t, "nameless", 10)
			}
		}
		if !c.Points && c.Many == 0 && chance(t, "claims", 5) {
			c.NoWhole = true
			c.Claims = rapid.OneOf(rapid.Uint32Range(1, 5), rapid.SampledFrom([]uint32{256, 65536, 1 << 24, 1 << 31, 0x10000 * 3})).Draw(t, "more")
		} else if !c.Points && chance(t, "faulty", 50) {
			c.Fault = rapid.SampledFrom(listFaults).Draw(t, "fault")
			if udp && (c.Fault == "lost" || c.Fault == "reject" || c.Fault == "cut") {
				c.Fault = "error" // the others take a long time
			}
			c.At = rapid.IntRange(-1, min(n, 20)).Draw(t, "at")
			if n > 20 && chance(t, "late", 30) {
				c.At = n - rapid.IntRange(0, 3).Draw(t, "fromend")
			}
		} else if !c.Points && c.Many == 0 {
			for i := pick(t, "then", 0, 1, 2, 5, 20); i > 0; i-- {
				c.Then = append(c.Then, listed{Type: genPointType(t), Inst: genInst(t, "inst"), Units: -1})
			}
		}
		return c
	}
}

// spoil is the wrong answer.
func (c listCase) spoil(q ref.Req, d *sim.Device) []byte {
	o := q.Objs[0]
	p := &o.Props[0]
	switch c.Fault {
	case "error":
		return ref.Error(q.Invoke, 12, c.ErrVal, true)
	case "lost":
		return nil
	case "reject":
		return ref.Reject(q.Invoke, 9)
	case "wrong datatype":
		p.Vals = []ref.Val{ref.Str("no object")}
		if p.Index == ref.ArrayAll && len(c.Objs) > 1 {
			p.Vals = nil
			for _, x := range c.Objs {
				p.Vals = append(p.Vals, ref.OID(x.Type, x.Inst))
			}
			p.Vals[len(p.Vals)/2] = ref.Uint(4)
		}
	case "context data":
		p.Raw = ref.Cat(ref.Open(1), ref.Real(3).Enc(), ref.Close(1))
	case "two values":
		p.Vals = []ref.Val{ref.Uint(3), ref.OID(0, 2)}
		if p.Index != 0 && p.Index != ref.ArrayAll {
			p.Vals = []ref.Val{ref.OID(0, 1), ref.OID(0, 2)}
		}
	case "other list": // a value where a list was asked for and the other way round
		p.Vals = []ref.Val{ref.Real(1), ref.Null()}
		if p.Index == ref.ArrayAll {
			p.Vals = []ref.Val{ref.Null()}
		}
	case "empty":
		p.Vals = nil
	case "cut":
		b := d.Answer(q)
		if len(b) > 6 {
			return b[:len(b)-3]
		}
	}
	return ref.ReadAck(q.Invoke, o)
}

func runList(r *engine.Rec, c listCase, env func(*world, *engine.Rec, func(n *network.Network) error) error) error {
	w := newWorld(c.Stations)
	me := c.Stations[0]
	d := w.devs[0]
	for i := 0; i < c.Many; i++ {
		c.Objs = append(c.Objs, listed{Type: 20, Inst: uint32(i), Units: -1})
	}
	r.LabelIf(c.Many > 1000, "more than 1000 objects")
	var list []ref.Val
	for _, o := range c.Objs {
		list = append(list, ref.OID(o.Type, o.Inst))
	}
	d.SetArray(8, me.Inst, propObjectList, list...)
	whole := !c.NoWhole && len(c.Objs) <= 270
	if !whole {
		d.NoWhole[sim.Key{Type: 8, Inst: me.Inst, Prop: propObjectList}] = ref.ErrVal{Class: 0, Code: 123}
	}
	if c.Points {
		for i, o := range c.Objs {
			if i == 0 && o.Type == 8 {
				continue
			}
			d.Set(o.Type, o.Inst, propName, o.Name)
			if o.Units >= 0 {
				d.Set(o.Type, o.Inst, propUnits, ref.Enum(uint32(o.Units)))
			}
			if o.Err {
				d.Errs[sim.Key{Type: o.Type, Inst: o.Inst, Prop: propName}] = c.ErrVal
			}
		}
	}
	spoiled := false
	w.answer = func(at int, q ref.Req) ([]byte, bool) {
		if c.Claims > 0 && at == 0 && q.Service == 12 && q.Objs[0].Props[0].ID == propObjectList && q.Objs[0].Props[0].Index == 0 {
			spoiled = true
			o := q.Objs[0]
			o.Props[0].Vals = []ref.Val{ref.Uint(uint32(len(c.Objs)) + c.Claims)}
			return ref.ReadAck(q.Invoke, o), true
		}
		if c.Fault == "" || at != 0 || q.Service != 12 || q.Objs[0].Props[0].ID != propObjectList {
			return nil, false
		}
		idx := q.Objs[0].Props[0].Index
		if c.At < 0 && idx == ref.ArrayAll || c.At >= 0 && idx == uint32(c.At) {
			if c.Fault == "empty" && idx == ref.ArrayAll {
				return nil, false // nobody can tell that this is wrong
			}
			spoiled = true
			return c.spoil(q, d), true
		}
		return nil, false
	}
	r.Hit(len(c.Objs) > 1 || c.Fault != "")
	r.LabelIf(len(c.Objs) == 0, "empty list")
	r.LabelIf(len(c.Objs) == 1, "one object")
	r.LabelIf(len(c.Objs) > 40, "long list")
	r.LabelIf(c.Check, "size checked first")
	r.LabelIf(whole, "whole list")
	r.LabelIf(!whole, "element by element")
	r.LabelIf(c.Points, "with points")
	r.LabelIf(c.Claims > 0, "claims too many")
	return env(w, r, func(n *network.Network) error {
		dev, err := network.NewDevice(n, w.device(0))
		if err != nil {
			return err
		}
		// a wrong size that is corrected by asking
		dev.MaxApdu, dev.Segmentation = 7, 9
		if c.Points {
			return c.points(r, w, dev)
		}
		var ids []btypes.ObjectID
		e := guarded("DeviceObjects", func() error {
			ids, err = dev.DeviceObjects(btypes.ObjectInstance(me.Inst), c.Check)
			return nil
		})
		if e != nil {
			return e
		}
		r.LabelIf(spoiled, c.Fault)
		if err != nil {
			if !spoiled {
				return fmt.Errorf("listing the %d objects of a device that answers correctly fails: %v", len(c.Objs), err)
			}
			return nil
		}
		if c.Claims > 0 {
			return fmt.Errorf("the device says it has %d objects but only answers for %d of them, these %d are listed without an error", uint32(len(c.Objs))+c.Claims, len(c.Objs), len(ids))
		}
		// Without any answer the whole list may still be read element by element
		if err := c.same(ids); err != nil {
			return fmt.Errorf("%s at %d: %w", c.Fault, c.At, err)
		}
		if c.Check {
			if me.Silent {
				return nil
			}
			if dev.MaxApdu != me.Max || dev.Segmentation != me.Seg {
				return fmt.Errorf("the device announced the size %d and segmentation %d, %d and %d are known of it", me.Max, me.Seg, dev.MaxApdu, dev.Segmentation)
			}
			if len(w.whois) != 1 || me.Inst > 0 && (w.whois[0].Low != int64(me.Inst) || w.whois[0].High != int64(me.Inst)) {
				return fmt.Errorf("the device %d is looked for with %+v", me.Inst, w.whois)
			}
		}
		for _, g := range w.taken() {
			if g.station != 0 {
				return fmt.Errorf("device %d is asked %x", g.station, g.req.Raw)
			}
		}
		if len(c.Then) == 0 {
			return nil
		}
		r.Label("another list later")
		var then []ref.Val
		for _, o := range c.Then {
			then = append(then, ref.OID(o.Type, o.Inst))
		}
		d.SetArray(8, me.Inst, propObjectList, then...)
		if e := guarded("DeviceObjects", func() error {
			ids, err = dev.DeviceObjects(btypes.ObjectInstance(me.Inst), false)
			return nil
		}); e != nil {
			return e
		}
		if err != nil {
			return fmt.Errorf("listing the %d objects that it has now fails: %v", len(c.Then), err)
		}
		if err := (listCase{Objs: c.Then}).same(ids); err != nil {
			return fmt.Errorf("with its objects changed: %w", err)
		}
		return nil
	})
}

func (c listCase) same(ids []btypes.ObjectID) error {
	if len(ids) != len(c.Objs) {
		return fmt.Errorf("%d objects are listed instead of %d", len(ids), len(c.Objs))
	}
	for i, o := range c.Objs {
		if uint16(ids[i].Type) != o.Type || uint32(ids[i].Instance) != o.Inst {
			return fmt.Errorf("object %d is listed as %d:%d instead of %d:%d", i, ids[i].Type, ids[i].Instance, o.Type, o.Inst)
		}
	}
	return nil
}

// points checks the details of all points of the device.
func (c listCase) points(r *engine.Rec, w *world, dev *network.Device) error {
	var ps []*network.PointDetails
	var err error
	if e := guarded("GetDevicePoints", func() error {
		ps, err = dev.GetDevicePoints(btypes.ObjectInstance(c.Stations[0].Inst))
		return nil
	}); e != nil {
		return e
	}
	if err != nil {
		return fmt.Errorf("listing the points of a device that answers correctly fails: %v", err)
	}
	var want []listed
	for _, o := range c.Objs {
		if o.Type != 8 {
			want = append(want, o)
		}
	}
	if len(ps) != len(want) {
		return fmt.Errorf("%d points are listed instead of %d", len(ps), len(want))
	}
	r.Label("points listed")
	for i, o := range want {
		p := ps[i]
		if p == nil || uint16(p.ObjectType) != o.Type || uint32(p.ObjectID) != o.Inst {
			return fmt.Errorf("point %d is %+v instead of %d:%d", i, p, o.Type, o.Inst)
		}
		name := string(o.Name.B)
		if o.Err {
			name = ""
		}
		if p.Name != name {
			return fmt.Errorf("point %d:%d has the name %q instead of %q", o.Type, o.Inst, p.Name, name)
		}
		if o.Type >= 3 && o.Type <= 5 {
			continue
		}
		unit, text := uint32(0), ""
		if o.Units >= 0 {
			unit, text = uint32(o.Units), units.Unit(o.Units).String()
		}
		if p.Unit != unit || p.UnitString != text {
			return fmt.Errorf("point %d:%d has the units %d %q instead of %d %q", o.Type, o.Inst, p.Unit, p.UnitString, unit, text)
		}
	}
	return nil
}

// ---------------------------------------------------------------- N04

type foundCase struct {
	Stations []station `json:"stations"`
	How      string    `json:"how"` // device, network, whois device, whois network, details device, details network
	Low      int       `json:"low"`
	High     int       `json:"high"`
	Global   bool      `json:"global"`
	Base     int       `json:"base"`
	Value    float32   `json:"value"`
}

func genFound(udp bool) func(t *rapid.T) foundCase {
	return func(t *rapid.T) foundCase {
		c := foundCase{Stations: genStations(t, 7, udp, true), Global: rapid.Bool().Draw(t, "global")}
		c.How = rapid.SampledFrom([]string{"device", "device", "network", "network", "whois device", "whois network", "details device", "details network"}).Draw(t, "how")
		for i := range c.Stations {
			s := &c.Stations[i]
			s.Silent = chance(t, "silent", 15)
			if chance(t, "fails", 20) {
				s.Fails = rapid.SliceOfNDistinct(rapid.SampledFrom([]uint32{propName, propVendorName, propMaxAPDU, propSeg}), 1, 4, rapid.ID).Draw(t, "fails")
			}
			s.Mute = !udp && chance(t, "mute", 5)
			if chance(t, "oddsize", 6) {
				s.HoldsMax = genValN(t, "size", []string{"str", "real", "null", "bits", "int"}, 10)
			}
			if chance(t, "oddseg", 6) {
				s.HoldsSeg = genValN(t, "segmentation", []string{"str", "real", "null", "bits", "int"}, 10)
			}
			if chance(t, "oddname", 8) {
				s.Name = genValN(t, "name", []string{"uint", "real", "null", "bits"}, 10)
			}
		}
		if chance(t, "range", 40) {
			c.Low = int(c.Stations[0].Inst)
			c.High = c.Low + rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 4000000)).Draw(t, "width")
		}
		c.Base = rapid.IntRange(0, len(c.Stations)-1).Draw(t, "base")
		return c
	}
}

func (c foundCase) inRange(s station) bool {
	if c.Low <= 0 && c.High <= 0 {
		return true
	}
	high := c.High
	if high <= 0 {
		high = 4194304
	}
	return int(s.Inst) >= c.Low && int(s.Inst) <= high
}

// described compares what is reported with the station.
func (w *world) described(i int, id int, ip string, port int, max, seg uint32, network, mac int, name, vendor string, announced bool) error {
	s := w.stations[i]
	wantIP := fmt.Sprintf("%d.%d.%d.%d", w.prefix[0], w.prefix[1], w.prefix[2], s.Host)
	if id != int(s.Inst) || ip != wantIP || port != int(s.Port) {
		return fmt.Errorf("device %d at %s:%d is described as %d at %s:%d", s.Inst, wantIP, s.Port, id, ip, port)
	}
	if announced {
		if max != s.Max || seg != s.Seg {
			return fmt.Errorf("device %d with the size %d and segmentation %d is described with %d and %d", s.Inst, s.Max, s.Seg, max, seg)
		}
	}
	wantNet, wantMac := 0, 0
	if s.Via != nil {
		wantNet, wantMac = int(s.Via.Net), int(s.Via.Adr[0])
	}
	if network != wantNet || mac != wantMac {
		return fmt.Errorf("device %d of network %d, hardware address %d is described with %d and %d", s.Inst, wantNet, wantMac, network, mac)
	}
	wantName, wantVendor := textOrUCS2([]ref.Val{s.Name}), string(s.VendorName.B)
	if s.fails(propName) {
		wantName = ""
	}
	if s.fails(propVendorName) {
		wantVendor = ""
	}
	if name != wantName || vendor != wantVendor {
		return fmt.Errorf("device %d with the name %q of %q is described with %q and %q", s.Inst, wantName, wantVendor, name, vendor)
	}
	return nil
}

func (w *world) plain(i int, d btypes.Device, described bool) error {
	s := w.stations[i]
	name, vendor := d.DeviceName, d.VendorName
	if described {
		wantMax, wantSeg := s.Max, s.Seg
		wantMax, wantSeg = s.held(wantMax, wantSeg)
		if d.MaxApdu != wantMax || uint32(d.Segmentation) != wantSeg {
			return fmt.Errorf("device %d with the size %d and segmentation %d is described with %d and %d", s.Inst, wantMax, wantSeg, d.MaxApdu, d.Segmentation)
		}
	} else {
		if name != "" || vendor != "" {
			return fmt.Errorf("device %d gets the names %q and %q although nobody asked it", s.Inst, name, vendor)
		}
		name, vendor = textOrUCS2([]ref.Val{s.Name}), string(s.VendorName.B)
		if s.fails(propName) {
			name = ""
		}
		if s.fails(propVendorName) {
			vendor = ""
		}
	}
	if err := w.described(i, d.DeviceID, d.Ip, d.Port, d.MaxApdu, uint32(d.Segmentation), d.NetworkNumber, d.MacMSTP, name, vendor, !described); err != nil {
		return err
	}
	if d.Vendor != s.Vendor || uint32(d.ID.Instance) != s.Inst || d.ID.Type != 8 {
		return fmt.Errorf("device %d of vendor %d becomes %v of vendor %d", s.Inst, s.Vendor, d.ID, d.Vendor)
	}
	return nil
}

func runFound(r *engine.Rec, c foundCase, env func(*world, *engine.Rec, func(n *network.Network) error) error) error {
	w := newWorld(c.Stations)
	want := map[int]bool{}
	for i, s := range c.Stations {
		w.devs[i].Set(2, 1, propValue, ref.Real(float32(i)+0.5))
		if !s.Silent && c.inRange(s) {
			want[i] = true
		}
		r.LabelIf(s.Via != nil && len(s.Via.Adr) > 1, "long hardware address")
		r.LabelIf(s.Mute, "no answers")
		r.LabelIf(len(s.Fails) > 0, "unreadable details")
		r.LabelIf(s.HoldsMax.K != "uint" || s.HoldsSeg.K != "enum", "size or segmentation of another type")
	}
	r.Label("%s", c.How)
	r.Hit(len(want) > 1)
	opts := &bacnet.WhoIsOpts{Low: c.Low, High: c.High, GlobalBroadcast: c.Global}
	return env(w, r, func(n *network.Network) error {
		// The station the search starts from must not matter
		bd := w.device(c.Base)
		if v := c.Stations[c.Base].Via; v != nil && len(v.Adr) > 1 {
			bd.NetworkNumber, bd.MacMSTP = 0, 0
		}
		bd.DeviceName, bd.VendorName = "base", "base vendor"
		base, err := network.NewDevice(n, bd)
		if err != nil {
			return err
		}
		before := *base
		index := func(id int) int {
			for i, s := range c.Stations {
				if int(s.Inst) == id {
					return i
				}
			}
			return -1
		}
		seen := map[int]bool{}
		once := func(id int) (int, error) {
			i := index(id)
			if i < 0 || !want[i] {
				return 0, fmt.Errorf("device %d is reported, it did not announce itself", id)
			}
			if seen[i] {
				return 0, fmt.Errorf("device %d is reported twice", id)
			}
			seen[i] = true
			return i, nil
		}
		complete := func(err error) error {
			if err != nil {
				return fmt.Errorf("%s: the search fails: %v", c.How, err)
			}
			if len(seen) != len(want) {
				return fmt.Errorf("%s: %d devices are reported instead of %d", c.How, len(seen), len(want))
			}
			return nil
		}
		switch c.How {
		case "device":
			var ds []*network.Device
			if e := guarded("DeviceDiscover", func() error { ds, err = base.DeviceDiscover(opts); return nil }); e != nil {
				return e
			}
			for _, d := range ds {
				if d == nil || d == base {
					return fmt.Errorf("an entry is %v", d)
				}
				i, e := once(d.DeviceID)
				if e != nil {
					return e
				}
				s := c.Stations[i]
				if e := w.described(i, d.DeviceID, d.Ip, d.Port, d.MaxApdu, d.Segmentation, d.NetworkNumber, d.MacMSTP, d.DeviceName, d.VendorName, true); e != nil {
					return e
				}
				if !s.Mute {
					// The entry can be used to talk to it
					if v, e := d.PointReadFloat32(&network.Point{ObjectID: 1, ObjectType: 2}); e != nil || v != float32(i)+0.5 {
						return fmt.Errorf("reading a value of device %d by its entry returns %v, %v", s.Inst, v, e)
					}
				}
			}
			if e := complete(err); e != nil {
				return e
			}
		case "network":
			var ds []btypes.Device
			if e := guarded("NetworkDiscover", func() error { ds, err = n.NetworkDiscover(opts); return nil }); e != nil {
				return e
			}
			for _, d := range ds {
				i, e := once(d.DeviceID)
				if e != nil {
					return e
				}
				if e := w.plain(i, d, true); e != nil {
					return e
				}
			}
			if e := complete(err); e != nil {
				return e
			}
		case "whois device", "whois network":
			var ds []btypes.Device
			if e := guarded("Whois", func() error {
				if c.How == "whois device" {
					ds, err = base.Whois(opts)
				} else {
					ds, err = n.Whois(opts)
				}
				return nil
			}); e != nil {
				return e
			}
			for _, d := range ds {
				i, e := once(d.DeviceID)
				if e != nil {
					return e
				}
				if e := w.plain(i, d, false); e != nil {
					return e
				}
			}
			if e := complete(err); e != nil {
				return e
			}
		default:
			for i, s := range c.Stations {
				if c.How == "details device" && s.Via != nil && len(s.Via.Adr) > 1 {
					continue
				}
				if e := c.details(n, w, i); e != nil {
					return e
				}
			}
		}
		if base.Ip != before.Ip || base.DeviceID != before.DeviceID || base.DeviceName != before.DeviceName || base.VendorName != before.VendorName || base.Port != before.Port {
			return fmt.Errorf("the search turns the device %s (%s) into %s (%s)", before.Ip, before.DeviceName, base.Ip, base.DeviceName)
		}
		return nil
	})
}

// details asks one device for its details.
func (c foundCase) details(n *network.Network, w *world, i int) error {
	s := c.Stations[i]
	var dt *network.DeviceDetails
	var err error
	wantMax, wantSeg := uint32(0), uint32(0)
	e := guarded("GetDeviceDetails", func() error {
		if c.How == "details device" {
			d, e := network.NewDevice(n, w.device(i))
			if e != nil {
				return e
			}
			dt, err = d.GetDeviceDetails(btypes.ObjectInstance(s.Inst))
			return nil
		}
		wantMax, wantSeg = 77, 2
		a := w.addr(i)
		if s.Via != nil {
			a.Net, a.Adr = s.Via.Net, clone(s.Via.Adr)
		}
		dt, err = n.GetDeviceDetails(btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(s.Inst)}, DeviceID: int(s.Inst), Addr: a, MaxApdu: 77, Segmentation: 2})
		return nil
	})
	if e != nil {
		return e
	}
	if err != nil || dt == nil {
		return fmt.Errorf("no details of device %d: %v", s.Inst, err)
	}
	wantMax, wantSeg = s.held(wantMax, wantSeg)
	name, vendor := textOrUCS2([]ref.Val{s.Name}), string(s.VendorName.B)
	if s.fails(propName) {
		name = ""
	}
	if s.fails(propVendorName) {
		vendor = ""
	}
	if dt.Name != name || dt.VendorName != vendor || dt.MaxApdu != wantMax || dt.Segmentation != wantSeg {
		return fmt.Errorf("%s: the details of device %d are %q of %q, size %d, segmentation %d instead of %q of %q, %d, %d", c.How, s.Inst, dt.Name, dt.VendorName, dt.MaxApdu, dt.Segmentation, name, vendor, wantMax, wantSeg)
	}
	return nil
}

func init() {
	engine.Add("N03", "lists", "the list has more than one object or the device answers wrongly", 4000, 150000, genList(false),
		func(r *engine.Rec, c listCase) error { return runList(r, c, virtual) }, engine.Limit(60*time.Second))
	engine.Add("N03", "over UDP", "the list has more than one object or the device answers wrongly", 240, 6000, genList(true),
		func(r *engine.Rec, c listCase) error { return runList(r, c, udp) }, engine.Realtime, engine.Limit(200*time.Second))
	engine.Add("N04", "discovery", "more than one device announces itself", 4000, 150000, genFound(false),
		func(r *engine.Rec, c foundCase) error { return runFound(r, c, virtual) }, engine.Limit(60*time.Second))
	engine.Add("N04", "over UDP", "more than one device announces itself", 40, 600,
		func(t *rapid.T) []foundCase {
			// It takes two seconds to find out that no more devices answer
			return rapid.SliceOfN(rapid.Custom(genFound(true)), 1, 8).Draw(t, "cases")
		},
		func(r *engine.Rec, cs []foundCase) error {
			recs := make([]*engine.Rec, len(cs))
			err := parallel(len(cs), func(i int) error {
				recs[i] = engine.NewRec(r.T)
				return runFound(recs[i], cs[i], udp)
			})
			for _, x := range recs {
				r.Merge(x)
			}
			return err
		}, engine.Realtime, engine.Limit(200*time.Second))
}
