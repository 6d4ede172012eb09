package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"net/netip"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/btypes/priority"
	"github.com/NubeDev/bacnet/btypes/segmentation"
	"github.com/NubeDev/bacnet/btypes/services"
	"github.com/NubeDev/bacnet/btypes/units"
	"github.com/NubeDev/bacnet/datalink"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/helpers/data"
	ip2bytes "github.com/NubeDev/bacnet/helpers/ipbytes"
	"github.com/NubeDev/bacnet/helpers/nils"
	"github.com/NubeDev/bacnet/helpers/validation"
	"github.com/NubeDev/bacnet/network"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
)

// ---------------------------------------------------------------- T01

type savedProp struct {
	Type  uint32 `json:"type"`
	Index uint32 `json:"index"`
	Prio  byte   `json:"prio"`
	Data  string `json:"data"` // a JSON text
}

type savedObj struct {
	Type  uint16      `json:"type"`
	Inst  uint32      `json:"inst"`
	Name  string      `json:"name"`
	Desc  string      `json:"desc"`
	Props []savedProp `json:"props,omitempty"`
}

type mapCase struct {
	Objs []savedObj `json:"objs"`
	// Empty are types that are in the map without objects
	Empty []uint16 `json:"empty,omitempty"`
}

func genMap(t *rapid.T) (c mapCase) {
	for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
		o := savedObj{Type: rapid.OneOf(rapid.Uint16Range(0, 60), rapid.Uint16Range(0, 1023), rapid.Uint16()).Draw(t, "type"), Inst: genInst(t, "inst"),
			Name: genText(t, "name", 40), Desc: genText(t, "desc", 40)}
		if chance(t, "sametype", 30) && len(c.Objs) > 0 {
			o.Type = c.Objs[0].Type
		}
		for j := rapid.IntRange(0, 3).Draw(t, "props"); j > 0; j-- {
			p := savedProp{Type: genPropID(t, "prop"), Index: genIndex(t, "index"), Prio: rapid.Byte().Draw(t, "prio")}
			p.Data = pick(t, "data", `null`, `true`, `false`, `1.5`, `-3`, `"text"`, `[1,"a",null]`, `{"a":1}`)
			o.Props = append(o.Props, p)
		}
		c.Objs = append(c.Objs, o)
	}
	c.Empty = rapid.SliceOfN(rapid.Uint16Range(0, 200), 0, 2).Draw(t, "empty")
	return c
}

func (c mapCase) build() (btypes.ObjectMap, map[btypes.ObjectID]btypes.Object) {
	m, want := btypes.ObjectMap{}, map[btypes.ObjectID]btypes.Object{}
	for _, t := range c.Empty {
		m[btypes.ObjectType(t)] = map[btypes.ObjectInstance]btypes.Object{}
	}
	for _, s := range c.Objs {
		id := btypes.ObjectID{Type: btypes.ObjectType(s.Type), Instance: btypes.ObjectInstance(s.Inst)}
		o := btypes.Object{ID: id, Name: s.Name, Description: s.Desc}
		for _, p := range s.Props {
			q := btypes.Property{Type: btypes.PropertyType(p.Type), ArrayIndex: p.Index, Priority: btypes.NPDUPriority(p.Prio)}
			if err := json.Unmarshal([]byte(p.Data), &q.Data); err != nil {
				panic(err)
			}
			o.Properties = append(o.Properties, q)
		}
		if m[id.Type] == nil {
			m[id.Type] = map[btypes.ObjectInstance]btypes.Object{}
		}
		m[id.Type][id.Instance] = o
		want[id] = o
	}
	return m, want
}

func sameMap(m btypes.ObjectMap, want map[btypes.ObjectID]btypes.Object) error {
	n := 0
	for t, sub := range m {
		for i, o := range sub {
			w, ok := want[btypes.ObjectID{Type: t, Instance: i}]
			if !ok {
				return fmt.Errorf("invented object %d:%d", t, i)
			}
			if !reflect.DeepEqual(w, o) {
				return fmt.Errorf("object %d:%d is %+v instead of %+v", t, i, o, w)
			}
			n++
		}
	}
	if n != len(want) {
		return fmt.Errorf("%d objects instead of %d", n, len(want))
	}
	return nil
}

func init() {
	engine.Add("T01", "round trip", "at least one object", 8000, 300000, genMap, func(r *engine.Rec, c mapCase) error {
		m, want := c.build()
		r.Hit(len(want) > 0)
		for id := range want {
			r.LabelIf(id.Type >= 128, "proprietary type")
			_, named := objectNames[uint16(id.Type)]
			r.LabelIf(!named, "type without a name")
		}
		if m.Len() != len(want) {
			return fmt.Errorf("Len is %d with %d objects", m.Len(), len(want))
		}
		dev := btypes.Device{Objects: m}
		seen := map[btypes.ObjectID]bool{}
		for _, o := range dev.ObjectSlice() {
			if seen[o.ID] || !reflect.DeepEqual(want[o.ID], o) {
				return fmt.Errorf("ObjectSlice has %+v", o)
			}
			seen[o.ID] = true
		}
		if len(seen) != len(want) {
			return fmt.Errorf("ObjectSlice has %d objects instead of %d", len(seen), len(want))
		}
		b, err := json.Marshal(m)
		if err != nil {
			return fmt.Errorf("can't be saved: %v", err)
		}
		// The text names the types
		var byName map[string]map[string]json.RawMessage
		if err := json.Unmarshal(b, &byName); err != nil {
			return fmt.Errorf("saved as something else: %v: %s", err, b)
		}
		for id := range want {
			n, ok := objectNames[uint16(id.Type)]
			if ok && byName[n][strconv.Itoa(int(id.Instance))] == nil {
				return fmt.Errorf("object %v isn't saved under %s", id, n)
			}
		}
		var back btypes.ObjectMap
		if err := json.Unmarshal(b, &back); err != nil {
			return fmt.Errorf("can't be loaded: %v: %s", err, b)
		}
		if err := sameMap(back, want); err != nil {
			return fmt.Errorf("loaded %s: %w", b, err)
		}
		// Saving leaves the map as it was, and loading into an empty map is the same
		if err := sameMap(m, want); err != nil {
			return fmt.Errorf("changed by saving: %w", err)
		}
		again := btypes.ObjectMap{}
		if err := json.Unmarshal(b, &again); err != nil {
			return err
		}
		if err := sameMap(again, want); err != nil {
			return fmt.Errorf("loaded into an empty map: %w", err)
		}
		// As a member of something else
		wrap, err := json.Marshal(struct{ M btypes.ObjectMap }{m})
		if err != nil {
			return err
		}
		var unwrap struct{ M btypes.ObjectMap }
		if err := json.Unmarshal(wrap, &unwrap); err != nil {
			return err
		}
		return sameMap(unwrap.M, want)
	})

	type badCase struct {
		Map  mapCase `json:"map"`
		How  int     `json:"how"`
		Cut  int     `json:"cut"`
		Text string  `json:"text"`
	}
	engine.Add("T01", "malformed", "JSON that is not an object map", 6000, 200000, func(t *rapid.T) badCase {
		return badCase{Map: genMap(t), How: rapid.IntRange(0, 4).Draw(t, "how"), Cut: rapid.IntRange(0, 1<<16).Draw(t, "cut"), Text: pick(t, "text", "x", "-1", "1.5", "4294967296", "", "1a", " 1")}
	}, func(r *engine.Rec, c badCase) error {
		m, want := c.Map.build()
		b, err := json.Marshal(m)
		if err != nil {
			return err
		}
		switch c.How {
		case 0: // cut short
			b = b[:c.Cut%len(b)]
		case 1: // of another shape
			b = []byte([]string{`[]`, `1`, `"AnalogInput"`, `{"AnalogInput":[]}`, `{"AnalogInput":{"1":[]}}`, `{"AnalogInput":1}`, `{"AnalogInput":{"1":{"ID":7}}}`, `{"AnalogInput":{"1":{"Name":7}}}`, `true`}[c.Cut%9])
		case 2: // instances that are none
			b = fmt.Appendf(nil, `{"AnalogInput":{%q:{}}}`, c.Text)
		case 3: // damaged
			i := c.Cut % len(b)
			b = append(clone(b[:i]), b[i+1:]...)
		case 4:
			b = append(b, "}]x,\""[c.Cut%5])
		}
		var any map[string]map[uint32]struct {
			Name, Description string
			ID                struct {
				Type     uint16
				Instance uint32
			}
			Properties []struct {
				Type, ArrayIndex uint32
				Data             any
				Priority         byte
			}
		}
		bad := json.Unmarshal(b, &any) != nil
		r.Hit(bad)
		r.Label("kind %d bad %v", c.How, bad)
		var back btypes.ObjectMap
		err = json.Unmarshal(b, &back)
		if bad && err == nil {
			return fmt.Errorf("accepted %s", b)
		}
		_ = want
		return nil
	})

	type typeCase struct {
		Type uint16 `json:"type"`
	}
	engine.Add("T01", "type names", "every type, with and without a name", 4000, 140000, func(t *rapid.T) typeCase {
		return typeCase{rapid.OneOf(rapid.Uint16Range(0, 140), rapid.Uint16Range(0, 1024), rapid.Uint16()).Draw(t, "type")}
	}, func(r *engine.Rec, c typeCase) error {
		r.Hit(true)
		s := btypes.ObjectType(c.Type).String()
		if n, ok := objectNames[c.Type]; ok {
			r.Label("named")
			if s != n {
				return fmt.Errorf("type %d is %q instead of %q", c.Type, s, n)
			}
		} else {
			for _, n := range objectNames {
				if s == n {
					return fmt.Errorf("type %d has the name %q of another type", c.Type, s)
				}
			}
		}
		if g := btypes.GetType(s); uint16(g) != c.Type {
			return fmt.Errorf("type %d is %q which is type %d", c.Type, s, g)
		}
		id := btypes.ObjectID{Type: btypes.ObjectType(c.Type), Instance: 77}
		if x := id.String(); !strings.Contains(x, s) || !strings.Contains(x, "77") {
			return fmt.Errorf("the id prints as %q", x)
		}
		return nil
	})
}

func init() {
	type typeText struct {
		Text string `json:"text"`
	}
	engine.Add("T01", "texts of types", "a text that nearly is the name of a type", 6000, 200000, func(t *rapid.T) typeText {
		s := btypes.ObjectType(rapid.OneOf(rapid.Uint16Range(0, 140), rapid.Uint16()).Draw(t, "type")).String()
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		switch rapid.IntRange(0, 4).Draw(t, "change") {
		case 0:
			s = s[:i] + pick(t, "c", " ", "0", "9", "(", ")", "-", "x", "00") + s[i:]
		case 1:
			s = s[:i]
		case 2:
			s = s[i:]
		case 3:
			s += pick(t, "more", " ", "x", " (3)", "AnalogOutput", ")")
		case 4:
			s = rapid.OneOf(rapid.String(), rapid.StringMatching(`Unknown \(-?[0-9]{1,7}\)`), rapid.SampledFrom([]string{"unknown (5)", "Analog Input", "analogoutput", "", "(5)", "5"})).Draw(t, "text")
		}
		return typeText{s}
	}, func(r *engine.Rec, c typeText) error {
		g := btypes.GetType(c.Text)
		r.Hit(true)
		r.LabelIf(g.String() == c.Text, "a name")
		// What isn't a name stands for no type
		if g.String() != c.Text && g != 0 {
			return fmt.Errorf("%q is taken for type %d, whose name is %q", c.Text, g, g)
		}
		return nil
	})
}

// objectNames are the types that have a name.
var objectNames = map[uint16]string{
	0: "AnalogInput", 1: "AnalogOutput", 2: "AnalogValue", 3: "BinaryInput", 4: "BinaryOutput", 5: "BinaryValue", 8: "Device", 10: "File",
	13: "MultiStateInput", 14: "MultiStateOutput", 15: "NotificationClass", 19: "MultiStateValue", 20: "TrendLog", 40: "CharacterString",
}

// ---------------------------------------------------------------- T02

type bitOp struct {
	Op string `json:"op"`
	A  byte   `json:"a"`
	B  byte   `json:"b"`
}

type bitCase struct {
	Size int     `json:"size"`
	Ops  []bitOp `json:"ops"`
	// Literal builds the bit string from its fields, with A used bits
	Literal bool `json:"literal"`
	Used    byte `json:"used"`
}

func init() {
	engine.Add("T02", "against a list of bits", "an operation that changes a bit", 20000, 800000, func(t *rapid.T) bitCase {
		c := bitCase{Size: pick(t, "size", -1, 0, 1, 2, 5, 14, 15, 16, 40), Literal: chance(t, "literal", 15)}
		if c.Literal {
			c.Size = max(c.Size, 0)
			c.Used = rapid.Byte().Draw(t, "used")
		}
		for i := rapid.IntRange(1, 30).Draw(t, "n"); i > 0; i-- {
			o := bitOp{Op: pick(t, "op", "set", "set", "set", "clear", "byte", "used", "nil"), A: rapid.OneOf(rapid.ByteRange(0, 20), rapid.ByteRange(0, 130), rapid.Byte()).Draw(t, "a")}
			switch o.Op {
			case "byte":
				o.B = rapid.Byte().Draw(t, "b")
			case "used":
				o.A = rapid.OneOf(rapid.ByteRange(0, 17), rapid.Byte()).Draw(t, "bytes")
				o.B = rapid.OneOf(rapid.ByteRange(0, 8), rapid.Byte()).Draw(t, "unused")
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}, func(r *engine.Rec, c bitCase) error {
		size := min(max(c.Size, 0), 15)
		bs := btypes.NewBitString(c.Size)
		used := 0
		if c.Literal {
			bs = &btypes.BitString{BitUsed: c.Used, Value: make([]byte, c.Size)}
			used = int(c.Used)
		}
		bits := make([]bool, size*8)
		check := func() error {
			if g := int(bs.GetBitUsed()); g != used {
				return fmt.Errorf("%d bits used instead of %d", g, used)
			}
			if g := int(bs.BytesUsed()); g != (used+7)/8 {
				return fmt.Errorf("%d octets used with %d bits", g, used)
			}
			if !c.Literal {
				if g := int(bs.BitsCapacity()); g != size*8 {
					return fmt.Errorf("the capacity is %d instead of %d", g, size*8)
				}
			}
			for i := 0; i < 256; i++ {
				if w := i < len(bits) && bits[i]; bs.Bit(uint8(i)) != w {
					return fmt.Errorf("bit %d is %v", i, !w)
				}
				var w byte
				for j := 0; j < 8 && i*8 < len(bits); j++ {
					if bits[i*8+j] {
						w |= 1 << j
					}
				}
				if g := bs.Byte(uint8(i)); g != w {
					return fmt.Errorf("octet %d is %#x instead of %#x", i, g, w)
				}
			}
			v := bs.GetValue()
			if len(v) != used {
				return fmt.Errorf("%d values with %d bits used", len(v), used)
			}
			for i, x := range v {
				if x != (i < len(bits) && bits[i]) {
					return fmt.Errorf("value %d is %v", i, x)
				}
			}
			want, _ := json.Marshal(v)
			if s := bs.String(); s != string(want) {
				return fmt.Errorf("prints as %s instead of %s", s, want)
			}
			return nil
		}
		if err := check(); err != nil {
			return fmt.Errorf("new: %w", err)
		}
		for i, o := range c.Ops {
			switch o.Op {
			case "set", "clear":
				bs.SetBit(o.A, o.Op == "set")
				if int(o.A) < len(bits) {
					r.Hit(true)
					bits[o.A] = o.Op == "set"
					used = max(used, int(o.A)+1)
				} else {
					r.Label("bit out of range")
				}
			case "byte":
				ok := bs.SetByte(o.A, o.B)
				if ok != (int(o.A) < size) {
					return fmt.Errorf("%d: SetByte(%d) of %d returns %v", i, o.A, size, ok)
				}
				for j := 0; j < 8 && ok; j++ {
					bits[int(o.A)*8+j] = o.B>>j&1 == 1
				}
				r.LabelIf(!ok, "octet out of range")
			case "used":
				full := size
				if c.Literal {
					full = c.Size
				}
				want := int(o.A) <= full && int(o.B) <= int(o.A)*8 && int(o.A) <= 31
				if c.Literal && int(o.A) > 15 {
					continue
				}
				if ok := bs.SetBitsUsed(o.A, o.B); ok != want {
					return fmt.Errorf("%d: SetBitsUsed(%d, %d) of %d returns %v", i, o.A, o.B, size, ok)
				}
				if want {
					used = int(o.A)*8 - int(o.B)
				}
			case "nil":
				var none *btypes.BitString
				if none.BytesUsed() != 0 || none.Byte(o.A) != 0 || none.SetByte(o.A, 1) || none.SetBitsUsed(o.A, 0) || none.BitsCapacity() != 0 {
					return fmt.Errorf("a missing bit string has bits")
				}
			}
			if err := check(); err != nil {
				return fmt.Errorf("after operation %d %+v: %w", i, o, err)
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- T03

type reachCase struct {
	Text string `json:"text"`
	Port int    `json:"port"`
	Net  int    `json:"net"`
	Mac  int    `json:"mac"`
}

type addrCase struct {
	IP   []byte `json:"ip"`
	Port uint16 `json:"port"`
	Form int    `json:"form"` // 0: 4 octets, 1: 16 octets, 2: IPv6, 3: none, 4: odd length
	Net  uint16 `json:"net"`
	Mac  byte   `json:"mac"`
	Inst uint32 `json:"inst"`
	Text string `json:"text"`
	Adr  []byte `json:"adr"`
	Len  byte   `json:"len"`
	Lnk  []byte `json:"lnk"`
	LLen byte   `json:"llen"`
	Bc   bool   `json:"bc"`
	Apdu uint32 `json:"apdu"`
}

func init() {
	engine.Add("T03", "conversion", "an IPv4 address and a port", 20000, 800000, func(t *rapid.T) addrCase {
		c := addrCase{IP: rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip"), Port: rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 255, 256, 47808, 65535})).Draw(t, "port"),
			Form: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 4}).Draw(t, "form")}
		switch c.Form {
		case 2:
			c.IP = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "ip6")
		case 4:
			c.IP = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "odd")
		}
		return c
	}, func(r *engine.Rec, c addrCase) error {
		ip := net.IP(c.IP)
		if c.Form == 1 {
			ip = net.IPv4(c.IP[0], c.IP[1], c.IP[2], c.IP[3])
		}
		if c.Form == 3 {
			ip = nil
		}
		v4 := c.Form < 2
		if c.Form >= 2 && (len(ip) == 4 || len(ip) == 16 && ip.To4() != nil) {
			v4 = true // by accident
			c.IP = ip.To4()
		}
		r.Hit(v4)
		r.Label("form %d", c.Form)
		before := clone(ip)
		udp := &net.UDPAddr{IP: ip, Port: int(c.Port)}
		for name, a := range map[string]*btypes.Address{"UDPToAddress": datalink.UDPToAddress(udp), "IPPortToAddress": datalink.IPPortToAddress(ip, int(c.Port))} {
			if a == nil {
				return fmt.Errorf("%s returns nothing", name)
			}
			if a.Net != 0 || len(a.Adr) != 0 || a.Len != 0 {
				return fmt.Errorf("%s invents a network: %+v", name, a)
			}
			back, err := a.UDPAddr()
			if !v4 {
				if err == nil {
					return fmt.Errorf("%s(%v) is the address %v", name, ip, back)
				}
				continue
			}
			want := append(clone(c.IP), byte(c.Port>>8), byte(c.Port))
			if !bytes.Equal(a.Mac, want) || a.MacLen != 6 {
				return fmt.Errorf("%s(%v, %d) is %v with length %d", name, ip, c.Port, a.Mac, a.MacLen)
			}
			if err != nil || !back.IP.Equal(ip) || back.Port != int(c.Port) {
				return fmt.Errorf("%s(%v, %d) is converted back to %v, %v", name, ip, c.Port, back, err)
			}
			if !a.IsUnicast() || a.IsBroadcast() || a.IsSubBroadcast() {
				return fmt.Errorf("the address of a station counts as a broadcast")
			}
		}
		if !bytes.Equal(before, ip) || udp.Port != int(c.Port) {
			return fmt.Errorf("the argument was changed")
		}
		return nil
	})

	engine.Add("T03", "device", "a valid textual address", 15000, 500000, func(t *rapid.T) addrCase {
		c := addrCase{IP: rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip"), Port: rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 47808, 47809, 65535})).Draw(t, "port"),
			Net: rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 65535})).Draw(t, "net"), Mac: rapid.Byte().Draw(t, "mac"), Inst: genInst(t, "inst"), Apdu: genU32(t, "apdu")}
		if chance(t, "bad", 20) {
			c.Text = rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::1", "1.2.3.4/24", "host", "1.2.3.-4"})).Draw(t, "text")
		}
		return c
	}, func(r *engine.Rec, c addrCase) error {
		text := net.IP(c.IP).String()
		if c.Text != "" {
			text = c.Text
		}
		r.Hit(c.Text == "")
		b, err := ip2bytes.New(text, c.Port)
		if err == nil && len(b) != 0 && len(b) != 6 {
			return fmt.Errorf("New(%q) returns %v", text, b)
		}
		want := append(clone(c.IP), byte(c.Port>>8), byte(c.Port))
		if c.Text == "" && (err != nil || !bytes.Equal(b, want)) {
			return fmt.Errorf("New(%q, %d) returns %v, %v", text, c.Port, b, err)
		}
		in := &btypes.Device{Ip: text, Port: int(c.Port), NetworkNumber: int(c.Net), MacMSTP: int(c.Mac), DeviceID: int(c.Inst), MaxApdu: c.Apdu, Segmentation: 3, Vendor: 7, ID: btypes.ObjectID{Instance: btypes.ObjectInstance(c.Inst)}}
		d, err := btypes.NewDevice(in)
		if c.Text != "" {
			r.Label("malformed")
			return nil
		}
		if err != nil || d == nil {
			return fmt.Errorf("NewDevice fails: %v", err)
		}
		if c.Port == 0 {
			want[4], want[5] = 0xBA, 0xC0
			r.Label("default port")
		}
		if !bytes.Equal(d.Addr.Mac, want) || d.Addr.Net != c.Net || len(d.Addr.Adr) != 1 || d.Addr.Adr[0] != c.Mac {
			return fmt.Errorf("the address of %+v is %+v", in, d.Addr)
		}
		if d.Addr.MacLen != 6 || d.Addr.IsBroadcast() != (c.Net == 0xFFFF) || !d.Addr.IsUnicast() {
			return fmt.Errorf("the address %+v of a device counts as a broadcast", d.Addr)
		}
		u, err := d.Addr.UDPAddr()
		if err != nil || !u.IP.Equal(net.IP(c.IP)) || (c.Port != 0 && u.Port != int(c.Port)) {
			return fmt.Errorf("the device is reached at %v, %v", u, err)
		}
		if d.ID.Type != 8 || uint32(d.ID.Instance) != c.Inst || d.DeviceID != int(c.Inst) || d.MaxApdu != c.Apdu || d.Segmentation != 3 || d.Vendor != 7 || d.Ip != text || d.NetworkNumber != int(c.Net) || d.MacMSTP != int(c.Mac) {
			return fmt.Errorf("the device became %+v", d)
		}
		if e := d.CheckADPU(); (e != nil) != (c.Apdu == 0) {
			return fmt.Errorf("CheckADPU of size %d: %v", c.Apdu, e)
		}
		return nil
	})

	engine.Add("T03", "devices out of reach", "a number or address doesn't fit", 15000, 500000, func(t *rapid.T) reachCase {
		c := reachCase{Text: genIPText(t, chance(t, "suffixes", 50))}
		if chance(t, "fine", 60) {
			c.Text = net.IP(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip")).String()
		}
		num := func(l string, most int) int {
			if chance(t, l+" fits", 70) {
				return rapid.IntRange(0, most).Draw(t, l)
			}
			return rapid.OneOf(rapid.IntRange(-300, -1), rapid.IntRange(most+1, 4*most), rapid.Int(), rapid.SampledFrom([]int{most, most + 1, 2*most + 1, -1, 0, 1 << 16, 1 << 32, math.MaxInt, math.MinInt})).Draw(t, l)
		}
		c.Port, c.Net, c.Mac = num("port", 65535), num("net", 65535), num("mac", 255)
		return c
	}, func(r *engine.Rec, c reachCase) error {
		in := &btypes.Device{Ip: c.Text, Port: c.Port, NetworkNumber: c.Net, MacMSTP: c.Mac, MaxApdu: 480}
		d, err := btypes.NewDevice(in)
		fits := func(n, most int) bool { return n >= 0 && n <= most }
		bare := strings.TrimSuffix(c.Text, "/32")
		v4 := validIPv4(bare)
		ok := fits(c.Port, 65535) && fits(c.Net, 65535) && fits(c.Mac, 255)
		r.Hit(!ok || !v4)
		mapped, _ := netip.ParseAddr(strings.TrimSuffix(c.Text, "/128"))
		if c.Text == "" || mapped.Is4In6() {
			r.Label("left open")
			if ok {
				return nil
			}
		}
		if !ok || !v4 {
			if err == nil {
				return fmt.Errorf("the device at %q port %d network %d station %d gets the address %+v", c.Text, c.Port, c.Net, c.Mac, d.Addr)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("the device at %q port %d network %d station %d: %v", c.Text, c.Port, c.Net, c.Mac, err)
		}
		ip := make([]byte, 0, 6)
		for _, p := range strings.Split(bare, ".") {
			n, _ := strconv.Atoi(p)
			ip = append(ip, byte(n))
		}
		port := c.Port
		if port == 0 {
			port = 47808
		}
		if !bytes.Equal(d.Addr.Mac, append(ip, byte(port>>8), byte(port))) || int(d.Addr.Net) != c.Net || !bytes.Equal(d.Addr.Adr, []byte{byte(c.Mac)}) {
			return fmt.Errorf("the device at %q port %d network %d station %d gets the address %+v", c.Text, c.Port, c.Net, c.Mac, d.Addr)
		}
		return nil
	})

	engine.Add("T03", "kinds of addresses", "every combination of network and lengths", 20000, 800000, func(t *rapid.T) addrCase {
		return addrCase{Net: rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 65534, 65535}), rapid.Uint16()).Draw(t, "net"),
			Adr: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "adr"), Len: pick[byte](t, "len", 0, 0, 1, 6, 7), Lnk: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "lnk"), LLen: pick[byte](t, "llen", 0, 0, 1, 5, 6, 6, 7, 255), Bc: rapid.Bool().Draw(t, "bc")}
	}, func(r *engine.Rec, c addrCase) error {
		r.Hit(true)
		a := btypes.Address{Net: c.Net, Len: c.Len, MacLen: c.LLen, Mac: clone(c.Lnk), Adr: clone(c.Adr)}
		if g, w := a.IsBroadcast(), c.Net == 0xFFFF || c.LLen == 0; g != w {
			return fmt.Errorf("IsBroadcast of %+v is %v", a, g)
		}
		if g, w := a.IsSubBroadcast(), c.Net > 0 && c.Len == 0; g != w {
			return fmt.Errorf("IsSubBroadcast of %+v is %v", a, g)
		}
		if g, w := a.IsUnicast(), c.LLen == 6; g != w {
			return fmt.Errorf("IsUnicast of %+v is %v", a, g)
		}
		u, err := a.UDPAddr()
		if (err == nil) != (len(c.Lnk) == 6) {
			return fmt.Errorf("UDPAddr of %v: %v, %v", c.Lnk, u, err)
		}
		if err == nil && (!u.IP.Equal(net.IP(c.Lnk[:4])) || u.Port != int(c.Lnk[4])<<8|int(c.Lnk[5])) {
			return fmt.Errorf("UDPAddr of %v is %v", c.Lnk, u)
		}
		a.SetBroadcast(c.Bc)
		if w := len(c.Lnk); !c.Bc && int(a.MacLen) != w || c.Bc && a.MacLen != 0 {
			return fmt.Errorf("the length is %d after SetBroadcast(%v) with %d octets", a.MacLen, c.Bc, w)
		}
		if c.Bc && !a.IsBroadcast() {
			return fmt.Errorf("no broadcast after SetBroadcast")
		}
		a.SetLength()
		if len(c.Adr) > 0 && int(a.Len) != len(c.Adr) || len(c.Adr) == 0 && a.Len != c.Len {
			return fmt.Errorf("the length is %d with %d octets", a.Len, len(c.Adr))
		}
		if a.Net != c.Net || !bytes.Equal(a.Adr, c.Adr) || !bytes.Equal(a.Mac, c.Lnk) {
			return fmt.Errorf("the address was changed to %+v", a)
		}
		return nil
	})
}

// ---------------------------------------------------------------- T04

type slotCase struct {
	Type uint16    `json:"type"`
	Vals []ref.Val `json:"vals"`
	Wire bool      `json:"wire"` // through a reply
	Odd  int       `json:"odd"`  // other data than a list
}

func slots(p *priority.Float32) []*float32 {
	return []*float32{p.P1, p.P2, p.P3, p.P4, p.P5, p.P6, p.P7, p.P8, p.P9, p.P10, p.P11, p.P12, p.P13, p.P14, p.P15, p.P16}
}

// slotOf is what a value of a priority array is worth.
func slotOf(v ref.Val) *float32 {
	var f float32
	switch v.K {
	case "uint", "enum":
		f = float32(uint32(v.N))
	case "int":
		f = float32(int32(int64(v.N)))
	case "real":
		f = math.Float32frombits(uint32(v.N))
	case "double":
		f = float32(math.Float64frombits(v.N))
	default:
		return nil
	}
	return &f
}

func sameSlot(a, b *float32) bool {
	if a == nil || b == nil {
		return a == b
	}
	return math.Float32bits(*a) == math.Float32bits(*b) || *a != *a && *b != *b
}

func init() {
	engine.Add("T04", "slots", "a list with an active value", 15000, 600000, func(t *rapid.T) slotCase {
		c := slotCase{Type: rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 2, 3, 4, 5, 13, 14, 19}), rapid.Uint16Range(0, 1023)).Draw(t, "type"), Wire: rapid.Bool().Draw(t, "wire")}
		n := pick(t, "n", 16, 16, 16, 16, 16, 0, 1, 2, 15, 17, 20)
		kinds := []string{"null", "null", "null", "real"}
		switch rapid.IntRange(0, 4).Draw(t, "kinds") {
		case 1:
			kinds = []string{"null", "enum"}
		case 2:
			kinds = []string{"null", "uint", "int", "double", "real"}
		case 3:
			kinds = []string{"null"}
		case 4:
			kinds = allKinds
		}
		for i := 0; i < n; i++ {
			c.Vals = append(c.Vals, genValN(t, "v", kinds, 6))
		}
		if !c.Wire && chance(t, "odd", 8) {
			c.Odd = rapid.IntRange(1, 7).Draw(t, "which")
		}
		return c
	}, func(r *engine.Rec, c slotCase) error {
		pd := btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(c.Type), Instance: 3}}}
		if c.Wire {
			b := ref.ReadAck(1, ref.Obj{Type: c.Type, Inst: 3, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 87, Index: ref.ArrayAll}, Vals: c.Vals}}})
			dec := encoding.NewDecoder(b[3:])
			if err := dec.ReadProperty(&pd); err != nil {
				return fmt.Errorf("%v isn't decoded: %v", c.Vals, err)
			}
		} else {
			var l []interface{}
			for _, v := range c.Vals {
				l = append(l, natural(v))
			}
			pd.Object.Properties = []btypes.Property{{Type: 87, ArrayIndex: ref.ArrayAll, Data: l}}
		}
		switch c.Odd {
		case 1:
			pd.Object.Properties[0].Data = nil
		case 2:
			pd.Object.Properties[0].Data = "text"
		case 3:
			pd.Object.Properties[0].Data = float32(3)
		case 4:
			pd.Object.Properties[0].Data = []float32{1}
		case 5:
			pd.Object.Properties = nil
		case 6:
			pd.Object.Properties[0].Data = (*btypes.BitString)(nil)
		case 7:
			pd.Object.Properties[0].Data = []interface{}(nil)
		}
		p := priority.BuildFloat32(pd, btypes.ObjectType(c.Type))
		if p == nil {
			return fmt.Errorf("no array")
		}
		got := slots(p)
		list := c.Odd == 0 && (!c.Wire || len(c.Vals) > 1)
		var first *float32
		for i := range got {
			var w *float32
			if list && i < len(c.Vals) {
				w = slotOf(c.Vals[i])
			}
			if !list && c.Wire {
				break // a single value isn't an array
			}
			if !sameSlot(w, got[i]) {
				return fmt.Errorf("slot %d of %v is %v", i+1, c.Vals, deref(got[i]))
			}
			if first == nil {
				first = w
			}
		}
		r.Hit(first != nil)
		r.LabelIf(len(c.Vals) != 16, "unusual length")
		r.LabelIf(c.Odd != 0, "no list")
		if list || !c.Wire {
			if h := p.HighestFloat32(); !sameSlot(first, h) {
				return fmt.Errorf("the highest of %v is %v", c.Vals, deref(h))
			}
		}
		return nil
	})
}

func deref(f *float32) any {
	if f == nil {
		return "empty"
	}
	return *f
}

// natural is the value as the decoder gives it.
func natural(v ref.Val) any {
	switch v.K {
	case "null":
		return null.Null{}
	case "bool":
		return v.N == 1
	case "uint":
		return uint32(v.N)
	case "enum":
		return uint32(v.N)
	case "int":
		return int32(int64(v.N))
	case "real":
		return math.Float32frombits(uint32(v.N))
	case "double":
		return math.Float64frombits(v.N)
	case "octets":
		return v.B
	case "str", "ucs2":
		return string(v.B)
	case "oid":
		return btypes.ObjectID{Type: btypes.ObjectType(v.N >> 22), Instance: btypes.ObjectInstance(v.N & 0x3FFFFF)}
	case "bits":
		b := btypes.NewBitString(15)
		for i, x := range v.Bits {
			b.SetBit(uint8(i), x)
		}
		return b
	case "date":
		return btypes.Date{}
	case "time":
		return btypes.Time{}
	}
	return nil
}

// ---------------------------------------------------------------- T05

// validIPv4 and validIPv6 follow the textual forms of RFC 791 and RFC 4291.
func validIPv4(s string) bool {
	parts := strings.Split(s, ".")
	if len(parts) != 4 {
		return false
	}
	for _, p := range parts {
		if len(p) == 0 || len(p) > 3 || len(p) > 1 && p[0] == '0' {
			return false
		}
		n := 0
		for _, c := range []byte(p) {
			if c < '0' || c > '9' {
				return false
			}
			n = n*10 + int(c-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}

func validIPv6(s string) bool {
	groups := func(s string, v4 bool) (n int, ok bool) {
		if s == "" {
			return 0, true
		}
		parts := strings.Split(s, ":")
		for i, p := range parts {
			if v4 && i == len(parts)-1 && strings.Contains(p, ".") {
				if !validIPv4(p) {
					return 0, false
				}
				n += 2
				continue
			}
			if len(p) == 0 || len(p) > 4 {
				return 0, false
			}
			for _, c := range []byte(p) {
				if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
					return 0, false
				}
			}
			n++
		}
		return n, true
	}
	if !strings.Contains(s, ":") {
		return false
	}
	left, right, gap := strings.Cut(s, "::")
	if !gap {
		n, ok := groups(s, true)
		return ok && n == 8
	}
	a, ok := groups(left, false)
	b, ok2 := groups(right, true)
	return ok && ok2 && a+b <= 7
}

type textCase struct {
	Text string `json:"text"`
	Num  int    `json:"num"`
}

func genIPText(t *rapid.T, suffix bool) string {
	var s string
	switch rapid.IntRange(0, 3).Draw(t, "family") {
	case 0, 1:
		b := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip4")
		s = net.IP(b).String()
	case 2:
		var g []string
		n := rapid.IntRange(6, 9).Draw(t, "groups")
		for i := 0; i < n; i++ {
			g = append(g, strconv.FormatUint(uint64(rapid.Uint16().Draw(t, "group")), 16))
		}
		s = strings.Join(g, ":")
	default:
		var l, r []string
		for i := rapid.IntRange(0, 5).Draw(t, "left"); i > 0; i-- {
			l = append(l, pick(t, "g", "0", "1", "ffff", "ABCD", "12a", "00f0"))
		}
		for i := rapid.IntRange(0, 4).Draw(t, "right"); i > 0; i-- {
			r = append(r, pick(t, "g", "0", "1", "ffff", "12a", "9"))
		}
		s = strings.Join(l, ":") + "::" + strings.Join(r, ":")
		if chance(t, "embedded", 25) {
			s = pick(t, "e", "::ffff:", "64:ff9b::", "::", "1:2:3:4:5:6:", "1:2:3:4:5:6:7:") + "10.0.0.1"
		}
	}
	if chance(t, "mutate", 35) {
		for i := rapid.IntRange(1, 3).Draw(t, "edits"); i > 0; i-- {
			b := []byte(s)
			at := rapid.IntRange(0, len(b)).Draw(t, "at")
			c := rapid.SampledFrom([]byte("0123456789abfgz.:/-+ %x")).Draw(t, "char")
			switch rapid.IntRange(0, 2).Draw(t, "edit") {
			case 0:
				b = append(clone(b[:at]), append([]byte{c}, b[at:]...)...)
			case 1:
				if at < len(b) {
					b = append(clone(b[:at]), b[at+1:]...)
				}
			default:
				if at < len(b) {
					b[at] = c
				}
			}
			s = string(b)
		}
	}
	if !suffix {
		return s
	}
	return s + pick(t, "suffix", "", "", "", "/32", "/128", "", "", "", "/32", "/128", "/24", "/3", "/", "/32/32", "/128/32", "/032")
}

func init() {
	engine.Add("T05", "addresses", "an address that is valid, or nearly", 40000, 1500000, func(t *rapid.T) textCase {
		if chance(t, "any", 5) {
			return textCase{Text: rapid.String().Draw(t, "text")}
		}
		return textCase{Text: genIPText(t, true)}
	}, func(r *engine.Rec, c textCase) error {
		bare, single := c.Text, ""
		if b, ok := strings.CutSuffix(c.Text, "/32"); ok {
			bare, single = b, "/32"
		} else if b, ok := strings.CutSuffix(c.Text, "/128"); ok {
			bare, single = b, "/128"
		}
		want := validIPv4(bare) && single != "/128" || validIPv6(bare) && single != "/32"
		r.Label("%v%s", want, single)
		r.Hit(true)
		if g := validation.ValidIP(c.Text); g != want {
			return fmt.Errorf("ValidIP(%q) is %v", c.Text, g)
		}
		if n := validation.NormaliseIPAddr(c.Text); want && n != bare {
			return fmt.Errorf("NormaliseIPAddr(%q) is %q", c.Text, n)
		}
		return nil
	})
	engine.Add("T05", "ports", "every number", 20000, 800000, func(t *rapid.T) textCase {
		return textCase{Num: rapid.OneOf(rapid.IntRange(1, 70000), rapid.IntRange(60000, 66000), rapid.Int(), rapid.SampledFrom([]int{1, 9, 10, 9999, 10000, 59999, 60000, 65529, 65530, 65535, 65536, 65540, 65600, 66000, 99999, 100000, -1, -80, math.MaxInt, math.MinInt})).Draw(t, "port")}
	}, func(r *engine.Rec, c textCase) error {
		r.Hit(true)
		want := c.Num >= 1 && c.Num <= 65535
		r.Label("%v", want)
		if g := validation.ValidPort(c.Num); g != want && c.Num != 0 {
			return fmt.Errorf("ValidPort(%d) is %v", c.Num, g)
		}
		return nil
	})
	engine.Add("T05", "prefixes", "an address with a prefix", 20000, 800000, func(t *rapid.T) textCase {
		return textCase{Text: genIPText(t, chance(t, "suffixed", 10)), Num: rapid.OneOf(rapid.IntRange(-2, 140), rapid.IntRange(0, 33), rapid.Int()).Draw(t, "prefix")}
	}, func(r *engine.Rec, c textCase) error {
		want := validIPv4(c.Text) && c.Num >= 0 && c.Num <= 32 || validIPv6(c.Text) && c.Num >= 0 && c.Num <= 128
		r.Hit(validIPv4(c.Text) || validIPv6(c.Text))
		r.Label("%v", want)
		if g := validation.ValidCIDR(c.Text, c.Num); g != want {
			return fmt.Errorf("ValidCIDR(%q, %d) is %v", c.Text, c.Num, g)
		}
		return nil
	})
}

// ---------------------------------------------------------------- T06

type nameCase struct {
	Table string `json:"table"`
	ID    uint32 `json:"id"`
}

var nameTables = map[string]struct {
	std []named
	str func(uint32) string
	max uint32
}{
	"error class":  {stdErrorClasses, func(n uint32) string { return bacerr.ErrorClass(n).String() }, math.MaxUint16},
	"error code":   {stdErrorCodes, func(n uint32) string { return bacerr.ErrorCode(n).String() }, math.MaxUint32},
	"unit":         {stdUnits, func(n uint32) string { return units.Unit(n).String() }, math.MaxUint16},
	"segmentation": {stdSegmentation, func(n uint32) string { return segmentation.SegmentedType(n).String() }, math.MaxUint8},
	"message":      {stdNetworkMessages, func(n uint32) string { return ndpu.NetworkMessageType(n).String() }, math.MaxUint8},
}

func init() {
	var tables []string
	for k := range nameTables {
		tables = append(tables, k)
	}
	sort.Strings(tables)
	engine.Add("T06", "identifiers", "an identifier with a name", 20000, 800000, func(t *rapid.T) nameCase {
		c := nameCase{Table: rapid.SampledFrom(tables).Draw(t, "table")}
		c.ID = rapid.OneOf(rapid.Uint32Range(0, 255), rapid.Uint32Range(0, 40), rapid.Uint32()).Draw(t, "id") & nameTables[c.Table].max
		return c
	}, func(r *engine.Rec, c nameCase) error {
		tb := nameTables[c.Table]
		s := tb.str(c.ID)
		if s == "" {
			return fmt.Errorf("%s %d prints as nothing", c.Table, c.ID)
		}
		known := false
		for _, n := range tb.std {
			if n.got != n.want {
				return fmt.Errorf("%s %s is %d instead of %d", c.Table, n.name, n.got, n.want)
			}
			if n.want == c.ID {
				known = true
				if s != n.name || n.id.String() != n.name {
					return fmt.Errorf("%s %d prints as %q instead of %q", c.Table, c.ID, s, n.name)
				}
			} else if s == n.name {
				return fmt.Errorf("%s %d prints as %q which is %d", c.Table, c.ID, s, n.want)
			}
		}
		r.Hit(known)
		r.Label("%s known %v", c.Table, known)
		if !known && !strings.Contains(s, strconv.FormatUint(uint64(c.ID), 10)) {
			return fmt.Errorf("the unknown %s %d prints as %q", c.Table, c.ID, s)
		}
		return nil
	})

	engine.Add("T06", "properties", "a property with a name", 10000, 300000, func(t *rapid.T) nameCase {
		return nameCase{ID: rapid.OneOf(rapid.Uint32Range(0, 130), rapid.Uint32Range(0, 520), rapid.Uint32()).Draw(t, "id"), Table: rapid.OneOf(rapid.SampledFrom(sortedProps()), rapid.String()).Draw(t, "name")}
	}, func(r *engine.Rec, c nameCase) error {
		for _, n := range stdProperties {
			if n.got != n.want {
				return fmt.Errorf("property %s is %d instead of %d", n.name, n.got, n.want)
			}
		}
		keys := btypes.Keys()
		ids := map[btypes.PropertyType]string{}
		texts := map[string]btypes.PropertyType{}
		for k, id := range keys {
			if o, ok := ids[id]; ok {
				return fmt.Errorf("%s and %s are both %d", k, o, id)
			}
			ids[id] = k
			if w, ok := propertyNames[k]; ok && w != uint32(id) {
				return fmt.Errorf("%s is %d instead of %d", k, id, w)
			}
			if g, err := btypes.Get(k); err != nil || g != id {
				return fmt.Errorf("Get(%q) is %d, %v", k, g, err)
			}
			s := btypes.String(id)
			if !strings.Contains(s, fmt.Sprintf("(%d)", id)) {
				return fmt.Errorf("%s prints as %q", k, s)
			}
			if o, ok := texts[s]; ok {
				return fmt.Errorf("%d and %d both print as %q", id, o, s)
			}
			texts[s] = id
		}
		for k := range propertyNames {
			if _, ok := keys[k]; !ok {
				return fmt.Errorf("%s has no identifier", k)
			}
		}
		// The map that is given out is a copy
		for k := range keys {
			keys[k] = 0
			delete(keys, k)
			break
		}
		if len(btypes.Keys()) < len(propertyNames) {
			return fmt.Errorf("changing the result of Keys changes the table")
		}
		_, byName := propertyNames[c.Table]
		g, err := btypes.Get(c.Table)
		if byName != (err == nil) && propertyNames[c.Table] != uint32(g) {
			return fmt.Errorf("Get(%q) is %d, %v", c.Table, g, err)
		}
		s := btypes.String(btypes.PropertyType(c.ID))
		k, has := ids[btypes.PropertyType(c.ID)]
		r.Hit(has || byName)
		if !has {
			if o, ok := texts[s]; ok {
				return fmt.Errorf("property %d prints as %q which is %d", c.ID, s, o)
			}
			if s == "" {
				return fmt.Errorf("property %d prints as nothing", c.ID)
			}
		} else if !strings.EqualFold(strings.ReplaceAll(s[:strings.LastIndex(s, " (")], " ", ""), k) && k != "Units" {
			return fmt.Errorf("%s prints as %q", k, s)
		}
		if g := btypes.IsDeviceProperty(btypes.PropertyType(c.ID)); g != (c.ID == 76) {
			return fmt.Errorf("IsDeviceProperty(%d) is %v", c.ID, g)
		}
		mp := btypes.MultiplePropertyData{Objects: []btypes.Object{{ID: btypes.ObjectID{Type: 2, Instance: 5}, Properties: []btypes.Property{{Type: btypes.PropertyType(c.ID), ArrayIndex: 9, Data: "value"}}}}}
		if x := mp.String(); !strings.Contains(x, s) || !strings.Contains(x, "value") || !strings.Contains(x, "AnalogValue") || !strings.Contains(x, "[9]") {
			return fmt.Errorf("prints as %q", x)
		}
		return nil
	})

	engine.Add("T06", "services", "every service by its name", 4000, 100000, func(t *rapid.T) nameCase {
		return nameCase{Table: rapid.OneOf(rapid.SampledFrom(sortedServices()), rapid.String()).Draw(t, "name"), ID: genU32(t, "id")}
	}, func(r *engine.Rec, c nameCase) error {
		var ss services.Supported
		all := ss.ListAll()
		num, pos := map[uint16]string{}, map[int]string{}
		for s, n := range all {
			if s.Name != n {
				return fmt.Errorf("%s is listed as %s", s.Name, n)
			}
			if o, ok := num[s.Number]; ok {
				return fmt.Errorf("%s and %s have the number %d", n, o, s.Number)
			}
			if o, ok := pos[s.Index]; ok {
				return fmt.Errorf("%s and %s have the index %d", n, o, s.Index)
			}
			num[s.Number], pos[s.Index] = n, n
			if w, ok := serviceNumbers[n]; ok && w != s.Number {
				return fmt.Errorf("%s has the number %d instead of %d", n, s.Number, w)
			}
			if g := ss.GetString(s); g != n {
				return fmt.Errorf("%s prints as %q", n, g)
			}
		}
		w, known := serviceNumbers[c.Table]
		r.Hit(known)
		g := ss.GetType(c.Table)
		if !known {
			if _, ok := all[services.Supported{Name: c.Table}]; g != nil && g.Name != c.Table && !ok {
				return fmt.Errorf("GetType(%q) is %+v", c.Table, *g)
			}
			x := ss.GetString(services.Supported{Name: c.Table, Number: uint16(c.ID)})
			if !strings.Contains(x, c.Table) || num[uint16(c.ID)] == x && x != "" {
				return fmt.Errorf("the unknown service %q prints as %q", c.Table, x)
			}
			return nil
		}
		if g == nil || g.Name != c.Table || g.Number != w || num[w] != c.Table {
			return fmt.Errorf("GetType(%q) is %+v", c.Table, g)
		}
		return nil
	})
}

// The position of a service in the bit string of a device is its number.
func init() {
	engine.Add("T06", "service positions", "every service", 400, 4000, func(t *rapid.T) nameCase {
		return nameCase{Table: rapid.SampledFrom(sortedServices()).Draw(t, "name")}
	}, func(r *engine.Rec, c nameCase) error {
		r.Hit(true)
		for s, n := range (services.Supported{}).ListAll() {
			if n == c.Table && s.Index != int(serviceNumbers[n]) {
				return fmt.Errorf("%s is said to be at position %d of the bit string instead of %d", n, s.Index, serviceNumbers[n])
			}
		}
		return nil
	})
}

var propertyNames = map[string]uint32{
	"AllProperties": 8, "Description": 28, "FileSize": 42, "FileType": 43, "ModelName": 70, "ObjectIdentifier": 75, "ObjectList": 76,
	"ObjectName": 77, "ObjectReference": 78, "ObjectType": 79, "PresentValue": 85, "Units": 117, "PriorityArray": 87,
}

func sortedProps() (l []string) {
	for k := range propertyNames {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// serviceNumbers are the bits of BACnetServicesSupported.
var serviceNumbers = map[string]uint16{
	"acknowledgeAlarm": 0, "confirmedCOVNotification": 1, "confirmedEventNotification": 2, "getAlarmSummary": 3, "getEnrollmentSummary": 4, "subscribeCOV": 5,
	"atomicReadFile": 6, "atomicWriteFile": 7, "addListElement": 8, "removeListElement": 9, "createObject": 10, "deleteObject": 11,
	"readProperty": 12, "readPropertyMultiple": 14, "writeProperty": 15, "writePropertyMultiple": 16, "deviceCommunicationControl": 17,
	"confirmedPrivateTransfer": 18, "confirmedTextMessage": 19, "reinitializeDevice": 20, "vtOpen": 21, "vtClose": 22, "vtData": 23,
	"iAm": 26, "iHave": 27, "unconfirmedCOVNotification": 28, "unconfirmedEventNotification": 29, "unconfirmedPrivateTransfer": 30,
	"unconfirmedTextMessage": 31, "timeSynchronization": 32, "whoHas": 33, "whoIs": 34, "readRange": 35, "utcTimeSynchronization": 36,
	"lifeSafetyOperation": 37, "subscribeCOVProperty": 38, "getEventInformation": 39, "writeGroup": 40,
}

func sortedServices() (l []string) {
	for k := range serviceNumbers {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---------------------------------------------------------------- T07

type accCase struct {
	Vals []ref.Val `json:"vals"`
	More []ref.Val `json:"more"` // the second property
	How  int       `json:"how"`  // 0: through a reply, 1: given directly, 2: no property, 3: other Go types
	Kind int       `json:"kind"`
}

func init() {
	engine.Add("T07", "accessors", "a reply with a value", 20000, 800000, func(t *rapid.T) accCase {
		c := accCase{How: pick(t, "how", 0, 0, 0, 1, 1, 2, 3), Kind: rapid.IntRange(0, 9).Draw(t, "kind")}
		c.Vals = genVals(t, allKinds, 4)
		if chance(t, "second", 30) {
			c.More = genVals(t, allKinds, 2)
		}
		return c
	}, func(r *engine.Rec, c accCase) error {
		var pd btypes.PropertyData
		var val any
		switch c.How {
		case 0:
			b := ref.ReadAck(1, ref.Obj{Type: 2, Inst: 3, Props: []ref.PropV{{PropRef: ref.PropRef{ID: 85, Index: ref.ArrayAll}, Vals: c.Vals}}})
			if err := encoding.NewDecoder(b[3:]).ReadProperty(&pd); err != nil {
				return fmt.Errorf("%v isn't decoded: %v", c.Vals, err)
			}
		case 1, 3:
			if c.How == 3 {
				val = []any{nil, 7, int64(7), uint8(1), uint16(2), []string{"a"}, btypes.BitString{}, (*btypes.BitString)(nil), btypes.Enumerated(3), struct{}{}}[c.Kind]
			} else if len(c.Vals) == 1 {
				val = natural(c.Vals[0])
			} else {
				var l []interface{}
				for _, v := range c.Vals {
					l = append(l, natural(v))
				}
				val = l
			}
			pd.Object.Properties = []btypes.Property{{Type: 85, Data: val}}
		}
		if c.How != 2 && c.More != nil {
			pd.Object.Properties = append(pd.Object.Properties, btypes.Property{Type: 28, Data: natural(ref.Str("second"))})
		}
		if len(pd.Object.Properties) > 0 {
			val = pd.Object.Properties[0].Data
		}
		kind := ""
		if c.How == 0 && len(c.Vals) == 1 {
			kind = c.Vals[0].K
		} else if c.How == 0 && len(c.Vals) > 1 {
			kind = "list"
		}
		r.Label("how %d %s", c.How, kind)
		r.Hit(c.How != 2)
		dev := &network.Device{}
		type acc struct {
			name  string
			kinds []string
			ok    bool
			got   any
			zero  any
			is    bool
		}
		var accs []acc
		add := func(name string, ok bool, got, zero any, is bool, kinds ...string) {
			accs = append(accs, acc{name, kinds, ok, got, zero, is})
		}
		ok, s := data.ToStr(pd)
		_, is := val.(string)
		add("ToStr", ok, s, "", is, "str", "ucs2")
		ok, f := data.ToFloat32(pd)
		f32, is := val.(float32)
		if is && f32 != f32 && f != f {
			f = 0
			val = float32(0)
		}
		add("ToFloat32", ok, f, float32(0), is, "real")
		ok, g := data.ToFloat64(pd)
		f64, is := val.(float64)
		if is && f64 != f64 && g != g {
			g = 0
			val = float64(0)
		}
		add("ToFloat64", ok, g, float64(0), is, "double")
		ok, b := data.ToBool(pd)
		_, is = val.(bool)
		add("ToBool", ok, b, false, is, "bool")
		ok, u := data.ToUint32(pd)
		_, is = val.(uint32)
		add("ToUint32", ok, u, uint32(0), is, "uint", "enum")
		ok, i := data.ToInt(pd)
		_, is = val.(int)
		if c.How != 0 || c.Kind != 1 {
			add("ToInt", ok, i, 0, is)
		}
		ok, l := data.ToArr(pd)
		_, is = val.([]interface{})
		add("ToArr", ok, l, []interface{}(nil), is, "list")
		ok, bs := data.ToBitString(pd)
		_, is = val.(*btypes.BitString)
		add("ToBitString", ok, bs, (*btypes.BitString)(nil), is, "bits")
		if d := dev.ToBitString(pd); d != bs {
			return fmt.Errorf("Device.ToBitString is %v instead of %v", d, bs)
		}
		for _, a := range accs {
			if a.ok != a.is {
				return fmt.Errorf("%s of %T says %v", a.name, val, a.ok)
			}
			if kind != "" {
				w := false
				for _, k := range a.kinds {
					w = w || k == kind
				}
				if a.ok != w {
					return fmt.Errorf("%s of a reply with %s %v says %v", a.name, kind, c.Vals, a.ok)
				}
				if a.ok {
					if err := ref.SameList(c.Vals, pd.Object.Properties[0].Data); err != nil {
						return err
					}
				}
			}
			if a.ok && !sameAny(a.got, val) {
				return fmt.Errorf("%s of %v is %v", a.name, val, a.got)
			}
			if !a.ok && !reflect.DeepEqual(a.got, a.zero) {
				return fmt.Errorf("%s of another type is %v", a.name, a.got)
			}
		}
		return nil
	})

	type nilCase struct {
		Nil bool    `json:"nil"`
		S   string  `json:"s"`
		N   int     `json:"n"`
		F   float64 `json:"f"`
	}
	engine.Add("T07", "optional values", "a value that is there", 4000, 100000, func(t *rapid.T) nilCase {
		return nilCase{Nil: chance(t, "nil", 20), S: rapid.String().Draw(t, "s"), N: rapid.Int().Draw(t, "n"), F: rapid.Float64Range(-1e30, 1e30).Draw(t, "f")}
	}, func(r *engine.Rec, c nilCase) error {
		r.Hit(!c.Nil)
		var ps *string
		var pi *int
		var pb *bool
		var p16 *uint16
		var p32 *uint32
		var pf *float32
		var pd *float64
		var pu *uint
		var w nilCase
		var wb bool
		if !c.Nil {
			w = c
			wb = c.N%2 == 0
			u := uint(c.N)
			ps, pi, pb, p16, p32, pf, pd, pu = nils.NewString(c.S), nils.NewInt(c.N), nils.NewBool(wb), nils.NewUint16(uint16(c.N)), nils.NewUint32(uint32(c.N)), nils.NewFloat32(float32(c.F)), nils.NewFloat64(c.F), &u
		}
		if g := nils.StringIsNil(ps); g != w.S {
			return fmt.Errorf("StringIsNil: %q", g)
		}
		if g := nils.IntIsNil(pi); g != w.N {
			return fmt.Errorf("IntIsNil: %d", g)
		}
		if g := nils.BoolIsNil(pb); g != wb {
			return fmt.Errorf("BoolIsNil: %v", g)
		}
		if g := nils.Unit16IsNil(p16); g != uint16(w.N) {
			return fmt.Errorf("Unit16IsNil: %d", g)
		}
		if g := nils.Unit32IsNil(p32); g != uint32(w.N) {
			return fmt.Errorf("Unit32IsNil: %d", g)
		}
		if g := nils.UnitIsNil(pu); g != uint(w.N) {
			return fmt.Errorf("UnitIsNil: %d", g)
		}
		if g := nils.Float32IsNil(pf); g != float32(w.F) {
			return fmt.Errorf("Float32IsNil: %v", g)
		}
		if g := nils.Float64IsNil(pd); g != w.F {
			return fmt.Errorf("Float64IsNil: %v", g)
		}
		for i, g := range []bool{nils.StringNilCheck(ps), nils.BoolNilCheck(pb), nils.IntNilCheck(pi), nils.Unit32NilCheck(p32), nils.FloatIsNilCheck(pd)} {
			if g != c.Nil {
				return fmt.Errorf("nil check %d: %v", i, g)
			}
		}
		if a, b := nils.NewTrue(), nils.NewTrue(); !*a || a == b {
			return fmt.Errorf("NewTrue")
		}
		if a, b := nils.NewFalse(), nils.NewFalse(); *a || a == b {
			return fmt.Errorf("NewFalse")
		}
		return nil
	})
}

// sameAny compares, NaNs are equal.
func sameAny(a, b any) bool {
	return reflect.DeepEqual(a, b) || fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b)
}
