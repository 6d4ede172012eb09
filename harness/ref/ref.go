// Package ref is an independent implementation of the parts of the BACnet wire
// format (ANSI/ASHRAE 135, clauses 6, 20, 21 and annex J) the checks need. It
// shares no code with the code under test.
package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"unicode/utf16"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
)

// ArrayAll is the index that stands for no index.
const ArrayAll uint32 = 0xFFFFFFFF

// Val is an application value.
type Val struct {
	K    string `json:"k"`
	N    uint64 `json:"n,omitempty"`
	W    int    `json:"w,omitempty"`
	B    []byte `json:"b,omitempty"`
	Bits []bool `json:"bits,omitempty"`
}

// Application tag numbers by kind.
var appTag = map[string]byte{
	"null": 0, "bool": 1, "uint": 2, "int": 3, "real": 4, "double": 5, "octets": 6, "str": 7, "ucs2": 7,
	"bits": 8, "enum": 9, "date": 10, "time": 11, "oid": 12,
}

func Null() Val            { return Val{K: "null"} }
func Uint(n uint32) Val    { return Val{K: "uint", N: uint64(n)} }
func Enum(n uint32) Val    { return Val{K: "enum", N: uint64(n)} }
func Int(n int32) Val      { return Val{K: "int", N: uint64(int64(n))} }
func Real(f float32) Val   { return Val{K: "real", N: uint64(math.Float32bits(f))} }
func Double(f float64) Val { return Val{K: "double", N: math.Float64bits(f)} }
func Str(s string) Val     { return Val{K: "str", B: []byte(s)} }
func Bool(b bool) Val {
	if b {
		return Val{K: "bool", N: 1}
	}
	return Val{K: "bool"}
}
func OID(t uint16, i uint32) Val { return Val{K: "oid", N: uint64(t)<<22 | uint64(i)} }

func be(n uint64, width int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return b[8-width:]
}

// UintWidth is the smallest number of octets that holds n.
func UintWidth(n uint64) int {
	w := 1
	for n >>= 8; n > 0; n >>= 8 {
		w++
	}
	return w
}

// IntWidth is the smallest number of octets that holds n in two's complement.
func IntWidth(n int64) int {
	w := 1
	for w < 8 && (n < -(1<<(8*w-1)) || n >= 1<<(8*w-1)) {
		w++
	}
	return w
}

// Content is the contents of the value without its tag.
func (v Val) Content() []byte {
	switch v.K {
	case "null", "bool":
		return nil
	case "uint", "enum":
		return be(v.N, max(v.W, UintWidth(v.N)))
	case "int":
		return be(v.N, max(v.W, IntWidth(int64(v.N))))
	case "real":
		return be(v.N, 4)
	case "double":
		return be(v.N, 8)
	case "octets", "date", "time":
		return v.B
	case "str":
		return append([]byte{0}, v.B...)
	case "ucs2":
		b := []byte{4}
		for _, u := range utf16.Encode([]rune(string(v.B))) {
			b = append(b, byte(u>>8), byte(u))
		}
		return b
	case "bits":
		n := (len(v.Bits) + 7) / 8
		b := make([]byte, n+1)
		b[0] = byte(n*8 - len(v.Bits))
		for i, bit := range v.Bits {
			if bit {
				b[1+i/8] |= 0x80 >> (i % 8)
			}
		}
		return b
	case "oid":
		return be(v.N, 4)
	}
	panic("kind " + v.K)
}

// Tag is the initial octets of a primitive tag.
func Tag(num byte, context bool, lvt uint32) []byte {
	var b []byte
	first := byte(0)
	if context {
		first |= 8
	}
	ext := lvt
	if lvt <= 4 {
		first |= byte(lvt)
	} else {
		first |= 5
	}
	if num <= 14 {
		b = append(b, first|num<<4)
	} else {
		b = append(b, first|0xF0, num)
	}
	switch {
	case ext <= 4:
	case ext <= 253:
		b = append(b, byte(ext))
	case ext <= 65535:
		b = append(b, 254, byte(ext>>8), byte(ext))
	default:
		b = append(b, 255, byte(ext>>24), byte(ext>>16), byte(ext>>8), byte(ext))
	}
	return b
}

func mark(num byte, kind byte) []byte {
	if num <= 14 {
		return []byte{num<<4 | kind}
	}
	return []byte{0xF0 | kind, num}
}

// Open and Close are the opening and closing tags.
func Open(num byte) []byte  { return mark(num, 0x0E) }
func Close(num byte) []byte { return mark(num, 0x0F) }

// Enc is the application tagged encoding of the value.
func (v Val) Enc() []byte {
	c := v.Content()
	if v.K == "bool" {
		return Tag(1, false, uint32(v.N))
	}
	return append(Tag(appTag[v.K], false, uint32(len(c))), c...)
}

// Ctx is the context tagged encoding of the value.
func (v Val) Ctx(num byte) []byte {
	c := v.Content()
	if v.K == "bool" {
		c = []byte{byte(v.N)}
	}
	return append(Tag(num, true, uint32(len(c))), c...)
}

// CtxUint is a context tagged unsigned or enumerated number.
func CtxUint(num byte, n uint32) []byte { return Uint(n).Ctx(num) }

// EncAll is the encoding of the values one after the other.
func EncAll(vs []Val) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, v.Enc()...)
	}
	return b
}

// In is the value as the encoder takes it, if it can be encoded at all.
func (v Val) In() (any, bool) {
	switch v.K {
	case "null":
		return null.Null{}, true
	case "bool":
		return v.N == 1, true
	case "uint":
		return uint32(v.N), v.N <= math.MaxUint32
	case "int":
		return int32(v.N), int64(v.N) == int64(int32(v.N))
	case "real":
		return math.Float32frombits(uint32(v.N)), true
	case "double":
		return math.Float64frombits(v.N), true
	case "str":
		return string(v.B), true
	case "enum":
		return btypes.Enumerated(v.N), v.N <= math.MaxUint32
	case "oid":
		return btypes.ObjectID{Type: btypes.ObjectType(v.N >> 22 & 0x3FF), Instance: btypes.ObjectInstance(v.N & 0x3FFFFF)}, true
	}
	return nil, false
}

// Same tells how the decoded value differs from v, if it does.
func (v Val) Same(got any) error {
	bad := func() error { return fmt.Errorf("value %s decoded as %T %v", v, got, got) }
	switch v.K {
	case "null":
		if _, ok := got.(null.Null); !ok {
			return bad()
		}
	case "bool":
		if g, ok := got.(bool); !ok || g != (v.N == 1) {
			return bad()
		}
	case "uint", "enum":
		switch g := got.(type) {
		case uint32:
			if uint64(g) != v.N {
				return bad()
			}
		case btypes.Enumerated:
			if v.K != "enum" || uint64(g) != v.N {
				return bad()
			}
		default:
			return bad()
		}
	case "int":
		if g, ok := got.(int32); !ok || int64(g) != int64(v.N) {
			return bad()
		}
	case "real":
		if g, ok := got.(float32); !ok || uint64(math.Float32bits(g)) != v.N {
			return bad()
		}
	case "double":
		if g, ok := got.(float64); !ok || math.Float64bits(g) != v.N {
			return bad()
		}
	case "octets":
		if g, ok := got.([]byte); !ok || !bytes.Equal(g, v.B) {
			return bad()
		}
	case "str", "ucs2":
		if g, ok := got.(string); !ok || g != string(v.B) {
			return bad()
		}
	case "bits":
		g, ok := got.(*btypes.BitString)
		if !ok || g == nil || int(g.GetBitUsed()) != len(v.Bits) {
			return bad()
		}
		for i, b := range g.GetValue() {
			if b != v.Bits[i] || g.Bit(uint8(i)) != b {
				return fmt.Errorf("bit %d of %s decoded as %v", i, v, g)
			}
		}
	case "date":
		g, ok := got.(btypes.Date)
		if !ok {
			return bad()
		}
		return SameDate(v.B, g)
	case "time":
		g, ok := got.(btypes.Time)
		if !ok {
			return bad()
		}
		return SameTime(v.B, g)
	case "oid":
		g, ok := got.(btypes.ObjectID)
		if !ok || uint64(g.Type) != v.N>>22 || uint64(g.Instance) != v.N&0x3FFFFF {
			return bad()
		}
	default:
		panic("kind " + v.K)
	}
	return nil
}

// SameDate compares a decoded date with its octets.
func SameDate(b []byte, g btypes.Date) error {
	year := int(b[0]) + 1900
	if b[0] == 0xFF {
		year = btypes.UnspecifiedTime
	}
	if g.Year != year || g.Month != int(b[1]) || g.Day != int(b[2]) || int(g.DayOfWeek) != int(b[3]) {
		return fmt.Errorf("date %v decoded as %+v", b, g)
	}
	return nil
}

// SameTime compares a decoded time with its octets. What unspecified hundredths
// become isn't said anywhere.
func SameTime(b []byte, g btypes.Time) error {
	if g.Hour != int(b[0]) || g.Minute != int(b[1]) || g.Second != int(b[2]) || (b[3] != 0xFF && g.Millisecond != int(b[3])*10) {
		return fmt.Errorf("time %v decoded as %+v", b, g)
	}
	return nil
}

func (v Val) String() string {
	switch v.K {
	case "str", "ucs2":
		return fmt.Sprintf("%s(%q)", v.K, v.B)
	case "octets", "date", "time":
		return fmt.Sprintf("%s(%x)", v.K, v.B)
	case "bits":
		return fmt.Sprintf("bits(%v)", v.Bits)
	case "int":
		return fmt.Sprintf("int(%d)", int64(v.N))
	}
	return fmt.Sprintf("%s(%#x)", v.K, v.N)
}

// SameList compares the data of a decoded property with the values that were
// sent: a single value is given as such, otherwise there is a list.
func SameList(vs []Val, got any) error {
	if len(vs) == 1 {
		return vs[0].Same(got)
	}
	list, ok := got.([]interface{})
	if !ok {
		return fmt.Errorf("list of %d values decoded as %T %v", len(vs), got, got)
	}
	if len(list) != len(vs) {
		return fmt.Errorf("list of %d values %v decoded as %d: %v", len(vs), vs, len(list), list)
	}
	for i := range vs {
		if err := vs[i].Same(list[i]); err != nil {
			return fmt.Errorf("element %d: %w", i, err)
		}
	}
	return nil
}

// Cat joins octet strings.
func Cat(parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

// ---------------------------------------------------------------- messages

// Net is a network number with a hardware address.
type Net struct {
	Net uint16 `json:"net"`
	Adr []byte `json:"adr,omitempty"`
}

// NPDU is a network header.
type NPDU struct {
	Version byte   `json:"v"`
	Prio    byte   `json:"prio"`
	Expect  bool   `json:"expect"`
	Dst     *Net   `json:"dst,omitempty"`
	Src     *Net   `json:"src,omitempty"`
	Hop     byte   `json:"hop"`
	Msg     *byte  `json:"msg,omitempty"`
	Vendor  uint16 `json:"vendor"`
}

// Enc is the encoding of the header.
func (n NPDU) Enc() []byte {
	c := n.Prio & 3
	if n.Expect {
		c |= 4
	}
	if n.Src != nil {
		c |= 8
	}
	if n.Dst != nil {
		c |= 0x20
	}
	if n.Msg != nil {
		c |= 0x80
	}
	b := []byte{n.Version, c}
	for _, a := range []*Net{n.Dst, n.Src} {
		if a != nil {
			b = append(b, byte(a.Net>>8), byte(a.Net), byte(len(a.Adr)))
			b = append(b, a.Adr...)
		}
	}
	if n.Dst != nil {
		b = append(b, n.Hop)
	}
	if n.Msg != nil {
		b = append(b, *n.Msg)
		if *n.Msg >= 0x80 {
			b = append(b, byte(n.Vendor>>8), byte(n.Vendor))
		}
	}
	return b
}

// ParseNPDU is the reverse of Enc, it returns what follows the header too.
func ParseNPDU(b []byte) (n NPDU, rest []byte, err error) {
	short := fmt.Errorf("network header too short: %x", b)
	if len(b) < 2 {
		return n, nil, short
	}
	n.Version = b[0]
	c := b[1]
	n.Prio, n.Expect = c&3, c&4 != 0
	if c&0x50 != 0 {
		return n, nil, fmt.Errorf("reserved bits are set in %x", c)
	}
	b = b[2:]
	for i, p := range []**Net{&n.Dst, &n.Src} {
		if c&[]byte{0x20, 8}[i] == 0 {
			continue
		}
		if len(b) < 3 || len(b) < 3+int(b[2]) {
			return n, nil, short
		}
		*p = &Net{Net: uint16(b[0])<<8 | uint16(b[1]), Adr: append([]byte(nil), b[3:3+int(b[2])]...)}
		b = b[3+int(b[2]):]
	}
	if n.Dst != nil {
		if len(b) < 1 {
			return n, nil, short
		}
		n.Hop, b = b[0], b[1:]
	}
	if c&0x80 != 0 {
		if len(b) < 1 {
			return n, nil, short
		}
		m := b[0]
		n.Msg, b = &m, b[1:]
		if m >= 0x80 {
			if len(b) < 2 {
				return n, nil, short
			}
			n.Vendor, b = uint16(b[0])<<8|uint16(b[1]), b[2:]
		}
	}
	return n, b, nil
}

// BVLC puts the link header in front of the payload.
func BVLC(function byte, payload []byte) []byte {
	n := len(payload) + 4
	return append([]byte{0x81, function, byte(n >> 8), byte(n)}, payload...)
}

// ParseBVLC is the reverse of BVLC.
func ParseBVLC(b []byte) (function byte, payload []byte, err error) {
	if len(b) < 4 || b[0] != 0x81 || int(b[2])<<8|int(b[3]) != len(b) {
		return 0, nil, fmt.Errorf("bad link header: %x", b)
	}
	return b[1], b[4:], nil
}

// PropRef names a property.
type PropRef struct {
	ID    uint32 `json:"id"`
	Index uint32 `json:"index"`
}

// Obj is an object with the properties that are read, written or answered.
type Obj struct {
	Type  uint16  `json:"type"`
	Inst  uint32  `json:"inst"`
	Props []PropV `json:"props"`
}

// PropV is a property with its value and what comes with it.
type PropV struct {
	PropRef
	Prio byte  `json:"prio,omitempty"`
	Vals []Val `json:"vals,omitempty"`
	// Raw replaces the encoding of Vals
	Raw []byte `json:"raw,omitempty"`
	// Err is an access error in a reply
	Err *ErrVal `json:"err,omitempty"`
}

// ErrVal is an error class and code.
type ErrVal struct {
	Class uint32 `json:"class"`
	Code  uint32 `json:"code"`
}

// Enc is the encoding of the error.
func (e ErrVal) Enc() []byte { return Cat(Enum(e.Class).Enc(), Enum(e.Code).Enc()) }

func (p PropV) value() []byte {
	if p.Raw != nil {
		return p.Raw
	}
	return EncAll(p.Vals)
}

func (p PropRef) enc(first byte) []byte {
	b := CtxUint(first, p.ID)
	if p.Index != ArrayAll {
		b = append(b, CtxUint(first+1, p.Index)...)
	}
	return b
}

func (o Obj) id() []byte { return OID(o.Type, o.Inst).Ctx(0) }

// ConfirmedHeader is the header of an unsegmented request of the library.
func ConfirmedHeader(invoke, service byte) []byte { return []byte{0, 5, invoke, service} }

// ReadReq is a read property request.
func ReadReq(invoke byte, o Obj) []byte {
	return Cat(ConfirmedHeader(invoke, 12), o.id(), o.Props[0].enc(1))
}

// ReadAckBody is a read property acknowledgement without its header.
func ReadAckBody(o Obj) []byte {
	p := o.Props[0]
	return Cat(o.id(), p.enc(1), Open(3), p.value(), Close(3))
}

// ReadAck is a read property acknowledgement.
func ReadAck(invoke byte, o Obj) []byte { return Cat(ComplexAck(invoke, 12), ReadAckBody(o)) }

// ReadMultiReq is a read property multiple request.
func ReadMultiReq(invoke byte, os []Obj) []byte {
	b := ConfirmedHeader(invoke, 14)
	for _, o := range os {
		b = Cat(b, o.id(), Open(1))
		for _, p := range o.Props {
			b = Cat(b, p.enc(0))
		}
		b = Cat(b, Close(1))
	}
	return b
}

// ReadMultiAckBody is a read property multiple acknowledgement without header.
func ReadMultiAckBody(os []Obj) []byte {
	var b []byte
	for _, o := range os {
		b = Cat(b, o.id(), Open(1))
		for _, p := range o.Props {
			b = Cat(b, p.enc(2))
			if p.Err != nil {
				b = Cat(b, Open(5), p.Err.Enc(), Close(5))
			} else {
				b = Cat(b, Open(4), p.value(), Close(4))
			}
		}
		b = Cat(b, Close(1))
	}
	return b
}

// ReadMultiAck is a read property multiple acknowledgement.
func ReadMultiAck(invoke byte, os []Obj) []byte {
	return Cat(ComplexAck(invoke, 14), ReadMultiAckBody(os))
}

// WriteReq is a write property request.
func WriteReq(invoke byte, o Obj) []byte {
	p := o.Props[0]
	b := Cat(ConfirmedHeader(invoke, 15), o.id(), p.enc(1), Open(3), p.value(), Close(3))
	if p.Prio != 0 {
		b = Cat(b, CtxUint(4, uint32(p.Prio)))
	}
	return b
}

// WriteMultiReq is a write property multiple request.
func WriteMultiReq(invoke byte, os []Obj) []byte {
	b := ConfirmedHeader(invoke, 16)
	for _, o := range os {
		b = Cat(b, o.id(), Open(1))
		for _, p := range o.Props {
			b = Cat(b, p.enc(0), Open(2), p.value(), Close(2))
			if p.Prio != 0 {
				b = Cat(b, CtxUint(3, uint32(p.Prio)))
			}
		}
		b = Cat(b, Close(1))
	}
	return b
}

// ComplexAck, SimpleAck, Error, Reject and Abort are the headers of replies.
func ComplexAck(invoke, service byte) []byte { return []byte{0x30, invoke, service} }
func SimpleAck(invoke, service byte) []byte  { return []byte{0x20, invoke, service} }
func Reject(invoke, reason byte) []byte      { return []byte{0x60, invoke, reason} }
func Abort(invoke, reason byte) []byte       { return []byte{0x71, invoke, reason} }

// Error is an error reply, with the error enclosed in tags or not.
func Error(invoke, service byte, e ErrVal, enclosed bool) []byte {
	b := []byte{0x50, invoke, service}
	if enclosed {
		return Cat(b, Open(0), e.Enc(), Close(0))
	}
	return Cat(b, e.Enc())
}

// IAm is an announcement.
func IAm(inst, maxAPDU, seg, vendor uint32) []byte {
	return Cat([]byte{0x10, 0}, OID(8, inst).Enc(), Uint(maxAPDU).Enc(), Enum(seg).Enc(), Uint(vendor).Enc())
}

// WhoIs is a query, without a range if low is negative.
func WhoIs(low, high int64) []byte {
	b := []byte{0x10, 8}
	if low >= 0 {
		b = Cat(b, CtxUint(0, uint32(low)), CtxUint(1, uint32(high)))
	}
	return b
}

// ---------------------------------------------------------------- parsing

// Req is a parsed request.
type Req struct {
	Type    byte // PDU type
	Seg     byte // segments and size octet
	Invoke  byte
	Service byte
	Objs    []Obj // of reads and writes
	Low     int64 // of who-is, -1 without a range
	High    int64
	Raw     []byte
}

type parser struct {
	b   []byte
	err error
}

func (p *parser) fail(format string, a ...any) {
	if p.err == nil {
		p.err = fmt.Errorf(format, a...)
		p.b = nil
	}
}

func (p *parser) take(n int) []byte {
	if n < 0 || len(p.b) < n {
		p.fail("%d octets missing", n-len(p.b))
		return make([]byte, max(n, 0)&0xFFFF)
	}
	r := p.b[:n]
	p.b = p.b[n:]
	return r
}

// tag reads a tag: its number, its class, whether it opens (1) or closes (2)
// and its length.
func (p *parser) tag() (num byte, context bool, kind int, length int) {
	f := p.take(1)[0]
	num = f >> 4
	if num == 15 {
		num = p.take(1)[0]
	}
	context = f&8 != 0
	switch f & 7 {
	case 6:
		return num, context, 1, 0
	case 7:
		return num, context, 2, 0
	case 5:
		length = int(p.take(1)[0])
		if length == 254 {
			b := p.take(2)
			length = int(b[0])<<8 | int(b[1])
		} else if length == 255 {
			length = int(binary.BigEndian.Uint32(p.take(4)))
		}
	default:
		length = int(f & 7)
	}
	return num, context, 0, length
}

func (p *parser) peek() (num byte, context bool, kind int) {
	if len(p.b) == 0 {
		return 0, false, -1
	}
	q := *p
	num, context, kind, _ = q.tag()
	return num, context, kind
}

func (p *parser) ctx(num byte) []byte {
	n, c, k, l := p.tag()
	if p.err == nil && (n != num || !c || k != 0) {
		p.fail("expected context tag %d, got %d", num, n)
	}
	return p.take(l)
}

func (p *parser) ctxUint(num byte) uint32 {
	b := p.ctx(num)
	if len(b) < 1 || len(b) > 4 || (len(b) > 1 && b[0] == 0) {
		p.fail("number of %d octets: %x", len(b), b)
		return 0
	}
	n := uint32(0)
	for _, x := range b {
		n = n<<8 | uint32(x)
	}
	return n
}

func (p *parser) oid(num byte) (uint16, uint32) {
	b := p.ctx(num)
	if len(b) != 4 {
		p.fail("object id of %d octets", len(b))
		return 0, 0
	}
	n := binary.BigEndian.Uint32(b)
	return uint16(n >> 22), n & 0x3FFFFF
}

func (p *parser) mark(num byte, kind int) {
	n, _, k, _ := p.tag()
	if n != num || k != kind {
		p.fail("expected mark %d of tag %d, got %d of %d", kind, num, k, n)
	}
}

// vals reads application values up to the closing tag.
func (p *parser) vals(num byte) (out []Val) {
	for p.err == nil {
		n, c, k, l := p.tag()
		if k == 2 && n == num {
			return out
		}
		if c || k != 0 {
			p.fail("context data in a value")
			return
		}
		v := Val{}
		switch n {
		case 0:
			v.K = "null"
		case 1:
			v = Bool(l != 0)
			out = append(out, v)
			continue
		}
		b := p.take(l)
		num := func() (x uint64) {
			for _, o := range b {
				x = x<<8 | uint64(o)
			}
			return
		}
		switch n {
		case 2:
			v = Val{K: "uint", N: num()}
			if len(b) != UintWidth(v.N) {
				p.fail("unsigned of %d octets", len(b))
			}
		case 9:
			v = Val{K: "enum", N: num()}
			if len(b) != UintWidth(v.N) {
				p.fail("enumerated of %d octets", len(b))
			}
		case 3:
			x := int64(num()) << (64 - 8*len(b)) >> (64 - 8*len(b))
			v = Val{K: "int", N: uint64(x)}
			if len(b) != IntWidth(x) {
				p.fail("signed of %d octets", len(b))
			}
		case 4:
			v = Val{K: "real", N: num()}
		case 5:
			v = Val{K: "double", N: num()}
		case 6:
			v = Val{K: "octets", B: b}
		case 7:
			if len(b) == 0 || b[0] != 0 {
				p.fail("string %x", b)
				return
			}
			v = Val{K: "str", B: append([]byte{}, b[1:]...)}
		case 10:
			v = Val{K: "date", B: b}
		case 11:
			v = Val{K: "time", B: b}
		case 12:
			v = Val{K: "oid", N: num()}
		case 0:
		default:
			p.fail("tag %d", n)
		}
		out = append(out, v)
	}
	return out
}

// ParseReq parses the requests the library can send.
func ParseReq(b []byte) (r Req, err error) {
	p := &parser{b: b}
	r.Raw = b
	r.Type = p.take(1)[0]
	switch r.Type {
	case 0x10:
		r.Service = p.take(1)[0]
		if r.Service == 8 {
			r.Low, r.High = -1, -1
			if len(p.b) > 0 {
				r.Low = int64(p.ctxUint(0))
				r.High = int64(p.ctxUint(1))
			}
		} else {
			return r, p.err
		}
	case 0:
		r.Seg = p.take(1)[0]
		r.Invoke = p.take(1)[0]
		r.Service = p.take(1)[0]
		switch r.Service {
		case 12, 15:
			var o Obj
			var pr PropV
			o.Type, o.Inst = p.oid(0)
			pr.ID = p.ctxUint(1)
			pr.Index = ArrayAll
			if n, c, k := p.peek(); n == 2 && c && k == 0 {
				pr.Index = p.ctxUint(2)
			}
			if r.Service == 15 {
				p.mark(3, 1)
				pr.Vals = p.vals(3)
				if len(p.b) > 0 {
					pr.Prio = byte(p.ctxUint(4))
				}
			}
			o.Props = []PropV{pr}
			r.Objs = []Obj{o}
		case 14, 16:
			for p.err == nil && len(p.b) > 0 {
				var o Obj
				o.Type, o.Inst = p.oid(0)
				p.mark(1, 1)
				for p.err == nil {
					n, _, k := p.peek()
					if n == 1 && k == 2 {
						p.mark(1, 2)
						break
					}
					var pr PropV
					pr.ID = p.ctxUint(0)
					pr.Index = ArrayAll
					if n, c, k := p.peek(); n == 1 && c && k == 0 {
						pr.Index = p.ctxUint(1)
					}
					if r.Service == 16 {
						p.mark(2, 1)
						pr.Vals = p.vals(2)
						if n, c, k := p.peek(); n == 3 && c && k == 0 {
							pr.Prio = byte(p.ctxUint(3))
						}
					}
					o.Props = append(o.Props, pr)
				}
				r.Objs = append(r.Objs, o)
			}
		default:
			p.fail("service %d", r.Service)
		}
	default:
		p.fail("PDU type %x", r.Type)
	}
	if p.err == nil && len(p.b) > 0 {
		p.fail("%d octets left over: %x", len(p.b), p.b)
	}
	return r, p.err
}

// Frame is a parsed frame of the library.
type Frame struct {
	Fn   byte
	Net  NPDU
	Req  Req
	APDU []byte
}

// ParseFrame parses a frame the library sent.
func ParseFrame(b []byte) (f Frame, err error) {
	fn, rest, err := ParseBVLC(b)
	if err != nil {
		return f, err
	}
	f.Fn = fn
	f.Net, f.APDU, err = ParseNPDU(rest)
	if err != nil {
		return f, err
	}
	if f.Net.Msg != nil {
		return f, nil
	}
	f.Req, err = ParseReq(f.APDU)
	return f, err
}
