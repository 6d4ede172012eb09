package checks

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"testing"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
)

// number is the content as an unsigned number.
func number(b []byte) (n uint64) {
	for _, x := range b {
		n = n<<8 | uint64(x)
	}
	return
}

// tokVal is the value of a valid tag, not of everything that is unjudged.
func tokVal(k ref.Tok) ref.Val {
	b := k.Body
	switch k.Num {
	case 0:
		return ref.Null()
	case 1:
		return ref.Bool(k.Bool)
	case 2:
		return ref.Uint(uint32(number(b)))
	case 3:
		n := int64(number(b)) << (64 - 8*len(b)) >> (64 - 8*len(b))
		return ref.Int(int32(n))
	case 4:
		return ref.Val{K: "real", N: number(b)}
	case 5:
		return ref.Val{K: "double", N: binary.BigEndian.Uint64(b)}
	case 6:
		return ref.Val{K: "octets", B: b}
	case 7:
		return ref.Val{K: "str", B: b[1:]}
	case 8:
		v := ref.Val{K: "bits"}
		for i := 0; i < (len(b)-1)*8-int(b[0]); i++ {
			v.Bits = append(v.Bits, b[1+i/8]&(0x80>>(i%8)) != 0)
		}
		return v
	case 9:
		return ref.Enum(uint32(number(b)))
	case 10:
		return ref.Val{K: "date", B: b}
	case 11:
		return ref.Val{K: "time", B: b}
	default:
		return ref.Val{K: "oid", N: number(b)}
	}
}

// tokObjs are the objects of a valid reply. Properties with anything but
// application values have no values.
func tokObjs(kind string, ks []ref.Tok) (out []ref.Obj, plain bool) {
	plain = true
	next := func() ref.Tok { k := ks[0]; ks = ks[1:]; return k }
	prop := func(first byte) ref.PropV {
		p := ref.PropV{PropRef: ref.PropRef{ID: uint32(number(next().Body)), Index: ref.ArrayAll}}
		if ks[0].Kind == 0 && ks[0].Num == first {
			p.Index = uint32(number(next().Body))
		}
		next()
		for depth := 0; ; {
			k := next()
			switch {
			case k.Kind == 1:
				depth++
			case k.Kind == 2 && depth == 0:
				return p
			case k.Kind == 2:
				depth--
			case !k.Ctx:
				p.Vals = append(p.Vals, tokVal(k))
				continue
			}
			plain = false
		}
	}
	for len(ks) > 0 {
		n := number(next().Body)
		o := ref.Obj{Type: uint16(n >> 22), Inst: uint32(n & 0x3FFFFF)}
		if kind == "read reply" {
			o.Props = append(o.Props, prop(2))
			return []ref.Obj{o}, plain
		}
		for next(); ks[0].Kind != 2; {
			o.Props = append(o.Props, prop(3))
		}
		next()
		out = append(out, o)
	}
	return out, plain
}

// octetsCase is any octets that are handed to a decoder.
type octetsCase struct {
	Kind string `json:"kind"`
	Data []byte `json:"data"`
}

// run compares what becomes of the octets with what the grammar says.
func (c octetsCase) run() (ref.Verdict, error) {
	kind, b := c.Kind, c.Data
	ks, terr := ref.Toks(b)
	v := ref.Unjudged
	if kind != "network header" {
		v = ref.Judge(kind, ks)
	}
	if terr != nil && kind != "network header" && (v != ref.Invalid || len(ks) == 0) {
		// what comes behind a complete message isn't judged
		whole := ref.Judge(kind, ks[:max(0, len(ks)-1)])
		if v = ref.Invalid; kind != "value" && kind != "read multiple reply" && whole != ref.Invalid {
			v = ref.Unjudged
		}
	}
	for _, k := range ks {
		// opening and closing marks of the application class
		if k.Kind != 0 && !k.Ctx {
			v = ref.Unjudged
		}
	}
	in := clone(b)
	d := encoding.NewDecoder(in)
	var err error
	check := func() error { return nil }
	switch kind {
	case "value":
		var got []any
		for len(d.Bytes()) > 0 && err == nil {
			var x any
			x, err = d.AppData()
			if err = decErr(d, err); err == nil {
				got = append(got, x)
			}
		}
		check = func() error {
			if len(got) != len(ks) {
				return fmt.Errorf("%d values are decoded as %d", len(ks), len(got))
			}
			for i, k := range ks {
				if e := tokVal(k).Same(got[i]); e != nil {
					return e
				}
			}
			return nil
		}
	case "read reply":
		var p btypes.PropertyData
		err = decErr(d, d.ReadProperty(&p))
		check = func() error {
			os, plain := tokObjs(kind, ks)
			return sameObj(os[0], p.Object, plain)
		}
	case "read multiple reply":
		var m btypes.MultiplePropertyData
		err = decErr(d, d.ReadMultiplePropertyAck(&m))
		check = func() error {
			os, plain := tokObjs(kind, ks)
			if len(os) != len(m.Objects) {
				return fmt.Errorf("%d objects are decoded as %d", len(os), len(m.Objects))
			}
			for i := range os {
				if e := sameObj(os[i], m.Objects[i], plain); e != nil {
					return e
				}
			}
			return nil
		}
	case "error":
		var a btypes.APDU
		d = encoding.NewDecoder(ref.Cat([]byte{0x50, 1, 12}, b))
		err = decErr(d, d.APDU(&a))
		check = func() error {
			if ks[0].Kind == 1 {
				ks = ks[1:]
			}
			if uint64(a.Error.Code) != number(ks[1].Body) || uint64(uint16(number(ks[0].Body))) != uint64(uint16(a.Error.Class)) {
				return fmt.Errorf("class %d and code %d", a.Error.Class, a.Error.Code)
			}
			return nil
		}
	case "i-am":
		var i btypes.IAm
		err = decErr(d, d.IAm(&i))
		check = func() error {
			if n := number(ks[0].Body); uint64(i.ID.Type) != n>>22 || uint64(i.ID.Instance) != n&0x3FFFFF || uint64(i.MaxApdu) != number(ks[1].Body) || uint64(i.Segmentation) != number(ks[2].Body) || uint64(i.Vendor) != number(ks[3].Body) {
				return fmt.Errorf("I-Am %+v", i)
			}
			return nil
		}
	case "network header":
		var n btypes.NPDU
		v = ref.Unjudged
		want, rest, werr := ref.ParseNPDU(b)
		var nets []btypes.Address
		nets, err = d.NPDU(&n)
		err = decErr(d, err)
		switch {
		case len(b) > 1 && b[1]&0x50 != 0: // reserved bits
		case werr != nil:
			v = ref.Invalid
		case want.Msg != nil && *want.Msg == 0x13: // network number is
			if v = ref.Valid; len(rest) < 2 {
				v = ref.Invalid
			}
			check = func() error {
				if n.Source == nil || uint64(n.Source.Net) != number(rest[:2]) {
					return fmt.Errorf("network number %d is decoded as %+v", number(rest[:2]), n.Source)
				}
				return sameNPDU(want, n)
			}
		case want.Msg != nil && *want.Msg == 1: // I am router
			if v = ref.Valid; len(rest) == 0 || len(rest)%2 != 0 {
				v = ref.Invalid
			}
			check = func() error {
				var all []uint16
				seen := map[uint16]bool{}
				for i := 0; i < len(rest); i += 2 {
					if x := uint16(number(rest[i : i+2])); !seen[x] {
						seen[x] = true
						all = append(all, x)
					}
				}
				if len(all) != len(nets) {
					return fmt.Errorf("the networks %v are decoded as %v", all, nets)
				}
				for i, x := range all {
					if nets[i].Net != x {
						return fmt.Errorf("the networks %v are decoded as %v", all, nets)
					}
				}
				return sameNPDU(want, n)
			}
		default:
			v = ref.Valid
			check = func() error {
				if string(d.Bytes()) != string(rest) {
					return fmt.Errorf("%x is left instead of %x", d.Bytes(), rest)
				}
				if e := sameNPDU(want, n); e != nil {
					return e
				}
				return sameNet("source", want.Src, n.Source)
			}
		}
	case "who-is":
		var low, high int32
		err = decErr(d, d.WhoIs(&low, &high))
		check = func() error {
			if uint32(low) != uint32(number(ks[0].Body)) || uint32(high) != uint32(number(ks[1].Body)) {
				return fmt.Errorf("range %d to %d", low, high)
			}
			return nil
		}
	}
	if string(in) != string(b) {
		return v, fmt.Errorf("the octets are changed")
	}
	switch {
	case v == ref.Valid && err != nil:
		return v, fmt.Errorf("the %s %x is well formed and refused: %v", kind, b, err)
	case v == ref.Invalid && err == nil:
		return v, fmt.Errorf("the %s %x isn't well formed and accepted", kind, b)
	case v == ref.Valid:
		if e := check(); e != nil {
			return v, fmt.Errorf("the %s %x: %w", kind, b, e)
		}
	}
	return v, nil
}

var octetKinds = []string{"value", "read reply", "read multiple reply", "error", "i-am", "who-is", "network header"}

// genOctets makes a message and damages it anywhere.
func genOctets(kinds ...string) func(t *rapid.T) octetsCase {
	return func(t *rapid.T) octetsCase {
		c := octetsCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch {
		case chance(t, "random", 10):
			c.Data = sliceUpTo(t, "data", rapid.Byte(), 0, 40)
			return c
		case c.Kind == "network header":
			h := genNPDU(t, rapid.Bool().Draw(t, "netmsg"))
			if h.Msg != nil && chance(t, "known", 60) {
				*h.Msg = pick[byte](t, "msg", 1, 1, 0x13)
			}
			c.Data = append(h.Enc(), sliceUpTo(t, "payload", rapid.Byte(), 0, 20)...)
		default:
			c.Data = ref.EncToks(genTokens(t, c.Kind))
		}
		c.Data = mutate(t, c.Data)
		return c
	}
}

func runOctets(r *engine.Rec, c octetsCase) error {
	v, err := c.run()
	r.Hit(v != ref.Unjudged)
	r.Label("%s %s", c.Kind, v)
	return err
}

func init() {
	engine.Add("C14", "any octets", "the grammar says whether the octets are a message", 40000, 2000000, genOctets("value", "read reply", "read multiple reply", "error", "i-am", "who-is"), runOctets)
	engine.Add("C09", "any octets", "the grammar says whether the octets are a header", 15000, 600000, genOctets("network header"), runOctets)
}

// fuzzing runs f with the case. A failing case is written to the file that
// VERIF_FUZZ_OUT names, so that it can be run again without the fuzzer.
func fuzzing[T any](t *testing.T, c T, f func() error) {
	save := func(msg string) {
		b, _ := json.Marshal(map[string]any{"case": c, "message": msg})
		path := os.Getenv("VERIF_FUZZ_OUT")
		if old, err := os.Stat(path); path != "" && (err != nil || old.Size() > int64(len(b))) {
			os.WriteFile(path, b, 0o644)
		}
	}
	defer func() {
		if p := recover(); p != nil {
			save(fmt.Sprint("panic: ", p))
			panic(p)
		}
	}()
	if os.Getenv("VERIF_FUZZ_SAVE") != "" { // the case may take the process down
		b, _ := json.Marshal(map[string]any{"case": c, "message": "the process dies"})
		os.WriteFile(os.Getenv("VERIF_FUZZ_OUT"), b, 0o644)
	}
	if err := f(); err != nil {
		save(err.Error())
		t.Fatal(err)
	}
}

// The coverage-guided searches of the thorough tier.

func FuzzOctets(f *testing.F) {
	for i := range octetKinds {
		f.Add(byte(i), []byte{0x0c, 2, 0, 0, 8, 0x1e, 0x29, 0x55, 0x4e, 0x44, 1, 2, 3, 4, 0x4f, 0x1f})
		f.Add(byte(i), []byte{0x0c, 2, 0, 0, 8, 0x19, 0x55, 0x3e, 0x75, 5, 0, 1, 2, 3, 4, 0x3f})
		f.Add(byte(i), []byte{0xc4, 2, 0, 0, 8, 0x22, 4, 0, 0x91, 3, 0x21, 9})
		f.Add(byte(i), []byte{1, 0xA8, 0, 2, 1, 7, 0, 3, 2, 1, 2, 9, 1, 0, 1, 0, 2})
	}
	kinds := octetKinds[:len(octetKinds)-1]
	if os.Getenv("VERIF_PROP") == "C09" {
		kinds = octetKinds[len(octetKinds)-1:]
	}
	f.Fuzz(func(t *testing.T, k byte, b []byte) {
		c := octetsCase{Kind: kinds[int(k)%len(kinds)], Data: b}
		fuzzing(t, c, func() error { _, err := c.run(); return err })
	})
}

func FuzzHostile(f *testing.F) {
	for i := range decoders {
		f.Add(byte(i), int64(7), []byte{0x0c, 2, 0, 0, 8, 0x1e, 0x29, 0x55, 0x4e, 0x44, 1, 2, 3, 4, 0x4f, 0x1f})
		f.Add(byte(i), int64(300), []byte{0x50, 1, 2, 0x91, 1, 0x91, 2})
		f.Add(byte(i), int64(2)<<40|4, []byte{1, 0xA8, 0, 2, 1, 7, 0, 3, 2, 1, 2, 9, 1, 0, 1, 0, 2})
	}
	f.Fuzz(func(t *testing.T, k byte, n int64, b []byte) {
		c := hostileCase{Dec: decoders[int(k)%len(decoders)].name, N: n, Data: b}
		fuzzing(t, c, func() error { return c.run(nil) })
	})
}
