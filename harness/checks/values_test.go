package checks

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"

	"verif/engine"
	"verif/ref"
)

type valuesCase struct {
	Vals  []ref.Val `json:"vals"`
	Trail []byte    `json:"trail"`
}

func genValuesCase(kinds []string, widths bool) func(t *rapid.T) valuesCase {
	return func(t *rapid.T) valuesCase {
		var c valuesCase
		n := rapid.IntRange(1, 5).Draw(t, "n")
		for i := 0; i < n; i++ {
			v := genVal(t, "v", kinds)
			if widths && (v.K == "uint" || v.K == "int" || v.K == "enum") {
				v.W = rapid.IntRange(0, 4).Draw(t, "w")
			}
			c.Vals = append(c.Vals, v)
		}
		c.Trail = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "trail")
		return c
	}
}

// decodeAll decodes the values and checks that exactly their octets are used.
func decodeAll(vals []ref.Val, octets, trail []byte) error {
	in := ref.Cat(octets, trail)
	d := encoding.NewDecoder(clone(in))
	at := 0
	for i, v := range vals {
		got, err := d.AppData()
		if err := decErr(d, err); err != nil {
			return fmt.Errorf("value %d %s (%x) is refused: %v", i, v, v.Enc(), err)
		}
		if err := v.Same(got); err != nil {
			return fmt.Errorf("value %d (%x): %w", i, v.Enc(), err)
		}
		at += len(v.Enc())
		if err := sameBytes(fmt.Sprintf("octets left after value %d %s", i, v), in[at:], d.Bytes()); err != nil {
			return err
		}
	}
	return nil
}

func labelVals(r *engine.Rec, vals []ref.Val) {
	for _, v := range vals {
		r.Label("kind=%s", v.K)
		c := len(v.Content())
		r.LabelIf(c > 4 && c < 254, "length octet")
		r.LabelIf(c >= 254, "length 254+")
		r.LabelIf(v.K == "int" && int64(v.N) < 0, "negative")
	}
}

// interesting says that the values aren't just small ones of a single octet.
func interesting(vals []ref.Val) bool {
	for _, v := range vals {
		if len(v.Content()) > 1 || (v.K == "int" && int64(v.N) < 0) {
			return true
		}
	}
	return false
}

type longCase struct {
	Len int  `json:"len"`
	Oct bool `json:"oct,omitempty"`
	// Seed of the content, all the same if it is 0
	Seed uint32 `json:"seed,omitempty"`
}

func (c longCase) content() []byte {
	b := []byte(repeat('q', c.Len))
	x := c.Seed
	for i := range b {
		if c.Seed == 0 {
			break
		}
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
		if !c.Oct {
			b[i] &= 0x7F
		}
	}
	if n := len(b); n > 0 && c.Seed%4 == 1 {
		b[n-1] = 0
	}
	return b
}

type refusedCase struct {
	Kind string `json:"kind"`
	N    uint32 `json:"n"`
	BO   bool   `json:"bo"`
}

func init() {
	engine.Add("C01", "encode", "at least one value has more than one content octet or is negative", 20000, 600000,
		genValuesCase(encodable, false),
		func(r *engine.Rec, c valuesCase) error {
			labelVals(r, c.Vals)
			r.Hit(interesting(c.Vals))
			e := encoding.NewEncoder()
			var want []byte
			for i, v := range c.Vals {
				in, ok := v.In()
				if !ok {
					panic("not encodable " + v.String())
				}
				if err := encErr(e, e.AppData(in, false)); err != nil {
					return fmt.Errorf("encoding %s failed: %v", v, err)
				}
				want = append(want, v.Enc()...)
				if err := sameBytes(fmt.Sprintf("octets of value %d %s", i, v), want, e.Bytes()); err != nil {
					return err
				}
			}
			return decodeAll(c.Vals, clone(e.Bytes()), c.Trail)
		})

	engine.Add("C01", "long strings", "the string needs an extended length form", 150, 3000,
		func(t *rapid.T) longCase {
			return longCase{Len: rapid.OneOf(rapid.IntRange(0, 700), rapid.IntRange(65530, 65540), rapid.IntRange(0, 200000)).Draw(t, "len"), Seed: rapid.Uint32().Draw(t, "seed")}
		},
		func(r *engine.Rec, c longCase) error {
			v := ref.Val{K: "str", B: c.content()}
			r.Hit(c.Len > 252)
			r.LabelIf(c.Len > 65534, "32 bit length")
			e := encoding.NewEncoder()
			in, _ := v.In()
			if err := encErr(e, e.AppData(in, false)); err != nil {
				return fmt.Errorf("encoding failed: %v", err)
			}
			if err := sameBytes("octets", v.Enc()[:min(12, len(v.Enc()))], e.Bytes()[:min(12, len(e.Bytes()))]); err != nil {
				return err
			}
			if len(e.Bytes()) != len(v.Enc()) {
				return fmt.Errorf("%d octets instead of %d", len(e.Bytes()), len(v.Enc()))
			}
			return decodeAll([]ref.Val{v}, clone(e.Bytes()), []byte{0x21})
		})

	engine.Add("C01", "unsupported values are refused", "every case", 2000, 40000,
		func(t *rapid.T) refusedCase {
			return refusedCase{
				Kind: pick(t, "kind", "int", "int64", "uint8", "uint16", "uint64", "int8", "int16", "bytes", "nil", "struct", "bits", "date", "time", "map", "ptr", "strings", "oidtype", "oidinst", "uint"),
				N:    genU32(t, "n"), BO: rapid.Bool().Draw(t, "bo")}
		},
		func(r *engine.Rec, c refusedCase) error {
			v := unsupported(c.Kind, c.N)
			if v == nil && c.Kind != "nil" {
				return nil
			}
			r.Label("kind=%s", c.Kind)
			r.Hit(true)
			e := encoding.NewEncoder()
			if err := encErr(e, e.AppData(v, c.BO && c.Kind != "oidtype" && c.Kind != "oidinst")); err == nil {
				return fmt.Errorf("a value of type %T (%v) was encoded as %x", v, v, e.Bytes())
			}
			return nil
		})

	engine.Add("C02", "decode", "at least one value has more than one content octet or is negative", 25000, 800000,
		genValuesCase(allKinds, true),
		func(r *engine.Rec, c valuesCase) error {
			labelVals(r, c.Vals)
			r.Hit(interesting(c.Vals))
			for _, v := range c.Vals {
				r.LabelIf(v.K == "date" && v.B[0] == 255, "unspecified year")
				r.LabelIf(v.W > 0, "forced width")
				r.LabelIf(v.K == "bits" && len(v.Bits)%8 != 0, "unused bits")
			}
			return decodeAll(c.Vals, ref.EncAll(c.Vals), c.Trail)
		})

	engine.Add("C02", "long values", "the value needs an extended length form", 150, 3000,
		func(t *rapid.T) longCase {
			return longCase{Len: rapid.OneOf(rapid.IntRange(0, 1500), rapid.IntRange(65530, 65540), rapid.IntRange(0, 100000)).Draw(t, "len"), Oct: rapid.Bool().Draw(t, "oct"), Seed: rapid.Uint32().Draw(t, "seed")}
		},
		func(r *engine.Rec, c longCase) error {
			v := ref.Val{K: "str", B: c.content()}
			if c.Oct {
				v.K = "octets"
			}
			r.Hit(c.Len > 252)
			if err := decodeAll([]ref.Val{v}, v.Enc(), []byte{0x21}); err != nil {
				return fmt.Errorf("length %d: %.300s", c.Len, err.Error())
			}
			return nil
		})

	engine.Add("C02", "special dates", "a special month or day", 600, 6000,
		func(t *rapid.T) int { return rapid.IntRange(0, 260).Draw(t, "n") },
		func(r *engine.Rec, n int) error {
			r.Hit(n >= 13 && n <= 14 || n >= 32 && n <= 34)
			// Clause 20.2.12: 13 odd months, 14 even months, 32 last day, 33 odd days, 34 even days
			for _, c := range []struct {
				name string
				got  bool
				at   int
			}{
				{"odd month", encoding.IsOddMonth(n), 13}, {"even month", encoding.IsEvenMonth(n), 14},
				{"last day", encoding.IsLastDayOfMonth(n), 32}, {"odd day", encoding.IsOddDayOfMonth(n), 33}, {"even day", encoding.IsEvenDayOfMonth(n), 34},
			} {
				if c.got != (n == c.at) {
					return fmt.Errorf("%d is taken for %s: %v", n, c.name, c.got)
				}
			}
			return nil
		})
}

// unsupported is a value that can't be expressed as application data.
func unsupported(kind string, n uint32) any {
	switch kind {
	case "int":
		return int(n)
	case "int64":
		return int64(n)
	case "uint8":
		return uint8(n)
	case "uint16":
		return uint16(n)
	case "uint64":
		return uint64(n)
	case "int8":
		return int8(n)
	case "int16":
		return int16(n)
	case "uint":
		return uint(n)
	case "bytes":
		return []byte{byte(n)}
	case "nil":
		return nil
	case "struct":
		return struct{ A uint32 }{n}
	case "bits":
		return btypes.NewBitString(2)
	case "date":
		return btypes.Date{Year: 2020, Month: 1, Day: 1}
	case "time":
		return btypes.Time{Hour: 3}
	case "map":
		return map[string]int{"a": int(n)}
	case "ptr":
		return &n
	case "strings":
		return []string{"a"}
	case "oidtype":
		return btypes.ObjectID{Type: btypes.ObjectType(1024 + n%64000), Instance: 1}
	case "oidinst":
		return btypes.ObjectID{Type: 1, Instance: btypes.ObjectInstance(0x400000 + n%0xFFC00000)}
	}
	return nil
}
