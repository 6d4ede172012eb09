package checks

import (
	"math"
	"testing"

	"pgregory.net/rapid"

	"verif/engine"
	"verif/ref"
)

func TestProp(t *testing.T) { engine.Main(t) }

// ---------------------------------------------------------------- generators

// kinds the encoder supports, and all kinds there are
var encodable = []string{"null", "bool", "uint", "int", "real", "double", "str", "enum", "oid"}
var allKinds = append([]string{"octets", "ucs2", "bits", "date", "time"}, encodable...)

func pick[T any](t *rapid.T, label string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, label) }

func chance(t *rapid.T, label string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) < percent
}

// genU32 prefers the numbers around the sizes that matter.
func genU32(t *rapid.T, label string) uint32 {
	switch rapid.IntRange(0, 3).Draw(t, label+"/how") {
	case 0:
		return uint32(rapid.Uint8().Draw(t, label))
	case 1:
		sh := rapid.IntRange(0, 32).Draw(t, label+"/bit")
		d := rapid.IntRange(-2, 2).Draw(t, label+"/off")
		return uint32(int64(1)<<sh + int64(d))
	case 2:
		return rapid.Uint32().Draw(t, label)
	default:
		return rapid.Uint32Range(0, 1<<rapid.IntRange(1, 31).Draw(t, label+"/max")).Draw(t, label)
	}
}

func genI32(t *rapid.T, label string) int32 {
	switch rapid.IntRange(0, 2).Draw(t, label+"/how") {
	case 0:
		return int32(rapid.Int8().Draw(t, label))
	case 1:
		sh := rapid.IntRange(0, 31).Draw(t, label+"/bit")
		d := rapid.IntRange(-2, 2).Draw(t, label+"/off")
		n := int64(1)<<sh + int64(d)
		if rapid.Bool().Draw(t, label+"/neg") {
			n = -n
		}
		return int32(n)
	default:
		return rapid.Int32().Draw(t, label)
	}
}

func genText(t *rapid.T, label string, most int) string {
	switch rapid.IntRange(0, 9).Draw(t, label+"/how") {
	case 0:
		return ""
	case 1: // around the boundaries of the length forms
		n := pick(t, label+"/len", 2, 3, 4, 5, 251, 252, 253, 254, 255, 256, 257)
		return string(make([]byte, 0)) + repeat('a', min(n, most))
	case 2, 3:
		return rapid.StringN(0, min(40, most), most).Draw(t, label)
	default:
		return rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ 019_-.")), 0, min(30, most), most).Draw(t, label)
	}
}

func repeat(b byte, n int) string {
	x := make([]byte, n)
	for i := range x {
		x[i] = b
	}
	return string(x)
}

// genVal generates a value of one of the kinds.
func genVal(t *rapid.T, label string, kinds []string) ref.Val { return genValN(t, label, kinds, 300) }

func genValN(t *rapid.T, label string, kinds []string, most int) ref.Val {
	v := ref.Val{K: rapid.SampledFrom(kinds).Draw(t, label+"/kind")}
	switch v.K {
	case "bool":
		if rapid.Bool().Draw(t, label) {
			v.N = 1
		}
	case "uint", "enum":
		v.N = uint64(genU32(t, label))
	case "int":
		v.N = uint64(int64(genI32(t, label)))
	case "real":
		switch rapid.IntRange(0, 2).Draw(t, label+"/how") {
		case 0:
			v.N = uint64(math.Float32bits(rapid.Float32().Draw(t, label)))
		case 1:
			v.N = uint64(math.Float32bits(pick(t, label, 0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 1, 72.3, 42.2, math.MaxFloat32, math.SmallestNonzeroFloat32)))
		default:
			v.N = uint64(rapid.Uint32().Draw(t, label))
		}
	case "double":
		switch rapid.IntRange(0, 2).Draw(t, label+"/how") {
		case 0:
			v.N = math.Float64bits(rapid.Float64().Draw(t, label))
		case 1:
			v.N = math.Float64bits(pick(t, label, 0, math.Copysign(0, -1), math.Inf(1), math.NaN(), 1, 42.5, math.MaxFloat64, math.SmallestNonzeroFloat64))
		default:
			v.N = rapid.Uint64().Draw(t, label)
		}
	case "octets":
		v.B = sliceUpTo(t, label, rapid.Byte(), 0, min(300, most))
	case "str":
		v.B = []byte(genText(t, label, most))
		if chance(t, label+"/any", 10) { // not UTF-8
			v.B = rapid.SliceOfN(rapid.Byte(), 0, min(12, most)).Draw(t, label+"/octets")
		}
	case "ucs2":
		r := sliceUpTo(t, label, rapid.OneOf(rapid.Int32Range(0, 0xD7FF), rapid.Int32Range(0xE000, 0xFFFD), rapid.Int32Range(32, 126)), 0, min(40, most/2))
		if chance(t, label+"/mark", 8) {
			r = append([]int32{pick[int32](t, label+"/first", 0xFEFF, 0xFFFE, 0xFFFD)}, r...)
		}
		v.B = []byte(string(r))
	case "bits":
		v.Bits = sliceUpTo(t, label, rapid.Bool(), 0, 120)
		if chance(t, label+"/exact", 25) {
			n := pick(t, label+"/len", 0, 1, 7, 8, 9, 15, 16, 17, 111, 112, 113, 119, 120)
			v.Bits = rapid.SliceOfN(rapid.Bool(), n, n).Draw(t, label+"/bits")
		}
	case "date":
		v.B = genDate(t, label)
	case "time":
		v.B = genTime(t, label)
	case "oid":
		v.N = uint64(rapid.Uint32Range(0, 1023).Draw(t, label+"/type"))<<22 | uint64(genInst(t, label+"/inst"))
	}
	return v
}

func genDate(t *rapid.T, label string) []byte {
	return []byte{
		rapid.OneOf(rapid.Byte(), rapid.Just[byte](255)).Draw(t, label+"/year"),
		rapid.OneOf(rapid.ByteRange(1, 14), rapid.Just[byte](255)).Draw(t, label+"/month"),
		rapid.OneOf(rapid.ByteRange(1, 34), rapid.Just[byte](255)).Draw(t, label+"/day"),
		rapid.OneOf(rapid.ByteRange(1, 7), rapid.Just[byte](255)).Draw(t, label+"/dow"),
	}
}

func genTime(t *rapid.T, label string) []byte {
	x := rapid.Just[byte](255)
	return []byte{
		rapid.OneOf(rapid.ByteRange(0, 23), rapid.ByteRange(0, 23), x).Draw(t, label+"/h"),
		rapid.OneOf(rapid.ByteRange(0, 59), rapid.ByteRange(0, 59), x).Draw(t, label+"/m"),
		rapid.OneOf(rapid.ByteRange(0, 59), rapid.ByteRange(0, 59), x).Draw(t, label+"/s"),
		rapid.OneOf(rapid.ByteRange(0, 99), rapid.ByteRange(0, 99), x).Draw(t, label+"/hs"),
	}
}

// genInst generates the instance of an object.
func genInst(t *rapid.T, label string) uint32 {
	return rapid.OneOf(rapid.Uint32Range(0, 300), rapid.Uint32Range(0, 0x3FFFFF), rapid.SampledFrom([]uint32{0, 255, 256, 65535, 65536, 0x3FFFFE, 0x3FFFFF})).Draw(t, label)
}

// genObjType generates the type of an object.
func genObjType(t *rapid.T, label string) uint16 {
	return uint16(rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 5, 8, 10, 13, 14, 15, 19, 20, 40}), rapid.Uint32Range(0, 1023), rapid.SampledFrom([]uint32{127, 128, 129, 1023})).Draw(t, label))
}

// genPropID generates a property identifier.
func genPropID(t *rapid.T, label string) uint32 {
	return rapid.OneOf(rapid.SampledFrom([]uint32{85, 77, 28, 76, 87, 117, 0, 8, 254, 255, 256}), rapid.SampledFrom([]uint32{2, 53, 38, 132, 211, 102, 152, 212, 214, 218, 123, 130}), rapid.Uint32Range(0, 511), rapid.Uint32Range(0, 4194303), rapid.SampledFrom([]uint32{65535, 65536, 4194303})).Draw(t, label)
}

func genIndex(t *rapid.T, label string) uint32 {
	if rapid.Bool().Draw(t, label+"/all") {
		return ref.ArrayAll
	}
	return genU32(t, label)
}

func genRef(t *rapid.T, label string) ref.PropRef {
	return ref.PropRef{ID: genPropID(t, label+"/id"), Index: genIndex(t, label+"/idx")}
}

// genObjs generates objects with properties, without values.
func genObjs(t *rapid.T, maxObjs, maxProps int) []ref.Obj {
	n := rapid.IntRange(1, maxObjs).Draw(t, "objects")
	os := make([]ref.Obj, n)
	for i := range os {
		os[i] = ref.Obj{Type: genObjType(t, "type"), Inst: genInst(t, "inst")}
		for j := rapid.IntRange(1, maxProps).Draw(t, "props"); j > 0; j-- {
			os[i].Props = append(os[i].Props, ref.PropV{PropRef: genRef(t, "prop")})
		}
	}
	return os
}

// genVals generates a list of values.
func genVals(t *rapid.T, kinds []string, most int) []ref.Val {
	n := 1
	if chance(t, "list", 35) {
		n = rapid.IntRange(0, most).Draw(t, "n")
	}
	vs := make([]ref.Val, n)
	for i := range vs {
		vs[i] = genValN(t, "v", kinds, 60)
	}
	return vs
}

// sliceUpTo generates a slice. Those of rapid are hardly ever long, so half of
// them get a length of their own.
func sliceUpTo[T any](t *rapid.T, label string, g *rapid.Generator[T], least, most int) []T {
	if rapid.Bool().Draw(t, label+"/sized") {
		least = rapid.IntRange(least, most).Draw(t, label+"/length")
		most = least
	}
	return rapid.SliceOfN(g, least, most).Draw(t, label)
}
