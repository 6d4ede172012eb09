package ref

import (
	"encoding/hex"
	"testing"
)

// Examples from annex F of the standard.
func TestExamples(t *testing.T) {
	for _, c := range []struct {
		got  []byte
		want string
	}{
		{ReadReq(1, Obj{Type: 0, Inst: 5, Props: []PropV{{PropRef: PropRef{85, ArrayAll}}}}), "0005010c0c000000051955"},
		{ReadAck(1, Obj{Type: 0, Inst: 5, Props: []PropV{{PropRef: PropRef{85, ArrayAll}, Vals: []Val{Real(72.3)}}}}), "30010c0c0000000519553e444290999a3f"},
		{WriteReq(0x59, Obj{Type: 2, Inst: 1, Props: []PropV{{PropRef: PropRef{85, ArrayAll}, Vals: []Val{Real(180)}}}}), "0005590f0c0080000119553e44433400003f"},
		{Uint(72).Enc(), "2148"}, {Int(72).Enc(), "3148"}, {Real(72).Enc(), "4442900000"}, {Double(72).Enc(), "55084052000000000000"},
		{Val{K: "octets", B: []byte{0x12, 0x34, 0xff}}.Enc(), "631234ff"},
		{Str("This is a BACnet string!").Enc(), "75190054686973206973206120424143 6e657420737472696e6721"},
		{Val{K: "bits", Bits: []bool{true, false, true, false, true}}.Enc(), "8203a8"},
		{Enum(0).Enc(), "9100"}, {Val{K: "date", B: []byte{0x5b, 1, 24, 4}}.Enc(), "a45b011804"},
		{OID(3, 15).Enc(), "c400c0000f"}, {Bool(true).Enc(), "11"}, {Null().Enc(), "00"},
		{WhoIs(3, 3), "100809031903"}, {IAm(1, 480, 3, 99), "1000c4020000012201e091032163"},
		{Error(0x53, 12, ErrVal{0, 31}, false), "50530c9100911f"},
		{Int(-129).Enc(), "32ff7f"}, {Int(-128).Enc(), "3180"}, {Int(128).Enc(), "320080"}, {Int(-8388609).Enc(), "34ff7fffff"},
	} {
		w := ""
		for _, r := range c.want {
			if r != ' ' {
				w += string(r)
			}
		}
		if h := hex.EncodeToString(c.got); h != w {
			t.Errorf("got %s want %s", h, w)
		}
	}
}
