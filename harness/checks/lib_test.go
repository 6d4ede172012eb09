package checks

import (
	"bytes"
	"fmt"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"

	"verif/ref"
)

// toObj converts to the structures of the library.
func toObj(o ref.Obj) btypes.Object {
	r := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(o.Type), Instance: btypes.ObjectInstance(o.Inst)}}
	for _, p := range o.Props {
		q := btypes.Property{Type: btypes.PropertyType(p.ID), ArrayIndex: p.Index, Priority: btypes.NPDUPriority(p.Prio)}
		if len(p.Vals) == 1 {
			q.Data, _ = p.Vals[0].In()
		} else if len(p.Vals) > 1 {
			var l []interface{}
			for _, v := range p.Vals {
				d, _ := v.In()
				l = append(l, d)
			}
			q.Data = l
		}
		r.Properties = append(r.Properties, q)
	}
	return r
}

func toPD(o ref.Obj) btypes.PropertyData { return btypes.PropertyData{Object: toObj(o)} }

func toMPD(os []ref.Obj) (m btypes.MultiplePropertyData) {
	for _, o := range os {
		m.Objects = append(m.Objects, toObj(o))
	}
	return m
}

// sameObj compares what was decoded with what was sent.
func sameObj(want ref.Obj, got btypes.Object, values bool) error {
	if uint16(got.ID.Type) != want.Type || uint32(got.ID.Instance) != want.Inst {
		return fmt.Errorf("object %d:%d decoded as %d:%d", want.Type, want.Inst, got.ID.Type, got.ID.Instance)
	}
	if len(got.Properties) != len(want.Props) {
		return fmt.Errorf("object %d:%d with %d properties decoded with %d", want.Type, want.Inst, len(want.Props), len(got.Properties))
	}
	for i, p := range want.Props {
		g := got.Properties[i]
		if uint32(g.Type) != p.ID || g.ArrayIndex != p.Index {
			return fmt.Errorf("property %d: %d[%d] decoded as %d[%d]", i, p.ID, p.Index, g.Type, g.ArrayIndex)
		}
		if values && p.Raw == nil {
			if err := ref.SameList(p.Vals, g.Data); err != nil {
				return fmt.Errorf("property %d of object %d:%d: %w", p.ID, want.Type, want.Inst, err)
			}
		}
	}
	return nil
}

func sameBytes(what string, want, got []byte) error {
	if !bytes.Equal(want, got) {
		return fmt.Errorf("%s: got  %x\nwant %x", what, got, want)
	}
	return nil
}

// encErr is the error of an encoder, kept or returned.
func encErr(e *encoding.Encoder, err error) error {
	if err != nil {
		return err
	}
	return e.Error()
}

func decErr(d *encoding.Decoder, err error) error {
	if err != nil {
		return err
	}
	return d.Error()
}

func clone(b []byte) []byte { return append([]byte{}, b...) }
