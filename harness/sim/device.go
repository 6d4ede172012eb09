package sim

import (
	"sort"
	"sync"

	"verif/ref"
)

// Key names a property of an object.
type Key struct {
	Type uint16
	Inst uint32
	Prop uint32
}

// Write is a write that a device executed or refused.
type Write struct {
	Key
	Index uint32
	Vals  []ref.Val
	Prio  byte
}

// Device answers requests from its properties.
type Device struct {
	mu     sync.Mutex
	Inst   uint32
	Props  map[Key][]ref.Val
	Arrays map[Key]bool // properties that have elements
	// Errs are the properties whose access fails
	Errs map[Key]ref.ErrVal
	// NoWhole are the arrays that can't be read as a whole
	NoWhole map[Key]ref.ErrVal
	Writes  []Write
	Reads   []Key
	// Enclosed says in which form errors are sent
	Enclosed bool
}

// NewDevice returns a device with its object.
func NewDevice(inst uint32) *Device {
	return &Device{Inst: inst, Props: map[Key][]ref.Val{}, Arrays: map[Key]bool{}, Errs: map[Key]ref.ErrVal{}, NoWhole: map[Key]ref.ErrVal{}, Enclosed: true}
}

// Set sets a property.
func (d *Device) Set(t uint16, inst, prop uint32, vals ...ref.Val) {
	d.Props[Key{t, inst, prop}] = vals
}

// SetArray sets a property that has elements.
func (d *Device) SetArray(t uint16, inst, prop uint32, vals ...ref.Val) {
	d.Set(t, inst, prop, vals...)
	d.Arrays[Key{t, inst, prop}] = true
}

func (d *Device) read(o ref.Obj, p ref.PropRef) ([]ref.Val, *ref.ErrVal) {
	if o.Type == 8 && o.Inst == 0x3FFFFF {
		o.Inst = d.Inst
	}
	k := Key{o.Type, o.Inst, p.ID}
	d.Reads = append(d.Reads, k)
	if e, ok := d.Errs[k]; ok {
		return nil, &e
	}
	v, ok := d.Props[k]
	if !ok {
		for x := range d.Props {
			if x.Type == k.Type && x.Inst == k.Inst {
				return nil, &ref.ErrVal{Class: 2, Code: 32}
			}
		}
		return nil, &ref.ErrVal{Class: 1, Code: 31}
	}
	if p.Index == ref.ArrayAll {
		if e, ok := d.NoWhole[k]; ok {
			return nil, &e
		}
		return v, nil
	}
	if !d.Arrays[k] {
		return nil, &ref.ErrVal{Class: 2, Code: 50}
	}
	if p.Index == 0 {
		return []ref.Val{ref.Uint(uint32(len(v)))}, nil
	}
	if int64(p.Index) > int64(len(v)) {
		return nil, &ref.ErrVal{Class: 2, Code: 42}
	}
	return v[p.Index-1 : p.Index], nil
}

// Answer returns the reply to a confirmed request.
func (d *Device) Answer(r ref.Req) []byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	switch r.Service {
	case 12:
		o := r.Objs[0]
		p := &o.Props[0]
		v, e := d.read(o, p.PropRef)
		if e != nil {
			return ref.Error(r.Invoke, 12, *e, d.Enclosed)
		}
		p.Vals = v
		return ref.ReadAck(r.Invoke, o)
	case 14:
		for i := range r.Objs {
			for j := range r.Objs[i].Props {
				p := &r.Objs[i].Props[j]
				v, e := d.read(r.Objs[i], p.PropRef)
				p.Vals, p.Err = v, e
			}
		}
		return ref.ReadMultiAck(r.Invoke, r.Objs)
	case 15, 16:
		for _, o := range r.Objs {
			for _, p := range o.Props {
				k := Key{o.Type, o.Inst, p.ID}
				d.Writes = append(d.Writes, Write{k, p.Index, p.Vals, p.Prio})
				if e, ok := d.Errs[k]; ok {
					return ref.Error(r.Invoke, r.Service, e, d.Enclosed)
				}
			}
		}
		return ref.SimpleAck(r.Invoke, r.Service)
	}
	return ref.Reject(r.Invoke, 9)
}

// Written returns the writes that were received.
func (d *Device) Written() []Write {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]Write{}, d.Writes...)
}

// ReadLog returns the properties that were read, sorted.
func (d *Device) ReadLog() []Key {
	d.mu.Lock()
	defer d.mu.Unlock()
	ks := append([]Key{}, d.Reads...)
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Type != ks[j].Type {
			return ks[i].Type < ks[j].Type
		}
		return ks[i].Inst < ks[j].Inst
	})
	return ks
}

// Reply puts an application reply into a frame.
func Reply(src *ref.Net, apdu []byte) []byte {
	n := ref.NPDU{Version: 1, Src: src}
	return ref.BVLC(0x0A, ref.Cat(n.Enc(), apdu))
}

// Forget forgets what was read and written.
func (d *Device) Forget() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Reads, d.Writes = nil, nil
}
