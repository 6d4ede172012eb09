// Package sim has what the client talks to in the checks: a data link in memory
// and devices that answer from a model.
package sim

import (
	"bytes"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/NubeDev/bacnet/btypes"
)

// Frame is a frame that the client transmitted.
type Frame struct {
	At   time.Duration
	Data []byte
	Dest btypes.Address
}

type datagram struct {
	src  btypes.Address
	data []byte
}

// Link is a data link in memory. Like UDP it cuts datagrams that don't fit the
// receiver's buffer and ends a blocked receive when it is closed.
type Link struct {
	start  time.Time
	my, bc *btypes.Address

	mu     sync.Mutex
	frames []Frame
	rx     chan datagram
	done   chan struct{}
	closed bool

	// Forget is set if the frames needn't be kept
	Forget bool
	// OnSend is called with each frame, within Send
	OnSend func(f Frame) error
	// SendTakes is how long it takes until Send returns
	SendTakes time.Duration
}

// ErrClosed is returned by a closed link.
var ErrClosed = errors.New("use of closed link")

// NewLink returns a link.
func NewLink() *Link {
	my, bc := myAddress(), broadcastAddress()
	return &Link{start: time.Now(), my: &my, bc: &bc, rx: make(chan datagram, 4096), done: make(chan struct{})}
}

func myAddress() btypes.Address { return IP(192, 168, 1, 10, 47808) }

func broadcastAddress() btypes.Address { return IP(192, 168, 1, 255, 47808) }

// IP returns the address of a BACnet/IP node.
func IP(a, b, c, d byte, port uint16) btypes.Address {
	return btypes.Address{MacLen: 6, Mac: []byte{a, b, c, d, byte(port >> 8), byte(port)}}
}

// Now is the time since the link was made.
func (l *Link) Now() time.Duration { return time.Since(l.start) }

// GetMyAddress returns the address of the link itself, as the UDP link does.
func (l *Link) GetMyAddress() *btypes.Address { return l.my }

// GetBroadcastAddress returns the address of the link itself, too.
func (l *Link) GetBroadcastAddress() *btypes.Address { return l.bc }

// CheckAddresses returns an error if the client changed the link's addresses.
func (l *Link) CheckAddresses() error {
	for _, a := range [][2]btypes.Address{{*l.my, myAddress()}, {*l.bc, broadcastAddress()}} {
		got, want := a[0], a[1]
		if got.Net != want.Net || got.Len != want.Len || got.MacLen != want.MacLen || !bytes.Equal(got.Mac, want.Mac) || len(got.Adr) > 0 {
			return fmt.Errorf("the link's own address %+v becomes %+v", want, got)
		}
	}
	return nil
}

// Send records the frame.
func (l *Link) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	f := Frame{At: l.Now(), Data: append([]byte{}, data...), Dest: *dest}
	f.Dest.Mac = append([]byte{}, dest.Mac...)
	f.Dest.Adr = append([]byte{}, dest.Adr...)
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return 0, ErrClosed
	}
	if !l.Forget {
		l.frames = append(l.frames, f)
	}
	l.mu.Unlock()
	if l.OnSend != nil {
		if err := l.OnSend(f); err != nil {
			return 0, err
		}
	}
	if l.SendTakes > 0 {
		time.Sleep(l.SendTakes)
	}
	return len(data), nil
}

// Frames returns what was transmitted so far.
func (l *Link) Frames() []Frame {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Frame{}, l.frames...)
}

// Inject hands a datagram to the client.
func (l *Link) Inject(src btypes.Address, data []byte) {
	src.Mac = append([]byte{}, src.Mac...)
	select {
	case l.rx <- datagram{src, append([]byte{}, data...)}:
	case <-l.done:
	}
}

// InjectLater hands a datagram to the client after a while.
func (l *Link) InjectLater(after time.Duration, src btypes.Address, data []byte) {
	if after == 0 {
		l.Inject(src, data)
		return
	}
	time.AfterFunc(after, func() { l.Inject(src, data) })
}

// Receive waits for a datagram.
func (l *Link) Receive(data []byte) (*btypes.Address, int, error) {
	select {
	case <-l.done:
		return nil, 0, ErrClosed
	default:
	}
	select {
	case d := <-l.rx:
		n := copy(data, d.data)
		src := d.src
		return &src, n, nil
	case <-l.done:
		return nil, 0, ErrClosed
	}
}

// Close ends everything.
func (l *Link) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return ErrClosed
	}
	l.closed = true
	close(l.done)
	return nil
}
