package checks

import (
	"errors"
	"fmt"
	"net"
	"os"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/datalink"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/sim"
)

// ---------------------------------------------------------------- K13

// linkConf says how a data link is made.
type linkConf struct {
	IP     [4]byte `json:"ip"`
	Prefix int     `json:"prefix"`
	FromIP bool    `json:"from_ip"`
}

func (c linkConf) text() string {
	return fmt.Sprintf("%d.%d.%d.%d", c.IP[0], c.IP[1], c.IP[2], c.IP[3])
}

func (c linkConf) open(port int) (datalink.DataLink, error) {
	if c.FromIP {
		return datalink.NewUDPDataLinkFromIP(c.text(), c.Prefix, port)
	}
	return datalink.NewUDPDataLink(fmt.Sprintf("%s/%d", c.text(), c.Prefix), port)
}

// opened opens the link on a free port.
func (c linkConf) opened() (l datalink.DataLink, port int, err error) {
	for try := 0; try < 6; try++ {
		port = freePort()
		if l, err = c.open(port); err == nil {
			return l, port, nil
		}
	}
	return nil, 0, fmt.Errorf("%+v: %v", c, err)
}

func genConf(t *rapid.T) linkConf {
	c := linkConf{Prefix: rapid.IntRange(0, 32).Draw(t, "prefix"), FromIP: rapid.Bool().Draw(t, "fromip")}
	for i := range c.IP {
		c.IP[i] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 10, 127, 192, 255})).Draw(t, "ip")
	}
	return c
}

// packet is one datagram through the link.
type packet struct {
	Out  bool   `json:"out"` // sent by the link
	Peer int    `json:"peer"`
	Data []byte `json:"data"`
	Long int    `json:"long,omitempty"` // this many octets instead
	// the address also has a network
	Net uint16 `json:"net,omitempty"`
	Bad int    `json:"bad,omitempty"` // the address is cut to this length, 7 is 0
}

func (p packet) data() []byte {
	if p.Long == 0 {
		return p.Data
	}
	b := make([]byte, p.Long)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

type linkCase struct {
	Conf    linkConf `json:"conf"`
	Hosts   [][3]int `json:"hosts"`
	Packets []packet `json:"packets"`
}

func genLink(t *rapid.T) linkCase {
	c := linkCase{Conf: genConf(t)}
	n := rapid.IntRange(1, 4).Draw(t, "peers")
	for i := 0; i < n; i++ {
		c.Hosts = append(c.Hosts, [3]int{rapid.IntRange(1, 254).Draw(t, "b"), rapid.IntRange(0, 255).Draw(t, "c"), rapid.IntRange(1, 254).Draw(t, "d")})
	}
	for i := rapid.IntRange(1, 10).Draw(t, "packets"); i > 0; i-- {
		p := packet{Out: rapid.Bool().Draw(t, "out"), Peer: rapid.IntRange(0, n-1).Draw(t, "peer"), Data: rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "data"), Net: pick[uint16](t, "net", 0, 0, 5, 65535)}
		if chance(t, "long", 25) {
			p.Long = rapid.OneOf(rapid.IntRange(1, 1600), rapid.IntRange(1, 65507)).Draw(t, "length")
		}
		if p.Out && chance(t, "bad", 6) {
			p.Bad = rapid.IntRange(1, 7).Draw(t, "cut")
		}
		c.Packets = append(c.Packets, p)
	}
	return c
}

func (c linkCase) run(r *engine.Rec) error {
	l, port, err := c.Conf.opened()
	if err != nil {
		return err
	}
	defer l.Close()
	var peers []*net.UDPConn
	for _, h := range c.Hosts {
		p, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, byte(h[0]), byte(h[1]), byte(h[2]))})
		if err != nil {
			r.Label("no socket")
			return nil
		}
		defer p.Close()
		peers = append(peers, p)
	}
	buf := make([]byte, 70000)
	// the addresses that earlier packets came from
	var srcs []*btypes.Address
	var macs [][]byte
	for i, p := range c.Packets {
		peer := peers[p.Peer]
		at := peer.LocalAddr().(*net.UDPAddr)
		mac := append(append([]byte{}, at.IP.To4()...), byte(at.Port>>8), byte(at.Port))
		data := p.data()
		r.LabelIf(len(data) > 1500, "larger than a frame")
		r.LabelIf(len(data) == 0, "empty")
		r.LabelIf(p.Out, "sent")
		r.LabelIf(!p.Out, "received")
		r.Hit(len(data) > 0)
		if p.Out {
			dest := btypes.Address{Mac: clone(mac), MacLen: 6, Net: p.Net}
			if p.Bad > 0 {
				r.Label("impossible address")
				dest.Mac = dest.Mac[:p.Bad%7]
				dest.MacLen = uint8(len(dest.Mac))
				if len(dest.Mac) < 6 {
					if _, err := l.Send(data, nil, &dest); err == nil {
						return fmt.Errorf("packet %d: sending to the address %x is possible", i, dest.Mac)
					}
					continue
				}
			}
			before := clone(data)
			n, err := l.Send(data, &btypes.NPDU{Version: 1}, &dest)
			if err != nil {
				return fmt.Errorf("packet %d: sending %d octets to %v fails: %v", i, len(data), at, err)
			}
			if n != len(data) || string(before) != string(data) {
				return fmt.Errorf("packet %d: %d of %d octets are sent", i, n, len(data))
			}
			peer.SetReadDeadline(time.Now().Add(5 * time.Second))
			n, src, err := peer.ReadFromUDP(buf)
			if err != nil {
				return fmt.Errorf("packet %d of %d octets doesn't arrive at %v: %v", i, len(data), at, err)
			}
			if string(buf[:n]) != string(data) {
				return fmt.Errorf("packet %d of %d octets arrives changed, %d octets", i, len(data), n)
			}
			if src.Port != port {
				return fmt.Errorf("packet %d comes from port %d, the link has %d", i, src.Port, port)
			}
		} else {
			if _, err := peer.WriteToUDP(data, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}); err != nil {
				r.Label("no socket")
				return nil
			}
			type received struct {
				src *btypes.Address
				n   int
				err error
			}
			ch := make(chan received, 1)
			in := make([]byte, 70000)
			go func() {
				a, n, err := l.Receive(in)
				ch <- received{a, n, err}
			}()
			select {
			case x := <-ch:
				if x.err != nil {
					return fmt.Errorf("packet %d isn't received: %v", i, x.err)
				}
				if x.n != len(data) || string(in[:x.n]) != string(data) {
					return fmt.Errorf("packet %d of %d octets is received changed, %d octets", i, len(data), x.n)
				}
				if x.src == nil || string(x.src.Mac) != string(mac) || x.src.MacLen != 6 || x.src.Net != 0 || len(x.src.Adr) != 0 {
					return fmt.Errorf("packet %d from %v is received from %+v", i, at, x.src)
				}
				srcs, macs = append(srcs, x.src), append(macs, mac)
			case <-time.After(5 * time.Second):
				return fmt.Errorf("packet %d isn't received", i)
			}
		}
	}
	for i, s := range srcs {
		if string(s.Mac) != string(macs[i]) || s.MacLen != 6 {
			return fmt.Errorf("the address that something came from becomes %x instead of %x", s.Mac, macs[i])
		}
	}
	if err := c.Conf.checkAddresses(l, port); err != nil {
		return fmt.Errorf("in the end: %w", err)
	}
	// nothing else arrives anywhere
	for i, p := range peers {
		p.SetReadDeadline(time.Now().Add(time.Millisecond / 2))
		if n, _, err := p.ReadFromUDP(buf); err == nil {
			return fmt.Errorf("an additional packet of %d octets arrives at peer %d", n, i)
		} else if !errors.Is(err, os.ErrDeadlineExceeded) {
			r.Label("no socket")
		}
	}
	return nil
}

// badConf is a configuration that can't work.
type badConf struct {
	Kind   string `json:"kind"`
	Text   string `json:"text"`
	N      int    `json:"n"`
	FromIP bool   `json:"from_ip"`
}

func validCIDR4(s string) bool {
	// an independent reading: four decimal octets, a slash and 0..32
	part := []string{""}
	for _, c := range s {
		if c == '.' || c == '/' {
			part = append(part, string(c), "")
		} else {
			part[len(part)-1] += string(c)
		}
	}
	if len(part) != 9 || part[1] != "." || part[3] != "." || part[5] != "." || part[7] != "/" {
		return false
	}
	for i := 0; i < 9; i += 2 {
		p := part[i]
		if i == 8 {
			// parsers differ on prefixes like 08, they are left open
			for len(p) > 1 && p[0] == '0' {
				p = p[1:]
			}
		}
		if len(p) == 0 || len(p) > 3 || len(p) > 1 && p[0] == '0' {
			return false
		}
		n := 0
		for _, c := range p {
			if c < '0' || c > '9' {
				return false
			}
			n = n*10 + int(c-'0')
		}
		if i < 8 && n > 255 || i == 8 && n > 32 {
			return false
		}
	}
	return true
}

func (c badConf) run(r *engine.Rec) error {
	r.Label("%s", c.Kind)
	r.Hit(true)
	port := freePort()
	var l datalink.DataLink
	var err error
	var busy *net.UDPConn
	e := guarded("opening a link", func() error {
		switch c.Kind {
		case "port in use":
			if busy, err = net.ListenUDP("udp4", &net.UDPAddr{Port: port}); err != nil {
				return nil
			}
			defer busy.Close()
			l, err = linkConf{IP: [4]byte{127, 0, 0, 1}, Prefix: 8, FromIP: c.FromIP}.open(port)
		case "port":
			l, err = linkConf{IP: [4]byte{127, 0, 0, 1}, Prefix: 8, FromIP: c.FromIP}.open(c.N)
		case "prefix":
			l, err = linkConf{IP: [4]byte{127, 0, 0, 1}, Prefix: c.N, FromIP: c.FromIP}.open(port)
		default:
			if c.FromIP {
				if validCIDR4(fmt.Sprintf("%s/%d", c.Text, c.N)) {
					err = errors.New("it is right")
					return nil
				}
				l, err = datalink.NewUDPDataLinkFromIP(c.Text, c.N, port)
				return nil
			}
			if validCIDR4(c.Text) {
				err = errors.New("it is right")
				return nil
			}
			if _, e := net.InterfaceByName(c.Text); e == nil {
				err = errors.New("it is right")
				return nil
			}
			l, err = datalink.NewUDPDataLink(c.Text, port)
		}
		return nil
	})
	if e != nil {
		return e
	}
	if err == nil {
		if l != nil {
			l.Close()
		}
		return fmt.Errorf("%+v is accepted", c)
	}
	if l != nil {
		return fmt.Errorf("%+v is refused with a link", c)
	}
	// the port isn't kept
	if c.Kind != "port" {
		x, err := net.ListenUDP("udp4", &net.UDPAddr{Port: port})
		if err != nil {
			return fmt.Errorf("the port of a link that could not be opened is in use: %v", err)
		}
		x.Close()
	}
	return nil
}

type closeCase struct {
	Conf      linkConf `json:"conf"`
	Receivers int      `json:"receivers"`
	WaitUs    int      `json:"wait_us"`
	Traffic   int      `json:"traffic"`
}

func (c closeCase) run(r *engine.Rec) error {
	l, port, err := c.Conf.opened()
	if err != nil {
		return err
	}
	r.Hit(c.Receivers > 0)
	r.LabelIf(c.Receivers > 1, "several receivers")
	r.LabelIf(c.Traffic > 0, "traffic")
	ends := make(chan error, c.Receivers)
	for i := 0; i < c.Receivers; i++ {
		go func() {
			b := make([]byte, 2000)
			for {
				if _, _, err := l.Receive(b); err != nil {
					ends <- err
					return
				}
			}
		}()
	}
	me := sim.IP(127, 0, 0, 1, uint16(port))
	for i := 0; i < c.Traffic; i++ {
		l.Send([]byte{1, 2, 3}, nil, &me)
	}
	time.Sleep(time.Duration(c.WaitUs) * time.Microsecond)
	if err := l.Close(); err != nil {
		return fmt.Errorf("closing fails: %v", err)
	}
	again, err := net.ListenUDP("udp4", &net.UDPAddr{Port: port})
	if err != nil {
		return fmt.Errorf("the port of the closed link is in use: %v", err)
	}
	defer again.Close()
	for i := 0; i < c.Receivers; i++ {
		select {
		case <-ends:
		case <-time.After(5 * time.Second):
			return fmt.Errorf("receiving doesn't end although the link is closed")
		}
	}
	return guarded("using a closed link", func() error {
		if _, err := l.Send([]byte{1}, nil, &me); err == nil {
			return fmt.Errorf("a closed link sends")
		}
		got := make(chan error, 1)
		go func() {
			got <- guarded("receiving", func() error {
				if _, _, err := l.Receive(make([]byte, 10)); err == nil {
					return errors.New("a closed link receives")
				}
				return nil
			})
		}()
		select {
		case err := <-got:
			if err != nil {
				return err
			}
		case <-time.After(5 * time.Second):
			return fmt.Errorf("receiving from a closed link blocks")
		}
		l.Close()
		// addresses can still be asked for
		if a := l.GetMyAddress(); a == nil {
			return fmt.Errorf("a closed link has no address")
		}
		return nil
	})
}

func (c linkConf) checkAddresses(l datalink.DataLink, port int) error {
	my, bc := l.GetMyAddress(), l.GetBroadcastAddress()
	if my == nil || bc == nil {
		return fmt.Errorf("%+v: the addresses are %v and %v", c, my, bc)
	}
	if w := append(c.IP[:], byte(port>>8), byte(port)); string(my.Mac) != string(w) || my.MacLen != 6 || my.Net != 0 {
		return fmt.Errorf("%+v on port %d: the link's address is %+v", c, port, *my)
	}
	var b [4]byte
	for i := range b {
		for bit := 0; bit < 8; bit++ {
			m := byte(0x80 >> bit)
			if i*8+bit >= c.Prefix || c.IP[i]&m != 0 {
				b[i] |= m
			}
		}
	}
	if w := append(b[:], 0xBA, 0xC0); string(bc.Mac) != string(w) || bc.MacLen != 6 {
		return fmt.Errorf("%+v: the broadcast address is %v instead of %v", c, bc.Mac, w)
	}
	return nil
}

func init() {
	engine.Add("K13", "datagrams", "a datagram with content is sent or received", 1500, 40000, genLink,
		func(r *engine.Rec, c linkCase) error { return c.run(r) }, engine.Realtime, engine.Limit(120*time.Second))

	engine.Add("K13", "addresses", "the prefix is neither 0 nor 32", 3000, 80000, genConf,
		func(r *engine.Rec, c linkConf) error {
			r.Hit(c.Prefix > 0 && c.Prefix < 32)
			r.LabelIf(c.Prefix%8 != 0, "not at an octet")
			l, port, err := c.opened()
			if err != nil {
				return err
			}
			defer l.Close()
			return c.checkAddresses(l, port)
		}, engine.Realtime, engine.Limit(60*time.Second))

	engine.Add("K13", "closing", "receiving was blocked", 400, 8000,
		func(t *rapid.T) closeCase {
			return closeCase{Conf: genConf(t), Receivers: rapid.IntRange(0, 3).Draw(t, "receivers"), WaitUs: pick(t, "wait", 0, 10, 100, 1000, 3000), Traffic: rapid.IntRange(0, 5).Draw(t, "traffic")}
		},
		func(r *engine.Rec, c closeCase) error { return c.run(r) }, engine.Realtime, engine.Limit(60*time.Second))

	engine.Add("K13", "unusable configurations", "every case", 2000, 60000,
		func(t *rapid.T) badConf {
			c := badConf{Kind: pick(t, "kind", "text", "text", "near", "near", "v6", "prefix", "port", "port in use"), FromIP: rapid.Bool().Draw(t, "fromip")}
			c.N = rapid.IntRange(0, 32).Draw(t, "n")
			switch c.Kind {
			case "text":
				c.Text = rapid.OneOf(rapid.StringN(0, 20, 60), rapid.StringOfN(rapid.RuneFrom([]rune("0123456789./:abcdefx ")), 0, 24, -1), rapid.SampledFrom([]string{"", "/", "eth77", "no such interface", "0/0", "...", "...../8"})).Draw(t, "text")
			case "near":
				s := fmt.Sprintf("%d.%d.%d.%d", rapid.IntRange(0, 300).Draw(t, "a"), rapid.IntRange(0, 255).Draw(t, "b"), rapid.IntRange(0, 260).Draw(t, "c"), rapid.IntRange(0, 999).Draw(t, "d"))
				if !c.FromIP {
					s += fmt.Sprintf("/%d", rapid.IntRange(-2, 60).Draw(t, "p"))
				}
				i := rapid.IntRange(0, len(s)).Draw(t, "at")
				switch rapid.IntRange(0, 3).Draw(t, "change") {
				case 0:
					s = s[:i] + pick(t, "c", ".", "/", "0", " ", "-", "x", "/24") + s[i:]
				case 1:
					s = s[:i]
				case 2:
					s = s[i:]
				}
				c.Text = s
			case "v6":
				c.Text = pick(t, "v6", "::1", "fe80::1", "::ffff:10.0.0.1", "2001:db8::7", "::")
				c.N = rapid.IntRange(0, 128).Draw(t, "n")
				if !c.FromIP {
					c.Text += fmt.Sprintf("/%d", c.N)
				}
			case "prefix":
				c.N = rapid.OneOf(rapid.IntRange(33, 200), rapid.IntRange(-200, -1)).Draw(t, "p")
			case "port":
				c.N = rapid.OneOf(rapid.IntRange(65536, 200000), rapid.IntRange(-70000, -1), rapid.SampledFrom([]int{65536, -1, 65536 + 47808, 1 << 40})).Draw(t, "port")
			}
			return c
		},
		func(r *engine.Rec, c badConf) error { return c.run(r) }, engine.Realtime, engine.Limit(60*time.Second))

	engine.Add("K13", "interfaces and the default port", "every case", 48, 300,
		func(t *rapid.T) int { return rapid.IntRange(0, 5).Draw(t, "way") },
		func(r *engine.Rec, way int) error {
			r.Hit(true)
			port := freePort()
			want := port
			if way%2 == 1 {
				c, err := net.ListenUDP("udp4", &net.UDPAddr{Port: 47808})
				if err != nil {
					r.Label("the default port is in use by others")
					return nil
				}
				c.Close()
				port, want = 0, 47808
			}
			conf := linkConf{IP: [4]byte{10, 9, 8, 7}, Prefix: 13, FromIP: way < 2}
			var l datalink.DataLink
			var err error
			if way < 4 {
				l, err = conf.open(port)
			} else {
				// the first IPv4 address of an interface
				var name string
				ifs, _ := net.Interfaces()
				for _, i := range ifs {
					as, _ := i.Addrs()
					for _, a := range as {
						if n, ok := a.(*net.IPNet); ok && n.IP.To4() != nil && name == "" {
							name = i.Name
							copy(conf.IP[:], n.IP.To4())
							conf.Prefix, _ = n.Mask.Size()
						}
					}
				}
				if name == "" {
					r.Label("no interface")
					return nil
				}
				r.Label("by interface")
				l, err = datalink.NewUDPDataLink(name, port)
			}
			if err != nil {
				return fmt.Errorf("the link isn't opened: %v", err)
			}
			defer l.Close()
			if c, err := net.ListenUDP("udp4", &net.UDPAddr{Port: want}); err == nil {
				c.Close()
				return fmt.Errorf("port %d isn't used", want)
			}
			return conf.checkAddresses(l, want)
		}, engine.Realtime, engine.Single, engine.Limit(60*time.Second))
}
