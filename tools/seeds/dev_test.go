package gologix_test

// A minimal scripted device for the demonstrations. It speaks just enough EtherNet/IP to let a client
// connect, and hands every connected request to a script.

import (
	"encoding/binary"
	"io"
	"log/slog"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
)

type frame struct {
	cmd     uint16
	session uint32
	context uint64
	body    []byte
}

// svc is a connected request: its sequence count, service code and everything after the service code.
type svc struct {
	seq     uint16
	service byte
	rest    []byte
}

type device struct {
	ln net.Listener
	mu sync.Mutex
	// number of accepted sockets and of sockets the client has closed.
	accepted, closed int
	frames           []frame
	// onFrame may answer a frame itself by returning true.
	onFrame func(d *device, c net.Conn, f frame) bool
	// onSvc returns the reply after the sequence count: service, reserved, status, ext size, data.
	onSvc func(s svc) []byte
}

func newDevice(t *testing.T) *device {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	d := &device{ln: ln}
	t.Cleanup(func() { ln.Close() })
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			d.mu.Lock()
			d.accepted++
			d.mu.Unlock()
			go d.serve(c)
		}
	}()
	return d
}

func (d *device) client() *gologix.Client {
	c := gologix.NewClient("127.0.0.1")
	c.Controller.Port = uint(d.ln.Addr().(*net.TCPAddr).Port)
	c.SocketTimeout = 2 * time.Second
	c.KeepAliveAutoStart = false
	c.AutoConnect = false
	c.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	return c
}

func (d *device) counts() (accepted, closed int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.accepted, d.closed
}

func (d *device) log() []frame {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]frame(nil), d.frames...)
}

func reply(c net.Conn, f frame, session uint32, status uint32, body []byte) {
	h := make([]byte, 24)
	binary.LittleEndian.PutUint16(h[0:], f.cmd)
	binary.LittleEndian.PutUint16(h[2:], uint16(len(body)))
	binary.LittleEndian.PutUint32(h[4:], session)
	binary.LittleEndian.PutUint32(h[8:], status)
	binary.LittleEndian.PutUint64(h[12:], f.context)
	c.Write(append(h, body...))
}

func items(second uint16, data []byte) []byte {
	b := []byte{0, 0, 0, 0, 0, 0, 2, 0}
	if second == 0xB1 {
		b = append(b, 0xA1, 0, 4, 0, 0x11, 0x22, 0x33, 0x44)
	} else {
		b = append(b, 0, 0, 0, 0)
	}
	b = binary.LittleEndian.AppendUint16(b, second)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(data)))
	return append(b, data...)
}

// connected parses a SendUnitData body.
func connected(body []byte) (svc, bool) {
	if len(body) < 23 {
		return svc{}, false
	}
	p := body[20:]
	return svc{binary.LittleEndian.Uint16(p), p[2], p[3:]}, true
}

func (d *device) serve(c net.Conn) {
	defer func() {
		c.Close()
		d.mu.Lock()
		d.closed++
		d.mu.Unlock()
	}()
	for {
		h := make([]byte, 24)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		f := frame{
			cmd:     binary.LittleEndian.Uint16(h),
			session: binary.LittleEndian.Uint32(h[4:]),
			context: binary.LittleEndian.Uint64(h[12:]),
			body:    make([]byte, binary.LittleEndian.Uint16(h[2:])),
		}
		if _, err := io.ReadFull(c, f.body); err != nil {
			return
		}
		d.mu.Lock()
		d.frames = append(d.frames, f)
		d.mu.Unlock()
		if d.onFrame != nil && d.onFrame(d, c, f) {
			continue
		}
		switch f.cmd {
		case 0x65:
			reply(c, f, 0x77, 0, f.body)
		case 0x6F:
			s := f.body[16]
			ok := make([]byte, 30)
			ok[0] = s | 0x80
			copy(ok[4:], []byte{0x11, 0x22, 0x33, 0x44})
			reply(c, f, f.session, 0, items(0xB2, ok))
		case 0x70:
			s, ok := connected(f.body)
			if !ok {
				return
			}
			r := []byte{s.service | 0x80, 0, 0, 0}
			if d.onSvc != nil {
				r = d.onSvc(s)
			}
			if r == nil {
				continue
			}
			data := binary.LittleEndian.AppendUint16(nil, s.seq)
			reply(c, f, f.session, 0, items(0xB1, append(data, r...)))
		case 0x66:
			return
		}
	}
}

// within fails the test if f does not return in time.
func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s did not return within %v", what, d)
	}
}
