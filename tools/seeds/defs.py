S=[]
def seed(id,prop,needs,breaks,edits,demo,**k): S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))

seed('C04-deadline-only-before-header','C04',
 'SocketTimeout set to 0 and a device that sends a reply header and then never sends the announced payload',
 'with SocketTimeout 0 (no explicit timeout) the payload read has no deadline, so a stalled device blocks the client for ever while it holds its lock',
 [('sendreceive.go','''	data_size := hdr.Length
	data := make([]byte, data_size)
''','''	data_size := hdr.Length
	if client.SocketTimeout == 0 {
		// the payload normally arrives together with the header.
		err = client.conn.SetReadDeadline(time.Time{})
		if err != nil {
			return hdr, nil, fmt.Errorf("problem clearing read deadline: %w", err)
		}
	}
	data := make([]byte, data_size)
''')],'''
package gologix_test

import (
	"encoding/binary"
	"net"
	"testing"
	"time"
)

// The device announces a payload and never sends it. The request has to give up.
func TestDemo(t *testing.T) {
	d := newDevice(t)
	d.onFrame = func(d *device, c net.Conn, f frame) bool {
		if f.cmd != 0x70 {
			return false
		}
		h := make([]byte, 24)
		binary.LittleEndian.PutUint16(h, f.cmd)
		binary.LittleEndian.PutUint16(h[2:], 40)
		binary.LittleEndian.PutUint32(h[4:], f.session)
		c.Write(h)
		return true
	}
	c := d.client()
	if err := c.Connect(); err != nil {
		t.Fatal(err)
	}
	c.SocketTimeout = 0
	within(t, 20*time.Second, "Read", func() {
		var v int32
		if err := c.Read("tag", &v); err == nil {
			t.Error("read of a stalled device succeeded")
		}
	})
}
''')

seed('C05-timeout-keeps-connection','C05',
 'a device that stalls for longer than the socket timeout on one request and then goes on',
 'a read that times out returns an error but leaves the client marked connected, so the late reply is taken for the reply to the next request',
 [('sendreceive.go','''	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	if err != nil {
		err2 := client.Disconnect()
''','''	hdr, buf, err := client.recvData()
	client.mutex.Unlock()
	var netErr net.Error
	if errors.As(err, &netErr) && netErr.Timeout() && hdr.Command == 0 {
		// nothing arrived in time. The device may only be slow so keep the session.
		return hdr, buf, fmt.Errorf("timeout waiting for a reply: %w", err)
	}
	if err != nil {
		err2 := client.Disconnect()
'''),('sendreceive.go','''	"math"
	"time"
''','''	"math"
	"net"
	"time"
''')],'''
package gologix_test

import (
	"sync/atomic"
	"testing"
	"time"
)

// One reply is late. The request must fail and the client must be offline afterwards.
func TestDemo(t *testing.T) {
	d := newDevice(t)
	var n atomic.Int32
	d.onSvc = func(s svc) []byte {
		if n.Add(1) == 1 {
			time.Sleep(1500 * time.Millisecond)
		}
		return []byte{s.service | 0x80, 0, 0, 0, 0xC4, 0, 1, 0, 0, 0}
	}
	c := d.client()
	if err := c.Connect(); err != nil {
		t.Fatal(err)
	}
	c.SocketTimeout = 500 * time.Millisecond
	var v int32
	if err := c.Read("tag", &v); err == nil {
		t.Fatal("the read should have timed out")
	}
	if c.Connected() {
		t.Fatal("the client is still connected after a transport failure")
	}
}
''')

seed('C06-write-partial-accepted','C06',
 'a controller that answers a write with a general status that has no extended status words, e.g. 0x0F privilege violation',
 'the write of a tag the controller refused is reported as successful',
 [('write.go','''	if hdr2.Status != CIPStatus_OK {
		extended''','''	if hdr2.Status != CIPStatus_OK && hdr2.StatusExtended != 0 {
		extended''',1)],'''
package gologix_test

import "testing"

// The controller refuses the write with a plain general status. The client has to report that.
func TestDemo(t *testing.T) {
	for _, status := range []byte{0x04, 0x05, 0x0F, 0x08} {
		d := newDevice(t)
		d.onSvc = func(s svc) []byte { return []byte{s.service | 0x80, 0, status, 0, 0, 0} }
		c := d.client()
		if err := c.Connect(); err != nil {
			t.Fatal(err)
		}
		if err := c.Write("tag", int32(5)); err == nil {
			t.Errorf("write succeeded although the device returned status 0x%02X", status)
		}
		c.Disconnect()
	}
}
''')

seed('C07-sequence-hoisted','C07',
 'a fragmented read: a device that answers the first read with partial transfer so that several follow-up requests are needed',
 'all follow-up requests of one fragmented read carry the same sequence count',
 [('read.go','offset uint32) ([]byte, byte, error) {','offset uint32, seq uint16) ([]byte, byte, error) {'),
 ('read.go','''		fragData, status, err := client.sendFragReadRequest(ioi, elements, offset)''','''		fragData, status, err := client.sendFragReadRequest(ioi, elements, offset, seq)'''),
 ('read.go','''		SequenceCount: uint16(sequencer()),
		Service:       CIPService_FragRead,''','''		SequenceCount: seq,
		Service:       CIPService_FragRead,'''),
 ('read.go','''	accumulated := bytes.NewBuffer(''','''	// all fragments belong to the same transfer.
	seq := uint16(sequencer())
	accumulated := bytes.NewBuffer(''')],'''
package gologix_test

import (
	"sync/atomic"
	"testing"
)

// A read that needs three frames. No two of them may carry the same sequence count.
func TestDemo(t *testing.T) {
	d := newDevice(t)
	var n atomic.Int32
	d.onSvc = func(s svc) []byte {
		if s.service != 0x4C && s.service != 0x52 {
			return []byte{s.service | 0x80, 0, 0, 0, 0, 0}
		}
		r := []byte{s.service | 0x80, 0, 6, 0, 0xC4, 0, 1, 0, 0, 0}
		if n.Add(1) == 3 {
			r[2] = 0
		}
		return r
	}
	c := d.client()
	if err := c.Connect(); err != nil {
		t.Fatal(err)
	}
	v := make([]int32, 3)
	if err := c.Read("tag", v); err != nil {
		t.Fatal(err)
	}
	seen := map[uint16]bool{}
	for _, f := range d.log() {
		if s, ok := connected(f.body); ok && f.cmd == 0x70 {
			if seen[s.seq] {
				t.Fatalf("sequence count %d was sent twice", s.seq)
			}
			seen[s.seq] = true
		}
	}
	if n.Load() != 3 {
		t.Fatalf("expected 3 requests, got %d", len(seen))
	}
}
''')

SESSION='''
package gologix

import (
	"encoding/binary"
	"errors"
	"io"
	"log/slog"
	"net"
	"testing"
	"time"
)

var _ = errors.New

type demoProvider struct {
	write func(tag string, v any) error
}

func (p demoProvider) TagRead(tag string, qty int16) (any, error)  { return int32(7), nil }
func (p demoProvider) TagWrite(tag string, v any) error           { return p.write(tag, v) }
func (p demoProvider) IORead() ([]byte, error)                    { return nil, nil }
func (p demoProvider) IOWrite(items []CIPItem) error              { return nil }

// session serves one connection with OT id 0x1111 and TO id 0x2222 open on it.
func session(t *testing.T, p CIPEndpoint) net.Conn {
	r := NewRouter()
	r.Handle([]byte{0x01, 0x00}, p)
	srv := NewServer(r)
	srv.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	srv.ConnMgr.Init(srv.Logger)
	a, b := net.Pipe()
	h := &serverTCPHandler{conn: b, server: srv}
	srv.ConnMgr.Add(&serverConnection{ID: 1, OT: 0x1111, TO: 0x2222, Path: []byte{0x01, 0x00}, Open: true, owner: h})
	go h.serve(srv)
	t.Cleanup(func() { a.Close() })
	a.SetDeadline(time.Now().Add(5 * time.Second))
	return a
}

// ask sends two items and returns the data of the items of the reply; nil if the session ended without one.
func ask(t *testing.T, c net.Conn, cmd uint16, id0 uint16, d0 []byte, id1 uint16, d1 []byte) (r0, r1 []byte) {
	le := binary.LittleEndian
	body := make([]byte, 6)
	body = le.AppendUint16(body, 2)
	body = le.AppendUint16(body, id0)
	body = le.AppendUint16(body, uint16(len(d0)))
	body = append(body, d0...)
	body = le.AppendUint16(body, id1)
	body = le.AppendUint16(body, uint16(len(d1)))
	body = append(body, d1...)
	h := make([]byte, 24)
	le.PutUint16(h, cmd)
	le.PutUint16(h[2:], uint16(len(body)))
	if _, err := c.Write(append(h, body...)); err != nil {
		t.Fatal(err)
	}
	if _, err := io.ReadFull(c, h); err != nil {
		return nil, nil
	}
	b := make([]byte, le.Uint16(h[2:]))
	if _, err := io.ReadFull(c, b); err != nil {
		t.Fatal(err)
	}
	p := b[8:]
	n := int(le.Uint16(p[2:]))
	r0 = p[4 : 4+n]
	p = p[4+n:]
	n = int(le.Uint16(p[2:]))
	return r0, p[4 : 4+n]
}
'''

seed('C22-embedded-service-code','C22',
 'an unconnected send that wraps a service the server does not implement',
 'the refusal names the service 0x52 of the wrapper instead of the one that was refused, so the originator cannot match it to its request',
 [('server_unconnected.go','return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)','return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)')],
 SESSION+'''
func TestDemo(t *testing.T) {
	c := session(t, demoProvider{})
	req := []byte{0x52, 2, 0x20, 0x06, 0x24, 0x01, 0x0A, 0xF0, 4, 0, 0x4B, 1, 0x20, 0x01}
	_, r := ask(t, c, 0x6F, 0, nil, 0xB2, req)
	if len(r) < 3 || r[0] != 0x4B|0x80 || r[2] == 0 {
		t.Fatalf("the refusal of service 0x4B is % X", r)
	}
}
''')

seed('C23-array-write-not-awaited','C23',
 'a multi-service request that writes more than one element to a tag whose provider refuses the write',
 'the server acknowledges the write although the provider did not accept it',
 [('server_connected.go','''			if qty > 1 {
				err = p.TagWrite(tag, writeTags)
				if err != nil {
					return fmt.Errorf("problem writing tag %v. %w", tag, err)
				}
			} else {''','''			if qty > 1 {
				// a big array would hold up the other services of the request.
				go func() {
					err := p.TagWrite(tag, writeTags)
					if err != nil {
						h.server.Logger.Error("problem writing tag", "tag", tag, "error", err)
					}
				}()
			} else {''')],
 SESSION+'''
func TestDemo(t *testing.T) {
	c := session(t, demoProvider{write: func(string, any) error { return errors.New("read only") }})
	write := []byte{0x4D, 2, 0x91, 1, 'a', 0, 0xC3, 0, 2, 0, 1, 0, 2, 0}
	req := []byte{9, 0, 0x0A, 2, 0x20, 0x02, 0x24, 0x01, 1, 0, 4, 0}
	_, r := ask(t, c, 0x70, 0xA1, []byte{0x11, 0x11, 0, 0}, 0xB1, append(req, write...))
	if len(r) >= 14 && r[4] == 0 && r[10+2] == 0 {
		t.Fatalf("the refused write was acknowledged: % X", r)
	}
}
''')

seed('C33-batch-reply-connection','C33',
 'a multi-service request on a connection whose two directions have different ids',
 'the reply is addressed to the id of the other direction, so the originator does not recognise it',
 [('server_connected.go','return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)','return h.sendConnectedReply(CIPService_MultipleService, seq, connID, response...)')],
 SESSION+'''
func TestDemo(t *testing.T) {
	c := session(t, demoProvider{})
	read := []byte{0x4C, 2, 0x91, 1, 'a', 0, 1, 0}
	req := []byte{9, 0, 0x0A, 2, 0x20, 0x02, 0x24, 0x01, 1, 0, 4, 0}
	id, r := ask(t, c, 0x70, 0xA1, []byte{0x11, 0x11, 0, 0}, 0xB1, append(req, read...))
	if r == nil {
		t.Fatal("no reply")
	}
	if got := binary.LittleEndian.Uint32(id); got != 0x2222 {
		t.Fatalf("the reply is addressed to connection 0x%X", got)
	}
}
''')

seed('C25-udp-end-unreported','C25',
 'the UDP listener is closed while the server is serving',
 'the server goes on without its I/O listener and Serve never returns',
 [('server.go','''		err := srv.serveUDP()
		if err != nil {''','''		err := srv.serveUDP()
		if err != nil && !errors.Is(err, net.ErrClosed) {''')],'''
package gologix

import (
	"io"
	"log/slog"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	srv := NewServer(NewRouter())
	srv.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	done := make(chan error, 1)
	go func() { done <- srv.Serve() }()
	time.Sleep(500 * time.Millisecond)
	select {
	case err := <-done:
		t.Skip("cannot listen here: ", err)
	default:
	}
	srv.UDPListener.Close()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Serve goes on although the I/O listener is gone")
	}
}
''')

seed('C10-taglist-empty','C10',
 'tags are listed before the first tag exists, then any tag operation',
 'listing the tags of a provider without data leaves its mutex locked, so the next operation waits for ever',
 [('server_router.go','''	p.Mutex.Lock()
	defer p.Mutex.Unlock()
	if p.Data == nil {
		return nil
	}
	tags :=''','''	p.Mutex.Lock()
	if p.Data == nil {
		return nil
	}
	defer p.Mutex.Unlock()
	tags :=''')],'''
package gologix

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	p := &MapTagProvider{}
	p.TagList()
	done := make(chan error, 1)
	go func() { done <- p.TagWrite("a", int32(1)) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the provider is locked")
	}
}
''')

seed('C11-taglist-snapshot','C11',
 'one session lists the tags while another writes a new tag',
 'the tag map is walked without the lock that guards it: a data race that crashes the server',
 [('server_router.go','''	p.Mutex.Lock()
	defer p.Mutex.Unlock()
	if p.Data == nil {
		return nil
	}
	tags := make([]ServerTagInfo, 0, len(p.Data))
	for name, val := range p.Data {''','''	p.Mutex.Lock()
	data := p.Data
	p.Mutex.Unlock()
	tags := make([]ServerTagInfo, 0, len(data))
	for name, val := range data {''')],'''
package gologix

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	p := &MapTagProvider{Data: map[string]any{}}
	done := make(chan bool)
	go func() {
		for i := 0; i < 20000; i++ {
			p.TagWrite(fmt.Sprint("t", i), int32(i))
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		default:
			p.TagList()
		}
	}
}
''',race=True)

seed('C13-datatable-short-string','C13',
 'a data table reply whose string slot has fewer than four bytes',
 'decoding the value panics instead of failing',
 [('datatable.go','''		if len(raw) < 4 {
			return nil,''','''		if len(raw) == 0 {
			return nil,''')],'''
package gologix

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 4; n++ {
		if _, err := decodeDataTableValue(CIPTypeSTRING, make([]byte, n)); err == nil {
			t.Fatalf("%d bytes were taken for a string", n)
		}
	}
}
''')

seed('C16-element-wide','C16',
 'an element index above 65535 that is not the same in its low 16 bits',
 'an index that needs the 32 bit format is written with its low 16 bits only',
 [('cip_definitions.go','		b[0] = byte(cipElement_32bit)\n		binary.LittleEndian.PutUint32(b[2:], uint32(p))','		b[0] = byte(cipElement_32bit)\n		binary.LittleEndian.PutUint16(b[2:], uint16(p))')],'''
package gologix

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	if p := CIPElement(0x12345).Bytes(); !bytes.Equal(p, []byte{0x2A, 0x00, 0x45, 0x23, 0x01, 0x00}) {
		t.Fatalf("segment of element 0x12345 is % X", p)
	}
}
''')

seed('C20-program-name-length','C20',
 'a product name of exactly 256 characters',
 'the length byte of the program name wraps to 0 although 256 characters follow',
 [('server_unconnected.go','''	if len(name) > 255 {
		name = name[:255]
	}
	var buf bytes.Buffer
	buf.WriteByte(byte(len(name)))''','''	if len(name) > 256 {
		name = name[:256]
	}
	var buf bytes.Buffer
	buf.WriteByte(byte(len(name)))''')],'''
package gologix

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 250; n < 300; n++ {
		b, err := buildProgramObjectGetAttributesAllResponse(map[CIPAttribute]any{7: strings.Repeat("x", n)})
		if err == nil && int(b[0]) != len(b)-1 {
			t.Fatalf("length %d in front of %d characters", b[0], len(b)-1)
		}
	}
}
''')

seed('C18-control-ul-bit','C18',
 'a CONTROL with the UL flag set',
 'the flag is packed as another one (IN), so it arrives changed',
 [('lgxtypes/control.go','	if t.UL {\n		CtrlWord |= 1 << 26','	if t.UL {\n		CtrlWord |= 1 << 25')],'''
package lgxtypes

import (
	"bytes"
	"encoding/binary"
	"testing"
)

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	if _, err := (CONTROL{UL: true}).Pack(&b); err != nil {
		t.Fatal(err)
	}
	if w := binary.LittleEndian.Uint32(b.Bytes()); w != 1<<26 {
		t.Fatalf("control word 0x%X", w)
	}
}
''',pkg='lgxtypes')

seed('C17-lint-sign-bit','C17',
 'reading bit 63 of a LINT tag',
 'the sign bit of a LINT is refused although every other 64 bit type has 64 bits',
 [('types.go','	case CIPTypeLINT:\n		if bitpos >= 0 && bitpos < 64 {','	case CIPTypeLINT:\n		if bitpos >= 0 && bitpos < 63 {')],'''
package gologix

import "testing"

func TestDemo(t *testing.T) {
	if v, err := getBit(CIPTypeLINT, int64(-1), 63); err != nil || v != true {
		t.Fatal(v, err)
	}
}
''')

seed('C31-device-type-name','C31',
 'any lookup of the text of device type 4 or 5',
 'two device types carry the name of the other',
 [('device_type.go','0x04: "Limit Switch",\n','0x04: "Inductive Proximity Switch",\n'),('device_type.go','0x05: "Inductive Proximity Switch",\n','0x05: "Limit Switch",\n')],'''
package gologix

import "testing"

func TestDemo(t *testing.T) {
	if a, b := DeviceType(4).Name(), DeviceType(5).Name(); a != "Limit Switch" || b != "Inductive Proximity Switch" {
		t.Fatal(a, b)
	}
}
''')
