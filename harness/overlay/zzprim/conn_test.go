package zzprim

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/pkg/protocol"
)

func init() {
	drivers["conn"] = conns
	scripted["conn"] = connScript
}

// memConn is the server's side of a connection. The peer is the history itself.
type memConn struct {
	mutex   sync.Mutex
	changed chan struct{}
	in      []byte
	eof     bool // the peer sends no more
	gone    bool // the peer has closed, writing fails
	out     []byte
	space   int // what the peer does not read, less than 0 if it reads everything
	closed  bool
	writing bool
	rd, wd  time.Time
}

func newMemConn(space int) *memConn { return &memConn{changed: make(chan struct{}), space: space} }

// update changes the state and wakes those who wait
func (m *memConn) update(fn func()) {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	fn()
	close(m.changed)
	m.changed = make(chan struct{})
}

// await waits until fn is true, which runs with the lock held
func (m *memConn) await(deadline func() time.Time, fn func() bool) error {
	for {
		m.mutex.Lock()
		if m.closed {
			m.mutex.Unlock()
			return net.ErrClosed
		}
		if fn() {
			close(m.changed)
			m.changed = make(chan struct{})
			m.mutex.Unlock()
			return nil
		}
		ch, d := m.changed, deadline()
		m.mutex.Unlock()
		var timer <-chan time.Time
		if !d.IsZero() {
			if !time.Now().Before(d) {
				return os.ErrDeadlineExceeded
			}
			t := time.NewTimer(time.Until(d))
			defer t.Stop()
			timer = t.C
		}
		select {
		case <-ch:
		case <-timer:
		}
	}
}

func (m *memConn) Read(b []byte) (int, error) {
	n, eof := 0, false
	err := m.await(func() time.Time { return m.rd }, func() bool {
		n = copy(b, m.in)
		m.in = m.in[n:]
		eof = n == 0 && m.eof
		return n > 0 || m.eof
	})
	if err == nil && eof {
		err = io.EOF
	}
	return n, err
}

func (m *memConn) Write(b []byte) (int, error) {
	get := func() time.Time { return m.wd }
	if err := m.await(get, func() bool {
		if m.writing {
			return false
		}
		m.writing = true
		return true
	}); err != nil {
		return 0, err
	}
	defer m.update(func() { m.writing = false })
	n := 0
	var fail error
	for n < len(b) && fail == nil {
		if err := m.await(get, func() bool {
			if m.gone {
				fail = io.ErrClosedPipe
				return true
			}
			k := len(b) - n
			if m.space >= 0 && k > m.space {
				k = m.space
			}
			if k == 0 {
				return false
			}
			if m.space >= 0 {
				m.space -= k
			}
			m.out = append(m.out, b[n:n+k]...)
			n += k
			return true
		}); err != nil {
			return n, err
		}
	}
	return n, fail
}

func (m *memConn) Close() error {
	var err error
	m.update(func() {
		if m.closed {
			err = net.ErrClosed
		}
		m.closed = true
	})
	return err
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "peer" }

func (m *memConn) LocalAddr() net.Addr  { return memAddr{} }
func (m *memConn) RemoteAddr() net.Addr { return memAddr{} }
func (m *memConn) SetDeadline(t time.Time) error {
	m.update(func() { m.rd, m.wd = t, t })
	return nil
}
func (m *memConn) SetReadDeadline(t time.Time) error {
	m.update(func() { m.rd = t })
	return nil
}
func (m *memConn) SetWriteDeadline(t time.Time) error {
	m.update(func() { m.wd = t })
	return nil
}

type testConn struct {
	r    *rec
	m    *memConn
	c    network.Conn
	objs int
	n    int
}

func newTestConn(r *rec, expire time.Duration, space int) *testConn {
	t := &testConn{r: r, m: newMemConn(space)}
	limit := expire
	if expire == 0 {
		// the usual expire time is ten minutes
		limit = 10 * time.Minute
		t.c = network.NewConn(t.m)
	} else {
		t.c = network.NewConnWithExpire(t.m, expire)
	}
	r.cfg = fmt.Sprintf(`"expire":%d,"space":%d,`, limit/time.Microsecond, space)
	return t
}

func short(err error) string {
	if err != nil {
		return "fail"
	}
	return "ok"
}

func (t *testConn) op(op string) {
	fields := `,"s":""`
	s := ""
	if op == "write" {
		t.r.mutex.Lock()
		t.n++
		s = fmt.Sprintf("<%d>", t.n)
		t.r.mutex.Unlock()
		if t.r.one(4) {
			s += "long" + strings.Repeat("-", t.r.intn(20))
		}
		fields = `,"s":` + jstr(s)
	}
	t.r.do(op, fields, func() string {
		switch op {
		case "write":
			return short(t.c.Write(s))
		case "close":
			return short(t.c.Close())
		case "isclosed":
			return strconv.FormatBool(t.c.IsClosed())
		}
		o, err := t.c.Read()
		if err != nil {
			return "fail"
		}
		return protocol.NewRedisArray([]protocol.RedisObject{o}).String()[len("*1\r\n"):]
	})
}

// peer actions: send an object, send what is none, send no more, close, read everything
func (t *testConn) peer(op string) {
	t.m.update(func() {
		s := ""
		switch op {
		case "send":
			t.objs++
			s = fmt.Sprintf(":%d\r\n", t.objs)
			t.m.in = append(t.m.in, s...)
		case "bad":
			t.m.in = append(t.m.in, "\x01\r\n"...)
		case "eof":
			t.m.eof = true
		case "gone":
			t.m.eof, t.m.gone = true, true
		case "drain":
			t.m.space = -1
		}
		t.r.add(`"k":"peer","op":"` + op + `","s":` + jstr(s))
	})
}

func (t *testConn) finish() {
	t.m.mutex.Lock()
	out := string(t.m.out)
	t.m.mutex.Unlock()
	t.r.end("")
	t.r.cfg += `"out":` + jstr(out) + ","
	_ = t.c.Close()
	t.m.update(func() { t.m.eof, t.m.gone = true, true })
	_ = t.m.Close()
	t.r.wg.Wait()
}

func conns(r *rec) {
	expire := []int{4, 8, 8, 12, 30, 0}[r.intn(6)]
	space := -1
	if r.one(3) {
		space = r.intn(30)
	}
	unit := ms
	if expire == 0 {
		unit = time.Minute
	}
	wait := func(most int) {
		if r.intn(3) > 0 {
			time.Sleep(time.Duration(r.intn(most+1)) * unit)
		}
	}
	t := newTestConn(r, time.Duration(expire)*ms, space)
	life := r.intn(4)
	r.spawn(func() {
		for k := 1 + r.intn(6); k > 0; k-- {
			if life > 0 {
				wait(5)
			}
			t.op("read")
		}
	})
	for g := r.intn(3); g > 0; g-- {
		r.spawn(func() {
			for k := 1 + r.intn(5); k > 0; k-- {
				wait(5)
				t.op("write")
			}
		})
	}
	r.spawn(func() {
		for k := r.intn(7); k > 0; k-- {
			wait(4)
			switch r.intn(12) {
			case 0:
				t.peer("bad")
				return
			case 1:
				t.peer([]string{"eof", "gone"}[r.intn(2)])
				return
			case 2:
				if space >= 0 {
					t.peer("drain")
				}
			default:
				t.peer("send")
			}
		}
	})
	for g := r.intn(3); g > 0; g-- {
		r.spawn(func() {
			for k := 1 + r.intn(3); k > 0; k-- {
				wait(8)
				if life > 1 && r.one(2) {
					t.op("close")
				}
				if r.one(2) {
					t.op("isclosed")
				}
			}
		})
	}
	if expire == 0 {
		for k := 0; k < 30; k++ {
			time.Sleep(unit)
			r.add(`"k":"tick"`)
		}
	} else {
		r.watch(45 * ms)
	}
	// after the time that a stalled peer may cost
	time.Sleep(15 * time.Second)
	r.add(`"k":"tick"`)
	t.op("isclosed")
	t.finish()
}

// connScript: "expire:space", "tick", "peer:what", or a call
func connScript(r *rec, steps []string) {
	p := strings.Split(steps[0], ":")
	expire, _ := strconv.Atoi(p[0])
	space, _ := strconv.Atoi(p[1])
	t := newTestConn(r, time.Duration(expire)*ms, space)
	reading := make(chan struct{}, 1)
	for _, s := range steps[1:] {
		p := strings.Split(s, ":")
		switch p[0] {
		case "tick":
			time.Sleep(ms)
			r.add(`"k":"tick"`)
		case "peer":
			t.peer(p[1])
		case "read":
			// one reader at a time
			select {
			case reading <- struct{}{}:
				r.spawn(func() {
					t.op(p[0])
					<-reading
				})
			default:
			}
		default:
			r.spawn(func() { t.op(p[0]) })
		}
		if !r.one(3) {
			time.Sleep(50 * time.Microsecond)
		}
	}
	r.watch(4 * ms)
	t.op("isclosed")
	t.finish()
}
