package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"
)

func init() {
	drivers["lin"] = linDriver
	drivers["pipe"] = pipeDriver
	drivers["stall"] = stallDriver
}

// pool of servers that runs share
type srvPool struct {
	mutex sync.Mutex
	s     []*Server
	opts  startOpts
}

func newPool(n int, o startOpts) *srvPool {
	p := &srvPool{opts: o}
	for i := 0; i < n; i++ {
		p.s = append(p.s, fresh(o))
	}
	return p
}

func (p *srvPool) get(i int) *Server {
	p.mutex.Lock()
	defer p.mutex.Unlock()
	i %= len(p.s)
	if !p.s[i].alive() {
		p.s[i] = fresh(p.opts)
	}
	return p.s[i]
}

func (p *srvPool) kill() {
	for _, s := range p.s {
		s.kill()
	}
}

var linShapes = map[string][][]string{
	"multi":   {{"mset", "K1", "V", "K2", "V"}, {"mset", "K1", "V", "K2", "V", "K3", "V"}, {"mget", "K1", "K2", "K3"}, {"mget", "K2", "K1"}, {"set", "K1", "V"}, {"get", "K2"}, {"exists", "K1", "K2", "K3"}},
	"counter": {{"set", "K1", "0"}, {"incr", "K1"}, {"incr", "K1"}, {"incrby", "K1", "10"}, {"decr", "K1"}, {"get", "K1"}, {"append", "K1", "0"}, {"mget", "K1", "K1"}},
	"append":  {{"append", "K1", "V"}, {"append", "K1", "V"}, {"get", "K1"}, {"strlen", "K1"}, {"set", "K1", ""}, {"getrange", "K1", "0", "1"}, {"mset", "K1", "V", "K2", "V"}},
	"list": {{"lpush", "K1", "V", "V", "V"}, {"rpush", "K1", "V", "V"}, {"lpop", "K1"}, {"rpop", "K1"}, {"lrange", "K1", "0", "-1"}, {"llen", "K1"}, {"ltrim", "K1", "1", "-1"},
		{"linsert", "K1", "before", "V", "V"}, {"lrem", "K1", "0", "V"}, {"lset", "K1", "0", "V"}, {"lindex", "K1", "-1"}},
	"hash": {{"hset", "K1", "f", "V", "g", "V"}, {"hset", "K1", "f", "V", "g", "V", "h", "V"}, {"hgetall", "K1"}, {"hmget", "K1", "g", "f"}, {"hdel", "K1", "f", "g"}, {"hlen", "K1"}, {"hvals", "K1"}, {"hkeys", "K1"}},
	"set": {{"sadd", "K1", "V", "V", "V"}, {"sadd", "K2", "V", "V"}, {"srem", "K1", "V", "V"}, {"smembers", "K1"}, {"sinter", "K1", "K2"}, {"sunion", "K1", "K2"}, {"sdiff", "K1", "K2"},
		{"spop", "K1"}, {"spop", "K1", "2"}, {"scard", "K1"}, {"srandmember", "K1", "2"}},
}

func shaped(rng *rand.Rand, shape string, id int, nv int) Req {
	t := linShapes[shape][rng.Intn(len(linShapes[shape]))]
	q := make([]string, len(t))
	for i, s := range t {
		switch {
		case s == "V":
			q[i] = string(rune('a' + rng.Intn(nv)))
		case len(s) == 2 && s[0] == 'K':
			q[i] = fmt.Sprintf("%s#%d", s, id)
		default:
			q[i] = s
		}
	}
	return Req{Q: q}
}

// linDriver: some clients work on the same keys at the same time
func linDriver(sink *Sink) {
	pool := newPool(1+workers/3, startOpts{})
	defer pool.kill()
	shapes := []string{"multi", "counter", "append", "list", "hash", "set"}
	parallel(amount, func(i int, rng *rand.Rand) {
		s := pool.get(i)
		shape := shapes[i%len(shapes)]
		h := newHistory("lin/" + shape)
		n := 2 + rng.Intn(4)
		window := 1
		if rng.Intn(3) == 0 {
			n = 2 + rng.Intn(2)
			window = 2 + rng.Intn(4)
		}
		ops := scale / n
		// values are often unique, so a stale read shows
		nv := []int{3, 26}[rng.Intn(2)]
		var wg sync.WaitGroup
		var start sync.WaitGroup
		start.Add(1)
		var vm sync.Mutex
		var bad string
		for k := 0; k < n; k++ {
			c := mustDial(s.Port)
			defer c.close()
			id := h.Client()
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				start.Wait()
				sent, got := 0, 0
				fail := func(format string, a ...interface{}) {
					vm.Lock()
					defer vm.Unlock()
					bad = fmt.Sprintf(format, a...)
				}
				for got < ops {
					if sent < ops && sent-got < window {
						w := 1
						if window > 1 {
							w = 1 + r.Intn(window-(sent-got))
						}
						var b strings.Builder
						for ; w > 0 && sent < ops; w-- {
							q := shaped(r, shape, i, nv)
							h.Inv(id, 1, q)
							b.WriteString(q.encode())
							sent++
						}
						if err := c.write(b.String()); err != nil {
							fail("write fails: %s", err)
							return
						}
						if window > 1 && r.Intn(3) == 0 {
							continue
						}
					}
					rep, err := c.read()
					if err != nil {
						fail("no well-formed reply to %s: %s", show(h.Clients[id][got].Req), err)
						return
					}
					h.Ret(id, got, rep)
					got++
					if r.Intn(10) == 0 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
				}
			}(k)
		}
		start.Done()
		wg.Wait()
		sink.put(h)
		if bad != "" {
			violationf("%s", bad)
		}
	})
}

// segments writes a string in pieces
func (c *Client) segments(s string, rng *rand.Rand) error {
	style := rng.Intn(5)
	for len(s) > 0 {
		n := len(s)
		switch style {
		case 0:
		case 1:
			n = 1 + rng.Intn(3)
			if len(s) > 2000 {
				n = 1 + rng.Intn(300)
			}
		case 2:
			n = 1 + rng.Intn(40)
		case 3:
			n = 1 + rng.Intn(5000)
		case 4: // between \r and \n, or right after a line
			if i := strings.IndexByte(s, '\r'); i >= 0 && i+1 < len(s) {
				n = i + 1 + rng.Intn(2)
			}
			if len(s) > 3000 {
				n += rng.Intn(200)
			}
		}
		if n > len(s) {
			n = len(s)
		}
		if err := c.write(s[:n]); err != nil {
			return err
		}
		s = s[n:]
		if rng.Intn(20) == 0 {
			time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
		}
	}
	return nil
}

// pipeDriver: every client works on keys of its own and sends many requests before it reads, in
// arbitrary segments, while other clients come and go. So every reply is determined.
func pipeDriver(sink *Sink) {
	pool := newPool(1+workers/4, startOpts{})
	defer pool.kill()

	stop := make(chan struct{})
	var churn sync.WaitGroup
	for w := 0; w < len(pool.s)*2; w++ {
		churn.Add(1)
		go func(w int) {
			defer churn.Done()
			r := rand.New(rand.NewSource(seed*77 + int64(w)))
			for {
				select {
				case <-stop:
					return
				default:
				}
				churnOnce(pool, w, r)
				// what it sent is executed before the next comes, so no backlog builds up
				if c, err := dial(pool.get(w).Port); err == nil {
					_, _ = c.do(rq("get", "churn"))
					c.close()
				}
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
		}(w)
	}
	defer churn.Wait()
	defer close(stop)

	parallel(amount, func(i int, rng *rand.Rand) {
		s := pool.get(i)
		h := newHistory("pipe")
		defer func() { sink.put(h) }()
		c := mustDial(s.Port)
		defer c.close()
		g := newG(rng, 2, 4)
		for k := range g.keys {
			g.keys[k] += fmt.Sprintf("#%d", i)
		}
		g.big = rng.Intn(3) == 0
		g.odd = 0
		for left := scale; left > 0; {
			burst := 1 + rng.Intn(30)
			if rng.Intn(3) == 0 {
				burst = 100 + rng.Intn(300)
			}
			if burst > left {
				burst = left
			}
			left -= burst
			var qs []Req
			var b strings.Builder
			for k := 0; k < burst; k++ {
				q := g.cmd(pick(rng, familyNames))
				if rng.Intn(3) == 0 {
					// a reply of its own, so a misplaced one shows
					q = rq("append", g.keys[0], fmt.Sprintf("%d,", k))
				}
				qs = append(qs, q)
				b.WriteString(q.encode())
			}
			werr := make(chan error, 1)
			r2 := rand.New(rand.NewSource(rng.Int63()))
			go func() { werr <- c.segments(b.String(), r2) }()
			if rng.Intn(2) == 0 {
				// read only when everything is written, unless that would block both sides
				select {
				case err := <-werr:
					werr <- err
				case <-time.After(200 * time.Millisecond):
				}
			}
			for k, q := range qs {
				r, err := c.read()
				if err != nil {
					violationf("no well-formed reply to request %d of %d (%s) in a pipeline: %s", k+1, burst, show(q), err)
				}
				h.C(1, q, r)
			}
			if err := <-werr; err != nil {
				violationf("write fails: %s", err)
			}
			switch rng.Intn(12) {
			case 0, 1:
				c.close()
				c = mustDial(s.Port)
			case 2, 3:
				c = comeBack(c, s.Port, rng)
			}
		}
		c.silent("pipelining")
	})
}

// comeBack leaves with many requests that are not answered yet, and comes again from the same address:
// those answers are for somebody who has left
func comeBack(c *Client, port int, rng *rand.Rand) *Client {
	var b strings.Builder
	for k := 100 + rng.Intn(3000); k > 0; k-- {
		b.WriteString(rq("strlen", "nobody's").encode())
	}
	_ = c.write(b.String())
	local := c.conn.LocalAddr()
	_ = c.conn.(*net.TCPConn).SetLinger(0)
	c.close()
	d := net.Dialer{LocalAddr: local, Timeout: 10 * time.Second}
	nc, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return mustDial(port)
	}
	return newClient(nc)
}

// churnOnce is a client that comes, sends something, and goes at any moment
func churnOnce(pool *srvPool, w int, r *rand.Rand) {
	s := pool.get(w)
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), 5*time.Second)
	if err != nil {
		return
	}
	defer conn.Close()
	g := newG(r, 2, 3)
	var b strings.Builder
	for k := r.Intn(40); k > 0; k-- {
		q := g.cmd(pick(r, familyNames))
		if len(q.Q) > 1 && !q.has(1) && q.Q[0] != "mset" {
			q = rq("append", fmt.Sprintf("churn%d", w), "x")
		} else {
			q = rq("get", "churn")
		}
		b.WriteString(q.encode())
	}
	msg := b.String()
	if len(msg) > 0 && r.Intn(2) == 0 {
		msg = msg[:r.Intn(len(msg))]
	}
	_, _ = conn.Write([]byte(msg))
	switch r.Intn(4) {
	case 0:
		if t, ok := conn.(*net.TCPConn); ok {
			_ = t.SetLinger(0)
		}
	case 1:
		_ = conn.SetReadDeadline(time.Now().Add(time.Duration(r.Intn(2000)) * time.Microsecond))
		_, _ = conn.Read(make([]byte, 100))
	case 2:
		time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
	}
}

// promptly bounds what takes milliseconds
const promptly = 15 * time.Second

// stallDriver: clients that do not read, stop in the middle of a request, or say nothing; the
// others are served meanwhile, and the stalled ones get everything once they go on.
func stallDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		s := fresh(startOpts{})
		defer s.kill()
		stalled := 1 + rng.Intn(3)
		if i%3 == 1 {
			stalled = 4 + rng.Intn(17)
		}

		type sleeper struct {
			c  *Client
			h  *History
			qs []Req
			w  chan error
		}
		var sleepers []*sleeper
		for k := 0; k < stalled; k++ {
			sl := &sleeper{c: mustDial(s.Port), h: newHistory("stalled"), w: make(chan error, 1)}
			defer sl.c.close()
			key := fmt.Sprintf("big%d", k)
			value := strings.Repeat(string(rune('a'+k)), 60000)
			set := rq("set", key, value)
			sl.h.C(1, set, sl.c.mustDo(set))
			var b strings.Builder
			n := 100 + rng.Intn(150) // 6 to 15 MB of replies: more than the sockets hold
			if stalled > 3 {
				n = 110
			}
			for j := 0; j < n; j++ {
				q := rq("get", key)
				switch rng.Intn(4) {
				case 0:
					q = rq("append", key, string(rune('a'+j%26)))
				case 1:
					q = rq("getrange", key, "0", fmt.Sprintf("%d", 50000+j))
				}
				sl.qs = append(sl.qs, q)
				b.WriteString(q.encode())
			}
			sleepers = append(sleepers, sl)
			go func() { sl.w <- sl.c.write(b.String()) }()
		}
		// clients in the middle of a request, and silent ones
		var halves []*Client
		half := rq("append", "half", "value of some length").encode()
		for k := 0; k < 3; k++ {
			c := mustDial(s.Port)
			defer c.close()
			if err := c.write(half[:1+rng.Intn(len(half)-2)]); err != nil {
				violationf("write fails: %s", err)
			}
			halves = append(halves, c)
			defer mustDial(s.Port).close()
		}
		time.Sleep(time.Duration(rng.Intn(300)) * time.Millisecond)

		// everybody else
		h := newHistory("others")
		g := newG(rng, 2, 4)
		for n := 0; n < scale; n++ {
			c := mustDial(s.Port)
			for k := 0; k < 10; k++ {
				q := g.cmd(pick(rng, familyNames))
				t := time.Now()
				r := c.mustDo(q)
				if d := time.Since(t); d > promptly {
					violationf("a reply took %s while other clients are stalled", d)
				}
				h.C(1, q, r)
			}
			c.close()
		}
		sink.put(h)

		for _, sl := range sleepers {
			for j, q := range sl.qs {
				r, err := sl.c.read()
				if err != nil {
					violationf("a client that was stalled gets no well-formed reply to request %d of %d: %s", j+1, len(sl.qs), err)
				}
				sl.h.C(1, q, r)
			}
			if err := <-sl.w; err != nil {
				violationf("write fails: %s", err)
			}
			sl.c.silent("stalled client")
			sink.put(sl.h)
		}
	})
}
