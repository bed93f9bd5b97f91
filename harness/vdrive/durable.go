package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	drivers["graceful"] = gracefulDriver
	drivers["kill"] = killDriver
	drivers["cut"] = cutDriver
}

// crowd is some clients that send random requests until they are stopped or lose their connection
type crowd struct {
	wg   sync.WaitGroup
	quit chan struct{}
	mu   sync.Mutex
	bad  string
}

func (w *crowd) failed(format string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.bad = fmt.Sprintf(format, a...)
}

func (w *crowd) verdict() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bad != "" {
		violationf("%s", w.bad)
	}
}

// join adds n clients of node; each sends up to ops requests, up to window of them ahead
func (w *crowd) join(h *History, node int, s *Server, n, ops, window int, rng *rand.Rand, gen func(r *rand.Rand, k int) Req) {
	for k := 0; k < n; k++ {
		c, err := dial(s.Port)
		if err != nil {
			violationf("the server does not accept a client: %s", err)
		}
		id := h.Client()
		r := rand.New(rand.NewSource(rng.Int63()))
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			defer c.close()
			sent, got := 0, 0
			for got < ops {
				select {
				case <-w.quit:
					// read what is on its way
					for ; got < sent; got++ {
						rep, err := c.read()
						if err != nil {
							if !gone(err) {
								w.failed("no well-formed reply: %s", err)
							}
							return
						}
						h.Ret(id, got, rep)
					}
					return
				default:
				}
				if sent < ops && sent-got < window {
					q := gen(r, sent)
					h.Inv(id, node, q)
					sent++
					if err := c.write(q.encode()); err != nil {
						return
					}
					if window > 1 && r.Intn(3) > 0 {
						continue
					}
				}
				// the farewell of a stopping server
				if b, err := c.r.Peek(1); err == nil && b[0] == farewell[0] {
					return
				}
				rep, err := c.read()
				if err != nil {
					if !gone(err) {
						w.failed("no well-formed reply: %s", err)
					}
					return
				}
				h.Ret(id, got, rep)
				got++
				if r.Intn(20) == 0 {
					time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
				}
			}
		}()
	}
}

func newCrowd() *crowd { return &crowd{quit: make(chan struct{})} }

// writes generates effective and unique changes, whose order and presence the data shows
func writes(keys []string) func(r *rand.Rand, k int) Req {
	return func(r *rand.Rand, k int) Req {
		key := pick(r, keys)
		u := fmt.Sprintf("%d.%d", k, r.Intn(1000))
		if r.Intn(12) == 0 {
			// long ones between short ones
			u += strings.Repeat("x", []int{100, 1500, 2100, 4000, 4090, 5000}[r.Intn(6)]+r.Intn(50))
			return []Req{rq("set", key, u), rq("rpush", key, u), rq("hset", key, "f", u)}[r.Intn(3)]
		}
		switch r.Intn(10) {
		case 0:
			return rq("set", key, u)
		case 1, 2:
			return rq("append", key, u+",")
		case 3:
			return rq("mset", keys[0], u, keys[len(keys)-1], u)
		case 4:
			return rq("rpush", key, u, u+"+")
		case 5:
			return rq("lpush", key, u)
		case 6:
			return rq("ltrim", key, "0", "2")
		case 7:
			return rq("hset", key, "f", u, "g", u)
		case 8:
			return rq("sadd", key, u)
		default:
			return rq("lpop", key)
		}
	}
}

func (s *Server) stopSome(rng *rand.Rand) {
	var err error
	switch rng.Intn(4) {
	case 0:
		err = s.term(syscall.SIGTERM, startTimeout)
	case 1:
		err = s.term(syscall.SIGINT, startTimeout)
	case 2:
		s.send(startOpts{Op: "stop", ID: 1, N: 1 + rng.Intn(3)})
		err = s.ended(startTimeout)
	default:
		_ = s.cmd.Process.Signal(syscall.SIGTERM)
		s.send(startOpts{Op: "stop", ID: 1, N: 1})
		err = s.ended(startTimeout)
	}
	if err != nil {
		violationf("%s", err)
	}
}

// ended waits for the process
func (s *Server) ended(d time.Duration) error {
	select {
	case <-s.exited:
		if s.err != nil {
			return fmt.Errorf("the server ended with %v: %s", s.err, clipTail(s.stderr.String()))
		}
		return nil
	case <-time.After(d):
		return fmt.Errorf("the server did not end within %s after it was stopped", d)
	}
}

func dbFile(kind string, i int) string {
	f := fmt.Sprintf("%s/%s-%d.vpf", scratch, kind, i)
	_ = os.Remove(f)
	return f
}

func look(h *History, node int, s *Server, keys []string) {
	c := mustDial(s.Port)
	defer c.close()
	for _, q := range sweep(keys) {
		h.C(node, q, c.mustDo(q))
	}
}

// gracefulDriver: any requests, a graceful stop, a restart, again and again
func gracefulDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		h := newHistory("graceful")
		defer func() { sink.put(h) }()
		file := dbFile("graceful", i)
		defer os.Remove(file)
		s := fresh(startOpts{File: file, Replica: i%3 == 0})
		defer func() { s.kill() }()
		g := newG(rng, 2+rng.Intn(3), 3+rng.Intn(4))
		g.big = i%3 == 1
		g.odd = 0.12
		for cycle := 2 + rng.Intn(3); cycle > 0; cycle-- {
			c := mustDial(s.Port)
			if i == 0 && cycle == 2 {
				for _, q := range regressions(familyNames) {
					h.C(1, q, c.mustDo(q))
				}
			}
			n := rng.Intn(scale)
			if rng.Intn(5) == 0 {
				n = rng.Intn(3)
			}
			for k := 0; k < n; k++ {
				q := g.cmd(pick(rng, familyNames))
				h.C(1, q, c.mustDo(q))
			}
			if rng.Intn(2) == 0 {
				// stopped while it works
				w := newCrowd()
				if rng.Intn(2) == 0 {
					w.join(h, 1, s, 2+rng.Intn(2), 25, 1, rng, writes(g.keys[:2]))
				} else {
					w.join(h, 1, s, 1, 60, 6, rng, writes(g.keys[:2]))
				}
				time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
				s.stopSome(rng)
				w.wg.Wait()
				w.verdict()
			} else {
				s.stopSome(rng)
			}
			c.close()
			h.E("stop", 1)
			s = again(s)
			look(h, 1, s, g.keys)
		}
	})
}

// killDriver: the server is killed at any moment
func killDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		h := newHistory("kill")
		defer func() { sink.put(h) }()
		file := dbFile("kill", i)
		defer os.Remove(file)
		s := fresh(startOpts{File: file, Replica: true})
		defer func() { s.kill() }()
		keys := []string{fmt.Sprintf("a%d", i), "b"}
		g := newG(rng, 2, 3)
		g.keys = keys
		g.noPop = true
		g.big = i%3 == 2
		// with a replica the order of the whole log matters, so only one client sends at a time then
		sync := rng.Intn(3) == 0
		for cycle := 1 + rng.Intn(3); cycle > 0; cycle-- {
			c := mustDial(s.Port)
			for k := rng.Intn(scale); k > 0; k-- {
				q := writes(keys)(rng, k)
				if rng.Intn(3) == 0 {
					q = g.cmd(pick(rng, familyNames))
				}
				h.C(1, q, c.mustDo(q))
			}
			if sync && rng.Intn(2) == 0 {
				// what a replica was sent is on the disk
				h.Nodes = 2
				replicate(h, s, i)
			}
			for k := rng.Intn(scale); k > 0; k-- {
				q := writes(keys)(rng, k)
				h.C(1, q, c.mustDo(q))
			}
			w := newCrowd()
			if rng.Intn(3) > 0 {
				if !sync && rng.Intn(2) == 0 {
					w.join(h, 1, s, 2, 25, 1, rng, writes(keys))
				} else {
					w.join(h, 1, s, 1, 60, 6, rng, writes(keys))
				}
				time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
			}
			if rng.Intn(5) == 0 {
				s.mustTerm()
				w.wg.Wait()
				h.E("stop", 1)
			} else {
				s.kill()
				w.wg.Wait()
				h.E("crash", 1)
			}
			c.close()
			w.verdict()
			s = again(s)
			look(h, 1, s, keys)
		}
	})
}

// replicate starts a replica with an empty file, and stops it again
func replicate(h *History, m *Server, i int) {
	file := dbFile("kill-replica", i)
	defer os.Remove(file)
	h.EM("fetch", 2, 1)
	r := fresh(startOpts{File: file, Master: fmt.Sprintf("127.0.0.1:%d", m.RPort)})
	h.E("fetched", 2)
	r.kill()
	h.E("own", 2)
}

// records finds the ends of the complete records of a log
func records(data []byte) []int {
	var ends []int
	for at := 0; at+4 <= len(data); {
		n := int(binary.LittleEndian.Uint32(data[at:]))
		if n < 0 || at+4+n > len(data) {
			break
		}
		at += 4 + n
		ends = append(ends, at)
	}
	return ends
}

// effective generates changes of which every single one has an effect
type effective struct {
	*rand.Rand
	n    int
	list map[string]int
	set  map[string][]string
	big  bool
}

func (e *effective) next(keys []string) Req {
	key := pick(e.Rand, keys)
	e.n++
	u := fmt.Sprintf("v%d", e.n)
	if e.Intn(6) == 0 {
		u += "\xff\xfe\r\n\x00"
	}
	if e.big && e.Intn(4) == 0 {
		u += strings.Repeat("x", 3000+e.Intn(4000))
	}
	switch e.Intn(12) {
	case 0:
		return rq("set", key, u)
	case 1:
		return rq("append", key, u)
	case 2:
		return rq("mset", key, u, keys[0]+"x", u)
	case 3:
		e.list[key] += 2
		return rq("rpush", key, u, u+"b")
	case 4:
		if e.list[key] > 0 {
			e.list[key]--
			return rq("lpop", key)
		}
		e.list[key]++
		return rq("lpush", key, u)
	case 5:
		if e.list[key] > 0 {
			return rq("lset", key, "0", u)
		}
		return rq("hset", key, u, u)
	case 6:
		if e.list[key] > 1 {
			e.list[key]--
			return rq("ltrim", key, "1", "-1")
		}
		return rq("hset", key, "f", u, "g", u)
	case 7:
		return rq("hset", key, "f", u)
	case 8, 9:
		e.set[key] = append(e.set[key], u)
		return rq("sadd", key, u)
	case 10:
		if n := len(e.set[key]); n > 0 {
			m := e.set[key][n-1]
			e.set[key] = e.set[key][:n-1]
			return rq("srem", key, m)
		}
		e.set[key] = append(e.set[key], u)
		return rq("sadd", key, u)
	default:
		return rq("hset", key, "n", u)
	}
}

// cutDriver: the file of a stopped server loses its tail at some byte, gets garbage at its end, or a
// record that cannot be decoded; then the server is started and goes on.
func cutDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		file := dbFile("cut", i)
		defer os.Remove(file)
		keys := []string{"a", "b\r\n"}
		e := &effective{Rand: rng, list: map[string]int{}, set: map[string][]string{}, big: i%4 == 3}
		base := newHistory("cut")
		s := fresh(startOpts{File: file})
		c := mustDial(s.Port)
		n := 3 + rng.Intn(10)
		for k := 0; k < n; k++ {
			q := e.next(keys)
			base.C(1, q, c.mustDo(q))
		}
		c.close()
		s.mustTerm()
		data, err := os.ReadFile(file)
		if err != nil {
			violationf("the database file is missing after a graceful stop: %s", err)
		}
		ends := records(data)
		if len(ends) == 0 || len(ends) != n || ends[n-1] != len(data) {
			// not one record per request; then only the restart tells
			s = again(s)
			base.E("stop", 1)
			look(base, 1, s, keys)
			s.kill()
			sink.put(base)
			return
		}
		start := append([]int{0}, ends...)

		// one damage: the bytes of the file, and what happened to its records
		try := func(what string, data []byte, event string, p int) {
			h := newHistory("cut " + what)
			h.Ev = append(h.Ev, base.Ev...)
			defer func() { sink.put(h) }()
			if err := os.WriteFile(file, data, 0644); err != nil {
				fatal("%s", err)
			}
			h.E("stop", 1)
			if event != "" {
				h.EP(event, 1, p)
			}
			s := again(s)
			defer func() { s.kill() }()
			if rng.Intn(3) > 0 {
				look(h, 1, s, keys)
			}
			for restarts := 1 + rng.Intn(2); restarts > 0; restarts-- {
				c := mustDial(s.Port)
				for k := rng.Intn(3); k >= 0; k-- {
					q := writes(keys)(rng, 100+k)
					h.C(1, q, c.mustDo(q))
				}
				c.close()
				s.mustTerm()
				h.E("stop", 1)
				s = again(s)
				look(h, 1, s, keys)
			}
		}

		complete := func(b int) int {
			p := 0
			for p < n && start[p+1] <= b {
				p++
			}
			return p
		}
		cuts := map[int]bool{}
		if mode == "all" {
			for b := 0; b <= len(data); b++ {
				cuts[b] = true
			}
		}
		for k := 0; k < scale; k++ {
			p := rng.Intn(n)
			switch rng.Intn(3) {
			case 0: // around the length of a record
				cuts[start[p]+rng.Intn(6)] = true
			case 1:
				cuts[start[p+1]-rng.Intn(4)] = true
			default:
				cuts[start[p]+rng.Intn(start[p+1]-start[p])] = true
			}
		}
		for b := range cuts {
			if b < 0 || b > len(data) {
				continue
			}
			try(fmt.Sprintf("at byte %d of %d", b, len(data)), data[:b], "cut", complete(b))
		}
		for k := 0; k < 1+scale/4; k++ {
			// an unreadable record
			p := rng.Intn(n)
			bad := append([]byte{}, data...)
			for j := start[p] + 4; j < start[p+1]; j++ {
				bad[j] = 0xff
			}
			try(fmt.Sprintf("record %d unreadable", p+1), bad, "damage", p+1)
			// and then a cut in a later record
			if p+1 < n {
				q := p + 1 + rng.Intn(n-p-1)
				b := start[q] + rng.Intn(start[q+1]-start[q])
				h := bad[:b]
				func() {
					hist := newHistory("cut after unreadable")
					hist.Ev = append(hist.Ev, base.Ev...)
					defer func() { sink.put(hist) }()
					if err := os.WriteFile(file, h, 0644); err != nil {
						fatal("%s", err)
					}
					hist.E("stop", 1)
					hist.EP("damage", 1, p+1)
					hist.EP("cut", 1, complete(b)-1)
					s := again(s)
					defer func() { s.kill() }()
					look(hist, 1, s, keys)
					c := mustDial(s.Port)
					r := rq("append", "a", "after")
					hist.C(1, r, c.mustDo(r))
					c.close()
					s.mustTerm()
					hist.E("stop", 1)
					s = again(s)
					look(hist, 1, s, keys)
				}()
			}
			// garbage at the end
			tails := []string{"\x10", "\x10\x00\x00", "\x10\x00\x00\x00abc", "\xff\xff\xff\x7f", "\xff\xff\xff\xff", "\xff\xff\xff\xffgarbage", "\x03\x00\x00\x00\xff\xff\xff", "\x03\x00\x00\x00\xff\xff\xff\x09\x00", "\x00\x00\x00\x80x",
				"\x04\x00\x00\x00\xff\xff\xff\xff\x04\x00\x00\x00\xff\xff\xff\xff\x08\x00\x00\x00"}
			try("garbage", append(append([]byte{}, data...), pick(rng, tails)...), "", 0)
			junk := make([]byte, 5+rng.Intn(60))
			rng.Read(junk)
			junk[0], junk[1], junk[2], junk[3] = byte(len(junk)), 1, 0, 0
			try("random garbage", append(append([]byte{}, data...), junk...), "", 0)
		}
	})
}
