package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	drivers["repl"] = replDriver
	drivers["breaks"] = breaksDriver
}

// sequenced generates changes whose replies tell most of their order
func sequenced(key string, solo bool) func(r *rand.Rand, k int) Req {
	return func(r *rand.Rand, k int) Req {
		u := fmt.Sprintf("%d.%d,", k, r.Intn(100))
		if !solo {
			return rq("append", key, u)
		}
		switch r.Intn(8) {
		case 0:
			return rq("mset", key, u, key+"x", u)
		case 1:
			return rq("rpush", key, u)
		case 2:
			return rq("spop", key)
		case 3:
			return rq("sadd", key, u, u+"b")
		case 4:
			return rq("ltrim", key, "-3", "-1")
		default:
			return rq("append", key, u)
		}
	}
}

func (s *Server) addr() string { return fmt.Sprintf("127.0.0.1:%d", s.RPort) }

// starting launches server on its ports, or on new ones when they were taken
func starting(o startOpts) *Server {
	if o.Port == 0 {
		return fresh(o)
	}
	s, err := launch(o)
	if err != nil {
		violationf("a server does not start again on the same ports and file: %s", err)
	}
	return s
}

// replDriver: replicas with logs of their own synchronise with a master that is in use
func replDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		h := newHistory("repl")
		defer func() { sink.put(h) }()
		keys := []string{"a", fmt.Sprintf("b%d\r\n", i)}
		g := newG(rng, 2, 3)
		g.keys = keys
		g.big = i%5 == 4
		work := func(node int, s *Server, n int) {
			c := mustDial(s.Port)
			defer c.close()
			for ; n > 0; n-- {
				q := writes(keys)(rng, n)
				if rng.Intn(3) == 0 {
					q = g.cmd(pick(rng, familyNames))
				}
				h.C(node, q, c.mustDo(q))
			}
		}

		nrep := 1 + rng.Intn(3)
		h.Nodes = 1 + nrep
		s := make([]*Server, 2+nrep)
		files := make([]string, 2+nrep)
		defer func() {
			for n, x := range s {
				if x != nil {
					x.kill()
				}
				if files[n] != "" {
					_ = os.Remove(files[n])
				}
			}
		}()
		for n := 1; n <= 1+nrep; n++ {
			files[n] = dbFile("repl", i*10+n)
		}
		s[1] = fresh(startOpts{File: files[1], Replica: true})
		work(1, s[1], rng.Intn(scale))
		switch rng.Intn(4) {
		case 0:
			s[1].mustTerm()
			h.E("stop", 1)
			s[1] = again(s[1])
			work(1, s[1], rng.Intn(4))
		}
		// the replicas had a life before
		opts := make([]startOpts, 2+nrep)
		for n := 2; n <= 1+nrep; n++ {
			opts[n] = startOpts{File: files[n], Replica: rng.Intn(2) == 0}
			if rng.Intn(2) == 0 {
				s[n] = fresh(opts[n])
				work(n, s[n], rng.Intn(6))
				s[n].mustTerm()
				h.E("stop", n)
				opts[n] = s[n].startOpts
				s[n] = nil
			}
		}

		for round := 1 + rng.Intn(2); round > 0; round-- {
			w := newCrowd()
			if rng.Intn(3) > 0 {
				if rng.Intn(3) > 0 {
					w.join(h, 1, s[1], 1, 30, 1+rng.Intn(3), rng, sequenced(keys[0], true))
				} else {
					w.join(h, 1, s[1], 2, 20, 1, rng, sequenced(keys[0], false))
				}
			}
			var wg sync.WaitGroup
			problems := make([]string, 2+nrep)
			for n := 2; n <= 1+nrep; n++ {
				n := n
				opts[n].Master = s[1].addr()
				d := time.Duration(rng.Intn(3000)) * time.Microsecond
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							v, ok := e.(violation)
							if !ok {
								panic(e)
							}
							problems[n] = v.text
						}
					}()
					time.Sleep(d)
					h.EM("fetch", n, 1)
					s[n] = starting(opts[n])
					h.E("fetched", n)
					look(h, n, s[n], keys)
				}()
			}
			wg.Wait()
			time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
			close(w.quit)
			w.wg.Wait()
			w.verdict()
			for _, p := range problems {
				if p != "" {
					violationf("%s", p)
				}
			}
			for n := 1; n <= 1+nrep; n++ {
				look(h, n, s[n], keys)
			}
			// everybody goes on alone
			for n := 1; n <= 1+nrep; n++ {
				work(n, s[n], rng.Intn(4))
			}
			for n := 1; n <= 1+nrep; n++ {
				look(h, n, s[n], keys)
			}
			// and is restarted in some way; what a replica was sent survives a crash of the master
			for n := 2; n <= 1+nrep; n++ {
				opts[n] = s[n].startOpts
				if rng.Intn(4) == 0 {
					s[n].kill()
					h.E("crash", n)
				} else {
					s[n].mustTerm()
					h.E("stop", n)
				}
				s[n] = nil
				if rng.Intn(3) == 0 {
					opts[n].Master = ""
					h.E("own", n)
					s[n] = starting(opts[n])
					look(h, n, s[n], keys)
					s[n].mustTerm()
					h.E("stop", n)
					s[n] = nil
				}
			}
			if rng.Intn(3) == 0 {
				if rng.Intn(2) == 0 {
					s[1].kill()
					h.E("crash", 1)
				} else {
					s[1].mustTerm()
					h.E("stop", 1)
				}
				s[1] = again(s[1])
				look(h, 1, s[1], keys)
			}
		}
	})
}

// fakeMaster accepts one replica after the other and treats it with fn
func fakeMaster(fn func(c *net.TCPConn)) (addr string, stop func()) {
	var l net.Listener
	err := error(io.EOF)
	for k := 0; k < 50 && err != nil; k++ {
		l, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", freePort()))
	}
	if err != nil {
		fatal("%s", err)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			fn(c.(*net.TCPConn))
			_ = c.Close()
		}
	}()
	return l.Addr().String(), func() { _ = l.Close(); wg.Wait() }
}

// transfer is everything the master sends to a replica
func transfer(addr string) []byte {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		violationf("the master does not accept a replica: %s", err)
	}
	defer c.Close()
	_ = c.SetReadDeadline(time.Now().Add(replyTimeout))
	data, err := io.ReadAll(c)
	if err != nil && !gone(err) {
		violationf("the transfer to a replica does not end: %s", err)
	}
	return data
}

// breaksDriver: synchronisation fails in every way, and replicas behave badly
func breaksDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		h := newHistory("breaks")
		h.Nodes = 3
		defer func() { sink.put(h) }()
		keys := []string{"a", "b"}
		mfile, rfile, rfile2 := dbFile("breaks-m", i), dbFile("breaks-r", i), dbFile("breaks-r2", i)
		defer os.Remove(mfile)
		defer os.Remove(rfile)
		defer os.Remove(rfile2)
		big := i%4 == 3
		if big {
			// records that cannot be decoded make the transfer larger than what the sockets hold
			rec := append([]byte{0, 0, 16, 0}, []byte(strings.Repeat("\xff", 1<<20))...)
			f, err := os.Create(mfile)
			if err != nil {
				fatal("%s", err)
			}
			for k := 0; k < 12; k++ {
				_, _ = f.Write(rec)
			}
			_ = f.Close()
		}
		m := fresh(startOpts{File: mfile, Replica: true})
		defer func() { m.kill() }()
		work := func(node int, s *Server, n int) {
			c := mustDial(s.Port)
			defer c.close()
			for ; n > 0; n-- {
				q := writes(keys)(rng, n)
				t := time.Now()
				h.C(node, q, c.mustDo(q))
				if d := time.Since(t); d > promptly {
					violationf("a reply of a master took %s", d)
				}
			}
		}
		work(1, m, 2+rng.Intn(8))
		r := fresh(startOpts{File: rfile})
		defer func() { r.kill() }()
		work(2, r, rng.Intn(6))
		r.mustTerm()
		h.E("stop", 2)

		whole := transfer(m.addr())
		if len(whole) < 4 || int(binary.LittleEndian.Uint32(whole)) != len(whole)-4 {
			whole = nil // not the protocol known here
		}

		closing := func(c *net.TCPConn) {
			if rng.Intn(2) == 0 {
				_ = c.SetLinger(0)
			} else {
				_ = c.CloseWrite()
				time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
			}
		}
		fetched := false
		for k := 0; k < scale; k++ {
			addr, stop := "", func() {}
			what := ""
			ok := false
			kind := rng.Intn(8)
			if whole != nil && rng.Intn(2) == 0 {
				kind = 8
			}
			switch kind {
			case 0:
				addr, what = fmt.Sprintf("127.0.0.1:%d", freePort()), "nobody listens"
			case 1:
				addr, what = pick(rng, []string{"not an address", "127.0.0.1", "127.0.0.1:99999", ":", "no.such.host.invalid:1"}), "bad address"
			case 2:
				addr, stop = fakeMaster(closing)
				what = "closed at once"
			case 3:
				n := rng.Intn(4)
				addr, stop = fakeMaster(func(c *net.TCPConn) { _, _ = c.Write([]byte("\x10\x00\x00\x00")[:n]); closing(c) })
				what = "part of the length"
			case 4:
				addr, stop = fakeMaster(func(c *net.TCPConn) { _, _ = c.Write([]byte("\x00\x10\x00\x00")); closing(c) })
				what = "only the length"
			case 5: // a real master without a file
				e := fresh(startOpts{Replica: true})
				addr, stop = e.addr(), e.kill
				what = "master without a file"
			case 6: // the master dies while it sends; it comes back
				if !big {
					continue
				}
				var once sync.Once
				mp := m
				addr, stop = fakeMaster(func(c *net.TCPConn) {
					up, err := net.Dial("tcp", mp.addr())
					if err != nil {
						return
					}
					defer up.Close()
					_, _ = io.CopyN(c, up, int64(1+rng.Intn(1<<20)))
					once.Do(func() { mp.kill() })
					_, _ = io.CopyN(c, up, 1<<19)
				})
				what = "the master dies"
			case 7: // a master whose own log is torn
				body := ""
				if whole != nil {
					body = string(whole[4:])
				}
				if len(body) == 0 || big {
					continue
				}
				body = body[:1+rng.Intn(len(body)-1)]
				ends := records([]byte(body))
				if len(ends) > 0 && ends[len(ends)-1] == len(body) {
					continue
				}
				l := make([]byte, 4)
				binary.LittleEndian.PutUint32(l, uint32(len(body)))
				addr, stop = fakeMaster(func(c *net.TCPConn) { _, _ = c.Write(append(l, body...)); closing(c) })
				what = "a log that ends in the middle of a record"
			case 8:
				n := rng.Intn(len(whole) + 1)
				switch ends := records(whole[4:]); {
				case rng.Intn(3) == 0:
					n = len(whole) - rng.Intn(3)
				case len(ends) > 0 && rng.Intn(2) == 0: // between two records, or next to that
					n = 4 + ends[rng.Intn(len(ends))] + []int{0, 0, 0, 4, -1, 1}[rng.Intn(6)]
					if n > len(whole) {
						n = len(whole)
					}
				}
				if n < 0 {
					n = 0
				}
				ok = n == len(whole)
				piece := whole[:n]
				addr, stop = fakeMaster(func(c *net.TCPConn) {
					_, _ = c.Write(piece)
					if n == len(whole) {
						// all is sent, do not reset it away
						_ = c.CloseWrite()
						_ = c.SetReadDeadline(time.Now().Add(5 * time.Second))
						_, _ = c.Read(make([]byte, 1))
						return
					}
					closing(c)
				})
				what = fmt.Sprintf("%d of %d bytes", n, len(whole))
			}
			_ = what
			o := r.startOpts
			o.Master = addr
			h.EM("fetch", 2, 1)
			var err error
			if r, err = launch(o); err != nil {
				r = &Server{startOpts: o}
				violationf("a server does not start when its synchronisation fails (%s): %s", what, err)
			}
			if ok {
				h.E("fetched", 2)
			} else {
				h.E("nofetch", 2)
			}
			stop()
			if !m.alive() {
				h.E("crash", 1)
				m = again(m)
				// and everything that was sent to a replica is still there
				look(h, 1, m, keys)
				whole = nil
			}
			look(h, 2, r, keys)
			fetched = fetched || ok
			if rng.Intn(3) == 0 {
				work(2, r, 1)
			}
			r.mustTerm()
			h.E("stop", 2)
		}

		// replicas that behave badly
		var open []net.Conn
		for k := 0; k < 1+rng.Intn(8); k++ {
			c, err := net.DialTimeout("tcp", m.addr(), 10*time.Second)
			if err != nil {
				violationf("the master does not accept a replica: %s", err)
			}
			t := c.(*net.TCPConn)
			switch rng.Intn(5) {
			case 0:
				_ = t.SetLinger(0)
				_ = c.Close()
			case 1:
				_, _ = io.CopyN(io.Discard, c, int64(rng.Intn(6)))
				_ = t.SetLinger(0)
				_ = c.Close()
			case 2: // does not read
				_ = t.SetReadBuffer(4096)
				open = append(open, c)
			case 3:
				_, _ = c.Write([]byte("what is this?\r\n*1\r\n"))
				open = append(open, c)
			default:
				_ = c.Close()
			}
		}
		defer func() {
			for _, c := range open {
				_ = c.Close()
			}
		}()
		work(1, m, 3)
		look(h, 1, m, keys)
		// a good one gets everything
		h.EM("fetch", 3, 1)
		good := fresh(startOpts{File: rfile2, Master: m.addr()})
		h.E("fetched", 3)
		defer good.kill()
		look(h, 3, good, keys)
		work(1, m, 1)
		// and the master can be stopped
		if rng.Intn(2) == 0 {
			if err := m.term(syscall.SIGTERM, startTimeout); err != nil {
				violationf("with replicas that stall: %s", err)
			}
			h.E("stop", 1)
			m = again(m)
			look(h, 1, m, keys)
		}
	})
}
