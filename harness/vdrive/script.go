package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() { drivers["script"] = scriptDriver }

// scriptDriver replays the steps that StoreModel.tla generates: two nodes, of which the second may
// become a replica of the first. One line per run, see Step in StoreModel.
func scriptDriver(sink *Sink) {
	b, err := os.ReadFile(fault)
	if err != nil {
		fatal("%s", err)
	}
	var lines []string
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			lines = append(lines, l)
		}
	}
	see := func(h *History, n int, s *Server) {
		c := mustDial(s.Port)
		defer c.close()
		for _, q := range []Req{rq("get", "k"), rq("exists", "k"), rq("smembers", "z"), rq("lrange", "l", "0", "-1")} {
			h.C(n, q, c.mustDo(q))
		}
	}
	parallel(len(lines), func(i int, rng *rand.Rand) {
		h := newHistory("script " + lines[i])
		h.Nodes = 2
		steps := strings.Fields(lines[i])
		defer func() { sink.put(h) }()
		s := make([]*Server, 3)
		files := []string{"", dbFile("script1", i), dbFile("script2", i)}
		defer func() {
			for n, x := range s {
				if x != nil {
					x.kill()
				}
				_ = os.Remove(files[n])
			}
		}()
		up := func(n int) *Server {
			if s[n] == nil {
				s[n] = fresh(startOpts{File: files[n], Replica: true})
			}
			return s[n]
		}
		up(1)

		// requests in progress
		var wg sync.WaitGroup
		problem := ""
		var mutex sync.Mutex
		goes := func(n int, q Req) {
			c, err := dial(s[n].Port)
			if err != nil {
				violationf("the server does not accept a client: %s", err)
			}
			id := h.Client()
			h.Inv(id, n, q)
			if err := c.write(q.encode()); err != nil {
				violationf("write fails: %s", err)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer c.close()
				if b, err := c.r.Peek(1); err == nil && b[0] == farewell[0] {
					return
				}
				r, err := c.read()
				if err != nil {
					if !gone(err) {
						mutex.Lock()
						problem = fmt.Sprintf("no well-formed reply: %s", err)
						mutex.Unlock()
					}
					return
				}
				h.Ret(id, 0, r)
			}()
		}
		settle := func() {
			wg.Wait()
			if problem != "" {
				violationf("%s", problem)
			}
		}
		lookAt := func(n int) {
			if rng.Intn(4) > 0 {
				see(h, n, s[n])
			}
		}
		// down stops n, in one of the ways
		down := func(n int, crash bool) {
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
			}
			if crash {
				s[n].kill()
			} else {
				s[n].stopSome(rng)
			}
			if n == 1 {
				settle()
			}
		}
		start := func(n int, master string) {
			o := s[n].startOpts
			o.Master = master
			x, err := launch(o)
			if err != nil {
				violationf("a server does not start again on the same ports and file: %s", err)
			}
			s[n] = x
		}
		// the database file of n, if it has that many records
		file := func(n, records_ int) ([]byte, []int) {
			data, err := os.ReadFile(files[n])
			if err != nil {
				return nil, nil
			}
			ends := records(data)
			if len(ends) != records_ || ends[len(ends)-1] != len(data) {
				return nil, nil
			}
			return data, append([]int{0}, ends...)
		}
		put := func(n int, data []byte) {
			if err := os.WriteFile(files[n], data, 0o644); err != nil {
				fatal("%s", err)
			}
		}

		for _, step := range steps {
			p := strings.Split(step, ":")
			n, _ := strconv.Atoi(p[1])
			num := func(i int) int { x, _ := strconv.Atoi(p[i]); return x }
			if n > 0 {
				up(n)
			}
			switch p[0] {
			case "do":
				c := mustDial(s[n].Port)
				q := Req{Q: strings.Split(p[2], ",")}
				// others may be in progress, so it is a request of a client of its own
				id := h.Client()
				h.Inv(id, n, q)
				h.Ret(id, 0, c.mustDo(q))
				c.close()
			case "go":
				goes(n, Req{Q: strings.Split(p[2], ",")})
			case "wait":
				settle()
			case "stop":
				down(n, false)
				h.E("stop", n)
				if n == 2 {
					h.E("own", n)
				}
				start(n, "")
				lookAt(n)
			case "kill":
				down(n, true)
				h.E("crash", n)
				start(n, "")
				lookAt(n)
			case "cut", "damage":
				k, of := num(2), num(3)
				down(n, false)
				h.E("stop", n)
				if data, at := file(n, of); data != nil {
					if p[0] == "cut" {
						b := at[k]
						if k < of && rng.Intn(3) > 0 {
							b += rng.Intn(at[k+1] - at[k])
						}
						put(n, data[:b])
						h.EP("cut", n, k)
					} else {
						for j := at[k-1] + 4; j < at[k]; j++ {
							data[j] = 0xff
						}
						put(n, data)
						h.EP("damage", n, k)
					}
				}
				if n == 2 {
					h.E("own", n)
				}
				start(n, "")
				lookAt(n)
			case "fetch":
				down(n, false)
				h.E("stop", n)
				h.EM("fetch", n, 1)
				start(n, s[1].addr())
				h.E("fetched", n)
				lookAt(n)
			case "break":
				whole := transfer(s[1].addr())
				if len(whole) <= 4 || int(binary.LittleEndian.Uint32(whole)) != len(whole)-4 {
					continue
				}
				down(n, false)
				h.E("stop", n)
				k := rng.Intn(len(whole))
				if ends := records(whole[4:]); len(ends) > 1 && rng.Intn(2) == 0 {
					k = 4 + ends[rng.Intn(len(ends)-1)]
				}
				addr, stop := fakeMaster(func(c *net.TCPConn) {
					_, _ = c.Write(whole[:k])
					_ = c.CloseWrite()
					time.Sleep(time.Millisecond)
				})
				h.EM("fetch", n, 1)
				start(n, addr)
				h.E("nofetch", n)
				stop()
				lookAt(n)
			default:
				fatal("step %s", step)
			}
		}
		settle()
		for n := 1; n <= 2; n++ {
			if s[n] != nil {
				see(h, n, s[n])
			}
		}
		for n := 1; n <= 2; n++ {
			if s[n] != nil {
				s[n].mustTerm()
				h.E("stop", n)
				if n == 2 {
					h.E("own", n)
				}
				start(n, "")
				see(h, n, s[n])
			}
		}
	})
}
