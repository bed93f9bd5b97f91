package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() { drivers["leave"] = leaveDriver }

// Stay is the recorded life of a process, see ResourcesTrace.tla
type Stay struct {
	host *Host
	dir  string
	ev   []string
	next int
	rng  *rand.Rand

	grown int
}

func (y *Stay) E(k string, c, n int) {
	y.ev = append(y.ev, fmt.Sprintf(`{"k":"%s","c":%d,"n":%d}`, k, c, n))
}

func (y *Stay) stats() hostEvent {
	y.host.send(startOpts{Op: "stats"})
	e, err := y.host.await("stats", 0, lifeTimeout)
	if err != nil {
		violationf("%s", err)
	}
	return e
}

func (y *Stay) files() int {
	entries, err := os.ReadDir(y.dir)
	if err != nil {
		fatal("%s", err)
	}
	return len(entries)
}

// see Resources.tla
const (
	heapSlack = 2000 // KB
	maxGrown  = 3
)

// usage measures until it is not more than base, or nothing has been freed for a long time; and until
// it settles when there is no base yet. heap says that there is too much on the heap only.
func (y *Stay) usage(base *hostEvent) (last hostEvent, ok, heap bool) {
	same := 0
	patience := lifeTimeout / 2
	if y.grown > 0 {
		patience = lifeTimeout / 6
	}
	var least hostEvent
	for t := time.Now(); !ok; time.Sleep(50 * time.Millisecond) {
		e := y.stats()
		if e.Goroutines == last.Goroutines && e.Fds == last.Fds {
			same++
		} else {
			same = 0
		}
		last = e
		if base == nil {
			ok = same >= 10
		} else {
			ok = e.Goroutines <= base.Goroutines && e.Fds <= base.Fds && e.Heap <= base.Heap+heapSlack
		}
		if least.Goroutines == 0 || e.Goroutines < least.Goroutines || e.Fds < least.Fds || e.Heap < least.Heap-200 {
			least, t = e, time.Now()
		}
		if time.Since(t) > patience {
			break
		}
	}
	heap = base != nil && last.Goroutines <= base.Goroutines && last.Fds <= base.Fds
	if !ok {
		y.host.stacks()
	}
	y.ev = append(y.ev, fmt.Sprintf(`{"k":"usage","g":%d,"fd":%d,"files":%d,"heap":%d}`, last.Goroutines, last.Fds, y.files(), last.Heap))
	return
}

// kinds of visitors: clients, and from firstReplica on replicas
const (
	firstReplica = 9
	visitorKinds = 14
	busyVisitor  = visitorKinds // sends very many requests
)

// visit connects a visitor and returns how it leaves
func (y *Stay) visit(kind int, o startOpts, r *rand.Rand) func() {
	port := o.Port
	if kind >= firstReplica && kind != busyVisitor {
		port = o.RPort
	}
	nc, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
	if err != nil {
		violationf("a server does not accept: %s", err)
	}
	tc := nc.(*net.TCPConn)
	c := newClient(nc)
	_ = tc.SetDeadline(time.Now().Add(lifeTimeout))
	end := func() { _ = tc.Close() }
	some := func() {
		for k := 1 + r.Intn(4); k > 0; k-- {
			q := []Req{rq("set", "x", "y"), rq("get", "x"), rq("get", "big"), rq("lrange", "none", "0", "-1"), rq("nonsense"), rq("sadd", "s", "m")}[r.Intn(6)]
			if _, err := c.do(q); err != nil {
				violationf("no reply: %s", err)
			}
		}
	}
	drain := func() {
		_, err := io.Copy(io.Discard, tc)
		if err != nil && !gone(err) {
			violationf("the server does not close a connection: %s", err)
		}
		_ = tc.Close()
	}
	switch kind {
	case 0: // says nothing
	case 1: // works
		some()
	case 2: // works, and resets
		some()
		_ = tc.SetLinger(0)
	case 3: // does not read
		_ = c.write(rq("get", "x").encode() + rq("get", "big").encode())
	case 4: // leaves in the middle of a request
		q := rq("set", "x", "y").encode()
		_ = c.write(q[:1+r.Intn(len(q)-2)])
	case 5: // breaks the protocol, and is closed
		_ = c.write([]string{"*1\r\n$-5\r\n", "nonsense\r\n", "*99999999999999999999\r\n", "*1\r\n$1\r\nabc\r\n"}[r.Intn(4)])
		return drain
	case 6: // sends no more, and is closed
		some()
		_ = tc.CloseWrite()
		return drain
	case 7: // does not read many megabytes
		_ = tc.SetReadBuffer(4096)
		q := rq("get", "big").encode()
		go func() { _ = c.write(strings.Repeat(q, 60+r.Intn(100))) }()
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		if r.Intn(2) == 0 {
			_ = tc.SetLinger(0)
		}
	case 8: // resets at once
		_ = tc.SetLinger(0)
	case busyVisitor:
		var b strings.Builder
		n := 4000
		for k := 0; k < n; k++ {
			name := fmt.Sprintf("none-%d", r.Int63())
			b.WriteString([]Req{rq("get", "x"), rq("get", name), rq("lrange", name, "0", "-1"), rq("hgetall", name), rq("smembers", name),
				rq("exists", name, "x"), rq("set", "x", "y"), rq(name), rq("sadd", "s", "m"), rq("incr", "big"), rq("lpush", name), rq("hget", "x", name)}[r.Intn(12)].encode())
		}
		go func() { _ = c.write(b.String()) }()
		for k := 0; k < n; k++ {
			if _, err := c.read(); err != nil {
				violationf("no reply: %s", err)
			}
		}
	case 9: // a replica that reads everything
		return drain
	case 10: // leaves at once
		_ = tc.SetLinger(0)
	case 11: // does not read
		_ = tc.SetReadBuffer(4096)
		time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
	case 12: // leaves after a part
		_, _ = io.ReadFull(tc, make([]byte, 1+r.Intn(100)))
		if r.Intn(2) == 0 {
			_ = tc.SetLinger(0)
		}
	case 13: // says what nobody asked for
		_, _ = tc.Write([]byte("hello\r\n"))
		time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
	}
	return end
}

// wave lets n visitors come and leave, a few at a time
func (y *Stay) wave(o startOpts, kinds []int, n int) {
	first := y.next + 1
	y.next += n
	y.ev = append(y.ev, fmt.Sprintf(`{"k":"come","c":%d,"n":%d,"kinds":"%v"}`, first, n, kinds))
	jobs := make(chan int)
	var wg sync.WaitGroup
	var mutex sync.Mutex
	var problem interface{}
	for w := 0; w < 24; w++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(y.rng.Int63()))
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mutex.Lock()
					problem = e
					mutex.Unlock()
					for range jobs {
					}
				}
			}()
			for kind := range jobs {
				y.visit(kind, o, r)()
			}
		}()
	}
	for k := 0; k < n; k++ {
		jobs <- kinds[k%len(kinds)]
	}
	close(jobs)
	wg.Wait()
	if problem != nil {
		panic(problem)
	}
	y.E("leave", first, n)
}

// guests are connected while something is measured
func (y *Stay) guests(o startOpts, n int) {
	first := y.next + 1
	y.next += n
	y.E("come", first, n)
	var cs []*Client
	for k := 0; k < n; k++ {
		c := mustDial(o.Port)
		c.mustDo(rq("get", "x"))
		cs = append(cs, c)
	}
	_, _, _ = y.usage(nil)
	for _, c := range cs {
		c.close()
	}
	y.E("leave", first, n)
}

// transfers are the files for transfers that were written since then
func transfers(since time.Time) (files []string) {
	entries, _ := os.ReadDir("/tmp/vertex")
	for _, e := range entries {
		if i, err := e.Info(); err == nil && i.ModTime().After(since) {
			files = append(files, filepath.Join("/tmp/vertex", e.Name()))
		}
	}
	return
}

// leaveDriver: visitors of all kinds come and leave, servers start and stop
func leaveDriver(sink *Sink) {
	start := time.Now()
	defer func() {
		// the files that masters made for transfers
		left := transfers(start)
		for k := 0; k < 100 && len(left) > 0; k++ {
			time.Sleep(100 * time.Millisecond)
			left = transfers(start)
		}
		for _, f := range left {
			_ = os.Remove(f)
		}
		sink.raw(fmt.Sprintf(`{"label":"files","ev":[{"k":"start","c":0,"n":1},{"k":"usage","g":0,"fd":0,"files":0,"heap":0},`+
			`{"k":"come","c":1,"n":1},{"k":"leave","c":1,"n":1},{"k":"usage","g":0,"fd":0,"files":%d,"heap":0}]}`+"\n", len(left)))
	}()
	parallel(amount, func(i int, rng *rand.Rand) {
		dir := filepath.Join(scratch, fmt.Sprintf("leave-%d", i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatal("%s", err)
		}
		defer os.RemoveAll(dir)
		host := newHostIn(dir)
		defer host.kill()
		host.send(startOpts{Op: "grow", N: 60000})
		if _, err := host.await("grow", 0, lifeTimeout); err != nil {
			fatal("%s", err)
		}
		y := &Stay{host: host, dir: dir, rng: rng}
		defer func() { sink.raw(`{"label":"leave","ev":[` + strings.Join(y.ev, ",") + "]}\n") }()
		o := startOpts{Op: "start", Port: freePort(), Replica: i%4 != 3}
		if o.Replica {
			o.RPort = freePort()
		}
		if i%4 != 2 {
			o.File = filepath.Join(dir, "db")
			if err := os.WriteFile(o.File, nil, 0o644); err != nil {
				fatal("%s", err)
			}
		}
		down, _, _ := y.usage(nil)
		kinds := visitorKinds
		if !o.Replica {
			kinds = firstReplica
		}
		var all []int
		for k := 0; k < kinds; k++ {
			all = append(all, k)
		}
		var up *hostEvent
		lives := 2 + rng.Intn(2)
		for life := 1; life <= lives; life++ {
			o.ID = life
			host.send(o)
			e, err := host.await("init", o.ID, lifeTimeout)
			if err != nil {
				violationf("a server does not start: %s", err)
			}
			if !e.OK {
				if life > 1 {
					violationf("a server does not start again")
				}
				*y = Stay{host: host, dir: dir, rng: rng}
				return // somebody else has the port
			}
			y.E("start", 0, life)
			c := mustDial(o.Port)
			c.mustDo(rq("set", "x", "y"))
			c.mustDo(rq("set", "big", strings.Repeat("b", 64000)))
			c.close()
			if life == 1 {
				y.wave(o, all, 10*len(all))
			}
			// raise says whether to go on although there is more on the heap
			raise := func(base *hostEvent, e hostEvent, heap bool) bool {
				y.grown++
				if !heap || y.grown > maxGrown {
					return false
				}
				more := e.Heap - base.Heap
				down.Heap += more
				if up != nil {
					up.Heap += more
				}
				return true
			}
			again := func() {}
			for w := 0; w <= scale; w++ {
				e, ok, heap := y.usage(up)
				for !ok {
					if !raise(up, e, heap) {
						return
					}
					again()
					e, ok, heap = y.usage(up)
				}
				if up == nil {
					up = &e
				}
				if w == scale {
					break
				}
				if rng.Intn(3) == 0 {
					k := 1 + rng.Intn(30)
					again = func() { y.guests(o, k) }
					again()
					continue
				}
				some := []int{rng.Intn(kinds)}
				if rng.Intn(3) == 0 {
					some = all
				} else if rng.Intn(2) == 0 {
					some = append(some, rng.Intn(kinds))
				}
				n := 200 + rng.Intn(400)
				cheap := true
				for _, k := range some {
					cheap = cheap && k != 3 && k != 7 && k != 11
				}
				if mode == "slow" {
					n /= 4
				}
				if cheap {
					n *= 4
				}
				if mode == "many" {
					// so many that little for each shows
					some = [][]int{{2}, {8}, {busyVisitor}}[(i+w)%3]
					n = 15000
					if some[0] == busyVisitor {
						n = 30
					}
				}
				again = func() { y.wave(o, some, n) }
				again()
			}
			host.send(startOpts{Op: "stop", ID: o.ID, N: 1})
			for _, ev := range []string{"served", "stopped"} {
				if _, err := host.await(ev, o.ID, lifeTimeout); err != nil {
					host.stacks()
					violationf("the server does not stop: %s", err)
				}
			}
			y.E("stop", 0, 0)
			if e, ok, heap := y.usage(&down); !ok && !raise(&down, e, heap) {
				return
			}
			// what is reachable only from the server is free from now on
			host.send(startOpts{Op: "forget", ID: o.ID})
		}
	})
}
