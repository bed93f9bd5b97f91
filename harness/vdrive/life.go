package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	drivers["life"] = lifeDriver
	drivers["main"] = mainDriver
}

// Life is the recorded life of a server, see LifeTrace.tla
type Life struct {
	label string
	mutex sync.Mutex
	ev    []string
	next  int
}

func (l *Life) E(k string, c, n int) {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	l.ev = append(l.ev, fmt.Sprintf(`{"k":"%s","c":%d,"n":%d}`, k, c, n))
}

func (l *Life) line() string {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	return `{"label":"` + l.label + `","ev":[` + strings.Join(l.ev, ",") + "]}\n"
}

// dial tries once to connect
func (l *Life) dial(port int) (net.Conn, int) {
	l.mutex.Lock()
	l.next++
	id := l.next
	l.mutex.Unlock()
	l.E("dial", id, 0)
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
	if err != nil {
		if !errors.Is(err, syscall.ECONNREFUSED) && !errors.Is(err, syscall.ECONNRESET) {
			violationf("a client meets neither an open nor a closed port: %s", err)
		}
		l.E("refused", id, 0)
		return nil, id
	}
	// it happened that a socket was connected to itself
	if c.LocalAddr().String() == c.RemoteAddr().String() {
		_ = c.Close()
		l.E("refused", id, 0)
		return nil, id
	}
	l.E("connected", id, 0)
	return c, id
}

const lifeTimeout = 60 * time.Second

// lifeDriver: servers are started and stopped in every configuration, with every kind of client
func lifeDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		l := &Life{label: "life"}
		defer func() { sink.raw(l.line()) }()
		host := newHost()
		defer func() { host.kill() }()
		o := startOpts{Op: "start", Port: freePort(), Replica: rng.Intn(2) == 0}
		if o.Replica {
			o.RPort = freePort()
		}
		file := dbFile("life", i)
		defer os.Remove(file)
		if rng.Intn(4) > 0 {
			o.File = file
			if rng.Intn(3) == 0 {
				// large enough to block the transfer to a replica that does not read
				rec := append([]byte{0, 0, 16, 0}, []byte(strings.Repeat("\xff", 1<<20))...)
				_ = os.WriteFile(file, []byte(strings.Repeat(string(rec), 8)), 0o644)
			}
		}
		if o.File != "" && rng.Intn(4) == 0 {
			addr, stop := fakeMaster(func(c *net.TCPConn) { _, _ = c.Write(make([]byte, 4)) })
			defer stop()
			o.Master = addr
		}
		cycles := 1 + rng.Intn(3)
		for cycle := 1; cycle <= cycles; cycle++ {
			o.ID = cycle
			o.Main = cycle == cycles
			o.Hold = rng.Intn(4) == 0
			o.Raise = rng.Intn(4) == 0
			l.E("start", 0, 0)
			host.send(o)
			e, err := host.await("init", o.ID, lifeTimeout)
			if err != nil {
				violationf("a server does not start: %s", err)
			}
			if !e.OK {
				if cycle == 1 {
					// somebody else has the port
					*l = Life{label: "life"}
					return
				}
				l.E("failed", 0, 0)
				return
			}
			l.E("ready", 0, 0)
			if o.Raise {
				l.E("ask", 0, 0)
			}
			stopped := l.life(host, o, rng)
			if rng.Intn(3) == 0 && !o.Main {
				// once more, long after
				l.E("ask", 0, 1)
				host.send(startOpts{Op: "stop", ID: o.ID, N: 1})
				stopped(1)
				l.E("quiet", 0, 0)
			}
		}
	})
}

// life is one life of a server that is up, until nothing is left of it
func (l *Life) life(host *Host, o startOpts, rng *rand.Rand) func(n int) {
	var wg sync.WaitGroup
	drain := make(chan struct{}) // closed when those who do not read begin to
	quit := make(chan struct{})  // closed when the server has stopped
	var problemMutex sync.Mutex
	problem := ""
	fail := func(format string, a ...interface{}) {
		problemMutex.Lock()
		defer problemMutex.Unlock()
		problem = fmt.Sprintf(format, a...)
	}
	// watch reads until the server closes the connection
	watch := func(c net.Conn, id int) {
		_ = c.SetReadDeadline(time.Now().Add(lifeTimeout))
		_, err := io.Copy(io.Discard, c)
		if err == nil || gone(err) {
			l.E("gone", id, 0)
		} else if !errors.Is(err, os.ErrDeadlineExceeded) {
			fail("a client reads: %s", err)
		}
		_ = c.Close()
	}
	join := func(kind int) {
		c, id := l.dial(o.Port)
		if c == nil {
			return
		}
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			switch kind {
			case 0: // idle
				watch(c, id)
			case 1: // leaves
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				l.E("leave", id, 0)
				_ = c.Close()
			case 2: // busy
				go func() {
					for k := 0; k < 5000; k++ {
						select {
						case <-quit:
							return
						default:
						}
						if _, err := c.Write([]byte(rq("append", "k", strconv.Itoa(k)).encode() + rq("lpush", "l", "x").encode() + rq("ltrim", "l", "0", "5").encode())); err != nil {
							return
						}
						if k%10 == 9 {
							time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
						}
					}
				}()
				watch(c, id)
			case 3: // sends half a request
				_, _ = c.Write([]byte("*2\r\n$3\r\nget\r\n$10\r\nab"))
				watch(c, id)
			case 4: // does not read
				_ = c.SetWriteDeadline(time.Now().Add(lifeTimeout))
				q := rq("set", "big", strings.Repeat("b", 200000)).encode()
				for k := 0; k < 100; k++ {
					q += rq("get", "big").encode()
				}
				_, _ = c.Write([]byte(q))
				<-drain
				watch(c, id)
			}
		}()
	}
	for k := rng.Intn(6); k > 0; k-- {
		join(rng.Intn(5))
	}
	served := func() { host.send(startOpts{Op: "serve", ID: o.ID}) }
	early := o.Hold && rng.Intn(2) == 0
	if early {
		served()
	}
	if !o.Raise && (!o.Hold || early) {
		if rng.Intn(2) == 0 {
			c, id := l.dial(o.Port)
			if c != nil {
				cl := newClient(c)
				if r := cl.mustDo(rq("set", "x", "y")); r.T != "str" {
					violationf("SET fails")
				}
				if r := cl.mustDo(rq("get", "x")); r.V != "y" {
					violationf("GET fails")
				}
				l.E("leave", id, 0)
				cl.close()
			}
		}
	}
	// replicas that do not read
	var replicas []net.Conn
	if o.Replica {
		for k := rng.Intn(3); k > 0; k-- {
			if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", o.RPort), 10*time.Second); err == nil {
				_ = c.(*net.TCPConn).SetReadBuffer(4096)
				replicas = append(replicas, c)
			}
		}
	}
	defer func() {
		for _, c := range replicas {
			_ = c.Close()
		}
	}()
	// clients that come while it stops
	storm := rng.Intn(2) == 0
	if storm {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine sync.WaitGroup
			defer mine.Wait()
			defer func() {
				if e := recover(); e != nil {
					fail("%v", e)
				}
			}()
			for k := 0; k < 200; k++ {
				select {
				case <-quit:
					return
				default:
				}
				c, id := l.dial(o.Port)
				if c == nil {
					return
				}
				mine.Add(1)
				go func() {
					defer mine.Done()
					watch(c, id)
				}()
				time.Sleep(20 * time.Microsecond)
			}
		}()
	}
	if rng.Intn(3) > 0 {
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	}

	calls := 0
	// signals that come late would stop the next server of the process too
	signals := o.Main
	ask := func() {
		kind := rng.Intn(3)
		if !signals {
			kind = 0
		}
		switch n := 1 + rng.Intn(3); kind {
		case 0:
			calls += n
			l.E("ask", 0, n)
			host.send(startOpts{Op: "stop", ID: o.ID, N: n})
		case 1:
			l.E("ask", 0, 0)
			for ; n > 0; n-- {
				_ = host.cmd.Process.Signal(syscall.SIGTERM)
			}
		default:
			l.E("ask", 0, 0)
			_ = host.cmd.Process.Signal(syscall.SIGINT)
		}
	}
	more := rng.Intn(3)
	if o.Raise {
		if rng.Intn(2) == 0 {
			more = 0
		}
	} else if !o.Main && rng.Intn(2) == 0 {
		more = 0
		l.E("ask", 0, 0)
		_ = host.cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)])
	} else {
		ask()
	}
	for k := more; k > 0; k-- {
		time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
		ask()
	}
	if o.Hold && !early {
		served()
	}
	if _, err := host.await("served", o.ID, lifeTimeout); err != nil {
		host.stacks()
		violationf("Serve does not return: %s", err)
	}
	l.E("served", 0, 0)
	stopped := func(n int) {
		for ; n > 0; n-- {
			if _, err := host.await("stopped", o.ID, lifeTimeout); err != nil {
				host.stacks()
				violationf("Stop does not return: %s", err)
			}
			l.E("stopped", 0, 0)
		}
	}
	if o.Main {
		select {
		case <-host.exited:
			code := 0
			if host.err != nil {
				code = 1
				note(fmt.Sprintf("the process of the server ended with %v: %s", host.err, clipTail(host.stderr.String())))
			}
			l.E("exit", 0, code)
		case <-time.After(lifeTimeout):
			violationf("the process does not end")
		}
	} else {
		stopped(calls)
	}
	for _, p := range []int{o.Port, o.RPort} {
		if p == 0 {
			continue
		}
		if c, id := l.dial(p); c != nil {
			wg.Add(1)
			go func() {
				defer wg.Done()
				watch(c, id)
			}()
		}
	}
	close(quit)
	close(drain)
	wg.Wait()
	l.E("quiet", 0, 0)
	if problem != "" {
		violationf("%s", problem)
	}
	return stopped
}

// mainDriver: the program cmd/server itself, which has fixed ports and files
func mainDriver(sink *Sink) {
	const port, rport = 6789, 9999
	for _, p := range []int{port, rport} {
		t, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p))
		if err != nil {
			fmt.Println("the port is taken", p)
			sink.raw((&Life{label: "main"}).line())
			return
		}
		_ = t.Close()
	}
	guarded(0, func(i int, rng *rand.Rand) {
		l := &Life{label: "main"}
		h := newHistory("main")
		defer func() { sink.raw(l.line()) }()
		data, err := os.Create(sinkPath + ".store")
		if err != nil {
			fatal("%s", err)
		}
		defer func() { _, _ = data.WriteString(h.line()); _ = data.Close() }()
		dir := filepath.Join(scratch, "main")
		_ = os.RemoveAll(dir)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatal("%s", err)
		}
		defer os.RemoveAll(dir)
		keys := []string{"a", "b"}
		for cycle := 0; cycle < amount; cycle++ {
			cmd := exec.Command(fault)
			cmd.Dir = dir
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var out strings.Builder
			cmd.Stderr = &out
			l.E("start", 0, 0)
			if err := cmd.Start(); err != nil {
				fatal("%s", err)
			}
			exited := make(chan error, 1)
			go func() { exited <- cmd.Wait() }()
			// until it is up nobody may be surprised to be refused
			var c net.Conn
			for k := 0; k < 3000 && c == nil; k++ {
				c, err = net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
				select {
				case err := <-exited:
					violationf("cmd/server ends at once: %v %s", err, clipTail(out.String()))
				case <-time.After(10 * time.Millisecond):
				}
			}
			if c == nil {
				_ = cmd.Process.Kill()
				violationf("cmd/server does not listen")
			}
			cl := newClient(c)
			for _, q := range sweep(keys) {
				h.C(1, q, cl.mustDo(q))
			}
			l.E("ready", 0, 0)
			for k := 0; k < 40; k++ {
				q := writes(keys)(rng, k)
				h.C(1, q, cl.mustDo(q))
			}
			if cycle == 0 {
				// a replica of it
				f := dbFile("main-replica", 0)
				defer os.Remove(f)
				h.Nodes = 2
				h.EM("fetch", 2, 1)
				r := fresh(startOpts{File: f, Master: fmt.Sprintf("127.0.0.1:%d", rport)})
				h.E("fetched", 2)
				look(h, 2, r, keys)
				r.mustTerm()
				h.E("stop", 2)
			}
			cl.close()
			other, id := l.dial(port)
			l.E("ask", 0, 0)
			_ = cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)])
			select {
			case err := <-exited:
				code := 0
				if err != nil {
					code = 1
					note(fmt.Sprintf("cmd/server ended with %v: %s", err, clipTail(out.String())))
				}
				l.E("exit", 0, code)
			case <-time.After(lifeTimeout):
				_ = cmd.Process.Kill()
				violationf("cmd/server does not end")
			}
			h.E("stop", 1)
			if other != nil {
				_ = other.SetReadDeadline(time.Now().Add(lifeTimeout))
				_, _ = io.Copy(io.Discard, other)
				_ = other.Close()
				l.E("gone", id, 0)
			}
			for _, p := range []int{port, rport} {
				if c, _ := l.dial(p); c != nil {
					_ = c.Close()
				}
			}
			l.E("quiet", 0, 0)
		}
	})
}
