package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"time"
)

var (
	srvBin  string // the host of the real servers
	scratch string // everything is written below this directory
)

// Host is a process that runs servers
type Host struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inMutex sync.Mutex
	events  chan hostEvent
	pending []hostEvent
	stderr  bytes.Buffer
	exited  chan struct{}
	err     error
	killed  bool
}

type hostEvent struct {
	Ev         string `json:"ev"`
	ID         int    `json:"id"`
	OK         bool   `json:"ok"`
	Goroutines int    `json:"goroutines"`
	Fds        int    `json:"fds"`
	Heap       int    `json:"heap"`
}

type startOpts struct {
	Op      string
	ID      int
	Port    int
	File    string
	Replica bool
	RPort   int
	Master  string
	Main    bool
	Hold    bool
	N       int
	LogPath string
	Raise   bool
}

func newHost() *Host { return newHostIn(scratch) }

// newHostIn starts a process with this working directory
func newHostIn(dir string) *Host {
	h := &Host{events: make(chan hostEvent, 1000), exited: make(chan struct{})}
	h.cmd = exec.Command(srvBin)
	h.cmd.Dir = dir
	h.cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	h.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := h.cmd.StdinPipe()
	if err != nil {
		fatal("stdin: %s", err)
	}
	h.in = bufio.NewWriter(in)
	out, err := h.cmd.StdoutPipe()
	if err != nil {
		fatal("stdout: %s", err)
	}
	h.cmd.Stderr = &h.stderr
	if err := h.cmd.Start(); err != nil {
		fatal("start host: %s", err)
	}
	go func() {
		s := bufio.NewScanner(out)
		for s.Scan() {
			var e hostEvent
			if json.Unmarshal(s.Bytes(), &e) == nil {
				h.events <- e
			}
		}
		h.err = h.cmd.Wait()
		close(h.exited)
	}()
	return h
}

func (h *Host) send(o startOpts) {
	h.inMutex.Lock()
	defer h.inMutex.Unlock()
	b, _ := json.Marshal(o)
	_, _ = h.in.Write(append(b, '\n'))
	_ = h.in.Flush()
}

// await waits for an event
func (h *Host) await(ev string, id int, d time.Duration) (hostEvent, error) {
	for i, e := range h.pending {
		if e.Ev == ev && e.ID == id {
			h.pending = append(h.pending[:i:i], h.pending[i+1:]...)
			return e, nil
		}
	}
	t := time.After(d)
	for {
		select {
		case e := <-h.events:
			if e.Ev == ev && e.ID == id {
				return e, nil
			}
			h.pending = append(h.pending, e)
		case <-h.exited:
			select {
			case e := <-h.events:
				if e.Ev == ev && e.ID == id {
					return e, nil
				}
				h.pending = append(h.pending, e)
				continue
			default:
			}
			return hostEvent{}, fmt.Errorf("the process ended (%v): %s", h.err, clipTail(h.stderr.String()))
		case <-t:
			return hostEvent{}, fmt.Errorf("no %q event within %s", ev, d)
		}
	}
}

func clipTail(s string) string {
	if len(s) > 1500 {
		return s[:1000] + " ... " + s[len(s)-500:]
	}
	return s
}

func (h *Host) kill() {
	h.killed = true
	_ = h.cmd.Process.Kill()
	<-h.exited
}

// stacks lets the process print its goroutines to a file, for whoever debugs
func (h *Host) stacks() {
	f := os.Getenv("VERIF_STACKS")
	if f == "" {
		return
	}
	h.send(startOpts{Op: "stacks"})
	_, _ = h.await("stacks", 0, 10*time.Second)
	_ = h.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-h.exited:
	case <-time.After(5 * time.Second):
	}
	_ = os.WriteFile(f, h.stderr.Bytes(), 0o644)
}

func (h *Host) alive() bool {
	select {
	case <-h.exited:
		return false
	default:
		return true
	}
}

var (
	portMutex sync.Mutex
	nextPort  = 20000 + (os.Getpid()*97)%8000
)

// freePort finds a port below the ephemeral range, so no client socket takes it meanwhile
func freePort() int {
	portMutex.Lock()
	defer portMutex.Unlock()
	for i := 0; i < 20000; i++ {
		nextPort++
		if nextPort > 31500 {
			nextPort = 20000
		}
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", nextPort))
		if err == nil {
			_ = l.Close()
			return nextPort
		}
	}
	fatal("no free port")
	return 0
}

// Server is one server in a host of its own
type Server struct {
	*Host
	startOpts
}

const startTimeout = 60 * time.Second

// launch starts a server, and tells whether Init succeeded
func launch(o startOpts) (*Server, error) {
	s := &Server{Host: newHost(), startOpts: o}
	s.Op = "start"
	s.ID = 1
	s.Main = true
	s.send(s.startOpts)
	e, err := s.await("init", 1, startTimeout)
	if err != nil {
		s.kill()
		return nil, err
	}
	if !e.OK {
		s.kill()
		return nil, fmt.Errorf("Init failed")
	}
	return s, nil
}

// fresh starts a server on a free port, retrying when somebody else took the port
func fresh(o startOpts) *Server {
	var err error
	for i := 0; i < 5; i++ {
		o.Port = freePort()
		if o.Replica {
			o.RPort = freePort()
		}
		var s *Server
		if s, err = launch(o); err == nil {
			return s
		}
	}
	violationf("a server does not start: %s", err)
	return nil
}

// again starts a server with the same ports and file
func again(s *Server) *Server {
	n, err := launch(s.startOpts)
	if err != nil {
		violationf("a server does not start again on the same ports and file: %s", err)
	}
	return n
}

// term stops the server with a signal and waits for the process
func (s *Server) term(sig syscall.Signal, d time.Duration) error {
	_ = s.cmd.Process.Signal(sig)
	select {
	case <-s.exited:
		if s.err != nil {
			return fmt.Errorf("the server ended with %v: %s", s.err, clipTail(s.stderr.String()))
		}
		return nil
	case <-time.After(d):
		s.stacks()
		return fmt.Errorf("the server did not end within %s after %s", d, sig)
	}
}

func (s *Server) mustTerm() {
	if err := s.term(syscall.SIGTERM, startTimeout); err != nil {
		violationf("%s", err)
	}
}
