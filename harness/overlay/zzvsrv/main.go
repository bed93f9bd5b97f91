// Package main hosts real servers for the checks of /verif. It is added to the module with
// go build -overlay and is driven by JSON lines on stdin; the answers are JSON lines on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/signal"
	"runtime"
	"runtime/pprof"
	"sync"
	"syscall"
	"time"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/network"
)

type request struct {
	Op      string
	ID      int
	Port    int
	File    string
	Replica bool
	RPort   int
	Master  string
	Main    bool
	Hold    bool // Serve only when told so
	N       int
	LogPath string
	Raise   bool // a signal comes as soon as the server is up
}

var out sync.Mutex

func say(format string, a ...interface{}) {
	out.Lock()
	defer out.Unlock()
	fmt.Printf(format+"\n", a...)
}

func fds() int {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(entries)
}

func main() {
	if os.Getenv("VERIF_STACKS") != "" {
		runtime.MemProfileRate = 4096
	}
	servers := make(map[int]network.Server)
	holds := make(map[int]chan struct{})
	var mutex sync.Mutex

	scanner := bufio.NewScanner(os.Stdin)
	scanner.Buffer(nil, 1<<20)

	for scanner.Scan() {
		var r request
		if err := json.Unmarshal(scanner.Bytes(), &r); err != nil {
			say(`{"ev":"bad","id":0}`)
			continue
		}

		switch r.Op {
		case "log":
			common.InitLog(common.Config{LogPath: r.LogPath, LogLevel: "DEBUG"}, true)
			say(`{"ev":"log","id":0}`)
		case "start":
			s := network.NewServer()
			mutex.Lock()
			servers[r.ID] = s
			hold := make(chan struct{})
			holds[r.ID] = hold
			mutex.Unlock()
			go func(r request) {
				ok := s.Init(common.Config{
					Port:          r.Port,
					DatabaseFile:  r.File,
					EnableReplica: r.Replica,
					ReplicaPort:   r.RPort,
					MasterAddress: r.Master,
				})
				if ok && r.Raise {
					_ = syscall.Kill(os.Getpid(), syscall.SIGTERM)
				}
				say(`{"ev":"init","id":%d,"ok":%v}`, r.ID, ok)
				if !ok {
					return
				}
				if r.Hold {
					<-hold
				}
				s.Serve()
				say(`{"ev":"served","id":%d}`, r.ID)
				if r.Main {
					os.Exit(0)
				}
			}(r)
		case "serve":
			mutex.Lock()
			close(holds[r.ID])
			mutex.Unlock()
		case "stop":
			mutex.Lock()
			s := servers[r.ID]
			mutex.Unlock()
			for i := 0; i < r.N; i++ {
				go func(id int) {
					s.Stop()
					say(`{"ev":"stopped","id":%d}`, id)
				}(r.ID)
			}
		case "forget":
			mutex.Lock()
			delete(servers, r.ID)
			delete(holds, r.ID)
			mutex.Unlock()
		case "grow":
			// the runtime keeps what it has allocated for goroutines
			release := make(chan struct{})
			var wg sync.WaitGroup
			for i := 0; i < r.N; i++ {
				wg.Add(1)
				go func() {
					<-release
					wg.Done()
				}()
			}
			close(release)
			wg.Wait()
			// and for threads
			all := make(chan struct{})
			for i := 0; i < 64; i++ {
				wg.Add(1)
				go func() {
					runtime.LockOSThread()
					defer runtime.UnlockOSThread()
					wg.Done()
					<-all
				}()
			}
			wg.Wait()
			close(all)
			// and for signals and the network
			c := make(chan os.Signal, 1)
			signal.Notify(c, syscall.SIGTERM)
			signal.Stop(c)
			if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
				_ = l.Close()
			}
			say(`{"ev":"grow","id":0}`)
		case "stats":
			runtime.GC()
			time.Sleep(10 * time.Millisecond)
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			// the runtime never gives up a thread, of which it has as many as were ever blocked at once
			tasks, _ := os.ReadDir("/proc/self/task")
			heap := int(m.HeapAlloc/1024) - 6*len(tasks)
			say(`{"ev":"stats","id":0,"goroutines":%d,"fds":%d,"heap":%d}`, runtime.NumGoroutine(), fds(), heap)
		case "stacks":
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			_, _ = os.Stderr.Write(buf[:n])
			// what is on the heap, for a reader
			_ = pprof.Lookup("heap").WriteTo(os.Stderr, 1)
			say(`{"ev":"stacks","id":0}`)
		case "exit":
			os.Exit(0)
		}
	}
}
