// Command vdrive drives real servers and records histories for the specification.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

var (
	seed     int64
	sinkPath string
	amount   int
	scale    int
	workers  int
	mode     string
	fault    string
)

func fatal(format string, a ...interface{}) {
	fmt.Printf("FATAL "+format+"\n", a...)
	os.Exit(3)
}

// violationf reports what no behaviour of the specification shows: no reply, a dead server, ...
type violation struct{ text string }

func violationf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

var (
	vmutex     sync.Mutex
	violations []string
)

func note(text string) {
	vmutex.Lock()
	defer vmutex.Unlock()
	violations = append(violations, text)
}

// parallel runs fn for 0..n-1 in the workers; a violation ends only its own run
func parallel(n int, fn func(i int, rng *rand.Rand)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				guarded(i, fn)
			}
		}()
	}
	for i := 0; i < n; i++ {
		vmutex.Lock()
		enough := len(violations) >= 3
		vmutex.Unlock()
		if enough || time.Now().After(deadline) {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func guarded(i int, fn func(i int, rng *rand.Rand)) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				note(fmt.Sprintf("run=%d %s", i, v.text))
				return
			}
			fmt.Printf("FATAL harness panic: %v\n%s\n", e, debug.Stack())
			os.Exit(3)
		}
	}()
	fn(i, rand.New(rand.NewSource(seed*1000003+int64(i))))
}

var drivers = map[string]func(*Sink){}

var deadline time.Time

func main() {
	name := ""
	budget := 0
	flag.StringVar(&name, "driver", "", "which driver")
	flag.StringVar(&srvBin, "srv", "", "binary that hosts the servers")
	flag.StringVar(&scratch, "scratch", "", "scratch directory")
	flag.StringVar(&sinkPath, "out", "", "file for the histories")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.IntVar(&amount, "n", 10, "number of runs")
	flag.IntVar(&scale, "scale", 100, "size of a run")
	flag.IntVar(&workers, "workers", 8, "runs at the same time")
	flag.StringVar(&mode, "mode", "", "variant of the driver")
	flag.StringVar(&fault, "in", "", "input file")
	flag.IntVar(&budget, "budget", 600, "start no new run after this many seconds")
	flag.Parse()

	deadline = time.Now().Add(time.Duration(budget) * time.Second)

	d, ok := drivers[name]
	if !ok {
		fatal("no driver %q", name)
	}
	sink := newSink(sinkPath)
	d(sink)
	sink.close()
	fmt.Printf("HISTORIES %d\n", sink.n)
	for _, v := range violations {
		fmt.Printf("VIOLATION %q\n", v)
	}
	if len(violations) > 0 {
		os.Exit(1)
	}
}
