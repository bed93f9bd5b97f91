package zzprim

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
)

func init() {
	drivers["future"] = futures
	scripted["future"] = futureScript
}

var errTask = errors.New("task failed")

type payload struct{ n int }

// tasks end with different results: a value, no value, an error, both
type outcome struct {
	v    interface{}
	err  error
	text string
}

func outcomes(n int) outcome {
	p := &payload{n}
	switch n % 4 {
	case 0:
		return outcome{p, nil, "v"}
	case 1:
		return outcome{nil, nil, "nil"}
	case 2:
		return outcome{nil, errTask, "nil+e"}
	default:
		return outcome{p, errTask, "v+e"}
	}
}

func (o outcome) see(v interface{}, err error) string {
	if v == nil && err == concurrency.ErrCancelled {
		return "cancelled"
	}
	if v == o.v && err == o.err {
		return "is " + o.text
	}
	return fmt.Sprintf("other: %v, %v", v, err)
}

func waited(err error) string {
	switch err {
	case nil:
		return "ok"
	case concurrency.ErrCancelled:
		return "cancelled"
	case concurrency.ErrFulfilled:
		return "fulfilled"
	case concurrency.ErrTimeout:
		return "timeout"
	}
	return err.Error()
}

type testFuture struct {
	r    *rec
	o    outcome
	stop chan struct{}
	fut  concurrency.Future
}

// newFuture has a task that ends after d, or when stop is closed
func newFuture(r *rec, d time.Duration, n int) *testFuture {
	f := &testFuture{r: r, o: outcomes(n), stop: make(chan struct{})}
	fn := func() {
		select {
		case <-time.After(d):
		case <-f.stop:
		}
		r.add(`"k":"finish","r":` + jstr(f.o.text))
	}
	var task concurrency.Task
	switch {
	case n%8 < 4:
		task = concurrency.NewTask(func() (interface{}, error) { fn(); return f.o.v, f.o.err })
	case f.o.err == nil:
		task = concurrency.NewNoErrorTask(func() interface{} { fn(); return f.o.v })
	case f.o.v == nil && d == 0:
		r.add(`"k":"finish","r":` + jstr(f.o.text))
		task = concurrency.NewErrorTask(f.o.err)
	default:
		task = concurrency.NewTask(func() (interface{}, error) { fn(); return f.o.v, f.o.err })
	}
	f.fut = concurrency.NewFuture(task)
	return f
}

func (f *testFuture) op(op string, d int) {
	f.r.do(op, fmt.Sprintf(`,"d":%d`, d*1000), func() string {
		switch op {
		case "cancel":
			return waited(f.fut.Cancel())
		case "get":
			return f.o.see(f.fut.Get())
		case "wait":
			return waited(f.fut.Wait())
		}
		return waited(f.fut.WaitFor(time.Duration(d) * ms))
	})
}

func futures(r *rec) {
	d := time.Duration(r.intn(6)) * ms
	if r.one(4) {
		d = time.Hour
	}
	f := newFuture(r, d, r.intn(8))
	for g := 1 + r.intn(5); g > 0; g-- {
		r.spawn(func() {
			for k := 1 + r.intn(4); k > 0; k-- {
				r.think(4)
				switch r.intn(6) {
				case 0, 1:
					f.op("cancel", 0)
				case 2:
					f.op("get", 0)
				case 3:
					f.op("wait", 0)
				default:
					f.op("waitfor", r.intn(6)-1)
				}
			}
		})
	}
	r.watch(14 * ms)
	r.end("")
	close(f.stop)
	r.wg.Wait()
}

// futureScript: "finish", "tick", or a call such as "waitfor:1"
func futureScript(r *rec, steps []string) {
	f := newFuture(r, time.Hour, r.intn(4))
	finished := false
	for _, s := range steps {
		p := strings.Split(s, ":")
		switch p[0] {
		case "tick":
			time.Sleep(ms)
			r.add(`"k":"tick"`)
		case "finish":
			finished = true
			close(f.stop)
		default:
			d := 0
			if len(p) > 1 {
				d, _ = strconv.Atoi(p[1])
			}
			r.spawn(func() { f.op(p[0], d) })
		}
		if r.one(2) {
			time.Sleep(100 * time.Microsecond)
		}
	}
	r.watch(3 * ms)
	r.end("")
	if !finished {
		close(f.stop)
	}
	r.wg.Wait()
}
