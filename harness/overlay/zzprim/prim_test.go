// Package zzprim uses the concurrency primitives, data maps and connections of the repository in
// synctest bubbles, where time is virtual, and records what happens.
package zzprim

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lxdlam/vertex/pkg/zzvsched"
)

const ms = time.Millisecond

func jstr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(&b, `\u00%02x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// rec records one history. Times are in microseconds.
type rec struct {
	mutex sync.Mutex
	rng   *rand.Rand
	t0    time.Time
	ids   int
	cfg   string
	ev    []string
	over  bool
	wg    sync.WaitGroup
}

func (r *rec) add(fields string) {
	r.mutex.Lock()
	defer r.mutex.Unlock()
	r.put(fields)
}

func (r *rec) put(fields string) {
	if !r.over {
		r.ev = append(r.ev, fmt.Sprintf(`{"t":%d,%s}`, time.Since(r.t0)/time.Microsecond, fields))
	}
}

// call records the start of a call, fields describe it
func (r *rec) call(op, fields string) int {
	r.mutex.Lock()
	defer r.mutex.Unlock()
	r.ids++
	r.put(fmt.Sprintf(`"k":"call","id":%d,"op":"%s"%s`, r.ids, op, fields))
	return r.ids
}

func (r *rec) ret(id int, res string) {
	r.add(fmt.Sprintf(`"k":"ret","id":%d,"r":%s`, id, jstr(res)))
}

// do records a call and its result; one that panics has a result that nothing allows
func (r *rec) do(op, fields string, fn func() string) {
	id := r.call(op, fields)
	res := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				res = fmt.Sprintf("panic: %v", e)
			}
		}()
		res = fn()
	}()
	r.ret(id, res)
}

// intn is a random number, from any goroutine
func (r *rec) intn(n int) int {
	r.mutex.Lock()
	defer r.mutex.Unlock()
	return r.rng.Intn(n)
}

func (r *rec) one(n int) bool { return r.intn(n) == 0 }

// think waits a random number of milliseconds, mostly few, so that different goroutines meet
func (r *rec) think(most int) {
	if r.one(3) {
		return
	}
	time.Sleep(time.Duration(r.intn(most+1)) * ms)
}

func (r *rec) spawn(fn func()) {
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		fn()
	}()
}

// watch lets d pass, and records the time in the middle of every millisecond
func (r *rec) watch(d time.Duration) {
	time.Sleep(ms / 2)
	for t := time.Duration(0); t < d; t += ms {
		time.Sleep(ms)
		r.add(`"k":"tick"`)
	}
}

func (r *rec) end(extra string) {
	r.mutex.Lock()
	defer r.mutex.Unlock()
	r.put(`"k":"end"` + extra)
	r.over = true
}

// drivers run a history in a bubble. What they do after end is not recorded.
var drivers = map[string]func(r *rec){}

func TestPrim(t *testing.T) {
	f, err := os.Create(os.Getenv("PRIM_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(f)
	seed, _ := strconv.ParseInt(os.Getenv("PRIM_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("PRIM_N"))
	slack := 2
	if os.Getenv("VSCHED") == "virtual" {
		slack = 300
	}
	name := os.Getenv("PRIM_DRIVER")
	driver := drivers[name]
	scripts := readScripts(os.Getenv("PRIM_IN"))
	if scripts != nil {
		n = len(scripts)
	}
	left := 0
	// a call that spins stops the virtual time
	progress := make(chan int)
	go func() {
		last := -1
		for {
			select {
			case last = <-progress:
			case <-time.After(60 * time.Second):
				fmt.Printf("VIOLATION %q\n", fmt.Sprintf("history %s-%d: the calls do not end and no time passes", name, last))
				fmt.Println("HISTORIES 0")
				os.Exit(1)
			}
		}
	}()
	start := time.Now()
	budget, _ := strconv.Atoi(os.Getenv("PRIM_BUDGET"))
	if budget == 0 {
		budget = 300
	}
	done := 0
	for i := 0; i < n && time.Since(start) < time.Duration(budget)*time.Second; i++ {
		done++
		progress <- i
		zzvsched.Seed(seed*1000+int64(i), 2+i%4)
		r := &rec{rng: rand.New(rand.NewSource(seed*1000003 + int64(i)))}
		func() {
			defer func() {
				// goroutines that stay blocked
				if e := recover(); e != nil {
					left++
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				r.t0 = time.Now()
				if scripts != nil {
					replay(name, r, scripts[i])
				} else {
					driver(r)
				}
				// what goes on in the background ends
				time.Sleep(time.Hour)
			})
		}()
		fmt.Fprintf(w, `{"label":"%s-%d","slack":%d,%s"ev":[%s]}`+"\n", name, i, slack, r.cfg, strings.Join(r.ev, ","))
	}
	w.Flush()
	f.Close()
	fmt.Println("LEFT", left)
	fmt.Println("HISTORIES", done)
}

func readScripts(path string) [][]string {
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var out [][]string
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			out = append(out, strings.Fields(l))
		}
	}
	return out
}

// scripted drivers replay a sequence of steps of the specification
var scripted = map[string]func(r *rec, steps []string){}

func replay(name string, r *rec, steps []string) { scripted[name](r, steps) }
