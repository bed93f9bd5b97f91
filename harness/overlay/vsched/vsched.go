// Package zzvsched lets other goroutines run at the places where calls of P were inserted.
package zzvsched

import (
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

var (
	mutex   sync.Mutex
	rng     = rand.New(rand.NewSource(seed()))
	virtual = os.Getenv("VSCHED") == "virtual"
	off     = os.Getenv("VSCHED") == "off"
	chance  = 3 // virtual: one of so many calls of P sleeps
)

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VSCHED_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Seed restarts the random choices
func Seed(n int64, oneOf int) {
	mutex.Lock()
	defer mutex.Unlock()
	rng = rand.New(rand.NewSource(n))
	chance = oneOf
}

// Intn is a random number of the same source
func Intn(n int) int {
	mutex.Lock()
	defer mutex.Unlock()
	return rng.Intn(n)
}

// P may sleep: some virtual nanoseconds in a synctest bubble, a little real time otherwise
func P() {
	if off {
		return
	}
	if virtual {
		mutex.Lock()
		d := 0
		if rng.Intn(chance) == 0 {
			d = 1 + rng.Intn(400)
			if rng.Intn(10) == 0 {
				d *= 5
			}
		}
		mutex.Unlock()
		if d > 0 {
			time.Sleep(time.Duration(d))
		}
		return
	}
	mutex.Lock()
	n := rng.Intn(2000)
	m := rng.Intn(400)
	mutex.Unlock()
	switch {
	case n < 1:
		time.Sleep(time.Duration(m*10) * time.Microsecond)
	case n < 20:
		time.Sleep(time.Duration(m) * time.Microsecond)
	case n < 300:
		runtime.Gosched()
	}
}

type slow struct{ w io.Writer }

// Slow splits some of the writes to w
func Slow(w io.Writer) io.Writer { return slow{w} }

func (s slow) Write(b []byte) (int, error) {
	if len(b) < 2 || Intn(2) == 0 {
		return s.w.Write(b)
	}
	k := 1 + Intn(len(b)-1)
	n, err := s.w.Write(b[:k])
	if err != nil || n < k {
		return n, err
	}
	time.Sleep(time.Duration(Intn(1000)) * time.Microsecond)
	m, err := s.w.Write(b[k:])
	return n + m, err
}
