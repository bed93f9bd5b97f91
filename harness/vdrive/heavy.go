package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
)

func init() { drivers["heavy"] = heavyDriver }

// heavyDriver: replicas synchronise while the master writes large records
func heavyDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		h := newHistory("heavy")
		defer func() { sink.put(h) }()
		mfile := dbFile("heavy-m", i)
		defer os.Remove(mfile)
		m := fresh(startOpts{File: mfile, Replica: true})
		defer func() { m.kill() }()
		keys := []string{"a", "b"}
		w := newCrowd()
		w.join(h, 1, m, 1, scale, 1, rng, func(r *rand.Rand, k int) Req {
			if r.Intn(3) == 0 {
				return rq("append", "a", fmt.Sprintf("%d,", k))
			}
			return rq("set", "b", huge(fmt.Sprint(k), 1+r.Intn(3<<20)))
		})
		var wg sync.WaitGroup
		var mutex sync.Mutex
		bad := ""
		next := 1
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						v, ok := e.(violation)
						if !ok {
							panic(e)
						}
						mutex.Lock()
						bad = v.text
						mutex.Unlock()
					}
				}()
				for j := 0; j < 5; j++ {
					mutex.Lock()
					next++
					n := next
					mutex.Unlock()
					f := dbFile("heavy-r", i*1000+n)
					defer os.Remove(f)
					h.EM("fetch", n, 1)
					s := fresh(startOpts{File: f, Master: m.addr()})
					h.E("fetched", n)
					func() {
						defer s.kill()
						look(h, n, s, keys)
					}()
				}
			}(k)
		}
		wg.Wait()
		close(w.quit)
		w.wg.Wait()
		h.Nodes = next
		if bad != "" {
			violationf("%s", bad)
		}
		w.verdict()
		m.mustTerm()
		h.E("stop", 1)
		m = again(m)
		look(h, 1, m, keys)
	})
}
