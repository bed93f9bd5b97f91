package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

func init() { drivers["paths"] = pathsDriver }

// pathsDriver replays the transitions that TLC enumerated (lines "PATH [[..],..]"), each on keys of
// its own, and records the replies to the requests and to reads of everything afterwards.
func pathsDriver(sink *Sink) {
	f, err := os.Open(fault)
	if err != nil {
		fatal("%s", err)
	}
	defer f.Close()
	var paths [][][]string
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.Trim(sc.Text(), "\"")
		if !strings.HasPrefix(l, "PATH ") {
			continue
		}
		l = strings.ReplaceAll(l[5:], `\"`, `"`)
		l = strings.ReplaceAll(l, `\\`, `\`)
		var p [][]string
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			fatal("path %s: %s", l, err)
		}
		paths = append(paths, p)
	}
	if len(paths) == 0 {
		fatal("no paths in %s", fault)
	}

	const group = 25
	const perServer = 40 // groups
	s := make([]*Server, workers)
	slot := make(chan int, workers)
	for i := range s {
		s[i] = fresh(startOpts{})
		slot <- i
	}
	parallel((len(paths)+group-1)/group, func(i int, rng *rand.Rand) {
		w := <-slot
		defer func() { slot <- w }()
		if !s[w].alive() {
			s[w] = fresh(startOpts{})
		}
		h := newHistory("paths")
		defer sink.put(h)
		c := mustDial(s[w].Port)
		defer c.close()
		do := func(q Req) { h.C(1, q, c.mustDo(q)) }
		for j := i * group; j < (i+1)*group && j < len(paths); j++ {
			name := strings.NewReplacer("K1", fmt.Sprintf("K1#%d", j), "K2", fmt.Sprintf("K2#%d", j), "K3", fmt.Sprintf("K3#%d", j))
			for _, cmd := range paths[j] {
				if cmd[0] == "RANDOM" {
					continue
				}
				q := make([]string, len(cmd))
				for k := range cmd {
					q[k] = name.Replace(cmd[k])
				}
				do(Req{Q: q})
			}
			fams := strings.Split(mode, ",")
			for _, k := range []string{"K1", "K2"} {
				for _, fam := range fams {
					for _, q := range reads(fam, name.Replace(k)) {
						do(q)
					}
				}
			}
		}
	})
	for i := range s {
		s[i].kill()
	}
}
