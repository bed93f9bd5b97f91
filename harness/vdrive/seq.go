package main

import (
	"math/rand"
	"strings"
)

func init() { drivers["seq"] = seqDriver }

// seqDriver: one client, one request at a time, on a fresh server per run.
// mode: the families separated by commas; "+frame" sweeps all keys around each request,
// "+odd" makes most requests odd, "+log" switches the server log on.
func seqDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		h := newHistory("seq")
		parts := strings.Split(mode, "+")
		fams := strings.Split(parts[0], ",")
		frame, odd := false, false
		s := fresh(startOpts{})
		defer s.kill()
		for _, p := range parts[1:] {
			switch p {
			case "frame":
				frame = true
			case "odd":
				odd = true
			case "log":
				if i%2 == 0 {
					s.send(startOpts{Op: "log", LogPath: scratch + "/server.log"})
					if _, err := s.await("log", 0, startTimeout); err != nil {
						fatal("log: %s", err)
					}
				}
			}
		}
		defer func() {
			// what was recorded before a violation is evidence, too
			sink.put(h)
		}()

		g := newG(rng, 1+rng.Intn(3), 2+rng.Intn(5))
		g.big = i%4 == 3
		steps, quiet := scale, 3
		switch {
		case i%16 == 9:
			// larger than what implementations treat as small
			g.keys = g.keys[:1]
			g.widen([]int{300, 700, 1100}[rng.Intn(3)])
			steps, quiet = scale/10, 10
		case i%4 == 1:
			g.keys = append(g.keys, "wide1", "wide2")
			g.widen([]int{12, 20, 40, 70, 140}[rng.Intn(5)])
			steps, quiet = scale/2, 6
		}
		if odd {
			g.odd = 0.5
		}
		c := mustDial(s.Port)
		defer c.close()
		do := func(q Req) { h.C(1, q, c.mustDo(q)) }

		for _, q := range regressions(fams) {
			if i == 0 {
				do(q)
			}
		}

		for n := 0; n < steps; n++ {
			f := pick(rng, fams)
			q := g.cmd(f)
			do(q)
			switch {
			case frame && rng.Intn(3) == 0:
				for _, r := range sweep(g.keys) {
					do(r)
				}
			case rng.Intn(quiet) == 0 && len(q.Q) > 1 && !q.has(1):
				for _, r := range reads(f, q.Q[1]) {
					do(r)
				}
			}
			if rng.Intn(150) == 0 {
				g.vals, g.fields = g.pool(4), g.pool(4)
				if g.width > 0 {
					g.widen(g.width)
				}
			}
			if rng.Intn(100) == 0 {
				// a new connection sees the same
				c.close()
				c = mustDial(s.Port)
			}
		}
		for _, r := range sweep(g.keys) {
			do(r)
		}
	})
}
