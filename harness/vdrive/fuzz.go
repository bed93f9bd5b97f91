package main

import (
	"math/rand"
	"strconv"
	"strings"
	"time"
)

func init() { drivers["fuzz"] = fuzzDriver }

// noString is a RESP value that is no string
func noString(r *rand.Rand, depth int) string {
	switch r.Intn(7) {
	case 0:
		return ":" + pick(r, []string{"0", "-1", "5", "9223372036854775807", "+3"}) + "\r\n"
	case 1:
		return "-" + pick(r, []string{"", "ERR no", "a\nb", "x"}) + "\r\n"
	case 2:
		return "*-1\r\n"
	case 3:
		return "*0\r\n"
	case 4:
		n := 1 + r.Intn(100)
		return strings.Repeat("*1\r\n", n) + ":1\r\n"
	default:
		if depth > 3 {
			return ":1\r\n"
		}
		n := 1 + r.Intn(3)
		s := "*" + strconv.Itoa(n) + "\r\n"
		for i := 0; i < n; i++ {
			if r.Intn(2) == 0 {
				s += "$2\r\n\r\n\r\n"
			} else {
				s += noString(r, depth+1)
			}
		}
		return s
	}
}

// encodings sends the strings of a request in the different ways RESP has for them
func (g *G) encodings(q Req) Req {
	var b strings.Builder
	b.WriteString("*" + pick(g.Rand, []string{"", "", "+", "0"}) + strconv.Itoa(len(q.Q)) + "\r\n")
	for i, s := range q.Q {
		switch {
		case q.has(i):
			b.WriteString(noString(g.Rand, 0))
		case s == "" && g.Intn(2) == 0:
			b.WriteString("$-1\r\n")
		case !strings.ContainsAny(s, "\r\n") && g.Intn(4) == 0:
			b.WriteString("+" + s + "\r\n")
		default:
			b.WriteString("$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n")
		}
	}
	return Req{Q: q.Q, NS: q.NS, Raw: b.String()}
}

var noCommands = []string{"*0\r\n", "*-1\r\n", "$-1\r\n", "+PING\r\n", "$3\r\nget\r\n", ":5\r\n", "-ERR x\r\n", "$0\r\n\r\n", "+\r\n", ":-9223372036854775808\r\n",
	"-\r\n", "+a\nb\r\n", "$4\r\n\r\n\r\n\r\n"}

// odd is any request that may be sent
func (g *G) any() Req {
	switch g.Intn(12) {
	case 0:
		return Req{Raw: pick(g.Rand, noCommands)}
	case 1: // the name is no string
		return g.encodings(Req{Q: []string{"x", g.key(), g.val()}[:1+g.Intn(3)], NS: []int{1}})
	case 2: // an unknown or strange name
		n := pick(g.Rand, randomNames)
		if g.Intn(2) == 0 {
			n = strings.ReplaceAll(strings.ReplaceAll(g.bytes(1+g.Intn(9)), "\xe2\x84\xaa", "?"), "\xc4\xb0", "?")
		}
		return g.encodings(Req{Q: cat([]string{n}, g.many(g.val)...)})
	default:
		return g.encodings(g.cmd(pick(g.Rand, familyNames)))
	}
}

// fuzzDriver: every kind of request; pipelined in one write or one at a time, a second client watches
func fuzzDriver(sink *Sink) {
	parallel(amount, func(i int, rng *rand.Rand) {
		h := newHistory("fuzz")
		defer func() { sink.put(h) }()
		s := fresh(startOpts{File: map[bool]string{true: scratch + "/fuzz-" + strconv.Itoa(i) + ".vpf"}[i%3 == 0]})
		defer s.kill()
		if i%2 == 0 {
			s.send(startOpts{Op: "log", LogPath: scratch + "/server.log"})
			if _, err := s.await("log", 0, startTimeout); err != nil {
				fatal("log: %s", err)
			}
		}
		g := newG(rng, 1+rng.Intn(3), 2+rng.Intn(4))
		g.odd = 0.5
		g.big = i%4 == 1
		a, b := mustDial(s.Port), mustDial(s.Port)
		defer a.close()
		defer b.close()

		watch := func() {
			for _, q := range []Req{rq("get", g.key()), rq("exists", g.key())} {
				h.C(1, q, b.mustDo(q))
			}
		}
		if i == 0 {
			for _, raw := range noCommands {
				q := Req{Raw: raw}
				h.C(1, q, a.mustDo(q))
			}
			for _, q := range regressions(familyNames) {
				h.C(1, q, a.mustDo(q))
			}
			for _, q := range []Req{rq("no\r\nsuch", "a\r\nb"), rq("set", "k", "v"), rq("incrby", "k", "1\r\n+OK\r\n"), rq("incrby", "k", "x"),
				{Q: []string{"x"}, NS: []int{1}, Raw: "*1\r\n" + strings.Repeat("*1\r\n", 120) + "$2\r\n\r\n\r\n"}} {
				h.C(1, q, a.mustDo(q))
			}
		}
		for n := 0; n < scale; n++ {
			if rng.Intn(4) == 0 {
				// several requests in one write
				var qs []Req
				var all strings.Builder
				for k := 2 + rng.Intn(20); k > 0; k-- {
					q := g.any()
					qs = append(qs, q)
					all.WriteString(q.encode())
				}
				if err := a.write(all.String()); err != nil {
					violationf("write fails: %s", err)
				}
				for _, q := range qs {
					r, err := a.read()
					if err != nil {
						violationf("no well-formed reply to %s in a pipeline: %s", show(q), err)
					}
					h.C(1, q, r)
				}
				n += len(qs)
			} else {
				q := g.any()
				h.C(1, q, a.mustDo(q))
			}
			if rng.Intn(10) == 0 {
				watch()
			}
			if rng.Intn(200) == 0 {
				c := mustDial(s.Port)
				q := rq("get", g.key())
				h.C(1, q, c.mustDo(q))
				c.close()
			}
		}
		for _, q := range sweep(g.keys) {
			h.C(1, q, b.mustDo(q))
		}
		// nothing but the replies was sent
		a.silent("request fuzzing")
		b.silent("request fuzzing")
	})
}

// silent checks that no bytes arrive anymore on a connection all whose requests were answered
func (c *Client) silent(what string) {
	_ = c.conn.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
	if b, err := c.r.ReadByte(); err == nil {
		rest := make([]byte, c.r.Buffered())
		_, _ = c.r.Read(rest)
		violationf("more bytes than the replies arrived (%s): %q", what, clip(string(b)+string(rest)))
	}
}
