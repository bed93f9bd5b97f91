package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() { drivers["malformed"] = malformedDriver }

// decoder finds the requests in a stream, and whether what follows is a defect. The specification
// (Resp.tla) checks what it found.
type decoder struct {
	s   string
	lax bool
	// a length beyond what RESP asks anybody to support; a server may take it for a defect
	huge bool
}

type dval struct {
	str  bool
	v    string
	arr  bool
	elem []dval
}

const (
	stOK = iota
	stMore
	stBad
)

func (d *decoder) value(i, depth int) (dval, int, int) {
	if i >= len(d.s) {
		return dval{}, i, stMore
	}
	if !strings.ContainsRune("+-:$*", rune(d.s[i])) {
		return dval{}, i, stBad
	}
	e := strings.Index(d.s[i+1:], "\r\n")
	if e < 0 {
		d.lax = d.lax || strings.ContainsAny(d.s[i+1:], "\r\n")
		return dval{}, i, stMore
	}
	text := d.s[i+1 : i+1+e]
	next := i + 1 + e + 2
	if d.s[i] == '+' || d.s[i] == '-' {
		d.lax = d.lax || strings.ContainsAny(text, "\r\n")
		return dval{str: d.s[i] == '+', v: text}, next, stOK
	}
	n, err := strconv.ParseInt(text, 10, 64)
	if err != nil {
		return dval{}, i, stBad
	}
	d.lax = d.lax || strconv.FormatInt(n, 10) != text
	d.huge = d.huge || d.s[i] == '$' && n > 1<<29 || d.s[i] == '*' && n > 1<<20
	switch {
	case d.s[i] == ':':
		return dval{}, next, stOK
	case n == -1:
		return dval{str: d.s[i] == '$'}, next, stOK
	case n < 0:
		return dval{}, i, stBad
	case d.s[i] == '$':
		rest := int64(len(d.s) - next)
		if rest < n+1 || n > 1<<40 {
			return dval{}, i, stMore
		}
		end := next + int(n)
		if d.s[end] != '\r' {
			return dval{}, i, stBad
		}
		if rest < n+2 {
			return dval{}, i, stMore
		}
		if d.s[end+1] != '\n' {
			return dval{}, i, stBad
		}
		return dval{str: true, v: d.s[next:end]}, end + 2, stOK
	}
	if depth >= 128 {
		return dval{}, i, stBad
	}
	r := dval{arr: true}
	for ; n > 0; n-- {
		v, j, st := d.value(next, depth+1)
		if st != stOK {
			return dval{}, j, st
		}
		r.elem = append(r.elem, v)
		next = j
	}
	return r, next, stOK
}

// requests are the complete requests of the stream, where the rest starts and what it is
func (d *decoder) requests() (reqs []Req, at, st int) {
	for {
		v, next, st := d.value(at, 0)
		if st != stOK {
			return reqs, next, st
		}
		q := Req{Q: []string{}, Raw: d.s[at:next]}
		if v.arr {
			for k, e := range v.elem {
				q.Q = append(q.Q, e.v)
				if !e.str {
					q.Q[k] = ""
					q.NS = append(q.NS, k+1)
				}
			}
		}
		reqs = append(reqs, q)
		at = next
	}
}

var defects = []string{"\r\n", "\n", "x\r\n", "inline command\r\n", "PING\r\n", "$-2\r\n", "*-2\r\n", "$a\r\n", "*b\r\n", "$\r\n", "*\r\n", ":x\r\n", ":\r\n",
	":9223372036854775808\r\n", "$9223372036854775808\r\n", "*99999999999999999999\r\n", "$3\r\nabcde\r\n", "$3\r\nab\r\n", "$0\r\nx\r\n", "$1\r\na\n\r", "\x00\r\n", "\xff\r\n",
	strings.Repeat("*1\r\n", 129) + "$1\r\na\r\n", strings.Repeat("*1\r\n", 200), strings.Repeat("*2\r\n", 100000), "!\r\n", "(1\r\n", "$ 1\r\na\r\n", "*1 \r\n", "$-3\r\n",
	"*-9223372036854775808\r\n", "$-9223372036854775808\r\n", "$1.0\r\na\r\n", "*1\r\n\r\n", "*1\r\n$-2\r\n", ":-\r\n", ":--1\r\n", "$9223372036854775807\r\n", "*9223372036854775807\r\nx\r\n"}

// stream is what a client with a defect sends
func (g *G) stream(poison Req) string {
	var b strings.Builder
	var last string
	for k := g.Intn(8); k > 0; k-- {
		last = g.any().encode()
		if g.Intn(3) == 0 {
			last = rq("append", g.key(), string(rune('a'+k))).encode()
		}
		b.WriteString(last)
	}
	next := g.cmd(pick(g.Rand, familyNames)).encode()
	switch g.Intn(5) {
	case 0:
		b.WriteString(pick(g.Rand, defects))
	case 1: // the defect is in an argument
		i := strings.Index(next, "$")
		for i >= 0 && g.Intn(2) == 0 {
			j := strings.Index(next[i+1:], "$")
			if j < 0 {
				break
			}
			i += 1 + j
		}
		if i >= 0 {
			b.WriteString(next[:i])
		}
		b.WriteString(pick(g.Rand, defects))
	case 2: // mutated
		m := []byte(next)
		for k := 1 + g.Intn(2); k > 0; k-- {
			i := g.Intn(len(m))
			switch g.Intn(4) {
			case 0:
				m[i] = "+-:$*0129\r\na\x00\xff"[g.Intn(14)]
			case 1:
				m = append(m[:i:i], m[i+1:]...)
			case 2:
				m = append(m[:i:i], append([]byte(pick(g.Rand, defects[:20])), m[i:]...)...)
			default:
				m[i]++
			}
			if len(m) == 0 {
				break
			}
		}
		b.Write(m)
	default: // cut off
		b.WriteString(next[:g.Intn(len(next))])
		return b.String()
	}
	for k := 1 + g.Intn(4); k > 0; k-- {
		b.WriteString(poison.encode())
	}
	return b.String()
}

// gone tells whether an error means that the server closed the connection
func gone(err error) bool {
	return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE)
}

// farewell are the bytes that may come before a close
const farewell = "TTL expired"

// malformedDriver: a client sends requests and then a defect or half a message; the others work on
func malformedDriver(sink *Sink) {
	pool := newPool(1+workers/3, startOpts{})
	defer pool.kill()
	streams, err := os.Create(sinkPath + ".resp")
	if err != nil {
		fatal("%s", err)
	}
	defer streams.Close()
	ssink := newSink(sinkPath + ".resp")
	defer ssink.close()

	parallel(amount, func(i int, rng *rand.Rand) {
		s := pool.get(i)
		h := newHistory("malformed")
		defer func() { sink.put(h) }()
		g := newG(rng, 2, 3)
		for k := range g.keys {
			g.keys[k] += fmt.Sprintf("#%d", i)
		}
		g.odd = 0.1
		g.noPop = true
		obs := mustDial(s.Port)
		defer obs.close()
		for k := rng.Intn(6); k > 0; k-- {
			q := g.cmd(pick(rng, familyNames))
			h.C(1, q, obs.mustDo(q))
		}

		for round := 0; round < scale; round++ {
			// only streams whose reading is not left open, and requests on keys of this run
			poison := rq("append", g.key(), "POISON")
			var stream string
			var reqs []Req
			var at, st int
			huge := false
			for {
				stream = g.stream(poison)
				d := &decoder{s: stream}
				reqs, at, st = d.requests()
				ours := true
				for _, q := range reqs {
					if len(q.Q) > 1 && !q.has(2) && !strings.HasSuffix(q.Q[1], fmt.Sprintf("#%d", i)) {
						ours = false
					}
				}
				if !d.lax && ours && len(stream) > 0 {
					huge = d.huge
					break
				}
			}
			var b strings.Builder
			b.WriteString(`{"label":"stream","ev":[{"k":"reqs","in":`)
			jstr(&b, stream)
			b.WriteString(`,"st":"` + map[int]string{stMore: "more", stBad: "bad"}[st] + `","reqs":[`)
			for k, q := range reqs {
				if k > 0 {
					b.WriteByte(',')
				}
				b.WriteString(`{"q":`)
				jstrs(&b, q.Q)
				b.WriteString(`,"ns":`)
				jints(&b, q.NS)
				b.WriteString(`}`)
			}
			b.WriteString("]}]}\n")
			if len(stream) < 3000 {
				ssink.raw(b.String())
			}
			victim(h, s, g, obs, stream, reqs, at, st, huge)
			// the data and the others are as they should be
			for _, q := range sweep(g.keys) {
				if rng.Intn(3) == 0 {
					h.C(1, q, obs.mustDo(q))
				}
			}
			// and new clients are welcome
			if rng.Intn(3) == 0 {
				c := mustDial(s.Port)
				q := rq("append", g.key(), "n")
				h.C(1, q, c.mustDo(q))
				c.close()
			}
		}
		for _, q := range sweep(g.keys) {
			h.C(1, q, obs.mustDo(q))
		}
		obs.silent("malformed input of another client")
	})
}

func tail(s string) string {
	if len(s) > 400 {
		return "..." + s[len(s)-400:]
	}
	return s
}

func victim(h *History, s *Server, g *G, obs *Client, stream string, reqs []Req, at, st int, huge bool) {
	v := mustDial(s.Port)
	defer v.close()
	id := h.Client()
	for _, q := range reqs {
		h.Inv(id, 1, q)
	}
	rng := g.Rand
	r2 := rand.New(rand.NewSource(rng.Int63()))
	style := rng.Intn(3)
	if huge {
		style = 0
	}
	done := make(chan error, 1)
	go func() {
		err := v.segments(stream, r2)
		if st == stMore && err == nil {
			switch t := v.conn.(*net.TCPConn); style {
			case 0:
				err = t.CloseWrite()
			case 1:
				_ = t.SetLinger(0)
			}
		}
		done <- err
	}()
	// the others meanwhile
	oid := h.Client()
	n := rng.Intn(3)
	for k := 0; k < n; k++ {
		q := g.cmd(pick(rng, familyNames))
		h.Inv(oid, 1, q)
		h.Ret(oid, k, obs.mustDo(q))
	}
	if st == stMore && style > 0 {
		// it leaves at some moment
		sent := <-done
		for k := range reqs {
			if rng.Intn(2) == 0 {
				break
			}
			_ = v.conn.SetReadDeadline(time.Now().Add(replyTimeout))
			r, err := v.value(0)
			if err != nil {
				violationf("no well-formed reply to request %d of %d before a message that is not complete: %s (sent: %v); the end of the stream is %q", k+1, len(reqs), err, sent, tail(stream))
			}
			h.Ret(id, k, r)
		}
		v.close()
		return
	}
	if st == stMore && !huge {
		// the server need not answer what the half-closed connection sent, but it closes it
		<-done
	}
	for k := 0; ; k++ {
		_ = v.conn.SetReadDeadline(time.Now().Add(promptly))
		peek, err := v.r.Peek(1)
		if err == nil && strings.HasPrefix(farewell, string(peek)) {
			rest, err := io.ReadAll(v.r)
			if err != nil && !gone(err) {
				violationf("a connection is not closed within %s after %q: %s", promptly, clip(stream[min(at, len(stream)):]), err)
			}
			if !strings.HasPrefix(farewell, string(rest)) {
				violationf("after %q the connection gets %q", clip(stream[min(at, len(stream)):]), clip(string(rest)))
			}
			return
		}
		var r Reply
		if err == nil {
			r, err = v.value(0)
		}
		if gone(err) {
			return
		}
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				violationf("a connection is not closed within %s after %q (%d of %d requests before it were answered)", promptly, clip(stream[min(at, len(stream)):]), k, len(reqs))
			}
			violationf("no well-formed reply to request %d of %d before %q: %s", k+1, len(reqs), clip(stream[min(at, len(stream)):]), err)
		}
		if k >= len(reqs) {
			violationf("%q, which is no message, is answered with %v", clip(stream[min(at, len(stream)):]), r)
		}
		h.Ret(id, k, r)
	}
}
