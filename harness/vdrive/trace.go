package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
)

// J builds JSON by hand: strings are written with one character per byte, so the
// specification sees byte strings.
func jstr(b *strings.Builder, s string) {
	const hex = "0123456789abcdef"
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			b.WriteString(`\u00`)
			b.WriteByte(hex[c>>4])
			b.WriteByte(hex[c&15])
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
}

func jstrs(b *strings.Builder, a []string) {
	b.WriteByte('[')
	for i, s := range a {
		if i > 0 {
			b.WriteByte(',')
		}
		jstr(b, s)
	}
	b.WriteByte(']')
}

func jints(b *strings.Builder, a []int) {
	b.WriteByte('[')
	for i, n := range a {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(n))
	}
	b.WriteByte(']')
}

// Reply is a reply as the specification sees it, see Keyspace.tla
type Reply struct {
	T, V string
	A    []string
}

var noReply = Reply{T: "none"}

func (r Reply) json(b *strings.Builder) {
	b.WriteString(`{"t":`)
	jstr(b, r.T)
	b.WriteString(`,"v":`)
	jstr(b, r.V)
	b.WriteString(`,"a":`)
	jstrs(b, r.A)
	b.WriteByte('}')
}

// Req is a request: its elements, and which of them (from 1) are sent as no string
type Req struct {
	Q  []string
	NS []int
	// Raw overrides the encoding
	Raw string
}

func rq(a ...string) Req { return Req{Q: a} }

func (r Req) has(i int) bool {
	for _, n := range r.NS {
		if n == i+1 {
			return true
		}
	}
	return false
}

func (r Req) encode() string {
	if r.Raw != "" {
		return r.Raw
	}
	var b strings.Builder
	b.WriteString("*" + strconv.Itoa(len(r.Q)) + "\r\n")
	for i, s := range r.Q {
		if r.has(i) {
			b.WriteString(":" + strconv.Itoa(i) + "\r\n")
		} else {
			s = expand(s)
			b.WriteString("$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n")
		}
	}
	return b.String()
}

// A huge value is written as big:<name>:<n>; in histories, and followed by n bytes on the wire
func huge(name string, n int) string { return fmt.Sprintf("big:%s:%d;", name, n) }

func expand(s string) string {
	if !strings.HasPrefix(s, "big:") || !strings.HasSuffix(s, ";") {
		return s
	}
	n, err := strconv.Atoi(s[strings.LastIndexByte(s, ':')+1 : len(s)-1])
	if err != nil {
		return s
	}
	return s + strings.Repeat("=", n)
}

func contract(s string) string {
	if strings.HasPrefix(s, "big:") {
		if i := strings.IndexByte(s, ';'); i > 0 && len(s) > i+1 && expand(s[:i+1]) == s {
			return s[:i+1]
		}
	}
	return s
}

// Op is a request of a client with its reply
type Op struct {
	N   int
	Req Req
	R   Reply
	At  int
}

func (o *Op) fields(b *strings.Builder) {
	b.WriteString(`"n":` + strconv.Itoa(o.N) + `,"q":`)
	jstrs(b, o.Req.Q)
	b.WriteString(`,"ns":`)
	jints(b, o.Req.NS)
	b.WriteString(`,"r":`)
	o.R.json(b)
}

// Ev is an event of a history, see StoreTrace.tla
type Ev struct {
	K       string
	N, M, P int
	C, I    int
	Op      *Op
}

// History is what one line of a trace file holds
type History struct {
	Label   string
	Nodes   int
	KL      bool
	Clients [][]*Op
	Ev      []Ev
	mutex   sync.Mutex
}

func newHistory(label string) *History { return &History{Label: label, Nodes: 1} }

// C appends a request that was answered before anything else happened
func (h *History) C(n int, q Req, r Reply) {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	h.Ev = append(h.Ev, Ev{K: "c", N: n, Op: &Op{N: n, Req: q, R: r}})
}

func (h *History) E(k string, n int) { h.EP(k, n, 0) }

func (h *History) EP(k string, n, p int) {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	h.Ev = append(h.Ev, Ev{K: k, N: n, P: p})
}

func (h *History) EM(k string, n, m int) {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	h.Ev = append(h.Ev, Ev{K: k, N: n, M: m})
}

// Client adds a client, the result is its index
func (h *History) Client() int {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	h.Clients = append(h.Clients, nil)
	return len(h.Clients) - 1
}

// Inv appends the sending of a request
func (h *History) Inv(c, n int, q Req) *Op {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	op := &Op{N: n, Req: q, R: noReply, At: len(h.Ev) + 1}
	h.Clients[c] = append(h.Clients[c], op)
	h.Ev = append(h.Ev, Ev{K: "inv", C: c + 1, N: n})
	return op
}

// Ret appends the arrival of the reply to the i-th (from 0) request of c
func (h *History) Ret(c, i int, r Reply) {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	h.Clients[c][i].R = r
	h.Ev = append(h.Ev, Ev{K: "ret", C: c + 1, I: i + 1})
}

func (h *History) line() string {
	for _, e := range h.Ev {
		switch e.K {
		case "crash", "cut", "damage", "fetch", "own":
			h.KL = true // the logs matter
		}
	}

	var b strings.Builder
	b.WriteString(`{"label":`)
	jstr(&b, h.Label)
	b.WriteString(`,"nodes":` + strconv.Itoa(h.Nodes) + `,"kl":` + strconv.FormatBool(h.KL) + `,"clients":[`)
	for i, c := range h.Clients {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteByte('[')
		for j, o := range c {
			if j > 0 {
				b.WriteByte(',')
			}
			b.WriteByte('{')
			o.fields(&b)
			b.WriteString(`,"at":` + strconv.Itoa(o.At) + `}`)
		}
		b.WriteByte(']')
	}
	b.WriteString(`],"ev":[`)
	for i, e := range h.Ev {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(`{"k":"` + e.K + `"`)
		switch e.K {
		case "c":
			b.WriteByte(',')
			e.Op.fields(&b)
		case "inv":
			b.WriteString(`,"c":` + strconv.Itoa(e.C))
		case "ret":
			b.WriteString(`,"c":` + strconv.Itoa(e.C) + `,"i":` + strconv.Itoa(e.I))
		default:
			b.WriteString(`,"n":` + strconv.Itoa(e.N) + `,"m":` + strconv.Itoa(e.M) + `,"p":` + strconv.Itoa(e.P))
		}
		b.WriteByte('}')
	}
	b.WriteString("]}\n")
	return b.String()
}

// Sink writes histories to a file, from any goroutine
type Sink struct {
	mutex sync.Mutex
	file  *os.File
	w     *bufio.Writer
	n     int
}

func newSink(path string) *Sink {
	f, err := os.Create(path)
	if err != nil {
		fatal("create %s: %s", path, err)
	}
	return &Sink{file: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (s *Sink) put(h *History) {
	l := h.line()
	s.raw(l)
}

func (s *Sink) raw(l string) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	_, _ = s.w.WriteString(l)
	s.n++
}

func (s *Sink) close() {
	_ = s.w.Flush()
	_ = s.file.Close()
}
