// Package main writes and reads log files with the real code and records what happens, for LogFileTrace.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
)

func jstr(b *strings.Builder, s string) {
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(b, `\u00%02x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
}

func jbytes(b *strings.Builder, s []byte) {
	b.WriteByte('[')
	for i, c := range s {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(b, "%d", c)
	}
	b.WriteByte(']')
}

var violations []string

func violationf(format string, a ...interface{}) {
	if len(violations) < 5 {
		violations = append(violations, fmt.Sprintf(format, a...))
	}
}

// limited runs fn, and reports panics and calls that do not return
func limited(what string, fn func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panics: %v", e)
				return
			}
			done <- ""
		}()
		fn()
	}()
	select {
	case s := <-done:
		if s != "" {
			violationf("%s %s", what, s)
		}
		return s == ""
	case <-time.After(30 * time.Second):
		violationf("%s does not return", what)
		return false
	}
}

// pieces is a reader that returns the bytes in pieces, then fails
type pieces struct {
	data  []byte
	size  func() int
	early bool
	err   error
}

func (c *pieces) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		return 0, c.err
	}
	n := c.size()
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.early {
		return n, c.err
	}
	return n, nil
}

func sizes(g *rand.Rand) func() int {
	switch g.Intn(5) {
	case 0:
		return func() int { return 1 }
	case 1:
		return func() int { return 1 + g.Intn(3) }
	case 2:
		return func() int { return 1 + g.Intn(50) }
	case 3:
		return func() int { return 1 + g.Intn(5000) }
	default:
		return func() int { return 1 << 20 }
	}
}

type rec struct {
	g     *rand.Rand
	ev    []string
	names map[string]string // entries by content
}

func (r *rec) event(fn func(b *strings.Builder)) {
	var b strings.Builder
	fn(&b)
	r.ev = append(r.ev, b.String())
}

// name is a short name of what an entry holds
func (r *rec) name(vl *log.VertexLog) string {
	text := fmt.Sprintf("%q %d %q %q %d %q %q", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, vl.Arguments, vl.RawRequest)
	n, ok := r.names[text]
	if !ok {
		n = fmt.Sprintf("L%d", len(r.names)+1)
		r.names[text] = n
	}
	return n
}

func (r *rec) list(b *strings.Builder, logs []*log.VertexLog) {
	b.WriteString(`"logs":[`)
	for i, vl := range logs {
		if i > 0 {
			b.WriteByte(',')
		}
		jstr(b, r.name(vl))
	}
	b.WriteByte(']')
}

func length(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

// body records what a body alone means
func (r *rec) body(body []byte) {
	var logs []*log.VertexLog
	var err error
	if !limited("reading a record", func() {
		logs, err = log.ParseLog(bytes.NewReader(append(length(len(body)), body...)))
	}) {
		return
	}
	if err != nil || len(logs) > 1 {
		violationf("one complete record of %d bytes is read as %d entries, error %v", len(body), len(logs), err)
		return
	}
	name := ""
	if len(logs) == 1 {
		name = r.name(logs[0])
	}
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"body","body":`)
		jbytes(b, body)
		b.WriteString(`,"log":`)
		jstr(b, name)
		b.WriteString("}")
	})
}

// bodies are those of a file, as the specification reads it
func bodies(s []byte) [][]byte {
	var out [][]byte
	for len(s) >= 4 {
		n := int(s[0]) | int(s[1])<<8 | int(s[2])<<16 | int(s[3])<<24
		if n > len(s)-4 {
			break
		}
		out = append(out, s[4:4+n])
		s = s[4+n:]
	}
	return out
}

func (r *rec) file(s []byte) {
	for _, b := range bodies(s) {
		r.body(b)
	}
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"file","bytes":`)
		jbytes(b, s)
		b.WriteString("}")
	})
}

func (r *rec) read(s []byte, cut int, fail bool) {
	p := &pieces{data: s[:cut:cut], size: sizes(r.g), early: r.g.Intn(2) == 0, err: io.EOF}
	kind := "read"
	if fail {
		p.err = errors.New("the disk is gone")
		kind = "fail"
	}
	var logs []*log.VertexLog
	var off int64
	var err error
	short := r.g.Intn(4) == 0
	if !limited(fmt.Sprintf("reading %d bytes of %q", cut, clip(s)), func() {
		if short {
			logs, err = log.ParseLog(p)
		} else {
			logs, off, err = log.ParseLogWithOffset(p)
		}
	}) {
		return
	}
	if short {
		// it has no offset to tell
		off = 0
		for _, b := range bodies(s[:cut]) {
			off += 4 + int64(len(b))
		}
	}
	r.event(func(b *strings.Builder) {
		fmt.Fprintf(b, `{"k":"%s","cut":%d,"off":%d,"err":%v,`, kind, cut, off, err != nil)
		r.list(b, logs)
		b.WriteString("}")
	})
}

func clip(s []byte) []byte {
	if len(s) > 100 {
		return s[:100]
	}
	return s
}

var words = []string{"", "a", "set", "\r\n", "\xff\xfe", "\x00", "é", "key with blanks", "$-1\r\n", strings.Repeat("x", 127), strings.Repeat("y", 128)}

func (r *rec) word() string {
	switch r.g.Intn(12) {
	case 0:
		b := make([]byte, r.g.Intn(300))
		r.g.Read(b)
		return string(b)
	case 1:
		if r.g.Intn(12) == 0 {
			return strings.Repeat(string([]byte{byte(r.g.Intn(256))}), []int{4090, 4096, 5000, 16384, 66000}[r.g.Intn(5)])
		}
	}
	return words[r.g.Intn(len(words))]
}

// request is an array of strings, as JSON and as an object
func (r *rec) request() (string, []protocol.RedisObject) {
	var b strings.Builder
	var objects []protocol.RedisObject
	b.WriteString(`{"t":"arr","v":"","a":[`)
	for i, n := 0, 1+r.g.Intn(5); i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		w := r.word()
		t := "bulk"
		switch {
		case r.g.Intn(10) == 0:
			t, w = "nil", ""
			objects = append(objects, protocol.NewNullBulkRedisString())
		case r.g.Intn(5) == 0 && !strings.ContainsAny(w, "\r\n"):
			t = "str"
			objects = append(objects, protocol.NewSimpleRedisString(w))
		default:
			objects = append(objects, protocol.NewBulkRedisString(w))
		}
		fmt.Fprintf(&b, `{"t":"%s","v":`, t)
		jstr(&b, w)
		b.WriteString(`,"a":[]}`)
	}
	b.WriteString("]}")
	return b.String(), objects
}

var ids = map[string]bool{}

// entry makes an entry and packs it
func (r *rec) entry() []byte {
	v, objects := r.request()
	name := []string{"", "set", "SET", "hset", "é", strings.Repeat("n", 200)}[r.g.Intn(6)]
	index := []int{0, 1, -1, 15, 2147483647, -2147483648}[r.g.Intn(6)]
	var vl *log.VertexLog
	if !limited("making an entry", func() { vl = log.NewLog(name, index, objects) }) {
		return nil
	}
	same := vl.Name == name && int(vl.Index) == index && vl.Id != "" && !ids[vl.Id]
	ids[vl.Id] = true
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"new","v":` + v + `,"raw":`)
		jstr(b, string(vl.RawRequest))
		b.WriteString(`,"args":[`)
		for i, a := range vl.Arguments {
			if i > 0 {
				b.WriteByte(',')
			}
			jstr(b, string(a))
		}
		fmt.Fprintf(b, `],"same":%v}`, same)
	})
	var out []byte
	var err error
	if !limited("packing an entry", func() { out, err = log.PackLog(vl) }) {
		return nil
	}
	if err != nil {
		violationf("the entry of %s is not packed: %s", v, err)
		return nil
	}
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"pack","log":`)
		jstr(b, r.name(vl))
		b.WriteString(`,"out":`)
		jbytes(b, out)
		b.WriteString("}")
	})
	return out
}

// random is a file of entries, some of them not readable, and perhaps an end that is none
func (r *rec) random() {
	var s []byte
	for k := r.g.Intn(6); k > 0; k-- {
		e := r.entry()
		if e == nil {
			return
		}
		switch r.g.Intn(10) {
		case 0: // not readable any more, or something else
			e = append([]byte(nil), e...)
			for i := 4; i < len(e); i++ {
				e[i] = 0xff
			}
		case 1:
			e = append([]byte(nil), e...)
			if len(e) > 4 {
				e[4+r.g.Intn(len(e)-4)] ^= byte(1 << uint(r.g.Intn(8)))
			}
		case 2:
			junk := make([]byte, r.g.Intn(20))
			r.g.Read(junk)
			s = append(append(s, length(len(junk))...), junk...)
		}
		s = append(s, e...)
	}
	if r.g.Intn(3) == 0 {
		junk := make([]byte, 1+r.g.Intn(30))
		r.g.Read(junk)
		s = append(s, junk...)
	}
	r.file(s)
	if len(s) <= 600 {
		for cut := 0; cut <= len(s); cut++ {
			r.read(s, cut, false)
		}
	} else {
		at := 0
		for _, b := range bodies(s) {
			for d := -2; d <= 5; d++ {
				if at+d >= 0 && at+d <= len(s) {
					r.read(s, at+d, false)
				}
			}
			at += 4 + len(b)
		}
		for k := 0; k < 10; k++ {
			r.read(s, r.g.Intn(len(s)+1), false)
		}
		r.read(s, len(s), false)
	}
	for k := 0; k < 3; k++ {
		r.read(s, r.g.Intn(len(s)+1), true)
	}
}

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "")
	out := flag.String("out", "", "")
	in := flag.String("in", "", "file with lines FILE <<1, 2>>")
	flag.Parse()

	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	hists := 0
	start := func(i int) *rec {
		return &rec{g: rand.New(rand.NewSource(*seed*1000003 + int64(i))), names: map[string]string{}}
	}
	done := func(r *rec) {
		fmt.Fprintf(w, "{\"label\":\"log%d\",\"ev\":[%s]}\n", hists, strings.Join(r.ev, ","))
		hists++
	}
	if *in != "" {
		data, err := os.ReadFile(*in)
		if err != nil {
			panic(err)
		}
		r := start(-1)
		for _, l := range strings.Split(string(data), "\n") {
			l = strings.Trim(l, `"`)
			if !strings.HasPrefix(l, "FILE <<") {
				continue
			}
			var s []byte
			for _, x := range strings.Split(strings.Trim(l[5:], "<>"), ", ") {
				var c int
				_, _ = fmt.Sscanf(x, "%d", &c)
				s = append(s, byte(c))
			}
			r.file(s)
			r.read(s, len(s), false)
			if len(r.ev) > 500 {
				done(r)
				r = start(-2 - hists)
			}
			if len(violations) >= 3 {
				break
			}
		}
		if len(r.ev) > 0 {
			done(r)
		}
	}
	for i := 0; i < *n && len(violations) < 3; i++ {
		r := start(i)
		r.random()
		done(r)
	}
	_ = w.Flush()
	_ = f.Close()
	fmt.Printf("HISTORIES %d\n", hists)
	for _, v := range violations {
		fmt.Printf("VIOLATION %q\n", v)
	}
}
