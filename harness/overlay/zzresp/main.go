// Package main reads and writes RESP with the real code and records what happens, for RespTrace.
package main

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/lxdlam/vertex/pkg/protocol"
)

func jstr(b *strings.Builder, s string) {
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(b, `\u00%02x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
}

// Value is a value as the specification sees it
type Value struct {
	T, V string
	A    []Value
}

func (v Value) json(b *strings.Builder) {
	b.WriteString(`{"t":"` + v.T + `","v":`)
	jstr(b, v.V)
	b.WriteString(`,"a":[`)
	for i, e := range v.A {
		if i > 0 {
			b.WriteByte(',')
		}
		e.json(b)
	}
	b.WriteString("]}")
}

func (v Value) object() protocol.RedisObject {
	switch v.T {
	case "str":
		return protocol.NewSimpleRedisString(v.V)
	case "err":
		return protocol.NewRedisError(v.V)
	case "int":
		n, err := strconv.ParseInt(v.V, 10, 64)
		if err != nil {
			panic(err)
		}
		return protocol.NewRedisInteger(n)
	case "bulk":
		return protocol.NewBulkRedisString(v.V)
	case "nil":
		return protocol.NewNullBulkRedisString()
	case "nilarr":
		return protocol.NewNullRedisArray()
	default:
		var a []protocol.RedisObject
		for _, e := range v.A {
			a = append(a, e.object())
		}
		return protocol.NewRedisArray(a)
	}
}

func valueOf(o protocol.RedisObject) Value {
	switch x := o.(type) {
	case protocol.RedisArray:
		if x.String() == "*-1\r\n" {
			return Value{T: "nilarr"}
		}
		v := Value{T: "arr"}
		for _, e := range x.Data() {
			v.A = append(v.A, valueOf(e))
		}
		return v
	case protocol.RedisInteger:
		return Value{T: "int", V: strconv.FormatInt(x.Data(), 10)}
	case protocol.RedisError:
		return Value{T: "err", V: x.Message()}
	case protocol.RedisString:
		switch {
		case x.String() == "$-1\r\n":
			return Value{T: "nil"}
		case x.Type() == protocol.BulkStringType:
			return Value{T: "bulk", V: x.Data()}
		default:
			return Value{T: "str", V: x.Data()}
		}
	}
	return Value{T: fmt.Sprintf("unknown %T", o)}
}

// chunks is a reader that returns the stream in pieces; when it is empty it returns io.EOF, together
// with the last piece or after it, or blocks
type chunks struct {
	data    []byte
	size    func() int
	early   bool
	block   chan struct{}
	waiting chan struct{}
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		if c.block != nil {
			close(c.waiting)
			<-c.block
		}
		return 0, io.EOF
	}
	n := c.size()
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.early && c.block == nil {
		return n, io.EOF
	}
	return n, nil
}

var violations []string

func violationf(format string, a ...interface{}) {
	if len(violations) < 5 {
		violations = append(violations, fmt.Sprintf(format, a...))
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// limited runs fn, and reports panics and calls that do not return
func limited(what string, fn func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panics: %v", e)
				return
			}
			done <- ""
		}()
		fn()
	}()
	select {
	case s := <-done:
		if s != "" {
			violationf("the reader %s on %q", s, clip(what))
			return false
		}
		return true
	case <-time.After(20 * time.Second):
		violationf("the reader does not return on %q", clip(what))
		return false
	}
}

type rec struct {
	b strings.Builder
	n int
	w *bufio.Writer
	h int
}

func (r *rec) event(fn func(b *strings.Builder)) {
	if r.n > 0 {
		r.b.WriteByte(',')
	}
	fn(&r.b)
	r.n++
	if r.n >= 400 || r.b.Len() > 1<<19 {
		r.flush()
	}
}

func (r *rec) flush() {
	if r.n == 0 {
		return
	}
	fmt.Fprintf(r.w, "{\"label\":\"resp%d\",\"ev\":[%s]}\n", r.h, r.b.String())
	r.h++
	r.n = 0
	r.b.Reset()
}

func values(b *strings.Builder, vs []Value) {
	b.WriteString(`,"res":[`)
	for i, v := range vs {
		if i > 0 {
			b.WriteByte(',')
		}
		v.json(b)
	}
	b.WriteString("]}")
}

func (r *rec) read(kind, in string, c *chunks) []Value {
	var res []Value
	ok := limited(in, func() {
		reader := protocol.NewRESPReader(bufio.NewReader(c))
		for {
			o, err := reader.ReadObject()
			if err != nil {
				return
			}
			if o == nil {
				violationf("a nil object without an error from %q", clip(in))
				return
			}
			res = append(res, valueOf(o))
			if len(res) > len(in) {
				violationf("more values than bytes from %q", clip(in))
				return
			}
		}
	})
	if !ok {
		return nil
	}
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"` + kind + `","in":`)
		jstr(b, in)
		values(b, res)
	})
	return res
}

func (r *rec) parse(in string) {
	var res []Value
	if !limited(in, func() {
		if o, err := protocol.Parse(strings.NewReader(in)); err == nil {
			res = append(res, valueOf(o))
		}
	}) {
		return
	}
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"p","in":`)
		jstr(b, in)
		values(b, res)
	})
}

// blocking reads n values from a stream that has no end
func (r *rec) blocking(in string, n int, size func() int) {
	c := &chunks{data: []byte(in), size: size, block: make(chan struct{}), waiting: make(chan struct{})}
	reader := protocol.NewRESPReader(bufio.NewReader(c))
	var res []Value
	for i := 0; i < n; i++ {
		if !limited(in+" (and no end)", func() {
			if o, err := reader.ReadObject(); err == nil {
				res = append(res, valueOf(o))
			} else {
				violationf("an error instead of value %d of %q: %s", i+1, clip(in), err)
			}
		}) {
			return
		}
	}
	close(c.block)
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"b","in":`)
		jstr(b, in)
		values(b, res)
	})
}

func (r *rec) write(v Value) string {
	o := v.object()
	out := string(o.Byte())
	r.event(func(b *strings.Builder) {
		b.WriteString(`{"k":"w","v":`)
		v.json(b)
		b.WriteString(`,"out":`)
		jstr(b, out)
		b.WriteString(`,"out2":`)
		jstr(b, o.String())
		b.WriteString("}")
	})
	if !bytes.Equal(o.Byte(), []byte(out)) {
		violationf("Byte() changed")
	}
	return out
}

// deep reads m arrays in one another, and tells if that was possible
func (r *rec) deep(m int, inner string) bool {
	in := strings.Repeat("*1\r\n", m) + inner
	ok := false
	if !limited(fmt.Sprintf("%d arrays in one another", m), func() {
		o, err := protocol.NewRESPReader(bufio.NewReader(strings.NewReader(in))).ReadObject()
		ok = err == nil
		if ok && o.String() != in {
			violationf("%d arrays in one another are read wrong", m)
		}
	}) {
		return true
	}
	r.event(func(b *strings.Builder) { fmt.Fprintf(b, `{"k":"deep","m":%d,"ok":%v}`, m, ok) })
	return ok
}

var lines = []string{"", "a", "OK", "a b", "ERR no such command", "-1", "$3", "é", "\xff\xfe", "\x00", "*", "+", " ", strings.Repeat("x", 300)}
var ints = []string{"0", "1", "-1", "10", "-10", "123456789", "9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649"}
var bulks = []string{"", "a", "\r\n", "\r", "\n", "a\r\nb", "\r\n\r\n", "$-1\r\n", "*1\r\n", "-1", "\x00", "\xff\xfe\xfd", "+OK\r\n", "é", "null", strings.Repeat("\r\n", 50)}

func random(g *rand.Rand, depth int) Value {
	switch k := g.Intn(10); {
	case k == 0:
		return Value{T: "str", V: lines[g.Intn(len(lines))]}
	case k == 1:
		return Value{T: "err", V: lines[g.Intn(len(lines))]}
	case k == 2:
		if g.Intn(2) == 0 {
			return Value{T: "int", V: strconv.FormatInt(int64(g.Uint64())>>uint(g.Intn(64)), 10)}
		}
		return Value{T: "int", V: ints[g.Intn(len(ints))]}
	case k == 3:
		return Value{T: "nil"}
	case k == 4:
		return Value{T: "nilarr"}
	case k <= 6 || depth >= 6:
		if g.Intn(3) == 0 {
			b := make([]byte, g.Intn(40))
			if g.Intn(30) == 0 {
				b = make([]byte, []int{4094, 4095, 4096, 4097, 9000, 65536, 70000}[g.Intn(7)])
			}
			g.Read(b)
			return Value{T: "bulk", V: string(b)}
		}
		return Value{T: "bulk", V: bulks[g.Intn(len(bulks))]}
	default:
		v := Value{T: "arr"}
		n := g.Intn(5)
		if g.Intn(50) == 0 {
			n = 100 + g.Intn(100)
			for i := 0; i < n; i++ {
				v.A = append(v.A, Value{T: "bulk", V: bulks[g.Intn(len(bulks))]})
			}
			return v
		}
		for i := 0; i < n; i++ {
			v.A = append(v.A, random(g, depth+1))
		}
		return v
	}
}

func sizes(g *rand.Rand) func() int {
	switch g.Intn(5) {
	case 0:
		return func() int { return 1 }
	case 1:
		return func() int { return 1 + g.Intn(3) }
	case 2:
		return func() int { return 1 + g.Intn(50) }
	case 3:
		return func() int { return 1 + g.Intn(5000) }
	default:
		return func() int { return 1 << 20 }
	}
}

var splices = []string{"\r", "\n", "\r\n", "$", "*", "-", "+", ":", "$-2\r\n", "*-2\r\n", "$-1\r\n", "1", "99999999999999999999", "$9223372036854775807\r\n",
	"*9223372036854775807\r\n", "$9223372036854775806\r\nab", "$2147483647\r\n", "$a\r\n", "* 1\r\n", "$1 \r\n", "$0x1\r\na\r\n", ":1.5\r\n", ":\r\n", "$\r\n\r\n", "*\r\n", "$+1\r\na\r\n", "*01\r\n:+1\r\n",
	"$1_0\r\n", ":1_0\r\n", ":9223372036854775808\r\n", "inline\r\n", "\x00", "\xff", " ", "$-01\r\n", "*-0\r\n", "$1\r\nab\r\n", "$2\r\na\r\n", "$1\r\na\n\r", "$1\r\na\r\r", "$3\r\nabcde", "(1\r\n", "#t\r\n", "_\r\n"}

func mutate(g *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + g.Intn(2); k > 0; k-- {
		if len(b) == 0 {
			return string(b)
		}
		i := g.Intn(len(b))
		switch g.Intn(5) {
		case 0:
			b[i] = "+-:$*019\r\na\x00\xff"[g.Intn(13)]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte(splices[g.Intn(len(splices))]), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + g.Intn(len(b)-i)
			b = append(b[:j:j], b[i:]...)
		}
	}
	return string(b)
}

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "")
	out := flag.String("out", "", "")
	in := flag.String("in", "", "file with lines STR ...")
	flag.Parse()

	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	r := &rec{w: bufio.NewWriter(f)}
	g := rand.New(rand.NewSource(*seed))

	if *in != "" {
		data, err := os.ReadFile(*in)
		if err != nil {
			panic(err)
		}
		k := 0
		for _, l := range strings.Split(string(data), "\n") {
			l = strings.Trim(l, `"`)
			if !strings.HasPrefix(l, "STR ") {
				continue
			}
			s := strings.NewReplacer("r", "\r", "n", "\n").Replace(l[4:])
			k++
			switch k % 4 {
			case 0:
				r.read("r", s, &chunks{data: []byte(s), size: func() int { return 1 }})
			case 1:
				r.read("r", s, &chunks{data: []byte(s), size: func() int { return 1 + g.Intn(3) }, early: true})
			case 2:
				r.read("r", s, &chunks{data: []byte(s), size: func() int { return 100 }})
			default:
				r.parse(s)
			}
			if len(violations) >= 3 {
				break
			}
		}
		fmt.Printf("STRINGS %d\n", k)
	}

	for _, m := range []int{0, 1, 2, 10, 64, 100, 127, 128, 129, 130, 200, 1000, 10000, 100000, 1000000} {
		// what is accepted takes memory quadratic in m
		if ok := r.deep(m, ":1\r\n"); ok && m >= 1000 {
			break
		}
		r.deep(m, "$-1\r\n")
	}
	for _, s := range splices {
		r.read("r", s, &chunks{data: []byte(s), size: func() int { return 1 }})
		r.parse(s)
		s = "+OK\r\n" + s + "+OK\r\n"
		r.read("r", s, &chunks{data: []byte(s), size: func() int { return 3 }})
		s = "*2\r\n+OK\r\n" + s
		r.read("r", s, &chunks{data: []byte(s), size: func() int { return 100 }, early: true})
	}
	// where buffers end
	whole := func(s string) *chunks { return &chunks{data: []byte(s), size: func() int { return 1 << 20 }} }
	for _, size := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
		for d := -5; d <= 3; d++ {
			x := strings.Repeat("x", size+d)
			s := r.write(Value{T: []string{"str", "err"}[(d+5)%2], V: x}) + ":1\r\n"
			r.read("r", s, whole(s))
			s = "+O\r\n" + s
			r.read("r", s, &chunks{data: []byte(s), size: sizes(g)})
			r.blocking(s, 3, func() int { return 1 << 20 })
		}
	}
	for _, size := range []int{4096, 8192, 16384, 65536} {
		for d := -50; d <= 2; d++ {
			s := r.write(Value{T: "bulk", V: strings.Repeat("y", size+d)}) + ":12\r\n+OK\r\n*2\r\n$2\r\nab\r\n$-1\r\n"
			if size <= 8192 || d%7 == 0 {
				r.read("r", s, whole(s))
			}
		}
	}
	for i := 0; i < *n && len(violations) < 3; i++ {
		var all strings.Builder
		count := 1 + g.Intn(4)
		for k := 0; k < count; k++ {
			all.WriteString(r.write(random(g, 0)))
		}
		s := all.String()
		if len(s) < 60 {
			// every split in two
			for k := 1; k < len(s); k++ {
				first := k
				r.read("r", s, &chunks{data: []byte(s), size: func() int { n := first; first = 1 << 20; return n }, early: k%2 == 0})
			}
			// every cut
			for k := 0; k < len(s); k++ {
				t := s[:k]
				r.read("r", t, &chunks{data: []byte(t), size: sizes(g), early: k%2 == 0})
			}
		} else {
			r.read("r", s, &chunks{data: []byte(s), size: sizes(g), early: g.Intn(2) == 0})
			t := s[:g.Intn(len(s))]
			r.read("r", t, &chunks{data: []byte(t), size: sizes(g), early: g.Intn(2) == 0})
		}
		r.blocking(s, count, sizes(g))
		for k := 0; k < 4 && len(s) < 20000; k++ {
			t := mutate(g, s)
			r.read("r", t, &chunks{data: []byte(t), size: sizes(g), early: g.Intn(2) == 0})
			r.parse(t)
		}
	}
	r.flush()
	_ = r.w.Flush()
	_ = f.Close()
	fmt.Printf("HISTORIES %d\n", r.h)
	for _, v := range violations {
		fmt.Printf("VIOLATION %q\n", v)
	}
}
