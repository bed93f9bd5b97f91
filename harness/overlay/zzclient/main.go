// Package main gives lines and replies to the console client, its functions and the whole program, and
// records what they make of them, for ClientTrace.
package main

import (
	"bufio"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/lxdlam/vertex/cmd/client/internal"
	"github.com/lxdlam/vertex/pkg/protocol"
)

func jstr(b *strings.Builder, s string) {
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(b, `\u00%02x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
}

// Value is a value as the specification sees it
type Value struct {
	T, V string
	A    []Value
}

func (v Value) json(b *strings.Builder) {
	b.WriteString(`{"t":"` + v.T + `","v":`)
	jstr(b, v.V)
	b.WriteString(`,"a":[`)
	for i, e := range v.A {
		if i > 0 {
			b.WriteByte(',')
		}
		e.json(b)
	}
	b.WriteString("]}")
}

func (v Value) object() protocol.RedisObject {
	switch v.T {
	case "str":
		return protocol.NewSimpleRedisString(v.V)
	case "err":
		return protocol.NewRedisError(v.V)
	case "int":
		n, err := strconv.ParseInt(v.V, 10, 64)
		if err != nil {
			panic(err)
		}
		return protocol.NewRedisInteger(n)
	case "bulk":
		return protocol.NewBulkRedisString(v.V)
	case "nil":
		return protocol.NewNullBulkRedisString()
	case "nilarr":
		return protocol.NewNullRedisArray()
	default:
		var a []protocol.RedisObject
		for _, e := range v.A {
			a = append(a, e.object())
		}
		return protocol.NewRedisArray(a)
	}
}

var lines = []string{"", "a", "OK", "a b", "ERR no such command", "-1", "$3", "é", "\xff\xfe", "\x00", "*", "+", " ", strings.Repeat("x", 300)}
var ints = []string{"0", "1", "-1", "10", "-10", "123456789", "9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649"}
var bulks = []string{"", "a", "\r\n", "\r", "\n", "a\r\nb", "\r\n\r\n", "$-1\r\n", "*1\r\n", "-1", "\x00", "\xff\xfe\xfd", "+OK\r\n", "é", "null", strings.Repeat("\r\n", 50)}

func random(g *rand.Rand, depth int) Value {
	switch k := g.Intn(10); {
	case k == 0:
		return Value{T: "str", V: lines[g.Intn(len(lines))]}
	case k == 1:
		return Value{T: "err", V: lines[g.Intn(len(lines))]}
	case k == 2:
		if g.Intn(2) == 0 {
			return Value{T: "int", V: strconv.FormatInt(int64(g.Uint64())>>uint(g.Intn(64)), 10)}
		}
		return Value{T: "int", V: ints[g.Intn(len(ints))]}
	case k == 3:
		return Value{T: "nil"}
	case k == 4:
		return Value{T: "nilarr"}
	case k <= 6 || depth >= 6:
		if g.Intn(3) == 0 {
			b := make([]byte, g.Intn(40))
			if g.Intn(30) == 0 {
				b = make([]byte, []int{4094, 4095, 4096, 4097, 9000, 65536, 70000}[g.Intn(7)])
			}
			g.Read(b)
			return Value{T: "bulk", V: string(b)}
		}
		return Value{T: "bulk", V: bulks[g.Intn(len(bulks))]}
	default:
		v := Value{T: "arr"}
		n := g.Intn(5)
		if g.Intn(50) == 0 {
			n = 100 + g.Intn(100)
			for i := 0; i < n; i++ {
				v.A = append(v.A, Value{T: "bulk", V: bulks[g.Intn(len(bulks))]})
			}
			return v
		}
		for i := 0; i < n; i++ {
			v.A = append(v.A, random(g, depth+1))
		}
		return v
	}
}

var violations []string

func violationf(format string, a ...interface{}) {
	if len(violations) < 5 {
		violations = append(violations, fmt.Sprintf(format, a...))
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// history is a list of events
type history struct {
	mutex sync.Mutex
	b     strings.Builder
	n     int
}

func (h *history) event(kind string, fn func(b *strings.Builder)) {
	h.mutex.Lock()
	defer h.mutex.Unlock()
	if h.n > 0 {
		h.b.WriteByte(',')
	}
	h.n++
	h.b.WriteString(`{"k":"` + kind + `"`)
	fn(&h.b)
	h.b.WriteByte('}')
}

func (h *history) text(kind, field, s string) {
	h.event(kind, func(b *strings.Builder) {
		b.WriteString(`,"` + field + `":`)
		jstr(b, s)
	})
}

func (h *history) value(kind string, v Value) {
	h.event(kind, func(b *strings.Builder) {
		b.WriteString(`,"v":`)
		v.json(b)
	})
}

var (
	out   *bufio.Writer
	count int
)

func (h *history) flush(label string) {
	if h.n == 0 {
		return
	}
	fmt.Fprintf(out, "{\"label\":\"%s%d\",\"ev\":[%s]}\n", label, count, h.b.String())
	count++
	h.b.Reset()
	h.n = 0
}

func safely(what string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			violationf("the client panics on %q: %v", clip(what), e)
		}
	}()
	fn()
}

func format(h *history, line string) {
	safely(line, func() {
		req, err := internal.FormatInput(line)
		h.event("in", func(b *strings.Builder) {
			b.WriteString(`,"line":`)
			jstr(b, line)
			fmt.Fprintf(b, `,"ok":%v,"out":`, err == nil)
			jstr(b, req)
		})
	})
	if h.n >= 300 {
		h.flush("lines")
	}
}

func show(h *history, v Value) {
	safely(v.T, func() {
		s := internal.FormatOutput(v.object())
		h.event("show", func(b *strings.Builder) {
			b.WriteString(`,"v":`)
			v.json(b)
			b.WriteString(`,"out":`)
			jstr(b, s)
		})
		// a value that came over the wire looks the same
		if o, err := protocol.Parse(strings.NewReader(v.object().String())); err != nil || internal.FormatOutput(o) != s {
			violationf("%q looks different once it is read", clip(v.object().String()))
		}
	})
	if h.n >= 200 {
		h.flush("values")
	}
}

var pieces = []string{"a", "GET", "key", "é", "\xff", "\t", "\\", "'", "$-1", "*", "-1", "1", "\x00", "\r", "{}", "a=b", ",", ";", "%s", "\\n", "\\x"}

func word(g *rand.Rand, quoted bool) string {
	var b strings.Builder
	for k := g.Intn(4); k >= 0; k-- {
		b.WriteString(pieces[g.Intn(len(pieces))])
		if quoted && g.Intn(2) == 0 {
			b.WriteString("  "[:1+g.Intn(2)])
		}
	}
	return b.String()
}

// proper makes a line of words and complete quoted words
func proper(g *rand.Rand) string {
	var b strings.Builder
	for k := g.Intn(3); k > 0; k-- {
		b.WriteByte(' ')
	}
	for k := g.Intn(7); k > 0; k-- {
		switch g.Intn(6) {
		case 0:
			b.WriteString(`""`)
		case 1, 2:
			b.WriteString(`"` + word(g, true) + `"`)
		case 3:
			b.WriteString(`"` + "    "[:g.Intn(4)] + `"`)
		default:
			b.WriteString(word(g, false))
		}
		if k > 1 {
			b.WriteString("   "[:1+g.Intn(3)])
		}
	}
	for k := g.Intn(3); k > 0; k-- {
		b.WriteByte(' ')
	}
	return b.String()
}

func anything(g *rand.Rand) string {
	s := []byte(proper(g))
	for k := g.Intn(4); k > 0 && len(s) > 0; k-- {
		i := g.Intn(len(s))
		switch g.Intn(3) {
		case 0:
			s[i] = "\" ax"[g.Intn(4)]
		case 1:
			s = append(s[:i:i], s[i+1:]...)
		default:
			s = append(s[:i:i], append([]byte{"\" ax"[g.Intn(4)]}, s[i:]...)...)
		}
	}
	return string(s)
}

const patience = 20 * time.Second

// readRequest reads an array of bulk strings, and gives every piece to seen
func readRequest(c net.Conn, seen func(string)) error {
	var buf []byte
	chunk := make([]byte, 1<<16)
	for {
		if complete(buf) {
			return nil
		}
		_ = c.SetReadDeadline(time.Now().Add(patience))
		n, err := c.Read(chunk)
		if n > 0 {
			seen(string(chunk[:n]))
			buf = append(buf, chunk[:n]...)
		}
		if err != nil {
			return err
		}
	}
}

// complete tells if buf has a whole request; what is no request at all is complete, too
func complete(buf []byte) bool {
	s := string(buf)
	number := func() (int, int) {
		e := strings.Index(s, "\r\n")
		if e < 0 {
			return 0, 0
		}
		n, err := strconv.Atoi(s[1:e])
		s = s[e+2:]
		if err != nil || n < 0 {
			return 0, 2
		}
		return n, 1
	}
	if s == "" {
		return false
	}
	n, st := number()
	for ; st == 1 && n > 0; n-- {
		var size int
		if s == "" {
			return false
		}
		if size, st = number(); st != 1 {
			break
		}
		if len(s) < size+2 {
			return false
		}
		s = s[size+2:]
	}
	return st != 0
}

func session(g *rand.Rand, listener *net.TCPListener, bin string, i int) {
	h := &history{}
	defer h.flush("session")
	cmd := exec.Command(bin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	stdin, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	var readers sync.WaitGroup
	readers.Add(1)
	printed := make(chan struct{}, 1)
	go func() {
		defer readers.Done()
		chunk := make([]byte, 1<<16)
		for {
			n, err := stdout.Read(chunk)
			if n > 0 {
				h.text("printed", "out", string(chunk[:n]))
				select {
				case printed <- struct{}{}:
				default:
				}
			}
			if err != nil {
				return
			}
		}
	}()
	fail := func(format string, a ...interface{}) {
		violationf("session %d: %s", i, fmt.Sprintf(format, a...))
		_ = cmd.Process.Kill()
	}
	_ = listener.SetDeadline(time.Now().Add(patience))
	c, err := listener.Accept()
	if err != nil {
		fail("the client does not connect: %s", err)
		readers.Wait()
		_ = cmd.Wait()
		return
	}
	defer c.Close()

	n := g.Intn(6)
	var typed []string
	for k := 0; k < n; k++ {
		line := strings.ReplaceAll(proper(g), "\x00", "z")
		if g.Intn(15) == 0 {
			line += "\r"
		}
		if g.Intn(40) == 0 {
			line = "SET long " + strings.Repeat("x", []int{4095, 65535, 65536, 100000}[g.Intn(4)])
		}
		if g.Intn(12) == 0 {
			line = []string{"quit", "QUIT", "Quit", "quit ", "quit\r"}[g.Intn(5)]
		}
		typed = append(typed, line)
	}
	end := g.Intn(3)
	go func() {
		ask := func(lines []string, eof bool, data string) {
			h.event("type", func(b *strings.Builder) {
				b.WriteString(`,"lines":[`)
				for k, l := range lines {
					if k > 0 {
						b.WriteByte(',')
					}
					jstr(b, l)
				}
				fmt.Fprintf(b, `],"eof":%v`, eof)
			})
			_, _ = io.WriteString(stdin, data)
			if eof {
				_ = stdin.Close()
			}
		}
		if g.Intn(2) == 0 {
			// all at once; the last line may have no end
			all := strings.Join(typed, "\n")
			if len(typed) > 0 && (end == 0 || typed[len(typed)-1] == "") {
				all += "\n"
			}
			ask(typed, true, all)
			return
		}
		for _, l := range typed {
			ask([]string{l}, false, l+"\n")
			for k := g.Intn(4); k > 0; k-- {
				select {
				case <-printed:
				case <-time.After(time.Millisecond):
				}
			}
		}
		ask(nil, true, "")
	}()

	reply := rand.New(rand.NewSource(int64(i)))
	arrived := func(s string) { h.text("arrived", "out", s) }
	for {
		err := readRequest(c, arrived)
		if errors.Is(err, io.EOF) || errors.Is(err, syscall.ECONNRESET) {
			break
		}
		if err != nil {
			fail("no complete request: %s", err)
			break
		}
		if reply.Intn(20) == 0 {
			h.event("break", func(b *strings.Builder) {})
			switch reply.Intn(4) {
			case 0:
			case 1:
				_, _ = io.WriteString(c, "what?\r\n")
			case 2:
				_, _ = io.WriteString(c, "*2\r\n$1\r\na\r\n")
			default:
				_ = c.(*net.TCPConn).SetLinger(0)
			}
			_ = c.Close()
			break
		}
		v := random(reply, 0)
		data := v.object().String()
		if len(data) > 5000 {
			v = Value{T: "bulk", V: strings.Repeat("y", 70000)}
			data = v.object().String()
		}
		h.value("reply", v)
		cut := reply.Intn(4)
		for len(data) > 0 {
			k := len(data)
			if cut == 0 && len(data) < 200 {
				k = 1
			} else if cut == 1 {
				k = 1 + reply.Intn(len(data))
			}
			if _, err := io.WriteString(c, data[:k]); err != nil {
				break
			}
			data = data[k:]
			if cut < 2 && reply.Intn(3) == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}
	timer := time.AfterFunc(patience, func() {
		fail("the client does not end")
	})
	readers.Wait()
	err = cmd.Wait()
	if !timer.Stop() {
		return
	}
	code := 0
	var exit *exec.ExitError
	if errors.As(err, &exit) {
		code = exit.ExitCode()
	}
	h.event("exit", func(b *strings.Builder) { fmt.Fprintf(b, `,"n":%d`, code) })
}

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "")
	sessions := flag.Int("sessions", 10, "")
	name := flag.String("out", "", "")
	in := flag.String("in", "", "file with lines STR ...")
	bin := flag.String("bin", "", "the client")
	flag.Parse()

	f, err := os.Create(*name)
	if err != nil {
		panic(err)
	}
	out = bufio.NewWriter(f)
	g := rand.New(rand.NewSource(*seed))
	h := &history{}

	if *in != "" {
		data, err := os.ReadFile(*in)
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Split(string(data), "\n") {
			l = strings.Trim(l, `"`)
			if strings.HasPrefix(l, "STR ") {
				format(h, strings.NewReplacer("s", " ", "q", `"`).Replace(l[4:]))
			}
		}
	}
	for i := 0; i < *n && len(violations) < 3; i++ {
		format(h, proper(g))
		format(h, anything(g))
	}
	h.flush("lines")
	for _, s := range append(append([]string{}, lines...), bulks...) {
		show(h, Value{T: "bulk", V: s})
		if !strings.ContainsAny(s, "\r\n") {
			show(h, Value{T: "str", V: s})
			show(h, Value{T: "err", V: s})
		}
	}
	for _, s := range ints {
		show(h, Value{T: "int", V: s})
	}
	for i := 0; i < *n && len(violations) < 3; i++ {
		show(h, random(g, 0))
	}
	h.flush("values")

	addr, _ := net.ResolveTCPAddr("tcp", "127.0.0.1:6789")
	if l, err := net.ListenTCP("tcp", addr); err != nil {
		fmt.Println("the port of the server is taken:", err)
	} else {
		for i := 0; i < *sessions && len(violations) < 3; i++ {
			session(rand.New(rand.NewSource(*seed*1000003+int64(i))), l, *bin, i)
		}
		_ = l.Close()
	}
	_ = out.Flush()
	_ = f.Close()
	fmt.Printf("HISTORIES %d\n", count)
	for _, v := range violations {
		fmt.Printf("VIOLATION %q\n", v)
	}
}
