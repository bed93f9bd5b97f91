package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

// replyTimeout is far above anything a reply takes on a loaded machine
const replyTimeout = 60 * time.Second

var errMalformed = errors.New("malformed reply")

// Client is a RESP client of its own, strict about what it reads
type Client struct {
	conn net.Conn
	r    *bufio.Reader
}

func newClient(c net.Conn) *Client {
	return &Client{conn: c, r: bufio.NewReaderSize(c, 1<<16)}
}

func dial(port int) (*Client, error) {
	var err error
	for i := 0; i < 50; i++ {
		var c net.Conn
		c, err = net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 10*time.Second)
		if err == nil {
			return newClient(c), nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	return nil, err
}

func mustDial(port int) *Client {
	c, err := dial(port)
	if err != nil {
		violationf("the server on port %d does not accept a client: %s", port, err)
	}
	return c
}

func (c *Client) close() { _ = c.conn.Close() }

func (c *Client) write(s string) error {
	_ = c.conn.SetWriteDeadline(time.Now().Add(replyTimeout))
	_, err := c.conn.Write([]byte(s))
	return err
}

func (c *Client) line() (string, error) {
	l, err := c.r.ReadString('\n')
	if err != nil {
		return l, err
	}
	if len(l) < 2 || l[len(l)-2] != '\r' {
		return "", fmt.Errorf("%w: line %q", errMalformed, l)
	}
	return l[:len(l)-2], nil
}

func canonical(s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, fmt.Errorf("%w: number %q", errMalformed, s)
	}
	return n, nil
}

func (c *Client) value(depth int) (Reply, error) {
	l, err := c.line()
	if err != nil {
		return noReply, err
	}
	if l == "" {
		return noReply, fmt.Errorf("%w: empty line", errMalformed)
	}
	switch l[0] {
	case '+':
		return Reply{T: "str", V: l[1:]}, nil
	case '-':
		return Reply{T: "err", V: l[1:]}, nil
	case ':':
		if _, err := canonical(l[1:]); err != nil {
			return noReply, err
		}
		return Reply{T: "int", V: l[1:]}, nil
	case '$':
		n, err := canonical(l[1:])
		if err != nil {
			return noReply, err
		}
		if n == -1 {
			return Reply{T: "nil"}, nil
		}
		if n < 0 || n > 1<<28 {
			return noReply, fmt.Errorf("%w: length %q", errMalformed, l)
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(c.r, buf); err != nil {
			return noReply, err
		}
		if string(buf[n:]) != "\r\n" {
			return noReply, fmt.Errorf("%w: bulk string without terminator", errMalformed)
		}
		return Reply{T: "bulk", V: contract(string(buf[:n]))}, nil
	case '*':
		n, err := canonical(l[1:])
		if err != nil {
			return noReply, err
		}
		if n == -1 {
			return Reply{T: "nilarr"}, nil
		}
		if n < 0 || n > 1<<24 {
			return noReply, fmt.Errorf("%w: length %q", errMalformed, l)
		}
		r := Reply{T: "arr"}
		for i := int64(0); i < n; i++ {
			e, err := c.value(depth + 1)
			if err != nil {
				return noReply, err
			}
			switch e.T {
			case "bulk":
				r.A = append(r.A, "$"+e.V)
			case "nil":
				r.A = append(r.A, "~")
			case "int":
				r.A = append(r.A, ":"+e.V)
			default:
				r.A = append(r.A, "?"+e.T)
			}
		}
		return r, nil
	}
	return noReply, fmt.Errorf("%w: type of %q", errMalformed, clip(l))
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// read reads one reply
func (c *Client) read() (Reply, error) {
	_ = c.conn.SetReadDeadline(time.Now().Add(replyTimeout))
	return c.value(0)
}

func (c *Client) do(q Req) (Reply, error) {
	if err := c.write(q.encode()); err != nil {
		return noReply, err
	}
	return c.read()
}

// mustDo is do, and a missing or malformed reply is a violation
func (c *Client) mustDo(q Req) Reply {
	r, err := c.do(q)
	if err != nil {
		violationf("no well-formed reply to %s: %s", show(q), err)
	}
	return r
}

func show(q Req) string {
	if q.Raw != "" {
		return fmt.Sprintf("%q", clip(q.Raw))
	}
	var a []string
	for i, s := range q.Q {
		if q.has(i) {
			a = append(a, fmt.Sprintf("<no string %d>", i+1))
		} else {
			a = append(a, fmt.Sprintf("%q", clip(s)))
		}
	}
	return strings.Join(a, " ")
}
