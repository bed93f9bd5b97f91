package zzprim

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
)

func init() {
	drivers["chan"] = channels
	scripted["chan"] = channelScript
}

type testChan struct {
	r    *rec
	recv concurrency.Receiver
	send concurrency.Sender
	n    int
}

func newChan(r *rec, size int, exp int) *testChan {
	c := &testChan{r: r}
	if size == 0 && exp == 10 {
		c.recv, c.send = concurrency.NewDataChannel()
	} else {
		c.recv, c.send = concurrency.NewDataChannelWithOption(size, time.Duration(exp)*ms)
	}
	r.cfg = fmt.Sprintf(`"size":%d,"exp":%d,`, size, exp*1000)
	return c
}

func status(n int) string {
	switch n {
	case concurrency.Success:
		return "success"
	case concurrency.Closed:
		return "closed"
	case concurrency.Expired:
		return "expired"
	}
	return strconv.Itoa(n)
}

func (c *testChan) op(op string) {
	if op == "send" {
		c.r.mutex.Lock()
		c.n++
		n := c.n
		c.r.mutex.Unlock()
		e := concurrency.NewEvent("topic", n, nil)
		c.r.do(op, fmt.Sprintf(`,"e":%d`, n), func() string { return status(c.send.Send(e)) })
		return
	}
	c.r.do(op, `,"e":0`, func() string {
		if op == "close" {
			c.recv.Close()
			return "ok"
		}
		e, err := c.recv.Receive()
		if err == concurrency.ErrChannelClosed {
			return "closed"
		} else if err != nil {
			return err.Error()
		}
		return strconv.Itoa(e.Data().(int))
	})
}

func channels(r *rec) {
	c := newChan(r, r.intn(4), []int{10, 10, 0, 1, 2, 5}[r.intn(6)])
	closes := r.intn(3)
	for g := 2 + r.intn(3); g > 0; g-- {
		kind := r.intn(4)
		r.spawn(func() {
			for k := 1 + r.intn(4); k > 0; k-- {
				r.think(3)
				switch {
				case closes > 0 && r.one(8):
					c.op("close")
				case kind == 0 || (kind == 2 && r.one(2)):
					c.op("send")
				case kind == 3 && r.one(2):
					c.op("recv")
				default:
					c.op([]string{"send", "recv"}[kind%2])
				}
			}
			if closes == 2 && r.one(2) {
				c.op("close")
			}
		})
	}
	r.watch(20 * ms)
	r.end("")
	c.recv.Close()
	r.wg.Wait()
}

// channelScript: "size:exp", and then "tick" or calls
func channelScript(r *rec, steps []string) {
	p := strings.Split(steps[0], ":")
	size, _ := strconv.Atoi(p[0])
	exp, _ := strconv.Atoi(p[1])
	c := newChan(r, size, exp)
	for _, s := range steps[1:] {
		s := s
		if s == "tick" {
			time.Sleep(ms)
			r.add(`"k":"tick"`)
			continue
		}
		r.spawn(func() { c.op(s) })
		if r.one(2) {
			time.Sleep(100 * time.Microsecond)
		}
	}
	r.watch(4 * ms)
	r.end("")
	c.recv.Close()
	r.wg.Wait()
}
