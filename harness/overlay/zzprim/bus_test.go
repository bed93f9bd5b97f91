package zzprim

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
)

func init() {
	drivers["bus"] = buses
	scripted["bus"] = busScript
}

var busRuns int

type testBus struct {
	r      *rec
	bus    concurrency.EventBus
	prefix string
	mutex  sync.Mutex
	recvs  map[int]concurrency.Receiver
	rids   int
	uids   map[string]int
	all    []concurrency.Receiver
	pubs   sync.WaitGroup
}

func newBus(r *rec) *testBus {
	busRuns++
	return &testBus{r: r, bus: concurrency.GetEventBus(), prefix: fmt.Sprintf("run%d-", busRuns),
		recvs: map[int]concurrency.Receiver{}, uids: map[string]int{}}
}

func (b *testBus) topic(name string) string { return b.prefix + name }

func (b *testBus) simple(op, topic string) {
	b.r.do(op, `,"topic":`+jstr(topic), func() string {
		switch op {
		case "new":
			return strconv.FormatBool(b.bus.NewTopic(b.topic(topic)))
		case "remove":
			return strconv.FormatBool(b.bus.RemoveTopic(b.topic(topic)))
		}
		return strconv.FormatBool(b.bus.ExistTopic(b.topic(topic)))
	})
}

// subscribe gives the receiver the number rid
func (b *testBus) subscribe(topic, name string, size, exp int) int {
	b.mutex.Lock()
	b.rids++
	rid := b.rids
	b.mutex.Unlock()
	b.r.do("subscribe", fmt.Sprintf(`,"topic":%s,"name":%s,"rid":%d,"size":%d,"exp":%d`, jstr(topic), jstr(name), rid, size, exp*1000), func() string {
		var recv concurrency.Receiver
		var err error
		if size == 0 && exp == 10 {
			recv, err = b.bus.Subscribe(b.topic(topic), name)
		} else {
			recv, err = b.bus.SubscribeWithOptions(b.topic(topic), name, size, time.Duration(exp)*ms)
		}
		if err == concurrency.ErrNoSuchTopic {
			rid = 0
			return "nosuch"
		} else if err != nil {
			return err.Error()
		}
		b.mutex.Lock()
		b.recvs[rid] = recv
		b.all = append(b.all, recv)
		b.mutex.Unlock()
		return "ok"
	})
	return rid
}

var errPublished = errors.New("published error")

func showData(d interface{}) string {
	if d == nil {
		return "nil"
	}
	return fmt.Sprint(d)
}

func showErr(e error) string {
	switch e {
	case nil:
		return "nil"
	case errPublished:
		return "e"
	case concurrency.ErrTopicRemoved:
		return "removed"
	}
	return e.Error()
}

// publish publishes, and waits in the background for the number of deliveries
func (b *testBus) publish(topic string) {
	n := b.r.intn(1000)
	var data interface{} = fmt.Sprint("d", n)
	if n%5 == 0 {
		data = nil
	}
	var err error
	if n%3 == 0 {
		err = errPublished
	}
	source := "anonymous"
	if n%2 == 0 {
		// also a name that subscribers have, none at all, and the name of the topic
		source = []string{fmt.Sprint("s", n), "p", "q", "", b.topic(topic)}[n/10%5]
	}
	id := b.r.call("publish", fmt.Sprintf(`,"topic":%s,"data":%s,"err":%s,"source":%s`, jstr(topic), jstr(showData(data)), jstr(showErr(err)), jstr(source)))
	var fut concurrency.Future
	if n%2 == 0 {
		fut = b.bus.PublishWithSource(b.topic(topic), source, data, err)
	} else {
		fut = b.bus.Publish(b.topic(topic), data, err)
	}
	b.r.ret(id, "ok")
	done := make(chan struct{})
	b.r.spawn(func() {
		defer close(done)
		v, err := fut.Get()
		if v == nil {
			v = -1
		}
		c, ok := v.(int)
		text := showErr(err)
		if err == concurrency.ErrNoSuchTopic {
			text = "nosuch"
		} else if !ok {
			text = fmt.Sprintf("not a number: %v", v)
		}
		b.r.add(fmt.Sprintf(`"k":"count","id":%d,"n":%d,"r":%s`, id, c, jstr(text)))
	})
	if n%4 > 0 {
		<-done
	}
}

func (b *testBus) receive(rid int) bool {
	b.mutex.Lock()
	recv := b.recvs[rid]
	b.mutex.Unlock()
	if recv == nil {
		return false
	}
	id := b.r.call("recv", fmt.Sprintf(`,"rid":%d`, rid))
	e, err := recv.Receive()
	if err != nil {
		text := err.Error()
		if err == concurrency.ErrChannelClosed {
			text = "closed"
		}
		b.r.ret(id, text)
		return false
	}
	text := fmt.Sprintf(`"e":[%s,%s,%s,%s]`,
		jstr(strings.TrimPrefix(e.Topic(), b.prefix)), jstr(showData(e.Data())), jstr(showErr(e.Error())), jstr(e.Source()))
	name := e.ID()
	b.mutex.Lock()
	uid, ok := b.uids[name]
	if !ok {
		uid = len(b.uids) + 1
		b.uids[name] = uid
	}
	b.mutex.Unlock()
	b.r.add(fmt.Sprintf(`"k":"ret","id":%d,"r":"event","uid":%d,%s`, id, uid, text))
	return e.Error() != concurrency.ErrTopicRemoved
}

func (b *testBus) close(rid int) {
	b.mutex.Lock()
	recv := b.recvs[rid]
	b.mutex.Unlock()
	if recv == nil {
		return
	}
	b.r.do("close", fmt.Sprintf(`,"rid":%d`, rid), func() string { recv.Close(); return "ok" })
}

func (b *testBus) finish(topics []string) {
	b.r.end("")
	b.mutex.Lock()
	all := append([]concurrency.Receiver(nil), b.all...)
	b.mutex.Unlock()
	for _, r := range all {
		r.Close()
	}
	for _, t := range topics {
		b.bus.RemoveTopic(b.topic(t))
	}
	b.r.wg.Wait()
	for _, r := range b.all {
		r.Close()
	}
}

func buses(r *rec) {
	b := newBus(r)
	topics := []string{"x", "y"}[:1+r.intn(2)]
	topic := func() string { return topics[r.intn(len(topics))] }
	if r.intn(6) > 0 {
		for _, t := range topics {
			b.simple("new", t)
		}
	}
	subscriber := func(name string) {
		r.spawn(func() {
			for k := 1 + r.intn(2); k > 0; k-- {
				r.think(2)
				rid := b.subscribe(topic(), name, r.intn(3), []int{10, 10, 3, 5}[r.intn(4)])
				if rid == 0 {
					continue
				}
				switch r.intn(8) {
				case 0: // never receives
				case 1: // closes early
					r.think(2)
					b.close(rid)
				case 2, 3: // a few, not fast
					for k := r.intn(3); k > 0; k-- {
						r.think(5)
						b.receive(rid)
					}
					b.close(rid)
				default:
					if r.one(3) {
						// in the background, and perhaps closed while it waits
						r.spawn(func() {
							for b.receive(rid) {
							}
						})
						if r.one(2) {
							r.think(6)
							b.close(rid)
						}
					} else {
						for b.receive(rid) {
						}
					}
				}
			}
		})
	}
	names := []string{"p", "q", []string{"r", "anonymous", ""}[r.intn(3)]}[:1+r.intn(3)]
	for _, n := range names {
		subscriber(n)
	}
	if r.one(4) {
		subscriber(names[0])
	}
	if r.one(2) {
		time.Sleep(ms / 4)
	}
	for g := 1 + r.intn(2); g > 0; g-- {
		r.spawn(func() {
			for k := 1 + r.intn(3); k > 0; k-- {
				r.think(3)
				b.publish(topic())
				if r.one(6) {
					b.simple("exist", topic())
				}
			}
		})
	}
	if r.one(2) {
		r.spawn(func() {
			for k := 1 + r.intn(3); k > 0; k-- {
				r.think(6)
				b.simple([]string{"remove", "remove", "new", "exist"}[r.intn(4)], topic())
			}
		})
	}
	r.watch(45 * ms)
	b.finish(topics)
}

// busScript: "tick", "new:x", "remove:x", "exist:x", "publish:x", "subscribe:x:name:size:exp", "recv:rid", "close:rid"
func busScript(r *rec, steps []string) {
	b := newBus(r)
	for _, s := range steps {
		p := strings.Split(s, ":")
		num := func(i int) int { n, _ := strconv.Atoi(p[i]); return n }
		switch p[0] {
		case "tick":
			time.Sleep(ms)
			r.add(`"k":"tick"`)
		case "publish":
			r.spawn(func() { b.publish(p[1]) })
		case "subscribe":
			b.subscribe(p[1], p[2], num(3), num(4))
		case "recv":
			r.spawn(func() { b.receive(num(1)) })
		case "close":
			r.spawn(func() { b.close(num(1)) })
		default:
			r.spawn(func() { b.simple(p[0], p[1]) })
		}
		if !r.one(3) {
			time.Sleep(100 * time.Microsecond)
		}
	}
	r.watch(4 * ms)
	b.finish([]string{"x", "y"})
}
