package zzprim

import (
	"fmt"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
)

func init() {
	drivers["cast"] = broadcasts
	scripted["cast"] = castScript
}

func broadcasts(r *rec) {
	b := concurrency.NewBroadCaster()
	var msg interface{}
	switch r.intn(4) {
	case 0:
		msg = nil
	case 1:
		msg = &payload{1}
	case 2:
		msg = ""
	default:
		msg = r.intn(10)
	}
	get := func() {
		r.do("get", "", func() string {
			if m := b.Get(); m != msg {
				return fmt.Sprintf("other: %v", m)
			}
			return "message"
		})
	}
	set := r.intn(5) > 0
	if set {
		r.spawn(func() {
			r.think(4)
			r.do("set", "", func() string { b.Set(msg); return "ok" })
			if r.one(2) {
				get()
			}
		})
	}
	for g := 1 + r.intn(6); g > 0; g-- {
		r.spawn(func() {
			for k := 1 + r.intn(3); k > 0; k-- {
				r.think(4)
				get()
			}
		})
	}
	r.watch(14 * ms)
	r.end("")
	if !set {
		b.Set(msg)
	}
	r.wg.Wait()
}

// castScript: "get", "set", "tick"
func castScript(r *rec, steps []string) {
	b := concurrency.NewBroadCaster()
	msg := &payload{1}
	set := false
	for _, s := range steps {
		switch s {
		case "tick":
			time.Sleep(ms)
			r.add(`"k":"tick"`)
		case "set":
			set = true
			r.spawn(func() { r.do("set", "", func() string { b.Set(msg); return "ok" }) })
		default:
			r.spawn(func() {
				r.do("get", "", func() string {
					if m := b.Get(); m != msg {
						return fmt.Sprintf("other: %v", m)
					}
					return "message"
				})
			})
		}
		if r.one(2) {
			time.Sleep(100 * time.Microsecond)
		}
	}
	r.watch(4 * ms)
	r.end("")
	if !set {
		b.Set(msg)
	}
	r.wg.Wait()
}
