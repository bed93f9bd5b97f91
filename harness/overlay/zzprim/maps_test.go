package zzprim

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/pkg/types"
)

func init() {
	drivers["map"] = maps
	scripted["map"] = mapScript
}

var kinds = []string{"locked", "sync", "simple"}

func newMap(kind string) types.DataMap {
	switch kind {
	case "locked":
		return types.NewLockedDataMap()
	case "sync":
		return types.NewSyncDataMap()
	}
	return types.NewSimpleDataMap()
}

var mapKeys = []string{"a", "b", "", "a b", "\xff\x00"}

type testMap struct {
	r *rec
	m types.DataMap
	v []interface{}
}

func (m *testMap) op(op string, key string, n int) {
	var v interface{}
	if n%4 > 0 {
		v = &payload{n}
	} else {
		n = 0 // nil
	}
	if op == "set" {
		m.r.mutex.Lock()
		m.v = append(m.v, v)
		m.r.mutex.Unlock()
	}
	m.r.do(op, fmt.Sprintf(`,"key":%s,"v":%d`, jstr(key), n), func() string {
		switch op {
		case "set":
			m.m.Set(key, v)
			return "ok"
		case "remove":
			m.m.Remove(key)
			return "ok"
		case "has":
			return strconv.FormatBool(m.m.Has(key))
		case "len":
			return strconv.Itoa(m.m.Len())
		}
		x, ok := m.m.Get(key)
		if !ok {
			if x != nil {
				return "nothing, but a value"
			}
			return "none"
		}
		if x == nil {
			return "0"
		}
		return strconv.Itoa(x.(*payload).n)
	})
}

func maps(r *rec) {
	kind := kinds[r.intn(3)]
	threads, steps := 2+r.intn(3), 12
	if kind == "simple" || r.one(5) {
		threads, steps = 1, 60
	}
	m := &testMap{r: r, m: newMap(kind)}
	nkeys := 1 + r.intn(3)
	if threads == 1 {
		nkeys = 5
	}
	r.cfg = fmt.Sprintf(`"kind":"%s",`, kind)
	for g := 0; g < threads; g++ {
		r.spawn(func() {
			for k := 3 + r.intn(steps); k > 0; k-- {
				if threads > 1 && r.one(8) {
					r.think(1)
				}
				op := []string{"set", "set", "set", "remove", "remove", "get", "get", "has", "len"}[r.intn(9)]
				m.op(op, mapKeys[r.intn(nkeys)], r.intn(1000))
			}
		})
	}
	r.wg.Wait()
	m.op("len", "", 0)
	for _, k := range mapKeys[:nkeys] {
		m.op("get", k, 0)
	}
	r.end("")
}

// mapScript: calls such as "set:a:1", one after the other or concurrent
func mapScript(r *rec, steps []string) {
	kind := kinds[r.intn(3)]
	m := &testMap{r: r, m: newMap(kind)}
	r.cfg = fmt.Sprintf(`"kind":"%s",`, kind)
	for _, s := range steps {
		p := strings.Split(s, ":")
		n, _ := strconv.Atoi(p[2])
		if kind == "simple" {
			m.op(p[0], p[1], n)
			continue
		}
		r.spawn(func() { m.op(p[0], p[1], n) })
		if r.one(3) {
			r.wg.Wait()
		}
	}
	r.wg.Wait()
	m.op("len", "", 0)
	m.op("get", "a", 0)
	m.op("get", "b", 0)
	r.end("")
}
