package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Two different strings with the same FNV-1a 64 hash, by which the containers compare values
const (
	collideA = "8yn0iYCKYHlIj4-BwPqk"
	collideB = "GReLUrM4wMqfg9yzV3KQ"
)

func allBytes() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}

var specialKeys = []string{"", "k", "K", "a b", "global", "dummy string", "\x00", "\xff\xfe\x00k", "k\r\n", "anonymous",
	"*1", "$-1", strings.Repeat("longkey", 40), "1", "-1", "get", collideA, collideB, "\"q\"", "head", "tail", "нет"}

var specialValues = []string{"", "a", "b", "ab", " ", "0", "1", "-1", "10", "007", "+5", "-0", "dummy string", "\r\n", "a\r\nb",
	"\n", "\r", "\x00", "\xff\xfe", "$-1\r\n", "*-1\r\n", "OK", "+OK", "-ERR", ":1", "nil", "A", "1.5", "1e3", "0x10", "1_000",
	collideA, collideB, "TTL expired", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "aa", "aab",
	"abc", "\"", "\xc3\x28", "é"}

var intValues = []string{"0", "1", "-1", "2", "10", "99", "-100", "9223372036854775807", "9223372036854775806",
	"-9223372036854775808", "-9223372036854775807", "4611686018427387904", "-4611686018427387905", "1000000000000",
	"2147483647", "2147483648", "-2147483649", "4294967296", "007", "+5", "-0", "9007199254740993", "999999999999999999",
	"9223372036854775800", "5", "-5", "123456789", "-7", "00000000000000000000012"}

var notInts = []string{"", "a", " 1", "1 ", "1.5", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "--1",
	"+", "-", "1e3", "0x10", "1_0", "\xff", "99999999999999999999999", "1\r\n", "1\x00", "nan", "+-1", "٣"}

var indices = []string{"0", "1", "2", "3", "-1", "-2", "-3", "4", "5", "-4", "-5", "7", "-8", "100", "-100",
	"9223372036854775807", "-9223372036854775808", "2147483647", "-2147483648", "4294967296", "-4294967297", "+1", "01", "-0"}

var randomNames = []string{"nosuch", "", "lsort", "zadd", "del", "getset", "SETX", "ge t", "\r\n", "get\x00", "\xff", "info", "ping", "se", "quit", "hgetal", "config",
	strings.Repeat("x", 300), "lpushx", "\"get\""}

// G generates requests over a few keys and values
type G struct {
	*rand.Rand
	keys, vals, fields []string
	odd                float64 // chance of an odd request: wrong arity, type, number, name
	big                bool    // also long values and requests with many arguments
	noPop              bool
	width              int // values per collection in runs about large collections, 0 in others
	last               Req // of cmd
	plan               []Req
}

func pick(r *rand.Rand, a []string) string { return a[r.Intn(len(a))] }

func newG(r *rand.Rand, nkeys, nvals int) *G {
	g := &G{Rand: r, odd: 0.08}
	seen := map[string]bool{}
	for len(g.keys) < nkeys {
		k := pick(r, specialKeys)
		if r.Intn(3) == 0 {
			k = fmt.Sprintf("k%d", r.Intn(4))
		}
		if !seen[k] {
			seen[k] = true
			g.keys = append(g.keys, k)
		}
	}
	g.vals = g.pool(nvals)
	g.fields = g.pool(nvals)
	return g
}

func (g *G) pool(n int) []string {
	var p []string
	for i := 0; i < n; i++ {
		switch x := g.Intn(20); {
		case x < 11:
			p = append(p, pick(g.Rand, specialValues))
		case x < 14:
			p = append(p, string(rune('a'+g.Intn(4))))
		case x < 16:
			p = append(p, g.bytes(1+g.Intn(12)))
		case x < 17:
			p = append(p, collideA, collideB)
		case x < 18:
			p = append(p, allBytes())
		default:
			p = append(p, strconv.Itoa(g.Intn(20)))
		}
	}
	return p
}

func (g *G) bytes(n int) string {
	b := make([]byte, n)
	g.Read(b)
	return string(b)
}

// widen makes collections of about n elements likely
func (g *G) widen(n int) {
	g.width = n
	seen := map[string]bool{}
	for _, v := range g.vals {
		seen[v] = true
	}
	for len(seen) < 2*n {
		v := strconv.Itoa(g.Intn(4 * n))
		if g.Intn(4) == 0 {
			v = g.bytes(1 + g.Intn(4))
		}
		if !seen[v] {
			seen[v] = true
			g.vals = append(g.vals, v)
		}
	}
	g.fields = g.vals
}

func (g *G) key() string { return pick(g.Rand, g.keys) }
func (g *G) val() string {
	if g.big && g.Intn(40) == 0 {
		n := []int{1000, 4090, 4096, 4100, 5000, 8192, 20000, 70000}[g.Intn(8)]
		return g.bytes(7) + strings.Repeat(string(rune('a'+g.Intn(26))), n)
	}
	return pick(g.Rand, g.vals)
}
func (g *G) field() string { return pick(g.Rand, g.fields) }
func (g *G) idx() string {
	if g.width > 0 && g.Intn(2) == 0 {
		return strconv.Itoa(g.Intn(4*g.width) - 2*g.width)
	}
	if g.Intn(3) > 0 {
		return indices[g.Intn(9)]
	}
	return pick(g.Rand, indices)
}
func (g *G) intv() string {
	if g.Intn(3) == 0 {
		return strconv.Itoa(g.Intn(21) - 10)
	}
	return pick(g.Rand, intValues)
}
func (g *G) many(f func() string) []string {
	n := 1 + g.Intn(3)
	if g.width > 0 && g.Intn(4) == 0 {
		n = 1 + g.Intn(g.width)
	}
	if g.Intn(10) == 0 {
		n = 4 + g.Intn(6)
	}
	if g.big && g.Intn(60) == 0 {
		n = 100 + g.Intn(100)
	}
	a := make([]string, n)
	for i := range a {
		a[i] = f()
	}
	return a
}

func cat(a []string, more ...string) []string { return append(append([]string{}, a...), more...) }

var families = map[string][]string{
	"string":  {"set", "set", "get", "mset", "mget", "exists", "strlen", "append", "append", "getrange", "getrange"},
	"counter": {"incr", "incrby", "incrby", "decr", "decrby", "decrby", "setint", "setint", "get", "append1"},
	"list": {"lpush", "rpush", "lpush", "rpush", "lpop", "rpop", "lindex", "linsert", "linsert", "llen", "lrange", "lrange", "ltrim",
		"lrem", "lrem", "lset", "lset"},
	"hash": {"hset", "hset", "hset", "hget", "hexists", "hdel", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen"},
	"set": {"sadd", "sadd", "sadd", "srem", "srem", "sismember", "smembers", "srandmember", "srandmember", "spop", "spop", "sdiff",
		"sinter", "sunion", "scard"},
}

var familyNames = []string{"string", "counter", "list", "hash", "set"}

// cmd generates a request of a family
func (g *G) cmd(family string) Req {
	if len(g.last.Q) > 0 && g.Intn(8) == 0 {
		// the same once more
		return Req{Q: append([]string{}, g.last.Q...), NS: g.last.NS}
	}
	if len(g.plan) == 0 && g.Intn(30) == 0 {
		g.plan = g.repetitions(family)
	}
	var q Req
	if len(g.plan) > 0 {
		q, g.plan = g.plan[0], g.plan[1:]
	} else {
		q = g.other(family)
	}
	g.last = q
	return q
}

// repetitions are changes that come again and have an effect every time
func (g *G) repetitions(family string) []Req {
	k, v, w, f := g.key(), g.val(), g.val(), g.field()
	var a []Req
	add := func(n int, q ...string) {
		for ; n > 0; n-- {
			a = append(a, rq(q...))
		}
	}
	n := 2 + g.Intn(2)
	switch family {
	case "string":
		switch g.Intn(3) {
		case 0:
			add(n, "append", k, v)
		case 1:
			add(1, "set", k, v)
			add(1, "append", k, w)
			add(1, "set", k, v)
		default:
			add(1, "mset", k, v, k, w)
			add(1, "set", k, v)
			add(1, "mset", k, v, k, w)
		}
	case "counter":
		switch g.Intn(3) {
		case 0:
			add(1, "set", k, g.intv())
			add(n, pick(g.Rand, []string{"incr", "decr"}), k)
		case 1:
			add(1, "set", k, "7")
			add(n, pick(g.Rand, []string{"incrby", "decrby"}), k, strconv.Itoa(g.Intn(9)-4))
			add(1, "set", k, "7")
		default:
			add(1, "set", k, "7")
			add(1, "incr", k)
			add(1, "set", k, "7")
		}
	case "list":
		add(1, pick(g.Rand, []string{"lpush", "rpush"}), k, v, v, w, v, w, v)
		switch g.Intn(6) {
		case 0:
			add(n, "lrem", k, pick(g.Rand, []string{"1", "-1"}), v)
		case 1:
			b := pick(g.Rand, []string{"0 -2", "1 -1", "1 -2", "0 -3"})
			add(n, "ltrim", k, b[:1], b[2:])
		case 2:
			add(n, pick(g.Rand, []string{"lpop", "rpop"}), k)
		case 3:
			add(n, "linsert", k, pick(g.Rand, []string{"before", "after"}), w, v)
		case 4:
			add(n, "rpush", k, w)
			add(1, "lset", k, "0", w)
			add(1, "lset", k, "0", v)
			add(1, "lset", k, "0", w)
		default:
			add(n, "lpush", k, v, w)
		}
	case "hash":
		add(1, "hset", k, f, v, g.field(), w)
		add(1, "hset", k, f, w)
		add(1, "hset", k, f, v, g.field(), w)
		add(n-1, "hdel", k, f)
		add(1, "hset", k, f, v)
	case "set":
		add(1, "sadd", k, v, w, g.val(), g.val(), g.val())
		if !g.noPop && g.Intn(2) == 0 {
			add(n, "spop", k)
		} else {
			add(1, "srem", k, v)
			add(1, "sadd", k, v)
			add(1, "srem", k, v)
		}
	}
	return a
}

func (g *G) other(family string) Req {
	q := Req{Q: g.plain(pick(g.Rand, families[family]))}
	if g.Float64() < g.odd {
		q = g.mutate(q)
	}
	if g.Intn(3) == 0 && len(q.Q) > 0 {
		q.Q[0] = g.mixCase(q.Q[0])
	}
	return q
}

func (g *G) mixCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && g.Intn(2) == 0 {
			b[i] = c - 32
		}
	}
	return string(b)
}

func (g *G) plain(name string) []string {
	k := g.key()
	switch name {
	case "set":
		if g.Intn(3) == 0 {
			return []string{"set", k, g.intv()}
		}
		return []string{"set", k, g.val()}
	case "setint":
		if g.Intn(8) == 0 {
			return []string{"set", k, pick(g.Rand, notInts)}
		}
		return []string{"set", k, g.intv()}
	case "append1":
		return []string{"append", k, strconv.Itoa(g.Intn(10))}
	case "get", "strlen", "incr", "decr", "lpop", "rpop", "llen", "hkeys", "hvals", "hgetall", "hlen", "smembers", "scard":
		return []string{name, k}
	case "append":
		return []string{name, k, g.val()}
	case "mset":
		a := []string{name}
		for range g.many(g.key) {
			a = append(a, g.key(), g.val())
		}
		return a
	case "mget", "exists", "sdiff", "sinter", "sunion":
		return cat([]string{name}, g.many(g.key)...)
	case "incrby", "decrby":
		if g.Intn(8) == 0 {
			return []string{name, k}
		}
		return []string{name, k, g.intv()}
	case "getrange", "lrange", "ltrim":
		return []string{name, k, g.idx(), g.idx()}
	case "lindex":
		return []string{name, k, g.idx()}
	case "lpush", "rpush", "sadd", "srem":
		return cat([]string{name, k}, g.many(g.val)...)
	case "linsert":
		return []string{name, k, g.mixCase(pick(g.Rand, []string{"before", "after"})), g.val(), g.val()}
	case "lset", "lrem":
		return []string{name, k, g.idx(), g.val()}
	case "hset":
		a := []string{name, k}
		for range g.many(g.field) {
			a = append(a, g.field(), g.val())
		}
		return a
	case "hget", "hexists", "hstrlen":
		return []string{name, k, g.field()}
	case "hdel", "hmget":
		return cat([]string{name, k}, g.many(g.field)...)
	case "sismember":
		return []string{name, k, g.val()}
	case "srandmember", "spop":
		if name == "spop" && g.noPop {
			name = "srandmember"
		}
		if g.Intn(2) == 0 {
			return []string{name, k}
		}
		return []string{name, k, g.idx()}
	}
	fatal("no template for %s", name)
	return nil
}

// mutate makes a request odd
func (g *G) mutate(q Req) Req {
	a := append([]string{}, q.Q...)
	switch g.Intn(7) {
	case 0: // drop arguments
		n := 1 + g.Intn(len(a))
		return Req{Q: a[:n]}
	case 1: // more arguments
		return Req{Q: cat(a, g.many(g.val)...)}
	case 2: // some arguments are no strings
		q = Req{Q: a}
		for i := range a {
			if i > 0 && g.Intn(2) == 0 {
				q.NS = append(q.NS, i+1)
			}
		}
		return q
	case 3: // a number is none, or the other way round
		if len(a) > 1 {
			a[1+g.Intn(len(a)-1)] = pick(g.Rand, notInts)
		}
		return Req{Q: a}
	case 4:
		a[0] = pick(g.Rand, randomNames)
		return Req{Q: a}
	case 5: // the arguments of another command
		f := familyNames[g.Intn(len(familyNames))]
		b := g.plain(pick(g.Rand, families[f]))
		return Req{Q: cat([]string{a[0]}, b[1:]...)}
	default:
		if len(a) > 1 {
			i := 1 + g.Intn(len(a)-1)
			a[i] = pick(g.Rand, specialValues)
		}
		return Req{Q: a}
	}
}

// reads are the requests that show everything about key k in a family
func reads(family, k string) []Req {
	switch family {
	case "string", "counter":
		return []Req{rq("get", k), rq("exists", k)}
	case "list":
		// LSET with this index tells an empty list from none
		return []Req{rq("lrange", k, "0", "-1"), rq("lset", k, "99999999", "x"), rq("llen", k)}
	case "hash":
		return []Req{rq("hgetall", k)}
	case "set":
		return []Req{rq("smembers", k)}
	}
	return nil
}

func sweep(keys []string) []Req {
	var q []Req
	for _, k := range keys {
		q = append(q, rq("get", k))
		for _, f := range familyNames[2:] {
			q = append(q, reads(f, k)...)
		}
	}
	return q
}
