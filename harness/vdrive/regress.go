package main

import "strings"

// Requests that once failed, per family
var regress = map[string][]string{
	"string":  {"mset", "mset|a", "getrange|nokey|0|-1", "set|r:s|hello", "getrange|r:s|-3|-1", "getrange|r:s|1|100", "append|r:s|", "append|r:new|", "exists|r:new", "strlen|r:new"},
	"counter": {"set|r:c|9223372036854775807", "incr|r:c", "get|r:c", "incrby|r:c|9223372036854775807", "set|r:d|-9223372036854775808", "decr|r:d", "decrby|r:d|1", "get|r:d", "decrby|r:c|-9223372036854775808", "get|r:c", "set|r:e|-1", "decrby|r:e|-9223372036854775808", "get|r:e", "set|r:f|0", "decrby|r:f|-9223372036854775808", "get|r:f", "incrby|r:f|-9223372036854775808", "get|r:f", "incr", "incr|r:none"},
	"list": {"rpush|r:l|a|dummy string|b|dummy string", "lrem|r:l|0|dummy string", "lrange|r:l|0|-1", "linsert|r:l|before|dummy string|x", "lrange|r:l|0|-1", "rpush|r:m|a|b|c|d", "lrange|r:m|0|-2", "lrange|r:m|-3|-2", "ltrim|r:m|0|-2", "lrange|r:m|0|-1", "rpush|r:n|a|b|a|c|a", "lrem|r:n|-9223372036854775808|a", "lrange|r:n|0|-1", "lpush||a", "rpush||a", "lpop|", "lpop|r:none", "lset|r:none|0|a", "lset|r:m|9|a",
		"rpush|r:e|a", "lpop|r:e", "lset|r:e|0|x", "lpop|r:e", "lrange|r:e|0|-1", "linsert|r:e|before|a|b", "rpush|r:e|z", "lrange|r:e|0|-1"},
	"hash": {"hset||f|v", "hget||f", "hset|r:h", "hset|r:h2|f", "hgetall|r:h2", "hset|r:h3||v", "hget|r:h3|", "hexists|r:h3|", "hstrlen|r:h3|", "hmget|r:h3|", "hset|r:h4|f|1|f|2", "hget|r:h4|f", "hdel|r:h4|f|f", "hgetall|r:h4", "hlen|r:h4", "hkeys|r:none", "hdel|r:none|f", "hgetall|r:none"},
	"set": {"sadd|r:z|a", "spop|r:z", "spop|r:z", "spop|r:z|2", "srandmember|r:z", "srandmember|r:z|3", "srandmember|r:z|-3", "smembers|r:z", "sadd||a", "srem|r:none|a", "smembers|r:none", "srem||a", "sadd|r:y|", "sismember|r:y|", "sadd|r:x|a|b|c", "srandmember|r:x|-2", "srandmember|r:x|-9223372036854775808", "spop|r:x|-9223372036854775808", "scard|r:x",
		"sdiff|r:none", "sinter|r:none|r:y", "sunion|r:none|r:none", "sadd|r:w|a|a", "srem|r:w|a|a", "sdiff|r:y|r:y", "sunion|r:y|r:w|r:y"},
}

func regressions(fams []string) []Req {
	var all []Req
	for _, f := range fams {
		for _, s := range regress[f] {
			all = append(all, Req{Q: strings.Split(s, "|")})
		}
	}
	return all
}
