#!/usr/bin/env python3
# Writes properties.jsonl (one source for ids, titles, statements; run after editing).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ENG='pkg/db/engine.go'; SRV='pkg/network/server.go'; CONN='pkg/network/conn.go'
p("C01","String commands return and leave exactly what the command history implies",
 "After any sequence of requests, SET, GET, MSET, MGET, APPEND, STRLEN, GETRANGE and EXISTS reply with, and leave behind, exactly what a map from byte-string keys to byte-string values prescribes: the last written value byte for byte, its exact length and inclusive (negative-from-the-end) ranges, one MGET element and one EXISTS count per requested key in order. This holds for every key and value, including empty, binary, very long and numeric-looking ones.",
 ["inputs","histories"],"every finite sequence of string commands over arbitrary byte-string keys and values, sent over any number of connections one after the other",
 "The repository has no test of any command; container tests use a few random ASCII strings and never a sequence of commands seen by a client.",
 ["pkg/command/global.go","pkg/container/string_map.go","pkg/container/string.go","pkg/util/index.go"],
 [("argument parsing and execution of the string commands","pkg/command/global.go"),("map of strings","pkg/container/string_map.go"),("range resolution","pkg/util/index.go Slice.Resolve")],
 [("global string map","key to value","pkg/container/string_map.go simpleStringMap.container")],["TCP replies"])
p("C02","Counter commands do exact 64-bit arithmetic and never wrap around",
 "INCR, INCRBY, DECR and DECRBY on a value that is a base-10 signed 64-bit integer store and return the exact mathematical result when it fits in 64 bits, and the stored value becomes its canonical decimal text. When the result does not fit, or the value or the increment is not such an integer, or the key does not exist, the reply is an error and the stored value is unchanged.",
 ["inputs","histories"],"every stored value, every increment and every sequence of counter and string commands on the same keys",
 "Unit tests increment a few small numbers on the container; the int64 limits, signs, leading zeros and interplay with APPEND, GETRANGE and STRLEN are not reached.",
 ["pkg/command/global.go","pkg/container/string.go","pkg/container/int_variant.go","pkg/container/string_map.go"],
 [("cached integer form kept in step with the text","pkg/container/string.go Increase/Decrease"),("overflow check","pkg/container/string.go"),("error mapping","pkg/db/engine.go handleError")],
 [("intVar","integer form of a string value","pkg/container/string.go")],["TCP replies"])
p("C03","List commands behave as a double-ended sequence with Redis index rules",
 "After any sequence of requests every list holds exactly the sequence that its pushes, pops, LINSERT, LSET, LREM and LTRIM imply, and LLEN, LINDEX, LRANGE and all replies report that sequence: the first pushed elements end up deepest, LREM removes at most the given count from the given end (all for 0), LINSERT goes next to the first match, negative indices count from the end. Element values never influence the outcome beyond equality, whatever their bytes.",
 ["inputs","histories"],"every finite sequence of list commands, every index and count in the 64-bit range, every element value",
 "The container tests push and pop random items; Insert, Set, Remove, Trim and Index tests are empty or sample a handful of positions, and no command is executed.",
 ["pkg/command/list.go","pkg/container/list.go","pkg/util/index.go"],
 [("doubly linked list with sentinel nodes","pkg/container/list.go"),("index resolution","pkg/util/index.go"),("reply for missing keys, missing pivots and indices out of range","pkg/command/list.go")],
 [("linkedList","sequence of elements and its size","pkg/container/list.go")],["TCP replies"])
p("C04","Hash commands behave as a map from fields to values",
 "After any sequence of requests HGET, HMGET, HEXISTS, HLEN, HSTRLEN, HKEYS, HVALS and HGETALL report exactly the field/value pairs that the HSET and HDEL calls imply, each field once and paired with its own last written value. HSET replies with the number of fields it added and HDEL with the number it removed, also when one request names a field twice.",
 ["inputs","histories"],"every finite sequence of hash commands over arbitrary keys, fields and values",
 "Container tests cover a few fixed fields; no test executes a hash command, repeats a field inside one request or empties and refills a hash.",
 ["pkg/command/hash.go","pkg/container/hash.go"],
 [("map of entries","pkg/container/hash.go"),("pairing of fields and values in requests and replies","pkg/command/hash.go")],
 [("hashContainer","field to value","pkg/container/hash.go")],["TCP replies"])
p("C05","Set commands behave as mathematical sets, random ones pick real members",
 "After any sequence of requests SCARD, SISMEMBER, SMEMBERS, SDIFF, SINTER and SUNION report exactly the sets that SADD, SREM and SPOP imply, every member once, and the algebra commands leave their operands unchanged. SPOP and SRANDMEMBER return distinct current members, as many as asked for or as there are, and SPOP removes exactly those it returned.",
 ["inputs","histories"],"every finite sequence of set commands over arbitrary keys, members, operand lists (also repeated or missing operands) and counts in the 64-bit range",
 "Container tests use a few fixed sets and two operands; no command is executed, and random commands cannot be compared with one expected output.",
 ["pkg/command/set.go","pkg/container/set.go"],
 [("map of members","pkg/container/set.go"),("fresh result sets for the algebra","pkg/container/set.go Diff/Intersect/Union"),("missing operands count as empty","pkg/command/set.go SetAccessObjects")],
 [("setContainer","members","pkg/container/set.go")],["TCP replies"])
p("C06","A command changes nothing but its own key, and failed or reading ones nothing",
 "Strings, lists, hashes and sets of the same name are independent, and a request changes only the collection and key it names. A request that is answered with an error, and every reading command, leaves the observable state of every key exactly as it was, including which keys exist.",
 ["inputs","histories"],"every reachable state and every request, valid or not, followed by reads of every key of every kind",
 "No test looks at any other key after a command, or at the state after a rejected one.",
 ["pkg/db/db.go","pkg/container/container.go","pkg/command/global.go","pkg/command/list.go","pkg/command/hash.go","pkg/command/set.go"],
 [("separate maps per kind","pkg/container/container.go"),("lookup that creates only for creating commands","pkg/db/db.go resolveName")],
 [("containers","all collections","pkg/container/container.go")],["TCP replies"])
p("C07","Every request gets exactly one well-formed reply and none kills the server",
 "For every well-formed RESP value sent as a request - unknown names, any arity, any argument types and bytes, empty or null arrays, non-arrays - the client receives exactly one well-formed reply, with the documented error for unknown commands (ERR no such command), for wrong arity or argument types (ERR invalid argument), non-integers, missing keys and bad indices, and the server keeps serving every client. Command names are case-insensitive, and no bytes of a request can break the framing of a reply.",
 ["inputs","histories"],"every well-formed RESP value in every reachable state",
 "No test sends a request to a server; the crash and framing cases need unusual keys, states and argument types.",
 [ENG,"pkg/command/command.go","pkg/command/global.go","pkg/command/list.go","pkg/command/hash.go","pkg/command/set.go",SRV],
 [("error mapping","pkg/db/engine.go handleError"),("argument validation","pkg/command ParseArguments"),("command table","pkg/command/command.go NewCommand")],None,["TCP replies","liveness of the process"])
p("C08","Malformed input hurts only the connection that sent it",
 "When a client sends bytes that are not RESP - bad type bytes, lengths, terminators, nesting, or a message cut off by a disconnect - the requests before the defect are executed in order at most once each and nothing of the defective message is, and that connection gets no reply to it but is closed promptly. Every other connection and the data stay untouched and the server keeps accepting clients.",
 ["inputs","fault_sequences"],"every byte stream that is not a sequence of RESP values, at every cut position, mixed with well-behaved clients",
 "Reader tests parse a few valid strings; no test feeds invalid bytes to the reader or to a server.",
 ["pkg/protocol/reader.go",CONN,SRV],
 [("reader errors","pkg/protocol/reader.go"),("connection is closed on any read error","pkg/network/server.go newConn")],None,["TCP streams of the offender and of bystanders"])
p("C09","Replies reach the right connection, one per request, in request order",
 "Whatever the way a client's byte stream is split into TCP segments and however many requests it pipelines, it receives exactly the replies to its own requests, one each and in the order of the requests, as if it had sent them one at a time. Other clients' traffic, connects and disconnects at any moment never lose, duplicate, reorder or misdirect a reply.",
 ["schedules","inputs","histories"],"every segmentation of every request stream, every pipeline depth, every interleaving of several connections and of connection arrival and departure",
 "No test opens a connection to a server; loss and reordering depend on goroutine schedules and timeouts between reader, engine and responder.",
 [SRV,CONN,ENG,"pkg/concurrency/topic.go","pkg/concurrency/event_bus.go","pkg/protocol/reader.go"],
 [("connection id carried with the request and the response","pkg/network/server.go, pkg/db/engine.go"),("delivery is awaited before the next publish","pkg/network/server.go newConn, pkg/db/engine.go Start"),("queue of responses per client","pkg/network/server.go client")],
 [("clients","open connections by id","pkg/network/server.go server.clients")],["TCP streams"])
p("C10","Concurrent clients see a linearizable store, each command atomic",
 "For every interleaving of any number of clients, all replies are explained by executing the commands one at a time, each at some moment between its request and its reply. Multi-key and multi-element commands (MSET, MGET, LPUSH, HSET, SADD, SINTER, LTRIM, ...) and read-modify-write commands (INCR, APPEND, LPOP, SPOP, ...) are never seen half done and never lose an update.",
 ["schedules","histories"],"every concurrent history of commands issued by any number of clients",
 "No test runs two clients; atomicity depends on how goroutines of connections and engine interleave.",
 [ENG,SRV,"pkg/db/db.go","pkg/concurrency/event_bus.go"],
 [("single engine goroutine executes all commands","pkg/db/engine.go Start")],[("dbMap","databases","pkg/db/engine.go")],["TCP call/return histories"])
p("C11","The RESP reader and writer agree for all values, at every split of the stream",
 "Writing any RESP value and reading it back yields the same value and consumes exactly its bytes, however the stream is chunked and whatever follows. Every byte string that is not a complete RESP value within the nesting limit is rejected with an error, never with a panic, a hang or a wrong value.",
 ["inputs"],"every RESP value (nested, null, empty, binary) and every byte string, in every chunking",
 "Tests round-trip a fixed list of values from one contiguous string and check no invalid input.",
 ["pkg/protocol/reader.go","pkg/protocol/resp.go"],
 [("tokenizer and recursive reader","pkg/protocol/reader.go"),("constructors that render the bytes","pkg/protocol/resp.go")],None,["Parse / NewRESPReader results"])
p("C12","A graceful stop and restart restores the exact state",
 "After a graceful stop (SIGTERM, SIGINT or Stop) of a server that has no master and a restart with the same database file, every key of every kind has exactly the value it had when the last acknowledged command completed, and the server continues from there, over any number of restarts. This includes random commands (the same members stay popped), binary and long values, and histories with rejected commands.",
 ["histories","inputs","schedules"],"every command history by one or several clients, cut into any number of server lifetimes",
 "No test covers the log, the engine or a restart.",
 [ENG,"pkg/log/log.go","pkg/log/log.pb.go","pkg/log/persistent.go",SRV,"pkg/command/set.go"],
 [("every modifying command is appended to the log in execution order before its reply","pkg/db/engine.go handleRequest"),("flush at stop","pkg/db/engine.go Stop"),("replay at start","pkg/db/engine.go BuildFromLog")],
 [("file","buffered append-only log","pkg/log/persistent.go")],["TCP replies after restart"])
p("C13","After a crash the server recovers a prefix of the executed history",
 "If the process dies at any moment (SIGKILL), a restart with the same database file yields exactly the state after some prefix of the sequence in which the commands were executed - never a state with a later command's effect but without an earlier one's, and never a partial command. The prefix includes every command acknowledged before the last completed graceful stop or replica synchronisation.",
 ["crash_points","histories","schedules"],"every command history and every moment of death, including during bursts of pipelined writes and while replicas synchronise",
 "No test kills a process or replays a log.",
 [ENG,"pkg/log/persistent.go","pkg/log/log.go",SRV],
 [("log order is execution order","pkg/db/engine.go handleRequest"),("records are never split between two flushes","pkg/log/persistent.go Write"),("incomplete tail ignored","pkg/log/log.go ParseLog")],
 [("file","buffered append-only log","pkg/log/persistent.go")],["TCP replies after restart"])
p("C14","A damaged log tail costs only the damaged records, and logging continues",
 "If the database file ends in an incomplete or garbage record (cut at any byte), a start recovers exactly the effects of the complete records before it, and everything acknowledged afterwards survives the following graceful restarts. A well-framed record whose content cannot be decoded is skipped without affecting the others.",
 ["fault_sequences","crash_points","histories"],"every truncation offset of every log, appended garbage, undecodable records at any position, followed by further lifetimes",
 "No test parses a log at all.",
 ["pkg/log/log.go",SRV,ENG],
 [("offset of the last complete record and truncation","pkg/network/server.go fromFile"),("skipping of undecodable records","pkg/log/log.go ParseLogWithOffset")],None,["TCP replies after restart","log.ParseLog results"])
p("C15","A replica starts with its own log followed by the master's complete log",
 "A server started with a database file and a master address serves the state obtained by replaying its own file and then the commands of the master's log, which contains every write acknowledged by the master before the replica connected, in the master's execution order and without gaps. Later writes on either side do not affect the other, and any number of replicas can synchronise at the same time, also while the master is being written to.",
 ["histories","schedules","configurations"],"every pair of local and master histories, every moment of synchronisation during concurrent writes, any number of replicas",
 "No test covers replication.",
 ["pkg/replication/master.go","pkg/replication/replica.go",SRV,"pkg/log/persistent.go"],
 [("flush, snapshot copy and length-prefixed transfer","pkg/replication/master.go handleConn"),("own file first, then master","pkg/network/server.go syncExternal")],None,["TCP replies of the replica","bytes sent by the replica port"])
p("C16","An interrupted or impossible synchronisation applies nothing and harms nobody",
 "If the master is unreachable, closes or dies during the transfer, or has no database file, the replica starts with exactly its own state, never with a part of the master's. Replicas that connect, stall or vanish at any point never disturb the master's clients, its data or later replicas.",
 ["fault_sequences","crash_points"],"every cut position of the transfer, every order of replica connects, stalls and disconnects",
 "No test covers replication or any fault.",
 ["pkg/replication/master.go","pkg/replication/replica.go",SRV],
 [("exact length required","pkg/replication/replica.go Receive"),("one goroutine and one snapshot per replica","pkg/replication/master.go")],None,["TCP replies of replica and master"])
p("C17","Stopping always terminates and releases everything, in every configuration",
 "Stop, SIGTERM and SIGINT terminate the server in bounded time without a crash in every configuration - with or without database file, replica port, master, clients that are idle, busy or not reading - also when requested repeatedly or concurrently; Serve returns, all client connections and the client and replica ports are closed. Immediately afterwards a server can be started on the same ports and file.",
 ["configurations","schedules","fault_sequences"],"every configuration, every state of the clients and every timing and number of stop requests",
 "No test starts a server.",
 [SRV,ENG,"pkg/replication/master.go",CONN],
 [("stop runs once and is awaited","pkg/network/server.go stop"),("engine stop","pkg/db/engine.go Stop"),("master stop","pkg/replication/master.go stop")],None,["process exit, sockets"])
p("C18","A connection expires exactly when idle and fails cleanly once closed",
 "A connection is closed by its idle timeout if and only if no Read and no Write was started for that long; activity restarts the full time. Once closed - by timeout, by Close or by its peer - IsClosed is true for good, Close reports it was closed already, no operation writes to the peer or blocks forever, and Read and Write fail.",
 ["schedules","histories"],"every timing and interleaving of Read, Write, Close and peer actions relative to the timeout",
 "No test covers the connection object; the timeout is ten minutes.",
 [CONN],[("expire worker with reset and close channels","pkg/network/conn.go startExpireWorker"),("closed flag","pkg/network/conn.go Close")],
 [("closed","1 once closed","pkg/network/conn.go conn.closed")],["Conn API results, bytes on the peer side"])
p("C19","A future ends exactly once, fulfilled or cancelled, and everybody agrees",
 "A future becomes either fulfilled (its task finished first) or cancelled (a Cancel call came first), never both, and stays so: exactly one Cancel succeeds, later ones report the state, and all Get, Wait and WaitFor calls before and after the outcome agree on it and return the task's result and error. Waiters return as soon as the outcome is known, WaitFor also when its duration has elapsed, and no call panics under any concurrency.",
 ["schedules","histories"],"every interleaving of any number of Cancel, Get, Wait and WaitFor calls with the task",
 "Tests run a few cancel/fulfil races with sleeps and sample one schedule each.",
 ["pkg/concurrency/future.go","pkg/concurrency/task.go"],
 [("done and cancel channels, closed at most once in total","pkg/concurrency/future.go")],[("doneChan/cancelChan","outcome","pkg/concurrency/future.go")],["results of the public calls"])
p("C20","A data channel delivers every accepted event exactly once and in order",
 "Every event whose Send reports Success on a channel that stays open is received exactly once, in the order of sequential sends; an event whose Send reports Closed or Expired is never received. Expired is reported only after the expire time has passed without room, Closed only after Close; after Close returned every Receive, also one already waiting, reports the channel closed and every Send reports Closed.",
 ["schedules","histories"],"every interleaving of sends, receives and closes, every buffer size and expire time",
 "Tests sample single schedules with sleeps; waiting receivers at close and sends after close of a buffered channel are not settled by them.",
 ["pkg/concurrency/data_channel.go"],
 [("data channel, close channel and timer in one select","pkg/concurrency/data_channel.go Send/Receive")],None,["results of the public calls"])
p("C21","Publish reaches every live subscriber once, and topics come and go cleanly",
 "An event published to an existing topic is delivered exactly once to every subscriber that was subscribed before and keeps receiving, to no other topic's subscribers, with its data, error and topic intact, and the returned future yields the number of deliveries; publishing or subscribing to an unknown topic yields ErrNoSuchTopic. Topics are created and removed exactly once, removal notifies every subscriber with ErrTopicRemoved, and closed, slow or re-subscribing receivers never affect the delivery to others.",
 ["schedules","histories"],"every interleaving of publish, subscribe, receiver close, re-subscribe, topic creation and removal",
 "Event bus tests are empty and topic tests sample one schedule with well-behaved receivers.",
 ["pkg/concurrency/topic.go","pkg/concurrency/event_bus.go"],
 [("fan-out with one goroutine per subscriber","pkg/concurrency/topic.go distributeEvent"),("topics under a lock","pkg/concurrency/event_bus.go")],
 [("topics","topics by name","pkg/concurrency/event_bus.go"),("subscribers","senders by name","pkg/concurrency/topic.go")],["results of the public calls"])
p("C22","A broadcaster gives its one message to every getter, early or late",
 "Every Get on a broadcaster, whether it starts before or after Set, blocks until Set was called and then returns exactly the message that was set, also nil, any number of times and from any number of goroutines.",
 ["schedules"],"every interleaving of one Set with any number of Gets",
 "One test with one schedule.",
 ["pkg/concurrency/broadcast.go"],[("ready channel closed after the message is stored","pkg/concurrency/broadcast.go Set")],None,["results of the public calls"])
p("C23","Data maps behave as one atomic map, with an exact length",
 "Under any concurrent use the results of Set, Get, Has and Remove on the locked and the sync data map are those of an atomic map, and Len equals the number of keys whenever no change is in progress. Used from one goroutine all three data maps behave as a plain map for every key and value, nil values included.",
 ["schedules","histories"],"every sequential history for all variants, every concurrent one for the locked and the sync variant",
 "Tests run concurrent disjoint writers and look at the final length only.",
 ["pkg/types/data_map.go"],[("read-write lock","pkg/types/data_map.go lockedDataMap"),("check and size change under one lock","pkg/types/data_map.go syncDataMap")],None,["results of the public calls"])
p("C24","The console client sends exactly the typed words and shows the exact reply",
 "For every input line the client's request is the array of its space-separated words in order, where a double-quoted part is one word whose spaces are kept, so that a server parsing it receives exactly those words. The printed form of a reply depends only on its value and tells strings, integers, errors and nulls apart, with array elements in order and numbered.",
 ["inputs"],"every input line made of unquoted words and complete quoted words separated by spaces, every reply value",
 "The client package has no tests.",
 ["cmd/client/internal/codec.go"],[("tokenizer","cmd/client/internal/codec.go FormatInput"),("renderer","cmd/client/internal/codec.go FormatOutput")],None,["FormatInput / FormatOutput results"])
p("C25","A client that stops reading or sending delays nobody else",
 "While any number of clients stop reading their replies, stall in the middle of a request or keep the connection open without sending, every other client's requests are executed and answered promptly and correctly. A stalled client that resumes reading gets all its replies, complete and in order.",
 ["schedules","fault_sequences"],"every set of stalled clients, any amount of unread replies, any point of a request at which a client stalls",
 "No test opens two connections.",
 [SRV,CONN,ENG],[("queue of responses per client","pkg/network/server.go client"),("one reader goroutine per client","pkg/network/server.go newConn")],None,["TCP replies of bystanders and of the stalled client"])
p("C26","Whoever has left, and a server that was stopped, leave nothing behind",
 "Once a client or a replica has left, at whatever point of a request, a reply or a transfer and in whatever manner, and whether or not it was the server that closed the connection, everything held for it is freed after some time: goroutines, file descriptors, transfer files and memory. A server that has served any number of them uses as much as one that served none. Once a server has been stopped, nothing of it remains in its process, so that servers can be started and stopped any number of times.",
 ["schedules","fault_sequences"],"every number and mix of visitors, every point of a request, reply or transfer at which they leave, every order of lives",
 "No test opens a connection, and a leak shows only after many of them or many restarts.",
 [SRV,CONN,ENG,"pkg/replication/master.go","pkg/log/persistent.go"],[("every connection is removed and its goroutines end when either side closes it","pkg/network/server.go newConn, pkg/network/conn.go Close"),("the engine closes its file","pkg/db/engine.go Stop")],None,["goroutines, file descriptors and heap of the process","files in its directories"])
p("C27","The log file gives back exactly the entries written to it, however it is cut",
 "Log entries that are packed and written, by any number of concurrent writers, through the buffered file are all read back, unchanged and in the order of the writes, once the file is flushed; at any earlier moment the file holds an initial part of what was written. A file that is cut at any byte gives exactly the entries that are complete and an error if it was cut within one, no matter in which pieces the reader delivers it, and a record that cannot be decoded is skipped without affecting the others.",
 ["inputs","schedules","crash_points"],"every content of entries, every cut, every fragmentation of the reader, every interleaving of writers",
 "The log package has no tests.",
 ["pkg/log/log.go","pkg/log/persistent.go","pkg/util/util.go"],
 [("length prefix and framing","pkg/log/log.go PackLog/readLog"),("one lock around the buffered writer","pkg/log/persistent.go PersistentFile")],None,["results of PackLog, ParseLog and the PersistentFile methods","bytes of the file"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
