From 35fb937628930999d6155bafe53211143c50fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 01/50] fix: SPOP and SRANDMEMBER on an existing but empty set
 crashed the server

---
 pkg/command/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 44d8a10..9c78801 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -591,7 +591,7 @@ func (s *spopCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
@@ -713,7 +713,7 @@ func (s *srandmemberCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).RandomMember(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
-- 
2.43.0


From f3087ff238efc07ae279e3c3d0146253d7dcc392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 02/50] fix: HSET and SADD on the empty key crashed the server

---
 pkg/command/hash.go | 5 +++++
 pkg/command/set.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index f143b49..50ebed8 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -121,6 +121,11 @@ func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (h *hsetCommand) Execute() {
+	if h.accessObject == nil {
+		h.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if h.accessObject.Type() != h.TargetContainerType() {
 		h.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", h.TargetContainerType(), h.accessObject.Type())
 		return
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 9c78801..8c294a1 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -192,6 +192,11 @@ func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *saddCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
-- 
2.43.0


From e3c696a9cb527412cbcd8322b1c35b41def4b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 03/50] fix: SREM created the set it was asked to remove from,
 and crashed on the empty key

---
 pkg/command/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 8c294a1..2b76b9b 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -472,6 +472,11 @@ func (s *sremCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *sremCommand) Execute() {
+	if s.accessObject == nil {
+		s.result = protocol.NewRedisInteger(0)
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
@@ -515,7 +520,7 @@ func (s *sremCommand) Keys() []string {
 }
 
 func (s *sremCommand) ShouldCreate() bool {
-	return true
+	return false
 }
 
 func (s *sremCommand) SetAccessObjects(objects []container.ContainerObject) {
-- 
2.43.0


From 00676a13069289e9e0e5f4e71fbb6612f36f75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 04/50] fix: HSET without a field created an empty hash and
 then reported an error

---
 pkg/command/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index 50ebed8..a4de328 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -90,7 +90,7 @@ func (h *hsetCommand) Name() string {
 func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 	length := len(objects)
 
-	if length%2 != 1 {
+	if length < 3 || length%2 != 1 {
 		return ErrArgumentInvalid
 	}
 
-- 
2.43.0


From 06beb9181d5a8ee21cfd87f9529dfbc0dbadfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 05/50] fix: LINSERT and LREM matched the list's internal
 sentinel nodes

---
 pkg/container/list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 4b80379..231a950 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -107,7 +107,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 		count = l.size
 	}
 
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail && removed < count {
 		if cur.data.Equals(key) {
@@ -126,7 +126,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 func (l *linkedList) deleteFromTail(count int, key *StringContainer) int {
 	removed := 0
 
-	cur := l.tail
+	cur := l.tail.prev
 
 	for cur != l.head && removed < count {
 		if cur.data.Equals(key) {
@@ -276,7 +276,7 @@ func (l *linkedList) PopTail() (*StringContainer, error) {
 }
 
 func (l *linkedList) Insert(pivot, data *StringContainer, after bool) (int, error) {
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail {
 		if cur.data.Equals(pivot) {
-- 
2.43.0


From eb2df4bf3d898686a358bc671d66b3f66df41778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 06/50] fix: LRANGE and LTRIM resolved a negative end index
 twice

---
 pkg/container/list.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 231a950..9d8bd8b 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -159,12 +159,6 @@ func (l *linkedList) extract(index int) *listNode {
 
 // Avoid traverse twice
 func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
-	right = util.NewIndex(right).ResolveRaw(l.size)
-
-	if right >= l.size {
-		right = l.size - 1
-	}
-
 	normLeft, normRight := util.NewSlice(left, right).Resolve(l.size)
 
 	if normLeft != -1 && normRight != -1 {
-- 
2.43.0


From 6993fb36d5a73cc61c2c1770fe230c80a0d45585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 07/50] fix: LTRIM was not logged, so a restart undid it

---
 pkg/command/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/list.go b/pkg/command/list.go
index 8ceac19..2003e08 100644
--- a/pkg/command/list.go
+++ b/pkg/command/list.go
@@ -1010,7 +1010,7 @@ func (l *ltrimCommand) ToLog() string {
 }
 
 func (l *ltrimCommand) Type() CommandType {
-	return AccessCommandType
+	return ModifyCommandType
 }
 
 func (l *ltrimCommand) Keys() []string {
-- 
2.43.0


From 65ca6fd479606b48a572fde12401025c107411e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 08/50] fix: LREM with the smallest count removed nothing

---
 pkg/container/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 9d8bd8b..f480cc6 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -311,6 +311,10 @@ func (l *linkedList) Remove(count int, key *StringContainer) int {
 	if count >= 0 {
 		removed = l.deleteFromHead(count, key)
 	} else {
+		// -count overflows for the smallest int, and more than size can not be removed anyway
+		if count < -l.size {
+			count = -l.size
+		}
 		removed = l.deleteFromTail(-count, key)
 	}
 
-- 
2.43.0


From 5c0c7ce8256418ca61b7bb85a207cf80e9efb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 09/50] fix: counter commands wrapped around on int64 overflow

---
 pkg/container/string.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/container/string.go b/pkg/container/string.go
index a946b89..e70fd03 100644
--- a/pkg/container/string.go
+++ b/pkg/container/string.go
@@ -3,6 +3,7 @@ package container
 import (
 	"errors"
 	"hash/fnv"
+	"math"
 
 	"github.com/lxdlam/vertex/pkg/util"
 
@@ -129,6 +130,11 @@ func (s *StringContainer) AsIntObject() (protocol.RedisInteger, error) {
 // The string will be updated too.
 func (s *StringContainer) Increase(increment int64) (int64, error) {
 	if s.IsInt() {
+		val := s.intVar.Get()
+		if (increment > 0 && val > math.MaxInt64-increment) || (increment < 0 && val < math.MinInt64-increment) {
+			return 0, ErrNotAInt
+		}
+
 		s.intVar.Increase(increment)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
@@ -141,6 +147,11 @@ func (s *StringContainer) Increase(increment int64) (int64, error) {
 // The string will be updated too.
 func (s *StringContainer) Decrease(decrement int64) (int64, error) {
 	if s.IsInt() {
+		val := s.intVar.Get()
+		if (decrement > 0 && val < math.MinInt64+decrement) || (decrement < 0 && val > math.MaxInt64+decrement) {
+			return 0, ErrNotAInt
+		}
+
 		s.intVar.Decrease(decrement)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
-- 
2.43.0


From e8e7d5536d40abb5816774953fa9d1ff6e392987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 10/50] fix: bytes of a request could break the framing of an
 internal error reply

---
 pkg/db/engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5d40462..231b4fb 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -282,7 +282,10 @@ func handleError(err error) protocol.RedisError {
 	}
 
 	// TODO: do not send raw error
-	return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, err=%+v", err))
+	message := fmt.Sprintf("ERR vertex server internal error, err=%+v", err)
+
+	// An error reply is one line, but the raw error may contain any bytes of the request
+	return protocol.NewRedisError(strings.NewReplacer("\r", "\\r", "\n", "\\n").Replace(message))
 }
 
 func (e *engine) SetFile(file *os.File, filePath string) {
-- 
2.43.0


From bdc0e36f261f8afae029fc5cd3fb7e1275e7d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 11/50] fix: a negative bulk or array length crashed the reader
 or was taken as empty

---
 pkg/protocol/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 92c4a96..68398ac 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -94,6 +94,8 @@ func (r *respReader) readString() (RedisString, error) {
 		// real string section
 		if sLen == -1 {
 			return NewNullBulkRedisString(), nil
+		} else if sLen < 0 {
+			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
@@ -131,6 +133,8 @@ func (r *respReader) readArray() (RedisArray, error) {
 	if aLen == -1 {
 		// null array
 		return NewNullRedisArray(), nil
+	} else if aLen < 0 {
+		return nil, fmt.Errorf("invalid array length. token=%s", curToken)
 	}
 
 	var objects []RedisObject
-- 
2.43.0


From 81c6b627ff64cdcff984d1f03307329b99cff0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 12/50] fix: a bulk string without its terminator was accepted

---
 pkg/protocol/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 68398ac..8b42ded 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -97,6 +97,10 @@ func (r *respReader) readString() (RedisString, error) {
 		} else if sLen < 0 {
 			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
+			if r.token[sLen:] != Delimiter {
+				return nil, fmt.Errorf("bulk string is not terminated. length=%d, token=%s", sLen, r.token)
+			}
+
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
 			return nil, fmt.Errorf("read real string failed. length=%d, token=%s, err={%w}", sLen, r.token, err)
-- 
2.43.0


From 32f6bbff1cd2db1cedcbd2dbe50d0ed4202817d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 13/50] fix: deeply nested arrays exhausted the memory of the
 server

---
 pkg/protocol/reader.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 8b42ded..776e6a1 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -10,6 +10,9 @@ import (
 
 const (
 	delimiter byte = '\n'
+
+	// maxDepth limits how deep arrays can be nested, since every level takes a frame of the stack
+	maxDepth = 128
 )
 
 // RESPReader interface allow reuse a io.Reader objects to avoid
@@ -125,7 +128,11 @@ func (r *respReader) readInteger() (RedisInteger, error) {
 	return NewRedisInteger(num), nil
 }
 
-func (r *respReader) readArray() (RedisArray, error) {
+func (r *respReader) readArray(depth int) (RedisArray, error) {
+	if depth >= maxDepth {
+		return nil, fmt.Errorf("arrays are nested too deep. depth=%d", depth)
+	}
+
 	// length section
 	curToken := r.token
 	l := len(r.token)
@@ -143,7 +150,7 @@ func (r *respReader) readArray() (RedisArray, error) {
 
 	var objects []RedisObject
 	for i := 0; i < int(aLen); i++ {
-		obj, err := r.readObject()
+		obj, err := r.readObject(depth + 1)
 		if err != nil {
 			return nil, fmt.Errorf("read array object failed. index=%d, err={%w}", i, err)
 		}
@@ -153,7 +160,7 @@ func (r *respReader) readArray() (RedisArray, error) {
 	return NewRedisArray(objects), nil
 }
 
-func (r *respReader) readObject() (RedisObject, error) {
+func (r *respReader) readObject(depth int) (RedisObject, error) {
 	if err := r.readToken(); err == nil {
 		switch r.peek() {
 		case SimpleStringType, BulkStringType:
@@ -163,7 +170,7 @@ func (r *respReader) readObject() (RedisObject, error) {
 		case IntegerType:
 			return r.readInteger()
 		case ArrayType:
-			return r.readArray()
+			return r.readArray(depth)
 		default:
 			return nil, fmt.Errorf("invalid token. token=%s", r.token)
 		}
@@ -173,7 +180,7 @@ func (r *respReader) readObject() (RedisObject, error) {
 }
 
 func (r *respReader) ReadObject() (RedisObject, error) {
-	return r.readObject()
+	return r.readObject(0)
 }
 
 // Parse takes an io.Reader and try to parse a RedisObject from it.
@@ -184,7 +191,7 @@ func Parse(reader io.Reader) (RedisObject, error) {
 		reader: bufio.NewReader(reader),
 	}
 
-	return r.readObject()
+	return r.readObject(0)
 }
 
 func NewRESPReader(reader io.Reader) RESPReader {
-- 
2.43.0


From 6b61e4cc31c200a83e7e46a941eebda8f8579262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 14/50] fix: a request that is not an array never got a reply

---
 pkg/db/engine.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 231b4fb..62a7189 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -94,12 +94,10 @@ func parseRequest(data types.DataMap) (id string, objects []protocol.RedisObject
 		return
 	}
 
-	obj, ok := response.(protocol.RedisArray)
-	if !ok {
-		return
+	// A request that is not an array holds no command, handleRequest will report it
+	if obj, isArray := response.(protocol.RedisArray); isArray {
+		objects = obj.Data()
 	}
-
-	objects = obj.Data()
 	return
 }
 
-- 
2.43.0


From cd12269ae0220d20793287f31b5391e034ebe6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 15/50] fix: the order of the log could differ from the order
 of execution

---
 pkg/db/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 62a7189..6830ae1 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -120,7 +120,7 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	}
 
 	if c.Type() == command.ModifyCommandType {
-		go e.writeLog(name, 1, objects)
+		e.writeLog(name, 1, objects)
 	}
 
 	db := e.getOrCreateDB(1)
-- 
2.43.0


From 76adfe2bcb2d068ac42735e6626b1121dcf1dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 16/50] fix: a replayed SPOP popped other members than the
 original one

---
 pkg/command/command.go | 10 ++++++++++
 pkg/command/set.go     | 16 ++++++++++++++++
 pkg/db/engine.go       | 15 +++++++++++----
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/pkg/command/command.go b/pkg/command/command.go
index 976b1ca..4e834b2 100644
--- a/pkg/command/command.go
+++ b/pkg/command/command.go
@@ -49,6 +49,16 @@ type Command interface {
 	Type() CommandType
 }
 
+// RandomCommand is a command that chooses what it modifies at random, so executing it again
+// may give another result
+type RandomCommand interface {
+	Command
+
+	// Effect returns the name and the request of a command which does exactly what the last
+	// Execute call did, the request is empty if nothing has been modified.
+	Effect() (string, []protocol.RedisObject)
+}
+
 var keyMap map[string]func(string, int, []protocol.RedisObject) (Command, error) = nil
 var lock sync.RWMutex
 
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 2b76b9b..641fc3d 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -539,6 +539,7 @@ type spopCommand struct {
 	index        int
 	count        int
 	countSet     bool
+	popped       []*container.StringContainer
 	accessObject container.ContainerObject
 	result       protocol.RedisObject
 	err          error
@@ -599,6 +600,7 @@ func (s *spopCommand) Execute() {
 	}
 
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
+	s.popped = ret
 
 	if !s.countSet {
 		if len(ret) == 0 || ret[0] == nil {
@@ -625,6 +627,20 @@ func (s *spopCommand) Result() (protocol.RedisObject, error) {
 	return s.result, s.err
 }
 
+// Effect returns the SREM of the popped members
+func (s *spopCommand) Effect() (string, []protocol.RedisObject) {
+	if len(s.popped) == 0 {
+		return "srem", nil
+	}
+
+	objects := []protocol.RedisObject{protocol.NewBulkRedisString("srem"), protocol.NewBulkRedisString(s.key)}
+	for _, item := range s.popped {
+		objects = append(objects, protocol.NewBulkRedisString(item.String()))
+	}
+
+	return "srem", objects
+}
+
 func (s *spopCommand) Cluster() int {
 	return s.index
 }
diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 6830ae1..4874d81 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -119,13 +119,20 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 		return nil, fmt.Errorf("new commond error, name=%s, index=1, error={%w}", name, err)
 	}
 
-	if c.Type() == command.ModifyCommandType {
-		e.writeLog(name, 1, objects)
-	}
-
 	db := e.getOrCreateDB(1)
 	db.ExecuteCommand(c)
 
+	if c.Type() == command.ModifyCommandType {
+		logName, logObjects := name, objects
+		if r, ok := c.(command.RandomCommand); ok {
+			logName, logObjects = r.Effect()
+		}
+
+		if len(logObjects) != 0 {
+			e.writeLog(logName, 1, logObjects)
+		}
+	}
+
 	ret, err := c.Result()
 	if err != nil {
 		return nil, fmt.Errorf("execute error. name=%s, command=%+v, err={%w}", name, c, err)
-- 
2.43.0


From ec98fb4eb6aadf94b039eebc9ffbd1950b71f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 17/50] fix: a request with bytes that are not UTF-8 was never
 logged

---
 pkg/db/engine.go  |  5 +++--
 pkg/log/log.go    | 13 +++++++++----
 pkg/log/log.pb.go | 14 +++++++-------
 pkg/log/log.proto |  4 ++--
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 4874d81..6adc46e 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -1,6 +1,7 @@
 package db
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"net"
@@ -258,11 +259,11 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 	common.Infof("rebuild database by log end, success=%d", success)
 }
 
-func convertArguments(s []string) []protocol.RedisObject {
+func convertArguments(s [][]byte) []protocol.RedisObject {
 	var ret []protocol.RedisObject
 
 	for _, item := range s {
-		obj, err := protocol.Parse(strings.NewReader(item))
+		obj, err := protocol.Parse(bytes.NewReader(item))
 		if err != nil {
 			continue
 		}
diff --git a/pkg/log/log.go b/pkg/log/log.go
index 20ddf23..a8b902b 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -35,19 +35,24 @@ func NewLog(name string, index int, objects []protocol.RedisObject) *VertexLog {
 	vl.Name = name
 	vl.Index = int32(index)
 
-	var arguments []string
+	var arguments [][]byte
 	for _, item := range objects[1:] {
-		arguments = append(arguments, item.String())
+		arguments = append(arguments, item.Byte())
 	}
 
 	vl.Arguments = arguments
-	vl.RawRequest = protocol.NewRedisArray(objects).String()
+	vl.RawRequest = protocol.NewRedisArray(objects).Byte()
 
 	return vl
 }
 
 func FormatLog(vl *VertexLog) string {
-	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(vl.Arguments, ","), strconv.Quote(vl.RawRequest))
+	var arguments []string
+	for _, item := range vl.Arguments {
+		arguments = append(arguments, string(item))
+	}
+
+	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(arguments, ","), strconv.Quote(string(vl.RawRequest)))
 }
 
 // PackLog will package a log into the below form:
diff --git a/pkg/log/log.pb.go b/pkg/log/log.pb.go
index 7f63dc0..1e6c19e 100644
--- a/pkg/log/log.pb.go
+++ b/pkg/log/log.pb.go
@@ -36,8 +36,8 @@ type VertexLog struct {
 	Host       string   `protobuf:"bytes,3,opt,name=host,proto3" json:"host,omitempty"`
 	Name       string   `protobuf:"bytes,4,opt,name=name,proto3" json:"name,omitempty"`
 	Index      int32    `protobuf:"varint,5,opt,name=index,proto3" json:"index,omitempty"`
-	Arguments  []string `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
-	RawRequest string   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
+	Arguments  [][]byte `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
+	RawRequest []byte   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
 }
 
 func (x *VertexLog) Reset() {
@@ -107,18 +107,18 @@ func (x *VertexLog) GetIndex() int32 {
 	return 0
 }
 
-func (x *VertexLog) GetArguments() []string {
+func (x *VertexLog) GetArguments() [][]byte {
 	if x != nil {
 		return x.Arguments
 	}
 	return nil
 }
 
-func (x *VertexLog) GetRawRequest() string {
+func (x *VertexLog) GetRawRequest() []byte {
 	if x != nil {
 		return x.RawRequest
 	}
-	return ""
+	return nil
 }
 
 var File_log_proto protoreflect.FileDescriptor
@@ -133,9 +133,9 @@ var file_log_proto_rawDesc = []byte{
 	0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x14, 0x0a,
 	0x05, 0x69, 0x6e, 0x64, 0x65, 0x78, 0x18, 0x05, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x69, 0x6e,
 	0x64, 0x65, 0x78, 0x12, 0x1c, 0x0a, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x73,
-	0x18, 0x06, 0x20, 0x03, 0x28, 0x09, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
+	0x18, 0x06, 0x20, 0x03, 0x28, 0x0c, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
 	0x73, 0x12, 0x20, 0x0a, 0x0b, 0x72, 0x61, 0x77, 0x5f, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74,
-	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
+	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
 	0x65, 0x73, 0x74, 0x42, 0x22, 0x5a, 0x20, 0x67, 0x69, 0x74, 0x68, 0x75, 0x62, 0x2e, 0x63, 0x6f,
 	0x6d, 0x2f, 0x6c, 0x78, 0x64, 0x6c, 0x61, 0x6d, 0x2f, 0x76, 0x65, 0x72, 0x74, 0x65, 0x78, 0x2f,
 	0x70, 0x6b, 0x67, 0x2f, 0x6c, 0x6f, 0x67, 0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
diff --git a/pkg/log/log.proto b/pkg/log/log.proto
index 1e3bf6d..bd76c0b 100644
--- a/pkg/log/log.proto
+++ b/pkg/log/log.proto
@@ -9,7 +9,7 @@ message VertexLog {
     string host = 3;
     string name = 4;
     int32 index = 5;
-    repeated string arguments = 6; // The arguments are RESP string represent
+    repeated bytes arguments = 6; // The arguments are RESP string represent
 
-    string raw_request = 255;
+    bytes raw_request = 255;
 }
\ No newline at end of file
-- 
2.43.0


From ad99766d74016d9895247a790f3dcbe1c2debb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 18/50] fix: logs written after an incomplete log could never
 be read again

---
 pkg/log/log.go        | 16 +++++++++++++---
 pkg/network/server.go |  9 ++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/log/log.go b/pkg/log/log.go
index a8b902b..f624932 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -83,10 +83,18 @@ func PackLog(vl *VertexLog) ([]byte, error) {
 
 type logReader struct {
 	reader *bufio.Reader
+	// offset is the end of the last complete log
+	offset int64
 }
 
 // ParseLog will parse a log from a io.Reader which can be a file or net stream
 func ParseLog(reader io.Reader) ([]*VertexLog, error) {
+	ret, _, err := ParseLogWithOffset(reader)
+	return ret, err
+}
+
+// ParseLogWithOffset works like ParseLog, and also returns where the last complete log ends
+func ParseLogWithOffset(reader io.Reader) ([]*VertexLog, int64, error) {
 	var ret []*VertexLog
 
 	lr := logReader{
@@ -99,19 +107,19 @@ func ParseLog(reader io.Reader) ([]*VertexLog, error) {
 			if errors.Is(err, io.EOF) {
 				break
 			} else if errors.Is(err, errUnexpectedEOF) {
-				return ret, fmt.Errorf("unexpected eof when parsing log")
+				return ret, lr.offset, fmt.Errorf("unexpected eof when parsing log")
 			} else if errors.Is(err, errInvalidMessage) {
 				// Try parse more
 				continue
 			} else {
-				return nil, fmt.Errorf("unexpected error met. err={%w}", err)
+				return nil, lr.offset, fmt.Errorf("unexpected error met. err={%w}", err)
 			}
 		}
 
 		ret = append(ret, obj)
 	}
 
-	return ret, nil
+	return ret, lr.offset, nil
 }
 
 func (lr *logReader) readBytes(count int) ([]byte, error) {
@@ -140,6 +148,8 @@ func (lr *logReader) readLog() (*VertexLog, error) {
 		return nil, err
 	}
 
+	lr.offset += int64(4 + length)
+
 	v := &VertexLog{}
 
 	if err := proto.Unmarshal(logByte, v); err != nil {
diff --git a/pkg/network/server.go b/pkg/network/server.go
index ee3f5c7..c9b7f33 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -343,13 +343,20 @@ func (s *server) fromFile(file string) {
 
 	s.engine.SetFile(f, file)
 	reader := bufio.NewReader(f)
-	logs, err := log.ParseLog(reader)
+	logs, offset, err := log.ParseLogWithOffset(reader)
 
 	if err != nil {
 		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
 		// May contains incomplete log here, so we not return
 	}
 
+	// Cut the incomplete log off, otherwise the new logs after it can not be parsed
+	if stat, err := f.Stat(); err == nil && stat.Size() > offset {
+		if err := f.Truncate(offset); err != nil {
+			common.Warnf("truncate log failed. file=%s, offset=%d, err=%s", file, offset, err.Error())
+		}
+	}
+
 	if len(logs) > 0 {
 		s.engine.BuildFromLog(logs)
 	}
-- 
2.43.0


From 9b1b09c024a48cfb237a3b8440b3023d58760140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 19/50] fix: the log file could end with a part of a log while
 the server is running

---
 pkg/log/persistent.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/log/persistent.go b/pkg/log/persistent.go
index cbb7353..fa6b8b6 100644
--- a/pkg/log/persistent.go
+++ b/pkg/log/persistent.go
@@ -61,10 +61,18 @@ func (p *PersistentFile) Size() int {
 	return p.writer.Size()
 }
 
+// Write never splits b: when it does not fit in the buffer, the buffer is flushed first. So what a
+// reader of the file sees always ends with a complete b.
 func (p *PersistentFile) Write(b []byte) (int, error) {
 	p.mutex.Lock()
 	defer p.mutex.Unlock()
 
+	if len(b) > p.writer.Available() {
+		if err := p.writer.Flush(); err != nil {
+			return 0, err
+		}
+	}
+
 	return p.writer.Write(b)
 }
 
-- 
2.43.0


From b998e93dd4dd2db423d2be68a3bb75fac952d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 20/50] fix: stopping a server without a replica port or a
 database file crashed it

---
 pkg/db/engine.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 6adc46e..578b969 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -203,8 +203,14 @@ Outer:
 }
 
 func (e *engine) Stop() {
-	e.master.Stop()
-	_ = e.file.Flush()
+	if e.master != nil {
+		e.master.Stop()
+	}
+
+	if e.file != nil {
+		_ = e.file.Flush()
+	}
+
 	close(e.shutChan)
 }
 
-- 
2.43.0


From 9e9f9740133bb5caebd9b44f06c03be157ce113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 21/50] fix: Serve could return before the log is flushed

---
 pkg/network/server.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index c9b7f33..10671fa 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -10,7 +10,6 @@ import (
 	"reflect"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -52,7 +51,7 @@ type server struct {
 	eventBus         concurrency.EventBus
 	sigChan          chan os.Signal
 	shutChan         chan struct{}
-	shutdown         int32
+	stopOnce         sync.Once
 	responseReceiver concurrency.Receiver
 	cleanUpHandles   []func()
 	clients          sync.Map
@@ -65,7 +64,6 @@ func NewServer() Server {
 		tcpListener:      nil,
 		eventBus:         concurrency.GetEventBus(),
 		shutChan:         nil,
-		shutdown:         0,
 		responseReceiver: nil,
 		cleanUpHandles:   nil,
 		clients:          sync.Map{},
@@ -281,7 +279,8 @@ Outer:
 }
 
 func (s *server) stop() {
-	if atomic.CompareAndSwapInt32(&s.shutdown, 0, 1) {
+	// Do also blocks until a stop that is already running has finished
+	s.stopOnce.Do(func() {
 		s.eventBus.RemoveTopic("request")
 		s.eventBus.RemoveTopic("response")
 
@@ -299,7 +298,7 @@ func (s *server) stop() {
 		})
 
 		common.Info("server shutdown")
-	}
+	})
 }
 
 func (s *server) syncExternal(file string, master string) {
-- 
2.43.0


From 913f2866ce4e755018bde5913a3633f904e5cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 22/50] fix: stopping the server left the clients connected

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 10671fa..e95d31a 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -290,7 +290,7 @@ func (s *server) stop() {
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-			c, ok := value.(conn)
+			c, ok := value.(Conn)
 			if ok {
 				_ = c.Close()
 			}
-- 
2.43.0


From e249f884ed22d8094fe221ba74eade7e4710eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 23/50] fix: stopping the server left the replica port open

---
 pkg/replication/master.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3067cae..2cbec77 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -82,8 +82,10 @@ func (m *master) start() {
 
 func (m *master) stop() {
 	if atomic.CompareAndSwapInt32(&m.shutdown, 0, 1) {
+		_ = m.listener.Close()
+
 		m.mutex.Lock()
-		m.mutex.Unlock()
+		defer m.mutex.Unlock()
 
 		for _, conn := range m.conn {
 			_ = conn.Close()
-- 
2.43.0


From f9097786863996bb783889791dcd1e4a904746a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 24/50] fix: a master without a database file let its replicas
 wait forever

---
 pkg/replication/master.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 2cbec77..3ff8ea8 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -94,13 +94,14 @@ func (m *master) stop() {
 }
 
 func (m *master) handleConn(conn net.Conn) {
+	defer func() { _ = conn.Close() }()
+
 	if m.file == nil {
 		_ = common.Errorf("no file provided.")
 		return
 	}
 
 	addr := conn.RemoteAddr().String()
-	defer func() { _ = conn.Close() }()
 
 	m.mutex.Lock()
 	m.conn[addr] = conn
-- 
2.43.0


From 34b5ea1d837864a143c2c757aab331d6d05be98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 25/50] fix: every replica sync leaked a file, and a failed one
 also its connection

---
 pkg/replication/master.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3ff8ea8..73db8d4 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -107,6 +107,12 @@ func (m *master) handleConn(conn net.Conn) {
 	m.conn[addr] = conn
 	m.mutex.Unlock()
 
+	defer func() {
+		m.mutex.Lock()
+		delete(m.conn, addr)
+		m.mutex.Unlock()
+	}()
+
 	filePath := fmt.Sprintf("/tmp/vertex/%s", util.GenNewUUID())
 	tmpFile, err := os.Create(filePath)
 	if err != nil {
@@ -131,6 +137,8 @@ func (m *master) handleConn(conn net.Conn) {
 		return
 	}
 
+	defer func() { _ = rawFile.Close() }()
+
 	n, err := io.Copy(tmpFile, rawFile)
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
@@ -173,10 +181,6 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
 		return
 	}
-
-	m.mutex.Lock()
-	delete(m.conn, addr)
-	m.mutex.Unlock()
 }
 
 func (m *master) Start() {
-- 
2.43.0


From 229b1a45d6e84d899b9c6d3ac5e0deb7701b8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 26/50] fix: one failed accept ended replication for good

---
 pkg/replication/master.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 73db8d4..0211b7f 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -70,7 +70,7 @@ func (m *master) start() {
 					break Outer
 				} else {
 					common.Warnf("tcp listen error. err=%s", err)
-					break
+					continue
 				}
 			}
 
-- 
2.43.0


From 52ef44758cdeb3e0f6653453374e3a7f545ac0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 27/50] fix: Read and Write of a connection closed meanwhile
 blocked forever

---
 pkg/network/conn.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 0c53ebf..087c6e9 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -73,8 +73,20 @@ func NewConnWithExpire(tcpConn net.Conn, expireTime time.Duration) Conn {
 	return c
 }
 
+// resetExpire restarts the expire time, the expire worker does not listen to it after the close
+func (c *conn) resetExpire() error {
+	select {
+	case c.resetChan <- 0:
+		return nil
+	case <-c.closeChan:
+		return ErrConnIsClosed
+	}
+}
+
 func (c *conn) Read() (protocol.RedisObject, error) {
-	c.resetChan <- 0
+	if err := c.resetExpire(); err != nil {
+		return nil, err
+	}
 
 	obj, err := c.reader.ReadObject()
 
@@ -97,7 +109,9 @@ func (c *conn) Write(s string) error {
 		return ErrConnIsClosed
 	}
 
-	c.resetChan <- 0
+	if err := c.resetExpire(); err != nil {
+		return err
+	}
 
 	n, err := c.tcpConn.Write([]byte(s))
 
-- 
2.43.0


From 53a657628b8fdbeb067fc0f9d48053fb29db7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 28/50] fix: closing a connection whose peer does not read
 blocked forever

---
 pkg/network/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 087c6e9..b2e49c8 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -17,6 +17,7 @@ import (
 
 var (
 	defaultExpireTime = 10 * time.Minute
+	closeTimeout      = 100 * time.Millisecond
 	closeMessage      = []byte("TTL expired")
 
 	// ErrConnIsClosed will be raised if do any operation on a closed conn
@@ -126,6 +127,8 @@ func (c *conn) Write(s string) error {
 
 func (c *conn) Close() error {
 	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
+		// The peer may not read anymore, so do not wait for it
+		_ = c.tcpConn.SetWriteDeadline(time.Now().Add(closeTimeout))
 		_, _ = c.tcpConn.Write(closeMessage)
 		// discard all streams
 		_ = c.tcpConn.Close()
-- 
2.43.0


From 1acd5da19130b85fcc79b94781e7dad62c0f9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 29/50] fix: a client that broke the protocol was left
 connected but never answered again

---
 pkg/network/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index e95d31a..f01af22 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -193,6 +193,7 @@ func (s *server) newConn(conn net.Conn) {
 				return
 			} else if err != nil {
 				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
+				_ = c.Close()
 				return
 			}
 
-- 
2.43.0


From 1a447900085af9eac57e622ac92f1230a865af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 30/50] fix: the server kept every client it ever had, and
 could miss one when it stops

---
 pkg/network/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index f01af22..ef6bafd 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -185,7 +185,16 @@ func (s *server) newConn(conn net.Conn) {
 	c := NewConn(conn)
 	s.clients.Store(c.ID(), c)
 
+	select {
+	case <-s.shutChan:
+		// The server is stopped meanwhile and may not have seen this client
+		_ = c.Close()
+	default:
+	}
+
 	go func() {
+		defer s.clients.Delete(c.ID())
+
 		for {
 			request, err := c.Read()
 			if errors.Is(err, ErrConnIsClosed) {
-- 
2.43.0


From 3bc8854bf0178d3fe02f479c1159e2dfc77ca9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 31/50] fix: removing a topic blocked the receivers it waits
 for

---
 pkg/concurrency/event_bus.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/concurrency/event_bus.go b/pkg/concurrency/event_bus.go
index a39aff9..296badf 100644
--- a/pkg/concurrency/event_bus.go
+++ b/pkg/concurrency/event_bus.go
@@ -197,16 +197,16 @@ func (e *eventBus) NewTopic(name string) bool {
 
 func (e *eventBus) RemoveTopic(name string) bool {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
-
 	topic, exist := e.topics[name]
+	delete(e.topics, name)
+	e.mutex.Unlock()
 
 	if !exist {
 		return false
 	}
 
+	// A receiver may need the event bus before it receives again, so notify them without the lock
 	topic.Remove()
-	delete(e.topics, name)
 
 	return true
 }
-- 
2.43.0


From 189e8b388019665c793e0d32912286c7a4e0933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 32/50] fix: pipelined requests could be executed, and their
 replies sent, in another order

---
 pkg/db/engine.go      | 3 ++-
 pkg/network/server.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 578b969..f18b92a 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -197,7 +197,8 @@ Outer:
 				responseMap.Set("response", ret)
 			}
 
-			e.eventBus.Publish("response", responseMap, err)
+			// Wait for the delivery, otherwise the next response may overtake this one
+			_, _ = e.eventBus.Publish("response", responseMap, err).Get()
 		}
 	}
 }
diff --git a/pkg/network/server.go b/pkg/network/server.go
index ef6bafd..49ed7f2 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -210,7 +210,8 @@ func (s *server) newConn(conn net.Conn) {
 			dataMap.Set("id", c.ID())
 			dataMap.Set("request", request)
 
-			concurrency.GetEventBus().Publish("request", dataMap, nil)
+			// Wait for the delivery, otherwise the next request may overtake this one
+			_, _ = concurrency.GetEventBus().Publish("request", dataMap, nil).Get()
 		}
 	}()
 }
-- 
2.43.0


From 77e348670416603337bc059c32472450bb2be322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 33/50] fix: a Receive that was waiting when the channel is
 closed never returned

---
 pkg/concurrency/data_channel.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 7e5d0f8..ca60838 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -56,7 +56,7 @@ type Sender interface {
 
 type receiver struct {
 	dataChannel  <-chan Event
-	closeChannel chan<- struct{}
+	closeChannel chan struct{}
 	closed       int32
 }
 
@@ -117,7 +117,12 @@ func (r *receiver) Receive() (Event, error) {
 		return nil, ErrChannelClosed
 	}
 
-	return <-r.dataChannel, nil
+	select {
+	case <-r.closeChannel:
+		return nil, ErrChannelClosed
+	case event := <-r.dataChannel:
+		return event, nil
+	}
 }
 
 func (r *receiver) Close() {
-- 
2.43.0


From 3dd55d78a471a6b339d2c2ff9473d72aa041145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 34/50] fix: sending to a closed channel could report success

---
 pkg/concurrency/data_channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index ca60838..dec1c06 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -132,6 +132,13 @@ func (r *receiver) Close() {
 }
 
 func (s *sender) Send(event Event) int {
+	// select chooses at random if the closed channel still has some space, so check this first
+	select {
+	case <-s.closeChannel:
+		return Closed
+	default:
+	}
+
 	select {
 	case <-s.closeChannel:
 		return Closed
-- 
2.43.0


From 8409132613dd864e6cef72e50703e6c7fd64cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 35/50] fix: requests and responses were dropped without a
 reply when the server is busy

---
 pkg/db/engine.go      | 13 ++++++++++++-
 pkg/network/server.go |  7 +++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index f18b92a..0ac916f 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -9,6 +9,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/lxdlam/vertex/pkg/replication"
 
@@ -21,6 +22,13 @@ import (
 	"github.com/lxdlam/vertex/pkg/types"
 )
 
+const (
+	requestBufferSize = 100
+
+	// A request that is expired will never get a response, so it just should not happen
+	requestExpireTime = time.Hour
+)
+
 type Engine interface {
 	Start()
 	Stop()
@@ -47,7 +55,7 @@ func NewEngine(port int) Engine {
 	}
 
 	var err error
-	e.requestReceiver, err = e.eventBus.Subscribe("request", "engine")
+	e.requestReceiver, err = e.eventBus.SubscribeWithOptions("request", "engine", requestBufferSize, requestExpireTime)
 	if err != nil {
 		_ = common.Errorf("subscribe to request failed. err={%w}", err)
 		return nil
@@ -143,6 +151,9 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 }
 
 func (e *engine) Start() {
+	// Nobody should wait for the engine when it is stopped
+	defer e.requestReceiver.Close()
+
 	if e.master != nil {
 		e.master.Start()
 	}
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 49ed7f2..9ba4f8b 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -98,8 +98,8 @@ func (s *server) Init(c common.Config) bool {
 	s.eventBus.NewTopic("request")
 	s.eventBus.NewTopic("response")
 
-	// Set buffer size to 100
-	s.responseReceiver, err = s.eventBus.SubscribeWithOptions("response", "server", 100, 10*time.Millisecond)
+	// Set buffer size to 100. A client will wait forever for a response that is expired, so it just should not happen
+	s.responseReceiver, err = s.eventBus.SubscribeWithOptions("response", "server", 100, time.Hour)
 	if err != nil {
 		common.Fatalf("init server in subscribe response channel failed. err=%s", err)
 		return false
@@ -237,6 +237,9 @@ func parseResponse(data types.DataMap) (id string, obj protocol.RedisObject, ok
 }
 
 func (s *server) responseWorker() {
+	// Nobody should wait for the worker when it is stopped
+	defer s.responseReceiver.Close()
+
 Outer:
 	for {
 		select {
-- 
2.43.0


From a1a3e1f9ef1bc730a5238099c9a8d832404d7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 36/50] fix: a client that does not read its replies stalled
 all others

---
 pkg/network/server.go | 50 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 9ba4f8b..5300b4e 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -181,8 +181,49 @@ func (s *server) Stop() {
 	s.stop()
 }
 
+// client queues the responses of a connection, so a peer that does not read can only delay itself
+type client struct {
+	Conn
+
+	mutex   sync.Mutex
+	pending []string
+	writing bool
+}
+
+// send queues the response and returns immediately
+func (c *client) send(response string) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	c.pending = append(c.pending, response)
+	if !c.writing {
+		c.writing = true
+		go c.writePending()
+	}
+}
+
+func (c *client) writePending() {
+	for {
+		c.mutex.Lock()
+		pending := c.pending
+		c.pending = nil
+		c.writing = len(pending) > 0
+		c.mutex.Unlock()
+
+		if len(pending) == 0 {
+			return
+		}
+
+		for _, response := range pending {
+			if err := c.Write(response); err != nil {
+				_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", c.Addr(), response)
+			}
+		}
+	}
+}
+
 func (s *server) newConn(conn net.Conn) {
-	c := NewConn(conn)
+	c := &client{Conn: NewConn(conn)}
 	s.clients.Store(c.ID(), c)
 
 	select {
@@ -278,13 +319,10 @@ Outer:
 				break
 			}
 
-			conn, ok := s.clients.Load(id)
+			c, ok := s.clients.Load(id)
 
 			if ok {
-				if err := conn.(Conn).Write(obj.String()); err != nil {
-					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())
-					break
-				}
+				c.(*client).send(obj.String())
 			} else {
 				_ = common.Errorf("conn not exist. id=%s", id)
 			}
-- 
2.43.0


From 7f303c8a1b314bf96c0fddc54b50368d841e94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 37/50] fix: concurrent cancels of a future panicked, or left
 it both cancelled and fulfilled

---
 pkg/concurrency/future.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/concurrency/future.go b/pkg/concurrency/future.go
index 3210155..0a34451 100644
--- a/pkg/concurrency/future.go
+++ b/pkg/concurrency/future.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync"
 	"time"
 )
 
@@ -46,6 +47,9 @@ type future struct {
 	err        error
 	doneChan   chan struct{}
 	cancelChan chan struct{}
+
+	// mutex ensures that only one of the channels will be closed, and only once
+	mutex sync.Mutex
 }
 
 // NewFuture will start a new future with the given function.
@@ -67,6 +71,10 @@ func NewFuture(task Task) Future {
 func (f *future) start() {
 	go func() {
 		f.result, f.err = f.task.Run()
+
+		f.mutex.Lock()
+		defer f.mutex.Unlock()
+
 		select {
 		// Already cancelled, leaves the doneChan open
 		case <-f.cancelChan:
@@ -78,6 +86,9 @@ func (f *future) start() {
 }
 
 func (f *future) Cancel() error {
+	f.mutex.Lock()
+	defer f.mutex.Unlock()
+
 	select {
 	case <-f.doneChan:
 		return ErrFulfilled
-- 
2.43.0


From 9caa41c038ca510ea360be92966ffde9e9b18e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 38/50] fix: publishing could remove a subscriber that had just
 subscribed again

---
 pkg/concurrency/topic.go | 43 ++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index cdc0622..ae6c6a5 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -40,20 +40,30 @@ func NewTopic(name string) Topic {
 type topic struct {
 	name        string
 	subscribers sync.Map
+
+	// mutex protects a subscriber that subscribes again from being removed with its closed predecessor
+	mutex sync.Mutex
 }
 
 func (t *topic) Subscribe(name string) Receiver {
 	r, s := NewDataChannel()
-	t.subscribers.Store(name, s)
+	t.store(name, s)
 	return r
 }
 
 func (t *topic) SubscribeWithOptions(name string, size int, duration time.Duration) Receiver {
 	r, s := NewDataChannelWithOption(size, duration)
-	t.subscribers.Store(name, s)
+	t.store(name, s)
 	return r
 }
 
+func (t *topic) store(name string, s Sender) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	t.subscribers.Store(name, s)
+}
+
 func (t *topic) Publish(e Event) (fut Future) {
 	ch := make(chan int32, 1)
 
@@ -75,18 +85,11 @@ func (t *topic) Remove() {
 }
 
 func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
-	var closedKeys []string
+	closed := make(map[string]Sender)
+	var closedMutex sync.Mutex
 	var wg sync.WaitGroup
 	var successCount int32
 
-	ch := make(chan string)
-
-	go func() {
-		for key := range ch {
-			closedKeys = append(closedKeys, key)
-		}
-	}()
-
 	t.subscribers.Range(func(k interface{}, s interface{}) bool {
 		wg.Add(1)
 
@@ -96,7 +99,9 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 		go func() {
 			status := subscriber.Send(e)
 			if status == Closed {
-				ch <- name
+				closedMutex.Lock()
+				closed[name] = subscriber
+				closedMutex.Unlock()
 			} else if status == Expired {
 				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
 			} else {
@@ -111,13 +116,17 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 
 	wg.Wait()
 	successChan <- successCount
-	close(ch)
 
-	go t.batchRemove(closedKeys)
+	go t.batchRemove(closed)
 }
 
-func (t *topic) batchRemove(removeKeys []string) {
-	for _, name := range removeKeys {
-		t.subscribers.Delete(name)
+func (t *topic) batchRemove(closed map[string]Sender) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	for name, subscriber := range closed {
+		if current, ok := t.subscribers.Load(name); ok && current == subscriber {
+			t.subscribers.Delete(name)
+		}
 	}
 }
-- 
2.43.0


From 7b90a28df9e4b99bc8befdedecdbaae0f67f167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 39/50] fix: concurrent changes of one key of a sync data map
 broke its length

---
 pkg/types/data_map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/types/data_map.go b/pkg/types/data_map.go
index fa2726e..328a9b7 100644
--- a/pkg/types/data_map.go
+++ b/pkg/types/data_map.go
@@ -108,6 +108,9 @@ func (ldm *lockedDataMap) Len() int {
 type syncDataMap struct {
 	container sync.Map
 	size      int32
+
+	// mutex makes the check of the key and the change of the size one step
+	mutex sync.Mutex
 }
 
 // NewSyncDataMap returns a new syncDataMap instance
@@ -118,6 +121,9 @@ func NewSyncDataMap() *syncDataMap {
 // Set will do insert and size increment
 // It will do a check if the key is exist to determine if we need to increase the size
 func (sdm *syncDataMap) Set(key string, value interface{}) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if !sdm.Has(key) {
 		atomic.AddInt32(&sdm.size, 1)
 	}
@@ -139,6 +145,9 @@ func (sdm *syncDataMap) Has(key string) bool {
 // Remove will first check if the key is exist
 // Then do remove works, it requires one more read overhead
 func (sdm *syncDataMap) Remove(key string) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if sdm.Has(key) {
 		sdm.container.Delete(key)
 		atomic.AddInt32(&sdm.size, -1)
-- 
2.43.0


From f197518a82923bb40c105449685d65ae97e8089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 40/50] fix: HGET, HEXISTS, HSTRLEN and SISMEMBER rejected the
 empty field or member

HSET, SADD and HMGET accept it, so it could be stored but not be asked for.
---
 pkg/command/hash.go | 15 ---------------
 pkg/command/set.go  |  5 -----
 2 files changed, 20 deletions(-)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index a4de328..5503545 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -230,11 +230,6 @@ func (h *hgetCommand) Execute() {
 		return
 	}
 
-	if h.field == "" {
-		h.err = ErrArgumentInvalid
-		return
-	}
-
 	ret := h.accessObject.(container.HashContainer).Get([]*container.StringContainer{container.NewString(h.field)})
 
 	if len(ret) != 1 || ret[0] == nil {
@@ -440,11 +435,6 @@ func (h *hexistsCommand) Execute() {
 		return
 	}
 
-	if h.field == "" {
-		h.err = ErrArgumentInvalid
-		return
-	}
-
 	if h.accessObject.(container.HashContainer).Exists(container.NewString(h.field)) {
 		h.result = protocol.NewRedisInteger(1)
 	} else {
@@ -867,11 +857,6 @@ func (h *hstrlenCommand) Execute() {
 		return
 	}
 
-	if h.field == "" {
-		h.err = ErrArgumentInvalid
-		return
-	}
-
 	ret := h.accessObject.(container.HashContainer).Get([]*container.StringContainer{container.NewString(h.field)})
 
 	if len(ret) != 1 || ret[0] == nil {
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 641fc3d..4e987cb 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -385,11 +385,6 @@ func (s *sismemberCommand) Execute() {
 		return
 	}
 
-	if s.value == "" {
-		s.err = ErrArgumentInvalid
-		return
-	}
-
 	if s.accessObject.(container.SetContainer).IsMember(container.NewString(s.value)) {
 		s.result = protocol.NewRedisInteger(1)
 	} else {
-- 
2.43.0


From 05f520e813210903c9f505d1d4599fe3d4561908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 41/50] fix: a reply could be written after the close message
 of a connection

---
 pkg/network/conn.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index b2e49c8..c795a35 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -42,6 +43,7 @@ type conn struct {
 	tcpConn    net.Conn
 	expireTime time.Duration
 	closed     int32
+	writeMutex sync.Mutex // nothing is written after the close message
 	reader     protocol.RESPReader
 	resetChan  chan byte
 	closeChan  chan struct{}
@@ -114,6 +116,13 @@ func (c *conn) Write(s string) error {
 		return err
 	}
 
+	c.writeMutex.Lock()
+	defer c.writeMutex.Unlock()
+
+	if c.IsClosed() {
+		return ErrConnIsClosed
+	}
+
 	n, err := c.tcpConn.Write([]byte(s))
 
 	if err != nil {
@@ -129,7 +138,9 @@ func (c *conn) Close() error {
 	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
 		// The peer may not read anymore, so do not wait for it
 		_ = c.tcpConn.SetWriteDeadline(time.Now().Add(closeTimeout))
+		c.writeMutex.Lock()
 		_, _ = c.tcpConn.Write(closeMessage)
+		c.writeMutex.Unlock()
 		// discard all streams
 		_ = c.tcpConn.Close()
 		close(c.closeChan)
-- 
2.43.0


From 5fa8e11d1c5b301b9f927a3b035694877ad8decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 42/50] fix: a signal that arrived right after the start of a
 server could be lost

---
 pkg/network/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 5300b4e..ec10543 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -118,7 +118,8 @@ func (s *server) Init(c common.Config) bool {
 	s.syncExternal(c.DatabaseFile, c.MasterAddress)
 
 	s.shutChan = make(chan struct{})
-	s.sigChan = make(chan os.Signal)
+	// A signal that comes before somebody waits for it must not be lost
+	s.sigChan = make(chan os.Signal, 1)
 	signal.Notify(s.sigChan, syscall.SIGINT, syscall.SIGABRT, syscall.SIGTERM, syscall.SIGKILL)
 
 	go func() {
-- 
2.43.0


From c9082f80c24ca87626b55479c11693cf35c9d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 43/50] fix: a replica got a torn log when the master was
 writing a record

---
 pkg/log/persistent.go     | 18 ++++++++++++++++++
 pkg/replication/master.go |  4 ++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/log/persistent.go b/pkg/log/persistent.go
index fa6b8b6..82e2d3e 100644
--- a/pkg/log/persistent.go
+++ b/pkg/log/persistent.go
@@ -49,6 +49,24 @@ func (p *PersistentFile) Flush() error {
 	return p.writer.Flush()
 }
 
+// FlushSize flushes, and returns the size the file has then. Another write may be halfway done
+// when the file is read later, but everything up to that size is complete.
+func (p *PersistentFile) FlushSize() (int64, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+
+	if err := p.writer.Flush(); err != nil {
+		return 0, err
+	}
+
+	stat, err := p.file.Stat()
+	if err != nil {
+		return 0, err
+	}
+
+	return stat.Size(), nil
+}
+
 // ReadFrom do what?
 // Not to proxy it here.
 
diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 0211b7f..33abf93 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -125,7 +125,7 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = os.Remove(filePath)
 	}()
 
-	err = m.file.Flush()
+	size, err := m.file.FlushSize()
 	if err != nil {
 		_ = common.Errorf("save to file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
@@ -139,7 +139,7 @@ func (m *master) handleConn(conn net.Conn) {
 
 	defer func() { _ = rawFile.Close() }()
 
-	n, err := io.Copy(tmpFile, rawFile)
+	n, err := io.CopyN(tmpFile, rawFile, size)
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
-- 
2.43.0


From a54a1601967e08fc490818fae8ba6cc6a87f4b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 44/50] fix: an event could be sent after a Close of its data
 channel had returned

---
 pkg/concurrency/data_channel.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index dec1c06..caca0ec 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -58,6 +59,7 @@ type receiver struct {
 	dataChannel  <-chan Event
 	closeChannel chan struct{}
 	closed       int32
+	closeOnce    sync.Once
 }
 
 type sender struct {
@@ -126,9 +128,11 @@ func (r *receiver) Receive() (Event, error) {
 }
 
 func (r *receiver) Close() {
-	if atomic.CompareAndSwapInt32(&r.closed, 0, 1) {
+	// A concurrent Close also waits until the sender can see it
+	r.closeOnce.Do(func() {
+		atomic.StoreInt32(&r.closed, 1)
 		close(r.closeChannel)
-	}
+	})
 }
 
 func (s *sender) Send(event Event) int {
-- 
2.43.0


From 0d52a9f9913f43defc30552f7139507557ce5ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 45/50] fix: the client dropped an empty quoted word from the
 request

---
 cmd/client/internal/codec.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index ed126fc..6805f05 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -16,7 +16,7 @@ func FormatInput(input string) (string, error) {
 	reader := bufio.NewReader(strings.NewReader(input))
 
 	for {
-		s, err := parseString(reader)
+		s, quoted, err := parseString(reader)
 
 		if err != nil {
 			if errors.Is(err, io.EOF) {
@@ -29,7 +29,7 @@ func FormatInput(input string) (string, error) {
 			}
 		}
 
-		if s != "" {
+		if s != "" || quoted {
 			arr = append(arr, protocol.NewBulkRedisString(s))
 		}
 	}
@@ -37,19 +37,21 @@ func FormatInput(input string) (string, error) {
 	return protocol.NewRedisArray(arr).String(), nil
 }
 
-func parseString(reader *bufio.Reader) (string, error) {
+// parseString reads a word and tells if it is a quoted one, which may be empty
+func parseString(reader *bufio.Reader) (string, bool, error) {
 	var buf bytes.Buffer
 	for {
 		b, e := reader.ReadByte()
 		if e != nil {
 			if errors.Is(e, io.EOF) {
-				return buf.String(), e
+				return buf.String(), false, e
 			}
-			return "", e
+			return "", false, e
 		}
 
 		if b == '"' {
-			return parseQuote(reader)
+			s, err := parseQuote(reader)
+			return s, true, err
 		} else if b == ' ' {
 			break
 		}
@@ -57,7 +59,7 @@ func parseString(reader *bufio.Reader) (string, error) {
 		buf.WriteByte(b)
 	}
 
-	return buf.String(), nil
+	return buf.String(), false, nil
 }
 
 func parseQuote(reader *bufio.Reader) (string, error) {
-- 
2.43.0


From b751bc0fb6797e53276e1a3ba3da2558da369cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 46/50] fix: the client printed nothing for an empty array

---
 cmd/client/internal/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index 6805f05..2bf512f 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -114,7 +114,7 @@ func formatInteger(obj protocol.RedisInteger) string {
 }
 
 func formatArray(obj protocol.RedisArray) string {
-	if obj.String() == protocol.NullArrayLiteral {
+	if obj.String() == protocol.NullArrayLiteral || len(obj.Data()) == 0 {
 		return "(empty list or set)"
 	}
 
-- 
2.43.0


From 5f882f486dedc3618f476163cf9fd8896ba4df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 47/50] fix: an input line of more than 64 KiB ended the client

---
 cmd/client/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/client/main.go b/cmd/client/main.go
index d199918..86aea59 100644
--- a/cmd/client/main.go
+++ b/cmd/client/main.go
@@ -13,8 +13,12 @@ import (
 
 const prompt = ">>> "
 
+// maxLine is the size of the longest input line
+const maxLine = 1 << 30
+
 func main() {
 	scanner := bufio.NewScanner(os.Stdin)
+	scanner.Buffer(nil, maxLine)
 
 	c, err := net.Dial("tcp", "127.0.0.1:6789")
 	if err != nil {
-- 
2.43.0


From 6fda20a937ef0cbe113e4aafe5b6c3ffa24655b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 48/50] fix: a log file cut within a length was read without an
 error

---
 pkg/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 3bc988b..95ca2bd 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -106,7 +106,7 @@ func ReadExactBytes(reader io.ByteReader, count int) ([]byte, error) {
 	for idx := 0; idx < count; idx++ {
 		b, err := reader.ReadByte()
 		if err != nil {
-			return nil, err
+			return ret, err
 		}
 
 		ret = append(ret, b)
-- 
2.43.0


From dd9d336771d685e9066161f155f75a10a8c1a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 49/50] fix: a stopped server left its signal goroutine behind

---
 pkg/network/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index ec10543..a6c757f 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -123,8 +123,11 @@ func (s *server) Init(c common.Config) bool {
 	signal.Notify(s.sigChan, syscall.SIGINT, syscall.SIGABRT, syscall.SIGTERM, syscall.SIGKILL)
 
 	go func() {
-		<-s.sigChan
-		s.stop()
+		select {
+		case <-s.sigChan:
+			s.stop()
+		case <-s.shutChan:
+		}
 	}()
 
 	return true
-- 
2.43.0


From 7a285875be918423c156be1163e8c0bae634a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 50/50] fix: a stopped server left its database file open

---
 pkg/db/engine.go      |  2 +-
 pkg/log/persistent.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 0ac916f..9192e4c 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -220,7 +220,7 @@ func (e *engine) Stop() {
 	}
 
 	if e.file != nil {
-		_ = e.file.Flush()
+		_ = e.file.Close()
 	}
 
 	close(e.shutChan)
diff --git a/pkg/log/persistent.go b/pkg/log/persistent.go
index 82e2d3e..453a5cc 100644
--- a/pkg/log/persistent.go
+++ b/pkg/log/persistent.go
@@ -49,6 +49,19 @@ func (p *PersistentFile) Flush() error {
 	return p.writer.Flush()
 }
 
+// Close flushes and closes the file. Nothing can be written afterwards.
+func (p *PersistentFile) Close() error {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+
+	err := p.writer.Flush()
+	if closeErr := p.file.Close(); err == nil {
+		err = closeErr
+	}
+
+	return err
+}
+
 // FlushSize flushes, and returns the size the file has then. Another write may be halfway done
 // when the file is read later, but everything up to that size is complete.
 func (p *PersistentFile) FlushSize() (int64, error) {
-- 
2.43.0

