package zzprim

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/pkg/log"
)

func init() {
	drivers["file"] = bufFile
	scripted["file"] = bufFileScript
}

// testFile is a buffered file of which every piece that is written has bytes of its own
type testFile struct {
	r     *rec
	f     *os.File
	path  string
	old   int
	p     *log.PersistentFile
	piece int
}

func newTestFile(r *rec, old int) *testFile {
	path := filepath.Join(os.TempDir(), fmt.Sprintf("zzprim-file-%d", os.Getpid()))
	if err := os.WriteFile(path, make([]byte, old), 0600); err != nil {
		panic(err)
	}
	f, err := os.OpenFile(path, os.O_APPEND|os.O_WRONLY, 0600)
	if err != nil {
		panic(err)
	}
	t := &testFile{r: r, f: f, path: path, old: old, p: log.NewPersistentFile(f)}
	r.cfg = fmt.Sprintf(`"old":%d,"size":%d,`, old, t.p.Size())
	return t
}

func (t *testFile) op(op string, n int) {
	t.r.mutex.Lock()
	t.piece++
	p := t.piece%255 + 1
	t.r.mutex.Unlock()
	if op == "read" {
		t.read()
		return
	}
	data := strings.Repeat(string([]byte{byte(p)}), n)
	id := t.r.call(op, fmt.Sprintf(`,"p":%d,"n":%d`, p, n))
	res, err := t.do(op, data)
	text := ""
	if err != nil {
		res, text = -1, err.Error()
	}
	t.r.add(fmt.Sprintf(`"k":"ret","id":%d,"r":%d,"err":%s`, id, res, jstr(text)))
}

func (t *testFile) do(op, data string) (res int64, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	n := 0
	switch op {
	case "write":
		n, err = t.p.Write([]byte(data))
	case "text":
		n, err = t.p.WriteString(data)
	case "byte":
		err = t.p.WriteByte(data[0])
	case "flush":
		err = t.p.Flush()
	case "flushsize":
		return t.p.FlushSize()
	case "size":
		n = t.p.Size()
	case "buffered":
		n = t.p.Buffered()
	case "available":
		n = t.p.Available()
	}
	return int64(n), err
}

// read records what is in the file now. Meanwhile no call begins or ends.
func (t *testFile) read() {
	t.r.mutex.Lock()
	defer t.r.mutex.Unlock()
	b, err := os.ReadFile(t.path)
	if err != nil {
		panic(err)
	}
	var runs []string
	if len(b) < t.old {
		runs = append(runs, `{"p":999,"n":1}`)
		b = nil
	} else {
		b = b[t.old:]
	}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		runs = append(runs, fmt.Sprintf(`{"p":%d,"n":%d}`, b[i], j-i))
		i = j
	}
	t.r.put(fmt.Sprintf(`"k":"read","runs":[%s]`, strings.Join(runs, ",")))
}

func (t *testFile) end() {
	t.op("flush", 0)
	t.read()
	t.r.end("")
	_ = t.f.Close()
	_ = os.Remove(t.path)
}

func (t *testFile) random(plain bool) {
	ops := []string{"write", "write", "write", "write", "write", "flush", "flushsize", "buffered", "available", "read", "size", "read", "text", "byte"}
	if plain {
		ops = ops[:12]
	}
	n := 1
	op := ops[t.r.intn(len(ops))]
	if op == "write" || op == "text" {
		n = []int{0, 1, 2, 10, 100, 1000, 2047, 2048, 4000, 4095, 4096, 4097, 5000, 8192, 9000}[t.r.intn(15)]
	} else if op != "byte" {
		n = 0
	}
	t.op(op, n)
}

func bufFile(r *rec) {
	t := newTestFile(r, []int{0, 0, 1, 100, 5000}[r.intn(5)])
	threads, steps := 2+r.intn(3), 8
	if r.one(4) {
		threads, steps = 1, 60
	}
	plain := !r.one(4)
	for g := 0; g < threads; g++ {
		r.spawn(func() {
			for k := 2 + r.intn(steps); k > 0; k-- {
				if threads > 1 && r.one(8) {
					r.think(1)
				}
				t.random(plain)
			}
		})
	}
	r.wg.Wait()
	t.end()
}

// bufFileScript: calls such as "write:3", in thousands of bytes, one after the other or concurrent
func bufFileScript(r *rec, steps []string) {
	t := newTestFile(r, 0)
	unit := []int{1, 682, 1024, 1365, 1366}[r.intn(5)]
	for _, s := range steps {
		p := strings.Split(s, ":")
		n, _ := strconv.Atoi(p[1])
		if p[0] == "byte" {
			n = 1
		} else {
			n *= unit
		}
		r.spawn(func() { t.op(p[0], n) })
		if r.one(2) {
			r.wg.Wait()
		}
	}
	r.wg.Wait()
	t.end()
}
