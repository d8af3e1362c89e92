package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"strconv"
	"strings"

	suriya "github.com/splendidmoons/suriya-go"

	"verifsim/simos"
	"verifsim/simrt"
)

// ---- operations on the file store, shared by C08 to C11 ----

// sum identifies content.
func sum(b []byte) string {
	return strconv.Itoa(len(b)) + ":" + strconv.FormatUint(simrt.HashString(string(b)), 16)
}

func errText(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, os.ErrNotExist):
		return "err:notexist"
	case err == io.EOF:
		return "err:EOF"
	}
	return "err:" + err.Error()
}

type fileTask struct {
	h     [2]http.File
	stale [2]http.File // closed
	name  [2]string
	bufs  [3][]byte
}

// must runs a must-variant and turns its panic into a result.
func must(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok {
				s = errText(err)
				if s == "" {
					s = "err:panic"
				}
			} else {
				s = "err:panic " + fmt.Sprint(r)
			}
		}
	}()
	return f()
}

// storeDo performs a store operation; local selects the local-disk mode.
func (f *fileTask) storeDo(op Op, local bool) string {
	name := op.S
	slot := op.arg(0)
	res := func(b []byte, err error) string {
		if err != nil {
			return errText(err)
		}
		return sum(b)
	}
	switch op.K {
	case "bytes":
		return res(suriya.FSByte(local, name))
	case "str":
		s, err := suriya.FSString(local, name)
		return res([]byte(s), err)
	case "mbytes":
		return must(func() string { return sum(suriya.FSMustByte(local, name)) })
	case "mstr":
		return must(func() string { return sum([]byte(suriya.FSMustString(local, name))) })
	case "open", "dopen":
		if f.h[slot] != nil {
			f.h[slot].Close()
			f.stale[slot] = f.h[slot]
			f.h[slot] = nil
		}
		var h http.File
		var err error
		if op.K == "dopen" {
			i := splitAt(name, op.arg(1))
			h, err = suriya.Dir(local, name[:i]).Open(name[i:])
		} else {
			h, err = suriya.FS(local).Open(name)
		}
		if err != nil {
			return errText(err)
		}
		f.h[slot], f.name[slot] = h, name
		return "open"
	case "read":
		if f.h[slot] == nil {
			return "nohandle"
		}
		b := make([]byte, op.arg(1))
		n, err := f.h[slot].Read(b)
		if n < 0 || n > len(b) {
			return "bad count " + strconv.Itoa(n)
		}
		return strconv.Itoa(n) + " " + sum(b[:n]) + " " + errText(err)
	case "readall":
		if f.h[slot] == nil {
			return "nohandle"
		}
		b, err := io.ReadAll(f.h[slot])
		return strconv.Itoa(len(b)) + " " + sum(b) + " " + errText(err)
	case "seek":
		if f.h[slot] == nil {
			return "nohandle"
		}
		p, err := f.h[slot].Seek(op.A[1], op.arg(2))
		if err != nil {
			return "err"
		}
		return strconv.FormatInt(p, 10)
	case "stat":
		if f.h[slot] == nil {
			return "nohandle"
		}
		fi, err := f.h[slot].Stat()
		if err != nil {
			return errText(err)
		}
		return fmt.Sprint(fi.Name(), " ", fi.Size(), " ", fi.IsDir())
	case "close":
		if f.h[slot] == nil {
			return "nohandle"
		}
		err := f.h[slot].Close()
		f.stale[slot] = f.h[slot]
		f.h[slot] = nil
		return "closed " + errText(err)
	case "stale": // what a closed handle answers is open, that it disturbs no other is not
		if h := f.stale[slot]; h != nil {
			must(func() string {
				switch op.arg(1) {
				case 0:
					h.Close()
				case 1:
					h.Read(make([]byte, 64))
				case 2:
					h.Seek(op.A[2], 0)
				}
				return ""
			})
		}
		return "stale"
	case "http":
		req := httptest.NewRequest("GET", name, nil)
		if len(op.A) > 2 {
			req.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", op.A[1], op.A[2]))
		}
		w := httptest.NewRecorder()
		http.FileServer(suriya.FS(local)).ServeHTTP(w, req)
		cl := w.Header().Get("Content-Length")
		return fmt.Sprint(w.Code, " ", cl, " ", sum(w.Body.Bytes()), " ", w.Body.Len())
	case "many": // many handles at the same time
		var hs []http.File
		defer func() {
			for _, h := range hs {
				h.Close()
			}
		}()
		for i := 0; i < op.arg(1); i++ {
			h, err := suriya.FS(local).Open(name)
			if err != nil {
				return errText(err)
			}
			hs = append(hs, h)
		}
		all := ""
		for i := 0; i < len(hs); i += 1 + len(hs)/7 {
			b, err := io.ReadAll(hs[i])
			if err != nil {
				return errText(err)
			}
			if s := sum(b); s != all && all != "" {
				return "one handle reads " + s + ", another " + all
			} else {
				all = s
			}
		}
		return all
	case "get": // keep the bytes
		b, err := suriya.FSByte(local, name)
		if err != nil {
			return errText(err)
		}
		f.bufs[slot] = b
		return sum(b)
	case "mget":
		return must(func() string { f.bufs[slot] = suriya.FSMustByte(local, name); return sum(f.bufs[slot]) })
	case "scribble": // overwrite part of one's own copy
		b := f.bufs[slot]
		for i := op.arg(1); i < op.arg(2) && i < len(b); i++ {
			b[i] = byte(op.arg(3) + i)
			if i%64 == 0 {
				simrt.Y(0)
			}
		}
		return "ok"
	case "grow": // use the spare capacity of one's own copy
		if f.bufs[slot] == nil {
			return "ok"
		}
		for i := 0; i < op.arg(1); i++ {
			f.bufs[slot] = append(f.bufs[slot], byte(op.arg(2)+i))
		}
		return "ok"
	case "look":
		return sum(f.bufs[slot])
	}
	return "?" + op.K
}

// splitAt is where a name divides into the prefix of a directory and the rest.
func splitAt(name string, k int) int {
	var l []int
	for i := range name {
		if name[i] == '/' {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return 0
	}
	return l[k%len(l)]
}

// handle model
type hModel struct {
	open bool
	data []byte // what it reads
	off  int64
	file string
	dir  bool
}

// storeWant judges one operation against the content the store must have.
// ref gives the content and whether the name exists; lax accepts failures.
func storeWant(m *[2]hModel, op Op, got string, ref func(name string) ([]byte, bool), lax bool) string {
	slot := op.arg(0)
	failed := strings.HasPrefix(got, "err")
	name := path.Clean(op.S)
	switch op.K {
	case "bytes", "str", "mbytes", "mstr", "get", "mget", "many":
		b, ok := ref(name)
		if !ok {
			if got != "err:notexist" {
				return fmt.Sprintf("%s: got %q for a name that does not exist", op.S, got)
			}
			return ""
		}
		if got == sum(b) {
			return ""
		}
		if failed && lax {
			return ""
		}
		return fmt.Sprintf("%s: got content %s, the file is %s", op.S, got, sum(b))
	case "open", "dopen":
		m[slot] = hModel{}
		b, ok := ref(name)
		isDir := name == "/" || name == "/data" || name == "/data/astro"
		if !ok && !isDir {
			if got != "err:notexist" {
				return fmt.Sprintf("open %s: got %q for a name that does not exist", op.S, got)
			}
			return ""
		}
		if failed && lax {
			return ""
		}
		if got != "open" {
			return fmt.Sprintf("open %s: %s", op.S, got)
		}
		m[slot] = hModel{open: true, data: b, file: name, dir: isDir}
		return ""
	}
	h := &m[slot]
	switch op.K {
	case "stale":
		return ""
	case "read", "readall":
		if !h.open {
			return differ(got, "nohandle")
		}
		if h.dir {
			return ""
		}
		p := strings.SplitN(got, " ", 3)
		n, _ := strconv.Atoi(p[0])
		rest := []byte{}
		if h.off < int64(len(h.data)) {
			rest = h.data[h.off:]
		}
		if n > len(rest) || n < 0 {
			return fmt.Sprintf("read %d bytes of %s where %d are left", n, h.file, len(rest))
		}
		if p[1] != sum(rest[:n]) {
			return fmt.Sprintf("read %d bytes at %d of %s: wrong bytes", n, h.off, h.file)
		}
		h.off += int64(n)
		bad := p[2] != "" && p[2] != "err:EOF"
		if bad {
			if lax {
				return ""
			}
			return fmt.Sprintf("read of %s: %s", h.file, p[2])
		}
		if op.K == "readall" && n != len(rest) || p[2] == "err:EOF" && n != len(rest) {
			return fmt.Sprintf("%s ends after %d bytes, %d are left", h.file, n, len(rest)-n)
		}
		if op.K == "read" && op.arg(1) > 0 && n == 0 && p[2] == "" {
			return fmt.Sprintf("read of %s returned nothing and no error", h.file)
		}
		return ""
	case "seek":
		if !h.open {
			return differ(got, "nohandle")
		}
		if h.dir {
			return ""
		}
		to := op.A[1]
		switch op.arg(2) {
		case 1:
			to += h.off
		case 2:
			to += int64(len(h.data))
		}
		if to < 0 {
			return differ(got, "err")
		}
		if d := differ(got, strconv.FormatInt(to, 10)); d != "" {
			return d
		}
		h.off = to
		return ""
	case "stat":
		if !h.open {
			return differ(got, "nohandle")
		}
		if failed && lax {
			return ""
		}
		if h.dir {
			if !strings.HasSuffix(got, " true") {
				return fmt.Sprintf("stat of the directory %s: %q", h.file, got)
			}
			return ""
		}
		return differ(got, fmt.Sprint(path.Base(h.file), " ", len(h.data), " false"))
	case "close":
		if !h.open {
			return differ(got, "nohandle")
		}
		h.open = false
		if got != "closed " && !lax {
			return got
		}
		return ""
	case "http":
		p := strings.Split(got, " ")
		b, ok := ref(name)
		if !ok {
			if p[0] != "404" {
				return fmt.Sprintf("GET %s: status %s for a name that does not exist", op.S, p[0])
			}
			return ""
		}
		switch {
		case p[0] == "200" && p[1] == p[3]:
			if p[2] != sum(b) {
				return fmt.Sprintf("GET %s: content %s, the file is %s", op.S, p[2], sum(b))
			}
			return ""
		case p[0] == "206" && p[1] == p[3] && len(op.A) > 2:
			lo, hi := op.arg(1), op.arg(2)+1
			if hi > len(b) {
				hi = len(b)
			}
			if lo > hi || p[2] != sum(b[lo:hi]) {
				return fmt.Sprintf("GET %s bytes %d-%d: wrong content", op.S, lo, hi-1)
			}
			return ""
		case p[0] == "416" && len(op.A) > 2 && (op.arg(1) >= len(b) || op.arg(2) < op.arg(1)):
			return ""
		}
		if lax && (p[0] >= "400" || p[1] != p[3]) {
			return "" // an error status, or a body cut short of its announced length
		}
		return fmt.Sprintf("GET %s: status %s, length %s, got %s bytes", op.S, p[0], p[1], p[3])
	}
	return "?" + op.K
}

// spell writes a name in another legal way.
func spell(r *simrt.Rand, key string) string {
	if r.Intn(3) > 0 {
		return key
	}
	b := path.Base(key)
	return pick(r, []string{"/data//astro/" + b, "/data/./astro/" + b, "/data/astro/../astro/" + b, "//data/astro/" + b,
		"/data/astro/" + b + "/.", "/data/astro/" + b + "/", "/x/../data/astro/" + b, "/data/astro/" + b + "/y/..", "/../data/astro/" + b})
}

func badName(r *simrt.Rand) string {
	return pick(r, []string{"/data/astro/astro-1899.json", "/data/astro/astro-2041.json", "/data/astro/nope", "data/astro/astro-1999.json", "/astro-1999.json",
		"/data/astro/astro-1999.json.bak", "/Data/astro/astro-1999.json", "/data/astro/astro-1999", "/data/astro/astro-19990.json", "/etc/passwd", "/data/astro/../../data"}[:10])
}

func storeOps(r *simrt.Rand, files []*dataFile, n int, c *Case) []Op {
	var l []Op
	key := func() string { return pick(r, files).Key }
	for i := 0; i < n; i++ {
		k := int64(r.Intn(2))
		switch x := r.Intn(24); {
		case x < 3:
			l = append(l, Op{K: "bytes", S: spell(r, key())})
		case x < 5:
			l = append(l, Op{K: "str", S: spell(r, key())})
		case x < 6:
			l = append(l, Op{K: "mbytes", S: key()})
		case x < 7:
			l = append(l, Op{K: "mstr", S: key()})
		case x < 8:
			l = append(l, Op{K: pick(r, []string{"bytes", "str", "mbytes", "mstr", "open", "http"}), A: []int64{k}, S: badName(r)})
			if o := &l[len(l)-1]; o.K == "http" && !strings.HasPrefix(o.S, "/") {
				o.S = "/" + o.S + "x"
			}
		case x < 10:
			o := Op{K: "http", A: []int64{k}, S: key()}
			if oneIn(r, 2) {
				lo := r.Intn(5000)
				o.A = append(o.A, int64(lo), int64(lo+r.Intn(3000)))
			}
			l = append(l, o)
		case x < 11:
			n := key()
			if oneIn(r, 3) {
				n = pick(r, []string{"/x/" + path.Base(n), "/data/x/" + path.Base(n), "/data/astro/x/" + path.Base(n), n + "/x", "/data/" + path.Base(n), "/astro/" + path.Base(n), "/data/data/astro/" + path.Base(n), "/data/astro", "/data", "/data//astro//" + path.Base(n)})
			}
			l = append(l, Op{K: "dopen", A: []int64{k, int64(r.Intn(4))}, S: n}, Op{K: "stat", A: []int64{k}})
		case x < 12:
			l = append(l, Op{K: "open", A: []int64{k}, S: pick(r, []string{"/", "/data", "/data/astro"})}, Op{K: "stat", A: []int64{k}})
		case x < 14:
			l = append(l, Op{K: "open", A: []int64{k}, S: spell(r, key())}, Op{K: "stat", A: []int64{k}})
		case x < 18:
			if oneIn(r, 2) {
				l = append(l, Op{K: "open", A: []int64{k}, S: spell(r, key())})
			}
			l = append(l, Op{K: "read", A: []int64{k, int64(pick(r, []int{0, 1, 7, 100, 512, 4096, 60000}))}})
		case x < 20:
			l = append(l, Op{K: "readall", A: []int64{k}})
		case x < 22:
			w := r.Intn(3)
			o := int64(r.Intn(30000))
			if w != 0 {
				o = int64(r.Range(-3000, 3000))
			}
			l = append(l, Op{K: "seek", A: []int64{k, o, int64(w)}})
		case x < 23:
			l = append(l, Op{K: "close", A: []int64{k}})
			if oneIn(r, 8) {
				l = append(l, Op{K: "many", A: []int64{k, int64(pick(r, []int{3, 9, 17, 40, 70, 140, 300}))}, S: key()})
			}
		default:
			l = append(l, Op{K: "close", A: []int64{k}}, Op{K: "stale", A: []int64{k, int64(r.Intn(3)), int64(r.Intn(3000))}},
				Op{K: "open", A: []int64{k}, S: key()}, Op{K: "open", A: []int64{1 - k}, S: key()},
				Op{K: "stale", A: []int64{k, int64(r.Intn(3)), int64(r.Intn(3000))}}, Op{K: "read", A: []int64{1 - k, 100}})
		}
	}
	return l
}

// someFiles picks the files of a run; a sweep makes sure each has its turn.
func someFiles(r *simrt.Rand, c *Case, n int) []*dataFile {
	fs := []*dataFile{dataFiles[c.Index%len(dataFiles)]}
	for len(fs) < n {
		fs = append(fs, pick(r, dataFiles))
	}
	return fs
}

func embedded(name string) ([]byte, bool) {
	f := dataByKey[name]
	if f == nil {
		return nil, false
	}
	return f.Data, true
}

// ---- C08, C09 ----

type storeDrv struct {
	Base
	t   []*fileTask
	m   [][2]hModel
	lax func(name string) bool
}

func (d *storeDrv) Begin(e *Env) {
	n := 0
	for _, ph := range e.C.Phases {
		if len(ph.Tasks) > n {
			n = len(ph.Tasks)
		}
	}
	for i := 0; i < n; i++ {
		d.t = append(d.t, &fileTask{})
	}
	d.m = make([][2]hModel, n)
	d.lax = func(name string) bool {
		for _, x := range e.C.Damage {
			if x.Key == name {
				return true
			}
		}
		return false
	}
}

func (d *storeDrv) Restarted(e *Env) {
	d.t, d.m = nil, nil
	d.Begin(e)
}

func (d *storeDrv) Do(e *Env, t int, op Op) string { return d.t[t].storeDo(op, false) }

func (d *storeDrv) Check(e *Env, t int, op Op, got string) string {
	name := path.Clean(op.S)
	if op.S == "" {
		name = d.m[t][op.arg(0)].file
	}
	return storeWant(&d.m[t], op, got, embedded, d.lax(name))
}

func (d *storeDrv) EndPhase(e *Env) string {
	if e.World.Ops > 0 {
		return "embedded mode performed " + strconv.Itoa(e.World.Ops) + " disk operations: " + strings.Join(e.World.Log, ", ")
	}
	return ""
}

func genC08(r *simrt.Rand, c *Case) {
	nt := 2 + r.Intn(4)
	fs := someFiles(r, c, 1+r.Intn(3))
	for p := 1 + r.Intn(2); p > 0; p-- {
		ph := &Phase{Plan: genPlan(r, nt), Clock: smallClock(r), Aux: r.Uint64()}
		for t := 0; t < nt; t++ {
			ph.Tasks = append(ph.Tasks, storeOps(r, fs, 1+r.Intn(7), c))
		}
		c.Phases = append(c.Phases, ph)
	}
}

func genDamage(r *simrt.Rand, f *dataFile) Damage {
	d := Damage{Key: f.Key, Kind: pick(r, []string{"flip", "flip", "flip", "noise", "junk", "cut", "cut", "drop", "dup", "zero", "empty"}), Pos: int64(r.Intn(1 << 20)), Len: int64(1 + r.Intn(40)), Val: int64(r.Intn(1 << 20))}
	switch r.Intn(4) {
	case 0: // header, where the first decode already fails
		d.Pos = int64(r.Intn(16))
	case 1: // trailer: length and checksum
		d.Pos = int64(len(f.Data)) * 1000 // reduced modulo the length; far from the start
	}
	return d
}

func genC09(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(4)
	fs := someFiles(r, c, 1+r.Intn(3))
	for i := 0; i < 1+r.Intn(len(fs)); i++ {
		c.Damage = append(c.Damage, genDamage(r, fs[i]))
		if oneIn(r, 5) {
			c.Damage = append(c.Damage, genDamage(r, fs[i]))
		}
	}
	for p := 1 + r.Intn(3); p > 0; p-- {
		ph := &Phase{Plan: genPlan(r, nt), Clock: smallClock(r), Aux: r.Uint64(), Restart: len(c.Phases) > 0 && oneIn(r, 3)}
		for t := 0; t < nt; t++ {
			ph.Tasks = append(ph.Tasks, storeOps(r, fs, 1+r.Intn(7), c))
		}
		c.Phases = append(c.Phases, ph)
	}
}

// ---- C10: local mode on a failing disk ----

type localDrv struct {
	Base
	t []*fileTask
	m [][2]hModel
}

func (d *localDrv) Begin(e *Env) {
	n := 0
	for _, ph := range e.C.Phases {
		if len(ph.Tasks) > n {
			n = len(ph.Tasks)
		}
	}
	for i := 0; i <= n; i++ {
		d.t = append(d.t, &fileTask{})
	}
	d.m = make([][2]hModel, n+1)
}

func (d *localDrv) Restarted(e *Env) { d.t, d.m = nil, nil; d.Begin(e) }

// version makes the nth content of a file: nothing like the embedded one.
func version(name string, v int) []byte {
	r := simrt.NewRand(simrt.Mix(simrt.HashString(name), uint64(v)))
	n := r.Intn(9000)
	switch {
	case v%5 == 4:
		n = 0
	case r.Intn(6) == 0: // as long as the embedded one, or a little longer
		if f := dataByKey[name]; f != nil {
			n = len(f.Data) + r.Intn(2)*r.Intn(300)
		}
	case r.Intn(12) == 0:
		n = pick(r, []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 70_000, 140_000})
	case r.Intn(150) == 0:
		n = 1<<20 + r.Intn(100_000)
	}
	b := make([]byte, n)
	r.Bytes(b)
	return b
}

func (d *localDrv) Do(e *Env, t int, op Op) string {
	w := e.World
	switch op.K {
	case "put":
		f := "/work" + op.S
		w.Files[f] = &simos.Node{Data: version(op.S, op.arg(0)), Mode: 0o644}
		return "ok"
	case "rm":
		delete(w.Files, "/work"+op.S)
		return "ok"
	}
	ft := d.t[len(d.t)-1]
	if t >= 0 {
		ft = d.t[t]
	}
	if op.K == "emb" { // embedded mode beside it
		k := me()
		before := w.OpsBy[k]
		got := ft.storeDo(Op{K: op.Sub(), A: op.A, S: op.name()}, false)
		if w.OpsBy[k] != before {
			return "embedded mode touched the disk"
		}
		return got
	}
	k := me()
	f0, o0 := w.FiredBy[k], w.OpenBy[k]
	open := func() (n int) {
		for i := range ft.h {
			if ft.h[i] != nil {
				n++
			}
		}
		return
	}
	n0 := open()
	got := ft.storeDo(op, true)
	if w.OpenBy[k]-o0 != open()-n0 {
		return fmt.Sprintf("leak %d file handles left open by the call (result %s)", w.OpenBy[k]-o0-(open()-n0), got)
	}
	if w.FiredBy[k] != f0 {
		return "fault " + got
	}
	return got
}

// Sub and name split the text of an "emb" operation: "bytes /data/...".
func (o Op) Sub() string  { s, _, _ := strings.Cut(o.S, " "); return s }
func (o Op) name() string { _, s, _ := strings.Cut(o.S, " "); return s }

func me() int {
	if t := simrt.Cur(); t != nil {
		return t.ID & 63
	}
	return 63
}

func (d *localDrv) Check(e *Env, t int, op Op, got string) string {
	if op.K == "put" || op.K == "rm" {
		return ""
	}
	if strings.HasPrefix(got, "leak ") {
		return "leak! " + got
	}
	if strings.HasPrefix(got, "embedded mode touched") {
		return got
	}
	if op.K == "emb" {
		o := Op{K: op.Sub(), A: op.A, S: op.name()}
		var m [2]hModel
		lax := false
		for _, x := range e.C.Damage {
			lax = lax || x.Key == path.Clean(o.S)
		}
		return storeWant(&m, o, got, embedded, lax)
	}
	got, hit := strings.CutPrefix(got, "fault ")
	i := t
	if t < 0 {
		i = len(d.m) - 1
	}
	ref := func(name string) ([]byte, bool) {
		if dataByKey[name] == nil {
			return nil, false
		}
		n := e.World.Files["/work"+name]
		if n == nil {
			return nil, false
		}
		return n.Data, true
	}
	if hit && strings.HasPrefix(got, "err") && (op.K == "open" || op.K == "dopen") {
		d.m[i][op.arg(0)] = hModel{}
		return ""
	}
	if hit && op.K == "http" && len(got) > 3 && (got[0] == '4' || got[0] == '5') {
		return "" // the server reports an unreadable file as it sees fit
	}
	if hit && strings.HasPrefix(got, "err") {
		return ""
	}
	return storeWant(&d.m[i], op, got, ref, hit)
}

func (d *localDrv) EndPhase(e *Env) string { return "" }

func genC10(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(3)
	fs := someFiles(r, c, 1+r.Intn(3))
	np := 1 + r.Intn(4)
	ver := 0
	for p := 0; p < np; p++ {
		ph := &Phase{Plan: genPlan(r, nt), Clock: smallClock(r), Aux: r.Uint64(), Restart: p > 0 && oneIn(r, 4)}
		for _, f := range fs {
			if p == 0 || oneIn(r, 2) {
				if oneIn(r, 6) {
					ph.Set = append(ph.Set, Op{K: "rm", S: f.Key})
				} else {
					ph.Set = append(ph.Set, Op{K: "put", A: []int64{int64(ver)}, S: f.Key})
					ver++
				}
			}
		}
		for t := 0; t < nt; t++ {
			var l []Op
			if p > 0 { // a handle keeps reading the file it opened: close before content changes
				l = append(l, Op{K: "close", A: []int64{0}}, Op{K: "close", A: []int64{1}})
			}
			for _, o := range storeOps(r, fs, 1+r.Intn(6), c) {
				if (o.K == "open" || o.K == "dopen") && dataByKey[path.Clean(o.S)] == nil {
					continue // directories of the real disk are not modelled
				}
				l = append(l, o)
				if oneIn(r, 6) {
					f := pick(r, fs)
					l = append(l, Op{K: "emb", A: []int64{0, 2}, S: pick(r, []string{"bytes ", "str ", "mbytes ", "mstr ", "http ", "many "}) + f.Key})
				}
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		c.Phases = append(c.Phases, ph)
	}
	if oneIn(r, 2) {
		c.MaxChunk = pick(r, []int{1, 3, 100, 511, 512, 513, 4096})
	}
	if r.Intn(4) > 0 {
		for i := 1 + r.Intn(4); i > 0; i-- {
			f := &simos.Fault{Op: pick(r, []string{"open", "open", "read", "read", "read", "close", "stat"}), Nth: 1 + r.Intn(6), Err: pick(r, []string{"EIO", "EACCES", "EMFILE", "EINTR", "EIO", "ENOENT", "ETIMEDOUT", "ESTALE", "EAGAIN"})}
			if f.Op != "open" && (f.Err == "EACCES" || f.Err == "EMFILE" || f.Err == "ENOENT") {
				f.Err = "EIO"
			}
			if oneIn(r, 2) {
				f.Path = path.Base(pick(r, fs).Key)
			}
			if f.Op == "read" && oneIn(r, 2) {
				f.Nth = 1 + r.Intn(30)
			}
			if oneIn(r, 5) { // a bad spot, often just behind what the embedded file holds
				d := pick(r, fs)
				f.Op, f.Path, f.Err, f.Nth, f.At = "readat", path.Base(d.Key), pick(r, []string{"EIO", "EINTR", "ETIMEDOUT", "ESTALE"}), pick(r, []int{1, 1, 2, 100}), int64(len(d.Data))
				if oneIn(r, 2) {
					f.At = int64(pick(r, []int{0, 1, 512, 4096, r.Intn(9000)}))
				}
			}
			c.Faults = append(c.Faults, f)
		}
	}
	if oneIn(r, 4) { // a damaged embedded record is no reason to look at the disk
		for i := 1 + r.Intn(2); i > 0; i-- {
			c.Damage = append(c.Damage, genDamage(r, pick(r, fs)))
		}
	}
}

// ---- C11: returned bytes belong to the caller ----

type privDrv struct {
	storeDrv
	own [][3][]byte
}

func (d *privDrv) Begin(e *Env) {
	d.storeDrv.Begin(e)
	d.own = make([][3][]byte, len(d.t))
}

func (d *privDrv) Check(e *Env, t int, op Op, got string) string {
	b := &d.own[t][op.arg(0)%3]
	switch op.K {
	case "get", "mget":
		if s := storeWant(&d.m[t], op, got, embedded, false); s != "" {
			return s
		}
		ref, ok := embedded(path.Clean(op.S))
		if ok {
			*b = bytes.Clone(ref)
		}
		return ""
	case "scribble":
		for i := op.arg(1); i < op.arg(2) && i < len(*b); i++ {
			(*b)[i] = byte(op.arg(3) + i)
		}
		return ""
	case "grow":
		if *b == nil {
			return ""
		}
		for i := 0; i < op.arg(1); i++ {
			*b = append(*b, byte(op.arg(2)+i))
		}
		return ""
	case "look":
		if got != sum(*b) {
			return fmt.Sprintf("the caller's own copy changed under it: %s, it wrote %s", got, sum(*b))
		}
		return ""
	}
	return d.storeDrv.Check(e, t, op, got)
}

func genC11(r *simrt.Rand, c *Case) {
	nt := 2 + r.Intn(3)
	fs := someFiles(r, c, 1+r.Intn(2))
	for p := 1 + r.Intn(2); p > 0; p-- {
		ph := &Phase{Plan: genPlan(r, nt), Clock: smallClock(r), Aux: r.Uint64()}
		for t := 0; t < nt; t++ {
			var l []Op
			for i := 2 + r.Intn(7); i > 0; i-- {
				k := int64(r.Intn(3))
				f := pick(r, fs)
				switch x := r.Intn(12); {
				case x < 4:
					l = append(l, Op{K: pick(r, []string{"get", "get", "mget"}), A: []int64{k}, S: spell(r, f.Key)})
				case x < 7:
					lo := r.Intn(len(f.Data))
					l = append(l, Op{K: "scribble", A: []int64{k, int64(lo), int64(lo + 1 + r.Intn(300)), int64(r.Intn(256))}})
				case x < 8:
					l = append(l, Op{K: "grow", A: []int64{k, int64(1 + r.Intn(40)), int64(r.Intn(256))}})
				case x < 10:
					l = append(l, Op{K: "look", A: []int64{k}})
				default:
					l = append(l, storeOps(r, fs, 1, c)...)
				}
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		c.Phases = append(c.Phases, ph)
	}
}

func init() {
	register(&Prop{"C08", genC08, func() Driver { return &storeDrv{} }})
	register(&Prop{"C09", genC09, func() Driver { return &storeDrv{} }})
	register(&Prop{"C10", genC10, func() Driver { return &localDrv{} }})
	register(&Prop{"C11", genC11, func() Driver { return &privDrv{} }})
}
