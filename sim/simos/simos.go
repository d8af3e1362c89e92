// Package simos is the simulated operating system: a disk, the standard
// streams, the environment and process exit, with injected faults.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Fault fires at the Nth (from 1) matching operation of the run.
type Fault struct {
	Op    string `json:"op"`             // open, read, write, close, stat, rename, remove; readat: reads from At on fail, Nth times
	Path  string `json:"path,omitempty"` // base name, or "" for any
	Nth   int    `json:"nth"`
	Err   string `json:"err"`             // ENOSPC, EIO, EACCES, EMFILE, ENOENT, EINTR, SHORT, FLIP, TRUNC
	Short int    `json:"short,omitempty"` // bytes that still went through
	At    int64  `json:"at,omitempty"`
	Fired int    `json:"-"`
}

type Node struct {
	Data []byte
	Mode fs.FileMode
	Dir  bool
	Bad  bool // a close or sync after writing to it failed
}

// World is the disk and the fault plan of one run; processes share it.
type World struct {
	Files    map[string]*Node
	Faults   []*Fault
	seen     map[string]int
	Open     map[string]int // open handles per path
	OpenN    int
	Log      []string
	Ops      int
	OpsBy    [64]int // operations per task
	FiredBy  [64]int // faults that hit each task
	OpenBy   [64]int // handles opened minus closed, per task
	MaxChunk int     // reads return at most this many bytes (0: no limit)
	PWrite   int     // writes are split by the kernel at this size (never visible: os.File loops)
	KillOp   int     // kill the process at this disk operation
	Torn     int     // bytes of the killed write that reached the disk
}

func NewWorld() *World {
	return &World{Files: map[string]*Node{}, seen: map[string]int{}, Open: map[string]int{}}
}

type std struct{ out, err *File }

// W is the world of the run in progress.
var W = NewWorld()

// In-memory state is touched by one task at a time; the lock edges of the real
// kernel are not modelled, so tasks sharing a handle race as they would.

var errs = map[string]error{
	"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "EINTR": syscall.EINTR, "EPERM": syscall.EPERM, "EPIPE": syscall.EPIPE,
	"ETIMEDOUT": syscall.ETIMEDOUT, "ESTALE": syscall.ESTALE, "EAGAIN": syscall.EAGAIN,
}

// step counts an operation and returns the fault that fires on it.
func (w *World) step(op, p string) *Fault {
	w.Ops++
	w.OpsBy[me()]++
	w.Log = append(w.Log, op+" "+path.Base(p))
	if w.KillOp > 0 && w.Ops == w.KillOp && op != "write" {
		kill()
	}
	w.seen[op+"|"]++
	w.seen[op+"|"+path.Base(p)]++
	for _, f := range w.Faults {
		if f.Op != op {
			continue
		}
		key := op + "|"
		if f.Path != "" {
			if f.Path != path.Base(p) {
				continue
			}
			key += f.Path
		}
		if w.seen[key] == f.Nth {
			f.Fired++
			w.FiredBy[me()]++
			simrt.Count("disk:" + op + ":" + f.Err)
			w.Log = append(w.Log, fmt.Sprintf("fault %s %d", f.Err, f.Short))
			return f
		}
	}
	return nil
}

// me is the slot of the running task.
func me() int {
	if t := simrt.Cur(); t != nil {
		return t.ID & 63
	}
	return 63
}

func kill() {
	if p := simrt.CurProc(); p != nil {
		p.Dead, p.How, p.Code = true, "killed", 137
		simrt.Count("kill-in-io")
		simrt.Y(0)
	}
}

func abs(p string) string {
	if !path.IsAbs(p) {
		d := "/work"
		if pr := simrt.CurProc(); pr != nil && pr.Dir != "" {
			d = pr.Dir
		}
		p = path.Join(d, p)
	}
	return path.Clean(p)
}

// dead reports that the calling process no longer exists, so that its
// deferred calls have no effect.
func dead() bool {
	p := simrt.CurProc()
	return p != nil && p.Dead
}

// File is an open file. It satisfies http.File.
type File struct {
	name   string
	node   *Node
	off    int64
	flag   int
	closed bool
	std    string // "stdout", "stderr"
	world  *World
	dirOff int
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if dead() {
		return nil, os.ErrClosed
	}
	simrt.Y(0)
	w := W
	p := abs(name)
	if f := w.step("open", p); f != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errs[f.Err]}
	}
	n := w.Files[p]
	if n == nil && w.isDir(p) {
		n = dirNode()
	}
	switch {
	case n == nil && flag&os.O_CREATE == 0:
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	case n == nil:
		n = &Node{Mode: perm}
		w.Files[p] = n
	case flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL:
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	case n.Dir && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0:
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EISDIR}
	}
	if flag&os.O_TRUNC != 0 {
		n.Data, n.Bad = nil, false
	}
	w.Open[p]++
	w.OpenN++
	w.OpenBy[me()]++
	return &File{name: name, node: n, flag: flag, world: w}, nil
}

// isDir tells whether p is a directory: one the process starts with, or one
// that holds a file.
func (w *World) isDir(p string) bool {
	switch p {
	case "/", "/tmp", "/work", "/work/sub", "/work/data", "/work/data/astro", "/home/sim", "/srv", "/srv/cal", abs("."):
		return true
	}
	for q := range w.Files {
		if strings.HasPrefix(q, p+"/") {
			return true
		}
	}
	return false
}

func dirNode() *Node { return &Node{Dir: true, Mode: fs.ModeDir | 0o755} }

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func NewFile(fd uintptr, name string) *File {
	if fd == 2 {
		return Stderr
	}
	return Stdout
}

// Stdout and Stderr stand for the streams of the running process.
var (
	Stdout = &File{name: "/dev/stdout", std: "stdout"}
	Stderr = &File{name: "/dev/stderr", std: "stderr"}
)

// streamNode is where the running process's stream goes.
func (f *File) streamNode() *Node {
	w := W
	nm := "host"
	if p := simrt.CurProc(); p != nil {
		nm = p.Name
	}
	k := "/proc/" + nm + "/" + f.std
	n := w.Files[k]
	if n == nil {
		n = &Node{}
		w.Files[k] = n
	}
	return n
}

// Stream returns what the named process wrote to a stream.
func (w *World) Stream(proc, stream string) []byte {
	if n := w.Files["/proc/"+proc+"/"+stream]; n != nil {
		return n.Data
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if dead() || f == nil {
		return 0, os.ErrClosed
	}
	simrt.Y(0)
	if f.closed {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: os.ErrClosed}
	}
	if f.std == "" && f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	w, n := W, f.node
	if f.std != "" {
		n = f.streamNode()
	} else {
		w = f.world
	}
	if w.KillOp > 0 && w.Ops+1 == w.KillOp {
		t := w.Torn
		if t > len(b) {
			t = len(b)
		}
		f.put(n, b[:t])
		w.Ops++
		kill()
	}
	if ft := w.step("write", f.name); ft != nil {
		k := ft.Short
		if k > len(b) {
			k = len(b)
		}
		f.put(n, b[:k])
		if f.std != "" && ft.Err == "EPIPE" { // the reader is gone: SIGPIPE ends the process
			if p := simrt.CurProc(); p != nil {
				p.Dead, p.How, p.Code = true, "sigpipe", 141
				simrt.Y(0)
			}
		}
		return k, &fs.PathError{Op: "write", Path: f.name, Err: errs[ft.Err]}
	}
	f.put(n, b)
	return len(b), nil
}

func (f *File) put(n *Node, b []byte) {
	if f.std != "" || f.flag&os.O_APPEND != 0 {
		n.Data = append(n.Data, b...)
		return
	}
	end := int(f.off) + len(b)
	for len(n.Data) < end {
		n.Data = append(n.Data, 0)
	}
	copy(n.Data[f.off:], b)
	f.off = int64(end)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if dead() || f == nil {
		return 0, os.ErrClosed
	}
	simrt.Y(0)
	if f.closed {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	if f.std != "" {
		return 0, io.EOF
	}
	if f.node.Dir {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EISDIR}
	}
	w := f.world
	ft := w.step("read", f.name)
	if ft != nil && ft.Err != "SHORT" {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: errs[ft.Err]}
	}
	if f.off >= int64(len(f.node.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	m := len(b)
	for _, x := range w.Faults { // a bad spot on the disk
		if x.Op != "readat" || x.Fired >= x.Nth || x.Path != "" && x.Path != path.Base(f.name) {
			continue
		}
		if f.off >= x.At {
			x.Fired++
			w.FiredBy[me()]++
			simrt.Count("disk:readat:" + x.Err)
			w.Log = append(w.Log, "fault "+x.Err)
			return 0, &fs.PathError{Op: "read", Path: f.name, Err: errs[x.Err]}
		}
		if int64(m) > x.At-f.off {
			m = int(x.At - f.off)
		}
	}
	if w.MaxChunk > 0 && m > w.MaxChunk {
		m = w.MaxChunk
	}
	if ft != nil && m > 1+ft.Short {
		m = 1 + ft.Short
	}
	k := copy(b[:m], f.node.Data[f.off:])
	f.off += int64(k)
	return k, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if dead() || f == nil {
		return 0, os.ErrClosed
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	g := *f // pread does not move the position
	g.off = off
	n := 0
	for n < len(b) {
		k, err := g.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	old := f.off
	f.off = off
	n, err := f.Write(b)
	f.off = old
	return n, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	fi, err := f.Readdir(n)
	var out []fs.DirEntry
	for _, i := range fi {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	fi, err := f.Readdir(n)
	var out []string
	for _, i := range fi {
		out = append(out, i.Name())
	}
	return out, err
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Chown(int, int) error             { return nil }
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) Chdir() error                     { return Chdir(f.name) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, os.ErrClosed
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.off = off
	return off, nil
}

func (f *File) Close() error {
	if dead() || f == nil {
		return os.ErrInvalid
	}
	if f.std != "" {
		if ft := W.step("close", f.name); ft != nil {
			f.streamNode().Bad = true
			return &fs.PathError{Op: "close", Path: f.name, Err: errs[ft.Err]}
		}
		return nil
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	simrt.Y(0)
	f.closed = true
	w := f.world
	w.Open[abs(f.name)]--
	w.OpenN--
	w.OpenBy[me()]--
	if ft := w.step("close", f.name); ft != nil {
		// a delayed write error surfaces here: the tail never reached the disk
		if f.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			f.node.Bad = true
			if k := ft.Short; k < len(f.node.Data) {
				f.node.Data = f.node.Data[:k]
			}
		}
		return &fs.PathError{Op: "close", Path: f.name, Err: errs[ft.Err]}
	}
	return nil
}

func (f *File) Sync() error {
	if dead() {
		return os.ErrClosed
	}
	p := f.name
	if ft := W.step("sync", p); ft != nil {
		if f.std != "" {
			f.streamNode().Bad = true
		} else if f.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			f.node.Bad = true
			if k := ft.Short; k < len(f.node.Data) {
				f.node.Data = f.node.Data[:k]
			}
		}
		return &fs.PathError{Op: "sync", Path: p, Err: errs[ft.Err]}
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	switch f.std {
	case "stdout":
		return 1
	case "stderr":
		return 2
	}
	return 3
}
func (f *File) Truncate(n int64) error {
	return f.node.resize(n)
}

func (nd *Node) resize(n int64) error {
	if n < 0 {
		return syscall.EINVAL
	}
	for int64(len(nd.Data)) < n {
		nd.Data = append(nd.Data, 0)
	}
	nd.Data = nd.Data[:n:n]
	return nil
}
func (f *File) Chmod(fs.FileMode) error { return nil }

type info struct {
	name string
	n    *Node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode {
	return i.n.Mode
}
func (i info) ModTime() time.Time { return time.Unix(1e9, 0) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() interface{}   { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.std != "" {
		return info{f.name, f.streamNode()}, nil
	}
	if ft := f.world.step("stat", f.name); ft != nil {
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: errs[ft.Err]}
	}
	return info{path.Base(f.name), f.node}, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if !f.node.Dir {
		return nil, &fs.PathError{Op: "readdirent", Path: f.name, Err: syscall.ENOTDIR}
	}
	var out []fs.FileInfo
	p := abs(f.name)
	for q, nd := range f.world.Files {
		if path.Dir(q) == p {
			out = append(out, info{path.Base(q), nd})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	out = out[f.dirOff:]
	if n > 0 {
		if len(out) == 0 {
			return nil, io.EOF
		}
		if len(out) > n {
			out = out[:n]
		}
	}
	f.dirOff += len(out)
	return out, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (fs.FileInfo, error) {
	p := abs(name)
	if ft := W.step("stat", p); ft != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: errs[ft.Err]}
	}
	if n := W.Files[p]; n != nil {
		return info{path.Base(p), n}, nil
	}
	if W.isDir(p) {
		return info{path.Base(p), dirNode()}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
}

func Remove(name string) error {
	if dead() {
		return os.ErrClosed
	}
	p := abs(name)
	if ft := W.step("remove", p); ft != nil {
		return &fs.PathError{Op: "remove", Path: name, Err: errs[ft.Err]}
	}
	if W.Files[p] == nil {
		return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	delete(W.Files, p)
	return nil
}

func Rename(a, b string) error {
	if dead() {
		return os.ErrClosed
	}
	simrt.Y(0)
	pa, pb := abs(a), abs(b)
	if ft := W.step("rename", pb); ft != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: errs[ft.Err]}
	}
	n := W.Files[pa]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(W.Files, pa)
	W.Files[pb] = n
	return nil
}

func Truncate(name string, n int64) error {
	nd := W.Files[abs(name)]
	if nd == nil {
		return &fs.PathError{Op: "truncate", Path: name, Err: syscall.ENOENT}
	}
	return nd.resize(n)
}

func Mkdir(string, fs.FileMode) error { return nil }
func Chmod(string, fs.FileMode) error { return nil }
func Getwd() (string, error)          { return abs("."), nil }
func Hostname() (string, error)       { return fmt.Sprintf("host%d", simrt.AuxUint64()%1000), nil }
func Getpid() int                     { return int(simrt.AuxUint64()%30000) + 2 }
func TempDir() string                 { return "/tmp" }
func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fi, err := f.Readdir(-1)
	var out []fs.DirEntry
	for _, i := range fi {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, err
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	r := fmt.Sprint(simrt.AuxUint64() % 1e9)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pattern = pattern[:i] + r + pattern[i+1:]
	} else {
		pattern += r
	}
	return OpenFile(path.Join(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return path.Join(dir, strings.TrimSuffix(pattern, "*")+fmt.Sprint(simrt.AuxUint64()%1e9)), nil
}

func RemoveAll(name string) error {
	if dead() {
		return os.ErrClosed
	}
	p := abs(name)
	if ft := W.step("remove", p); ft != nil {
		return &fs.PathError{Op: "unlinkat", Path: name, Err: errs[ft.Err]}
	}
	for q := range W.Files {
		if q == p || strings.HasPrefix(q, p+"/") || p == "/" {
			delete(W.Files, q)
		}
	}
	return nil
}

func Link(a, b string) error {
	if dead() {
		return os.ErrClosed
	}
	simrt.Y(0)
	pa, pb := abs(a), abs(b)
	if ft := W.step("rename", pb); ft != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: errs[ft.Err]}
	}
	n := W.Files[pa]
	if n == nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if W.Files[pb] != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	W.Files[pb] = n
	return nil
}

func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM} // a file system without them
}
func Chtimes(string, time.Time, time.Time) error { return nil }
func Chown(string, int, int) error               { return nil }
func Readlink(name string) (string, error) {
	return "", &fs.PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func Executable() (string, error) { return "/usr/bin/suriya", nil }
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

// dirFS is os.DirFS on the simulated disk.
type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }
func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: os.ErrInvalid}
	}
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

// HTTPDir is http.Dir on the simulated disk.
type HTTPDir string

func (d HTTPDir) Open(name string) (http.File, error) {
	dir := string(d)
	if dir == "" {
		dir = "."
	}
	f, err := Open(path.Join(dir, path.Clean("/"+name)))
	if err != nil {
		return nil, err
	}
	return f, nil
}

// ---- path/filepath ----

func Abs(p string) (string, error)          { return abs(p), nil }
func EvalSymlinks(p string) (string, error) { _, err := Stat(p); return path.Clean(p), err }

func Glob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	var out []string
	for q := range W.Files {
		if ok, _ := path.Match(abs(pattern), q); ok {
			if !path.IsAbs(pattern) {
				q = strings.TrimPrefix(q, strings.TrimSuffix(abs("."), "/")+"/")
			}
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return fs.WalkDir(DirFS(root), ".", func(p string, d fs.DirEntry, err error) error {
		return fn(path.Join(root, p), d, err)
	})
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, ierr := d.Info()
		if err == nil {
			err = ierr
		}
		return fn(p, i, err)
	})
}

func UserHomeDir() (string, error) { return "/home/sim", nil }
func Chdir(name string) error {
	if p := simrt.CurProc(); p != nil {
		p.Dir = abs(name)
	}
	return nil
}

// RandReader stands for the system's source of randomness.
var RandReader io.Reader = randReader{}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.AuxUint64())
	}
	return len(b), nil
}

func RandRead(b []byte) (int, error) { return RandReader.Read(b) }

// ---- process ----

// Exit ends the simulated process.
func Exit(code int) {
	p := simrt.CurProc()
	if p == nil {
		panic(fmt.Sprintf("os.Exit(%d) called by library code", code))
	}
	if !p.Dead {
		p.Dead, p.How, p.Code = true, "exit", code
	}
	for {
		simrt.Y(0)
	}
}

func Args() []string {
	if p := simrt.CurProc(); p != nil {
		return p.Args
	}
	return []string{"host"}
}

var HostEnv map[string]string

func LookupEnv(k string) (string, bool) {
	simrt.Count("env-read")
	if p := simrt.CurProc(); p != nil && p.Env != nil {
		v, ok := p.Env[k]
		return v, ok
	}
	v, ok := HostEnv[k]
	if !ok {
		v, ok = HostEnv["*"] // whatever it asks for
	}
	return v, ok
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func Setenv(k, v string) error { HostEnv[k] = v; return nil }

func Unsetenv(k string) error { delete(HostEnv, k); return nil }
func Clearenv() {
	for k := range HostEnv {
		delete(HostEnv, k)
	}
}
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Environ() []string {
	var out []string
	for k, v := range HostEnv {
		if k == "*" {
			continue
		}
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

// ---- fmt and log on the simulated streams ----

func Printf(f string, a ...interface{}) (int, error) {
	return Stdout.Write([]byte(fmt.Sprintf(f, a...)))
}
func Println(a ...interface{}) (int, error) { return Stdout.Write([]byte(fmt.Sprintln(a...))) }
func Print(a ...interface{}) (int, error)   { return Stdout.Write([]byte(fmt.Sprint(a...))) }

// Logger stands for log.Logger: its fatal calls end the simulated process, and
// it leaves the time stamp out, which is not part of any property.
type Logger struct {
	w      io.Writer
	prefix string
	flag   int
}

// std0 is the standard logger of the running process.
func std0() *Logger {
	if p := simrt.CurProc(); p != nil {
		if p.Log == nil {
			p.Log = &Logger{w: Stderr, flag: log.LstdFlags}
		}
		return p.Log.(*Logger)
	}
	return &Logger{w: Stderr, flag: log.LstdFlags}
}

func LogNew(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix, flag} }
func LogDefault() *Logger                                 { return std0() }
func LogWriter() io.Writer                                { return std0().w }
func LogSetOutput(w io.Writer)                            { std0().w = w }
func LogSetPrefix(p string)                               { std0().prefix = p }
func LogPrefix() string                                   { return std0().prefix }
func LogSetFlags(f int)                                   { std0().flag = f }
func LogFlags() int                                       { return std0().flag }

func (l *Logger) line(s string) {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	l.w.Write([]byte(l.prefix + s))
}
func (l *Logger) SetOutput(w io.Writer)             { l.w = w }
func (l *Logger) Writer() io.Writer                 { return l.w }
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) Prefix() string                    { return l.prefix }
func (l *Logger) SetFlags(f int)                    { l.flag = f }
func (l *Logger) Flags() int                        { return l.flag }
func (l *Logger) Output(_ int, s string) error      { l.line(s); return nil }
func (l *Logger) Print(a ...interface{})            { l.line(fmt.Sprint(a...)) }
func (l *Logger) Printf(f string, a ...interface{}) { l.line(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...interface{})          { l.line(fmt.Sprintln(a...)) }
func (l *Logger) Fatal(a ...interface{})            { l.Print(a...); Exit(1) }
func (l *Logger) Fatalf(f string, a ...interface{}) { l.Printf(f, a...); Exit(1) }
func (l *Logger) Fatalln(a ...interface{})          { l.Println(a...); Exit(1) }
func (l *Logger) Panic(a ...interface{})            { s := fmt.Sprint(a...); l.line(s); panic(s) }
func (l *Logger) Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); l.line(s); panic(s) }
func (l *Logger) Panicln(a ...interface{})          { s := fmt.Sprintln(a...); l.line(s); panic(s) }

func LogPrintf(f string, a ...interface{}) { std0().Printf(f, a...) }
func LogPrintln(a ...interface{})          { std0().Println(a...) }
func LogPrint(a ...interface{})            { std0().Print(a...) }
func LogFatal(a ...interface{})            { std0().Fatal(a...) }
func LogFatalf(f string, a ...interface{}) { std0().Fatalf(f, a...) }
func LogFatalln(a ...interface{})          { std0().Fatalln(a...) }
func LogPanic(a ...interface{})            { std0().Panic(a...) }
func LogPanicf(f string, a ...interface{}) { std0().Panicf(f, a...) }
func LogPanicln(a ...interface{})          { std0().Panicln(a...) }

var ErrUnused = errors.New("unused")
