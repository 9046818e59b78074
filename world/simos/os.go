// Package simos stands in for package os in the instrumented copies of the
// repository's tools: an in-memory file system, process environment and exit
// status, with planned faults. Once the simulated process has exited, nothing
// it does changes anything any more.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"simworld/rt"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	DirEntry     = os.DirEntry
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModeDir           = os.ModeDir
	ModeAppend        = os.ModeAppend
	ModeSymlink       = os.ModeSymlink
	ModeType          = os.ModeType
	ModePerm          = os.ModePerm
	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrProcessDone      = os.ErrProcessDone
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	Interrupt           = os.Interrupt
	Kill                = os.Kill
)

// Fault is one planned I/O failure: the Nth call of a kind goes wrong.
type Fault struct {
	Op   string `json:"op"` // open, create, read, write, close, sync, rename, stat
	N    int    `json:"n"`
	K    int    `json:"k,omitempty"`    // bytes that still get through
	Err  string `json:"err,omitempty"`  // EIO, ENOSPC, ...; empty for a short read
	Lost int    `json:"lost,omitempty"` // close, sync: bytes at the end of the file that are gone
	On   string `json:"on,omitempty"`   // "" files, "stdin", "stdout"
}

type inode struct {
	data []byte
	mode FileMode
	dir  bool
}

// FS is the simulated disk.
type FS struct {
	files map[string]*inode
	Cap   int // total bytes the disk holds; 0: no limit
}

// World is one simulated process and its surroundings.
type World struct {
	FS       *FS
	Env      map[string]string
	Faults   []Fault
	count    map[string]int
	exited   bool
	Status   int
	Fired    map[string]int
	ShortMax int // reads return at most this many bytes; 0: no limit
	short    int
	tmp      int
	Out, Err []byte
	Calls    int
}

// W is the current process.
var W = &World{FS: NewFS(), Env: map[string]string{}, count: map[string]int{}, Fired: map[string]int{}}

var (
	Args   []string
	Stdin  *File
	Stdout *File
	Stderr *File
)

func NewFS() *FS { return &FS{files: map[string]*inode{"/": {dir: true, mode: 0o755}}} }

// Put stores a file without faults.
func (f *FS) Put(name string, data []byte) {
	for d := path.Dir(name); d != "/"; d = path.Dir(d) {
		f.files[d] = &inode{dir: true, mode: 0o755}
	}
	f.files[name] = &inode{data: append([]byte(nil), data...), mode: 0o644}
}

// Get returns a file's contents.
func (f *FS) Get(name string) ([]byte, bool) {
	i, ok := f.files[name]
	if !ok || i.dir {
		return nil, false
	}
	return append([]byte(nil), i.data...), true
}

// Clone copies the disk.
func (f *FS) Clone() *FS {
	g := &FS{files: map[string]*inode{}, Cap: f.Cap}
	for k, v := range f.files {
		c := *v
		c.data = append([]byte(nil), v.data...)
		g.files[k] = &c
	}
	return g
}

// Used is the number of bytes on the disk.
func (f *FS) Used() int {
	n := 0
	for _, i := range f.files {
		n += len(i.data)
	}
	return n
}

// Boot starts a process.
func Boot(w *World, args []string, stdin []byte) {
	W = w
	w.count = map[string]int{}
	w.Fired = map[string]int{}
	Args = append([]string(nil), args...)
	Stdin = &File{name: "/dev/stdin", ino: &inode{data: stdin}, flag: O_RDONLY, std: "stdin"}
	Stdout = &File{name: "/dev/stdout", ino: &inode{}, flag: O_WRONLY, std: "stdout"}
	Stderr = &File{name: "/dev/stderr", ino: &inode{}, flag: O_WRONLY, std: "stderr"}
}

// Exited reports whether the process has ended.
func (w *World) Exited() bool { return w.exited }

// End marks the return of main.
func (w *World) End(status int) {
	if !w.exited {
		w.exited, w.Status = true, status
	}
}

func Exit(code int) {
	W.End(code)
	rt.Exit()
}

func fault(op, on string) *Fault {
	w := W
	w.Calls++
	k := op
	if on != "" {
		k = on + " " + op
	}
	n := w.count[k]
	w.count[k]++
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.Op == op && f.N == n && f.On == on {
			d := op + " fails with " + f.Err
			if f.Err == "" {
				d = "short " + op
			}
			if on != "" {
				d = on + " " + d
			}
			if op == "write" && f.K > 0 {
				d += " after some bytes"
			}
			if f.Lost > 0 {
				d += ", end of the file lost"
			}
			if f.Err == "KILL" {
				d = "process killed at " + op
			}
			w.Fired[d]++
			if f.Err == "KILL" && op != "write" && op != "create" {
				Exit(137)
			}
			return f
		}
	}
	return nil
}

func errOf(s string) error {
	switch s {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EDQUOT":
		return syscall.EDQUOT
	case "EINTR":
		return syscall.EINTR
	case "EMFILE":
		return syscall.EMFILE
	case "EROFS":
		return syscall.EROFS
	case "ESTALE":
		return syscall.ESTALE
	}
	return syscall.EIO
}

func perr(op, name string, err error) error { return &PathError{Op: op, Path: name, Err: err} }

func clean(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/sim/" + name
	}
	return path.Clean(name)
}

// File is an open file.
type File struct {
	name   string
	ino    *inode
	off    int64
	flag   int
	closed bool
	std    string
	sawEOF bool
}

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	rt.Yield()
	if W.exited {
		return nil, perr("open", name, syscall.EIO)
	}
	switch name {
	case "/dev/stdin":
		return Stdin, nil
	case "/dev/stdout":
		return Stdout, nil
	case "/dev/stderr":
		return Stderr, nil
	}
	op := "open"
	if flag&(O_CREATE|O_WRONLY|O_RDWR) != 0 {
		op = "create"
	}
	if f := fault(op, ""); f != nil {
		if f.Err == "KILL" {
			if i, ok := W.FS.files[clean(name)]; ok && !i.dir && flag&O_TRUNC != 0 && f.K%2 == 1 {
				i.data = nil
			}
			Exit(137)
		}
		return nil, perr("open", name, errOf(f.Err))
	}
	p := clean(name)
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	i, ok := W.FS.files[p]
	switch {
	case ok && flag&O_CREATE != 0 && flag&O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case ok && i.dir && flag&(O_WRONLY|O_RDWR) != 0:
		return nil, perr("open", name, syscall.EISDIR)
	case !ok && flag&O_CREATE == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case !ok:
		d, ok := W.FS.files[path.Dir(p)]
		if !ok || !d.dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		i = &inode{mode: perm &^ 0o022}
		W.FS.files[p] = i
	}
	if flag&O_TRUNC != 0 && flag&(O_WRONLY|O_RDWR) != 0 {
		i.data = nil
	}
	return &File{name: name, ino: i, flag: flag}, nil
}

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	if W.exited {
		return perr(op, f.name, syscall.EIO)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(b []byte) (int, error) {
	rt.Yield()
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY) != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.ino.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if W.ShortMax > 0 && n > W.ShortMax {
		n = 1 + W.short%W.ShortMax
		W.short = W.short*31 + 7
		if W.short < 0 || W.short > 1<<30 {
			W.short &= 0xffff
		}
	}
	on := ""
	if f.std == "stdin" {
		on = "stdin"
	}
	if ft := fault("read", on); ft != nil {
		if ft.Err != "" {
			return 0, perr("read", f.name, errOf(ft.Err))
		}
		if ft.K < n {
			n = ft.K
		}
		if n < 1 {
			n = 1
		}
	}
	if f.off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n = copy(b[:n], f.ino.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if ft := fault("read", ""); ft != nil && ft.Err != "" {
		return 0, perr("read", f.name, errOf(ft.Err))
	}
	if off < 0 {
		return 0, perr("readat", f.name, syscall.EINVAL)
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte, off int64) int {
	room := len(b)
	if W.FS.Cap > 0 {
		grow := int(off) + len(b) - len(f.ino.data)
		if free := W.FS.Cap - W.FS.Used(); grow > free {
			if free < 0 {
				free = 0
			}
			room = len(b) - (grow - free)
			if room < 0 {
				room = 0
			}
		}
	}
	b = b[:room]
	if need := int(off) + len(b); need > len(f.ino.data) {
		f.ino.data = append(f.ino.data, make([]byte, need-len(f.ino.data))...)
	}
	copy(f.ino.data[off:], b)
	return room
}

func (f *File) Write(b []byte) (int, error) {
	rt.Yield()
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if f.std == "stdout" {
		n := len(b)
		if ft := fault("write", "stdout"); ft != nil {
			if ft.K < n {
				n = ft.K
			}
			if n == len(b) && n > 0 {
				n--
			}
			W.Out = append(W.Out, b[:n]...)
			if ft.Err == "KILL" {
				Exit(137)
			}
			return n, perr("write", f.name, errOf(ft.Err))
		}
		W.Out = append(W.Out, b...)
		return n, nil
	}
	if f.std == "stderr" {
		W.Err = append(W.Err, b...)
		return len(b), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n := len(b)
	kill := false
	var err error
	if ft := fault("write", ""); ft != nil {
		if ft.K < n {
			n = ft.K
		}
		if n == len(b) && n > 0 {
			n--
		}
		err = perr("write", f.name, errOf(ft.Err))
		kill = ft.Err == "KILL"
	}
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.ino.data))
	}
	m := f.put(b[:n], f.off)
	f.off += int64(m)
	if kill {
		Exit(137)
	}
	if m < n && err == nil {
		W.Fired["disk full"]++
		err = perr("write", f.name, syscall.ENOSPC)
	}
	return m, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("writeat", f.name, syscall.EINVAL)
	}
	old := f.off
	f.off = off
	n, err := f.Write(b)
	f.off = old
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	if ft := fault("truncate", ""); ft != nil {
		return perr("truncate", f.name, errOf(ft.Err))
	}
	return f.ino.trunc(n)
}

func (i *inode) trunc(n int64) error {
	if n < 0 {
		return syscall.EINVAL
	}
	for int64(len(i.data)) < n {
		i.data = append(i.data, 0)
	}
	i.data = i.data[:n]
	return nil
}

func (f *File) lose(ft *Fault) {
	if ft.Lost > 0 && f.std == "" && f.flag&(O_WRONLY|O_RDWR) != 0 {
		n := len(f.ino.data) - ft.Lost
		if n < 0 {
			n = 0
		}
		f.ino.data = f.ino.data[:n]
	}
}

func (f *File) Sync() error {
	rt.Yield()
	if err := f.ok("sync"); err != nil {
		return err
	}
	if ft := fault("sync", ""); ft != nil {
		f.lose(ft)
		return perr("sync", f.name, errOf(ft.Err))
	}
	return nil
}

func (f *File) Close() error {
	rt.Yield()
	if err := f.ok("close"); err != nil {
		return err
	}
	f.closed = true
	if f.std != "" {
		return nil
	}
	op := "close"
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		op = "close of a file read"
	}
	if ft := fault(op, ""); ft != nil {
		f.lose(ft)
		return perr("close", f.name, errOf(ft.Err))
	}
	return nil
}

func (f *File) Chmod(m FileMode) error      { f.ino.mode = m; return nil }
func (f *File) Chown(uid, gid int) error    { return nil }
func (f *File) SetDeadline(time.Time) error { return nil }
func (f *File) Stat() (FileInfo, error)     { return f.ino.info(f.name), f.ok("stat") }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	return nil, perr("readdir", f.name, syscall.ENOTDIR)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	return nil, perr("readdir", f.name, syscall.ENOTDIR)
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	return nil, perr("readdir", f.name, syscall.ENOTDIR)
}

type info struct {
	name string
	size int64
	mode FileMode
	dir  bool
}

func (i *inode) info(name string) FileInfo {
	m := i.mode
	if i.dir {
		m |= ModeDir
	}
	return info{path.Base(name), int64(len(i.data)), m, i.dir}
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() FileMode     { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }

func Stat(name string) (FileInfo, error) {
	rt.Yield()
	if W.exited {
		return nil, perr("stat", name, syscall.EIO)
	}
	if ft := fault("stat", ""); ft != nil {
		return nil, perr("stat", name, errOf(ft.Err))
	}
	i, ok := W.FS.files[clean(name)]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return i.info(name), nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(struct{ io.Reader }{f})
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Rename(from, to string) error {
	rt.Yield()
	if W.exited {
		return perr("rename", from, syscall.EIO)
	}
	if ft := fault("rename", ""); ft != nil {
		return &LinkError{Op: "rename", Old: from, New: to, Err: errOf(ft.Err)}
	}
	i, ok := W.FS.files[clean(from)]
	if !ok {
		return &LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d, ok := W.FS.files[path.Dir(clean(to))]; !ok || !d.dir {
		return &LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	delete(W.FS.files, clean(from))
	W.FS.files[clean(to)] = i
	return nil
}

func Remove(name string) error {
	rt.Yield()
	if W.exited {
		return perr("remove", name, syscall.EIO)
	}
	if ft := fault("remove", ""); ft != nil {
		return perr("remove", name, errOf(ft.Err))
	}
	p := clean(name)
	if _, ok := W.FS.files[p]; !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(W.FS.files, p)
	return nil
}

func RemoveAll(name string) error {
	if W.exited {
		return perr("remove", name, syscall.EIO)
	}
	p := clean(name)
	for k := range W.FS.files {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(W.FS.files, k)
		}
	}
	return nil
}

func Truncate(name string, n int64) error {
	if W.exited {
		return perr("truncate", name, syscall.EIO)
	}
	if ft := fault("truncate", ""); ft != nil {
		return perr("truncate", name, errOf(ft.Err))
	}
	i, ok := W.FS.files[clean(name)]
	if !ok {
		return perr("truncate", name, syscall.ENOENT)
	}
	return i.trunc(n)
}

func Mkdir(name string, perm FileMode) error {
	if W.exited {
		return perr("mkdir", name, syscall.EIO)
	}
	if ft := fault("mkdir", ""); ft != nil {
		return perr("mkdir", name, errOf(ft.Err))
	}
	p := clean(name)
	if _, ok := W.FS.files[p]; ok {
		return perr("mkdir", name, syscall.EEXIST)
	}
	W.FS.files[p] = &inode{dir: true, mode: perm}
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := clean(name)
	if i, ok := W.FS.files[p]; ok && !i.dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if W.exited {
		return perr("mkdir", name, syscall.EIO)
	}
	if ft := fault("mkdir", ""); ft != nil {
		return perr("mkdir", name, errOf(ft.Err))
	}
	for ; p != "/"; p = path.Dir(p) {
		if _, ok := W.FS.files[p]; !ok {
			W.FS.files[p] = &inode{dir: true, mode: perm}
		}
	}
	return nil
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		W.tmp++
		n := path.Join(dir, fmt.Sprintf("%s%d%s", pre, 100000+W.tmp, suf))
		if _, ok := W.FS.files[clean(n)]; !ok {
			return n
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0o700)
}

func ReadDir(name string) ([]DirEntry, error) {
	p := clean(name)
	i, ok := W.FS.files[p]
	if !ok {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !i.dir {
		return nil, perr("readdir", name, syscall.ENOTDIR)
	}
	var out []DirEntry
	for k, x := range W.FS.files {
		if k != p && path.Dir(k) == p {
			out = append(out, fs.FileInfoToDirEntry(x.info(k)))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

func Chmod(name string, m FileMode) error           { return nil }
func Chown(name string, uid, gid int) error         { return nil }
func Chtimes(name string, a, m time.Time) error     { return nil }
func TempDir() string                               { return "/tmp" }
func Getwd() (string, error)                        { return "/sim", nil }
func Chdir(string) error                            { return nil }
func Getenv(k string) string                        { return W.Env[k] }
func LookupEnv(k string) (string, bool)             { v, ok := W.Env[k]; return v, ok }
func Setenv(k, v string) error                      { W.Env[k] = v; return nil }
func Unsetenv(k string) error                       { delete(W.Env, k); return nil }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Expand(s string, m func(string) string) string { return os.Expand(s, m) }
func Environ() []string {
	var out []string
	for k, v := range W.Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func Hostname() (string, error)                 { return "sim", nil }
func Getpid() int                               { return 4711 }
func Getppid() int                              { return 1 }
func Getuid() int                               { return 1000 }
func Geteuid() int                              { return 1000 }
func Getgid() int                               { return 1000 }
func Executable() (string, error)               { return "/sim/tool", nil }
func UserHomeDir() (string, error)              { return "/sim", nil }
func IsNotExist(err error) bool                 { return os.IsNotExist(err) }
func IsExist(err error) bool                    { return os.IsExist(err) }
func IsPermission(err error) bool               { return os.IsPermission(err) }
func IsTimeout(err error) bool                  { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func SameFile(a, b FileInfo) bool               { return a == b }
func Getpagesize() int                          { return 4096 }
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }
