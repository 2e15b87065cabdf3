//go:build simruntime

// Package simos has the API of package os on top of a file system in memory.
// The build replaces the import of "os" by it in the packages under test.
//
// Operations are scheduling points, writes are made in pieces, and a hook
// may fail or tear any of them. Nothing here reaches the real file system.
package simos

import (
	"errors"
	"io"
	"io/fs"
	ros "os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
	ProcAttr     = ros.ProcAttr
	Process      = ros.Process
	ProcessState = ros.ProcessState
)

const (
	O_RDONLY = ros.O_RDONLY
	O_WRONLY = ros.O_WRONLY
	O_RDWR   = ros.O_RDWR
	O_APPEND = ros.O_APPEND
	O_CREATE = ros.O_CREATE
	O_EXCL   = ros.O_EXCL
	O_SYNC   = ros.O_SYNC
	O_TRUNC  = ros.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone
	Interrupt           = ros.Interrupt
	Kill                = ros.Kill

	Args []string

	Stdin  = &File{name: "/dev/stdin", r: strings.NewReader("")}
	Stdout = &File{name: "/dev/stdout", w: io.Discard}
	Stderr = &File{name: "/dev/stderr", w: io.Discard}
)

// Op is one operation about to be made.
type Op struct {
	Name string // open, read, write, close, sync, stat, mkdir, remove, rename, readdir, watch
	Path string
	N    int // bytes of a write
	Seq  int // how many operations with this name and path came before
}

// Fault of an operation.
type Fault struct {
	Err     error
	Partial int // bytes of a write that reach the file before Err
}

// Event is a change of the tree.
type Event struct {
	Op   string // create, write, remove, rename, chmod, moved (the new name, after rename and create)
	Path string // cleaned absolute path
	To   string // new name, of a rename
}

type node struct {
	dir   bool
	data  []byte
	mode  FileMode
	mtime time.Time
}

var (
	nodes  map[string]*node
	counts map[string]int
	temps  int

	// Cwd is the working directory.
	Cwd = "/w"
	// Hook decides faults.
	Hook func(Op) *Fault
	// Chunk is the size of the next piece of a write of n bytes.
	Chunk func(path string, n int) int
	// Watchers are told about every change.
	Watchers []func(Event)
	// Shuffle, if set, permutes directory listings that package os leaves
	// unordered (File.Readdir).
	Exited bool
	// ExitFn ends the simulated process.
	ExitFn func(code int)
	// Quiet makes operations no scheduling points (set by oracle code).
	Quiet bool
	// OpCount counts operations of the run.
	OpCount int
)

// Reset empties the file system.
func Reset() {
	nodes = map[string]*node{"/": {dir: true, mode: 0o755}, "/tmp": {dir: true, mode: 0o777}}
	counts = map[string]int{}
	temps = 0
	Cwd = "/w"
	nodes["/w"] = &node{dir: true, mode: 0o755}
	Hook, Chunk, Watchers, ExitFn = nil, nil, nil, nil
	Quiet, OpCount = false, 0
	Args = []string{"prog"}
	Stdin = &File{name: "/dev/stdin", r: strings.NewReader("")}
	Stdout = &File{name: "/dev/stdout", w: io.Discard}
	Stderr = &File{name: "/dev/stderr", w: io.Discard}
}

// NewStream makes a file that reads from r or writes to w.
func NewStream(name string, r io.Reader, w io.Writer) *File { return &File{name: name, r: r, w: w} }

// Calm runs f without faults, scheduling points and notifications (harness
// and oracle access).
func Calm(f func()) {
	h, q, c, w := Hook, Quiet, Chunk, Watchers
	Hook, Quiet, Chunk, Watchers = nil, true, nil, nil
	defer func() { Hook, Quiet, Chunk, Watchers = h, q, c, w }()
	f()
}

// Snapshot of the tree below dir: path to content, directories excluded.
func Snapshot(dir string) map[string]string {
	out := map[string]string{}
	for p, n := range nodes {
		if !n.dir && under(p, dir) {
			out[p] = string(n.data)
		}
	}
	return out
}

// Fork copies the whole tree; Restore puts it back.
func Fork() any {
	m := map[string]*node{}
	for p, n := range nodes {
		c := *n
		c.data = append([]byte(nil), n.data...)
		m[p] = &c
	}
	return m
}

func Restore(s any) { nodes = s.(map[string]*node) }

func under(p, dir string) bool {
	return dir == "/" || p == dir || strings.HasPrefix(p, dir+"/")
}

// Clean makes p absolute.
func Clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

func begin(name, p string, n int) *Fault {
	if Quiet {
		return nil
	}
	simrt.Yield()
	OpCount++
	if Hook == nil {
		return nil
	}
	k := name + " " + p
	seq := counts[k]
	counts[k]++
	return Hook(Op{Name: name, Path: p, N: n, Seq: seq})
}

func emit(op, p string) { emitTo(op, p, "") }

func emitTo(op, p, to string) {
	for _, w := range Watchers {
		w(Event{op, p, to})
	}
}

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

// walk checks that the parents of p are directories.
func lookup(p string) (*node, error) {
	if n := nodes[p]; n != nil {
		return n, nil
	}
	for d := path.Dir(p); ; d = path.Dir(d) {
		if n := nodes[d]; n != nil {
			if !n.dir {
				return nil, syscall.ENOTDIR
			}
			return nil, syscall.ENOENT
		}
	}
}

func parent(p string) error {
	n, err := lookup(path.Dir(p))
	if err != nil {
		return err
	}
	if !n.dir {
		return syscall.ENOTDIR
	}
	return nil
}

func now() time.Time { return time.Now() }

type info struct {
	name string
	n    node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() FileMode {
	if i.n.dir {
		return i.n.mode | ModeDir
	}
	return i.n.mode
}
func (i info) ModTime() time.Time { return i.n.mtime }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

func stat(op, name string) (FileInfo, error) {
	p := Clean(name)
	if f := begin("stat", p, 0); f != nil && f.Err != nil {
		return nil, perr(op, name, f.Err)
	}
	n, err := lookup(p)
	if err != nil {
		return nil, perr(op, name, err)
	}
	return info{path.Base(p), *n}, nil
}

func Stat(name string) (FileInfo, error)  { return stat("stat", name) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := Clean(name)
	if p == DevNull {
		return &File{name: name, r: strings.NewReader(""), w: io.Discard}, nil
	}
	if f := begin("open", p, 0); f != nil && f.Err != nil {
		return nil, perr("open", name, f.Err)
	}
	n, err := lookup(p)
	switch {
	case err != nil && (flag&O_CREATE == 0 || !errors.Is(err, syscall.ENOENT)):
		return nil, perr("open", name, err)
	case err != nil:
		if err := parent(p); err != nil {
			return nil, perr("open", name, err)
		}
		n = &node{mode: perm & 0o755, mtime: now()}
		nodes[p] = n
		emit("create", p)
	case flag&O_CREATE != 0 && flag&O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case n.dir && flag&(O_WRONLY|O_RDWR|O_CREATE) != 0:
		return nil, perr("open", name, syscall.EISDIR)
	case flag&O_TRUNC != 0 && flag&(O_WRONLY|O_RDWR) != 0:
		had := len(n.data) > 0
		n.data = nil
		n.mtime = now()
		if had {
			emit("write", p)
		}
	}
	return &File{name: name, path: p, n: n, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Mkdir(name string, perm FileMode) error {
	p := Clean(name)
	if f := begin("mkdir", p, 0); f != nil && f.Err != nil {
		return perr("mkdir", name, f.Err)
	}
	if _, err := lookup(p); err == nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err := parent(p); err != nil {
		return perr("mkdir", name, err)
	}
	nodes[p] = &node{dir: true, mode: perm & 0o755, mtime: now()}
	emit("create", p)
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := Clean(name)
	if n, err := lookup(p); err == nil {
		if n.dir {
			begin("stat", p, 0)
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	if err := Mkdir(p, perm); err != nil && !errors.Is(err, fs.ErrExist) {
		return err
	}
	return nil
}

func random(pattern string, f func(string) error) (string, error) {
	pre, suf, _ := strings.Cut(pattern, "*")
	for {
		temps++
		s := pre + strconv.Itoa(1000000+temps) + suf
		if err := f(s); !errors.Is(err, fs.ErrExist) {
			return s, err
		}
	}
}

func CreateTemp(dir, pattern string) (f *File, err error) {
	if dir == "" {
		dir = TempDir()
	}
	_, err = random(pattern, func(s string) error {
		f, err = OpenFile(path.Join(dir, s), O_RDWR|O_CREATE|O_EXCL, 0o600)
		return err
	})
	return f, err
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	s, err := random(pattern, func(s string) error { return Mkdir(path.Join(dir, s), 0o700) })
	if err != nil {
		return "", err
	}
	return path.Join(dir, s), nil
}

func children(p string) []string {
	var out []string
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	for q := range nodes {
		if q != p && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			out = append(out, q[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

func Remove(name string) error {
	p := Clean(name)
	if f := begin("remove", p, 0); f != nil && f.Err != nil {
		return perr("remove", name, f.Err)
	}
	n, err := lookup(p)
	if err != nil {
		return perr("remove", name, err)
	}
	if n.dir && len(children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(nodes, p)
	emit("remove", p)
	return nil
}

func RemoveAll(name string) error {
	p := Clean(name)
	if n := nodes[p]; n != nil && n.dir {
		for _, c := range children(p) {
			if err := RemoveAll(path.Join(p, c)); err != nil {
				return err
			}
		}
	}
	if err := Remove(name); err != nil && !errors.Is(err, fs.ErrNotExist) {
		return err
	}
	return nil
}

func Rename(from, to string) error {
	a, b := Clean(from), Clean(to)
	lerr := func(err error) error { return &LinkError{Op: "rename", Old: from, New: to, Err: err} }
	if f := begin("rename", b, 0); f != nil && f.Err != nil {
		return lerr(f.Err)
	}
	n, err := lookup(a)
	if err != nil {
		return lerr(err)
	}
	if err := parent(b); err != nil {
		return lerr(err)
	}
	if o := nodes[b]; o != nil {
		switch {
		case o.dir && !n.dir:
			return lerr(syscall.EISDIR)
		case !o.dir && n.dir:
			return lerr(syscall.ENOTDIR)
		case o.dir && len(children(b)) > 0:
			return lerr(syscall.ENOTEMPTY)
		}
	}
	if n.dir {
		var subs []string
		for q := range nodes {
			if strings.HasPrefix(q, a+"/") {
				subs = append(subs, q)
			}
		}
		for _, q := range subs {
			nodes[b+q[len(a):]] = nodes[q]
			delete(nodes, q)
		}
	}
	nodes[b] = n
	if a != b {
		delete(nodes, a)
	}
	emitTo("rename", a, b)
	emit("create", b)
	emit("moved", b)
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func Chmod(name string, mode FileMode) error {
	p := Clean(name)
	n, err := lookup(p)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = mode & ModePerm
	emit("chmod", p)
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chtimes(name string, atime, mtime time.Time) error {
	p := Clean(name)
	n, err := lookup(p)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = mtime
	return nil
}

func Link(from, to string) error {
	return &LinkError{Op: "link", Old: from, New: to, Err: syscall.EPERM}
}
func Symlink(from, to string) error {
	return &LinkError{Op: "symlink", Old: from, New: to, Err: syscall.EPERM}
}
func Readlink(name string) (string, error)  { return "", perr("readlink", name, syscall.EINVAL) }
func Chown(name string, uid, gid int) error { return nil }
func SameFile(a, b FileInfo) bool           { return a.Name() == b.Name() && a.Size() == b.Size() }

func Getwd() (string, error) { return Cwd, nil }
func Chdir(dir string) error {
	p := Clean(dir)
	n, err := lookup(p)
	if err != nil {
		return perr("chdir", dir, err)
	}
	if !n.dir {
		return perr("chdir", dir, syscall.ENOTDIR)
	}
	Cwd = p
	return nil
}
func TempDir() string                { return "/tmp" }
func UserHomeDir() (string, error)   { return "/home/sim", nil }
func UserCacheDir() (string, error)  { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error) { return "/home/sim/.config", nil }
func Executable() (string, error)    { return "/bin/prog", nil }
func Hostname() (string, error)      { return "sim", nil }
func Getpid() int                    { return 4242 }
func Getppid() int                   { return 1 }
func Getuid() int                    { return 1000 }
func Getgid() int                    { return 1000 }
func Geteuid() int                   { return 1000 }
func Getegid() int                   { return 1000 }
func Getpagesize() int               { return 4096 }

func Getenv(k string) string                        { return ros.Getenv(k) }
func LookupEnv(k string) (string, bool)             { return ros.LookupEnv(k) }
func Setenv(k, v string) error                      { return ros.Setenv(k, v) }
func Unsetenv(k string) error                       { return ros.Unsetenv(k) }
func Environ() []string                             { return ros.Environ() }
func ExpandEnv(s string) string                     { return ros.ExpandEnv(s) }
func Expand(s string, f func(string) string) string { return ros.Expand(s, f) }

func IsExist(err error) bool       { return ros.IsExist(err) }
func IsNotExist(err error) bool    { return ros.IsNotExist(err) }
func IsPermission(err error) bool  { return ros.IsPermission(err) }
func IsTimeout(err error) bool     { return ros.IsTimeout(err) }
func IsPathSeparator(c uint8) bool { return c == '/' }
func NewSyscallError(s string, err error) error {
	return ros.NewSyscallError(s, err)
}

// Exit ends the simulated process.
func Exit(code int) {
	if ExitFn != nil {
		ExitFn(code)
	}
	panic("simos: Exit outside of a simulated process")
}

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error)    { return ReadFile(path.Join(string(d), name)) }
func (d dirFS) ReadDir(name string) ([]DirEntry, error) { return ReadDir(path.Join(string(d), name)) }
func (d dirFS) Stat(name string) (FileInfo, error)      { return Stat(path.Join(string(d), name)) }

// File is an open file.
type File struct {
	name   string
	path   string
	n      *node
	off    int64
	flag   int
	closed bool
	r      io.Reader
	w      io.Writer
	ents   []string
	read   bool
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 99 }

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.r != nil {
		return f.r.Read(b)
	}
	if f.n == nil {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if x := begin("read", f.path, 0); x != nil && x.Err != nil {
		return 0, perr("read", f.name, x.Err)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.n == nil || off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte) {
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	end := f.off + int64(len(b))
	for int64(len(f.n.data)) < end {
		f.n.data = append(f.n.data, make([]byte, end-int64(len(f.n.data)))...)
	}
	copy(f.n.data[f.off:end], b)
	f.off = end
	f.n.mtime = now()
	if len(b) > 0 {
		emit("write", f.path)
	}
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.w != nil {
		return f.w.Write(b)
	}
	if f.n == nil || f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	done := 0
	for done < len(b) {
		k := len(b) - done
		if Chunk != nil && !Quiet {
			k = min(k, max(1, Chunk(f.path, k)))
		}
		if x := begin("write", f.path, k); x != nil && x.Err != nil {
			p := min(max(x.Partial, 0), k)
			f.put(b[done : done+p])
			return done + p, perr("write", f.name, x.Err)
		}
		f.put(b[done : done+k])
		done += k
	}
	return done, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = off
	n, err := f.Write(b)
	f.off = o
	return n, err
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		offset += f.off
	case io.SeekEnd:
		if f.n != nil {
			offset += int64(len(f.n.data))
		}
	}
	f.off = offset
	return offset, nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.n != nil && f.flag&(O_WRONLY|O_RDWR) != 0 {
		if x := begin("close", f.path, 0); x != nil && x.Err != nil {
			f.closed = true
			return perr("close", f.name, x.Err)
		}
	}
	f.closed = true
	if c, ok := f.r.(io.Closer); ok {
		return c.Close()
	}
	if c, ok := f.w.(io.Closer); ok {
		return c.Close()
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.n != nil {
		if x := begin("sync", f.path, 0); x != nil && x.Err != nil {
			return perr("sync", f.name, x.Err)
		}
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.n == nil {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	for int64(len(f.n.data)) < size {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:size]
	emit("write", f.path)
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.n == nil {
		return info{path.Base(f.name), node{mode: 0o600}}, nil
	}
	return info{path.Base(f.path), *f.n}, nil
}

func (f *File) Chmod(mode FileMode) error {
	if f.n != nil {
		f.n.mode = mode & ModePerm
	}
	return nil
}
func (f *File) Chown(uid, gid int) error           { return nil }
func (f *File) SetDeadline(time.Time) error        { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error    { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

func (f *File) next(n int) ([]string, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if f.n == nil || !f.n.dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if x := begin("readdir", f.path, 0); x != nil && x.Err != nil {
		return nil, perr("readdirent", f.name, x.Err)
	}
	if !f.read {
		f.ents, f.read = children(f.path), true
	}
	if n <= 0 {
		out := f.ents
		f.ents = nil
		return out, nil
	}
	if len(f.ents) == 0 {
		return nil, io.EOF
	}
	n = min(n, len(f.ents))
	out := f.ents[:n]
	f.ents = f.ents[n:]
	return out, nil
}

func (f *File) Readdirnames(n int) ([]string, error) { return f.next(n) }

func (f *File) Readdir(n int) ([]FileInfo, error) {
	names, err := f.next(n)
	var out []FileInfo
	for _, s := range names {
		if c := nodes[path.Join(f.path, s)]; c != nil {
			out = append(out, info{s, *c})
		}
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	infos, err := f.Readdir(n)
	var out []DirEntry
	for _, i := range infos {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, err
}
