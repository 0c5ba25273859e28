// Package simos stands in for package os: an in-memory file system with separate volatile and
// durable state, and a fault plan drawn by the simulator.
package simos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/simrt"
)

// inode is a file or directory.
type inode struct {
	id     int
	dir    bool
	data   []byte
	synced []byte // contents at the last successful fsync; nil if never
	hasSyn bool
	writes int // successful write calls since the last fsync
}

// nsop is a namespace operation that a crash may lose.
type nsop struct {
	kind byte // 'c' create, 'r' rename, 'd' delete, 'm' mkdir
	a, b string
	n    *inode
}

// Fault kinds.
const (
	None      = iota
	EIO       // the operation fails with an I/O error
	Partial   // a write or read does part of its work, then fails (write: ENOSPC)
	CrashHere // the process dies in this operation (a write may be half done)
	CloseErr  // a deferred write-back error, reported by close
)

// Fault is one planned fault: it applies to the At-th operation (counting from 1) that it fits.
type Fault struct {
	At   int
	Kind int
	Arg  int // fraction (of 1000) of a partial operation
}

// Counts of faults that actually fired, by kind name.
type Counts struct {
	ErrOpen, ErrRead, ErrWrite, ShortWrite, ErrClose, ErrSync, ErrRename, ErrMeta, Crash, TornWrite,
	ShortRead, DirOrder, PowerLoss, LostWrite int
}

var fsys struct {
	ns      map[string]*inode // volatile namespace
	dns     map[string]*inode // durable namespace
	pend    []nsop
	nextID  int
	tmp     int
	ops     int
	reads   int
	faults  []Fault
	frozen  bool
	short   int // chance of 1000 that a read is short
	shuffle bool
	opened  int
	closed  int
	log     []string
	logOn   bool
	C       Counts
	only    func(op, path string) bool
	capture bool
	out     []byte // what was written to the standard output and error
}

var lockAddr byte

// enter is called by every operation: it is a scheduling point, and it orders accesses to the
// simulated disk for the race detector, as the kernel does.
func enter() {
	simrt.SyncPoint()
	simrt.RaceAcquire(unsafe.Pointer(&lockAddr))
	if fsys.frozen {
		simrt.RaceRelease(unsafe.Pointer(&lockAddr))
		runtime.Goexit()
	}
}

func leave() { simrt.RaceRelease(unsafe.Pointer(&lockAddr)) }

// Reset gives the run an empty disk with /, /tmp and /work (the working directory).
func Reset() {
	fsys.ns = map[string]*inode{}
	fsys.dns = map[string]*inode{}
	fsys.pend = nil
	fsys.nextID, fsys.tmp = 0, 0
	fsys.faults, fsys.frozen, fsys.short, fsys.shuffle = nil, false, 0, false
	fsys.opened, fsys.closed = 0, 0
	fsys.C = Counts{}
	fsys.ops, fsys.reads = 0, 0
	fsys.log, fsys.logOn = nil, false
	fsys.only = nil
	fsys.capture, fsys.out = false, nil
	for _, d := range []string{"/", "/tmp", "/work"} {
		n := newInode(true)
		fsys.ns[d], fsys.dns[d] = n, n
	}
}

func init() { Reset() }

func newInode(dir bool) *inode {
	fsys.nextID++
	return &inode{id: fsys.nextID, dir: dir}
}

// Plan installs the fault plan and restarts the operation count.
func Plan(f []Fault, shortReads int, shuffle bool) {
	fsys.faults, fsys.short, fsys.shuffle = f, shortReads, shuffle
	fsys.ops = 0
}

// Restrict limits planned faults (and the operation count) to the operations fn accepts.
func Restrict(fn func(op, path string) bool) { fsys.only = fn }

// Capture starts or stops keeping what is written to the standard output and error.
func Capture(on bool) { fsys.capture = on }

// Captured is what was written to the standard output and error.
func Captured() string { return string(fsys.out) }

// Ops is the number of operations since the last Plan or Reset.
func Ops() int { return fsys.ops }

// Fired returns the faults that fired since Reset.
func Fired() Counts { return fsys.C }

// OpenFiles is the number of files opened and not closed.
func OpenFiles() int { return fsys.opened - fsys.closed }

// Frozen reports that the simulated process has crashed.
func Frozen() bool { return fsys.frozen }

// Trace turns the operation log on and returns what it holds.
func Trace(on bool) []string { l := fsys.log; fsys.logOn = on; return l }

func abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	return path.Clean(p)
}

// point counts an operation and returns the fault planned for it, if any.
func point(op, p string) Fault {
	if fsys.logOn && len(fsys.log) < 400 {
		fsys.log = append(fsys.log, op+" "+p)
	}
	if fsys.only != nil && !fsys.only(op, p) {
		return Fault{}
	}
	fsys.ops++
	for _, f := range fsys.faults {
		if f.At == fsys.ops {
			return f
		}
	}
	return Fault{}
}

// die is the process crash.
func die() {
	fsys.C.Crash++
	fsys.frozen = true
	simrt.RaceRelease(unsafe.Pointer(&lockAddr))
	runtime.Goexit()
}

// PowerLoss throws away what is not durable: a suffix of the pending namespace operations and, per
// file, whatever part of the data the plan's stream says. Call it after a crash.
func PowerLoss() {
	fsys.C.PowerLoss++
	keep := simrt.F.Draw(len(fsys.pend) + 1)
	for i := 0; i < len(fsys.pend)-keep; i++ {
		applyNS(fsys.dns, fsys.pend[i])
	}
	fsys.pend = nil
	var paths []string
	for p := range fsys.dns {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	fsys.ns = map[string]*inode{}
	for _, p := range paths {
		n := fsys.dns[p]
		if !n.dir && n.writes > 0 {
			switch simrt.F.Draw(3) {
			case 1: // un-synced data lost
				n.data = append([]byte(nil), n.synced...)
				fsys.C.LostWrite++
			case 2: // a prefix reached the disk
				n.data = n.data[:simrt.F.Draw(len(n.data)+1)]
				fsys.C.TornWrite++
			}
		}
		n.synced, n.hasSyn, n.writes = append([]byte(nil), n.data...), true, 0
		fsys.ns[p] = n
	}
}

// Restart begins a new process on the same disk after a crash; fault plan cleared.
func Restart() {
	fsys.frozen = false
	fsys.faults, fsys.short = nil, 0
	fsys.opened, fsys.closed = 0, 0
	fsys.only = nil
	commit()
	for _, n := range fsys.ns {
		n.synced, n.hasSyn, n.writes = append([]byte(nil), n.data...), true, 0
	}
}

func applyNS(m map[string]*inode, o nsop) {
	switch o.kind {
	case 'c', 'm':
		m[o.a] = o.n
	case 'd':
		delete(m, o.a)
	case 'r':
		if n, ok := m[o.a]; ok {
			delete(m, o.a)
			m[o.b] = n
		} else {
			m[o.b] = o.n
		}
	}
}

func nsdo(o nsop) {
	applyNS(fsys.ns, o)
	fsys.pend = append(fsys.pend, o)
}

func commit() {
	for _, o := range fsys.pend {
		applyNS(fsys.dns, o)
	}
	fsys.pend = nil
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// ---- harness access (no faults, no scheduling points)

// Put writes a durable file, creating its parents.
func Put(p string, data []byte) {
	p = abs(p)
	MkAll(path.Dir(p))
	n := newInode(false)
	n.data = append([]byte(nil), data...)
	n.synced, n.hasSyn = append([]byte(nil), data...), true
	fsys.ns[p], fsys.dns[p] = n, n
}

// MkAll makes a durable directory.
func MkAll(p string) {
	p = abs(p)
	for q := p; ; q = path.Dir(q) {
		if fsys.ns[q] == nil {
			n := newInode(true)
			fsys.ns[q], fsys.dns[q] = n, n
		}
		if q == "/" {
			return
		}
	}
}

// Get returns a file's contents.
func Get(p string) ([]byte, bool) {
	n := fsys.ns[abs(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Del removes a file.
func Del(p string) { delete(fsys.ns, abs(p)); delete(fsys.dns, abs(p)) }

// Files lists all file paths under dir, sorted.
func Files(dir string) []string {
	dir = abs(dir)
	if dir != "/" {
		dir += "/"
	}
	var out []string
	for p, n := range fsys.ns {
		if !n.dir && strings.HasPrefix(p, dir) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// ---- the os API

// Real types and values.
type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	SyscallError = os.SyscallError
	LinkError    = os.LinkError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

// File stands in for os.File.
type File struct {
	name   string
	n      *inode
	pos    int64
	flag   int
	closed bool
	std    bool
	dirpos int
	names  []string
	failed bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0777
	}
	return 0666
}
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	enter()
	defer leave()
	p := abs(name)
	ft := point("open", p)
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind == EIO || ft.Kind == Partial {
		fsys.C.ErrOpen++
		return nil, perr("open", name, syscall.EIO)
	}
	if p == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	n := fsys.ns[p]
	wr := flag&(O_WRONLY|O_RDWR) != 0
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := fsys.ns[path.Dir(p)]
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = newInode(false)
		nsdo(nsop{kind: 'c', a: p, n: n})
	} else {
		if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && wr {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&O_TRUNC != 0 && wr && len(n.data) > 0 {
			n.data = nil
			n.writes++
		}
	}
	fsys.opened++
	return &File{name: name, n: n, flag: flag}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	enter()
	defer leave()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	ft := point("read", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	avail := int64(len(f.n.data)) - f.pos
	if ft.Kind == EIO || ft.Kind == CloseErr {
		fsys.C.ErrRead++
		return 0, perr("read", f.name, syscall.EIO)
	}
	if avail <= 0 {
		return 0, io.EOF
	}
	m := len(b)
	if int64(m) > avail {
		m = int(avail)
	}
	if ft.Kind == Partial {
		// Part of the data arrives together with the error, as Reader permits.
		m = m * ft.Arg / 1000
		copy(b, f.n.data[f.pos:f.pos+int64(m)])
		f.pos += int64(m)
		fsys.C.ErrRead++
		return m, perr("read", f.name, syscall.EIO)
	}
	if fsys.short > 0 && m > 1 && simrt.F.Chance(fsys.short, 1000) {
		m = 1 + simrt.F.Draw(m-1)
		fsys.C.ShortRead++
	}
	copy(b, f.n.data[f.pos:f.pos+int64(m)])
	f.pos += int64(m)
	return m, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	enter()
	defer leave()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	ft := point("read", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind != None {
		fsys.C.ErrRead++
		return 0, perr("read", f.name, syscall.EIO)
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	m := copy(b, f.n.data[off:])
	if m < len(b) {
		return m, io.EOF
	}
	return m, nil
}

func (n *inode) writeAt(b []byte, off int64) {
	end := off + int64(len(b))
	for int64(len(n.data)) < off {
		n.data = append(n.data, 0)
	}
	if end <= int64(len(n.data)) {
		// Copy on write: readers of the previous contents (synced copies) keep theirs.
		d := append([]byte(nil), n.data...)
		copy(d[off:], b)
		n.data = d
	} else {
		n.data = append(n.data[:off:off], b...)
	}
	n.writes++
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std {
		enter()
		if fsys.capture && len(fsys.out) < 1<<20 {
			fsys.out = append(fsys.out, b...)
		}
		leave()
		return len(b), nil
	}
	enter()
	defer leave()
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	ft := point("write", abs(f.name))
	off := f.pos
	if f.flag&O_APPEND != 0 {
		off = int64(len(f.n.data))
	}
	switch ft.Kind {
	case CrashHere:
		k := len(b) * ft.Arg / 1000
		if k > 0 {
			f.n.writeAt(b[:k], off)
			fsys.C.TornWrite++
		}
		die()
	case EIO:
		fsys.C.ErrWrite++
		return 0, perr("write", f.name, syscall.EIO)
	case Partial:
		k := len(b) * ft.Arg / 1000
		if k > 0 {
			f.n.writeAt(b[:k], off)
			f.pos = off + int64(k)
		}
		fsys.C.ShortWrite++
		return k, perr("write", f.name, syscall.ENOSPC)
	case CloseErr:
		// Accepted now, lost at write-back; reported by Sync or Close.
		f.failed = true
		f.pos = off + int64(len(b))
		fsys.C.LostWrite++
		return len(b), nil
	}
	if f.failed {
		f.pos = off + int64(len(b))
		return len(b), nil
	}
	f.n.writeAt(b, off)
	f.pos = off + int64(len(b))
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	p := f.pos
	f.pos = off
	n, err := f.Write(b)
	f.pos = p
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	enter()
	defer leave()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	ft := point("seek", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind == EIO || ft.Kind == Partial {
		fsys.C.ErrMeta++
		return 0, perr("seek", f.name, syscall.EIO)
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	f.names, f.dirpos = nil, 0
	return off, nil
}

func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std {
		return nil
	}
	enter()
	defer leave()
	if err := f.check("sync"); err != nil {
		return err
	}
	ft := point("sync", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind != None || f.failed {
		fsys.C.ErrSync++
		return perr("sync", f.name, syscall.EIO)
	}
	if !f.n.dir {
		f.n.synced, f.n.hasSyn, f.n.writes = append([]byte(nil), f.n.data...), true, 0
	}
	commit()
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std {
		return nil
	}
	enter()
	defer leave()
	if err := f.check("close"); err != nil {
		return err
	}
	ft := point("close", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	f.closed = true
	fsys.closed++
	wr := f.flag&(O_WRONLY|O_RDWR) != 0
	if f.failed {
		fsys.C.ErrClose++
		return perr("close", f.name, syscall.EIO)
	}
	if wr && ft.Kind != None {
		// Write-back failed: part of the data is gone.
		if f.n.writes > 0 {
			f.n.data = f.n.data[:len(f.n.data)*ft.Arg/1000]
		}
		fsys.C.ErrClose++
		return perr("close", f.name, syscall.EIO)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	enter()
	defer leave()
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std {
		return info{name: f.name}, nil
	}
	ft := point("stat", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind == EIO {
		fsys.C.ErrMeta++
		return nil, perr("stat", f.name, syscall.EIO)
	}
	return info{path.Base(f.name), int64(len(f.n.data)), f.n.dir}, nil
}

func (f *File) Truncate(size int64) error {
	enter()
	defer leave()
	if err := f.check("truncate"); err != nil {
		return err
	}
	ft := point("truncate", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind != None {
		fsys.C.ErrMeta++
		return perr("truncate", f.name, syscall.EIO)
	}
	d := append([]byte(nil), f.n.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	f.n.data = d[:size]
	f.n.writes++
	return nil
}

func (f *File) Chmod(m FileMode) error { return nil }

// kids lists the entries of a directory: any order is legal, and the plan may permute it.
func kids(p string) []string {
	pre := p
	if pre != "/" {
		pre += "/"
	}
	var out []string
	for q := range fsys.ns {
		if q != "/" && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			out = append(out, q[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

func (f *File) listing(op string) error {
	if !f.n.dir {
		return perr(op, f.name, syscall.ENOTDIR)
	}
	ft := point("readdir", abs(f.name))
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind != None {
		fsys.C.ErrMeta++
		return perr(op, f.name, syscall.EIO)
	}
	if f.names == nil {
		f.names = kids(abs(f.name))
		if fsys.shuffle && len(f.names) > 1 {
			for i := len(f.names) - 1; i > 0; i-- {
				j := simrt.F.Draw(i + 1)
				f.names[i], f.names[j] = f.names[j], f.names[i]
			}
			fsys.C.DirOrder++
		}
	}
	return nil
}

func (f *File) take(n int) ([]string, error) {
	rest := f.names[f.dirpos:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if len(rest) > n {
			rest = rest[:n]
		}
	}
	f.dirpos += len(rest)
	return append([]string(nil), rest...), nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	enter()
	defer leave()
	if err := f.check("readdirent"); err != nil {
		return nil, err
	}
	if err := f.listing("readdirent"); err != nil {
		return nil, err
	}
	return f.take(n)
}

func (f *File) infos(n int) ([]info, error) {
	if err := f.check("readdirent"); err != nil {
		return nil, err
	}
	if err := f.listing("readdirent"); err != nil {
		return nil, err
	}
	names, err := f.take(n)
	var out []info
	for _, nm := range names {
		k := fsys.ns[path.Join(abs(f.name), nm)]
		if k != nil {
			out = append(out, info{nm, int64(len(k.data)), k.dir})
		}
	}
	return out, err
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	enter()
	defer leave()
	is, err := f.infos(n)
	var out []FileInfo
	for _, i := range is {
		out = append(out, i)
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	enter()
	defer leave()
	is, err := f.infos(n)
	var out []DirEntry
	for _, i := range is {
		out = append(out, i)
	}
	return out, err
}

func meta(op, name string) error {
	ft := point(op, abs(name))
	if ft.Kind == CrashHere {
		die()
	}
	if ft.Kind == EIO || ft.Kind == Partial {
		if op == "rename" {
			fsys.C.ErrRename++
		} else {
			fsys.C.ErrMeta++
		}
		return perr(op, name, syscall.EIO)
	}
	return nil
}

func Stat(name string) (FileInfo, error) {
	enter()
	defer leave()
	if err := meta("stat", name); err != nil {
		return nil, err
	}
	n := fsys.ns[abs(name)]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{path.Base(abs(name)), int64(len(n.data)), n.dir}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error {
	enter()
	defer leave()
	if err := meta("mkdir", name); err != nil {
		return err
	}
	p := abs(name)
	if fsys.ns[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d := fsys.ns[path.Dir(p)]; d == nil || !d.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	nsdo(nsop{kind: 'm', a: p, n: newInode(true)})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := abs(name)
	if fi, err := Stat(p); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if p != "/" {
		if err := MkdirAll(path.Dir(p), perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil && !os.IsExist(err) {
		return err
	}
	return nil
}

func Remove(name string) error {
	enter()
	defer leave()
	if err := meta("remove", name); err != nil {
		return err
	}
	p := abs(name)
	n := fsys.ns[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(kids(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	nsdo(nsop{kind: 'd', a: p, n: n})
	return nil
}

func RemoveAll(name string) error {
	enter()
	defer leave()
	if err := meta("remove", name); err != nil {
		return err
	}
	p := abs(name)
	var del []string
	for q := range fsys.ns {
		if q == p || strings.HasPrefix(q, p+"/") {
			del = append(del, q)
		}
	}
	sort.Strings(del)
	for i := len(del) - 1; i >= 0; i-- {
		nsdo(nsop{kind: 'd', a: del[i], n: fsys.ns[del[i]]})
	}
	return nil
}

func Rename(a, b string) error {
	enter()
	defer leave()
	if err := meta("rename", a); err != nil {
		return err
	}
	p, q := abs(a), abs(b)
	n := fsys.ns[p]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if d := fsys.ns[path.Dir(q)]; d == nil || !d.dir {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if t := fsys.ns[q]; t != nil && t.dir {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	// The directory of temporary files is a file system of its own, as it is on most machines.
	if inTmp(p) != inTmp(q) {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EXDEV}
	}
	nsdo(nsop{kind: 'r', a: p, b: q, n: n})
	return nil
}

func inTmp(p string) bool { return strings.HasPrefix(p, "/tmp/") }

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, m FileMode) error { return nil }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func tmpName(dir, pat string) string {
	fsys.tmp++
	s := strconv.Itoa(100000 + fsys.tmp)
	if dir == "" {
		dir = "/tmp"
	}
	if i := strings.LastIndex(pat, "*"); i >= 0 {
		return dir + "/" + pat[:i] + s + pat[i+1:]
	}
	return dir + "/" + pat + s
}

func CreateTemp(dir, pat string) (*File, error) {
	enter()
	nm := tmpName(dir, pat)
	leave()
	return OpenFile(nm, O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pat string) (string, error) {
	enter()
	nm := tmpName(dir, pat)
	leave()
	return nm, Mkdir(nm, 0700)
}

func Getwd() (string, error)        { return "/work", nil }
func TempDir() string               { return "/tmp" }
func UserHomeDir() (string, error)  { return "/work", nil }
func UserCacheDir() (string, error) { return "/work/.cache", nil }
func Getpid() int                   { return 4242 }
func Exit(code int)                 { panic("os.Exit(" + strconv.Itoa(code) + ")") }
