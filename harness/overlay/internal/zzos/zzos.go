// Package zzos is a small in-memory POSIX file system. Sources under check
// are rewritten so that their operating-system calls come here: every change
// of the file system is one numbered step, at which the process can die (the
// step has no effect, or a write only a part of it, and nothing after it has
// any) or the step can fail.
package zzos

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"syscall"
	"time"
)

// Types of package os.
type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

// Errors of package os.
var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrClosed     = fs.ErrClosed
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
)

func is(err, target error) bool {
	if pe, ok := err.(*PathError); ok {
		err = pe.Err
	}
	return err == target
}

// IsNotExist is os.IsNotExist.
func IsNotExist(err error) bool { return is(err, ErrNotExist) }

// IsExist is os.IsExist.
func IsExist(err error) bool { return is(err, ErrExist) || is(err, errNotEmpty) }

// IsPermission is os.IsPermission.
func IsPermission(err error) bool { return is(err, ErrPermission) }

var errFault = errors.New("input/output error")
var errNotDir = errors.New("not a directory")
var errIsDir = errors.New("is a directory")
var errNotEmpty = errors.New("directory not empty")
var errInvalid = errors.New("invalid argument")
var errDead = errors.New("process dies")
var errGone = errors.New("process is dead")

// node is a file or directory.
type node struct {
	p    string // cleaned absolute path
	dir  bool
	data []byte
	mode FileMode
}

// Touch is one access to the file system.
type Touch struct {
	Op   string
	Path string // as resolved
}

var (
	nodes   []*node
	dead    bool
	step    int
	crashAt = -1
	failAt  = -1
	keep    int // bytes of an interrupted write that reach the file
	tmpN    int
	// Touched lists every access.
	Touched []Touch
	// Umask is the process's file creation mask.
	Umask FileMode = 022
	// Tmp is the directory for temporary files.
	Tmp = "/tmp"
	// Denied tells that a failing change fails for want of permission.
	Denied bool
	// Unreadable is a file that cannot be opened.
	Unreadable string
	// Watch is called between changes.
	Watch func()
	// TmpMount tells that Tmp is a mount point of its own.
	TmpMount bool
)

// Reset empties the file system but for / and the temporary directory.
func Reset() {
	nodes = []*node{{p: "/", dir: true, mode: 0755 | fs.ModeDir}, {p: Tmp, dir: true, mode: 0777 | fs.ModeDir}}
	dead, step, crashAt, failAt, keep, tmpN, Touched = false, 0, -1, -1, 0, 0, nil
	Denied, Unreadable, Watch = false, "", nil
}

// CrashAt makes the process die at the n-th change from now on; if it is a
// write, k bytes of it still reach the file.
func CrashAt(n, k int) { step, crashAt, keep = 0, n, k }

// FailAt makes the n-th change from now on fail, k bytes of a write reaching
// the file.
func FailAt(n, k int) { step, failAt, keep = 0, n, k }

// FailThenCrashAt makes the n-th change fail and the process die at the m-th.
func FailThenCrashAt(n, m, k int) { step, failAt, crashAt, keep = 0, n, m, k }

// Steps is the number of changes since CrashAt or FailAt.
func Steps() int { return step }

// Dead tells whether the process died.
func Dead() bool { return dead }

// Restart starts the process anew.
func Restart() { dead, step, crashAt, failAt = false, 0, -1, -1 }

// Raw returns the content of a file.
func Raw(p string) ([]byte, bool) {
	if n := find(p); n != nil && !n.dir {
		return n.data, true
	}
	return nil, false
}

// RawMode returns the permissions of a file.
func RawMode(p string) FileMode {
	if n := find(p); n != nil {
		return n.mode
	}
	return 0
}

// Put seeds a file and the directories above it.
func Put(p string, data []byte, mode FileMode) {
	for d := path.Dir(p); find(d) == nil; d = path.Dir(d) {
		nodes = append(nodes, &node{p: d, dir: true, mode: 0755 | fs.ModeDir})
	}
	if n := find(p); n != nil {
		n.data, n.mode = data, mode
		return
	}
	nodes = append(nodes, &node{p: p, data: data, mode: mode})
}

// IsDir tells whether a directory exists.
func IsDir(p string) bool {
	n := find(p)
	return n != nil && n.dir
}

// Files lists the paths of all files.
func Files() []string {
	var out []string
	for _, n := range nodes {
		if !n.dir {
			out = append(out, n.p)
		}
	}
	return out
}

func find(p string) *node {
	for _, n := range nodes {
		if n.p == p {
			return n
		}
	}
	return nil
}

func fail(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

func resolve(op, p string) (string, error) {
	if p == "" {
		return "", ErrNotExist
	}
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return "", errInvalid
		}
	}
	if p[0] != '/' {
		p = "/cwd/" + p
	}
	p = path.Clean(p)
	Touched = append(Touched, Touch{op, p})
	return p, nil
}

// change counts a change of the file system; it reports false when the change
// must not happen.
func change() (bool, error) {
	if dead {
		return false, errGone
	}
	if Watch != nil {
		Watch()
	}
	n := step
	step++
	if crashAt >= 0 && n == crashAt {
		dead = true
		return false, errDead
	}
	if failAt >= 0 && n == failAt {
		if Denied {
			return false, ErrPermission
		}
		return false, errFault
	}
	return true, nil
}

func parent(p string) error {
	d := find(path.Dir(p))
	if d == nil {
		return ErrNotExist
	}
	if !d.dir {
		return errNotDir
	}
	return nil
}

// look finds what an operation reads.
func look(op, p string) (*node, error) {
	r, err := resolve(op, p)
	if err != nil {
		return nil, fail(op, p, err)
	}
	if dead {
		return nil, fail(op, p, errDead)
	}
	n := find(r)
	if n == nil {
		for d := path.Dir(r); d != "/"; d = path.Dir(d) {
			if x := find(d); x != nil && !x.dir {
				return nil, fail(op, p, errNotDir)
			}
		}
		return nil, fail(op, p, ErrNotExist)
	}
	return n, nil
}

// File is an open file.
type File struct {
	name     string
	n        *node
	off      int
	r, w, ap bool
	closed   bool
}

// Standard streams; what is written to them disappears.
var (
	Stdout = &File{name: "/dev/stdout", w: true}
	Stderr = &File{name: "/dev/stderr", w: true}
)

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	r, err := resolve("open", name)
	if err != nil {
		return nil, fail("open", name, err)
	}
	if dead {
		return nil, fail("open", name, errDead)
	}
	n := find(r)
	if n != nil && r == Unreadable {
		return nil, fail("open", name, ErrPermission)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	write := acc == os.O_WRONLY || acc == os.O_RDWR
	if n == nil {
		if _, err := look("open", name); flag&os.O_CREATE == 0 {
			return nil, err
		}
		if err := parent(r); err != nil {
			return nil, fail("open", name, err)
		}
		if ok, err := change(); !ok {
			return nil, fail("open", name, err)
		}
		n = &node{p: r, mode: perm &^ Umask}
		nodes = append(nodes, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, fail("open", name, ErrExist)
		}
		if n.dir && (write || flag&os.O_CREATE != 0) {
			return nil, fail("open", name, errIsDir)
		}
		if flag&os.O_TRUNC != 0 && write {
			if ok, err := change(); !ok {
				return nil, fail("open", name, err)
			}
			n.data = nil
		}
	}
	return &File{name: name, n: n, r: acc != os.O_WRONLY, w: write, ap: flag&os.O_APPEND != 0}, nil
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// Name is (*os.File).Name.
func (f *File) Name() string { return f.name }

// Printed gets what is written to the standard output.
var Printed func([]byte)

// Write is (*os.File).Write.
func (f *File) Write(b []byte) (int, error) {
	if f.closed || !f.w {
		return 0, fail("write", f.name, ErrClosed)
	}
	if f.n == nil {
		if Printed != nil && f == Stdout {
			Printed(b)
		}
		return len(b), nil
	}
	ok, err := change()
	n := len(b)
	if !ok {
		if err == errGone {
			return 0, fail("write", f.name, err)
		}
		n = keep
		if n > len(b) {
			n = len(b)
		}
	}
	if f.ap {
		f.off = len(f.n.data)
	}
	d := append([]byte{}, f.n.data...)
	for i := 0; i < n; i++ {
		if f.off < len(d) {
			d[f.off] = b[i]
		} else {
			d = append(d, b[i])
		}
		f.off++
	}
	f.n.data = d
	if Watch != nil {
		Watch()
	}
	if !ok {
		return n, fail("write", f.name, err)
	}
	return n, nil
}

// WriteString is (*os.File).WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Read is (*os.File).Read.
func (f *File) Read(b []byte) (int, error) {
	if f.closed || !f.r {
		return 0, fail("read", f.name, ErrClosed)
	}
	if dead {
		return 0, fail("read", f.name, errDead)
	}
	if f.n.dir {
		return 0, fail("read", f.name, errIsDir)
	}
	if f.off >= len(f.n.data) {
		return 0, eof
	}
	n := copy(b, f.n.data[f.off:])
	f.off += n
	return n, nil
}

// Sync is (*os.File).Sync.
func (f *File) Sync() error {
	if f.closed {
		return fail("sync", f.name, ErrClosed)
	}
	if ok, err := change(); !ok {
		return fail("sync", f.name, err)
	}
	return nil
}

// Close is (*os.File).Close.
func (f *File) Close() error {
	if f.closed {
		return fail("close", f.name, ErrClosed)
	}
	f.closed = true
	return nil
}

// Chmod is (*os.File).Chmod.
func (f *File) Chmod(m FileMode) error {
	if f.closed {
		return fail("chmod", f.name, ErrClosed)
	}
	if ok, err := change(); !ok {
		return fail("chmod", f.name, err)
	}
	f.n.mode = f.n.mode&^fs.ModePerm | m&fs.ModePerm
	return nil
}

// Truncate is (*os.File).Truncate.
func (f *File) Truncate(n int64) error {
	if ok, err := change(); !ok {
		return fail("truncate", f.name, err)
	}
	if int(n) < len(f.n.data) {
		f.n.data = append([]byte{}, f.n.data[:n]...)
	}
	return nil
}

// Stat is (*os.File).Stat.
func (f *File) Stat() (FileInfo, error) { return info{f.n}, nil }

type info struct{ n *node }

func (i info) Name() string       { return path.Base(i.n.p) }
func (i info) Size() int64        { return int64(len(i.n.data)) }
func (i info) Mode() FileMode     { return i.n.mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() interface{}   { return nil }

// Stat is os.Stat.
func Stat(name string) (FileInfo, error) {
	n, err := look("stat", name)
	if err != nil {
		return nil, err
	}
	return info{n}, nil
}

// Lstat is os.Lstat.
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	n, err := look("open", name)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, fail("read", name, errIsDir)
	}
	if n.p == Unreadable {
		return nil, fail("open", name, ErrPermission)
	}
	return append([]byte{}, n.data...), nil
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// Remove is os.Remove.
func Remove(name string) error {
	n, err := look("remove", name)
	if err != nil {
		return err
	}
	if n.dir {
		for _, m := range nodes {
			if m != n && path.Dir(m.p) == n.p {
				return fail("remove", name, errNotEmpty)
			}
		}
	}
	if ok, err := change(); !ok {
		return fail("remove", name, err)
	}
	drop(n)
	return nil
}

func drop(n *node) {
	var out []*node
	for _, m := range nodes {
		if m != n {
			out = append(out, m)
		}
	}
	nodes = out
}

// RemoveAll is os.RemoveAll.
func RemoveAll(name string) error {
	n, err := look("remove", name)
	if err != nil {
		if errors.Is(err, ErrNotExist) {
			return nil
		}
		return err
	}
	var below []*node
	for _, m := range nodes {
		if len(m.p) > len(n.p) && m.p[:len(n.p)+1] == n.p+"/" {
			below = append(below, m)
		}
	}
	below = append(below, n)
	for _, m := range below {
		if ok, err := change(); !ok {
			return fail("remove", name, err)
		}
		drop(m)
	}
	return nil
}

// Chmod is os.Chmod.
func Chmod(name string, m FileMode) error {
	n, err := look("chmod", name)
	if err != nil {
		return err
	}
	if ok, err := change(); !ok {
		return fail("chmod", name, err)
	}
	n.mode = n.mode&^fs.ModePerm | m&fs.ModePerm
	return nil
}

// Truncate is os.Truncate.
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(n)
}

// Mkdir is os.Mkdir.
func Mkdir(name string, perm FileMode) error {
	r, err := resolve("mkdir", name)
	if err != nil {
		return fail("mkdir", name, err)
	}
	if find(r) != nil {
		return fail("mkdir", name, ErrExist)
	}
	if err := parent(r); err != nil {
		return fail("mkdir", name, err)
	}
	if ok, err := change(); !ok {
		return fail("mkdir", name, err)
	}
	nodes = append(nodes, &node{p: r, dir: true, mode: perm&^Umask | fs.ModeDir})
	return nil
}

// MkdirAll is os.MkdirAll.
func MkdirAll(name string, perm FileMode) error {
	r, err := resolve("mkdir", name)
	if err != nil {
		return fail("mkdir", name, err)
	}
	if n := find(r); n != nil {
		if n.dir {
			return nil
		}
		return fail("mkdir", name, errNotDir)
	}
	if r != "/" {
		if err := MkdirAll(path.Dir(r), perm); err != nil {
			return err
		}
	}
	return Mkdir(r, perm)
}

func mount(p string) bool {
	return TmpMount && (p == Tmp || (len(p) > len(Tmp) && p[:len(Tmp)+1] == Tmp+"/"))
}

// Rename is os.Rename.
func Rename(from, to string) error {
	n, err := look("rename", from)
	if err != nil {
		return err
	}
	r, err := resolve("rename", to)
	if err != nil {
		return fail("rename", to, err)
	}
	if mount(n.p) != mount(r) {
		return fail("rename", to, errors.New("invalid cross-device link"))
	}
	if err := parent(r); err != nil {
		return fail("rename", to, err)
	}
	t := find(r)
	if t == n {
		return nil
	}
	if t != nil && t.dir != n.dir {
		return fail("rename", to, ErrExist)
	}
	if ok, err := change(); !ok {
		return fail("rename", to, err)
	}
	if t != nil {
		drop(t)
	}
	old := n.p
	for _, m := range nodes {
		if m != n && len(m.p) > len(old) && m.p[:len(old)+1] == old+"/" {
			m.p = r + m.p[len(old):]
		}
	}
	n.p = r
	return nil
}

// Link is os.Link; hard links are not offered.
func Link(from, to string) error { return fail("link", from, errInvalid) }

// Symlink is os.Symlink; symbolic links are not offered.
func Symlink(from, to string) error { return fail("symlink", from, errInvalid) }

// TempDir is os.TempDir.
func TempDir() string { return Tmp }

func digits(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

func tempName(dir, pattern string) (string, error) {
	if dir == "" {
		dir = Tmp
	}
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '/' {
			return "", fail("createtemp", pattern, errors.New("pattern contains path separator"))
		}
	}
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	tmpN++
	return dir + "/" + pre + "7" + digits(tmpN) + suf, nil
}

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	for {
		n, err := tempName(dir, pattern)
		if err != nil {
			return nil, err
		}
		f, err := OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && errors.Is(err, ErrExist) {
			continue
		}
		return f, err
	}
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	n, err := tempName(dir, pattern)
	if err != nil {
		return "", err
	}
	return n, Mkdir(n, 0700)
}

func list(dir string) []*node {
	var out []*node
	for _, n := range nodes {
		if n.p != "/" && path.Dir(n.p) == dir {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].p < out[j].p })
	return out
}

// IoutilReadDir is ioutil.ReadDir.
func IoutilReadDir(name string) ([]FileInfo, error) {
	n, err := look("open", name)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, fail("readdir", name, errNotDir)
	}
	var out []FileInfo
	for _, m := range list(n.p) {
		out = append(out, info{m})
	}
	return out, nil
}

type entry struct{ n *node }

func (e entry) Name() string            { return path.Base(e.n.p) }
func (e entry) IsDir() bool             { return e.n.dir }
func (e entry) Type() FileMode          { return e.n.mode & fs.ModeType }
func (e entry) Info() (FileInfo, error) { return info{e.n}, nil }

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]DirEntry, error) {
	n, err := look("open", name)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, fail("readdir", name, errNotDir)
	}
	var out []DirEntry
	for _, m := range list(n.p) {
		out = append(out, entry{m})
	}
	return out, nil
}

// IoutilReadFile is ioutil.ReadFile.
func IoutilReadFile(name string) ([]byte, error) { return ReadFile(name) }

// IoutilWriteFile is ioutil.WriteFile.
func IoutilWriteFile(name string, data []byte, perm FileMode) error {
	return WriteFile(name, data, perm)
}

// IoutilTempFile is ioutil.TempFile.
func IoutilTempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// IoutilTempDir is ioutil.TempDir.
func IoutilTempDir(dir, pattern string) (string, error) { return MkdirTemp(dir, pattern) }

// FilepathGlob is filepath.Glob.
func FilepathGlob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	Touched = append(Touched, Touch{"glob", path.Clean(pattern)})
	var out []string
	for _, n := range nodes {
		if ok, _ := path.Match(pattern, n.p); ok {
			out = append(out, n.p)
		}
	}
	return out, nil
}

// FilepathWalk is filepath.Walk.
func FilepathWalk(root string, fn func(p string, fi FileInfo, err error) error) error {
	n, err := look("lstat", root)
	if err != nil {
		return fn(root, nil, err)
	}
	return walk(root, n, fn)
}

var skipDir = filepath.SkipDir

func walk(p string, n *node, fn func(p string, fi FileInfo, err error) error) error {
	err := fn(p, info{n}, nil)
	if err != nil {
		if n.dir && err == skipDir {
			return nil
		}
		return err
	}
	if !n.dir {
		return nil
	}
	for _, m := range list(n.p) {
		if err := walk(p+"/"+path.Base(m.p), m, fn); err != nil {
			if err == skipDir && !m.dir {
				return nil
			}
			return err
		}
	}
	return nil
}

// ExitCode is what Exit panics with.
type ExitCode struct{ N int }

// Exit is os.Exit.
func Exit(n int) { panic(ExitCode{n}) }

// Hostname is the name of the host.
func Hostname() (string, error) { return "host", nil }

// Interrupt stands for os.Interrupt.
var Interrupt os.Signal = syscall.SIGINT
