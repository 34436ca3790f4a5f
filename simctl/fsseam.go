package main

import (
	"go/ast"
	"go/token"
	"strconv"
)

// The file system seam: in the instrumented copy the calls of the os and ioutil
// packages that touch files go to an in-memory file system of the simulator,
// where every operation is a scheduling point and can be made to fail.

var fsNames = map[string]map[string]bool{
	"os": {"Create": true, "Open": true, "OpenFile": true, "Stat": true, "Lstat": true, "Rename": true, "Remove": true, "RemoveAll": true,
		"ReadFile": true, "WriteFile": true, "CreateTemp": true, "MkdirAll": true, "Mkdir": true, "Truncate": true, "Link": true, "Chmod": true, "File": true},
	"io/ioutil": {"ReadFile": true, "WriteFile": true, "TempFile": true},
}

// fileSeam redirects the file operations of f.
func (in *instrumenter) fileSeam(f *ast.File) {
	local := map[string]string{} // name in this file -> import path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if fsNames[p] == nil {
			continue
		}
		n := p
		if p == "io/ioutil" {
			n = "ioutil"
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		if n != "_" && n != "." {
			local[n] = p
		}
	}
	if len(local) == 0 {
		return
	}
	hit := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil { // Obj: a local variable that hides the package
			return true
		}
		p, ok := local[id.Name]
		if ok && fsNames[p][s.Sel.Name] {
			hit[id.Name] = true
			in.used = true
			id.Name = "simrt__"
		}
		return true
	})
	for _, n := range []string{"os", "io/ioutil"} {
		for l, p := range local {
			if p == n && hit[l] {
				// the import may have no other use
				use := "ErrNotExist"
				if p == "io/ioutil" {
					use = "Discard"
				}
				f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
					Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(l), Sel: ast.NewIdent(use)}}}}})
			}
		}
	}
}

const simfsSrc = `package zzsimrt

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// A file system in memory. The page cache survives the crash of a process, so
// what a write call has taken stays; a power failure leaves for sure only what
// was synced (names are journalled: a rename is durable, in order).

type node struct {
	data   []byte
	synced []byte
	dirty  bool
}

// FSPower is a power failure: of every file that was not synced, what the disk
// has is the state of the last sync, nothing, zeros, a part or all of it, as
// choose decides.
func FSPower(choose func(n int) int) int {
	lost := 0
	for _, k := range FSList() {
		n := fsFiles[k]
		if !n.dirty {
			continue
		}
		before := string(n.data)
		switch choose(5) {
		case 0:
			n.data = append([]byte{}, n.synced...)
		case 1:
			n.data = nil
		case 2:
			n.data = make([]byte, len(n.data))
		case 3:
			n.data = n.data[:choose(len(n.data)+1)]
		}
		n.synced, n.dirty = append([]byte{}, n.data...), false
		if string(n.data) != before {
			lost++
		}
	}
	return lost
}

var fsFiles = map[string]*node{}

// FSFault is what the simulator decides for one operation.
type FSFault struct {
	Err   error
	Short int  // with Err: number of bytes a write takes before it fails
	Read  int  // a read returns at most this many bytes (0: no limit)
}

// FSHook is called before every operation (n: bytes to write, position of a read).
var FSHook = func(op, path string, n int) FSFault { return FSFault{} }

func fsName(p string) string {
	p = filepath.Clean(p)
	// d#3/x is the file d/x seen by another incarnation of a process
	for {
		i := strings.Index(p, "#")
		if i < 0 {
			return p
		}
		j := strings.Index(p[i:], "/")
		if j < 0 {
			return p[:i]
		}
		p = p[:i] + p[i+j:]
	}
}

// FSGet and FSPut are for the harness: no fault, no scheduling point.
func FSGet(p string) ([]byte, bool) {
	n := fsFiles[fsName(p)]
	if n == nil {
		return nil, false
	}
	return append([]byte{}, n.data...), true
}

func FSPut(p string, b []byte) { fsFiles[fsName(p)] = &node{data: append([]byte{}, b...), synced: append([]byte{}, b...)} }

func FSRemove(p string) { delete(fsFiles, fsName(p)) }

// FSList returns the names of all files.
func FSList() []string {
	var l []string
	for k := range fsFiles {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func fsErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func fsOp(op, p string, n int) FSFault {
	yield(0)
	f := FSHook(op, p, n)
	return f
}

// File is an open file.
type File struct {
	name           string
	n              *node
	pos            int
	rd, wr, app    bool
	closed         bool
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if f := fsOp("open", name, flag); f.Err != nil {
		return nil, fsErr("open", name, f.Err)
	}
	k := fsName(name)
	n := fsFiles[k]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, fsErr("open", name, syscall.ENOENT)
		}
		n = &node{}
		fsFiles[k] = n
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, fsErr("open", name, syscall.EEXIST)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if flag&os.O_TRUNC != 0 {
		n.data, n.dirty = nil, true
	}
	return &File{name: name, n: n, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}, nil
}

var fsTemp int

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "tmp"
	}
	for {
		fsTemp++
		s := fmt.Sprintf("%09d", fsTemp)
		name := pattern + s
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			name = pattern[:i] + s + pattern[i+1:]
		}
		f, err := OpenFile(dir+"/"+name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return fsErr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if !f.wr {
		return 0, fsErr("write", f.name, syscall.EBADF)
	}
	x := fsOp("write", f.name, len(b))
	n := len(b)
	if x.Err != nil {
		n = x.Short
		if n > len(b) {
			n = len(b)
		}
	}
	if f.app {
		f.pos = len(f.n.data)
	}
	for len(f.n.data) < f.pos+n {
		f.n.data = append(f.n.data, 0)
	}
	copy(f.n.data[f.pos:], b[:n])
	f.n.dirty = true
	f.pos += n
	if x.Err != nil {
		return n, fsErr("write", f.name, x.Err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	x := fsOp("read", f.name, f.pos)
	if x.Err != nil {
		return 0, fsErr("read", f.name, x.Err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	if x.Read > 0 && x.Read < len(b) {
		b = b[:x.Read]
	}
	n := copy(b, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if x := fsOp("read", f.name, int(off)); x.Err != nil {
		return 0, fsErr("read", f.name, x.Err)
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.pos = int(off)
	case io.SeekCurrent:
		f.pos += int(off)
	case io.SeekEnd:
		f.pos = len(f.n.data) + int(off)
	}
	return int64(f.pos), nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if x := fsOp("sync", f.name, 0); x.Err != nil {
		return fsErr("sync", f.name, x.Err)
	}
	f.n.synced, f.n.dirty = append([]byte{}, f.n.data...), false
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if x := fsOp("truncate", f.name, int(size)); x.Err != nil {
		return fsErr("truncate", f.name, x.Err)
	}
	for len(f.n.data) < int(size) {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data, f.n.dirty = f.n.data[:size], true
	return nil
}

func (f *File) Chmod(m os.FileMode) error { return f.check("chmod") }

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return fileInfo{filepath.Base(f.name), int64(len(f.n.data))}, nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	x := fsOp("close", f.name, 0)
	f.closed = true
	if x.Err != nil {
		return fsErr("close", f.name, x.Err)
	}
	return nil
}

type fileInfo struct {
	name string
	size int64
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() os.FileMode  { return 0644 }
func (i fileInfo) ModTime() time.Time { return time.Time{} }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() interface{}   { return nil }

func Stat(name string) (os.FileInfo, error) {
	if f := fsOp("stat", name, 0); f.Err != nil {
		return nil, fsErr("stat", name, f.Err)
	}
	n := fsFiles[fsName(name)]
	if n == nil {
		return nil, fsErr("stat", name, syscall.ENOENT)
	}
	return fileInfo{filepath.Base(name), int64(len(n.data))}, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Rename(a, b string) error {
	if f := fsOp("rename", a, 0); f.Err != nil {
		return fsErr("rename", a, f.Err)
	}
	n := fsFiles[fsName(a)]
	if n == nil {
		return fsErr("rename", a, syscall.ENOENT)
	}
	delete(fsFiles, fsName(a))
	fsFiles[fsName(b)] = n
	return nil
}

func Link(a, b string) error {
	if f := fsOp("link", a, 0); f.Err != nil {
		return fsErr("link", a, f.Err)
	}
	n := fsFiles[fsName(a)]
	if n == nil {
		return fsErr("link", a, syscall.ENOENT)
	}
	if fsFiles[fsName(b)] != nil {
		return fsErr("link", b, syscall.EEXIST)
	}
	fsFiles[fsName(b)] = n
	return nil
}

func Remove(name string) error {
	if f := fsOp("remove", name, 0); f.Err != nil {
		return fsErr("remove", name, f.Err)
	}
	if fsFiles[fsName(name)] == nil {
		return fsErr("remove", name, syscall.ENOENT)
	}
	delete(fsFiles, fsName(name))
	return nil
}

func RemoveAll(name string) error {
	if f := fsOp("remove", name, 0); f.Err != nil {
		return fsErr("remove", name, f.Err)
	}
	k := fsName(name)
	for _, x := range FSList() {
		if x == k || strings.HasPrefix(x, k+"/") {
			delete(fsFiles, x)
		}
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, m os.FileMode) error { return nil }

func Mkdir(name string, m os.FileMode) error { return nil }

func MkdirAll(name string, m os.FileMode) error { return nil }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, m os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
`
