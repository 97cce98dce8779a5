// Package vos mirrors the file part of os and io/ioutil on an in-memory device
// that logs every operation, so that every crash image can be enumerated.
//
// Device model: directory operations (create, rename, remove, truncate to
// zero) are atomic and durable in order; file data is durable once written
// through an O_SYNC descriptor or followed by Sync on the file; other data may
// be lost or torn by a crash.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/vsim/vsched"
)

type inode struct {
	id   int
	data []byte
	mode os.FileMode
	dir  bool
}

// Op is one logged device operation.
type Op struct {
	Kind string // create, write, trunc, sync, rename, remove, mark
	Path string
	To   string
	Ino  int
	Off  int64
	Size int64
	Data []byte
	Sync bool
	Mark interface{}
}

var (
	files map[string]*inode
	// Log of the device since Reset.
	Log  []Op
	inoN int
	tmpN int
	// Fault, if set, may fail an operation before it takes effect.
	Fault func(op, path string) error
	// Partial, if set, may shorten a write (n<len): n bytes are written and an error returned.
	Partial func(path string, n int) int
)

func init() { Reset() }

// Reset empties the device.
func Reset() {
	files = map[string]*inode{}
	Log = nil
	Fault = nil
	Partial = nil
	After = nil
	inoN, tmpN = 0, 0
	OnExit = nil
	handlers = map[string][]handler{}
	mkdirs("/")
}

func mkdirs(p string) {
	p = filepath.Clean(p)
	for {
		if files[p] == nil {
			inoN++
			files[p] = &inode{id: inoN, dir: true, mode: os.ModeDir | 0755}
		}
		if p == "/" || p == "." {
			return
		}
		p = filepath.Dir(p)
	}
}

// Put installs a file without logging scheduling points.
func Put(path string, data []byte) {
	path = filepath.Clean(path)
	mkdirs(filepath.Dir(path))
	inoN++
	files[path] = &inode{id: inoN, data: append([]byte{}, data...), mode: 0600}
	Log = append(Log, Op{Kind: "create", Path: path, Ino: inoN}, Op{Kind: "write", Path: path, Ino: inoN, Data: append([]byte{}, data...), Sync: true})
}

// Get reads a file without a scheduling point; nil if missing.
func Get(path string) []byte {
	f := files[filepath.Clean(path)]
	if f == nil || f.dir {
		return nil
	}
	return append([]byte{}, f.data...)
}

// List of the files below a prefix.
func List(prefix string) (out []string) {
	for p, f := range files {
		if !f.dir && strings.HasPrefix(p, prefix) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return
}

// Mark appends a marker to the log.
func Mark(m interface{}) { Log = append(Log, Op{Kind: "mark", Mark: m}) }

// Snapshot and SetImage copy the visible files.
func Snapshot() map[string][]byte {
	out := map[string][]byte{}
	for p, f := range files {
		if !f.dir {
			out[p] = append([]byte{}, f.data...)
		}
	}
	return out
}

// SetImage replaces the device contents.
func SetImage(img map[string][]byte) {
	Reset()
	var ks []string
	for p := range img {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	for _, p := range ks {
		Put(p, img[p])
	}
}

// SetPart replaces the files below a directory.
func SetPart(dir string, img map[string][]byte) {
	dir += "/"
	for p, n := range files {
		if strings.HasPrefix(p, dir) && !n.dir {
			delete(files, p)
		}
	}
	var ks []string
	for p := range img {
		if strings.HasPrefix(p, dir) {
			ks = append(ks, p)
		}
	}
	sort.Strings(ks)
	for _, p := range ks {
		Put(p, img[p])
	}
}

// Images returns the possible device contents after a crash when exactly the
// first k logged operations were issued (and, with torn, operation k was cut
// short if it is a write).
func Images(k int) (out []map[string][]byte) {
	for mode := 0; mode < 4; mode++ {
		if mode == 3 && (k >= len(Log) || Log[k].Kind != "write" || len(Log[k].Data) == 0) {
			continue
		}
		names := map[string]int{}
		type cont struct {
			cache, disk []byte
			lastW       *Op
		}
		inos := map[int]*cont{}
		apply := func(b []byte, off int64, d []byte) []byte {
			for int64(len(b)) < off {
				b = append(b, 0)
			}
			n := append([]byte{}, b...)
			end := int(off) + len(d)
			if end > len(n) {
				n = append(n, make([]byte, end-len(n))...)
			}
			copy(n[off:], d)
			return n
		}
		for i := 0; i < k; i++ {
			op := &Log[i]
			switch op.Kind {
			case "create":
				names[op.Path] = op.Ino
				inos[op.Ino] = &cont{}
			case "write":
				c := inos[op.Ino]
				c.cache = apply(c.cache, op.Off, op.Data)
				if op.Sync {
					c.disk = append([]byte{}, c.cache...)
					c.lastW = nil
				} else {
					c.lastW = op
				}
			case "trunc":
				c := inos[op.Ino]
				if int64(len(c.cache)) > op.Size {
					c.cache = append([]byte{}, c.cache[:op.Size]...)
				} else {
					c.cache = append(c.cache, make([]byte, op.Size-int64(len(c.cache)))...)
				}
				c.disk = append([]byte{}, c.cache...)
			case "sync":
				c := inos[op.Ino]
				c.disk = append([]byte{}, c.cache...)
				c.lastW = nil
			case "rename":
				if ino, ok := names[op.Path]; ok {
					delete(names, op.Path)
					names[op.To] = ino
				}
			case "remove":
				delete(names, op.Path)
			}
		}
		img := map[string][]byte{}
		changed := false
		for p, ino := range names {
			c := inos[ino]
			switch mode {
			case 0:
				img[p] = c.cache
			case 1:
				img[p] = c.disk
				if c.lastW != nil {
					changed = true
				}
			case 2:
				img[p] = c.disk
				if c.lastW != nil {
					changed = true
					img[p] = apply(c.disk, c.lastW.Off, c.lastW.Data[:len(c.lastW.Data)/2])
				}
			case 3:
				img[p] = c.cache
				if ino == Log[k].Ino {
					changed = true
					img[p] = apply(c.cache, Log[k].Off, Log[k].Data[:len(Log[k].Data)/2])
				}
			}
		}
		if mode == 0 || changed {
			out = append(out, img)
		}
	}
	return
}

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

func step(op, path string) error {
	vsched.Yield()
	if Fault != nil && !vsched.Killed() {
		if err := Fault(op, path); err != nil {
			return perr(op, path, err)
		}
	}
	return nil
}

// After, if set, sees each operation once it is done.
var After func(op *Op)

func log(op Op) {
	Log = append(Log, op)
	if vsched.Trace() {
		vsched.Log("disk %s %s %s %d", op.Kind, op.Path, op.To, len(op.Data))
	}
	if After != nil && !vsched.Killed() {
		After(&Log[len(Log)-1])
	}
}

// File mirrors os.File.
type File struct {
	name   string
	n      *inode
	off    int64
	flag   int
	closed bool
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	p := filepath.Clean(name)
	if err := step("open", name); err != nil {
		return nil, err
	}
	if vsched.Killed() {
		return nil, perr("open", name, errors.New("killed"))
	}
	f := files[p]
	if f == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := files[filepath.Dir(p)]; d == nil || !d.dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		inoN++
		f = &inode{id: inoN, mode: perm}
		files[p] = f
		log(Op{Kind: "create", Path: p, Ino: f.id})
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if f.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && len(f.data) > 0 {
			f.data = nil
			log(Op{Kind: "trunc", Path: p, Ino: f.id})
		}
	}
	return &File{name: name, n: f, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.n.id) }

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	n, err := f.WriteAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if err := step("write", f.name); err != nil {
		return 0, err
	}
	if vsched.Killed() {
		return 0, perr("write", f.name, errors.New("killed"))
	}
	var err error
	if Partial != nil {
		if n := Partial(f.name, len(b)); n < len(b) {
			b = b[:n]
			err = perr("write", f.name, syscall.ENOSPC)
		}
	}
	for int64(len(f.n.data)) < off {
		f.n.data = append(f.n.data, 0)
	}
	nd := append([]byte{}, f.n.data...)
	if e := int(off) + len(b); e > len(nd) {
		nd = append(nd, make([]byte, e-len(nd))...)
	}
	copy(nd[off:], b)
	f.n.data = nd
	log(Op{Kind: "write", Path: filepath.Clean(f.name), Ino: f.n.id, Off: off, Data: append([]byte{}, b...), Sync: f.flag&(os.O_SYNC) != 0})
	return len(b), err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	default:
		f.off = int64(len(f.n.data)) + off
	}
	return f.off, nil
}

func (f *File) Sync() error {
	if f.closed {
		return perr("sync", f.name, os.ErrClosed)
	}
	if err := step("sync", f.name); err != nil {
		return err
	}
	if vsched.Killed() {
		return perr("sync", f.name, errors.New("killed"))
	}
	if !f.n.dir {
		log(Op{Kind: "sync", Path: filepath.Clean(f.name), Ino: f.n.id})
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	if err := step("truncate", f.name); err != nil {
		return err
	}
	if int64(len(f.n.data)) > n {
		f.n.data = f.n.data[:n]
	} else {
		f.n.data = append(f.n.data, make([]byte, n-int64(len(f.n.data)))...)
	}
	log(Op{Kind: "trunc", Path: filepath.Clean(f.name), Ino: f.n.id, Size: n})
	return nil
}

func (f *File) Chmod(m os.FileMode) error { f.n.mode = m; return nil }
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	return nil
}

type info struct {
	name string
	n    *inode
}

func (i info) Name() string       { return filepath.Base(i.name) }
func (i info) Size() int64        { return int64(len(i.n.data)) }
func (i info) Mode() os.FileMode  { return i.n.mode }
func (i info) ModTime() time.Time { return vsched.Epoch }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() interface{}   { return nil }

func (f *File) Stat() (os.FileInfo, error) { return info{f.name, f.n}, nil }

func Stat(name string) (os.FileInfo, error) {
	f := files[filepath.Clean(name)]
	if f == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, f}, nil
}
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Rename(a, b string) error {
	if err := step("rename", b); err != nil {
		return err
	}
	if vsched.Killed() {
		return errors.New("killed")
	}
	pa, pb := filepath.Clean(a), filepath.Clean(b)
	f := files[pa]
	if f == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if d := files[filepath.Dir(pb)]; d == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(files, pa)
	files[pb] = f
	log(Op{Kind: "rename", Path: pa, To: pb, Ino: f.id})
	return nil
}

func Remove(name string) error {
	if vsched.Killed() {
		return errors.New("killed")
	}
	p := filepath.Clean(name)
	f := files[p]
	if f == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if err := step("remove", name); err != nil {
		return err
	}
	if files[p] == nil || vsched.Killed() {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(files, p)
	log(Op{Kind: "remove", Path: p, Ino: f.id})
	return nil
}

func RemoveAll(name string) error {
	p := filepath.Clean(name)
	var del []string
	for q := range files {
		if q == p || strings.HasPrefix(q, p+"/") {
			del = append(del, q)
		}
	}
	sort.Strings(del)
	for i := len(del) - 1; i >= 0; i-- {
		if files[del[i]].dir {
			delete(files, del[i])
		} else if err := Remove(del[i]); err != nil {
			return err
		}
	}
	return nil
}

func Mkdir(name string, m os.FileMode) error {
	p := filepath.Clean(name)
	if files[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	mkdirs(p)
	return nil
}
func MkdirAll(name string, m os.FileMode) error { mkdirs(name); return nil }

func ReadFile(name string) ([]byte, error) {
	if err := step("read", name); err != nil {
		return nil, err
	}
	f := files[filepath.Clean(name)]
	if f == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if f.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, f.data...), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
		mkdirs(dir)
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	tmpN++
	return OpenFile(filepath.Join(dir, pre+strconv.Itoa(100000+tmpN)+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	p := filepath.Join(dir, strings.Replace(pattern, "*", "", 1)+strconv.Itoa(200000+tmpN))
	mkdirs(p)
	return p, nil
}

func TempDir(dir, pattern string) (string, error) { return MkdirTemp(dir, pattern) }

func ReadDir(name string) ([]os.DirEntry, error) {
	p := filepath.Clean(name)
	if files[p] == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []os.DirEntry
	var ks []string
	for q := range files {
		if q != p && filepath.Dir(q) == p {
			ks = append(ks, q)
		}
	}
	sort.Strings(ks)
	for _, q := range ks {
		out = append(out, fs.FileInfoToDirEntry(info{q, files[q]}))
	}
	return out, nil
}

func Chmod(name string, m os.FileMode) error {
	f := files[filepath.Clean(name)]
	if f == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	f.mode = m
	return nil
}

func Link(a, b string) error {
	if err := step("link", b); err != nil {
		return err
	}
	f := files[filepath.Clean(a)]
	if f == nil {
		return perr("link", a, syscall.ENOENT)
	}
	if files[filepath.Clean(b)] != nil {
		return perr("link", b, syscall.EEXIST)
	}
	pb := filepath.Clean(b)
	inoN++
	files[pb] = &inode{id: inoN, data: append([]byte{}, f.data...), mode: f.mode}
	log(Op{Kind: "create", Path: pb, Ino: inoN})
	log(Op{Kind: "write", Path: pb, Ino: inoN, Data: append([]byte{}, f.data...), Sync: true})
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(n)
}
