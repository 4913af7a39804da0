package simrt

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Fault is one injected fault.
type Fault struct {
	// Kind: open, create, stat, read, write, close, rename, sync,
	// sqlopen, sqlexec, sqlcommit, sqlbegin, sqlclose, truncate, grow.
	Kind string `json:"kind"`
	// Path is a glob matched against the file name, empty for any.
	Path string `json:"path,omitempty"`
	// Nth occurrence (1 based) for opens, closes and SQL operations; open number for reads (0 is any).
	Nth int `json:"nth,omitempty"`
	// Off is the byte offset at which reads or writes fail.
	Off int64 `json:"off,omitempty"`
	// Once makes the fault transient: the operation works when repeated.
	Once bool `json:"once,omitempty"`
	// Err is the errno name: EIO, ENOSPC, EACCES, ENOENT, EMFILE, EDQUOT.
	Err string `json:"err,omitempty"`
	// Match is a substring of the SQL statement.
	Match string `json:"match,omitempty"`

	seen int
	hit  bool
}

// ErrnoOf maps a name to an error.
func ErrnoOf(n string) error {
	switch n {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EMFILE":
		return syscall.EMFILE
	case "EDQUOT":
		return syscall.EDQUOT
	}

	return syscall.EIO
}

// Inode is a simulated file.
type Inode struct {
	Data   []byte
	Dir    bool
	DB     bool // A database, the content is in a scratch file.
	Writes int
}

// FS is the simulated file system (state that survives the simulated process).
type FS struct {
	Files  map[string]*Inode
	w      *World
	stdout []byte
	stderr []byte
	faults []*Fault
	opens  map[string]int

	Handles []*File
	// Opened counts successful opens, Closed successful closes.
	Opened, Closed int
	MaxOpen, nOpen int
	MkDir          map[string]bool
}

// NewFS makes an empty file system.
func NewFS() *FS {
	return &FS{Files: map[string]*Inode{}, opens: map[string]int{}, MkDir: map[string]bool{}}
}

// SetFaults installs the fault plan of a run.
func (f *FS) SetFaults(ff []Fault) {
	f.faults = nil

	for i := range ff {
		c := ff[i]
		c.seen, c.hit = 0, false
		f.faults = append(f.faults, &c)
	}
}

// Hit tells whether any fault of the kind fired ("" for all kinds).
func (f *FS) Hit(kind string) bool {
	for _, x := range f.faults {
		if x.hit && (kind == "" || x.Kind == kind) {
			return true
		}
	}

	return false
}

func (f *FS) mixAll(w *World) {
	names := make([]string, 0, len(f.Files))
	for n := range f.Files {
		names = append(names, n)
	}

	sort.Strings(names)

	for _, n := range names {
		w.mixStr(n)
		w.mixStr(string(f.Files[n].Data))
	}
}

func clean(p string) string {
	p = path.Clean(p)
	if !strings.HasPrefix(p, "/") {
		p = path.Join("/work", p)
	}

	return p
}

func (x *Fault) match(kind, p string) bool {
	if x.Kind != kind {
		return false
	}

	if x.Path == "" || x.Path == p {
		return true
	}

	ok, _ := filepath.Match(x.Path, path.Base(p))

	return ok
}

// occurrence checks count based faults.
func (f *FS) occurrence(kind, p string) error {
	for _, x := range f.faults {
		if !x.match(kind, p) {
			continue
		}

		x.seen++

		if x.Nth == 0 || x.seen == x.Nth || (!x.Once && x.seen > x.Nth) {
			if x.Once && x.hit {
				continue
			}

			x.hit = true
			f.w.fired(kind)

			return ErrnoOf(x.Err)
		}
	}

	return nil
}

func (f *FS) latency() {
	YOp()

	if f.w == nil {
		return
	}

	f.w.lastIO = f.w.now()

	if f.w.P.IOLatency == 0 {
		return
	}

	if f.w.env.Intn(4) != 0 {
		return
	}

	d := int64(f.w.env.Intn(int(f.w.P.IOLatency))) + 1
	f.w.fired("io_latency")
	Sleep(d)
	f.w.lastIO = f.w.now()
}

// File is an open simulated file.
type File struct {
	fs     *FS
	name   string
	path   string
	node   *Inode
	off    int64
	flag   int
	openNo int
	closed bool
	std    int
	epoch  uint32
	Opened string
}

// Open flags.
const (
	ORdonly = 0
	OWronly = 1
	ORdwr   = 2
	OAppend = syscall.O_APPEND
	OCreate = syscall.O_CREAT
	OExcl   = syscall.O_EXCL
	OTrunc  = syscall.O_TRUNC
)

// Current file system, only inside of runs.
func curFS() *FS {
	if w == nil {
		panic("simrt: file access outside of a simulated run")
	}

	return w.FS
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

// OpenFile opens a simulated file.
func OpenFile(name string, flag int) (*File, error) {
	f := curFS()
	f.latency()

	p := clean(name)
	kind := "open"

	if flag&(OWronly|ORdwr) != 0 {
		kind = "create"
	}

	if err := f.occurrence(kind, p); err != nil {
		return nil, perr("open", name, err)
	}

	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}

	if f.w.P.MaxFiles > 0 && f.nOpen >= f.w.P.MaxFiles {
		f.w.fired("emfile")

		return nil, perr("open", name, syscall.EMFILE)
	}

	n := f.Files[p]

	switch {
	case n == nil && flag&OCreate == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case n != nil && flag&OCreate != 0 && flag&OExcl != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case n == nil:
		n = &Inode{}
		f.Files[p] = n
	case n.Dir && kind == "create":
		return nil, perr("open", name, syscall.EISDIR)
	}

	if flag&OTrunc != 0 && kind == "create" {
		n.Data = nil
	}

	f.opens[p]++
	f.w.mixStr("open " + p)

	h := &File{fs: f, name: name, path: p, node: n, flag: flag, openNo: f.opens[p], epoch: f.w.epoch}
	f.Handles = append(f.Handles, h)
	f.Opened++
	f.nOpen++

	if f.nOpen > f.MaxOpen {
		f.MaxOpen = f.nOpen
	}

	for _, x := range f.faults {
		// The file changed since an earlier pass.
		if (x.Kind == "truncate" || x.Kind == "grow") && kind == "open" && !x.hit && x.match(x.Kind, p) && h.openNo == x.Nth {
			x.hit = true
			f.w.fired(x.Kind)

			if x.Kind == "truncate" && int(x.Off) < len(n.Data) {
				n.Data = n.Data[:x.Off]
			}

			if x.Kind == "grow" {
				n.Data = append(append([]byte(nil), n.Data...), x.Match...)
			}
		}
	}

	return h, nil
}

// Std makes a standard stream handle.
func Std(fd int, name string) *File { return &File{name: name, std: fd + 1} }

func (h *File) check(op string) (*FS, error) {
	if h == nil {
		return nil, fs.ErrInvalid
	}

	if h.std == 0 {
		if dead {
			YOp()
		}

		if w == nil || h.epoch != w.epoch {
			return nil, perr(op, h.name, errors.New("stale file handle of an earlier simulated process"))
		}
	}

	f := curFS()

	if h.closed {
		return nil, perr(op, h.name, fs.ErrClosed)
	}

	return f, nil
}

// Read reads.
func (h *File) Read(b []byte) (int, error) {
	f, err := h.check("read")
	if err != nil {
		return 0, err
	}

	f.latency()

	if h.std != 0 {
		return 0, io.EOF
	}

	if h.node.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}

	if h.flag&3 == OWronly {
		return 0, perr("read", h.name, syscall.EBADF)
	}

	n, err := h.readAt(f, b, h.off)
	h.off += int64(n)

	return n, err
}

func (h *File) readAt(f *FS, b []byte, off int64) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}

	end := int64(len(h.node.Data))

	for _, x := range f.faults {
		if !x.match("read", h.path) || (x.Nth != 0 && x.Nth != h.openNo) || (x.Once && x.hit) {
			continue
		}

		if off >= x.Off {
			x.hit = true
			f.w.fired("read")

			return 0, perr("read", h.name, ErrnoOf(x.Err))
		}

		if x.Off < end {
			end = x.Off
		}
	}

	if off >= int64(len(h.node.Data)) {
		return 0, io.EOF
	}

	n := int(end - off)
	if n > len(b) {
		n = len(b)
	}

	if c := f.w.P.ReadChunk; c > 0 && n > 1 {
		m := 1 + f.w.env.Intn(c)
		if m < n {
			n = m
			f.w.fired("short_read")
		}
	}

	copy(b, h.node.Data[off:off+int64(n)])

	return n, nil
}

// ReadAt reads at offset.
func (h *File) ReadAt(b []byte, off int64) (int, error) {
	f, err := h.check("read")
	if err != nil {
		return 0, err
	}

	f.latency()

	tot := 0

	for tot < len(b) {
		n, err := h.readAt(f, b[tot:], off+int64(tot))
		tot += n

		if err != nil {
			return tot, err
		}
	}

	return tot, nil
}

// Write writes.
func (h *File) Write(b []byte) (int, error) {
	f, err := h.check("write")
	if err != nil {
		return 0, err
	}

	if h.std != 0 {
		return h.writeStd(f, b)
	}

	f.latency()

	if h.flag&3 == ORdonly {
		return 0, perr("write", h.name, syscall.EBADF)
	}

	if h.flag&OAppend != 0 {
		h.off = int64(len(h.node.Data))
	}

	allowed := len(b)

	var ferr error

	for _, x := range f.faults {
		if !x.match("write", h.path) || (x.Once && x.hit) {
			continue
		}

		if h.off+int64(len(b)) > x.Off {
			a := int(x.Off - h.off)
			if a < 0 {
				a = 0
			}

			if a <= allowed {
				allowed = a
				ferr = ErrnoOf(x.Err)
			}

			x.hit = true
			f.w.fired("write")

			if a > 0 {
				f.w.fired("short_write")
			}
		}
	}

	n := h.node
	end := h.off + int64(allowed)

	if int64(len(n.Data)) < end {
		n.Data = append(n.Data, make([]byte, end-int64(len(n.Data)))...)
	}

	copy(n.Data[h.off:end], b[:allowed])
	h.off = end
	n.Writes++
	f.w.mix(uint64(allowed)<<8 | 7)

	if ferr != nil {
		return allowed, perr("write", h.name, ferr)
	}

	return allowed, nil
}

func (h *File) writeStd(f *FS, b []byte) (int, error) {
	YOp()

	if h.std == 2 {
		if err := f.occurrence("stdout", "stdout"); err != nil {
			return 0, perr("write", h.name, err)
		}

		f.stdout = keep(append(f.stdout, b...))
	} else {
		f.stderr = keep(append(f.stderr, b...))
	}

	return len(b), nil
}

// WriteString writes a string.
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

// WriteAt writes at offset.
func (h *File) WriteAt(b []byte, off int64) (int, error) {
	o := h.off
	h.off = off
	n, err := h.Write(b)
	h.off = o

	return n, err
}

// Close closes the file.
func (h *File) Close() error {
	f, err := h.check("close")
	if err != nil {
		return err
	}

	if h.std != 0 {
		return nil
	}

	f.latency()

	h.closed = true
	f.Closed++
	f.nOpen--
	f.w.mixStr("close " + h.path)

	if err := f.occurrence("close", h.path); err != nil {
		return perr("close", h.name, err)
	}

	return nil
}

// IsClosed tells whether the handle was closed.
func (h *File) IsClosed() bool { return h.closed }

// Name is the name the file was opened with.
func (h *File) Name() string { return h.name }

// Sync syncs.
func (h *File) Sync() error {
	f, err := h.check("sync")
	if err != nil {
		return err
	}

	f.latency()

	if err := f.occurrence("sync", h.path); err != nil {
		return perr("sync", h.name, err)
	}

	return nil
}

// Truncate truncates.
func (h *File) Truncate(size int64) error {
	if _, err := h.check("truncate"); err != nil {
		return err
	}

	d := h.node.Data
	for int64(len(d)) < size {
		d = append(d, 0)
	}

	h.node.Data = d[:size]

	return nil
}

// Seek seeks.
func (h *File) Seek(offset int64, whence int) (int64, error) {
	if _, err := h.check("seek"); err != nil {
		return 0, err
	}

	switch whence {
	case io.SeekCurrent:
		offset += h.off
	case io.SeekEnd:
		offset += int64(len(h.node.Data))
	}

	if offset < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}

	h.off = offset

	return offset, nil
}

// Stat describes the open file.
func (h *File) Stat() (fs.FileInfo, error) {
	f, err := h.check("stat")
	if err != nil {
		return nil, err
	}

	f.latency()

	if h.std != 0 {
		return fileInfo{name: h.name}, nil
	}

	return fileInfo{name: path.Base(h.path), size: int64(len(h.node.Data)), dir: h.node.Dir}, nil
}

// Fd is a fake descriptor.
func (h *File) Fd() uintptr { return uintptr(h.std - 1) }

// Chmod does nothing.
func (h *File) Chmod(fs.FileMode) error { return nil }

// SetDeadline does nothing.
func (h *File) SetDeadline(time.Time) error { return nil }

type fileInfo struct {
	name string
	size int64
	dir  bool
}

func (i fileInfo) Name() string { return i.name }
func (i fileInfo) Size() int64  { return i.size }
func (i fileInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}

	return 0o644
}
func (i fileInfo) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i fileInfo) IsDir() bool        { return i.dir }
func (i fileInfo) Sys() any           { return nil }

// Stat describes a file.
func Stat(name string) (fs.FileInfo, error) {
	f := curFS()
	f.latency()

	p := clean(name)

	if err := f.occurrence("stat", p); err != nil {
		return nil, perr("stat", name, err)
	}

	n := f.Files[p]
	if n == nil && f.isDir(p) {
		return fileInfo{name: path.Base(p), dir: true}, nil
	}

	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}

	return fileInfo{name: path.Base(p), size: int64(len(n.Data)), dir: n.Dir}, nil
}

// Remove removes a file.
func Remove(name string) error {
	f := curFS()
	f.latency()

	p := clean(name)
	if f.Files[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}

	if f.Files[p].DB && SQLRemoved != nil {
		SQLRemoved(p)
	}

	delete(f.Files, p)

	return nil
}

// Rename renames a file.
func Rename(from, to string) error {
	f := curFS()
	f.latency()

	p := clean(from)

	if err := f.occurrence("rename", p); err != nil {
		return perr("rename", from, err)
	}

	n := f.Files[p]
	if n == nil {
		return perr("rename", from, syscall.ENOENT)
	}

	delete(f.Files, p)
	f.Files[clean(to)] = n

	return nil
}

// isDir tells whether a path is a directory, files make the directories they are in.
func (f *FS) isDir(p string) bool {
	if p == "/" || p == "/work" || p == "/tmp" {
		return true
	}

	if n := f.Files[p]; n != nil {
		return n.Dir
	}

	for n := range f.Files {
		if strings.HasPrefix(n, p+"/") {
			return true
		}
	}

	return false
}

// Mkdir makes a directory.
func Mkdir(name string) error {
	f := curFS()
	f.latency()

	p := clean(name)

	if err := f.occurrence("mkdir", p); err != nil {
		return perr("mkdir", name, err)
	}

	if f.isDir(p) || f.Files[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}

	f.Files[p] = &Inode{Dir: true}

	return nil
}

// MkdirAll makes a directory if there is none.
func MkdirAll(name string) error {
	if p := clean(name); curFS().isDir(p) {
		return nil
	}

	return Mkdir(name)
}

// RemoveAll removes a file or a directory.
func RemoveAll(name string) error {
	f := curFS()
	p := clean(name)

	for _, n := range f.names() {
		if strings.HasPrefix(n, p+"/") {
			if err := Remove(n); err != nil {
				return err
			}
		}
	}

	if f.Files[p] == nil {
		return nil
	}

	return Remove(name)
}

func (f *FS) names() []string {
	res := make([]string, 0, len(f.Files))
	for n := range f.Files {
		res = append(res, n)
	}

	sort.Strings(res)

	return res
}

// ReadDir lists a directory.
func ReadDir(name string) ([]fs.DirEntry, error) {
	f := curFS()
	f.latency()

	p := clean(name)

	if !f.isDir(p) {
		return nil, perr("open", name, syscall.ENOENT)
	}

	p = strings.TrimSuffix(p, "/") + "/"

	var res []fs.DirEntry

	seen := map[string]bool{}

	for _, n := range f.names() {
		rest, ok := strings.CutPrefix(n, p)
		if !ok || rest == "" {
			continue
		}

		first, _, sub := strings.Cut(rest, "/")
		if seen[first] {
			continue
		}

		seen[first] = true
		i := fileInfo{name: first, dir: sub || f.Files[n].Dir}

		if !i.dir {
			i.size = int64(len(f.Files[n].Data))
		}

		res = append(res, fs.FileInfoToDirEntry(i))
	}

	return res, nil
}

// Truncate changes the size of a file.
func Truncate(name string, size int64) error {
	h, err := OpenFile(name, OWronly)
	if err != nil {
		return err
	}

	err = h.Truncate(size)
	if cerr := h.Close(); err == nil {
		err = cerr
	}

	return err
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	h, err := OpenFile(name, ORdonly)
	if err != nil {
		return nil, err
	}

	b, err := io.ReadAll(h)
	_ = h.Close()

	if err != nil {
		return b, err
	}

	return b, nil
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte) error {
	h, err := OpenFile(name, OWronly|OCreate|OTrunc)
	if err != nil {
		return err
	}

	_, err = h.Write(data)
	if cerr := h.Close(); err == nil {
		err = cerr
	}

	return err
}

// GlobPath lists files that match a pattern, as filepath.Glob does.
func GlobPath(pattern string) ([]string, error) {
	f := curFS()
	f.latency()

	cp := pattern
	if !strings.HasPrefix(pattern, "/") {
		cp = "/work/" + pattern
	}

	cp = path.Clean(cp)

	var res []string

	for _, n := range f.names() {
		ok, err := path.Match(cp, n)
		if err != nil {
			return nil, err
		}

		if !ok {
			continue
		}

		if !strings.HasPrefix(pattern, "/") {
			n = strings.TrimPrefix(n, "/work/")
		}

		res = append(res, n)
	}

	return res, nil
}

// Glob lists matching names.
func (f *FS) Glob(pattern string) []string {
	var res []string

	for n := range f.Files {
		if ok, _ := filepath.Match(pattern, path.Base(n)); ok {
			res = append(res, n)
		}
	}

	sort.Strings(res)

	return res
}

// SQLFault consults the fault plan for SQL operations.
func SQLFault(kind, p, stmt string) error {
	f := curFS()

	for _, x := range f.faults {
		if !x.match(kind, p) || (x.Match != "" && !strings.Contains(stmt, x.Match)) {
			continue
		}

		x.seen++

		if x.Nth == 0 || x.seen == x.Nth || (!x.Once && x.seen > x.Nth) {
			if x.Once && x.hit {
				continue
			}

			x.hit = true
			f.w.fired(kind)

			return ErrnoOf(x.Err)
		}
	}

	return nil
}

// Printed is builtin print/println.
func Printed(s string) {
	YOp()

	if w != nil {
		w.FS.stderr = keep(append(w.FS.stderr, s...))
	}
}

// Cut replaces the middle of an excessive amount of messages (tiny progress intervals in a long simulated time).
const Cut = "\n[cut]\n"

// keep bounds the memory taken by the messages of a run.
func keep(b []byte) []byte {
	const limit, part = 32 << 20, 4 << 20

	if len(b) < limit {
		return b
	}

	n := copy(b[part:], Cut)
	n += copy(b[part+n:], b[len(b)-part:])

	return b[:part+n]
}

// SQLPath maps a database path of the simulated system to a real scratch file.
var SQLPath func(p string) string

// SQLRemoved removes the scratch file of a database.
var SQLRemoved func(p string)

// Clean normalises a simulated path.
func Clean(p string) string { return clean(p) }

// SQLOpened / SQLClosed track databases as open handles.
func SQLOpened(name string) *File {
	f := curFS()
	h := &File{fs: f, name: name, path: clean(name), node: &Inode{}, epoch: f.w.epoch}
	f.Handles = append(f.Handles, h)
	f.Opened++

	if f.Files[h.path] == nil {
		f.Files[h.path] = &Inode{DB: true}
	}

	return h
}

// SQLClosed marks a database handle closed.
func SQLClosed(h *File) {
	if !h.closed {
		h.closed = true
		h.fs.Closed++
	}
}
