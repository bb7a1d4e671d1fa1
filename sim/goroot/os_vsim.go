// In-memory operating system for the simulator: file system, standard streams,
// working directory and process exit. Added to package os by /verif/sim/build.py
// through `go build -overlay`; it is never part of the shipped binary.

package os

import (
	"io"
	"runtime"
	"syscall"
	"time"
)

// VSimNode is one inode of the simulated file system.
type VSimNode struct {
	Mode FileMode // ModeDir, ModeSymlink or 0 plus permission bits
	Data string   // contents or link target
	Kids map[string]*VSimNode
	Ino  int
}

// VSimFault is the simulator's decision for one file-system operation.
type VSimFault struct {
	Err     error         // fail the operation
	Latency time.Duration // sleep (simulated) before performing it
	Short   int           // reads: cap on bytes returned by this call (0: none)
	Trunc   int           // open: contents cut to this many bytes (-1: none)
	Shuffle uint64        // readdir: permute the raw directory order
}

type VSimFileSystem struct {
	Root   *VSimNode
	Cwd    string
	CwdErr error
	CI     bool // case-insensitive name lookup
	nextIno int
	// Decide is asked before every operation. n is the operation's global index.
	Decide func(n int, op, path string) VSimFault
	// Done is told the outcome of every operation.
	Done func(n int, op, path string, err error)
	// Mutated is told every operation that changes the file system.
	Mutated func(op, path string)
	Ops  int
}

var VSim *VSimFileSystem

// VSimExit is called by Exit while simulating.
var VSimExit func(code int)

// VSimStream is a simulated stdin/stdout/stderr or an open simulated file.
type VSimStream struct {
	ReadFn  func(b []byte) (int, error)
	WriteFn func(b []byte) (int, error)

	fs     *VSimFileSystem
	node   *VSimNode
	data   string
	path   string
	off    int
	dirpos int
	listed []DirEntry
	closed bool
	writable bool
}

// VSimAttach turns f into a simulated stream.
//go:norace
func VSimAttach(f *File, s *VSimStream) { f.file.vsim = s }

//go:norace
func NewVSimFS(cwd string) *VSimFileSystem {
	fs := &VSimFileSystem{Cwd: cwd}
	fs.Root = fs.newNode(ModeDir|0o755, "")
	return fs
}

//go:norace
func (fs *VSimFileSystem) newNode(m FileMode, data string) *VSimNode {
	fs.nextIno++
	n := &VSimNode{Mode: m, Data: data, Ino: fs.nextIno}
	if m.IsDir() {
		n.Kids = map[string]*VSimNode{}
	}
	return n
}

//go:norace
func vsimSplit(p string) []string {
	var out []string
	i := 0
	for i < len(p) {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		if j > i {
			s := p[i:j]
			if s != "." {
				out = append(out, s)
			}
		}
		i = j
	}
	return out
}

//go:norace
func vsimLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

//go:norace
func (fs *VSimFileSystem) kid(n *VSimNode, name string) *VSimNode {
	if k, ok := n.Kids[name]; ok {
		return k
	}
	if fs.CI {
		l := vsimLower(name)
		for _, kn := range fs.sortedNames(n) {
			if vsimLower(kn) == l {
				return n.Kids[kn]
			}
		}
	}
	return nil
}

//go:norace
func (fs *VSimFileSystem) sortedNames(n *VSimNode) []string {
	names := make([]string, 0, len(n.Kids))
	for k := range n.Kids {
		names = append(names, k)
	}
	for i := 1; i < len(names); i++ {
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j], names[j-1] = names[j-1], names[j]
		}
	}
	return names
}

//go:norace
func (fs *VSimFileSystem) abs(p string) string {
	if len(p) > 0 && p[0] == '/' {
		return p
	}
	return fs.Cwd + "/" + p
}

//go:norace
func (fs *VSimFileSystem) lookup(p string, follow bool) (*VSimNode, error) {
	return fs.walk(vsimSplit(fs.abs(p)), follow, 0)
}

//go:norace
func (fs *VSimFileSystem) walk(parts []string, follow bool, depth int) (*VSimNode, error) {
	if depth > 20 {
		return nil, syscall.ELOOP
	}
	stack := []*VSimNode{fs.Root}
	for i := 0; i < len(parts); i++ {
		cur := stack[len(stack)-1]
		if !cur.Mode.IsDir() {
			return nil, syscall.ENOTDIR
		}
		if parts[i] == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		k := fs.kid(cur, parts[i])
		if k == nil {
			return nil, syscall.ENOENT
		}
		if cur.Mode.Perm()&0o111 == 0 {
			return nil, syscall.EACCES
		}
		if k.Mode&ModeSymlink != 0 && (follow || i+1 < len(parts)) {
			rest := append([]string{}, parts[i+1:]...)
			var base []string
			if len(k.Data) == 0 || k.Data[0] != '/' {
				base = append(base, parts[:i]...)
			}
			base = append(base, vsimSplit(k.Data)...)
			return fs.walk(append(base, rest...), follow, depth+1)
		}
		stack = append(stack, k)
	}
	return stack[len(stack)-1], nil
}

// Put creates or replaces a node, creating parent directories.
//go:norace
func (fs *VSimFileSystem) Put(p string, m FileMode, data string) {
	runtime.VSimHold()
	defer runtime.VSimRelease()
	parts := vsimSplit(p)
	cur := fs.Root
	for _, s := range parts[:max(len(parts)-1, 0)] {
		k := cur.Kids[s]
		if k == nil || !k.Mode.IsDir() {
			k = fs.newNode(ModeDir|0o755, "")
			cur.Kids[s] = k
		}
		cur = k
	}
	if len(parts) == 0 {
		return
	}
	last := parts[len(parts)-1]
	if m.IsDir() {
		if k := cur.Kids[last]; k != nil && k.Mode.IsDir() {
			k.Mode = m
			return
		}
	}
	cur.Kids[last] = fs.newNode(m, data)
}

// Delete removes a node (and everything under it).
//go:norace
func (fs *VSimFileSystem) Delete(p string) {
	runtime.VSimHold()
	defer runtime.VSimRelease()
	parts := vsimSplit(p)
	cur := fs.Root
	for _, s := range parts[:max(len(parts)-1, 0)] {
		k := cur.Kids[s]
		if k == nil || !k.Mode.IsDir() {
			return
		}
		cur = k
	}
	if len(parts) > 0 {
		delete(cur.Kids, parts[len(parts)-1])
	}
}

//go:norace
func (fs *VSimFileSystem) begin(op, path string) (int, VSimFault) {
	n := fs.Ops
	fs.Ops++
	f := VSimFault{Trunc: -1}
	if fs.Decide != nil {
		f = fs.Decide(n, op, path)
	}
	if f.Latency > 0 {
		time.Sleep(f.Latency)
	} else if f.Latency < 0 {
		runtime.Gosched()
	}
	return n, f
}

//go:norace
func (fs *VSimFileSystem) done(n int, op, path string, err error) {
	if fs.Done != nil {
		fs.Done(n, op, path, err)
	}
}

type vsimInfo struct {
	name string
	mode FileMode
	size int64
	ino  int
}

//go:norace
func (i *vsimInfo) Name() string               { return i.name }
//go:norace
func (i *vsimInfo) Size() int64                { return i.size }
//go:norace
func (i *vsimInfo) Mode() FileMode             { return i.mode }
//go:norace
func (i *vsimInfo) ModTime() time.Time         { return time.Unix(1767225600, 0) }
//go:norace
func (i *vsimInfo) IsDir() bool                { return i.mode.IsDir() }
//go:norace
func (i *vsimInfo) Sys() any                   { return nil }
//go:norace
func (i *vsimInfo) Type() FileMode             { return i.mode.Type() }
//go:norace
func (i *vsimInfo) Info() (FileInfo, error)    { return i, nil }
//go:norace
func (i *vsimInfo) String() string             { return i.name }

//go:norace
func vsimBase(p string) string {
	parts := vsimSplit(p)
	if len(parts) == 0 {
		return "/"
	}
	return parts[len(parts)-1]
}

//go:norace
func (fs *VSimFileSystem) stat(p string, follow bool) (FileInfo, error) {
	op := "stat"
	if !follow {
		op = "lstat"
	}
	n, f := fs.begin(op, p)
	runtime.VSimHold()
	node, err := fs.lookup(p, follow)
	var fi FileInfo
	if err == nil {
		fi = &vsimInfo{vsimBase(p), node.Mode, int64(len(node.Data)), node.Ino}
	}
	runtime.VSimRelease()
	if f.Err != nil {
		err = f.Err
	}
	fs.done(n, op, p, err)
	if err != nil {
		return nil, &PathError{Op: op, Path: p, Err: err}
	}
	return fi, nil
}

//go:norace
func (fs *VSimFileSystem) readlink(p string) (string, error) {
	n, f := fs.begin("readlink", p)
	runtime.VSimHold()
	node, err := fs.lookup(p, false)
	t := ""
	if err == nil {
		if node.Mode&ModeSymlink == 0 {
			err = syscall.EINVAL
		} else {
			t = node.Data
		}
	}
	runtime.VSimRelease()
	if f.Err != nil {
		err = f.Err
	}
	fs.done(n, "readlink", p, err)
	if err != nil {
		return "", &PathError{Op: "readlink", Path: p, Err: err}
	}
	return t, nil
}

//go:norace
func (fs *VSimFileSystem) open(p string, flag int) (*File, error) {
	op := "open"
	n, f := fs.begin(op, p)
	runtime.VSimHold()
	node, err := fs.lookup(p, true)
	var s *VSimStream
	if err == nil {
		switch {
		case flag&(O_WRONLY|O_RDWR|O_TRUNC) != 0:
			if node.Mode.IsDir() {
				err = syscall.EISDIR
			} else if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
				err = syscall.EEXIST
			} else if node.Mode.Perm()&0o222 == 0 {
				err = syscall.EACCES
			} else {
				s = &VSimStream{fs: fs, node: node, path: p, data: node.Data, writable: true}
				if flag&O_TRUNC != 0 {
					node.Data, s.data = "", ""
				}
				if flag&O_APPEND != 0 {
					s.off = len(node.Data)
				}
				fs.mutated("open for writing", p)
			}
		case node.Mode.Perm()&0o444 == 0:
			err = syscall.EACCES
		default:
			s = &VSimStream{fs: fs, node: node, path: p, data: node.Data}
			if f.Trunc >= 0 && f.Trunc < len(s.data) {
				s.data = s.data[:f.Trunc]
			}
		}
	} else if flag&O_CREATE != 0 && err == syscall.ENOENT {
		if d, derr := fs.lookup(vsimDir(fs.abs(p)), true); derr == nil && d.Mode.IsDir() {
			node, err = fs.newNode(0o644, ""), nil
			d.Kids[vsimBase(p)] = node
			s = &VSimStream{fs: fs, node: node, path: p, writable: true}
			fs.mutated("create", p)
		}
	}
	runtime.VSimRelease()
	if f.Err != nil {
		err = f.Err
	}
	fs.done(n, op, p, err)
	if err != nil {
		return nil, &PathError{Op: "open", Path: p, Err: err}
	}
	return &File{&file{name: p, vsim: s}}, nil
}

//go:norace
func (s *VSimStream) read(b []byte) (int, error) {
	if s.ReadFn != nil {
		return s.ReadFn(b)
	}
	if s.node == nil {
		return 0, syscall.EBADF
	}
	if s.node.Mode.IsDir() {
		return 0, syscall.EISDIR
	}
	n, f := s.fs.begin("read", s.path)
	if f.Err != nil {
		s.fs.done(n, "read", s.path, f.Err)
		return 0, f.Err
	}
	if f.Short > 0 && len(b) > f.Short {
		b = b[:f.Short]
	}
	if s.off >= len(s.data) {
		s.fs.done(n, "read", s.path, nil)
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	c := copy(b, s.data[s.off:])
	s.off += c
	s.fs.done(n, "read", s.path, nil)
	return c, nil
}

//go:norace
func (s *VSimStream) write(b []byte) (int, error) {
	if s.WriteFn != nil {
		return s.WriteFn(b)
	}
	if !s.writable {
		return 0, syscall.EBADF
	}
	n, f := s.fs.begin("write", s.path)
	if f.Err == nil {
		d := s.node.Data
		for len(d) < s.off {
			d += "\x00"
		}
		t := ""
		if s.off+len(b) < len(d) {
			t = d[s.off+len(b):]
		}
		s.node.Data = d[:s.off] + string(b) + t
		s.off += len(b)
	}
	s.fs.done(n, "write", s.path, f.Err)
	if f.Err != nil {
		return 0, f.Err
	}
	return len(b), nil
}

func vsimDir(p string) string {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return "/"
}

//go:norace
func (fs *VSimFileSystem) mutated(op, p string) {
	if fs.Mutated != nil {
		fs.Mutated(op, p)
	}
}

// change carries out every other operation that modifies the file system.
//go:norace
func (fs *VSimFileSystem) change(op, p, q string) error {
	n, f := fs.begin(op, p)
	err := f.Err
	if err == nil {
		runtime.VSimHold()
		defer runtime.VSimRelease()
		node, e := fs.lookup(p, false)
		d, de := fs.lookup(vsimDir(fs.abs(p)), true)
		switch op {
		case "mkdir":
			if e == nil {
				err = syscall.EEXIST
			} else if de != nil {
				err = de
			} else {
				d.Kids[vsimBase(p)] = fs.newNode(ModeDir|0o755, "")
			}
		case "remove", "removeall":
			if e != nil {
				err = e
			} else if op == "remove" && node.Mode.IsDir() && len(node.Kids) > 0 {
				err = syscall.ENOTEMPTY
			} else {
				delete(d.Kids, vsimBase(p))
			}
		case "rename", "link":
			if t, te := fs.lookup(vsimDir(fs.abs(q)), true); e != nil {
				err = e
			} else if te != nil {
				err = te
			} else {
				if op == "rename" {
					delete(d.Kids, vsimBase(p))
				}
				t.Kids[vsimBase(q)] = node
			}
		case "symlink":
			if e == nil {
				err = syscall.EEXIST
			} else if de != nil {
				err = de
			} else {
				d.Kids[vsimBase(p)] = fs.newNode(ModeSymlink|0o777, q)
			}
		case "truncate":
			if e != nil {
				err = e
			} else {
				node.Data = ""
			}
		default:
			err = e
		}
		if err == nil {
			fs.mutated(op, p)
		}
	}
	fs.done(n, op, p, err)
	if err != nil {
		return &PathError{Op: op, Path: p, Err: err}
	}
	return nil
}

//go:norace
func (s *VSimStream) close() error {
	if s.closed {
		return syscall.EINVAL
	}
	s.closed = true
	return nil
}

//go:norace
func (s *VSimStream) stat() (FileInfo, error) {
	if s.node == nil {
		return &vsimInfo{"std", ModeNamedPipe, 0, 0}, nil
	}
	return &vsimInfo{vsimBase(s.path), s.node.Mode, int64(len(s.data)), s.node.Ino}, nil
}

//go:norace
func (s *VSimStream) readdir(n int) ([]DirEntry, error) {
	if s.node == nil || !s.node.Mode.IsDir() {
		return nil, &PathError{Op: "readdirent", Path: s.path, Err: syscall.ENOTDIR}
	}
	if s.listed == nil {
		i, f := s.fs.begin("readdir", s.path)
		if f.Err != nil {
			s.fs.done(i, "readdir", s.path, f.Err)
			return nil, &PathError{Op: "readdirent", Path: s.path, Err: f.Err}
		}
		runtime.VSimHold()
		s.listed = []DirEntry{}
		for _, name := range s.fs.sortedNames(s.node) {
			k := s.node.Kids[name]
			s.listed = append(s.listed, &vsimInfo{name, k.Mode, int64(len(k.Data)), k.Ino})
		}
		runtime.VSimRelease()
		if f.Shuffle != 0 {
			x := f.Shuffle
			for k := len(s.listed) - 1; k > 0; k-- {
				x = x*6364136223846793005 + 1442695040888963407
				j := int((x >> 33) % uint64(k+1))
				s.listed[k], s.listed[j] = s.listed[j], s.listed[k]
			}
		}
		s.fs.done(i, "readdir", s.path, nil)
	}
	rest := s.listed[s.dirpos:]
	if n <= 0 {
		s.dirpos = len(s.listed)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if len(rest) > n {
		rest = rest[:n]
	}
	s.dirpos += len(rest)
	return rest, nil
}
