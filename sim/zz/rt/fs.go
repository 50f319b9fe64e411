//go:build go1.24

package rt

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
)

// FS is the simulated disk: a page cache, the durable image below it, and an ordered journal of directory changes.
//
// Model of durability: the directory journal is committed in order, and a power loss keeps an arbitrary prefix of it
// that includes everything before the last fsync of anything. File contents become durable by fsync of the file;
// otherwise a power loss keeps an arbitrary prefix of the pending writes of that file, the last one possibly torn, and
// possibly with zeros in place of data. A killed process loses nothing that was written.
type FS struct {
	fds []*FFile
	s       *Sim
	root    *Inode
	dur     *dirImage // durable directory tree
	journal []func(*dirImage)
	K       FSKnobs
	steps   int64
	// CrashAt counts down at every file-system step of non-harness processes.
	CrashAt   int64
	OnCrash   func()
	Log       []string
	nextIno   int
	OpenFiles int
	FaultOnly string // faults happen below this directory only
	ReadOnly  string // directory of a file system that turned read-only
	Mtime     int64
	OnWrite   func(name string)
}

type FSKnobs struct {
	WriteErr, OpenErr, SyncErr, RenameErr, ReadErr, CloseErr, StatErr int // permille
	ShortW                                                   int
	Lat                                                      int64 // max latency of one step
	Space                                                    int64 // bytes left, <0 unlimited
}

type Inode struct {
	ino     int
	dir     bool
	mode    fs.FileMode
	ents    map[string]*Inode
	data    []byte
	durable []byte
	pending []fop
	mtime   int64
	nlink   int
}

type fop struct {
	trunc int // >=0: truncate to this size
	off   int
	data  []byte
}

type dirImage struct {
	root *Inode
	ents map[*Inode]map[string]*Inode
}

func newFS(s *Sim) *FS {
	f := &FS{s: s}
	f.K.Space = -1
	f.CrashAt = -1
	f.root = f.mk(true, 0755)
	f.dur = &dirImage{root: f.root, ents: map[*Inode]map[string]*Inode{f.root: {}}}
	return f
}

func (f *FS) mk(dir bool, mode fs.FileMode) *Inode {
	f.nextIno++
	n := &Inode{ino: f.nextIno, dir: dir, mode: mode, mtime: f.s.Wall(), nlink: 1}
	if dir {
		n.ents = map[string]*Inode{}
	}
	return n
}

func (f *FS) meta(fn func(*dirImage)) { f.journal = append(f.journal, fn) }

func (f *FS) commit() {
	for _, fn := range f.journal {
		fn(f.dur)
	}
	f.journal = nil
}

// step is one disk operation: a point where the simulator may delay, preempt, or crash.
func (f *FS) step(what, name string) {
	alive()
	if cur == nil || cur.Proc == nil || cur.Proc.Harness {
		return
	}
	f.steps++
	f.s.Inc("fs." + what)
	if f.s.Cfg.Verbose {
		f.s.Logf("fs %s %s", what, name)
	}
	for i := 0; i < len(name); i++ {
		f.s.Hash = (f.s.Hash ^ uint64(name[i])) * 1099511628211
	}
	if f.CrashAt > 0 {
		f.CrashAt--
		if f.CrashAt == 0 {
			f.CrashAt = -1
			f.s.Inc("fault.crash_in_disk_op")
			f.OnCrash()
			alive()
		}
	}
	if f.K.Lat > 0 {
		if d := int64(f.s.Draw(SFault, 1000)) * f.K.Lat / 1000; d > 0 {
			SleepTask(d)
		}
	}
	SyncPoint()
}

func (f *FS) readOnly(p string) bool {
	return f.ReadOnly != "" && strings.HasPrefix(p, f.ReadOnly) && cur != nil && cur.Proc != nil && !cur.Proc.Harness
}

func (f *FS) fail(pm int, what string) bool {
	if cur == nil || cur.Proc == nil || cur.Proc.Harness {
		return false
	}
	if f.s.Chance(SFault, pm) {
		f.s.Inc("fault.disk_" + what)
		f.s.Logf("disk fault: %s", what)
		return true
	}
	return false
}

// Steps done so far.
func (f *FS) Steps() int64 { return f.steps }

func (f *FS) split(p string) []string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	p = path.Clean(p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (f *FS) lookup(p string) (*Inode, error) {
	n := f.root
	for _, c := range f.split(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		n = n.ents[c]
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, nil
}

func (f *FS) parent(p string) (*Inode, string, error) {
	cs := f.split(p)
	if len(cs) == 0 {
		return nil, "", syscall.EINVAL
	}
	n := f.root
	for _, c := range cs[:len(cs)-1] {
		n = n.ents[c]
		if n == nil {
			return nil, "", syscall.ENOENT
		}
		if !n.dir {
			return nil, "", syscall.ENOTDIR
		}
	}
	return n, cs[len(cs)-1], nil
}

func (f *FS) link(d *Inode, name string, n *Inode) {
	d.ents[name] = n
	f.meta(func(im *dirImage) {
		if im.ents[d] == nil {
			im.ents[d] = map[string]*Inode{}
		}
		im.ents[d][name] = n
		if n.dir && im.ents[n] == nil {
			im.ents[n] = map[string]*Inode{}
		}
	})
}
func (f *FS) unlink(d *Inode, name string) {
	delete(d.ents, name)
	f.meta(func(im *dirImage) { delete(im.ents[d], name) })
}

// Stat of a path.
func (f *FS) Stat(p string) (*Inode, error) {
	f.step("stat", p)
	if f.FaultOnly != "" && strings.HasPrefix(p, f.FaultOnly) && f.fail(f.K.OpenErr, "stat_error") || f.fail(f.K.StatErr, "stat_error") {
		return nil, syscall.EIO
	}
	return f.lookup(p)
}

func (n *Inode) IsDir() bool { return n.dir }
func (n *Inode) Size() int64 { return int64(len(n.data)) }

// Stamp changes with every write to the file.
func (n *Inode) Stamp() string       { return fmt.Sprint(n.ino, n.mtime) }
func (n *Inode) Mode() fs.FileMode   { return n.mode }
func (n *Inode) Mtime() int64        { return n.mtime }
func (n *Inode) Ino() int            { return n.ino }
func (n *Inode) Chmod(m fs.FileMode) { n.mode = n.mode&^0777 | m&0777 }

func (f *FS) Mkdir(p string, mode fs.FileMode) error {
	f.step("mkdir", p)
	d, name, err := f.parent(p)
	if err != nil {
		return err
	}
	if d.ents[name] != nil {
		return syscall.EEXIST
	}
	if f.readOnly(p) {
		return syscall.EROFS
	}
	f.link(d, name, f.mk(true, mode|fs.ModeDir))
	return nil
}

func (f *FS) MkdirAll(p string, mode fs.FileMode) error {
	f.step("mkdir", p)
	n := f.root
	for _, c := range f.split(p) {
		if !n.dir {
			return syscall.ENOTDIR
		}
		if n.ents[c] == nil {
			f.link(n, c, f.mk(true, mode|fs.ModeDir))
		}
		n = n.ents[c]
	}
	if !n.dir {
		return syscall.ENOTDIR
	}
	return nil
}

// File is an open file.
type FFile struct {
	f      *FS
	N      *Inode
	Path   string
	Off    int
	app    bool
	rd, wr bool
	closed bool
	proc   *Proc
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (f *FS) Open(p string, flag int, mode fs.FileMode) (*FFile, error) {
	f.step("open", p)
	d, name, err := f.parent(p)
	var n *Inode
	if len(f.split(p)) == 0 {
		n = f.root
	} else {
		if err != nil {
			return nil, err
		}
		n = d.ents[name]
	}
	if strings.HasPrefix(p, f.FaultOnly) && f.fail(f.K.OpenErr, "open_error") {
		return nil, []error{syscall.EIO, syscall.EMFILE, syscall.EACCES}[f.s.Draw(SFault, 3)]
	}
	wr := flag&(oWRONLY|oRDWR) != 0
	if f.readOnly(p) && (wr || flag&oCREATE != 0 && n == nil) {
		return nil, syscall.EROFS
	}
	if n == nil {
		if flag&oCREATE == 0 {
			return nil, syscall.ENOENT
		}
		if f.K.Space == 0 {
			f.s.Inc("fault.disk_full")
			return nil, syscall.ENOSPC
		}
		n = f.mk(false, mode)
		f.link(d, name, n)
	} else {
		if flag&oCREATE != 0 && flag&oEXCL != 0 {
			return nil, syscall.EEXIST
		}
		if n.dir && wr {
			return nil, syscall.EISDIR
		}
		if flag&oTRUNC != 0 && wr {
			f.truncate(n, 0)
		}
	}
	f.OpenFiles++
	if p := CurProc(); p != nil {
		p.OpenFiles++
	}
	return &FFile{f: f, N: n, Path: p, app: flag&oAPPEND != 0, rd: flag&oWRONLY == 0, wr: wr, proc: CurProc()}, nil
}

func (f *FS) truncate(n *Inode, size int) {
	if size == len(n.data) && size == 0 {
		n.pending = append(n.pending, fop{trunc: 0})
		return
	}
	if size < len(n.data) {
		if f.K.Space >= 0 {
			f.K.Space += int64(len(n.data) - size)
		}
		n.data = append([]byte(nil), n.data[:size]...)
	} else {
		n.data = append(append([]byte(nil), n.data...), make([]byte, size-len(n.data))...)
	}
	n.pending = append(n.pending, fop{trunc: size})
	n.mtime = f.s.Wall()
}

func (f *FS) Truncate(p string, size int) error {
	f.step("truncate", p)
	n, err := f.lookup(p)
	if err != nil {
		return err
	}
	if n.dir {
		return syscall.EISDIR
	}
	if f.fail(f.K.WriteErr, "write_error") {
		return syscall.EIO
	}
	f.truncate(n, size)
	return nil
}

func (h *FFile) Closed() bool { return h.closed }

func (h *FFile) Read(b []byte) (int, error) {
	h.f.step("read", h.Path)
	if !h.rd {
		return 0, syscall.EBADF
	}
	if h.N.dir {
		return 0, syscall.EISDIR
	}
	if strings.HasPrefix(h.Path, h.f.FaultOnly) && h.f.fail(h.f.K.ReadErr, "read_error") {
		return 0, syscall.EIO
	}
	if h.Off >= len(h.N.data) {
		return 0, nil
	}
	k := copy(b, h.N.data[h.Off:])
	h.Off += k
	return k, nil
}

const page = 4096

// WriteAt writes at an offset (negative: the file position).
func (h *FFile) Write(b []byte, off int) (int, error) {
	f := h.f
	if !h.wr {
		alive()
		return 0, syscall.EBADF
	}
	total := 0
	for {
		f.step("write", h.Path)
		pos := h.Off
		if off >= 0 {
			pos = off + total
		}
		if h.app {
			pos = len(h.N.data)
		}
		k := len(b) - total
		if k > page {
			k = page
		}
		if f.fail(f.K.WriteErr, "write_error") {
			e := []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[f.s.Draw(SFault, 3)]
			k = f.s.Draw(SFault, k+1)
			if k > 0 {
				f.s.Inc("fault.disk_short_write")
				f.put(h, b[total:total+k], pos)
				total += k
				if off < 0 {
					h.Off = pos + k
				}
			}
			return total, e
		}
		full := false
		if grow := int64(pos + k - len(h.N.data)); f.K.Space >= 0 && grow > f.K.Space {
			k -= int(grow - f.K.Space)
			if k < 0 {
				k = 0
			}
			full = true
		}
		f.put(h, b[total:total+k], pos)
		total += k
		if off < 0 {
			h.Off = pos + k
		}
		if full {
			f.s.Inc("fault.disk_full")
			f.s.Logf("disk full")
			return total, syscall.ENOSPC
		}
		if total >= len(b) {
			return total, nil
		}
	}
}

func (f *FS) put(h *FFile, b []byte, pos int) {
	if len(b) == 0 {
		return
	}
	n := h.N
	old := len(n.data)
	nd := n.data
	if pos+len(b) > len(nd) {
		if cap(nd) < pos+len(b) {
			x := make([]byte, pos+len(b), (pos+len(b))*2)
			copy(x, nd)
			nd = x
		} else {
			nd = nd[:pos+len(b)]
		}
	}
	copy(nd[pos:], b)
	n.data = nd
	if f.K.Space >= 0 {
		f.K.Space -= int64(len(n.data) - old)
	}
	n.pending = append(n.pending, fop{trunc: -1, off: pos, data: append([]byte(nil), b...)})
	n.mtime = f.s.Wall()
	if f.OnWrite != nil {
		f.OnWrite(h.Path)
	}
}

func (h *FFile) Sync() error {
	f := h.f
	f.step("fsync", h.Path)
	if f.fail(f.K.SyncErr, "sync_error") {
		// the kernel drops the dirty pages it could not write: what was durable stays, later fsyncs succeed
		return syscall.EIO
	}
	f.commit()
	if !h.N.dir {
		h.N.durable = append([]byte(nil), h.N.data...)
		h.N.pending = nil
	}
	return nil
}

func (h *FFile) Truncate(size int) error {
	h.f.step("truncate", h.Path)
	if !h.wr {
		return syscall.EINVAL
	}
	h.f.truncate(h.N, size)
	return nil
}

func (h *FFile) Close() error {
	if h.closed {
		return fs.ErrClosed
	}
	h.f.step("close", h.Path)
	h.closed = true
	h.f.OpenFiles--
	if h.proc != nil {
		h.proc.OpenFiles--
	}
	if h.wr && h.f.fail(h.f.K.CloseErr, "close_error") {
		return syscall.EIO
	}
	return nil
}

func (f *FS) Rename(a, b string) error {
	f.step("rename", a)
	da, na, err := f.parent(a)
	if err != nil {
		return err
	}
	n := da.ents[na]
	if n == nil {
		return syscall.ENOENT
	}
	db, nb, err := f.parent(b)
	if err != nil {
		return err
	}
	if f.readOnly(a) || f.readOnly(b) {
		return syscall.EROFS
	}
	if o := db.ents[nb]; o != nil {
		if o.dir != n.dir {
			return syscall.EISDIR
		}
		if o == n {
			return nil
		}
	}
	if f.fail(f.K.RenameErr, "rename_error") {
		return []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[f.s.Draw(SFault, 3)]
	}
	if o := db.ents[nb]; o != nil && f.K.Space >= 0 {
		f.K.Space += int64(len(o.data))
	}
	delete(da.ents, na)
	db.ents[nb] = n
	f.meta(func(im *dirImage) { // atomic in the journal
		delete(im.ents[da], na)
		if im.ents[db] == nil {
			im.ents[db] = map[string]*Inode{}
		}
		im.ents[db][nb] = n
	})
	if f.OnWrite != nil {
		f.OnWrite(b)
	}
	return nil
}

// Link adds the name b to the file a.
func (f *FS) Link(a, b string) error {
	f.step("link", b)
	n, err := f.lookup(a)
	if err != nil {
		return err
	}
	db, nb, err := f.parent(b)
	if err != nil {
		return err
	}
	switch {
	case n.dir:
		return syscall.EPERM
	case db.ents[nb] != nil:
		return syscall.EEXIST
	case f.readOnly(a) || f.readOnly(b):
		return syscall.EROFS
	case f.fail(f.K.RenameErr, "link_error"):
		return []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[f.s.Draw(SFault, 3)]
	}
	f.link(db, nb, n)
	return nil
}

// Fd numbers open files for code that passes descriptors to system calls.
func (f *FS) Fd(h *FFile) int {
	for i, x := range f.fds {
		if x == h {
			return i + 10
		}
	}
	f.fds = append(f.fds, h)
	return len(f.fds) + 9
}
func (f *FS) ByFd(fd int) *FFile {
	if fd < 10 || fd-10 >= len(f.fds) || f.fds[fd-10].Closed() {
		return nil
	}
	return f.fds[fd-10]
}

func (f *FS) Remove(p string) error {
	f.step("remove", p)
	d, name, err := f.parent(p)
	if err != nil {
		return err
	}
	n := d.ents[name]
	if n == nil {
		return syscall.ENOENT
	}
	if n.dir && len(n.ents) > 0 {
		return syscall.ENOTEMPTY
	}
	if f.readOnly(p) {
		return syscall.EROFS
	}
	if f.K.Space >= 0 {
		f.K.Space += int64(len(n.data))
	}
	f.unlink(d, name)
	return nil
}

// List names of a directory, sorted.
func (f *FS) List(p string) ([]string, error) {
	f.step("readdir", p)
	n, err := f.lookup(p)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, syscall.ENOTDIR
	}
	var out []string
	for k := range n.ents {
		out = append(out, k)
	}
	sort.Strings(out)
	return out, nil
}

// PowerLoss reverts the disk to what was durable plus an arbitrary part of what was not. The caller has killed all
// processes.
func (f *FS) PowerLoss() {
	s := f.s
	s.Inc("fault.power_loss")
	k := s.Draw(SFault, len(f.journal)+1) // zero: everything un-synced is lost
	s.Logf("power loss: %d of %d directory changes survive", k, len(f.journal))
	for _, fn := range f.journal[:k] {
		fn(f.dur)
	}
	f.journal = nil
	seen := map[*Inode]bool{}
	var walk func(n *Inode)
	walk = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.dir {
			n.ents = map[string]*Inode{}
			var names []string
			for name := range f.dur.ents[n] {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				c := f.dur.ents[n][name]
				n.ents[name] = c
				walk(c)
			}
			return
		}
		if len(n.pending) == 0 {
			n.data = append([]byte(nil), n.durable...)
			return
		}
		m := s.Draw(SFault, len(n.pending)+1)
		d := append([]byte(nil), n.durable...)
		for i, op := range n.pending[:m] {
			data := op.data
			if op.trunc < 0 && i == m-1 && len(data) > 0 {
				switch s.Draw(SFault, 3) {
				case 1: // torn
					data = data[:s.Draw(SFault, len(data))]
					s.Inc("fault.torn_write")
				case 2: // size reached the disk, data did not
					data = make([]byte, len(data))
					s.Inc("fault.zeroed_write")
				}
			}
			d = applyFop(d, op, data)
		}
		s.Logf("power loss: inode %d keeps %d of %d pending writes (%d bytes)", n.ino, m, len(n.pending), len(d))
		if m < len(n.pending) {
			s.Inc("fault.lost_write")
		}
		n.durable = d
		n.data = append([]byte(nil), d...)
		n.pending = nil
	}
	walk(f.root)
	f.dur = &dirImage{root: f.root, ents: map[*Inode]map[string]*Inode{}}
	var snap func(n *Inode)
	snap = func(n *Inode) {
		m := map[string]*Inode{}
		f.dur.ents[n] = m
		for k, c := range n.ents {
			m[k] = c
			if c.dir {
				snap(c)
			}
		}
	}
	snap(f.root)
}

func applyFop(d []byte, op fop, data []byte) []byte {
	if op.trunc >= 0 {
		if op.trunc <= len(d) {
			return d[:op.trunc]
		}
		return append(d, make([]byte, op.trunc-len(d))...)
	}
	if op.off+len(data) > len(d) {
		d = append(d, make([]byte, op.off+len(data)-len(d))...)
	}
	copy(d[op.off:], data)
	return d
}

// SyncAll makes everything durable (harness).
func (f *FS) SyncAll() {
	f.commit()
	var walk func(n *Inode)
	walk = func(n *Inode) {
		if n.dir {
			for _, c := range n.ents {
				walk(c)
			}
			return
		}
		n.durable = append([]byte(nil), n.data...)
		n.pending = nil
	}
	walk(f.root)
}

// ReadFile and PutFile are for the harness.
func (f *FS) ReadFile(p string) ([]byte, bool) {
	n, err := f.lookup(p)
	if err != nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}
func (f *FS) PutFile(p string, data []byte) {
	cs := f.split(p)
	n := f.root
	for _, c := range cs[:len(cs)-1] {
		if n.ents[c] == nil {
			f.link(n, c, f.mk(true, 0755|fs.ModeDir))
		}
		n = n.ents[c]
	}
	x := n.ents[cs[len(cs)-1]]
	if x == nil {
		x = f.mk(false, 0644)
		f.link(n, cs[len(cs)-1], x)
	}
	x.data = append([]byte(nil), data...)
	x.durable = append([]byte(nil), data...)
	x.pending = nil
	f.commit()
}

// DirList is for the harness.
func (f *FS) DirList(p string) []string {
	n, err := f.lookup(p)
	if err != nil || !n.dir {
		return nil
	}
	var out []string
	for k := range n.ents {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
