#!/usr/bin/env python3
"""Writes patched copies of a few standard library files and an overlay JSON fragment.

The patched runtime/os/syscall give the simulator its seams: file system calls, process exit, directory order, map
iteration order, select order and the global random source. Nothing is changed on disk in GOROOT: the go command reads the
copies through -overlay. With no hook installed (verifHook == nil) the behaviour is the original one except that the
runtime's random numbers come from one seeded generator.
"""
import json, os, re, sys


def patch(goroot, out):
    src = os.path.join(goroot, "src")
    replace = {}

    def load(p):
        with open(os.path.join(src, p)) as f:
            return f.read()

    def save(p, text):
        dst = os.path.join(out, p.replace("/", "_"))
        with open(dst, "w") as f:
            f.write(text)
        replace[os.path.join(src, p)] = dst

    def sub1(text, old, new, what):
        if text.count(old) != 1:
            sys.exit("std patch: %s: found %d times" % (what, text.count(old)))
        return text.replace(old, new)

    def rename(text, names, what):
        for n in names:
            text, k = re.subn(r"(?m)^func %s\(" % n, "func verif%s(" % n, text)
            if k != 1:
                sys.exit("std patch: %s: %s found %d times" % (what, n, k))
        return text

    # --- syscall
    p = "syscall/syscall_unix.go"
    save(p, rename(load(p), ["Read", "Write", "Pread", "Pwrite"], p))
    p = "syscall/syscall_linux.go"
    save(p, rename(load(p), ["Chmod", "Chown", "Creat", "Fchmodat", "Link", "Mkdir", "Open", "Openat", "Rename", "Rmdir",
                             "Symlink", "Unlink", "Unlinkat", "ReadDirent"], p))
    # A system call of the simulated process keeps the processor: otherwise the system decides who runs next.
    t = load(os.path.join(out, p.replace("/", "_")))
    for a in ("enter", "exit"):
        old = "\truntime_%ssyscall()\n" % a
        if t.count(old) != 2:
            sys.exit("std patch: %s: %ssyscall" % (p, a))
        t = t.replace(old, "\tif VerifHook == nil {\n\t\truntime_%ssyscall()\n\t}\n" % a)
    save(p, t)
    p = "syscall/syscall_linux_amd64.go"
    save(p, rename(load(p), ["Stat", "Lstat"], p))
    p = "syscall/zsyscall_linux_amd64.go"
    save(p, rename(load(p), ["Close", "Fstat", "Fsync", "Ftruncate", "Truncate", "Fchmod", "Mkdirat", "Renameat"], p))
    save("syscall/zz_verif.go", SYSCALL)
    # --- internal/syscall/unix
    p = "internal/syscall/unix/at.go"
    save(p, rename(load(p), ["Unlinkat", "Openat", "Mkdirat", "Renameat", "Linkat", "Symlinkat"], p))
    save("internal/syscall/unix/zz_verif.go", UNIX)
    # --- os
    p = "os/proc.go"
    save(p, sub1(load(p), "func Exit(code int) {\n", "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n", p))
    p = "os/zero_copy_linux.go"
    t = load(p)
    t = rename_methods(t, p)
    save(p, t)
    p = "os/dir_unix.go"
    t = load(p)
    t, k = re.subn(r"(?m)^func \(f \*File\) readdir\(", "func (f *File) verifReaddir(", t)
    if k != 1:
        sys.exit("std patch: readdir")
    save(p, t)
    save("os/zz_verif.go", OS)
    # --- runtime
    p = "internal/runtime/maps/runtime.go"
    load(p)
    p = "runtime/rand.go"
    t = load(p)
    t = sub1(t, "func rand() uint64 {\n", "func rand() uint64 {\n\treturn verifRand()\n}\n\n//go:nosplit\nfunc verifOldRand() uint64 {\n", p + " rand")
    t = sub1(t, "\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tstartupRand = []byte(\"deterministic simulation seed 32b\")[:32]\n", p + " seed")
    t = sub1(t, "\tmp.chacha8.Init64(seed)\n\tmp.cheaprand = rand()\n", "\tmp.chacha8.Init64(seed)\n\tmp.cheaprand = 0x9E3779B97F4A7C15\n", p + " mrandinit")
    save(p, t)
    # No goroutine is preempted, and the simulator's random numbers decide which of those that are ready runs next.
    p = "runtime/proc.go"
    t = load(p)
    t = sub1(t, "const forcePreemptNS = 10 * 1000 * 1000 ", "const forcePreemptNS = 1 << 60 ", p)
    t = sub1(t, "\tif randomizeScheduler && next && randn(2) == 0 {\n", "\tif next && verifLater(gp) {\n", p)
    save(p, t)
    p = "runtime/select.go"
    t = load(p)
    t = sub1(t, "j := cheaprandn(uint32(norder + 1))", "j := verifRandn(uint32(norder + 1))", p)
    save(p, t)
    save("runtime/zz_verif.go", RUNTIME)
    # --- testing/synctest
    save("testing/synctest/zz_verif.go", SYNCTEST)
    return replace


def rename_methods(t, p):
    t, k1 = re.subn(r"(?m)^func \(f \*File\) writeTo\(", "func (f *File) verifWriteTo(", t)
    t, k2 = re.subn(r"(?m)^func \(f \*File\) readFrom\(", "func (f *File) verifReadFrom(", t)
    if k1 != 1 or k2 != 1:
        sys.exit("std patch: " + p)
    return t


SYSCALL = '''package syscall

// VerifCall describes one system call to the simulator.
type VerifCall struct {
	Op    string
	Path  string
	Path2 string
	FD    int
	Dir   int
	Flags int
	Buf   []byte
	Stat  *Stat_t
	N     int
	Err   error
	Done  bool // the simulator carried the call out itself
}

// VerifHook is called before, VerifPost after a call.
var VerifHook, VerifPost func(c *VerifCall)

func vpre(c *VerifCall) bool {
	if VerifHook == nil {
		return false
	}
	VerifHook(c)
	return c.Done
}

func vpost(c *VerifCall, n int, err error) {
	if VerifPost != nil {
		c.N, c.Err = n, err
		VerifPost(c)
	}
}

const verifCWD = -100

func Read(fd int, p []byte) (n int, err error) {
	c := VerifCall{Op: "read", FD: fd, Buf: p}
	if vpre(&c) {
		return c.N, c.Err
	}
	return verifRead(fd, c.Buf)
}

func Write(fd int, p []byte) (n int, err error) {
	c := VerifCall{Op: "write", FD: fd, Buf: p}
	if vpre(&c) {
		return c.N, c.Err
	}
	return verifWrite(fd, c.Buf)
}

func Pread(fd int, p []byte, off int64) (n int, err error) {
	c := VerifCall{Op: "read", FD: fd, Buf: p}
	if vpre(&c) {
		return c.N, c.Err
	}
	return verifPread(fd, c.Buf, off)
}

func Pwrite(fd int, p []byte, off int64) (n int, err error) {
	c := VerifCall{Op: "write", FD: fd, Buf: p}
	if vpre(&c) {
		return c.N, c.Err
	}
	return verifPwrite(fd, c.Buf, off)
}

func ReadDirent(fd int, buf []byte) (n int, err error) {
	c := VerifCall{Op: "readdir", FD: fd}
	if vpre(&c) {
		return c.N, c.Err
	}
	return verifReadDirent(fd, buf)
}

func Open(path string, mode int, perm uint32) (fd int, err error) {
	c := VerifCall{Op: "open", Path: path, Dir: verifCWD, Flags: mode}
	if vpre(&c) {
		return c.N, c.Err
	}
	fd, err = verifOpen(path, mode, perm)
	vpost(&c, fd, err)
	return fd, err
}

func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	c := VerifCall{Op: "open", Path: path, Dir: dirfd, Flags: flags}
	if vpre(&c) {
		return c.N, c.Err
	}
	fd, err = verifOpenat(dirfd, path, flags, mode)
	vpost(&c, fd, err)
	return fd, err
}

func Creat(path string, mode uint32) (fd int, err error) {
	c := VerifCall{Op: "open", Path: path, Dir: verifCWD, Flags: O_CREAT | O_TRUNC | O_WRONLY}
	if vpre(&c) {
		return c.N, c.Err
	}
	fd, err = verifCreat(path, mode)
	vpost(&c, fd, err)
	return fd, err
}

func Close(fd int) (err error) {
	c := VerifCall{Op: "close", FD: fd}
	if vpre(&c) {
		return c.Err
	}
	return verifClose(fd)
}

func Fstat(fd int, st *Stat_t) (err error) {
	c := VerifCall{Op: "fstat", FD: fd, Stat: st}
	if vpre(&c) {
		return c.Err
	}
	err = verifFstat(fd, st)
	vpost(&c, 0, err)
	return err
}

func Stat(path string, st *Stat_t) (err error) {
	c := VerifCall{Op: "stat", Path: path, Dir: verifCWD, Stat: st}
	if vpre(&c) {
		return c.Err
	}
	err = verifStat(path, st)
	vpost(&c, 0, err)
	return err
}

func Lstat(path string, st *Stat_t) (err error) {
	c := VerifCall{Op: "lstat", Path: path, Dir: verifCWD, Stat: st}
	if vpre(&c) {
		return c.Err
	}
	err = verifLstat(path, st)
	vpost(&c, 0, err)
	return err
}

func Fsync(fd int) (err error) {
	c := VerifCall{Op: "fsync", FD: fd}
	if vpre(&c) {
		return c.Err
	}
	return verifFsync(fd)
}

func Ftruncate(fd int, n int64) (err error) {
	c := VerifCall{Op: "ftruncate", FD: fd}
	if vpre(&c) {
		return c.Err
	}
	return verifFtruncate(fd, n)
}

func Truncate(path string, n int64) (err error) {
	c := VerifCall{Op: "truncate", Path: path, Dir: verifCWD}
	if vpre(&c) {
		return c.Err
	}
	return verifTruncate(path, n)
}

func Fchmod(fd int, mode uint32) (err error) {
	c := VerifCall{Op: "fchmod", FD: fd}
	if vpre(&c) {
		return c.Err
	}
	return verifFchmod(fd, mode)
}

func path1(op, path string, dir int) VerifCall { return VerifCall{Op: op, Path: path, Dir: dir} }

func Chmod(path string, mode uint32) (err error) {
	c := path1("chmod", path, verifCWD)
	if vpre(&c) {
		return c.Err
	}
	return verifChmod(path, mode)
}

func Fchmodat(dirfd int, path string, mode uint32, flags int) error {
	c := path1("chmod", path, dirfd)
	if vpre(&c) {
		return c.Err
	}
	return verifFchmodat(dirfd, path, mode, flags)
}

func Chown(path string, uid int, gid int) (err error) {
	c := path1("chown", path, verifCWD)
	if vpre(&c) {
		return c.Err
	}
	return verifChown(path, uid, gid)
}

func Mkdir(path string, mode uint32) (err error) {
	c := path1("mkdir", path, verifCWD)
	if vpre(&c) {
		return c.Err
	}
	return verifMkdir(path, mode)
}

func Mkdirat(dirfd int, path string, mode uint32) (err error) {
	c := path1("mkdir", path, dirfd)
	if vpre(&c) {
		return c.Err
	}
	return verifMkdirat(dirfd, path, mode)
}

func Rmdir(path string) error {
	c := path1("rmdir", path, verifCWD)
	if vpre(&c) {
		return c.Err
	}
	return verifRmdir(path)
}

func Unlink(path string) error {
	c := path1("unlink", path, verifCWD)
	if vpre(&c) {
		return c.Err
	}
	return verifUnlink(path)
}

func Unlinkat(dirfd int, path string) error {
	c := path1("unlink", path, dirfd)
	if vpre(&c) {
		return c.Err
	}
	return verifUnlinkat(dirfd, path)
}

func Rename(oldpath string, newpath string) (err error) {
	c := VerifCall{Op: "rename", Path: oldpath, Path2: newpath, Dir: verifCWD}
	if vpre(&c) {
		return c.Err
	}
	return verifRename(oldpath, newpath)
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	c := VerifCall{Op: "rename", Path: oldpath, Path2: newpath, Dir: olddirfd}
	if vpre(&c) {
		return c.Err
	}
	return verifRenameat(olddirfd, oldpath, newdirfd, newpath)
}

func Link(oldpath string, newpath string) (err error) {
	c := VerifCall{Op: "link", Path: newpath, Dir: verifCWD}
	if vpre(&c) {
		return c.Err
	}
	return verifLink(oldpath, newpath)
}

func Symlink(oldpath string, newpath string) (err error) {
	c := VerifCall{Op: "symlink", Path: newpath, Dir: verifCWD}
	if vpre(&c) {
		return c.Err
	}
	return verifSymlink(oldpath, newpath)
}

// VerifPath announces a path operation made outside this package.
func VerifPath(op, path, path2 string, dir, flags int) (bool, int, error) {
	c := VerifCall{Op: op, Path: path, Path2: path2, Dir: dir, Flags: flags}
	if vpre(&c) {
		return true, c.N, c.Err
	}
	return false, 0, nil
}
'''

UNIX = '''package unix

import "syscall"

func Unlinkat(dirfd int, path string, flags int) error {
	if d, _, e := syscall.VerifPath("unlink", path, "", dirfd, 0); d {
		return e
	}
	return verifUnlinkat(dirfd, path, flags)
}

func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {
	if d, n, e := syscall.VerifPath("open", path, "", dirfd, flags); d {
		return n, e
	}
	return verifOpenat(dirfd, path, flags, perm)
}

func Mkdirat(dirfd int, path string, mode uint32) error {
	if d, _, e := syscall.VerifPath("mkdir", path, "", dirfd, 0); d {
		return e
	}
	return verifMkdirat(dirfd, path, mode)
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {
	if d, _, e := syscall.VerifPath("rename", oldpath, newpath, olddirfd, 0); d {
		return e
	}
	return verifRenameat(olddirfd, oldpath, newdirfd, newpath)
}

func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error {
	if d, _, e := syscall.VerifPath("link", newpath, "", newdirfd, 0); d {
		return e
	}
	return verifLinkat(olddirfd, oldpath, newdirfd, newpath, flag)
}

func Symlinkat(oldpath string, newdirfd int, newpath string) error {
	if d, _, e := syscall.VerifPath("symlink", newpath, "", newdirfd, 0); d {
		return e
	}
	return verifSymlinkat(oldpath, newdirfd, newpath)
}
'''

OS = '''package os

import "io"

// VerifExit is called first by Exit.
var VerifExit func(code int)

// VerifShuffle decides the order in which a directory delivers its entries.
var VerifShuffle func(dir string, n int, swap func(i, j int))

func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {
	if n > 0 || VerifShuffle == nil {
		return f.verifReaddir(n, mode)
	}
	names, dirents, infos, err = f.verifReaddir(n, mode)
	VerifShuffle(f.Name(), len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	VerifShuffle(f.Name(), len(dirents), func(i, j int) { dirents[i], dirents[j] = dirents[j], dirents[i] })
	VerifShuffle(f.Name(), len(infos), func(i, j int) { infos[i], infos[j] = infos[j], infos[i] })
	return
}

func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) { return 0, false, nil }

func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) { return 0, false, nil }
'''

RUNTIME = '''package runtime

import "unsafe"

var verifState uint64 = 0x1234567

//go:nosplit
func verifRand() uint64 {
	verifState += 0x9E3779B97F4A7C15
	z := verifState
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

//go:nosplit
func verifRandn(n uint32) uint32 {
	return uint32((uint64(uint32(verifRand())) * uint64(n)) >> 32)
}

var verifSched uint64

// verifLater decides whether a simulated goroutine that becomes ready waits behind the others that are.
//
//go:nosplit
func verifLater(gp *g) bool {
	if gp.labels == nil || verifSched == 0 {
		return false
	}
	verifSched = verifSched*6364136223846793005 + 1442695040888963407
	return verifSched>>33&1 == 0
}

// VerifYield may let the other goroutines that are ready run first.
func VerifYield() {
	if verifSched != 0 && verifLater(getg()) {
		Gosched()
	}
}

// VerifSeed sets the state of the random source behind map iteration, select and math/rand, and of the scheduler.
func VerifSeed(s uint64) { verifState, verifSched = s, s|1 }

// VerifLabel returns the value inherited by the goroutines a goroutine starts.
func VerifLabel() unsafe.Pointer { return getg().labels }

// VerifSetLabel sets it.
func VerifSetLabel(p unsafe.Pointer) { getg().labels = p }
'''

SYNCTEST = '''package synctest

import "internal/synctest"

// VerifRun runs f in a bubble, without a test.
func VerifRun(f func()) { synctest.Run(f) }
'''

if __name__ == "__main__":
    json.dump({"Replace": patch(sys.argv[1], sys.argv[2])}, sys.stdout, indent=1)
