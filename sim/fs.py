'''The storage seam: Python-level file I/O and HDF5 below a run's scratch root become scheduling points and can fail.

Real files in a private scratch directory carry the data; faults (no space, I/O error, short write, permission),
crashes (the tree as it stands at that instant survives, user-space buffers do not) and the inter-process HDF5 file
lock are simulated here.
'''
import builtins
import errno
import fnmatch
import io
import os
import shutil
import stat as _stat
import sys
import weakref

import h5py
from h5py._objects import phil as _phil

from . import core

_real = {}
_installed = False
DRIVER_ROOTS = []


def _proc_fs():
    p = core.current()
    if p is None or p.world.fs is None:
        return None, None
    return p, p.world.fs


class FaultSpec:
    '''Fail the nth matching operation.  sticky: every later one too.'''

    def __init__(self, d):
        self.op, self.path, self.nth, self.kind = d['op'], d.get('path', '*'), d.get('nth', 0), d['kind']
        self.rank, self.sticky, self.job = d.get('rank'), d.get('sticky', False), d.get('job')
        self.count = 0
        self.fired = 0

    def hit(self, p, op, rel):
        if op != self.op and not (self.op == 'anywrite' and op in ('write', 'h5write', 'h5close', 'open_w', 'h5open_w')):
            return False
        if self.rank is not None and p.rank != self.rank: return False
        if self.job is not None and p.job != self.job: return False
        if not fnmatch.fnmatch(rel, self.path): return False
        self.count += 1
        if self.count - 1 == self.nth or (self.sticky and self.count - 1 > self.nth):
            self.fired += 1
            return True
        return False


ERR = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EROFS': errno.EROFS,
       'EDQUOT': errno.EDQUOT, 'ENOENT': errno.ENOENT}


def mkerr(kind, path):
    return OSError(ERR[kind], f'[simulated] {os.strerror(ERR[kind])}', path)


class SimFS:
    def __init__(self, root, faults=(), log_ops=False, mutating_log=None):
        self.root = os.path.realpath(root)
        self.faults = [FaultSpec(d) for d in faults]
        self.ops = [] if log_ops else None
        self.opcount = 0
        self.injected = []
        self.writes = set()  # files opened for writing / created / replaced / removed during the run
        self.access = []
        self.crash = None
        self.h5rel = {}

    def rel(self, path):
        '''Path relative to the root, or None when outside.'''
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        full = os.path.normpath(os.path.join(_real['getcwd'](), path))
        if full == self.root: return '.'
        if full.startswith(self.root + os.sep): return full[len(self.root) + 1:]
        return None

    def op(self, p, op, rel, path):
        '''A scheduling point for one file operation; raises or returns the fault kind to apply.'''
        self.opcount += 1
        p.io_depth += 1
        p.hold = _phil._is_owned()  # never switch away while the HDF5 library lock is held
        try:
            p.world.step(f'fs.{op} {rel}')
        finally:
            p.io_depth -= 1
            p.hold = False
        if self.ops is not None:
            self.ops.append((p.job, p.rank, op, rel))
        if op in ('open_w', 'mkdir', 'rename', 'remove', 'rmdir', 'h5open_w', 'truncate'):
            self.writes.add(rel)
        for f in self.faults:
            if f.hit(p, op, rel):
                p.world.fault(f'{op}:{f.kind}')
                self.injected.append((p.job, p.rank, op, rel, f.kind))
                if f.kind in ('short',):
                    return 'short'
                raise mkerr(f.kind, path)
        return None


def _active(path):
    p, fs = _proc_fs()
    if fs is None or p.h5_depth or p.io_depth:
        return None, None, None
    rel = fs.rel(path)
    if rel is None:
        return None, None, None
    return p, fs, rel


# -- Python files --------------------------------------------------------------------------------------------------
class SimRaw(io.RawIOBase):
    def __init__(self, fs, rel, path, fd, mode, owner):
        self._fs, self._rel, self._fd, self._owner = fs, rel, fd, owner
        self.name = path
        self.mode = mode
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')

    def readable(self): return self._r
    def writable(self): return self._w
    def seekable(self): return True
    def isatty(self): return False

    def fileno(self):
        f = sys._getframe(1)
        for _ in range(3):
            if f is None: break
            if f.f_code.co_name in ('isfileobj', '_fastcopy_sendfile', '_fastcopy_fcopyfile', '_copyfileobj_readinto',
                                    '_wrapit', '_validate_writable'):
                raise io.UnsupportedOperation('fileno')
            f = f.f_back
        return self._fd

    def _op(self, op):
        p = core.current()
        if p is None or p is not self._owner:
            return None
        return self._fs.op(p, op, self._rel, self.name)

    def readinto(self, b):
        if self.closed: raise ValueError('I/O operation on closed file')
        self._op('read')
        data = os.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed: raise ValueError('I/O operation on closed file')
        r = self._op('write')
        b = bytes(b)
        if r == 'short' and len(b) > 1:
            return os.write(self._fd, b[:max(1, len(b) // 2)])
        cr = self._fs.crash
        if cr is not None and cr.get('torn') and cr.get('armed'):
            os.write(self._fd, b[:len(b) // 2])
            return len(b)
        return os.write(self._fd, b)

    def seek(self, off, whence=0): return os.lseek(self._fd, off, whence)
    def tell(self): return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None: size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                os.close(self._fd)


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) or opener is not None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    p, fs, rel = _active(file)
    if fs is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    m = mode.replace('b', '').replace('t', '').replace('U', '')
    writing = any(c in m for c in 'wax+')
    path = os.fspath(file)
    fs.op(p, 'open_w' if writing else 'open_r', rel, path)
    flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
             'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[m[0]]
    if '+' in m:
        flags = (flags & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
    fd = os.open(path, flags | os.O_CLOEXEC, 0o666)
    if _stat.S_ISDIR(os.fstat(fd).st_mode):
        os.close(fd)
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
    raw = SimRaw(fs, rel, path, fd, m, p)
    if buffering == 0:
        if not binary: raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else 8192
    if '+' in m: buf = io.BufferedRandom(raw, size)
    elif writing: buf = io.BufferedWriter(raw, size)
    else: buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


def _wrap1(name, opname):
    real = _real[name]

    def f(path, *a, **k):
        p, fs, rel = _active(path) if not isinstance(path, int) else (None, None, None)
        if fs is not None:
            fs.op(p, opname, rel, path)
        return real(path, *a, **k)
    f.__name__ = name.split('.')[-1]
    return f


def _wrap2(name, opname):
    real = _real[name]

    def f(src, dst, *a, **k):
        p, fs, rel = _active(dst)
        if fs is not None:
            fs.op(p, opname, rel, dst)
            r1 = fs.rel(src)
            if r1 is not None:
                fs.writes.add(r1)
        return real(src, dst, *a, **k)
    f.__name__ = name.split('.')[-1]
    return f


def _wrapq(name):
    real = _real[name]

    def f(path='.', *a, **k):
        p, fs, rel = _active(path) if not isinstance(path, int) else (None, None, None)
        if fs is not None:
            p.io_depth += 1
            try:
                p.world.step(f'fs.{name} {rel}')
            finally:
                p.io_depth -= 1
        return real(path, *a, **k)
    f.__name__ = name.split('.')[-1]
    return f


def _sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    p, fs, rel = _active(path)
    if fs is not None and dir_fd is None:
        fs.op(p, 'open_w' if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else 'open_r', rel, path)
    return _real['os.open'](path, flags, mode, dir_fd=dir_fd)


# -- HDF5 ----------------------------------------------------------------------------------------------------------
class _H5Guard:
    '''Only the outermost HDF5 call is a scheduling point; nested ones run atomically.'''

    def __init__(self, p): self.p = p

    def __enter__(self):
        self.p.h5_depth += 1

    def __exit__(self, *a):
        self.p.h5_depth -= 1


def _h5name(obj):
    try:
        return getattr(obj, '_sim_path', None) or obj.file.filename
    except Exception:
        return None


def _holders(full, p):
    out = []
    for hid, m in list(_H5META.items()):
        if m[3] == full and m[0] is not p and m[0].world is p.world and not m[0].dead:
            try:
                ok = _id_valid(hid)
            except Exception:
                ok = False
            if ok: out.append(m)
            else: _H5META.pop(hid, None)
    return out


def _id_valid(hid):
    ids = h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
    return any(i.id == hid for i in ids)


_H5_INIT = None


def _h5_init(self, name, mode='r', *a, **k):
    p, fs, rel = (None, None, None)
    if isinstance(name, (str, bytes)) or hasattr(name, '__fspath__'):
        p, fs, rel = _active(name)
    if fs is None:
        return _H5_INIT(self, name, mode, *a, **k)
    wr = mode != 'r'
    full = os.path.normpath(os.path.join(_real['getcwd'](), os.fspath(name) if not isinstance(name, bytes) else name.decode()))
    fs.op(p, 'h5open_w' if wr else 'h5open_r', rel, name)
    with _H5Guard(p):
        for m in _holders(full, p):
            if wr or m[4]:
                raise BlockingIOError(errno.EAGAIN, "[Errno 11] Unable to synchronously open file (unable to lock file, "
                                                    f"errno = 11, error message = 'Resource temporarily unavailable') {rel}")
        backup = None
        if wr and _real['exists'](full) and _real['isfile'](full):
            with _real['open'](full, 'rb') as f:
                backup = f.read()
        _H5_INIT(self, name, mode, *a, **k)
        _opened.append(weakref.ref(self))
        try:
            _H5META[self.id.id] = [p, fs, rel, full, wr, backup]
        except Exception:
            pass


_H5META = {}
_opened = []
_H5_CLOSE = None


def _h5_close(self):
    try:
        hid = self.id.id if self.id.valid else None
    except Exception:
        hid = None
    meta = _H5META.get(hid) if hid is not None else None
    cur = core.current()
    if meta is None:
        return _H5_CLOSE(self)
    p, fs, rel, full, wr, backup = meta
    if cur is not p or p.kill or p.h5_depth:
        _H5META.pop(hid, None)
        return _H5_CLOSE(self)
    err = None
    try:
        fs.op(p, 'h5close', rel, full) if wr else fs.op(p, 'h5close_r', rel, full)
    except OSError as e:
        err = e
    _H5META.pop(hid, None)
    with _H5Guard(p):
        _H5_CLOSE(self)
        if err is not None and wr:
            # what was buffered in the library never reached the disk
            if backup is None:
                with _real['open'](full, 'wb'):
                    pass
            else:
                with _real['open'](full, 'wb') as f:
                    f.write(backup)
    if err is not None:
        raise err


def _h5_meta_of(obj):
    try:
        return _H5META.get(obj.file.id.id)
    except Exception:
        return None


def _h5meth(cls, name, opname):
    real = getattr(cls, name)

    def f(self, *a, **k):
        p = core.current()
        if p is None or p.world.fs is None or p.h5_depth or p.io_depth:
            return real(self, *a, **k)
        fs = p.world.fs
        try:
            rel = fs.h5rel[self.id.fileno]
        except Exception:
            try:
                fn = self.file.filename
                rel = fs.h5rel[self.id.fileno] = fs.rel(fn)
            except Exception:
                return real(self, *a, **k)
        if rel is None:
            return real(self, *a, **k)
        fn = rel
        fs.op(p, opname, rel, fn)
        with _H5Guard(p):
            return real(self, *a, **k)
    f.__name__ = name
    f.__doc__ = real.__doc__
    setattr(cls, name, f)




def install():
    '''Patch the interpreter.  Without a simulated process every patched call goes straight to the real one.'''
    global _installed, _H5_INIT, _H5_CLOSE
    if _installed:
        return
    _installed = True
    _real.update({'open': builtins.open, 'getcwd': os.getcwd, 'exists': os.path.exists, 'isfile': os.path.isfile,
                  'isdir': os.path.isdir, 'stat': os.stat, 'listdir': os.listdir, 'scandir': os.scandir,
                  'mkdir': os.mkdir, 'rmdir': os.rmdir, 'remove': os.remove, 'unlink': os.unlink,
                  'rename': os.rename, 'replace': os.replace, 'os.open': os.open, 'access': os.access,
                  'link': os.link, 'symlink': os.symlink})
    builtins.open = _sim_open
    io.open = _sim_open
    os.mkdir = _wrap1('mkdir', 'mkdir')
    os.rmdir = _wrap1('rmdir', 'rmdir')
    os.remove = _wrap1('remove', 'remove')
    os.unlink = _wrap1('unlink', 'remove')
    os.rename = _wrap2('rename', 'rename')
    os.replace = _wrap2('replace', 'rename')
    os.link = _wrap2('link', 'rename')
    for n in ('exists', 'isfile', 'isdir'):
        setattr(os.path, n, _wrapq(n))
    os.listdir = _wrapq('listdir')
    os.scandir = _wrapq('scandir')
    real_getpid = os.getpid

    def getpid():
        q = core.current()
        return real_getpid() if q is None else 10000 + 100 * q.job + q.rank
    os.getpid = getpid
    import numpy.lib._datasource as ds
    ds._file_openers._load()
    ds._file_openers._file_openers[None] = _sim_open
    _H5_INIT = h5py.File.__init__
    _H5_CLOSE = h5py.File.close
    h5py.File.__init__ = _h5_init
    h5py.File.close = _h5_close
    h5py.File.__exit__ = lambda self, *a: self.close() if self.id else None  # (the original holds the library lock)
    _h5meth(h5py.Group, '__setitem__', 'h5write')
    _h5meth(h5py.Group, 'create_dataset', 'h5write')
    _h5meth(h5py.Group, 'create_group', 'h5write')
    _h5meth(h5py.Group, 'require_group', 'h5write')
    _h5meth(h5py.Group, '__getitem__', 'h5read')
    _h5meth(h5py.Group, '__contains__', 'h5peek')
    _h5meth(h5py.Dataset, '__getitem__', 'h5read')
    _h5meth(h5py.Dataset, '__setitem__', 'h5write')
    _h5meth(h5py.Dataset, '__array__', 'h5read')
    _h5meth(h5py.Group, '__delitem__', 'h5write')


def reset_h5():
    '''Close whatever a finished run left open.'''
    _H5META.clear()
    while _opened:
        f = _opened.pop()()
        if f is not None:
            try:
                if f.id.valid: _H5_CLOSE(f)
            except Exception:
                pass


# -- whole-tree helpers (controller side, never simulated) ------------------------------------------------------------
def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        rd = os.path.relpath(d, root)
        out[rd] = None
        for f in files:
            fp = os.path.join(d, f)
            with _real.get('open', open)(fp, 'rb') as h:
                out[os.path.normpath(os.path.join(rd, f))] = h.read()
    return out


def restore(root, snap):
    now = snapshot(root)
    for k in sorted(now, key=len, reverse=True):
        if k not in snap:
            fp = os.path.join(root, k)
            if now[k] is None: shutil.rmtree(fp, ignore_errors=True)
            elif os.path.lexists(fp): _real.get('remove', os.remove)(fp)
    for k in sorted(snap, key=len):
        fp = os.path.join(root, k)
        if snap[k] is None:
            os.makedirs(fp, exist_ok=True)
        elif now.get(k, None) != snap[k]:
            with _real.get('open', open)(fp, 'wb') as h:
                h.write(snap[k])
