'''A simulated MPI: drop-in for the communicator objects of mpi4py, on top of core.World.

Modelled: pickled and buffer collectives, point-to-point, Dup/Split, eager or synchronous completion of rooted
collectives, element-type and size checks of the buffer collectives, seeded reduction order, mismatch and deadlock
detection.  Not modelled: one-sided communication, MPI-IO, intercommunicators, datatypes with holes (-> HarnessError).
'''
import pickle
import sys
import traceback

import mpi4py
mpi4py.rc.initialize = False
mpi4py.rc.finalize = False
import numpy as np  # noqa: E402
from mpi4py import MPI  # noqa: E402

from . import core  # noqa: E402
from .core import HarnessError  # noqa: E402

REAL_EXC = RuntimeError
_INPLACE = MPI.IN_PLACE


class SimMPIError(RuntimeError):
    '''What a real MPI library reports (or does, such as corrupting memory) on an erroneous call.'''


OPS = {}


def _opname(op):
    for name in ('SUM', 'PROD', 'MAX', 'MIN', 'LAND', 'LOR', 'BAND', 'BOR'):
        if op == getattr(MPI, name):
            return name
    raise HarnessError(f'reduction operation {op!r} is not modelled')


def _reduce2(name, a, b):
    if name == 'SUM': return a + b
    if name == 'PROD': return a * b
    if name == 'MAX': return np.maximum(a, b)
    if name == 'MIN': return np.minimum(a, b)
    if name == 'LAND': return np.logical_and(a, b)
    if name == 'LOR': return np.logical_or(a, b)
    if name == 'BAND': return a & b
    if name == 'BOR': return a | b
    raise HarnessError(name)


def _reduce2_obj(name, a, b):
    if name == 'SUM': return a + b
    if name == 'PROD': return a * b
    if name == 'MAX': return b if b > a else a
    if name == 'MIN': return b if b < a else a
    if name == 'LAND': return bool(a) & bool(b)
    if name == 'LOR': return bool(a) | bool(b)
    if name == 'BAND': return a & b
    if name == 'BOR': return a | b
    raise HarnessError(name)


def _mem(buf):
    '''The array's elements in memory order, as MPI sees them; a writable flat view.'''
    if buf is None:
        return None
    if not isinstance(buf, np.ndarray):
        try:
            buf = np.asarray(memoryview(buf))
        except TypeError:
            raise TypeError(f'expecting a buffer or NumPy array, got {type(buf)}')
    if buf.flags.c_contiguous:
        return buf.reshape(-1)
    if buf.flags.f_contiguous:
        return buf.T.reshape(-1)
    raise ValueError('ndarray is not contiguous')


def _isdt(x):
    return isinstance(x, (MPI.Datatype, str)) and not isinstance(x, np.ndarray)


def _intarr(c):
    a = np.asarray(c)
    if a.dtype.kind == 'f':
        b = a.astype(np.int64)
        if not np.all(b == a):
            raise SimMPIError('non-integral counts')
        a = b
    return a.astype(np.int64)


def _spec(msg, vector=None):
    '''-> (flat, counts, displs) ; vector = number of ranks for the v variants, else counts is an int.'''
    counts = displs = None
    if isinstance(msg, (list, tuple)):
        msg = list(msg)
        buf = msg[0]
        rest = [m for m in msg[1:] if not _isdt(m)]
        if len(rest) == 1:
            r = rest[0]
            if isinstance(r, (tuple, list)) and len(r) == 2 and not np.isscalar(r[0]):
                counts, displs = r
            else:
                counts = r
        elif len(rest) == 2:
            counts, displs = rest
    else:
        buf = msg
    flat = _mem(buf)
    if vector is None:
        n = int(counts) if counts is not None else (0 if flat is None else flat.size)
        if flat is not None and n > flat.size:
            raise SimMPIError('message larger than its buffer')
        return flat, n, None
    if counts is None:
        n = 0 if flat is None else flat.size
        if n % vector:
            raise ValueError('buffer size is not divisible by the communicator size')
        counts = np.full(vector, n // vector, np.int64)
    else:
        counts = _intarr(counts)
        if counts.ndim == 0:
            counts = np.full(vector, int(counts), np.int64)
        if counts.size != vector:
            raise ValueError('counts do not match the communicator size')
    if displs is None:
        displs = np.cumsum(counts) - counts
    else:
        displs = _intarr(displs)
    if flat is not None and counts.size and int(np.max(np.asarray(counts) + np.asarray(displs))) > flat.size:
        raise SimMPIError('message larger than its buffer')
    return flat, counts, displs


def _typecheck(a, b, what):
    if a is not None and b is not None and a != b:
        raise SimMPIError(f'{what}: element types differ between ranks ({a} vs {b})')


class _Inst:
    '''One collective operation in flight.'''

    def __init__(self, op, root, extra):
        self.op, self.root, self.extra = op, root, extra
        self.arrived = {}
        self.left = 0
        self.result = {}
        self.sync = False


class Group:
    '''State shared by all ranks of one communicator.'''

    def __init__(self, world, size, name):
        self.world, self.size, self.name = world, size, name
        self.insts = {}
        self.mail = {}
        self.sync_mode = world.ch.choose(3) if size > 1 else 0  # 0: eager, 1: synchronous, 2: mixed
        self.next_child = {}


class Status:
    '''Stands in for MPI.Status (the real one needs an initialised library).'''

    def __init__(self):
        self.source, self.tag, self.error, self.count, self.item = MPI.ANY_SOURCE, MPI.ANY_TAG, 0, 0, 1

    def _fill(self, m):
        self.source, self.tag = m[0], m[1]
        p = m[2][1]
        self.count, self.item = (p.size, p.dtype.itemsize) if m[2][0] == 'buf' else (len(p), 1)

    def Get_source(self): return self.source
    def Get_tag(self): return self.tag
    def Get_error(self): return self.error
    def Get_count(self, datatype=None): return self.count * self.item if datatype in (None, MPI.BYTE) else self.count
    Get_elements = Get_count
    def Is_cancelled(self): return False


class Request:
    '''A request which completes in wait(): fn returns the value, ready tells whether it would block.'''

    def __init__(self, fn=None, ready=None):
        self._f, self._ready, self._done, self._v = fn, ready, False, None

    def wait(self, status=None):
        if not self._done:
            self._v = self._f(status) if self._f else None
            self._done = True
        return self._v
    Wait = wait

    def test(self, status=None):
        if self._done or self._ready is None or self._ready(): return True, self.wait(status)
        core.current().world.step('test')
        return False, None

    def Test(self, status=None): return self.test(status)[0]
    def Free(self): pass
    def cancel(self): pass
    Cancel = cancel

    @staticmethod
    def waitall(requests, statuses=None): return [q.wait() for q in requests]

    @staticmethod
    def Waitall(requests, statuses=None):
        for q in requests: q.wait()
        return True

    @staticmethod
    def testall(requests, statuses=None):
        if all(q._done or q._ready is None or q._ready() for q in requests): return True, [q.wait() for q in requests]
        core.current().world.step('test')
        return False, None

    @staticmethod
    def waitany(requests, status=None):
        up = lambda: [k for k, q in enumerate(requests) if not q._done and (q._ready is None or q._ready())]
        w = core.current().world
        w.step('waitany', wait=lambda: bool(up()))
        c = up()
        k = c[w.ch.choose(len(c))]
        return k, requests[k].wait(status)

    @classmethod
    def Waitany(cls, requests, status=None): return cls.waitany(requests, status)[0]


class SimComm:
    '''One rank's handle.  Also usable as MPI.COMM_WORLD through WorldProxy.'''

    def __init__(self, group, rank):
        self._g, self._rank = group, rank
        self._seq = 0

    # mpi4py 3.1 communicators cannot be pickled
    def __reduce__(self):
        raise TypeError("no default __reduce__ due to non-trivial __cinit__")

    @property
    def rank(self): return self._rank
    @property
    def size(self): return self._g.size
    @property
    def name(self): return self._g.name
    def Get_rank(self): return self._rank
    def Get_size(self): return self._g.size
    def Get_name(self): return self._g.name
    def Set_errhandler(self, h): pass
    def Free(self): pass
    def Is_intra(self): return True
    def Is_inter(self): return False

    def __eq__(self, o):
        if isinstance(o, WorldProxy): o = o._c()
        return isinstance(o, SimComm) and o._g is self._g

    def __hash__(self):
        return id(self._g)

    def __bool__(self):
        return True

    def Abort(self, errorcode=0):
        w = self._g.world
        p = core.current()
        e = sys.exc_info()[1]
        tb = traceback.format_exc() if e is not None else None
        w.step(f'Abort({errorcode})')
        w.abort_job(p, e or SimMPIError(f'MPI_Abort({errorcode})'), tb)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise HarnessError(f'communicator method {name} is not modelled')

    # -- collective engine ---------------------------------------------------------------------------------------
    def _coll(self, op, root, data, extra=None, need='all'):
        '''Deposit data; return dict rank->data once this rank may leave.
        need: 'all' everyone waits for everyone; 'root' (bcast/scatter) non-roots wait for the root;
        'toroot' (gather/reduce) the root waits for everyone.'''
        g, w = self._g, self._g.world
        seq = self._seq
        self._seq += 1
        w.step(f'{g.name}.{op}[{seq}]')
        inst = g.insts.get(seq)
        if inst is None:
            inst = g.insts[seq] = _Inst(op, root, extra)
            inst.sync = g.sync_mode == 1 or (g.sync_mode == 2 and w.ch.choose(2) == 1)
        elif (inst.op, inst.root) != (op, root):
            first = min(inst.arrived)
            w.verdicts.append(('collective-mismatch',
                               f'rank {self._rank} calls {op}(root={root}) while rank {first} is in '
                               f'{inst.op}(root={inst.root}) (operation {seq} on {g.name})'))
            w.end_world()
        inst.arrived[self._rank] = data
        n = g.size
        if need == 'all' or inst.sync:
            cond = lambda: len(inst.arrived) == n
        elif need == 'root':
            cond = (lambda: True) if self._rank == root else (lambda: root in inst.arrived)
        else:
            cond = (lambda: len(inst.arrived) == n) if self._rank == root else (lambda: True)
        if not cond():
            w.step(f'{g.name}.{op}[{seq}].wait', wait=cond)
        inst.left += 1
        if inst.left == n:
            g.insts.pop(seq, None)
        return inst

    @staticmethod
    def _p(o):
        return pickle.dumps(o, protocol=pickle.HIGHEST_PROTOCOL)

    # -- pickled ---------------------------------------------------------------------------------------------------
    def Barrier(self):
        self._coll('Barrier', None, None)
    barrier = Barrier

    def bcast(self, obj=None, root=0):
        i = self._coll('bcast', root, self._p(obj) if self._rank == root else None, need='root')
        return pickle.loads(i.arrived[root])

    def gather(self, sendobj, root=0):
        i = self._coll('gather', root, self._p(sendobj), need='toroot')
        if self._rank != root: return None
        return [pickle.loads(i.arrived[r]) for r in range(self.size)]

    def scatter(self, sendobj, root=0):
        d = None
        if self._rank == root:
            if sendobj is None or len(sendobj) != self.size:
                raise ValueError('expecting %d items, got %s' % (self.size, None if sendobj is None else len(sendobj)))
            d = [self._p(o) for o in sendobj]
        i = self._coll('scatter', root, d, need='root')
        return pickle.loads(i.arrived[root][self._rank])

    def allgather(self, sendobj):
        i = self._coll('allgather', None, self._p(sendobj))
        return [pickle.loads(i.arrived[r]) for r in range(self.size)]

    def alltoall(self, sendobj):
        i = self._coll('alltoall', None, [self._p(o) for o in sendobj])
        return [pickle.loads(i.arrived[r][self._rank]) for r in range(self.size)]

    def _red_order(self):
        k = self._g.world.ch.choose(3)
        o = list(range(self.size))
        return o[::-1] if k == 1 else (o[1:] + o[:1] if k == 2 else o)

    def reduce(self, sendobj, op=MPI.SUM, root=0):
        name = _opname(op)
        i = self._coll('reduce', root, self._p(sendobj), need='toroot')
        if self._rank != root: return None
        acc = None
        for r in range(self.size):
            v = pickle.loads(i.arrived[r])
            acc = v if r == 0 else _reduce2_obj(name, acc, v)
        return acc

    def allreduce(self, sendobj, op=MPI.SUM):
        name = _opname(op)
        i = self._coll('allreduce', None, self._p(sendobj))
        acc = None
        for r in range(self.size):
            v = pickle.loads(i.arrived[r])
            acc = v if r == 0 else _reduce2_obj(name, acc, v)
        return acc

    # -- buffers ---------------------------------------------------------------------------------------------------
    def Bcast(self, buf, root=0):
        flat, n, _ = _spec(buf)
        d = flat[:n].copy() if self._rank == root else (flat.dtype, n)
        i = self._coll('Bcast', root, d, need='root')
        if self._rank != root:
            src = i.arrived[root]
            _typecheck(src.dtype, flat.dtype, 'Bcast')
            if src.size != n:
                raise SimMPIError('Bcast: message sizes differ between ranks')
            flat[:n] = src

    def _gatherv(self, opn, send, recv, root, vec, allr=False):
        size, rank = self.size, self._rank
        mine = allr or rank == root
        rspec = None
        if mine:
            rspec = _spec(recv, vector=size)
            if rspec[0] is None and size:
                raise ValueError('expecting a receive buffer')
        if send is _INPLACE or send is None and mine:
            if not mine:
                raise SimMPIError('IN_PLACE on a non-root rank')
            c, d = int(rspec[1][rank]), int(rspec[2][rank])
            data = rspec[0][d:d + c].copy()
        else:
            flat, n, _ = _spec(send)
            data = flat[:n].copy()
        i = self._coll(opn, None if allr else root, data, need='all' if allr else 'toroot')
        if mine:
            flat, counts, displs = rspec
            for r in range(size):
                src = i.arrived[r]
                if src.size or counts[r]:
                    _typecheck(src.dtype, flat.dtype, opn)
                if src.size != counts[r]:
                    raise SimMPIError(f'{opn}: rank {r} sends {src.size} elements, {counts[r]} are expected')
                flat[displs[r]:displs[r] + counts[r]] = src

    def Gatherv(self, sendbuf, recvbuf, root=0): self._gatherv('Gatherv', sendbuf, recvbuf, root, True)
    def Gather(self, sendbuf, recvbuf, root=0): self._gatherv('Gather', sendbuf, recvbuf, root, False)
    def Allgatherv(self, sendbuf, recvbuf): self._gatherv('Allgatherv', sendbuf, recvbuf, None, True, True)
    def Allgather(self, sendbuf, recvbuf): self._gatherv('Allgather', sendbuf, recvbuf, None, False, True)

    def _scatterv(self, opn, send, recv, root):
        size, rank = self.size, self._rank
        data = None
        if rank == root:
            flat, counts, displs = _spec(send, vector=size)
            if flat is None:
                raise ValueError('expecting a send buffer')
            data = [flat[int(d):int(d + c)].copy() for c, d in zip(counts, displs)]
        rspec = None
        if recv is not _INPLACE and recv is not None:
            rspec = _spec(recv)
        i = self._coll(opn, root, data, need='root')
        src = i.arrived[root][rank]
        if rspec is not None:
            flat, n, _ = rspec
            if src.size or n:
                _typecheck(src.dtype, flat.dtype, opn)
            if src.size > n:
                raise SimMPIError(f'{opn}: message of {src.size} elements truncated to {n}')
            if src.size != n:
                raise SimMPIError(f'{opn}: rank {rank} expects {n} elements, {src.size} are sent')
            flat[:n] = src

    def Scatterv(self, sendbuf, recvbuf, root=0): self._scatterv('Scatterv', sendbuf, recvbuf, root)
    def Scatter(self, sendbuf, recvbuf, root=0): self._scatterv('Scatter', sendbuf, recvbuf, root)

    def _redv(self, opn, send, recv, op, root, allr):
        name = _opname(op)
        mine = allr or self._rank == root
        rspec = _spec(recv) if mine else None
        if send is _INPLACE:
            if not mine:
                raise SimMPIError('IN_PLACE on a non-root rank')
            flat, n = rspec[0], rspec[1]
        else:
            flat, n, _ = _spec(send)
        i = self._coll(opn, None if allr else root, flat[:n].copy(), need='all' if allr else 'toroot')
        if mine:
            if 'order' not in i.result:
                i.result['order'] = self._red_order()
            acc = None
            for r in i.result['order']:
                v = i.arrived[r]
                _typecheck(v.dtype, rspec[0].dtype, opn)
                if v.size != rspec[1]:
                    raise SimMPIError(f'{opn}: element counts differ between ranks')
                acc = v.copy() if acc is None else _reduce2(name, acc, v)
            rspec[0][:rspec[1]] = acc

    def Allreduce(self, sendbuf, recvbuf, op=MPI.SUM): self._redv('Allreduce', sendbuf, recvbuf, op, None, True)
    def Reduce(self, sendbuf, recvbuf, op=MPI.SUM, root=0): self._redv('Reduce', sendbuf, recvbuf, op, root, False)

    # -- point to point -------------------------------------------------------------------------------------------
    def _send(self, payload, dest, tag, sync=False):
        g, w = self._g, self._g.world
        if dest == MPI.PROC_NULL: return
        if not 0 <= dest < g.size: raise SimMPIError('invalid rank')
        w.step(f'{g.name}.send->{dest}')
        box = g.mail.setdefault(dest, [])
        m = [self._rank, tag, payload, False]
        box.append(m)
        if sync or g.sync_mode == 1:
            w.step(f'{g.name}.send->{dest}.wait', wait=lambda: m[3])

    def _recv(self, source, tag, buffered, status=None):
        g, w = self._g, self._g.world
        box = g.mail.setdefault(self._rank, [])

        def match():
            for m in box:
                if source not in (MPI.ANY_SOURCE, m[0]): continue
                if tag not in (MPI.ANY_TAG, m[1]): continue
                if (m[2][0] == 'buf') != buffered: continue
                return m
            return None
        w.step(f'{g.name}.recv<-{source}', wait=lambda: match() is not None)
        cand, seen = [], set()
        for m in box:  # messages of one sender do not overtake each other; different senders race
            if source not in (MPI.ANY_SOURCE, m[0]) or tag not in (MPI.ANY_TAG, m[1]) or (m[2][0] == 'buf') != buffered:
                continue
            if m[0] not in seen:
                seen.add(m[0])
                cand.append(m)
        m = cand[w.ch.choose(len(cand))]
        box.remove(m)
        m[3] = True
        return m

    def send(self, obj, dest, tag=0): self._send(('obj', self._p(obj)), dest, tag)
    def ssend(self, obj, dest, tag=0): self._send(('obj', self._p(obj)), dest, tag, True)
    bsend = send

    def recv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        if source == MPI.PROC_NULL: return None
        m = self._recv(source, tag, False)
        if status is not None: status._fill(m)
        return pickle.loads(m[2][1])

    def Send(self, buf, dest, tag=0):
        flat, n, _ = _spec(buf)
        self._send(('buf', flat[:n].copy()), dest, tag)

    def Ssend(self, buf, dest, tag=0):
        flat, n, _ = _spec(buf)
        self._send(('buf', flat[:n].copy()), dest, tag, True)

    def Recv(self, buf, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        if source == MPI.PROC_NULL: return
        flat, n, _ = _spec(buf)
        m = self._recv(source, tag, True)
        if status is not None: status._fill(m)
        src = m[2][1]
        _typecheck(src.dtype, flat.dtype, 'Recv')
        if src.size > n:
            raise SimMPIError('Recv: message truncated')
        flat[:src.size] = src

    def _ready(self, source, tag, buffered=None):
        for m in self._g.mail.setdefault(self._rank, []):
            if source in (MPI.ANY_SOURCE, m[0]) and tag in (MPI.ANY_TAG, m[1]) and buffered in (None, m[2][0] == 'buf'): return m
        return None

    def _isend(self, payload, dest, tag, sync=False):
        g, w = self._g, self._g.world
        if dest == MPI.PROC_NULL: return Request()
        if not 0 <= dest < g.size: raise SimMPIError('invalid rank')
        w.step(f'{g.name}.isend->{dest}')
        m = [self._rank, tag, payload, False]
        g.mail.setdefault(dest, []).append(m)
        if not (sync or g.sync_mode == 1): return Request()

        def done(status):
            if not m[3]: w.step(f'{g.name}.isend->{dest}.wait', wait=lambda: m[3])
        return Request(done, lambda: m[3])

    def isend(self, obj, dest, tag=0): return self._isend(('obj', self._p(obj)), dest, tag)
    def issend(self, obj, dest, tag=0): return self._isend(('obj', self._p(obj)), dest, tag, True)

    def Isend(self, buf, dest, tag=0):
        # the buffer belongs to MPI until the request completes, its content is taken now
        flat, n, _ = _spec(buf)
        return self._isend(('buf', flat[:n].copy()), dest, tag)

    def irecv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG):
        return Request(lambda st: self.recv(None, source, tag, st), lambda: self._ready(source, tag, False) is not None)

    def Irecv(self, buf, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG):
        return Request(lambda st: self.Recv(buf, source, tag, st), lambda: self._ready(source, tag, True) is not None)

    def probe(self, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        self._g.world.step(f'{self._g.name}.probe<-{source}', wait=lambda: self._ready(source, tag) is not None)
        if status is not None: status._fill(self._ready(source, tag))
        return True
    Probe = probe

    def iprobe(self, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        self._g.world.step(f'{self._g.name}.iprobe<-{source}')
        m = self._ready(source, tag)
        if m is not None and status is not None: status._fill(m)
        return m is not None
    Iprobe = iprobe

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=MPI.ANY_SOURCE, recvtag=MPI.ANY_TAG, status=None):
        q = self.isend(sendobj, dest, sendtag)
        v = self.recv(None, source, recvtag, status)
        q.wait()
        return v

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=MPI.ANY_SOURCE, recvtag=MPI.ANY_TAG, status=None):
        q = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        q.wait()

    def scan(self, sendobj, op=MPI.SUM):
        v = self.allgather(sendobj)
        acc = v[0]
        for x in v[1:self._rank + 1]: acc = _reduce2_obj(_opname(op), acc, x)
        return acc

    def exscan(self, sendobj, op=MPI.SUM):
        v = self.allgather(sendobj)
        if self._rank == 0: return None
        acc = v[0]
        for x in v[1:self._rank]: acc = _reduce2_obj(_opname(op), acc, x)
        return acc

    def Alltoall(self, sendbuf, recvbuf):
        flat, n, _ = _spec(sendbuf)
        k = n // self.size
        i = self._coll('Alltoall', None, flat[:n].copy())
        out, m, _ = _spec(recvbuf)
        if m != n: raise SimMPIError('Alltoall: buffer sizes differ')
        for r in range(self.size): out[r * k:(r + 1) * k] = i.arrived[r][self._rank * k:(self._rank + 1) * k]

    # -- communicators --------------------------------------------------------------------------------------------
    def Dup(self, info=None): return self.Split(0, self._rank)
    Clone = Dup

    def Split(self, color=0, key=0):
        i = self._coll('Split', None, (color, key))
        if 'groups' not in i.result:
            gs = {}
            for r in sorted(i.arrived, key=lambda r: (i.arrived[r][1], r)):
                gs.setdefault(i.arrived[r][0], []).append(r)
            i.result['groups'] = {c: (Group(self._g.world, len(rs), f'{self._g.name}/{c}'), rs) for c, rs in gs.items()}
        if color == MPI.UNDEFINED:
            return MPI.COMM_NULL
        g, rs = i.result['groups'][color]
        return SimComm(g, rs.index(self._rank))


class WorldProxy:
    '''Stands for MPI.COMM_WORLD: resolves to the communicator of the simulated process that asks.'''

    _fallback = None

    def _c(self):
        p = core.current()
        if p is not None and 'comm_world' in p.locals:
            return p.locals['comm_world']
        if WorldProxy._fallback is None:
            WorldProxy._fallback = SimComm(Group(core.World(0, choices=[]), 1, 'SELF'), 0)
        return WorldProxy._fallback

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._c(), name)

    def __eq__(self, o): return self._c() == (o._c() if isinstance(o, WorldProxy) else o)
    def __hash__(self): return hash(self._c())
    def __bool__(self): return True
    def __reduce__(self): return self._c().__reduce__()


class SelfProxy(WorldProxy):
    def _c(self):
        p = core.current()
        if p is None:
            return WorldProxy._c(self)
        if 'comm_self' not in p.locals:
            p.locals['comm_self'] = SimComm(Group(p.world, 1, 'SELF'), 0)
        return p.locals['comm_self']


def _finalize():
    p = core.current()
    if p is not None:
        p.locals['finalized'] = True
        p.world.step('Finalize')


def install():
    MPI.COMM_WORLD = WorldProxy()
    MPI.COMM_SELF = SelfProxy()
    MPI.Finalize = _finalize
    MPI.Status = Status
    MPI.Request = Request
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: bool(core.current() is not None and core.current().locals.get('finalized'))
    MPI.Init = lambda *a, **k: None
    MPI.Wtime = lambda: __import__('time').time()
    MPI.Get_processor_name = lambda: 'simnode'


def spawn_job(world, size, fn, job=0, argv=None, np_seed=None, name=None):
    '''size ranks of one MPI job; fn(comm) runs on each.'''
    g = Group(world, size, name or f'W{job}')
    procs = []
    for r in range(size):
        comm = SimComm(g, r)
        p = world.spawn((lambda c=comm: fn(c)), job=job, rank=r, argv=argv,
                        np_seed=None if np_seed is None else np_seed + 1000003 * r)
        p.locals['comm_world'] = comm
        procs.append(p)
    return procs
