"""Python side of the file-system seam: control of the preloaded library, its
log, and a model of the disk that tells what survives a kill or a power loss."""
import ctypes
import errno
import os
import struct

OPEN, WRITE, READ, TRUNC, FSYNC, CLOSE, RENAME, UNLINK, LINK, CHMOD, MKDIR, \
    RMDIR, TRUNCPATH = range(1, 14)
NAMES = ['', 'open', 'write', 'read', 'truncate', 'fsync', 'close', 'rename',
         'unlink', 'link', 'chmod', 'mkdir', 'rmdir', 'truncate']
F_ERRNO, F_SHORT, F_FLIP, F_DIE, F_FULL, F_DEAD = range(1, 7)
ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES,
       'EINTR': errno.EINTR, 'EROFS': errno.EROFS, 'EBUSY': errno.EBUSY,
       'EPERM': errno.EPERM, 'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT}
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['VERIF_SHIM'])
        for n in ('fsim_count', 'fsim_log_len', 'fsim_full_fired'):
            getattr(_lib, n).restype = ctypes.c_long
        _lib.fsim_fired.restype = ctypes.c_long
        _lib.fsim_fault.argtypes = [ctypes.c_long, ctypes.c_int,
                                    ctypes.c_long, ctypes.c_int]
    return _lib


class Recorder:
    """`with Recorder(dir, faults) as r:` -- file operations under dir are
    recorded and struck by the faults.  A fault is a dictionary
    {at, kind, err|arg, ops}: the operation number `at`, or the first one from
    `at` on among `ops`."""

    def __init__(self, directory, faults=()):
        self.dir, self.faults = directory, list(faults)

    def __enter__(self):
        lib().fsim_start(os.fsencode(self.dir))
        for f in self.faults:
            mask = 0
            for o in f.get('ops', ()):
                mask |= 1 << NAMES.index(o)
                if o == 'truncate':
                    mask |= 1 << TRUNCPATH
            kind = {'errno': F_ERRNO, 'short': F_SHORT, 'flip': F_FLIP,
                    'die': F_DIE, 'full': F_FULL, 'dead': F_DEAD}[f['kind']]
            arg = ERR[f['err']] if 'err' in f else f.get('arg', 0)
            lib().fsim_fault(f['at'], kind, arg, mask)
        return self

    def __exit__(self, *a):
        lib().fsim_stop()
        self.count = lib().fsim_count()
        self.fired = [lib().fsim_fired(i) for i in range(len(self.faults))]
        self.full_fired = lib().fsim_full_fired()
        n = lib().fsim_log_len()
        b = ctypes.create_string_buffer(n)
        lib().fsim_log_copy(b)
        self.ops = parse(b.raw[:n])
        return False

    def note(self, out):
        "counts the faults that struck"
        for f, n in zip(self.faults, self.fired):
            if n and (f['kind'] != 'full' or self.full_fired):
                out.count('fault:%s' % (f['err'] if f['kind'] == 'errno' else
                                        {'full': 'disk full', 'short':
                                         'short transfer', 'dead':
                                         'disk gone', 'flip':
                                         'flipped bit'}.get(f['kind'],
                                                            f['kind'])))

    @property
    def struck(self):
        return bool(self.full_fired) or any(
            n for f, n in zip(self.faults, self.fired) if f['kind'] != 'full')


def parse(b):
    out, i = [], 0
    while i < len(b):
        op, fd, res, a, c, n1 = struct.unpack_from('<BiiqqI', b, i)
        i += 29
        p1 = b[i:i + n1]
        i += n1
        n2, = struct.unpack_from('<I', b, i)
        i += 4
        p2 = b[i:i + n2]
        i += n2
        out.append((op, fd, res, a, c, p1, p2))
    return out


def describe(ops, keep=()):
    "log lines that do not depend on the names of temporary files"
    names = {}

    def nm(p):
        p = p.decode('utf-8', 'replace')
        base = os.path.basename(p)
        if base not in keep:
            return names.setdefault(p, 'file%d' % len(names))
        return base
    fds = {}
    for op, fd, res, a, c, p1, p2 in ops:
        if op == OPEN:
            fds[fd] = nm(p1)
            yield 'open %s flags=%o' % (fds[fd], a & 0o3777)
        elif op in (RENAME, LINK):
            yield '%s %s %s' % (NAMES[op], nm(p1), nm(p2))
        elif op in (UNLINK, CHMOD, RMDIR, TRUNCPATH):
            yield '%s %s' % (NAMES[op], nm(p1))
        elif op == WRITE:
            yield 'write %s @%d +%d' % (fds.get(fd), a, c)
        elif op == READ:
            pass
        else:
            yield '%s %s' % (NAMES[op], fds.get(fd))


class Inode:
    def __init__(self, data=b''):
        self.base = data           # durable contents
        self.pending = []          # (number of the operation, ...) not durable

    def copy(self):
        i = Inode(self.base)
        i.pending = list(self.pending)
        return i


def apply(data, op):
    if op[0] == 'w':
        _, off, b = op
        if len(data) < off:
            data = data + b'\0'*(off - len(data))
        return data[:off] + b + data[off + len(b):]
    n = op[1]
    return data[:n] + b'\0'*(n - len(data))


class Disk:
    """Replays recorded operations.  Metadata operations become durable in
    order; the data of a file only by synchronising that file."""

    def __init__(self, files):
        self.inodes = []
        self.names = {}           # path -> inode number, as the process sees
        for p, data in files.items():
            self.names[p] = self.new(data)
        self.durable_names = dict(self.names)
        self.pending_meta = []    # metadata operations since the last sync
        self.fd = {}

    def new(self, data=b''):
        self.inodes.append(Inode(data))
        return len(self.inodes) - 1

    def meta(self, op):
        self.pending_meta.append(op)
        self.do_meta(self.names, op)

    @staticmethod
    def do_meta(names, op):
        if op[0] == 'create':
            names[op[1]] = op[2]
        elif op[0] == 'rename':
            if op[1] in names:
                names[op[2]] = names.pop(op[1])
        elif op[0] == 'unlink':
            names.pop(op[1], None)

    def step(self, o):
        op, fd, res, a, c, p1, p2 = o
        if op == OPEN:
            path = os.fsdecode(p1)
            if a & os.O_DIRECTORY or os.path.isdir(path):
                self.fd[fd] = None
                return
            path = os.path.realpath(path) if not path.startswith(
                '/proc') else path
            if path not in self.names:
                if not a & os.O_CREAT:
                    self.fd[fd] = None
                    return
                self.meta(('create', path, self.new()))
            ino = self.names[path]
            self.fd[fd] = ino
            if a & os.O_TRUNC:
                self.inodes[ino].pending.append(('t', 0))
        elif op == WRITE:
            if self.fd.get(fd) is not None:
                self.inodes[self.fd[fd]].pending.append(('w', a, p1))
        elif op == TRUNC:
            if self.fd.get(fd) is not None:
                self.inodes[self.fd[fd]].pending.append(('t', a))
        elif op == TRUNCPATH:
            ino = self.names.get(os.path.realpath(os.fsdecode(p1)))
            if ino is not None:
                self.inodes[ino].pending.append(('t', a))
        elif op == FSYNC:
            ino = self.fd.get(fd)
            if ino is not None:
                i = self.inodes[ino]
                for x in i.pending:
                    i.base = apply(i.base, x)
                i.pending = []
            for x in self.pending_meta:
                self.do_meta(self.durable_names, x)
            self.pending_meta = []
        elif op == RENAME:
            self.meta(('rename', os.fsdecode(p1), os.fsdecode(p2)))
        elif op == LINK:
            if os.fsdecode(p1) in self.names:
                self.meta(('create', os.fsdecode(p2),
                           self.names[os.fsdecode(p1)]))
        elif op == UNLINK:
            self.meta(('unlink', os.fsdecode(p1)))

    def content(self, ino):
        d = self.inodes[ino].base
        for x in self.inodes[ino].pending:
            d = apply(d, x)
        return d

    def after_kill(self):
        "files as the next process finds them when this one is killed"
        return {p: self.content(i) for p, i in self.names.items()}

    def after_power_loss(self, R):
        "one of the possible sets of files after a power loss"
        names = dict(self.durable_names)
        k = R.choice([0, len(self.pending_meta),
                      R.randint(0, len(self.pending_meta))])
        for x in self.pending_meta[:k]:
            self.do_meta(names, x)
        out = {}
        how = R.choice(['none', 'prefix', 'subset', 'torn', 'all'])
        for p, ino in sorted(names.items()):
            i = self.inodes[ino]
            d = i.base
            pend = i.pending
            if how == 'none':
                pend = []
            elif how == 'prefix':
                pend = pend[:R.randint(0, len(pend))]
            elif how == 'subset':
                pend = [x for x in pend if R.random() < .7]
            elif how == 'torn':
                pend = pend[:R.randint(0, len(pend))]
                if pend and pend[-1][0] == 'w' and len(pend[-1][2]) > 1:
                    w = pend[-1]
                    n = len(w[2])
                    cut = R.choice([R.randint(0, n), n//512*512])
                    pend = pend[:-1] + [('w', w[1], w[2][:cut])]
            for x in pend:
                d = apply(d, x)
            out[p] = d
        return out, how


def snapshot(directory):
    "contents of the regular files below a directory"
    out = {}
    for base, _, names in os.walk(directory):
        for n in names:
            p = os.path.join(base, n)
            if not os.path.islink(p):
                with open(p, 'rb') as f:
                    out[p] = f.read()
    return out


def restore(directory, files):
    import shutil
    for n in os.listdir(directory):
        p = os.path.join(directory, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)
    for p, d in files.items():
        with open(p, 'wb') as f:
            f.write(d)
