"""Simulated desk: the terminal, the disk, the keyboard and the external programs a report export meets.

Everything runs inside one forked process, in a scratch directory of its own.  Files are real files of that directory, but
every open, write, close, remove and rename of the library goes through a seam that can fail; external programs are
interpreted here and never started.  An audit hook refuses whatever would leave the scratch directory.
"""
import builtins
import errno
import io
import os
import shlex
import shutil
import subprocess
import sys


class Outside(BaseException):
    """an effect outside the scratch directory was asked for (and refused)"""


class Terminal(io.TextIOBase):
    """a caller's output stream; remembers what reaches it, may break"""
    encoding = 'utf-8'

    def __init__(self, desk, name):
        self.desk, self.name, self.text = desk, name, ''
        self.chatter = []

    def writable(self):
        return True

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        self.desk.hit('stdout')
        if self.desk.in_library:
            self.chatter.append(s)
        else:
            self.text += s
        return len(s)

    def flush(self):
        pass


class FaultyFile(io.FileIO):
    """raw file whose writes and close can fail; data arrives only as far as it was written"""
    def __init__(self, desk, name, mode):
        self.desk = desk
        super().__init__(name, mode)

    def write(self, b):
        f = self.desk.take('write')
        if f is None:
            return super().write(b)
        k = f['kind']
        n = int(len(b) * f.get('at', 0.5))
        if k == 'short':
            n = max(1, n)
            return super().write(bytes(b)[:n])
        if n:
            super().write(bytes(b)[:n])
        self.desk.throw(k, self.name)

    def close(self):
        if self.closed:
            return
        f = self.desk.take('close') if self.writable() else None
        super().close()
        if f is not None:
            self.desk.throw(f['kind'], self.name)


ERR = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EPIPE': errno.EPIPE,
       'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT, 'ENOENT': errno.ENOENT, 'ENOMEM': errno.ENOMEM}


class Desk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.faults = []            # of the current step
        self.seen = {}
        self.fired = []             # (seam, kind)
        self.hard = 0               # fired faults that are not benign
        self.in_library = False
        self.outside = []
        self.commands = []
        self.locale = 'utf-8'
        self.real = {}
        self.terms = []

    # ---- faults
    def arm(self, faults):
        self.faults = [dict(f) for f in faults or ()]
        self.seen = {}
        self.fired = []
        self.hard = 0
        self.commands = []

    def take(self, seam):
        n = self.seen.get(seam, 0)
        self.seen[seam] = n + 1
        for f in self.faults:
            if f['seam'] == seam and f.get('n', 0) == n:
                self.fired.append((seam, f['kind']))
                if f['kind'] != 'short':
                    self.hard += 1
                return f
        return None

    def throw(self, kind, what=''):
        if kind == 'KI':
            raise KeyboardInterrupt('injected')
        if kind == 'ME':
            raise MemoryError('injected')
        if kind == 'EOF':
            raise EOFError('injected')
        if kind == 'EPIPE':
            raise BrokenPipeError(errno.EPIPE, 'injected')
        e = ERR[kind]
        raise OSError(e, os.strerror(e), str(what))

    def hit(self, seam, what=''):
        f = self.take(seam)
        if f is not None:
            self.throw(f['kind'], what)

    # ---- containment
    def inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return True             # a file descriptor
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        q = os.path.realpath(os.path.join(self.root, p))
        return q == self.root or q.startswith(self.root + os.sep)

    def guard(self, p):
        if not self.inside(p):
            self.outside.append(str(p))
            raise PermissionError(errno.EACCES, 'outside the scratch directory', str(p))

    def audit(self, event, args):
        if event == 'open':
            path, mode, flags = args
            w = isinstance(mode, str) and set(mode) & set('wax+') or \
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if w and isinstance(path, (str, bytes)) and path != os.devnull:
                self.guard(path)
        elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'shutil.rmtree'):
            self.guard(args[0])
        elif event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move'):
            self.guard(args[0])
            self.guard(args[1])
        elif event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.kill', 'os.fork', 'os.forkpty',
                       'pty.spawn'):
            self.outside.append('%s %s' % (event, args[:2]))
            raise PermissionError(errno.EACCES, 'not available in the simulation', event)

    # ---- seams
    def install(self):
        d, real = self, self.real
        real['open'] = io.open

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) or not any(c in mode for c in 'wax+'):
                if not isinstance(file, int) and d.in_library and d.inside(file):
                    d.hit('openr', file)
                return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            d.guard(file)
            d.hit('open', file)
            raw = FaultyFile(d, os.fspath(file), mode.replace('t', '').replace('b', ''))
            if buffering == 0:
                return raw
            buf = (io.BufferedRandom if '+' in mode else io.BufferedWriter)(raw)
            if 'b' in mode:
                return buf
            return io.TextIOWrapper(buf, encoding or d.locale, errors, newline, buffering == 1)

        def path1(name, seam):
            real[name] = getattr(os, name)

            def f(p, *a, **k):
                d.guard(p)
                for q in a:
                    d.guard(q)
                d.hit(seam, p)
                return real[name](p, *a, **k)
            f.__name__ = name
            setattr(os, name, f)
        builtins.open = io.open = sim_open
        for name, seam in (('remove', 'remove'), ('unlink', 'remove'), ('rename', 'rename'), ('replace', 'rename')):
            path1(name, seam)

        def system(cmd):
            return d.shell(cmd) << 8
        os.system = system

        def which(cmd, *a, **k):
            f = d.program_fault(cmd, peek=True)
            return None if f == 'missing' else '/usr/bin/' + cmd
        shutil.which = which
        Popen = make_popen(d)
        subprocess.Popen = Popen

        def call(*a, timeout=None, **k):
            with Popen(*a, **k) as p:
                return p.wait(timeout)

        def run(*a, check=False, capture_output=False, input=None, timeout=None, **k):
            p = Popen(*a, **k)
            if check and p.returncode:
                raise subprocess.CalledProcessError(p.returncode, p.args)
            return subprocess.CompletedProcess(p.args, p.returncode, p.out, p.err)

        def check_call(*a, **k):
            rc = call(*a, **k)
            if rc:
                raise subprocess.CalledProcessError(rc, a[0])
            return 0
        subprocess.call, subprocess.run, subprocess.check_call = call, run, check_call
        subprocess.check_output = lambda *a, **k: run(*a, **dict(k, check=True)).stdout

        def popen(cmd, mode='r', buffering=-1):
            p = Popen(cmd, shell=True)
            return io.StringIO(p.out or '')
        os.popen = popen

        def read(prompt=''):
            sys.stdout.write(str(prompt))
            d.hit('input')
            return ''
        builtins.input = read
        sys.addaudithook(self.audit)

    # ---- programs
    def program_fault(self, prog, peek=False):
        for f in self.faults:
            if f['seam'] == 'prog:' + prog and (f['kind'] == 'missing' or not peek):
                return f['kind']
        return None

    def shell(self, cmd):
        """one shell command line; returns the exit status"""
        try:
            lex = shlex.shlex(cmd, posix=True, punctuation_chars=True)
            lex.whitespace_split = True
            lex.commenters = ''
            words = list(lex)
        except ValueError:
            return 2
        rc = 0
        for sep in ('&', ';', '&&', '||', '|'):
            if sep in words[:-1]:
                i = words.index(sep)
                if sep == '&' or sep == ';':
                    self.argv(words[:i])
                    words = words[i + 1:]
                else:
                    rc = self.argv(words[:i])
                    if (rc == 0) != (sep == '&&'):
                        return rc
                    words = words[i + 1:]
        bg = words[-1:] == ['&']
        if bg:
            words = words[:-1]
        rc = self.argv(words)
        return 0 if bg else rc

    def argv(self, words):
        out = []
        it = iter(words)
        for w in it:
            if w == '>':
                t = next(it, None)
                if t not in (os.devnull, None):
                    self.put(t, '')
            else:
                out.append(w)
        if not out:
            return 0
        rc = self.spawn(out)
        return 127 if rc is None else rc

    def put(self, name, text):
        if self.inside(name):
            with self.real['open'](os.path.join(self.root, name), 'w', encoding='utf-8') as f:
                f.write(text)
        else:
            self.outside.append('write ' + name)

    def get(self, name):
        p = os.path.join(self.root, name)
        if not os.path.isfile(p):
            return None
        with self.real['open'](p, 'rb') as f:
            b = f.read()
        try:
            return b.decode('utf-8')
        except UnicodeError:        # written while the locale was the other one (ascii cannot hold the text)
            return b.decode('latin-1')

    def drop(self, name):
        if not self.inside(name):
            self.outside.append('rm ' + name)
            return False
        p = os.path.join(self.root, name)
        if os.path.isfile(p):
            self.real['remove'](p)
            return True
        return False

    def spawn(self, argv):
        """run a program; None if there is no such program"""
        prog = os.path.basename(argv[0])
        args = [a for a in argv[1:] if not a.startswith('-') and not a.strip().startswith('>')]
        self.commands.append(argv)
        f = self.take('prog:' + prog)
        kind = f['kind'] if f else None
        if kind == 'KI':
            raise KeyboardInterrupt('injected')
        if kind == 'missing' or prog not in ('pdflatex', 'xelatex', 'lualatex', 'evince', 'open', 'rm', 'mv', 'cp', 'pdfcrop',
                                             'Pdf2Png', 'convert', 'true', 'echo'):
            return None
        if prog in ('pdflatex', 'xelatex', 'lualatex'):
            return self.latex(args, kind)
        if prog == 'pdfcrop':
            if not args:
                return 1
            src = self.get(args[0])
            dst = args[1] if len(args) > 1 else (args[0][:-4] if args[0].endswith('.pdf') else args[0]) + '-crop.pdf'
            if src is None or not src.startswith('%PDF'):
                return 1
            if kind == 'fail':
                return 1
            if kind == 'partial':
                self.put(dst, '%PDF torn')
                return 2
            if kind == 'killed':
                self.put(dst, '%PDF torn')
                return 137
            self.put(dst, src.replace('%PDF', '%PDF cropped', 1))
            return 0
        if prog == 'rm':
            if kind:
                return 1
            ok = True
            for a in args:
                ok = self.drop(a) and ok
            return 0 if ok or '-f' in argv else 1
        if prog in ('mv', 'cp'):
            if kind or len(args) != 2 or self.get(args[0]) is None:
                return 1
            self.put(args[1], self.get(args[0]))
            if prog == 'mv':
                self.drop(args[0])
            return 0
        if prog in ('Pdf2Png', 'convert'):
            if kind or not args:
                return 1
            self.put(args[0] + '.png', 'PNG')
            return 0
        return 1 if kind else 0

    def latex(self, args, kind):
        if not args:
            return 1
        a = args[0]
        root = a[:-4] if a.endswith('.tex') else a
        name = os.path.basename(root)
        src = self.get(root + '.tex')
        if src is None:
            src = self.get(a)
        self.put(name + '.log', 'log')
        if src is None:
            self.drop(name + '.log')
            self.put('texput.log', 'log')
            return 1
        self.put(name + '.aux', 'aux')
        if kind == 'fail' or '\\end{document}' not in src:
            return 1
        if kind == 'partial':
            self.put(name + '.pdf', '%PDF torn')
            return 1
        if kind == 'killed':
            self.put(name + '.pdf', '%PDF torn')
            return 137
        self.put(name + '.pdf', '%PDF\n' + src)
        return 0


def make_popen(d):
    class Popen:
        def __init__(self, args, *a, shell=False, stdout=None, stderr=None, **k):
            self.args = args
            self.out = '' if stdout == subprocess.PIPE else None
            self.err = '' if stderr == subprocess.PIPE else None
            self.stdout = self.stderr = self.stdin = None
            self.pid = 4242
            if shell or isinstance(args, str) and ' ' in args:
                self.returncode = d.shell(args if isinstance(args, str) else ' '.join(args))
                return
            argv = [args] if isinstance(args, str) else [os.fspath(x) for x in args]
            rc = d.spawn(argv)
            if rc is None:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', argv[0])
            self.returncode = -9 if rc == 137 else rc

        def wait(self, timeout=None):
            return self.returncode
        poll = wait

        def communicate(self, input=None, timeout=None):
            return self.out, self.err

        def kill(self):
            pass
        terminate = kill

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return Popen
