"""talks to one harness server process"""
import os, select, struct, subprocess, tempfile


class Crash(Exception):
    """the harness died: a sanitizer report, an abort, an uncaught exception..."""
    def __init__(self, msg, rc):
        super().__init__(msg)
        self.rc = rc


class Timeout(Exception):
    pass


ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=1:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
ENV.pop('LD_PRELOAD', None)


class Server:
    def __init__(self, exe, timeout=60):
        self.exe = exe
        self.timeout = timeout
        self.p = None
        self.n = 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV, bufsize=0)

    def _read(self, n):
        buf = b''
        fd = self.p.stdout.fileno()
        while len(buf) < n:
            r, _, _ = select.select([fd], [], [], self.timeout)
            if not r:
                raise Timeout('no answer within %d s' % self.timeout)
            c = os.read(fd, n - len(buf))
            if not c:
                raise EOFError
            buf += c
        return buf

    def call(self, opts, body):
        if self.p is None:
            self.start()
        if isinstance(body, str):
            body = body.encode('latin-1')
        head = ' '.join('%s=%s' % kv for kv in opts.items()).encode()
        msg = head + b'\n' + body
        self.n += 1
        try:
            self._write(struct.pack('<I', len(msg)) + msg)
            n, = struct.unpack('<I', self._read(4))
            return self._read(n).decode('latin-1').split('\0')
        except (EOFError, BrokenPipeError):
            raise self._crash()
        except Timeout:
            self.kill()
            raise

    def _write(self, data):
        mv = memoryview(data)
        fd = self.p.stdin.fileno()
        while mv:
            n = os.write(fd, mv)
            mv = mv[n:]

    def _crash(self):
        rc = self.p.wait()
        self.err.seek(0)
        text = self.err.read().decode('latin-1', 'replace')
        self.p = None
        return Crash(text[-6000:] if len(text) > 6000 else text, rc)

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        """a clean end lets the leak checker speak"""
        if self.p is None:
            return None
        self.p.stdin.close()
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.kill()
            return None
        self.err.seek(0)
        text = self.err.read().decode('latin-1', 'replace')
        self.p = None
        if rc != 0:
            return Crash(text[:6000], rc)
        return None
