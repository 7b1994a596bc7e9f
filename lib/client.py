"""Talks to a harness process; restarts it when it dies and reports the death as an event."""
import json, os, subprocess, threading

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
    'TSAN_OPTIONS': 'exitcode=97:halt_on_error=1:second_deadlock_stack=1',
    'LANG': 'C.UTF-8',
}


class Died(Exception):
    def __init__(self, cmd, body, rc, err):
        super().__init__(f'harness died (rc={rc}) on {cmd}')
        self.cmd, self.body, self.rc, self.err = cmd, body, rc, err

    def brief(self):
        for l in self.err.splitlines():
            if 'Condition ' in l or 'ERROR: ' in l or 'runtime error' in l or 'terminate called' in l or ': ' in l:
                if 'Condition ' in l or 'runtime error' in l or 'SUMMARY' in l or 'ERROR' in l or 'terminate' in l:
                    return l[:300]
        lines = [l for l in self.err.splitlines() if l.strip()]
        return (lines[0] if lines else f'exit code {self.rc}')[:300]


class Client:
    def __init__(self, binary, args=(), env=None, timeout=60, cwd=None):
        self.binary, self.args, self.timeout, self.cwd = str(binary), list(args), timeout, cwd
        self.env = dict(os.environ, **SAN_ENV, **(env or {}))
        self.p = None
        self.log = []          # commands since start, for replay
        self.events = 0

    def start(self):
        self.errf = open(f'/tmp/.hv-{os.getpid()}-{id(self)}.err', 'w+b')
        self.p = subprocess.Popen([self.binary, *self.args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=self.env, cwd=self.cwd)
        self.log = []

    def __call__(self, cmd, body=''):
        if self.p is None:
            self.start()
        b = body.encode('latin-1') if isinstance(body, str) else body
        self.log.append((cmd, body))
        timer = threading.Timer(self.timeout, self.p.kill)
        timer.start()
        try:
            try:
                self.p.stdin.write(b'%s %d\n%s\n' % (cmd.encode(), len(b), b))
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except BrokenPipeError:
                line = b''
        finally:
            alive = timer.is_alive()
            timer.cancel()
        if not line.endswith(b'\n'):
            rc = self.p.wait()
            self.errf.seek(0)
            err = self.errf.read().decode('latin-1')
            if not alive:
                err = f'harness: no answer within {self.timeout} s (hang)\n' + err
            self.close()
            raise Died(cmd, body, rc, err)
        self.events += 1
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.wait(5)
            except Exception:
                self.p.kill(); self.p.wait()
            self.p.stdout.close()
            name = self.errf.name
            self.errf.close()
            os.unlink(name)
            self.p = None
