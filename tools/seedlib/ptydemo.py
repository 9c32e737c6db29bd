"""Helpers of the demonstrations: build a small program against the crate in
the current directory, run it on a pseudo-terminal, and show the screen."""
import os, pty, sys, time, select, struct, fcntl, termios, tempfile, subprocess, shutil, signal, atexit, unicodedata

TMP = tempfile.mkdtemp(prefix="liso-demo-")
def _clean():
    shutil.rmtree(TMP, ignore_errors=True)
atexit.register(_clean)
REPO = os.getcwd()

def build(main_rs, features=None, default=True, deps=""):
    d = os.path.join(TMP, "crate")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    feats = ", features = [%s]" % ", ".join('"%s"' % f for f in features) if features else ""
    dflt = "" if default else ", default-features = false"
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n'
                '[workspace]\n[dependencies]\nliso = { path = "%s"%s%s }\n'
                '%s\n[profile.dev]\npanic = "unwind"\n' % (REPO, dflt, feats, deps))
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(main_rs)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = os.path.join(TMP, "target")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace"))
        print("demo: the program did not build")
        sys.exit(3)
    return os.path.join(TMP, "target", "debug", "demo")

def width(ch):
    if unicodedata.combining(ch):
        return 0
    return 2 if unicodedata.east_asian_width(ch) in "WF" else 1

class Screen:
    """A small ANSI terminal: enough for what the crate sends."""
    def __init__(s, w, h):
        s.w, s.h = w, h
        s.rows = [[(" ", "")] * w for _ in range(h)]
        s.scrolled = []
        s.x = s.y = 0
        s.pend = False
        s.attr = ()
        s.visible = True
        s.wrap = True
        s.bells = 0
        s.buf = b""
        s.cleared = 0
    def feed(s, data):
        s.buf += data
        while s.buf:
            b = s.buf[0]
            if b == 27:
                if len(s.buf) < 2: return
                if s.buf[1:2] == b"[":
                    i = 2
                    while i < len(s.buf) and not 0x40 <= s.buf[i] <= 0x7e: i += 1
                    if i >= len(s.buf): return
                    s.csi(s.buf[2:i].decode("latin1"), chr(s.buf[i]))
                    s.buf = s.buf[i+1:]
                else:
                    s.buf = s.buf[2:]
                continue
            if b < 32 or b == 127:
                if b == 10: s.lf()
                elif b == 13: s.x = 0; s.pend = False
                elif b == 8: s.x = max(0, s.x - 1); s.pend = False
                elif b == 7: s.bells += 1
                s.buf = s.buf[1:]
                continue
            n = 1 if b < 0x80 else 2 if b < 0xe0 else 3 if b < 0xf0 else 4
            if len(s.buf) < n: return
            s.put(s.buf[:n].decode("utf-8", "replace"))
            s.buf = s.buf[n:]
    def lf(s):
        s.pend = False
        if s.y + 1 < s.h: s.y += 1
        else:
            s.scrolled.append(s.rows.pop(0))
            s.rows.append([(" ", s.blank())] * s.w)
    def blank(s):
        return tuple(a for a in s.attr if a.startswith("bg"))
    def put(s, ch):
        n = width(ch)
        if n == 0: return
        if s.pend or s.x + n > s.w:
            s.x = 0; s.lf()
        s.rows[s.y][s.x] = (ch, s.attr)
        if n == 2: s.rows[s.y][s.x + 1] = ("", s.attr)
        s.x += n
        if s.x >= s.w: s.x = s.w - 1; s.pend = True
    def csi(s, arg, fin):
        if arg.startswith("?"):
            for p in arg[1:].split(";"):
                if p == "25": s.visible = fin == "h"
                if p == "7": s.wrap = fin == "h"
            return
        ps = [int(p) if p.isdigit() else None for p in arg.split(";")]
        n = ps[0] or 1
        if fin == "A": s.y = max(0, s.y - n); s.pend = False
        elif fin == "B": s.y = min(s.h - 1, s.y + n); s.pend = False
        elif fin == "C": s.x = min(s.w - 1, s.x + n); s.pend = False
        elif fin == "D": s.x = max(0, s.x - n); s.pend = False
        elif fin == "G": s.x = min(s.w, n) - 1; s.pend = False
        elif fin in "Hf":
            s.y = min(s.h, n) - 1; s.x = min(s.w, (ps[1] if len(ps) > 1 else 1) or 1) - 1; s.pend = False
        elif fin == "J":
            if (ps[0] or 0) == 0:
                s.erase(s.y, s.x)
                for y in range(s.y + 1, s.h): s.rows[y] = [(" ", s.blank())] * s.w
            elif ps[0] == 2:
                s.cleared += 1
                s.rows = [[(" ", s.blank())] * s.w for _ in range(s.h)]
        elif fin == "K": s.erase(s.y, s.x)
        elif fin == "m":
            a = list(s.attr)
            i = 0
            while i < len(ps):
                p = ps[i] or 0
                if p == 0: a = []
                elif p in (38, 48):
                    k = "fg" if p == 38 else "bg"
                    v = ps[i + 2]; i += 2
                    a = [x for x in a if not x.startswith(k)] + ["%s%d" % (k, v)]
                elif p == 39: a = [x for x in a if not x.startswith("fg")]
                elif p == 49: a = [x for x in a if not x.startswith("bg")]
                elif p < 10: a.append("s%d" % p)
                elif p == 22: a = [x for x in a if x not in ("s1", "s2")]
                elif p in (23, 24, 27): a = [x for x in a if x != "s%d" % (p - 20)]
                i += 1
            s.attr = tuple(sorted(set(a)))
    def erase(s, y, x):
        for i in range(x, s.w): s.rows[y][i] = (" ", s.blank())
    def text(s, all=False):
        rows = (s.scrolled if all else []) + s.rows
        t = ["".join(c[0] for c in r).rstrip() for r in rows]
        while t and not t[-1]: t.pop()
        return t

class Run:
    """The program on a pseudo-terminal."""
    def __init__(s, exe, w=80, h=24, term="xterm-256color", env=None, args=(), err_tty=False):
        s.screen = Screen(w, h)
        s.raw = b""
        s.status = None
        e = dict(os.environ)
        for k in ("NO_COLOR", "COLORTERM", "LISO_CROSSTERM_INPUT"): e.pop(k, None)
        e["TERM"] = term
        e.update(env or {})
        master, slave = pty.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))
        s.before = termios.tcgetattr(slave)
        s.out = tempfile.TemporaryFile()
        s.err = tempfile.TemporaryFile()
        def pre():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        s.p = subprocess.Popen([exe] + list(args), stdin=slave, stdout=slave, stderr=slave if err_tty else s.err,
                               env=e, preexec_fn=pre, close_fds=True)
        s.fd = master
        s.slave = slave
        atexit.register(s.kill)
    def pump(s, t):
        end = time.time() + t
        while True:
            left = end - time.time()
            if left < 0: return
            r, _, _ = select.select([s.fd], [], [], left)
            if not r: return
            try: d = os.read(s.fd, 65536)
            except OSError: return
            if not d: return
            s.raw += d
            s.screen.feed(d)
    def quiet(s, t=0.4, most=10):
        """Until nothing was written for t seconds."""
        end = time.time() + most
        while time.time() < end:
            n = len(s.raw)
            s.pump_quiet(t)
            if len(s.raw) == n: return
    def pump_quiet(s, t):
        r, _, _ = select.select([s.fd], [], [], t)
        if r: s.pump(0.02)
    def wait_for(s, cond, t=15):
        end = time.time() + t
        while time.time() < end:
            if cond(s.screen): return True
            s.pump(0.02)
            if s.p.poll() is not None:
                s.pump(0.05)
                return cond(s.screen)
        return False
    def keys(s, k):
        if isinstance(k, str): k = k.encode()
        os.write(s.fd, k)
    def exit(s, t=15):
        """The exit status, or None if the program is still running."""
        end = time.time() + t
        while time.time() < end:
            s.pump(0.02)
            if s.p.poll() is not None:
                s.pump(0.05)
                return s.p.returncode
        return None
    def errors(s):
        s.err.seek(0)
        return s.err.read().decode(errors="replace")
    def termios_restored(s):
        return termios.tcgetattr(s.slave) == s.before
    def kill(s):
        if s.p.poll() is None:
            s.p.kill()
            s.p.wait()

def done(ok, why=""):
    print("demo: " + ("ok" if ok else "FAILED " + why))
    _clean()
    sys.exit(0 if ok else 1)
