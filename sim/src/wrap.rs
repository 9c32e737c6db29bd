//! The C ABI seam: every libc entry point through which the program reaches
//! the kernel. Threads of the simulation get the simulated kernel, the
//! harness's own (unregistered) threads the real one.
use crate::fs::{Fs, FsFault};
use crate::kernel::*;
use libc::{c_char, c_int, c_void, ssize_t};
use std::ffi::CStr;

macro_rules! reals {
    ($($w:ident => fn $r:ident($($a:ident: $t:ty),*) -> $ret:ty;)*) => {
        extern "C" { $(pub fn $r($($a: $t),*) -> $ret;)* }
    };
}
reals! {
    w => fn __real_linkat(x: c_int, a: *const c_char, y: c_int, b: *const c_char, f: c_int) -> c_int;
    w => fn __real_renameat(x: c_int, a: *const c_char, y: c_int, b: *const c_char) -> c_int;
    w => fn __real_unlinkat(x: c_int, a: *const c_char, f: c_int) -> c_int;
    w => fn __real_openat64(x: c_int, p: *const c_char, f: c_int, mode: u32) -> c_int;
    w => fn __real_access(p: *const c_char, mode: c_int) -> c_int;
    w => fn __real_readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t;
    w => fn __real_copy_file_range(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: usize, f: u32) -> ssize_t;
    w => fn __real_sendfile64(a: c_int, b: c_int, o: *mut i64, n: usize) -> ssize_t;
    w => fn __real_splice(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: usize, f: u32) -> ssize_t;
    w => fn __real_symlink(a: *const c_char, b: *const c_char) -> c_int;
    w => fn __real_fchmod(fd: c_int, m: u32) -> c_int;
    w => fn __real_chmod(p: *const c_char, m: u32) -> c_int;
    w => fn __real_fchown(fd: c_int, u: u32, g: u32) -> c_int;
    w => fn __real_chown(p: *const c_char, u: u32, g: u32) -> c_int;
    w => fn __real_flock(fd: c_int, o: c_int) -> c_int;
    w => fn __real_futimens(fd: c_int, t: *const libc::timespec) -> c_int;
    w => fn __real_fallocate64(fd: c_int, m: c_int, o: i64, n: i64) -> c_int;
    w => fn __real_posix_fadvise64(fd: c_int, o: i64, n: i64, a: c_int) -> c_int;
    w => fn __real_gettid() -> c_int;
    w => fn __real_getpid() -> c_int;
    w => fn __real_read(fd: c_int, b: *mut c_void, n: usize) -> ssize_t;
    w => fn __real_write(fd: c_int, b: *const c_void, n: usize) -> ssize_t;
    w => fn __real_writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t;
    w => fn __real_poll(f: *mut libc::pollfd, n: u64, t: c_int) -> c_int;
    w => fn __real_ioctl(fd: c_int, r: u64, a: usize) -> c_int;
    w => fn __real_tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int;
    w => fn __real_tcsetattr(fd: c_int, a: c_int, t: *const libc::termios) -> c_int;
    w => fn __real_isatty(fd: c_int) -> c_int;
    w => fn __real_open64(p: *const c_char, f: c_int, m: u32) -> c_int;
    w => fn __real_close(fd: c_int) -> c_int;
    w => fn __real_dup(fd: c_int) -> c_int;
    w => fn __real_dup2(a: c_int, b: c_int) -> c_int;
    w => fn __real_pipe(p: *mut c_int) -> c_int;
    w => fn __real_pipe2(p: *mut c_int, f: c_int) -> c_int;
    w => fn __real_fcntl(fd: c_int, c: c_int, a: usize) -> c_int;
    w => fn __real_fstat64(fd: c_int, s: *mut libc::stat64) -> c_int;
    w => fn __real_stat64(p: *const c_char, s: *mut libc::stat64) -> c_int;
    w => fn __real_lstat64(p: *const c_char, s: *mut libc::stat64) -> c_int;
    w => fn __real_statx(d: c_int, p: *const c_char, f: c_int, m: u32, s: *mut c_void) -> c_int;
    w => fn __real_lseek64(fd: c_int, o: i64, w: c_int) -> i64;
    w => fn __real_fsync(fd: c_int) -> c_int;
    w => fn __real_ftruncate64(fd: c_int, n: i64) -> c_int;
    w => fn __real_rename(a: *const c_char, b: *const c_char) -> c_int;
    w => fn __real_unlink(a: *const c_char) -> c_int;
    w => fn __real_pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int;
    w => fn __real_pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int;
    w => fn __real_pthread_kill(t: libc::pthread_t, s: c_int) -> c_int;
    w => fn __real_pthread_setname_np(t: libc::pthread_t, n: *const c_char) -> c_int;
    w => fn __real_sigaction(s: c_int, n: *const libc::sigaction, o: *mut libc::sigaction) -> c_int;
    w => fn __real_signal(s: c_int, h: usize) -> usize;
    w => fn __real_raise(s: c_int) -> c_int;
    w => fn __real_kill(p: c_int, s: c_int) -> c_int;
    w => fn __real_clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int;
    w => fn __real_nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int;
    w => fn __real_clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int;
    w => fn __real_usleep(u: u32) -> c_int;
    w => fn __real_sched_yield() -> c_int;
    w => fn __real_getrandom(b: *mut c_void, n: usize, f: u32) -> ssize_t;
    w => fn __real_fork() -> c_int;
    w => fn __real_posix_spawnp(p: *mut c_int, f: *const c_char, a: *const c_void, b: *const c_void, c: *const c_void, d: *const c_void) -> c_int;
    w => fn __real_execvp(f: *const c_char, a: *const c_void) -> c_int;
    w => fn __real_pause() -> c_int;
    w => fn __real_mkdir(p: *const c_char, m: u32) -> c_int;
    w => fn __real_link(a: *const c_char, b: *const c_char) -> c_int;
    w => fn __real_epoll_create1(f: c_int) -> c_int;
    w => fn __real_epoll_wait(a: c_int, b: *mut c_void, c: c_int, d: c_int) -> c_int;
    w => fn __real_pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> ssize_t;
    w => fn __real_pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> ssize_t;
    w => fn __real_readlink(p: *const c_char, b: *mut c_char, n: usize) -> ssize_t;
    w => fn __real_realpath(p: *const c_char, b: *mut c_char) -> *mut c_char;
}

fn errno(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn e32(e: i32) -> c_int {
    errno(e) as c_int
}
/// the id of the calling simulated thread, or None for the harness
#[inline]
fn sim() -> Option<usize> {
    let m = me();
    if m < 0 {
        None
    } else {
        Some(m as usize)
    }
}
fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(120).collect();
    if s.chars().count() > 120 {
        t.push('…');
    }
    format!("{:?}", t)
}

// ------------------------------------------------------------------- reading
#[no_mangle]
pub unsafe extern "C" fn __wrap_read(fd: c_int, b: *mut c_void, n: usize) -> ssize_t {
    let Some(m) = sim() else { return __real_read(fd, b, n) };
    point(m, "read");
    let buf = std::slice::from_raw_parts_mut(b as *mut u8, n);
    'again: loop {
        let Some(o) = k().lookup(fd) else { return errno(libc::EBADF) };
        // keep the description alive while blocked in it, as the kernel does
        k().ofds[o].refs += 1;
        let r: Result<usize, i32> = loop {
            let kk = k();
            let got: Option<Result<usize, i32>> = match kk.ofds[o].obj {
                Obj::Tty => {
                    if kk.tty.read_err {
                        Some(Err(libc::EIO))
                    } else if !kk.tty.inq.is_empty() {
                        let mut avail = kk.tty.inq.len().min(n);
                        if !kk.tty.raw() {
                            if let Some(p) = kk.tty.inq.iter().position(|c| *c == b'\n') {
                                avail = avail.min(p + 1);
                            }
                        }
                        let mut c = short(avail, F::ShortRead, kk.kn.p_short_read);
                        // a key doesn't come apart in the middle of the prefix
                        // that is told from a lone Escape by time alone
                        while c < avail && kk.tty.inq[c - 1] == 0x1b {
                            c += 1;
                        }
                        for x in buf[..c].iter_mut() {
                            *x = kk.tty.inq.pop_front().unwrap();
                        }
                        kk.tty.consumed += c as u64;
                        kk.tty.readers_log.push((m as i32, c));
                        Some(Ok(c))
                    } else if kk.tty.eof {
                        kk.tty.eof = false;
                        Some(Ok(0))
                    } else if kk.tty.hung {
                        if kk.tty.hang_read_errno == 0 {
                            Some(Ok(0))
                        } else {
                            Some(Err(kk.tty.hang_read_errno))
                        }
                    } else {
                        None
                    }
                }
                Obj::PipeR(p) => {
                    if !kk.pipes[p].buf.is_empty() {
                        let avail = kk.pipes[p].buf.len().min(n);
                        let c = short(avail, F::ShortRead, kk.kn.p_short_read);
                        for x in buf[..c].iter_mut() {
                            *x = kk.pipes[p].buf.pop_front().unwrap();
                        }
                        kk.wake_all(Wait::PipeW(p));
                        Some(Ok(c))
                    } else if kk.pipes[p].err != 0 {
                        Some(Err(kk.pipes[p].err))
                    } else if kk.pipes[p].writers == 0 && !kk.pipes[p].ext_writer {
                        Some(Ok(0))
                    } else {
                        None
                    }
                }
                Obj::File(i) => {
                    let r = fs_op(m, &format!("read {}", kk.ofds[o].path), |_| ());
                    match r {
                        Err(e) => Some(Err(e)),
                        Ok(()) => {
                            let kk = k();
                            let pos = kk.ofds[o].pos.min(kk.fs.inodes[i].data.len());
                            let avail = (kk.fs.inodes[i].data.len() - pos).min(n);
                            let c = if avail == 0 { 0 } else { short(avail, F::ShortRead, kk.kn.p_short_read) };
                            buf[..c].copy_from_slice(&kk.fs.inodes[i].data[pos..pos + c]);
                            kk.ofds[o].pos = pos + c;
                            Some(Ok(c))
                        }
                    }
                }
                Obj::Null => Some(Ok(0)),
                Obj::PipeW(_) | Obj::Sink(_) => Some(Err(libc::EBADF)),
            };
            if let Some(r) = got {
                break r;
            }
            let w = match kk.ofds[o].obj {
                Obj::Tty => Wait::TtyR,
                Obj::PipeR(p) => Wait::PipeR(p),
                _ => unreachable!(),
            };
            // a read may be interrupted by a signal that concerns nobody else
            let p = kk.kn.p_eintr;
            if p > 0.0 && kk.tape.draw(|r| r.chance(p) as u32) & 1 == 1 {
                kk.bump(F::Eintr);
                break Err(libc::EINTR);
            }
            if block(m, w, None) == Wake::Signal {
                break Err(-1);
            }
        };
        k().drop_ref(o);
        match r {
            Ok(c) => {
                let kk = k();
                kk.mix(0x4ead ^ ((c as u64) << 8));
                if kk.trace {
                    kk.tlog(format!("read(fd {}) = {} {}", fd, c, show(&buf[..c])));
                }
                return c as ssize_t;
            }
            Err(-1) => {
                if k().last_sig_restart {
                    continue 'again;
                }
                if k().trace {
                    k().tlog(format!("read(fd {}) interrupted", fd));
                }
                return errno(libc::EINTR);
            }
            Err(e) => {
                if k().trace {
                    k().tlog(format!("read(fd {}) fails with errno {}", fd, e));
                }
                return errno(e);
            }
        }
    }
}
fn short(avail: usize, f: F, p: f64) -> usize {
    let kk = k();
    if avail > 1 && p > 0.0 {
        let v = kk.tape.draw(|r| if r.chance(p) { 1 + r.below(avail as u32 - 1) } else { 0 }) as usize;
        if v > 0 && v < avail {
            kk.bump(f);
            return v;
        }
    }
    avail
}

// ------------------------------------------------------------------- writing
fn do_write(m: usize, fd: c_int, b: &[u8]) -> ssize_t {
    if fd == 2 {
        let kk = k();
        let s = String::from_utf8_lossy(b).to_string();
        if kk.errout.len() < 4000 && !crate::exec::EXPECT.with(|e| e.get()) {
            kk.errout.push((m as i32, s));
        }
    }
    let mut first = true;
    loop {
        let kk = k();
        let Some(o) = kk.lookup(fd) else { return errno(libc::EBADF) };
        // a write may be interrupted by a signal that concerns nobody else
        let p = kk.kn.p_eintr_w;
        if p > 0.0 && first && matches!(kk.ofds[o].obj, Obj::Tty | Obj::Sink(_)) && !crate::exec::APP_ERR.with(|e| e.get()) && kk.tape.draw(|r| r.chance(p) as u32) & 1 == 1 {
            kk.bump(F::Eintr);
            if kk.trace {
                kk.tlog(format!("write(fd {}, {}) interrupted", fd, show(b)));
            }
            return errno(libc::EINTR);
        }
        let r: Option<Result<usize, i32>> = match kk.ofds[o].obj {
            Obj::Tty => {
                if first {
                    first = false;
                    kk.tty.wcount += 1;
                    if let Some((n, e, c)) = kk.tty.err_at {
                        if kk.tty.wcount == n {
                            kk.tty.write_err = e;
                            kk.tty.write_err_left = c;
                        }
                    }
                    if let Some((n, d)) = kk.tty.stall_at {
                        if kk.tty.wcount == n {
                            kk.apply(Event::TtyStall(d));
                        }
                    }
                }
                if kk.tty.write_err_left > 0 {
                    if kk.tty.write_err_left != u64::MAX {
                        kk.tty.write_err_left -= 1;
                    }
                    kk.bump(F::WriteErr);
                    // (std takes EBADF on stdout for success)
                    if kk.tty.write_err != libc::EBADF && !crate::exec::IN_CLOSURE.with(|e| e.get()) {
                        kk.tty.failed_at.get_or_insert(kk.now);
                    }
                    Some(Err(kk.tty.write_err))
                } else if kk.tty.hung {
                    Some(Err(libc::EIO))
                } else if kk.tty.stalled {
                    None
                } else {
                    let c = short(b.len(), F::ShortWrite, kk.kn.p_short_write);
                    if kk.tty.wlog.len() < 1 << 20 {
                        kk.tty.wlog.extend(&b[..c]);
                    }
                    kk.tty_output(&b[..c]);
                    Some(Ok(c))
                }
            }
            Obj::Sink(s) => {
                if first {
                    first = false;
                    kk.sinks[s].wcount += 1;
                    if let Some((n, e)) = kk.sinks[s].err_at {
                        if kk.sinks[s].wcount >= n {
                            kk.sinks[s].err = e;
                        }
                    }
                    if kk.sinks[s].err != 0 {
                        kk.bump(F::WriteErr);
                    }
                }
                let sk = &mut kk.sinks[s];
                if sk.err != 0 {
                    Some(Err(sk.err))
                } else if sk.closed {
                    Some(Err(libc::EPIPE))
                } else if sk.stalled {
                    None
                } else {
                    let c = short(b.len(), F::ShortWrite, kk.kn.p_short_write);
                    kk.sinks[s].data.extend(&b[..c]);
                    if fd == 2 && b.starts_with(b"\nthread") {
                        crate::crash::on_message(&String::from_utf8_lossy(b));
                    }
                    Some(Ok(c))
                }
            }
            Obj::PipeW(p) => {
                if kk.pipes[p].readers == 0 {
                    Some(Err(libc::EPIPE))
                } else if kk.pipes[p].buf.len() >= 65536 {
                    None
                } else {
                    let c = b.len().min(65536 - kk.pipes[p].buf.len());
                    kk.pipes[p].buf.extend(&b[..c]);
                    kk.wake_all(Wait::PipeR(p));
                    Some(Ok(c))
                }
            }
            Obj::File(i) => {
                let path = kk.ofds[o].path.clone();
                let n = b.len();
                let r = fs_op(m, &format!("write {} ({} bytes)", path, n), |f| match f {
                    Some(FsFault::Short) => {
                        let c = (n / 2).max(1).min(n);
                        let kk = k();
                        let pos = kk.file_pos(o, i);
                        kk.fs.write(i, pos, &b[..c]);
                        kk.ofds[o].pos = pos + c;
                        c
                    }
                    Some(FsFault::Full) => {
                        let c = n / 2;
                        let kk = k();
                        kk.fs.full = true;
                        let pos = kk.file_pos(o, i);
                        kk.fs.write(i, pos, &b[..c]);
                        kk.ofds[o].pos = pos + c;
                        c
                    }
                    Some(FsFault::Torn(t)) => {
                        let c = n * (*t as usize) / 8;
                        let kk = k();
                        let pos = kk.file_pos(o, i);
                        kk.fs.write(i, pos, &b[..c]);
                        c
                    }
                    _ => {
                        let kk = k();
                        let pos = kk.file_pos(o, i);
                        kk.fs.write(i, pos, b);
                        kk.ofds[o].pos = pos + n;
                        n
                    }
                });
                match r {
                    Ok(0) if n > 0 => Some(Err(libc::ENOSPC)),
                    r => Some(r),
                }
            }
            Obj::Null => Some(Ok(b.len())),
            Obj::PipeR(_) => Some(Err(libc::EBADF)),
        };
        match r {
            Some(Ok(c)) => {
                let kk = k();
                if fd == 2 && crate::exec::APP_ERR.with(|e| e.get()) {
                    let piped = matches!(kk.lookup(fd).map(|o| kk.ofds[o].obj), Some(Obj::PipeW(_)));
                    kk.order += 1;
                    let at = kk.order;
                    kk.err_log.push((at, piped, b[..c].to_vec()));
                }
                kk.mix(0x3417e ^ ((c as u64) << 8));
                for x in b.iter().take(c) {
                    kk.mix(*x as u64);
                }
                if kk.trace {
                    kk.tlog(format!("write(fd {}, {}) = {}", fd, show(&b[..c]), c));
                }
                return c as ssize_t;
            }
            Some(Err(e)) => {
                if k().trace {
                    k().tlog(format!("write(fd {}, {}) fails with errno {}", fd, show(b), e));
                }
                return errno(e);
            }
            None => {
                let w = match kk.ofds[o].obj {
                    Obj::Tty => Wait::TtyW,
                    Obj::Sink(s) => Wait::PipeW(s + 1000),
                    Obj::PipeW(p) => Wait::PipeW(p),
                    _ => unreachable!(),
                };
                if block(m, w, None) == Wake::Signal && !k().last_sig_restart {
                    return errno(libc::EINTR);
                }
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_write(fd: c_int, b: *const c_void, n: usize) -> ssize_t {
    let Some(m) = sim() else { return __real_write(fd, b, n) };
    point(m, "write");
    do_write(m, fd, std::slice::from_raw_parts(b as *const u8, n))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let Some(m) = sim() else { return __real_writev(fd, v, n) };
    point(m, "writev");
    let mut b = vec![];
    for i in 0..n as usize {
        let io = &*v.add(i);
        b.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
    }
    do_write(m, fd, &b)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> ssize_t {
    let Some(m) = sim() else { return __real_pwrite64(fd, b, n, o) };
    point(m, "pwrite");
    let Some(d) = k().lookup(fd) else { return errno(libc::EBADF) };
    let old = std::mem::replace(&mut k().ofds[d].pos, o as usize);
    let r = do_write(m, fd, std::slice::from_raw_parts(b as *const u8, n));
    k().ofds[d].pos = old;
    r
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> ssize_t {
    let Some(_) = sim() else { return __real_pread64(fd, b, n, o) };
    let Some(d) = k().lookup(fd) else { return errno(libc::EBADF) };
    let old = std::mem::replace(&mut k().ofds[d].pos, o as usize);
    let r = __wrap_read(fd, b, n);
    k().ofds[d].pos = old;
    r
}
impl Kernel {
    fn file_pos(&self, o: usize, i: usize) -> usize {
        if self.ofds[o].append {
            self.fs.inodes[i].data.len()
        } else {
            self.ofds[o].pos
        }
    }
    pub fn tty_output(&mut self, b: &[u8]) {
        let t = &mut self.tty;
        if t.raw() {
            t.raw_writes += 1;
        }
        if t.termios.c_oflag & libc::OPOST != 0 && t.termios.c_oflag & libc::ONLCR != 0 {
            let mut v = Vec::with_capacity(b.len() + 8);
            for &c in b {
                if c == b'\n' {
                    v.push(b'\r');
                }
                v.push(c);
            }
            t.vt.feed(&v);
        } else {
            t.vt.feed(b);
        }
    }
}

/// One file system operation: scheduling point, fault decision, effect.
fn fs_op<T>(m: usize, what: &str, f: impl FnOnce(Option<&FsFault>) -> T) -> Result<T, i32> {
    let kk = k();
    let n = kk.fs.ops;
    kk.fs.ops += 1;
    kk.fs.oplog.push(what.to_string());
    let fault = kk.fs.faults.get(&n).cloned();
    if let Some(ft) = &fault {
        kk.fs.fired += 1;
        if kk.trace {
            kk.tlog(format!("file operation {}: {} <- {:?}", n, what, ft));
        }
    } else if kk.trace {
        kk.tlog(format!("file operation {}: {}", n, what));
    }
    let is_write = what.starts_with("write");
    match fault {
        Some(FsFault::Err(e)) => {
            kk.bump(F::FsErr);
            return Err(e);
        }
        Some(FsFault::CrashBefore) => crash(m),
        Some(FsFault::CrashAfter) => {
            f(None);
            crash(m)
        }
        Some(FsFault::Torn(_)) => {
            if is_write {
                kk.bump(F::FsTorn);
                f(fault.as_ref());
            }
            crash(m)
        }
        Some(FsFault::Short) if is_write => {
            kk.bump(F::FsShort);
            Ok(f(fault.as_ref()))
        }
        Some(FsFault::Full) if is_write => {
            kk.bump(F::FsErr);
            Ok(f(fault.as_ref()))
        }
        _ => {
            if kk.fs.full && is_write {
                kk.bump(F::FsErr);
                return Err(libc::ENOSPC);
            }
            Ok(f(None))
        }
    }
}
/// The process dies here: none of its threads ever runs again. (Thread 0 is
/// the harness, the user who starts the program again.)
fn crash(m: usize) -> ! {
    let kk = k();
    kill_others();
    if m == 0 {
        kk.abort("harness", "crash in the harness thread");
    }
    loop {
        block(m, Wait::Never, None);
    }
}
/// all threads but the harness' own (thread 0) are gone
pub fn kill_others() {
    let kk = k();
    kk.bump(F::FsCrash);
    kk.fs.crashed = true;
    if kk.trace {
        kk.tlog("** the process dies here".into());
    }
    for i in 1..kk.th.len() {
        if kk.th[i].st != St::Exited {
            kk.th[i].st = St::Blocked(Wait::Never);
            kk.th[i].deadline = None;
            kk.th[i].actor = false;
        }
    }
}

unsafe fn path_str(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_open64(p: *const c_char, f: c_int, mode: u32) -> c_int {
    let Some(m) = sim() else { return __real_open64(p, f, mode) };
    point(m, "open");
    let path = path_str(p);
    let kk = k();
    let o = match path.as_str() {
        "/dev/tty" => kk.new_ofd(Obj::Tty, &path),
        "/dev/null" => kk.new_ofd(Obj::Null, &path),
        _ => {
            let r = fs_op(m, &format!("open {} {}", path, if f & libc::O_ACCMODE == libc::O_RDONLY { "for reading" } else { "for writing" }), |_| k().fs.open(&path, f));
            match r {
                Err(e) | Ok(Err(e)) => return e32(e),
                Ok(Ok(i)) => {
                    let o = k().new_ofd(Obj::File(i), &path);
                    k().ofds[o].append = f & libc::O_APPEND != 0;
                    o
                }
            }
        }
    };
    k().alloc_fd(o, 0)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_open(p: *const c_char, f: c_int, mode: u32) -> c_int {
    __wrap_open64(p, f, mode)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_close(fd: c_int) -> c_int {
    let Some(m) = sim() else { return __real_close(fd) };
    point(m, "close");
    if k().trace {
        k().tlog(format!("close(fd {})", fd));
    }
    if k().close_fd(fd) {
        0
    } else {
        k().bad_closes += 1;
        e32(libc::EBADF)
    }
}
/// out of file descriptors?
fn fdop_err() -> Option<i32> {
    let kk = k();
    kk.fdop_count += 1;
    match kk.fdop_err_at {
        Some((n, e)) if n == kk.fdop_count => {
            kk.bump(F::FdErr);
            if kk.trace {
                kk.tlog(format!("pipe/dup/dup2 fails with errno {}", e));
            }
            Some(e)
        }
        _ => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_dup(fd: c_int) -> c_int {
    let Some(m) = sim() else { return __real_dup(fd) };
    point(m, "dup");
    if let Some(e) = fdop_err() {
        return e32(e);
    }
    let Some(o) = k().lookup(fd) else { return e32(libc::EBADF) };
    k().alloc_fd(o, 0)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_dup2(a: c_int, b: c_int) -> c_int {
    let Some(m) = sim() else { return __real_dup2(a, b) };
    point(m, "dup2");
    if let Some(e) = fdop_err() {
        return e32(e);
    }
    let kk = k();
    let Some(o) = kk.lookup(a) else { return e32(libc::EBADF) };
    if kk.trace {
        kk.tlog(format!("dup2({}, {})", a, b));
    }
    if a == b {
        return b;
    }
    kk.ofds[o].refs += 1;
    kk.close_fd(b);
    while kk.fds.len() <= b as usize {
        kk.fds.push(None);
    }
    kk.fds[b as usize] = Some(o);
    b
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pipe(p: *mut c_int) -> c_int {
    let Some(m) = sim() else { return __real_pipe(p) };
    point(m, "pipe");
    if let Some(e) = fdop_err() {
        return e32(e);
    }
    let kk = k();
    kk.pipes.push(Pipe::default());
    let i = kk.pipes.len() - 1;
    let r = kk.new_ofd(Obj::PipeR(i), "pipe");
    let w = kk.new_ofd(Obj::PipeW(i), "pipe");
    *p = kk.alloc_fd(r, 0);
    *p.add(1) = kk.alloc_fd(w, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pipe2(p: *mut c_int, f: c_int) -> c_int {
    if sim().is_none() {
        return __real_pipe2(p, f);
    }
    __wrap_pipe(p)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fcntl(fd: c_int, c: c_int, a: usize) -> c_int {
    let Some(m) = sim() else { return __real_fcntl(fd, c, a) };
    point(m, "fcntl");
    let Some(o) = k().lookup(fd) else { return e32(libc::EBADF) };
    match c {
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_SETFD | libc::F_SETFL => 0,
        libc::F_GETFL => libc::O_RDWR,
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => k().alloc_fd(o, a),
        _ => e32(libc::EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fcntl64(fd: c_int, c: c_int, a: usize) -> c_int {
    __wrap_fcntl(fd, c, a)
}
unsafe fn fill_stat(obj: Obj, s: *mut libc::stat64) {
    std::ptr::write_bytes(s, 0, 1);
    let (mode, size) = match obj {
        Obj::Tty | Obj::Null => (libc::S_IFCHR | 0o620, 0),
        Obj::File(i) => (libc::S_IFREG | 0o644, k().fs.inodes[i].data.len()),
        _ => (libc::S_IFIFO | 0o600, 0),
    };
    (*s).st_mode = if matches!(obj, Obj::File(0)) { libc::S_IFDIR | 0o755 } else { mode };
    (*s).st_nlink = 1;
    (*s).st_dev = 1;
    (*s).st_ino = if let Obj::File(i) = obj { i as u64 + 1 } else { 0 };
    (*s).st_size = size as i64;
    (*s).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fstat64(fd: c_int, s: *mut libc::stat64) -> c_int {
    let Some(_) = sim() else { return __real_fstat64(fd, s) };
    let Some(o) = k().lookup(fd) else { return e32(libc::EBADF) };
    fill_stat(k().ofds[o].obj, s);
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fstat(fd: c_int, s: *mut libc::stat64) -> c_int {
    __wrap_fstat64(fd, s)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_stat64(p: *const c_char, s: *mut libc::stat64) -> c_int {
    let Some(m) = sim() else { return __real_stat64(p, s) };
    let path = path_str(p);
    if Fs::is_dir(&path) {
        fill_stat(Obj::File(0), s);
        return 0;
    }
    if !k().fs.owns(&path) {
        return e32(libc::ENOENT);
    }
    point(m, "stat");
    match fs_op(m, &format!("stat {}", path), |_| k().fs.names.get(&path).copied()) {
        Err(e) => e32(e),
        Ok(None) => e32(libc::ENOENT),
        Ok(Some(i)) => {
            fill_stat(Obj::File(i), s);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_stat(p: *const c_char, s: *mut libc::stat64) -> c_int {
    __wrap_stat64(p, s)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_lstat64(p: *const c_char, s: *mut libc::stat64) -> c_int {
    __wrap_stat64(p, s)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_statx(d: c_int, p: *const c_char, f: c_int, mk: u32, s: *mut c_void) -> c_int {
    let Some(_) = sim() else { return __real_statx(d, p, f, mk, s) };
    if p.is_null() || s.is_null() {
        return e32(libc::EFAULT);
    }
    let mut a: libc::stat64 = std::mem::zeroed();
    let r = if *p == 0 { __wrap_fstat64(d, &mut a) } else { __wrap_stat64(p, &mut a) };
    if r == 0 {
        let s = s as *mut libc::statx;
        std::ptr::write_bytes(s, 0, 1);
        (*s).stx_mask = libc::STATX_BASIC_STATS;
        (*s).stx_mode = a.st_mode as u16;
        (*s).stx_size = a.st_size as u64;
        (*s).stx_blksize = 4096;
        (*s).stx_nlink = 1;
        (*s).stx_ino = a.st_ino;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_lseek64(fd: c_int, off: i64, w: c_int) -> i64 {
    let Some(_) = sim() else { return __real_lseek64(fd, off, w) };
    let kk = k();
    let Some(o) = kk.lookup(fd) else { return errno(libc::EBADF) as i64 };
    let Obj::File(i) = kk.ofds[o].obj else { return errno(libc::ESPIPE) as i64 };
    let base = match w {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => kk.ofds[o].pos as i64,
        _ => kk.fs.inodes[i].data.len() as i64,
    };
    kk.ofds[o].pos = (base + off).max(0) as usize;
    kk.ofds[o].pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fsync(fd: c_int) -> c_int {
    let Some(m) = sim() else { return __real_fsync(fd) };
    point(m, "fsync");
    let Some(o) = k().lookup(fd) else { return e32(libc::EBADF) };
    let Obj::File(i) = k().ofds[o].obj else { return e32(libc::EINVAL) };
    match fs_op(m, &format!("fsync {}", k().ofds[o].path), |_| k().fs.fsync(i)) {
        Ok(()) => 0,
        Err(e) => e32(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fdatasync(fd: c_int) -> c_int {
    __wrap_fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_ftruncate64(fd: c_int, n: i64) -> c_int {
    let Some(m) = sim() else { return __real_ftruncate64(fd, n) };
    point(m, "ftruncate");
    let Some(o) = k().lookup(fd) else { return e32(libc::EBADF) };
    let Obj::File(i) = k().ofds[o].obj else { return e32(libc::EINVAL) };
    match fs_op(m, "truncate", |_| k().fs.truncate(i, n as usize)) {
        Ok(()) => 0,
        Err(e) => e32(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rename(a: *const c_char, b: *const c_char) -> c_int {
    let Some(m) = sim() else { return __real_rename(a, b) };
    point(m, "rename");
    let (a, b) = (path_str(a), path_str(b));
    match fs_op(m, &format!("rename {} to {}", a, b), |_| k().fs.rename(&a, &b)) {
        Ok(Ok(())) => 0,
        Ok(Err(e)) | Err(e) => e32(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_unlink(a: *const c_char) -> c_int {
    let Some(m) = sim() else { return __real_unlink(a) };
    point(m, "unlink");
    let a = path_str(a);
    match fs_op(m, &format!("unlink {}", a), |_| k().fs.unlink(&a)) {
        Ok(Ok(())) => 0,
        Ok(Err(e)) | Err(e) => e32(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_mkdir(p: *const c_char, mode: u32) -> c_int {
    let Some(_) = sim() else { return __real_mkdir(p, mode) };
    e32(if Fs::is_dir(&path_str(p)) { libc::EEXIST } else { libc::EPERM })
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_link(a: *const c_char, b: *const c_char) -> c_int {
    let Some(m) = sim() else { return __real_link(a, b) };
    point(m, "link");
    let (a, b) = (path_str(a), path_str(b));
    match fs_op(m, &format!("link {} to {}", a, b), |_| k().fs.link(&a, &b)) {
        Ok(Ok(())) => 0,
        Ok(Err(e)) | Err(e) => e32(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_linkat(x: c_int, a: *const c_char, y: c_int, b: *const c_char, f: c_int) -> c_int {
    let Some(_) = sim() else { return __real_linkat(x, a, y, b, f) };
    __wrap_link(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_renameat(x: c_int, a: *const c_char, y: c_int, b: *const c_char) -> c_int {
    let Some(_) = sim() else { return __real_renameat(x, a, y, b) };
    __wrap_rename(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_unlinkat(x: c_int, a: *const c_char, f: c_int) -> c_int {
    let Some(_) = sim() else { return __real_unlinkat(x, a, f) };
    __wrap_unlink(a)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_openat64(x: c_int, p: *const c_char, f: c_int, mode: u32) -> c_int {
    let Some(_) = sim() else { return __real_openat64(x, p, f, mode) };
    __wrap_open64(p, f, mode)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_access(p: *const c_char, mode: c_int) -> c_int {
    let Some(_) = sim() else { return __real_access(p, mode) };
    let mut s: libc::stat64 = std::mem::zeroed();
    __wrap_stat64(p, &mut s)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let Some(_) = sim() else { return __real_readv(fd, v, n) };
    if n == 0 {
        return 0;
    }
    // (a short read is always possible)
    __wrap_read(fd, (*v).iov_base, (*v).iov_len)
}
// The standard library uses these to copy faster, and does without them.
#[no_mangle]
pub unsafe extern "C" fn __wrap_copy_file_range(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: usize, f: u32) -> ssize_t {
    let Some(_) = sim() else { return __real_copy_file_range(a, x, b, y, n, f) };
    errno(libc::ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_sendfile64(a: c_int, b: c_int, o: *mut i64, n: usize) -> ssize_t {
    let Some(_) = sim() else { return __real_sendfile64(a, b, o, n) };
    errno(libc::ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_splice(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: usize, f: u32) -> ssize_t {
    let Some(_) = sim() else { return __real_splice(a, x, b, y, n, f) };
    errno(libc::ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_symlink(a: *const c_char, b: *const c_char) -> c_int {
    let Some(_) = sim() else { return __real_symlink(a, b) };
    e32(libc::EPERM)
}
// Permissions, owners, times and locks are not part of the model.
macro_rules! ignored {
    ($($w:ident $r:ident ($($a:ident: $t:ty),*);)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $w($($a: $t),*) -> c_int {
            if sim().is_none() { return $r($($a),*) }
            0
        }
    )* };
}
ignored! {
    __wrap_fchmod __real_fchmod(fd: c_int, m: u32);
    __wrap_chmod __real_chmod(p: *const c_char, m: u32);
    __wrap_fchown __real_fchown(fd: c_int, u: u32, g: u32);
    __wrap_chown __real_chown(p: *const c_char, u: u32, g: u32);
    __wrap_flock __real_flock(fd: c_int, o: c_int);
    __wrap_futimens __real_futimens(fd: c_int, t: *const libc::timespec);
    __wrap_fallocate64 __real_fallocate64(fd: c_int, m: c_int, o: i64, n: i64);
    __wrap_posix_fadvise64 __real_posix_fadvise64(fd: c_int, o: i64, n: i64, a: c_int);
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_readlink(p: *const c_char, b: *mut c_char, n: usize) -> ssize_t {
    let Some(_) = sim() else { return __real_readlink(p, b, n) };
    errno(libc::EINVAL)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_realpath(p: *const c_char, b: *mut c_char) -> *mut c_char {
    let Some(_) = sim() else { return __real_realpath(p, b) };
    errno(libc::ENOENT);
    std::ptr::null_mut()
}

// ------------------------------------------------------------------ terminal
#[no_mangle]
pub unsafe extern "C" fn __wrap_isatty(fd: c_int) -> c_int {
    let Some(_) = sim() else { return __real_isatty(fd) };
    match k().lookup(fd).map(|o| k().ofds[o].obj) {
        Some(Obj::Tty) => 1,
        Some(_) => {
            errno(libc::ENOTTY);
            0
        }
        None => {
            errno(libc::EBADF);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_ioctl(fd: c_int, r: u64, a: usize) -> c_int {
    let Some(m) = sim() else { return __real_ioctl(fd, r, a) };
    point(m, "ioctl");
    let kk = k();
    let Some(o) = kk.lookup(fd) else { return e32(libc::EBADF) };
    if kk.ofds[o].obj != Obj::Tty {
        return e32(libc::ENOTTY);
    }
    if r == libc::TIOCGWINSZ {
        if kk.tty.ioctl_err {
            kk.bump(F::SetupErr);
            return e32(libc::ENOTTY);
        }
        if kk.tty.hung {
            return e32(libc::EIO);
        }
        let ws = a as *mut libc::winsize;
        std::ptr::write_bytes(ws, 0, 1);
        (*ws).ws_col = kk.tty.ws.0;
        (*ws).ws_row = kk.tty.ws.1;
        return 0;
    }
    if r == libc::FIONREAD {
        *(a as *mut c_int) = kk.tty.inq.len() as c_int;
        return 0;
    }
    e32(libc::EINVAL)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    let Some(m) = sim() else { return __real_tcgetattr(fd, t) };
    point(m, "tcgetattr");
    let kk = k();
    let Some(o) = kk.lookup(fd) else { return e32(libc::EBADF) };
    if kk.ofds[o].obj != Obj::Tty {
        return e32(libc::ENOTTY);
    }
    if kk.tty.hung {
        return e32(libc::EIO);
    }
    *t = kk.tty.termios;
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_tcsetattr(fd: c_int, act: c_int, t: *const libc::termios) -> c_int {
    let Some(m) = sim() else { return __real_tcsetattr(fd, act, t) };
    point(m, "tcsetattr");
    let kk = k();
    let Some(o) = kk.lookup(fd) else { return e32(libc::EBADF) };
    if kk.ofds[o].obj != Obj::Tty {
        return e32(libc::ENOTTY);
    }
    kk.tty.tcset_count += 1;
    if kk.tty.hung {
        return e32(libc::EIO);
    }
    if kk.tty.tcset_err_at == Some(kk.tty.tcset_count) {
        kk.bump(F::SetupErr);
        kk.tty.failed_at.get_or_insert(kk.now);
        return e32(libc::EIO);
    }
    kk.tty.termios = *t;
    kk.order += 1;
    let (o, r) = (kk.order, kk.tty.raw());
    kk.tty.tcset_log.push((o, r));
    if kk.trace {
        let r = kk.tty.raw();
        kk.tlog(format!("terminal mode: {}", if r { "raw" } else { "normal" }));
    }
    kk.mix(0x7c5e7 + kk.tty.raw() as u64);
    if kk.tty.raw() && !kk.tty.line.is_empty() {
        let l = std::mem::take(&mut kk.tty.line);
        kk.tty.inq.extend(l);
        kk.wake_all(Wait::TtyR);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_poll(f: *mut libc::pollfd, n: u64, t: c_int) -> c_int {
    let Some(m) = sim() else { return __real_poll(f, n, t) };
    point(m, "poll");
    let d = k().now + (t.max(0) as u64) * MS;
    loop {
        let kk = k();
        let mut c = 0;
        for i in 0..n as usize {
            let p = &mut *f.add(i);
            p.revents = 0;
            let Some(o) = kk.lookup(p.fd) else {
                if p.fd >= 0 {
                    p.revents = libc::POLLNVAL;
                    c += 1;
                }
                continue;
            };
            let (r, h) = match kk.ofds[o].obj {
                Obj::Tty => (!kk.tty.inq.is_empty() || kk.tty.hung || kk.tty.read_err, kk.tty.hung),
                Obj::PipeR(q) => {
                    let e = kk.pipes[q].writers == 0 && !kk.pipes[q].ext_writer;
                    (!kk.pipes[q].buf.is_empty(), e)
                }
                _ => (true, false),
            };
            if r && p.events & libc::POLLIN != 0 {
                p.revents |= libc::POLLIN;
            }
            if h {
                p.revents |= libc::POLLHUP;
            }
            if p.events & libc::POLLOUT != 0 {
                p.revents |= libc::POLLOUT;
            }
            if p.revents != 0 {
                c += 1;
            }
        }
        if c > 0 || (t >= 0 && k().now >= d) {
            return c;
        }
        let mut until = k().now + MS;
        if t >= 0 {
            until = until.min(d);
        }
        if block(m, Wait::Sleep, Some(until)) == Wake::Signal {
            return e32(libc::EINTR);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_epoll_create1(f: c_int) -> c_int {
    let Some(_) = sim() else { return __real_epoll_create1(f) };
    e32(libc::ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_epoll_wait(a: c_int, b: *mut c_void, c: c_int, d: c_int) -> c_int {
    let Some(_) = sim() else { return __real_epoll_wait(a, b, c, d) };
    e32(libc::ENOSYS)
}

// ------------------------------------------------------------------- threads
struct Start {
    id: usize,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    SELF.with(|c| c.set(s.id as i32));
    park_until_token(s.id);
    let r = (s.f)(s.arg);
    let kk = k();
    if kk.trace {
        kk.tlog("thread ends".into());
    }
    kk.th[s.id].st = St::Exited;
    kk.wake_all(Wait::Join(s.id));
    SELF.with(|c| c.set(-1));
    let next = kk.pick_from(s.id);
    hand_over(next);
    r
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let Some(m) = sim() else { return __real_pthread_create(t, a, f, arg) };
    let actor = std::mem::replace(&mut k().spawn_actor, false);
    if !actor {
        let kk = k();
        kk.thread_count += 1;
        if std::mem::take(&mut kk.th[m].spawn_err) || kk.thread_err_at == Some(kk.thread_count) {
            kk.bump(F::ThreadErr);
            kk.tty.failed_at.get_or_insert(kk.now);
            if kk.trace {
                kk.tlog("pthread_create fails with EAGAIN".into());
            }
            return libc::EAGAIN;
        }
    }
    let id = k().new_thread("thread", actor);
    let s = Box::into_raw(Box::new(Start { id, f, arg }));
    let r = __real_pthread_create(t, a, trampoline, s as *mut c_void);
    if r != 0 {
        k().abort("harness", "pthread_create failed");
    }
    k().th[id].pthread = *t as usize;
    if k().trace {
        k().tlog(format!("starts T{}", id));
    }
    point(m, "pthread_create");
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pthread_setname_np(t: libc::pthread_t, n: *const c_char) -> c_int {
    let Some(m) = sim() else { return __real_pthread_setname_np(t, n) };
    k().th[m].name = path_str(n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    let Some(m) = sim() else { return __real_pthread_join(t, r) };
    point(m, "pthread_join");
    if let Some(i) = k().th.iter().rposition(|x| x.pthread == t as usize) {
        while k().th[i].st != St::Exited {
            block(m, Wait::Join(i), None);
        }
        k().th[i].pthread = 0;
    }
    __real_pthread_join(t, r)
}
fn send_sig(i: usize, s: c_int) {
    let kk = k();
    kk.th[i].sigs.push_back(s);
    if kk.sig[s as usize].0 == libc::SIG_IGN {
        return;
    }
    if let St::Blocked(w) = kk.th[i].st {
        match w {
            Wait::TtyR | Wait::TtyW | Wait::PipeR(_) | Wait::PipeW(_) | Wait::Sleep | Wait::Futex(..) | Wait::Never => {
                kk.bump(F::Eintr);
                kk.wake(i, Wake::Signal)
            }
            _ => {}
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pthread_kill(t: libc::pthread_t, s: c_int) -> c_int {
    let Some(m) = sim() else { return __real_pthread_kill(t, s) };
    point(m, "pthread_kill");
    match k().th.iter().rposition(|x| x.pthread == t as usize && x.st != St::Exited) {
        Some(i) => {
            if s != 0 {
                if k().trace {
                    k().tlog(format!("sends signal {} to T{}", s, i));
                }
                send_sig(i, s);
            }
            0
        }
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_sigaction(s: c_int, n: *const libc::sigaction, o: *mut libc::sigaction) -> c_int {
    let Some(m) = sim() else { return __real_sigaction(s, n, o) };
    point(m, "sigaction");
    if !(1..65).contains(&s) {
        return e32(libc::EINVAL);
    }
    let kk = k();
    if !o.is_null() {
        std::ptr::write_bytes(o, 0, 1);
        (*o).sa_sigaction = kk.sig[s as usize].0;
        (*o).sa_flags = kk.sig[s as usize].1;
    }
    if !n.is_null() {
        kk.sig[s as usize] = ((*n).sa_sigaction, (*n).sa_flags);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_signal(s: c_int, h: usize) -> usize {
    let Some(_) = sim() else { return __real_signal(s, h) };
    let old = k().sig[s as usize].0;
    k().sig[s as usize] = (h, libc::SA_RESTART);
    old
}
fn raise_sig(m: usize, s: c_int) -> c_int {
    let kk = k();
    let stop = s == libc::SIGSTOP || (matches!(s, libc::SIGTSTP | libc::SIGTTIN | libc::SIGTTOU) && kk.sig[s as usize].0 == libc::SIG_DFL);
    if stop {
        kk.stops += 1;
        kk.bump(F::SigStop);
        if kk.trace {
            kk.tlog("** process stopped".into());
        }
        if let Some(f) = kk.on_stop {
            f();
        }
        let kk = k();
        // the whole process is stopped while time goes on
        kk.stop_log.push((kk.now, kk.now + kk.clockjump));
        kk.now += kk.clockjump;
        if kk.trace {
            kk.tlog(format!("** process continued after {}ms", kk.clockjump / MS));
        }
        sched(m, false);
    } else {
        kk.th[m].sigs.push_back(s);
        deliver_signals(m);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_raise(s: c_int) -> c_int {
    let Some(m) = sim() else { return __real_raise(s) };
    point(m, "raise");
    raise_sig(m, s)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_kill(p: c_int, s: c_int) -> c_int {
    let Some(m) = sim() else { return __real_kill(p, s) };
    point(m, "kill");
    raise_sig(m, s)
}

// ---------------------------------------------------------------------- time
#[no_mangle]
pub unsafe extern "C" fn __wrap_clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    let Some(_) = sim() else { return __real_clock_gettime(c, t) };
    let kk = k();
    kk.now += 50;
    let mut n = kk.now;
    if c == libc::CLOCK_REALTIME {
        n = (n as i64 + 1_700_000_000_000_000_000 + kk.wall_skew) as u64;
    }
    (*t).tv_sec = (n / 1_000_000_000) as i64;
    (*t).tv_nsec = (n % 1_000_000_000) as i64;
    0
}
fn ts(t: *const libc::timespec) -> u64 {
    unsafe { ((*t).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64) }
}
fn sleep_until(m: usize, d: u64) -> bool {
    while k().now < d {
        if block(m, Wait::Sleep, Some(d)) == Wake::Signal {
            return false;
        }
    }
    true
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    let Some(m) = sim() else { return __real_nanosleep(a, b) };
    let d = k().now.saturating_add(ts(a));
    if sleep_until(m, d) {
        0
    } else {
        if !b.is_null() {
            let left = d.saturating_sub(k().now);
            (*b).tv_sec = (left / 1_000_000_000) as i64;
            (*b).tv_nsec = (left % 1_000_000_000) as i64;
        }
        e32(libc::EINTR)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    let Some(m) = sim() else { return __real_clock_nanosleep(c, f, a, b) };
    let d = if f & libc::TIMER_ABSTIME != 0 { ts(a) } else { k().now.saturating_add(ts(a)) };
    if sleep_until(m, d) {
        0
    } else {
        libc::EINTR
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_usleep(u: u32) -> c_int {
    let Some(m) = sim() else { return __real_usleep(u) };
    let d = k().now + u as u64 * 1000;
    sleep_until(m, d);
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_sched_yield() -> c_int {
    let Some(m) = sim() else { return __real_sched_yield() };
    let kk = k();
    kk.tick(200);
    kk.th[m].yielded = true;
    kk.th[m].yielded_at = kk.steps;
    sched(m, false);
    k().th[m].yielded = false;
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pause() -> c_int {
    let Some(m) = sim() else { return __real_pause() };
    block(m, Wait::Never, None);
    e32(libc::EINTR)
}

// ---------------------------------------------------- futex, random, processes
const FUTEX_CMD: i32 = 127;
#[no_mangle]
pub unsafe extern "C" fn __wrap_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let Some(m) = sim() else { return __real_syscall(n, a, b, c, d, e, f) };
    match n {
        libc::SYS_futex => futex(m, a, b as i32, c as u32, d, f as u32),
        libc::SYS_getrandom => {
            __wrap_getrandom(a as *mut c_void, b, 0);
            b as i64
        }
        libc::SYS_gettid => 1000 + m as i64,
        libc::SYS_getpid => 1000,
        libc::SYS_statx => errno(libc::ENOSYS) as i64,
        libc::SYS_sched_yield => __wrap_sched_yield() as i64,
        _ => {
            if k().trace {
                k().tlog(format!("raw system call {} refused", n));
            }
            errno(libc::ENOSYS) as i64
        }
    }
}
fn futex(m: usize, addr: usize, op: i32, val: u32, tmo: usize, val3: u32) -> i64 {
    let cmd = op & FUTEX_CMD;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            point(m, "futex_wait");
            let cur = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
            if cur != val {
                return errno(libc::EAGAIN) as i64;
            }
            let kk = k();
            let p = kk.kn.p_spurious;
            if p > 0.0 && kk.tape.draw(|r| r.chance(p) as u32) & 1 == 1 {
                kk.bump(F::Spurious);
                kk.tick(1000);
                if kk.trace {
                    kk.tlog("spurious wakeup".into());
                }
                return 0;
            }
            let dl = if tmo == 0 {
                None
            } else {
                let t = ts(tmo as *const libc::timespec);
                Some(if cmd == libc::FUTEX_WAIT {
                    kk.now.saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    (t as i64 - 1_700_000_000_000_000_000 - kk.wall_skew).max(0) as u64
                } else {
                    t
                })
            };
            let bits = if cmd == libc::FUTEX_WAIT { u32::MAX } else { val3 };
            match block(m, Wait::Futex(addr, bits), dl) {
                Wake::TimedOut => errno(libc::ETIMEDOUT) as i64,
                Wake::Signal => errno(libc::EINTR) as i64,
                _ => 0,
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bits = if cmd == libc::FUTEX_WAKE { u32::MAX } else { val3 };
            let mut woken = 0;
            loop {
                let kk = k();
                let w: Vec<usize> = (0..kk.th.len())
                    .filter(|&i| matches!(kk.th[i].st, St::Blocked(Wait::Futex(a, b)) if a == addr && b & bits != 0))
                    .collect();
                if w.is_empty() || woken >= val as i64 {
                    break;
                }
                let i = if w.len() > 1 && (w.len() as i64) > val as i64 - woken {
                    let v = kk.tape.below(w.len() as u32) as usize;
                    if v > 0 {
                        kk.bump(F::NotifyAny);
                    }
                    v
                } else {
                    0
                };
                kk.wake(w[i], Wake::Woken);
                woken += 1;
            }
            point(m, "futex_wake");
            woken
        }
        _ => errno(libc::ENOSYS) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_getrandom(b: *mut c_void, n: usize, f: u32) -> ssize_t {
    let Some(_) = sim() else { return __real_getrandom(b, n, f) };
    let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
    for x in s {
        let kk = k();
        kk.urandom = kk.urandom.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *x = (kk.urandom >> 33) as u8;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fork() -> c_int {
    let Some(_) = sim() else { return __real_fork() };
    e32(libc::EAGAIN)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_posix_spawnp(p: *mut c_int, f: *const c_char, a: *const c_void, b: *const c_void, c: *const c_void, d: *const c_void) -> c_int {
    let Some(_) = sim() else { return __real_posix_spawnp(p, f, a, b, c, d) };
    libc::ENOENT
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_execvp(f: *const c_char, a: *const c_void) -> c_int {
    let Some(_) = sim() else { return __real_execvp(f, a) };
    e32(libc::ENOENT)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_gettid() -> c_int {
    match sim() {
        Some(m) => 1000 + m as c_int,
        None => __real_gettid(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_getpid() -> c_int {
    match sim() {
        Some(_) => 1000,
        None => __real_getpid(),
    }
}
