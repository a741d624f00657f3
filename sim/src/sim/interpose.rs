//! The seam: the libc symbols the standard library calls, defined in this binary so that they bind
//! before libc. Outside a simulation they forward to the kernel or to libc.
use super::fs::*;
use super::sched::{self, St};
use super::{Internal, in_sim, raw, sim};
use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t};
use std::sync::atomic::Ordering;

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    unsafe { std::ffi::CStr::from_ptr(p).to_bytes() }
}
fn ours(p: &[u8]) -> bool {
    in_sim() && (p == b"/sim" || p.starts_with(b"/sim/"))
}
fn our_fd(fd: c_int) -> bool {
    in_sim() && fd >= FD_BASE
}
fn fs() -> &'static mut Fs {
    unsafe { &mut *sim().fs.get() }
}
/// time passes and other threads may run
fn io_point() {
    let sc = unsafe { &mut *sim().sched.get() };
    sc.now += 1_000;
    let cd = unsafe { &mut *sched::COUNTDOWN.get() };
    *cd -= 1;
    if *cd == 0 {
        sched::preempt(false);
    } else if sc.th.len() > 1
        && sc.plan.explicit.is_none()
        && sc.plan.io_switch > 0
        && sc.plan.max_preempt.is_none_or(|m| sc.preempts < m)
        && sc.rng.chance(sc.plan.io_switch, 1000)
    {
        sched::preempt(false);
    }
}
fn delay(ns: u64) {
    let sc = unsafe { &mut *sim().sched.get() };
    let me = sc.cur;
    sc.th[me].st = St::Sleep(sc.now + ns);
    sched::block();
}
/// Common fault front-end. Ok(act) = go on (act carries transfer-limiting actions).
fn gate(op: Op, path: &[u8]) -> Result<Option<Action>, i32> {
    io_point();
    let f = fs();
    let act = f.decide(op, path);
    match act {
        None => Ok(None),
        Some(Action::Errno(e)) => {
            f.delivered_now(op, path, Action::Errno(e));
            f.logop(format!("{op:?} {} -> errno {e}", bstr::enc(path)));
            Err(e)
        }
        Some(Action::Delay(n)) => {
            f.delivered_now(op, path, Action::Delay(n));
            delay(n);
            Ok(None)
        }
        Some(Action::Vanish) => {
            f.delivered_now(op, path, Action::Vanish);
            f.names.remove(path);
            Ok(None)
        }
        Some(Action::Shrink(n)) => {
            if let Some(i) = f.names.get(path).copied() {
                if let Inode::File(d) = &mut f.inodes[i] {
                    if n < d.len() {
                        d.truncate(n);
                        f.delivered_now(op, path, Action::Shrink(n));
                    }
                }
            }
            Ok(None)
        }
        Some(Action::Crash(n)) if op != Op::Write => {
            f.delivered_now(op, path, Action::Crash(n));
            super::finish(super::End::Crash);
        }
        a => Ok(a),
    }
}

fn do_open(path: &[u8], flags: c_int) -> Result<i32, i32> {
    let p = Fs::norm(path);
    let create = flags & libc::O_CREAT != 0;
    let op = if create { Op::Create } else { Op::Open };
    gate(op, &p)?;
    let f = fs();
    let acc = flags & libc::O_ACCMODE;
    let r = match f.resolve(&p, true) {
        Ok((rp, i)) => {
            if create && flags & libc::O_EXCL != 0 {
                Err(libc::EEXIST)
            } else {
                match &mut f.inodes[i] {
                    Inode::Dir if acc != libc::O_RDONLY || create => Err(libc::EISDIR),
                    Inode::File(d) => {
                        if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                            f.used -= d.len() as u64;
                            d.clear();
                        }
                        Ok((rp, i, false))
                    }
                    Inode::Special => Err(libc::ENXIO),
                    _ => Ok((rp, i, true)),
                }
            }
        }
        Err(e) if e == libc::ENOENT && create => f.parent_ok(&p).map(|_| {
            f.inodes.push(Inode::File(vec![]));
            let i = f.inodes.len() - 1;
            f.names.insert(p.clone(), i);
            (p.clone(), i, false)
        }),
        Err(e) => Err(e),
    };
    let r = r.and_then(|(rp, ino, is_dir)| {
        f.alloc_fd(Fd {
            ino,
            pos: 0,
            append: flags & libc::O_APPEND != 0,
            write: acc != libc::O_RDONLY,
            read: acc != libc::O_WRONLY,
            path: rp,
            pending: None,
            is_dir,
        })
    });
    f.logop(format!("{op:?} {} -> {r:?}", bstr::enc(&p)));
    r
}

fn do_read(fd: c_int, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
    let path = match fs().fds.get_mut(&fd) {
        Some(h) if h.read => {
            if let Some(e) = h.pending.take() {
                return Err(e);
            }
            h.path.clone()
        }
        _ => return Err(libc::EBADF),
    };
    let act = gate(Op::Read, &path)?;
    let f = fs();
    let h = &f.fds[&fd];
    let pos = at.unwrap_or(h.pos);
    let data = match &f.inodes[h.ino] {
        Inode::File(d) => d,
        _ => return Err(libc::EISDIR),
    };
    let mut n = data.len().saturating_sub(pos).min(buf.len());
    let full = n;
    let mut fired = None;
    let mut pend = None;
    match act {
        Some(Action::Short(k)) if k < n => {
            n = k;
            fired = Some(Action::Short(k));
        }
        Some(Action::Torn(k, e)) => {
            if k.min(n) == 0 {
                f.delivered_now(Op::Read, &path, Action::Errno(e));
                return Err(e);
            }
            n = k.min(n);
            pend = Some(e);
            fired = Some(Action::Torn(k, e));
        }
        _ => {}
    }
    buf[..n].copy_from_slice(&data[pos.min(data.len())..][..n]);
    let h = f.fds.get_mut(&fd).unwrap();
    h.pending = pend;
    if at.is_none() {
        h.pos += n;
    }
    if let Some(a) = fired {
        f.delivered_now(Op::Read, &path, a);
    }
    f.logop(format!("Read {} {full} -> {n}", bstr::enc(&path)));
    Ok(n)
}

fn do_write(fd: c_int, buf: &[u8]) -> Result<usize, i32> {
    let path = match fs().fds.get_mut(&fd) {
        Some(h) if h.write => {
            if let Some(e) = h.pending.take() {
                return Err(e);
            }
            h.path.clone()
        }
        _ => return Err(libc::EBADF),
    };
    let act = gate(Op::Write, &path)?;
    let f = fs();
    let (ino, append, pos) = {
        let h = &f.fds[&fd];
        (h.ino, h.append, h.pos)
    };
    let mut n = buf.len();
    let mut fired = None;
    let mut pend = None;
    let mut crash = false;
    match act {
        Some(Action::Short(k)) if k < n => {
            n = k;
            fired = Some(Action::Short(k));
        }
        Some(Action::Torn(k, e)) => {
            if k.min(n) == 0 {
                f.delivered_now(Op::Write, &path, Action::Errno(e));
                f.logop(format!("Write {} -> errno {e}", bstr::enc(&path)));
                return Err(e);
            }
            n = k.min(n);
            pend = Some(e);
            fired = Some(Action::Torn(k, e));
        }
        Some(Action::Crash(k)) => {
            n = k.min(n);
            crash = true;
            fired = Some(Action::Crash(k));
        }
        _ => {}
    }
    let d = match &mut f.inodes[ino] {
        Inode::File(d) => d,
        _ => return Err(libc::EBADF),
    };
    let pos = if append { d.len() } else { pos };
    let grow = (pos + n).saturating_sub(d.len()) as u64;
    if let Some(space) = f.plan.disk_space {
        if f.used + grow > space {
            let free = space.saturating_sub(f.used) as usize;
            let m = (d.len() + free).saturating_sub(pos).min(n);
            fired = Some(Action::Errno(libc::ENOSPC));
            if m == 0 && !crash {
                f.delivered_now(Op::Write, &path, Action::Errno(libc::ENOSPC));
                f.logop(format!("Write {} -> ENOSPC", bstr::enc(&path)));
                return Err(libc::ENOSPC);
            }
            n = m;
        }
    }
    if d.len() < pos + n {
        f.used += (pos + n - d.len()) as u64;
        d.resize(pos + n, 0);
    }
    d[pos..pos + n].copy_from_slice(&buf[..n]);
    let h = f.fds.get_mut(&fd).unwrap();
    h.pos = pos + n;
    h.pending = pend;
    if let Some(a) = fired {
        f.delivered_now(Op::Write, &path, a);
    }
    f.logop(format!("Write {} @{pos} {} -> {n}", bstr::enc(&path), buf.len()));
    if crash {
        super::finish(super::End::Crash);
    }
    Ok(n)
}

struct Meta {
    mode: u32,
    size: u64,
    ino: u64,
}
fn meta(f: &Fs, i: usize) -> Meta {
    match &f.inodes[i] {
        Inode::Dir => Meta { mode: libc::S_IFDIR | 0o755, size: 4096, ino: i as u64 + 2 },
        Inode::File(d) => Meta { mode: libc::S_IFREG | 0o644, size: d.len() as u64, ino: i as u64 + 2 },
        Inode::Link(t) => Meta { mode: libc::S_IFLNK | 0o777, size: t.len() as u64, ino: i as u64 + 2 },
        Inode::Special => Meta { mode: libc::S_IFIFO | 0o644, size: 0, ino: i as u64 + 2 },
    }
}
fn do_stat_path(path: &[u8], follow: bool) -> Result<Meta, i32> {
    let p = Fs::norm(path);
    let act = gate(Op::Stat, &p)?;
    let f = fs();
    let r = f.resolve(&p, follow).map(|(_, i)| meta(f, i));
    f.logop(format!("Stat {} -> {:?}", bstr::enc(&p), r.as_ref().map(|m| m.size)));
    let mut m = r?;
    if let Some(Action::Size(n)) = act {
        f.delivered_now(Op::Stat, &p, Action::Size(n));
        m.size = n;
    }
    Ok(m)
}
fn do_stat_fd(fd: c_int) -> Result<Meta, i32> {
    let path = fs().fds.get(&fd).ok_or(libc::EBADF)?.path.clone();
    let act = gate(Op::Stat, &path)?;
    let f = fs();
    let mut m = meta(f, f.fds[&fd].ino);
    if let Some(Action::Size(n)) = act {
        f.delivered_now(Op::Stat, &path, Action::Size(n));
        m.size = n;
    }
    Ok(m)
}
unsafe fn fill_stat(st: *mut libc::stat64, m: Meta) {
    unsafe {
        std::ptr::write_bytes(st, 0, 1);
        (*st).st_mode = m.mode;
        (*st).st_size = m.size as i64;
        (*st).st_ino = m.ino;
        (*st).st_nlink = 1;
        (*st).st_blksize = 4096;
    }
}
fn out(r: Result<isize, i32>) -> isize {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        return out(do_open(p, flags).map(|x| x as isize)) as c_int;
    }
    ret(raw(libc::SYS_openat, [libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { open64(path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        return unsafe { open64(path, flags, mode) };
    }
    if our_fd(dir) {
        let _g = Internal::enter();
        let full = at_path(dir, p);
        return out(full.and_then(|f| do_open(&f, flags)).map(|x| x as isize)) as c_int;
    }
    ret(raw(libc::SYS_openat, [dir as usize, path as usize, flags as usize, mode as usize, 0, 0])) as c_int
}
fn at_path(dir: c_int, p: &[u8]) -> Result<Vec<u8>, i32> {
    let d = fs().fds.get(&dir).ok_or(libc::EBADF)?;
    let mut f = d.path.clone();
    f.push(b'/');
    f.extend_from_slice(p);
    Ok(f)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if our_fd(fd) {
        let _g = Internal::enter();
        let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
        return out(do_read(fd, b, None).map(|x| x as isize));
    }
    ret(raw(libc::SYS_read, [fd as usize, buf as usize, n, 0, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if our_fd(fd) {
        let _g = Internal::enter();
        let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
        return out(do_read(fd, b, Some(off as usize)).map(|x| x as isize));
    }
    ret(raw(libc::SYS_pread64, [fd as usize, buf as usize, n, off as usize, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if our_fd(fd) {
        if n == 0 {
            return 0;
        }
        // a legal short read: fill the first non-empty buffer only
        for k in 0..n {
            let v = unsafe { &*iov.add(k as usize) };
            if v.iov_len > 0 {
                return unsafe { read(fd, v.iov_base, v.iov_len) };
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_readv, [fd as usize, iov as usize, n as usize, 0, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if our_fd(fd) {
        let _g = Internal::enter();
        let b = unsafe { std::slice::from_raw_parts(buf as *const u8, n) };
        return out(do_write(fd, b).map(|x| x as isize));
    }
    if in_sim() && (fd == 1 || fd == 2) {
        return n as ssize_t;
    }
    ret(raw(libc::SYS_write, [fd as usize, buf as usize, n, 0, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if our_fd(fd) {
        let _g = Internal::enter();
        let mut all = vec![];
        for k in 0..n {
            let v = unsafe { &*iov.add(k as usize) };
            all.extend_from_slice(unsafe { std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len) });
        }
        return out(do_write(fd, &all).map(|x| x as isize));
    }
    if in_sim() && (fd == 1 || fd == 2) {
        let mut t = 0;
        for k in 0..n {
            t += unsafe { (*iov.add(k as usize)).iov_len };
        }
        return t as ssize_t;
    }
    ret(raw(libc::SYS_writev, [fd as usize, iov as usize, n as usize, 0, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if our_fd(fd) {
        let _g = Internal::enter();
        let f = fs();
        let (ino, pos) = match f.fds.get(&fd) {
            Some(h) => (h.ino, h.pos as i64),
            None => return out(Err(libc::EBADF)) as i64,
        };
        let len = match &f.inodes[ino] {
            Inode::File(d) => d.len() as i64,
            _ => 0,
        };
        let np = match wh {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => pos + off,
            libc::SEEK_END => len + off,
            _ => -1,
        };
        if np < 0 {
            return out(Err(libc::EINVAL)) as i64;
        }
        f.fds.get_mut(&fd).unwrap().pos = np as usize;
        return np;
    }
    ret(raw(libc::SYS_lseek, [fd as usize, off as usize, wh as usize, 0, 0, 0])) as off64_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if our_fd(fd) {
        let _g = Internal::enter();
        io_point();
        let f = fs();
        return match f.fds.remove(&fd) {
            Some(h) => {
                f.logop(format!("Close {}", bstr::enc(&h.path)));
                0
            }
            None => out(Err(libc::EBADF)) as c_int,
        };
    }
    ret(raw(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if our_fd(fd) {
        let _g = Internal::enter();
        return out(do_stat_fd(fd).map(|m| {
            unsafe { fill_stat(st, m) };
            0
        })) as c_int;
    }
    ret(raw(libc::SYS_fstat, [fd as usize, st as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        return out(do_stat_path(p, true).map(|m| {
            unsafe { fill_stat(st, m) };
            0
        })) as c_int;
    }
    ret(raw(libc::SYS_newfstatat, [libc::AT_FDCWD as usize, path as usize, st as usize, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        return out(do_stat_path(p, false).map(|m| {
            unsafe { fill_stat(st, m) };
            0
        })) as c_int;
    }
    ret(raw(
        libc::SYS_newfstatat,
        [libc::AT_FDCWD as usize, path as usize, st as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0, 0],
    )) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    let p = unsafe { cstr(path) };
    let full = if ours(p) {
        Some(Ok(p.to_vec()))
    } else if our_fd(dir) {
        Some(at_path(dir, p))
    } else {
        None
    };
    if let Some(f) = full {
        let _g = Internal::enter();
        return out(f.and_then(|f| do_stat_path(&f, flags & libc::AT_SYMLINK_NOFOLLOW == 0)).map(|m| {
            unsafe { fill_stat(st, m) };
            0
        })) as c_int;
    }
    ret(raw(libc::SYS_newfstatat, [dir as usize, path as usize, st as usize, flags as usize, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, sx: *mut libc::statx) -> c_int {
    if in_sim() && !path.is_null() {
        let p = unsafe { cstr(path) };
        let r = if ours(p) {
            let _g = Internal::enter();
            Some(do_stat_path(p, flags & libc::AT_SYMLINK_NOFOLLOW == 0))
        } else if our_fd(dir) {
            let _g = Internal::enter();
            Some(if p.is_empty() {
                do_stat_fd(dir)
            } else {
                at_path(dir, p).and_then(|f| do_stat_path(&f, flags & libc::AT_SYMLINK_NOFOLLOW == 0))
            })
        } else {
            None
        };
        if let Some(r) = r {
            return out(r.map(|m| {
                unsafe {
                    std::ptr::write_bytes(sx, 0, 1);
                    (*sx).stx_mask = 0x7ff;
                    (*sx).stx_mode = m.mode as u16;
                    (*sx).stx_size = m.size;
                    (*sx).stx_ino = m.ino;
                    (*sx).stx_nlink = 1;
                    (*sx).stx_blksize = 4096;
                }
                0
            })) as c_int;
        }
    }
    ret(raw(libc::SYS_statx, [dir as usize, path as usize, flags as usize, mask as usize, sx as usize, 0])) as c_int
}

macro_rules! next {
    ($name:literal, $ty:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            #[allow(unused_unsafe)]
            {
                p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) } as usize;
            }
            P.store(p, Ordering::Relaxed);
        }
        #[allow(unused_unsafe)]
        unsafe { std::mem::transmute::<usize, $ty>(p) }
    }};
}

fn list_dir(p: &[u8]) -> Vec<(Vec<u8>, u8, u64)> {
    let f = fs();
    let mut pre = p.to_vec();
    pre.push(b'/');
    let mut v: Vec<(Vec<u8>, u8, u64)> = vec![];
    for (n, i) in f.names.range(pre.clone()..) {
        if !n.starts_with(&pre) {
            break;
        }
        let rest = &n[pre.len()..];
        if rest.is_empty() || rest.contains(&b'/') {
            continue;
        }
        let t = if f.plan.dt_unknown {
            libc::DT_UNKNOWN
        } else {
            match f.inodes[*i] {
                Inode::Dir => libc::DT_DIR,
                Inode::File(_) => libc::DT_REG,
                Inode::Link(_) => libc::DT_LNK,
                Inode::Special => libc::DT_FIFO,
            }
        };
        v.push((rest.to_vec(), t, *i as u64 + 2));
    }
    v.push((b".".to_vec(), libc::DT_DIR, 1));
    v.push((b"..".to_vec(), libc::DT_DIR, 1));
    if f.plan.dir_order != 0 {
        let mut r = super::rng::Rng::new(super::rng::hash_bytes(f.plan.dir_order, p));
        r.shuffle(&mut v);
    }
    v
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        let r = gate(Op::OpenDir, &np).and_then(|_| {
            let f = fs();
            let (rp, i) = f.resolve(&np, true)?;
            if !matches!(f.inodes[i], Inode::Dir) {
                return Err(libc::ENOTDIR);
            }
            let fd = f.alloc_fd(Fd { ino: i, pos: 0, append: false, write: false, read: false, path: rp.clone(), pending: None, is_dir: true })?;
            f.logop(format!("OpenDir {} -> {fd}", bstr::enc(&np)));
            let entries = list_dir(&rp);
            Ok(Box::into_raw(Box::new(SimDir { fd, path: rp, entries, next: 0, ent: unsafe { std::mem::zeroed() } })))
        });
        return match r {
            Ok(d) => d as *mut libc::DIR,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    unsafe { (next!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR))(path) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if in_sim() {
        let _g = Internal::enter();
        let d = unsafe { &mut *(d as *mut SimDir) };
        if let Err(e) = gate(Op::ReadDir, &d.path) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        if d.next >= d.entries.len() {
            return std::ptr::null_mut();
        }
        let (n, t, i) = &d.entries[d.next];
        d.next += 1;
        d.ent.d_ino = *i;
        d.ent.d_type = *t;
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        d.ent.d_off = d.next as i64;
        for (k, b) in n.iter().enumerate() {
            d.ent.d_name[k] = *b as c_char;
        }
        d.ent.d_name[n.len()] = 0;
        return &mut d.ent;
    }
    unsafe { (next!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64))(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if in_sim() {
        let _g = Internal::enter();
        let b = unsafe { Box::from_raw(d as *mut SimDir) };
        fs().fds.remove(&b.fd);
        return 0;
    }
    unsafe { (next!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int))(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if in_sim() {
        return unsafe { (*(d as *mut SimDir)).fd };
    }
    unsafe { (next!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int))(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        let r = gate(Op::Mkdir, &np).and_then(|_| {
            let f = fs();
            if f.names.contains_key(&np) {
                return Err(libc::EEXIST);
            }
            f.parent_ok(&np)?;
            f.inodes.push(Inode::Dir);
            let i = f.inodes.len() - 1;
            f.names.insert(np.clone(), i);
            f.logop(format!("Mkdir {}", bstr::enc(&np)));
            Ok(0)
        });
        return out(r) as c_int;
    }
    ret(raw(libc::SYS_mkdir, [path as usize, mode as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        let r = gate(Op::Other, &np).and_then(|_| {
            let f = fs();
            match f.names.get(&np) {
                None => Err(libc::ENOENT),
                Some(i) if matches!(f.inodes[*i], Inode::Dir) => Err(libc::EISDIR),
                Some(i) => {
                    if let Inode::File(d) = &f.inodes[*i] {
                        f.used -= d.len() as u64;
                    }
                    f.names.remove(&np);
                    f.logop(format!("Unlink {}", bstr::enc(&np)));
                    Ok(0)
                }
            }
        });
        return out(r) as c_int;
    }
    ret(raw(libc::SYS_unlink, [path as usize, 0, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if our_fd(fd) {
        let _g = Internal::enter();
        let b = unsafe { std::slice::from_raw_parts(buf as *const u8, n) };
        let pos = fs().fds[&fd].pos;
        fs().fds.get_mut(&fd).unwrap().pos = off as usize;
        let r = do_write(fd, b);
        if let Some(h) = fs().fds.get_mut(&fd) {
            h.pos = pos;
        }
        return out(r.map(|x| x as isize));
    }
    ret(raw(libc::SYS_pwrite64, [fd as usize, buf as usize, n, off as usize, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        let r = gate(Op::Other, &np).and_then(|_| {
            let f = fs();
            match f.names.get(&np) {
                None => Err(libc::ENOENT),
                Some(i) if !matches!(f.inodes[*i], Inode::Dir) => Err(libc::ENOTDIR),
                Some(_) => {
                    let mut below = np.clone();
                    below.push(b'/');
                    if f.names.keys().any(|k| k.starts_with(&below)) {
                        return Err(libc::ENOTEMPTY);
                    }
                    f.names.remove(&np);
                    f.logop(format!("Rmdir {}", bstr::enc(&np)));
                    Ok(0)
                }
            }
        });
        return out(r) as c_int;
    }
    ret(raw(libc::SYS_rmdir, [path as usize, 0, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        return out(gate(Op::Stat, &np).and_then(|_| fs().resolve(&np, true)).map(|_| 0)) as c_int;
    }
    ret(raw(libc::SYS_access, [path as usize, mode as usize, 0, 0, 0, 0])) as c_int
}
/// copies inside the kernel are not offered: the caller falls back to read and write
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if our_fd(i) || our_fd(o) {
        set_errno(libc::EXDEV);
        return -1;
    }
    ret(raw(libc::SYS_copy_file_range, [i as usize, io as usize, o as usize, oo as usize, n, fl as usize]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if our_fd(i) || our_fd(o) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw(libc::SYS_sendfile, [o as usize, i as usize, off as usize, n, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn splice(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if our_fd(i) || our_fd(o) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw(libc::SYS_splice, [i as usize, io as usize, o as usize, oo as usize, n, fl as usize]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: libc::mode_t) -> c_int {
    if our_fd(fd) {
        return 0;
    }
    ret(raw(libc::SYS_fchmod, [fd as usize, mode as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: libc::mode_t) -> c_int {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        return out(gate(Op::Other, &np).and_then(|_| fs().resolve(&np, true)).map(|_| 0)) as c_int;
    }
    ret(raw(libc::SYS_chmod, [path as usize, mode as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let p = unsafe { cstr(a) };
    let q = unsafe { cstr(b) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        let nq = Fs::norm(q);
        let r = gate(Op::Other, &np).and_then(|_| {
            let f = fs();
            let i = *f.names.get(&np).ok_or(libc::ENOENT)?;
            f.parent_ok(&nq)?;
            if let Some(j) = f.names.get(&nq) {
                if let Inode::File(d) = &f.inodes[*j] {
                    f.used -= d.len() as u64;
                }
            }
            f.names.remove(&np);
            f.names.insert(nq.clone(), i);
            f.logop(format!("Rename {} {}", bstr::enc(&np), bstr::enc(&nq)));
            Ok(0)
        });
        return out(r) as c_int;
    }
    ret(raw(libc::SYS_rename, [a as usize, b as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if our_fd(fd) {
        let _g = Internal::enter();
        let f = fs();
        let i = f.fds[&fd].ino;
        if let Inode::File(d) = &mut f.inodes[i] {
            f.used = f.used - d.len() as u64 + len as u64;
            d.resize(len as usize, 0);
        }
        return 0;
    }
    ret(raw(libc::SYS_ftruncate, [fd as usize, len as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if our_fd(fd) {
        let _g = Internal::enter();
        let p = fs().fds[&fd].path.clone();
        return out(gate(Op::Other, &p).map(|_| 0)) as c_int;
    }
    ret(raw(libc::SYS_fsync, [fd as usize, 0, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if our_fd(fd) {
        return unsafe { fsync(fd) };
    }
    ret(raw(libc::SYS_fdatasync, [fd as usize, 0, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if our_fd(fd) {
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDWR,
            libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => {
                let _g = Internal::enter();
                let f = fs();
                let h = &f.fds[&fd];
                let n = Fd { ino: h.ino, pos: h.pos, append: h.append, write: h.write, read: h.read, path: h.path.clone(), pending: None, is_dir: h.is_dir };
                out(f.alloc_fd(n).map(|x| x as isize)) as c_int
            }
            _ => 0,
        };
    }
    ret(raw(libc::SYS_fcntl, [fd as usize, cmd as usize, arg, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    unsafe { fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(path: *const c_char, outb: *mut c_char) -> *mut c_char {
    let p = unsafe { cstr(path) };
    if ours(p) {
        let _g = Internal::enter();
        let np = Fs::norm(p);
        let r = gate(Op::Stat, &np).and_then(|_| fs().resolve(&np, true));
        return match r {
            Ok((rp, _)) => unsafe {
                let b = if outb.is_null() { libc::malloc(rp.len() + 1) as *mut c_char } else { outb };
                std::ptr::copy_nonoverlapping(rp.as_ptr() as *const c_char, b, rp.len());
                *b.add(rp.len()) = 0;
                b
            },
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    unsafe { (next!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char))(path, outb) }
}

// ---- time, randomness, threads ----
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if in_sim() {
        let sc = unsafe { &mut *sim().sched.get() };
        sc.now += 100;
        let mut ns = sc.now;
        if clk == libc::CLOCK_REALTIME {
            ns += 1_700_000_000_000_000_000;
        }
        unsafe {
            (*ts).tv_sec = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        }
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, [clk as usize, ts as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if in_sim() {
        let _g = Internal::enter();
        let t = unsafe { &*req };
        let ns = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
        let sc = unsafe { &mut *sim().sched.get() };
        delay(if flags & libc::TIMER_ABSTIME != 0 { ns.saturating_sub(sc.now) } else { ns });
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, [clk as usize, flags as usize, req as usize, rem as usize, 0, 0]) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if in_sim() {
        return unsafe { clock_nanosleep(libc::CLOCK_MONOTONIC, 0, req, rem) };
    }
    ret(raw(libc::SYS_nanosleep, [req as usize, rem as usize, 0, 0, 0, 0])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if super::active() {
        let _g = Internal::enter();
        let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
        let r = unsafe { &mut *sim().rand.get() };
        for x in b.iter_mut() {
            *x = r.next() as u8;
        }
        return n as ssize_t;
    }
    ret(raw(libc::SYS_getrandom, [buf as usize, n, flags as usize, 0, 0, 0]))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        let _g = Internal::enter();
        let sc = unsafe { &mut *sim().sched.get() };
        sc.now += 500;
        sched::preempt(true);
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, [0; 6])) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(num: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if num == libc::SYS_futex && in_sim() {
        let _g = Internal::enter();
        let op = b as c_int & 0x7f;
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let bits = if op == libc::FUTEX_WAIT { u32::MAX } else { f as u32 };
                let sc = unsafe { &mut *sim().sched.get() };
                let dl = if d == 0 {
                    None
                } else {
                    let t = unsafe { &*(d as *const libc::timespec) };
                    let ns = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
                    Some(if op == libc::FUTEX_WAIT {
                        sc.now + ns
                    } else if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 {
                        ns.saturating_sub(1_700_000_000_000_000_000)
                    } else {
                        ns
                    })
                };
                return ret(sched::futex_wait(a, c as u32, bits, dl) as isize) as c_long;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let bits = if op == libc::FUTEX_WAKE { u32::MAX } else { f as u32 };
                let n = sched::futex_wake(a, c as i32, bits);
                io_point();
                return n as c_long;
            }
            _ => {}
        }
    }
    if num == libc::SYS_getrandom && super::active() {
        return unsafe { getrandom(a as *mut c_void, b, c as c_uint) as c_long };
    }
    ret(raw(num, [a, b, c, d, e, f])) as c_long
}

extern "C" fn tramp(arg: *mut c_void) -> *mut c_void {
    let tid = arg as usize;
    super::thread_wait_first(tid);
    let (start, a) = unsafe { (&mut *sim().sched.get()).th[tid].start.take().unwrap() };
    let r = start(a as *mut c_void);
    let _g = Internal::enter();
    let sc = unsafe { &mut *sim().sched.get() };
    sc.th[tid].st = St::Finished;
    sc.th[tid].ret = r as usize;
    for t in &mut sc.th {
        if t.st == St::Join(tid) {
            t.st = St::Runnable;
        }
    }
    sched::block();
    unreachable!()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = next!(
        "pthread_create",
        unsafe extern "C" fn(
            *mut libc::pthread_t,
            *const libc::pthread_attr_t,
            extern "C" fn(*mut c_void) -> *mut c_void,
            *mut c_void,
        ) -> c_int
    );
    if in_sim() {
        let _g = Internal::enter();
        let sc = unsafe { &mut *sim().sched.get() };
        if sim().fail_threads.load(Ordering::Relaxed) > 0 && sc.th.len() >= sim().fail_threads.load(Ordering::Relaxed) {
            return libc::EAGAIN;
        }
        let tid = sc.new_thread();
        sc.th[tid].start = Some((start, arg as usize));
        let r = unsafe { real(t, attr, tramp, tid as *mut c_void) };
        if r != 0 {
            super::finish(super::End::Harness(format!("pthread_create {r}")));
        }
        sc.th[tid].pthread = unsafe { *t } as u64;
        sc.arm();
        io_point();
        return 0;
    }
    unsafe { real(t, attr, start, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, retv: *mut *mut c_void) -> c_int {
    if in_sim() {
        let _g = Internal::enter();
        let sc = unsafe { &mut *sim().sched.get() };
        let tid = match sc.th.iter().position(|x| x.pthread == t as u64) {
            Some(x) => x,
            None => return libc::ESRCH,
        };
        while sc.th[tid].st != St::Finished {
            let me = sc.cur;
            sc.th[me].st = St::Join(tid);
            sched::block();
        }
        if !retv.is_null() {
            unsafe { *retv = sc.th[tid].ret as *mut c_void };
        }
        return 0;
    }
    unsafe { (next!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int))(t, retv) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    if in_sim() {
        return 0;
    }
    unsafe { (next!("pthread_detach", unsafe extern "C" fn(libc::pthread_t) -> c_int))(t) }
}
