//! Running a server under ptrace, one system call at a time.

use crate::sys::{self, Child, Exit, Spawn};
use std::collections::HashMap;
use std::path::{Component, Path, PathBuf};
use vcore::{Check, Stop};

/// A system call, with the files it refers to.
#[derive(Clone, Debug)]
pub struct Sys {
    pub nr: i64,
    pub args: [u64; 6],
    /// The files it names, made absolute, but not resolved.
    pub paths: Vec<PathBuf>,
    /// The descriptor it works on, if it works on one, and the file it was opened as.
    pub fd: Option<i32>,
    pub file: Option<PathBuf>,
}

#[derive(Debug)]
pub enum Ev {
    Enter(Sys),
    Leave(Sys, i64),
    Exit(Exit),
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Shape {
    /// A path.
    P,
    /// A directory descriptor and a path.
    A,
    /// Two paths.
    PP,
    /// Twice a descriptor and a path.
    AA,
    /// A path, which is relative to a descriptor, after something else.
    XA,
    /// Something and a path.
    XP,
    /// A descriptor.
    F,
    N,
}

fn shape(nr: i64) -> Shape {
    use libc::*;
    use Shape::*;
    match nr {
        SYS_open | SYS_creat | SYS_stat | SYS_lstat | SYS_access | SYS_truncate | SYS_chdir
        | SYS_mkdir | SYS_rmdir | SYS_unlink | SYS_readlink | SYS_chmod | SYS_chown
        | SYS_lchown | SYS_statfs | SYS_mknod | SYS_utime | SYS_utimes | SYS_execve
        | SYS_setxattr | SYS_lsetxattr | SYS_getxattr | SYS_lgetxattr | SYS_listxattr
        | SYS_llistxattr | SYS_removexattr | SYS_lremovexattr | SYS_chroot => P,
        SYS_openat | SYS_mkdirat | SYS_mknodat | SYS_fchownat | SYS_newfstatat | SYS_unlinkat
        | SYS_readlinkat | SYS_fchmodat | SYS_faccessat | SYS_statx | SYS_openat2
        | SYS_faccessat2 | 452 | SYS_utimensat | SYS_futimesat | SYS_execveat
        | SYS_name_to_handle_at => A,
        SYS_rename | SYS_link => PP,
        SYS_renameat | SYS_renameat2 | SYS_linkat => AA,
        SYS_symlinkat => XA,
        SYS_symlink => XP,
        SYS_read | SYS_write | SYS_close | SYS_fstat | SYS_lseek | SYS_pread64 | SYS_pwrite64
        | SYS_readv | SYS_writev | SYS_preadv | SYS_pwritev | SYS_preadv2 | SYS_pwritev2
        | SYS_ftruncate | SYS_fchmod | SYS_fchown | SYS_fsync | SYS_fdatasync
        | SYS_getdents | SYS_getdents64 | SYS_flock | SYS_fallocate | SYS_fchdir | SYS_fcntl
        | SYS_dup | SYS_dup2 | SYS_dup3 | SYS_ioctl | SYS_sync_file_range | SYS_fsetxattr
        | SYS_fgetxattr | SYS_fstatfs | SYS_fadvise64 | SYS_syncfs => F,
        _ => N,
    }
}

pub fn name(nr: i64) -> String {
    use libc::*;
    match nr {
        SYS_read => "read",
        SYS_write => "write",
        SYS_open => "open",
        SYS_openat => "openat",
        SYS_stat => "stat",
        SYS_lstat => "lstat",
        SYS_fstat => "fstat",
        SYS_statx => "statx",
        SYS_newfstatat => "newfstatat",
        SYS_rename => "rename",
        SYS_renameat | SYS_renameat2 => "renameat",
        SYS_link => "link",
        SYS_linkat => "linkat",
        SYS_unlink => "unlink",
        SYS_unlinkat => "unlinkat",
        SYS_mkdir => "mkdir",
        SYS_mkdirat => "mkdirat",
        SYS_chmod => "chmod",
        SYS_fchmod => "fchmod",
        SYS_fchmodat => "fchmodat",
        SYS_getdents64 => "getdents64",
        SYS_lseek => "lseek",
        SYS_ftruncate => "ftruncate",
        SYS_fsync => "fsync",
        SYS_fdatasync => "fdatasync",
        SYS_copy_file_range => "copy_file_range",
        SYS_getrandom => "getrandom",
        SYS_writev => "writev",
        SYS_close => "close",
        n => return format!("syscall {}", n),
    }
    .into()
}

impl Sys {
    pub fn name(&self) -> String {
        name(self.nr)
    }

    /// What it does, without anything which differs from run to run.
    pub fn brief(&self, w: &Path) -> String {
        let mut s = self.name();
        for p in self.paths.iter().chain(self.file.iter()) {
            s.push(' ');
            let p = p.strip_prefix(w).unwrap_or(p);
            s.push_str(&p.display().to_string());
        }
        if let (Some(fd), None) = (self.fd, &self.file) {
            s.push_str(&format!(" {}", fd));
        }
        s
    }

    pub fn under(&self, dir: &Path) -> bool {
        self.paths.iter().chain(self.file.iter()).any(|p| p.starts_with(dir))
    }

    pub fn reads_stdin(&self) -> bool {
        self.fd == Some(0)
            && matches!(
                self.nr,
                libc::SYS_read
                    | libc::SYS_readv
                    | libc::SYS_preadv2
                    | libc::SYS_recvfrom
                    | libc::SYS_ioctl
            )
    }

    pub fn writes_stdout(&self) -> bool {
        self.fd == Some(1) && matches!(self.nr, libc::SYS_write | libc::SYS_writev | libc::SYS_pwritev2)
    }

    pub fn is_open(&self) -> bool {
        matches!(
            self.nr,
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat | libc::SYS_openat2
        )
    }

    pub fn open_flags(&self) -> i32 {
        match self.nr {
            libc::SYS_open => self.args[1] as i32,
            libc::SYS_openat => self.args[2] as i32,
            libc::SYS_creat => libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC,
            _ => libc::O_RDWR | libc::O_CREAT,
        }
    }

    /// Whether it changes the contents of some file system.
    pub fn mutates(&self) -> bool {
        use libc::*;
        match self.nr {
            SYS_open | SYS_openat | SYS_creat | SYS_openat2 => {
                self.open_flags() & (O_CREAT | O_TRUNC) != 0
            }
            SYS_write | SYS_writev | SYS_pwrite64 | SYS_pwritev | SYS_pwritev2 => {
                self.fd.map_or(false, |f| f > 2)
            }
            SYS_rename | SYS_renameat | SYS_renameat2 | SYS_link | SYS_linkat | SYS_unlink
            | SYS_unlinkat | SYS_mkdir | SYS_mkdirat | SYS_rmdir | SYS_chmod | SYS_fchmod
            | SYS_fchmodat | 452 | SYS_chown | SYS_fchown | SYS_fchownat | SYS_lchown
            | SYS_truncate | SYS_ftruncate | SYS_symlink | SYS_symlinkat | SYS_mknod
            | SYS_mknodat | SYS_utimensat | SYS_copy_file_range | SYS_sendfile | SYS_splice
            | SYS_fallocate | SYS_setxattr | SYS_fsetxattr => true,
            _ => false,
        }
    }
}

/// Remove "." and ".." without looking at the file system.
pub fn normalize(p: &Path) -> PathBuf {
    let mut r = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => (),
            Component::ParentDir => {
                r.pop();
            }
            c => r.push(c),
        }
    }
    if r.as_os_str().is_empty() {
        r.push("/");
    }
    r
}

pub struct Tracee {
    pub child: Child,
    entered: Option<Sys>,
    fds: HashMap<i32, PathBuf>,
    cwd: PathBuf,
    /// Set to have the system call about to be carried out fail or return something instead.
    fake: Option<i64>,
    pub exited: Option<Exit>,
    signal: i32,
}

const OPTIONS: libc::c_long =
    (libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL) as libc::c_long;

fn perr(what: &str) -> Stop {
    Stop::Error(format!("{}: {}", what, std::io::Error::last_os_error()))
}

impl Tracee {
    pub fn start(mut s: Spawn) -> Check<Tracee> {
        s.trace = true;
        let cwd = PathBuf::from(s.cwd.to_string_lossy().into_owned());
        let child = s.start()?;
        let mut t = Tracee {
            child,
            entered: None,
            fds: HashMap::new(),
            cwd,
            fake: None,
            exited: None,
            signal: 0,
        };
        let mut st = 0;
        let r = unsafe { libc::waitpid(t.child.pid, &mut st, libc::__WALL) };
        if r != t.child.pid {
            return Err(perr("waitpid"));
        }
        if !libc::WIFSTOPPED(st) {
            let e = t.child.done(st);
            sys::sane(e)?;
            return Err(Stop::Error(format!("not traced: {:?}", e)));
        }
        if unsafe { libc::ptrace(libc::PTRACE_SETOPTIONS, t.child.pid, 0, OPTIONS) } != 0 {
            return Err(perr("PTRACE_SETOPTIONS"));
        }
        Ok(t)
    }

    fn regs(&self) -> Check<libc::user_regs_struct> {
        let mut r: libc::user_regs_struct = unsafe { std::mem::zeroed() };
        if unsafe { libc::ptrace(libc::PTRACE_GETREGS, self.child.pid, 0, &mut r) } != 0 {
            return Err(perr("PTRACE_GETREGS"));
        }
        Ok(r)
    }

    fn set_regs(&self, r: &libc::user_regs_struct) -> Check {
        if unsafe { libc::ptrace(libc::PTRACE_SETREGS, self.child.pid, 0, r) } != 0 {
            return Err(perr("PTRACE_SETREGS"));
        }
        Ok(())
    }

    /// A string of the process.
    fn string(&self, addr: u64) -> Vec<u8> {
        use std::os::unix::ffi::OsStrExt;
        let _ = std::ffi::OsStr::from_bytes(b"");
        let mut v = vec![];
        if addr == 0 {
            return v;
        }
        let mut a = addr & !7;
        let mut skip = (addr & 7) as usize;
        while v.len() < 5000 {
            unsafe { *libc::__errno_location() = 0 };
            let w = unsafe { libc::ptrace(libc::PTRACE_PEEKDATA, self.child.pid, a, 0) };
            if w == -1 && unsafe { *libc::__errno_location() } != 0 {
                break;
            }
            for &b in &w.to_ne_bytes()[skip..] {
                if b == 0 {
                    return v;
                }
                v.push(b);
            }
            skip = 0;
            a += 8;
        }
        v
    }

    fn path_at(&self, dirfd: i32, addr: u64) -> Option<PathBuf> {
        use std::os::unix::ffi::OsStringExt;
        let s = self.string(addr);
        let p = PathBuf::from(std::ffi::OsString::from_vec(s));
        let base = if dirfd == libc::AT_FDCWD {
            Some(self.cwd.clone())
        } else {
            self.fds.get(&dirfd).cloned()
        };
        if p.is_absolute() {
            Some(p)
        } else if p.as_os_str().is_empty() {
            // The descriptor itself, if it has AT_EMPTY_PATH.
            base
        } else {
            Some(base?.join(p))
        }
    }

    fn sys(&self, r: &libc::user_regs_struct) -> Sys {
        let args = [r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9];
        let nr = r.orig_rax as i64;
        let mut s = Sys {
            nr,
            args,
            paths: vec![],
            fd: None,
            file: None,
        };
        const CWD: i32 = libc::AT_FDCWD;
        let mut p: Vec<Option<PathBuf>> = vec![];
        match shape(nr) {
            Shape::P => p.push(self.path_at(CWD, args[0])),
            Shape::A => p.push(self.path_at(args[0] as i32, args[1])),
            Shape::PP => {
                p.push(self.path_at(CWD, args[0]));
                p.push(self.path_at(CWD, args[1]));
            }
            Shape::AA => {
                p.push(self.path_at(args[0] as i32, args[1]));
                p.push(self.path_at(args[2] as i32, args[3]));
            }
            Shape::XA => p.push(self.path_at(args[1] as i32, args[2])),
            Shape::XP => p.push(self.path_at(CWD, args[1])),
            Shape::F => {
                s.fd = Some(args[0] as i32);
                s.file = self.fds.get(&(args[0] as i32)).cloned();
            }
            Shape::N => match nr {
                // From one descriptor to another.
                libc::SYS_copy_file_range | libc::SYS_splice => {
                    s.fd = Some(args[2] as i32);
                    s.file = self.fds.get(&(args[2] as i32)).cloned();
                }
                libc::SYS_sendfile => {
                    s.fd = Some(args[0] as i32);
                    s.file = self.fds.get(&(args[0] as i32)).cloned();
                }
                _ => (),
            },
        }
        s.paths = p.into_iter().flatten().collect();
        s
    }

    /// Continue up to the beginning or end of a system call, or the end of the process.
    pub fn next(&mut self) -> Check<Ev> {
        if let Some(e) = self.exited {
            return Ok(Ev::Exit(e));
        }
        loop {
            let sig = std::mem::take(&mut self.signal);
            let r = unsafe {
                libc::ptrace(
                    libc::PTRACE_SYSCALL,
                    self.child.pid,
                    0,
                    sig as libc::c_long,
                )
            };
            if r != 0 {
                // It may just have been killed, so see.
                let e = std::io::Error::last_os_error();
                if e.raw_os_error() != Some(libc::ESRCH) {
                    return Err(Stop::Error(format!("PTRACE_SYSCALL: {}", e)));
                }
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(self.child.pid, &mut st, libc::__WALL) };
            if r != self.child.pid {
                return Err(perr("waitpid"));
            }
            if !libc::WIFSTOPPED(st) {
                let e = sys::sane(self.child.done(st))?;
                self.exited = Some(e);
                return Ok(Ev::Exit(e));
            }
            let sig = libc::WSTOPSIG(st);
            if sig != libc::SIGTRAP | 0x80 {
                if st >> 16 == 0 {
                    self.signal = sig;
                }
                continue;
            }
            let mut regs = self.regs()?;
            match self.entered.take() {
                None => {
                    let s = self.sys(&regs);
                    self.entered = Some(s.clone());
                    return Ok(Ev::Enter(s));
                }
                Some(s) => {
                    if let Some(v) = self.fake.take() {
                        regs.rax = v as u64;
                        self.set_regs(&regs)?;
                    }
                    let ret = regs.rax as i64;
                    if ret >= 0 {
                        match s.nr {
                            libc::SYS_open | libc::SYS_openat | libc::SYS_creat
                            | libc::SYS_openat2 => {
                                if let Some(p) = s.paths.first() {
                                    self.fds.insert(ret as i32, p.clone());
                                }
                            }
                            libc::SYS_close => {
                                self.fds.remove(&(s.args[0] as i32));
                            }
                            libc::SYS_dup | libc::SYS_dup2 | libc::SYS_dup3 => {
                                if let Some(p) = s.file.clone() {
                                    self.fds.insert(ret as i32, p);
                                }
                            }
                            libc::SYS_fcntl
                                if s.args[1] as i32 == libc::F_DUPFD_CLOEXEC
                                    || s.args[1] as i32 == libc::F_DUPFD =>
                            {
                                if let Some(p) = s.file.clone() {
                                    self.fds.insert(ret as i32, p);
                                }
                            }
                            libc::SYS_chdir => {
                                if let Some(p) = s.paths.first() {
                                    self.cwd = p.clone();
                                }
                            }
                            _ => (),
                        }
                    }
                    return Ok(Ev::Leave(s, ret));
                }
            }
        }
    }

    /// The system call which has just been entered is not carried out, and returns this.
    pub fn pretend(&mut self, ret: i64) -> Check {
        let mut r = self.regs()?;
        r.orig_rax = u64::MAX;
        self.set_regs(&r)?;
        self.fake = Some(ret);
        Ok(())
    }

    /// Change the third argument, which is the length of a read or write.
    pub fn set_len(&mut self, len: u64) -> Check {
        let mut r = self.regs()?;
        r.rdx = len;
        self.set_regs(&r)
    }

    /// Finish the system call which has just been entered.
    pub fn leave(&mut self) -> Check<i64> {
        match self.next()? {
            Ev::Leave(_, r) => Ok(r),
            Ev::Exit(_) => Ok(0),
            Ev::Enter(_) => Err(Stop::Error("unexpected system call".into())),
        }
    }

    pub fn kill(&mut self) {
        self.child.kill();
        self.exited = Some(Exit::Signal(libc::SIGKILL));
    }

    /// Let it run on its own from the end of a system call on.
    pub fn detach(&mut self) -> Check<Exit> {
        if let Some(e) = self.exited {
            return Ok(e);
        }
        let r = unsafe { libc::ptrace(libc::PTRACE_DETACH, self.child.pid, 0, 0) };
        if r != 0 {
            return Err(perr("PTRACE_DETACH"));
        }
        let e = sys::sane(self.child.wait()?)?;
        self.exited = Some(e);
        Ok(e)
    }

    /// Run to the end.
    pub fn finish(&mut self) -> Check<Exit> {
        loop {
            if let Ev::Exit(e) = self.next()? {
                return Ok(e);
            }
        }
    }
}
