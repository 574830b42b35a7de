//! Running programs: processes, scratch directories, and file descriptors.

use std::collections::HashMap;
use std::ffi::{CString, OsStr};
use std::fs;
use std::io;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::{Check, Stop};

/// The group shared by all users.
pub const GID: u32 = 54000;

pub fn bin(name: &str) -> PathBuf {
    let dir = std::env::var_os("VERIF_BIN").unwrap_or_else(|| "/verif/target/repo/debug".into());
    Path::new(&dir).join(name)
}

fn cerr(what: &str) -> Stop {
    Stop::Error(format!("{}: {}", what, io::Error::last_os_error()))
}

// ---------------------------------------------------------------------------------------------
// Watchdog

struct Watch {
    deadlines: HashMap<i32, Instant>,
    expired: Vec<i32>,
}

static WATCH: Mutex<Option<Watch>> = Mutex::new(None);

fn watch(pid: i32, limit: Duration) {
    let mut w = WATCH.lock().unwrap();
    if w.is_none() {
        *w = Some(Watch {
            deadlines: HashMap::new(),
            expired: vec![],
        });
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut w = WATCH.lock().unwrap();
            let w = w.as_mut().unwrap();
            let now = Instant::now();
            let late: Vec<i32> = w
                .deadlines
                .iter()
                .filter(|(_, d)| **d < now)
                .map(|(p, _)| *p)
                .collect();
            for p in late {
                w.deadlines.remove(&p);
                w.expired.push(p);
                unsafe { libc::kill(p, libc::SIGKILL) };
            }
        });
    }
    w.as_mut()
        .unwrap()
        .deadlines
        .insert(pid, Instant::now() + limit);
}

/// Stop watching before the process is reaped; true if the time limit was exceeded.
fn unwatch(pid: i32) -> bool {
    let mut w = WATCH.lock().unwrap();
    if let Some(w) = w.as_mut() {
        w.deadlines.remove(&pid);
        if let Some(i) = w.expired.iter().position(|&p| p == pid) {
            w.expired.remove(i);
            return true;
        }
    }
    false
}

// ---------------------------------------------------------------------------------------------
// Processes

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// It was still running after a long time.
    Timeout,
}

impl Exit {
    pub fn from_status(st: i32) -> Exit {
        if libc::WIFEXITED(st) {
            Exit::Code(libc::WEXITSTATUS(st))
        } else {
            Exit::Signal(libc::WTERMSIG(st))
        }
    }
}

pub struct Spawn {
    pub argv: Vec<CString>,
    pub env: Vec<CString>,
    pub cwd: CString,
    pub uid: u32,
    pub umask: u32,
    pub fds: [i32; 3],
    pub trace: bool,
    pub setsid_tty: bool,
    pub limit: Duration,
    pub cpu: u64,
    /// Limits of memory and of open files.
    pub data: Option<u64>,
    pub nofile: Option<u64>,
}

pub fn cstr<S: AsRef<OsStr>>(s: S) -> CString {
    CString::new(s.as_ref().as_bytes()).expect("NUL in argument")
}

impl Spawn {
    pub fn new<S: AsRef<OsStr>>(argv: &[S], env: &[(&str, &OsStr)], cwd: &Path) -> Spawn {
        Spawn {
            argv: argv.iter().map(cstr).collect(),
            env: env
                .iter()
                .map(|(k, v)| {
                    let mut b = k.as_bytes().to_vec();
                    b.push(b'=');
                    b.extend_from_slice(v.as_bytes());
                    CString::new(b).expect("NUL in environment")
                })
                .collect(),
            cwd: cstr(cwd),
            uid: 65534,
            umask: 0o022,
            fds: [-1, -1, -1],
            trace: false,
            setsid_tty: false,
            limit: Duration::from_secs(120),
            cpu: 20,
            data: None,
            nofile: None,
        }
    }

    pub fn start(&self) -> Check<Child> {
        let mut argv: Vec<*const libc::c_char> = self.argv.iter().map(|s| s.as_ptr()).collect();
        argv.push(std::ptr::null());
        let mut env: Vec<*const libc::c_char> = self.env.iter().map(|s| s.as_ptr()).collect();
        env.push(std::ptr::null());
        let start = Start {
            spawn: self,
            argv: argv.as_ptr(),
            env: env.as_ptr(),
        };
        // Sharing memory until the program starts is much faster than copying page tables.
        let mut stack = vec![0u128; 4096];
        let starting = STARTING.read();
        let pid = unsafe {
            let mut all: libc::sigset_t = std::mem::zeroed();
            let mut old: libc::sigset_t = std::mem::zeroed();
            libc::sigfillset(&mut all);
            libc::pthread_sigmask(libc::SIG_SETMASK, &all, &mut old);
            let pid = libc::clone(
                started,
                stack.as_mut_ptr().add(stack.len()) as *mut _,
                libc::CLONE_VM | libc::CLONE_VFORK | libc::SIGCHLD,
                &start as *const Start as *mut _,
            );
            let e = cerr("clone");
            libc::pthread_sigmask(libc::SIG_SETMASK, &old, std::ptr::null_mut());
            if pid < 0 {
                return Err(e);
            }
            pid
        };
        drop(starting);
        drop(stack);
        watch(pid, self.limit);
        Ok(Child { pid, reaped: false })
    }
}

/// Held while there are processes which have not got as far as to start their program.
static STARTING: std::sync::RwLock<()> = std::sync::RwLock::new(());

/// Write files which are to be executed.
///
/// A process which is just being started could have inherited the open file, and a file which is
/// open for writing cannot be executed.
pub fn write_scripts(to: &[PathBuf], script: &str) -> Check {
    let none = STARTING.write();
    for p in to {
        fs::write(p, script)?;
        chmod(p, 0o755);
    }
    drop(none);
    Ok(())
}

struct Start<'a> {
    spawn: &'a Spawn,
    argv: *const *const libc::c_char,
    env: *const *const libc::c_char,
}

/// What the new process does until the program starts.  It shares its memory with this one, so
/// nothing but system calls; in particular not the library's setuid, which cares for all threads.
extern "C" fn started(start: *mut libc::c_void) -> libc::c_int {
    unsafe {
        let Start { spawn, argv, env } = &*(start as *const Start);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        for (i, &fd) in spawn.fds.iter().enumerate() {
            if fd >= 0 {
                if libc::dup2(fd, i as i32) < 0 {
                    libc::_exit(120);
                }
                if fd == i as i32 {
                    libc::fcntl(fd, libc::F_SETFD, 0);
                }
            }
        }
        // Everything else is closed on exec.
        if spawn.setsid_tty {
            libc::setsid();
            libc::ioctl(1, libc::TIOCSCTTY, 0);
        } else {
            libc::setpgid(0, 0);
        }
        let lim = |res, v: u64| {
            let l = libc::rlimit {
                rlim_cur: v,
                rlim_max: v,
            };
            libc::setrlimit(res, &l);
        };
        lim(libc::RLIMIT_CORE, 0);
        lim(libc::RLIMIT_CPU, spawn.cpu);
        lim(libc::RLIMIT_FSIZE, 512 << 20);
        if let Some(n) = spawn.nofile {
            lim(libc::RLIMIT_NOFILE, n);
        }
        libc::umask(spawn.umask as libc::mode_t);
        for sig in 1..32 {
            libc::signal(sig, libc::SIG_DFL);
        }
        let (uid, gid) = (spawn.uid, GID);
        if libc::syscall(libc::SYS_setgroups, 1usize, &gid as *const libc::gid_t) != 0
            || libc::syscall(libc::SYS_setresgid, gid, gid, gid) != 0
            || libc::syscall(libc::SYS_setresuid, uid, uid, uid) != 0
        {
            libc::_exit(121);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if libc::chdir(spawn.cwd.as_ptr()) != 0 {
            libc::_exit(122);
        }
        if spawn.trace && libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
            libc::_exit(123);
        }
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::pthread_sigmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
        if let Some(n) = spawn.data {
            lim(libc::RLIMIT_DATA, n);
        }
        libc::execve(**argv, *argv, *env);
        libc::_exit(124)
    }
}

pub struct Child {
    pub pid: i32,
    pub reaped: bool,
}

impl Child {
    pub fn wait(&mut self) -> Check<Exit> {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, libc::__WALL) };
            if r == self.pid {
                if libc::WIFSTOPPED(st) {
                    continue;
                }
                break;
            }
            let e = io::Error::last_os_error();
            if e.kind() != io::ErrorKind::Interrupted {
                return Err(Stop::Error(format!("waitpid: {}", e)));
            }
        }
        Ok(self.done(st))
    }

    /// The process has been reaped with this status.
    pub fn done(&mut self, st: i32) -> Exit {
        self.reaped = true;
        if unwatch(self.pid) {
            return Exit::Timeout;
        }
        Exit::from_status(st)
    }

    pub fn kill(&mut self) {
        if !self.reaped {
            unsafe { libc::kill(self.pid, libc::SIGKILL) };
            let _ = self.wait();
        }
    }
}

impl Drop for Child {
    fn drop(&mut self) {
        self.kill();
    }
}

/// Fail with an error, which makes the case inconclusive, for exits which are the harness's fault.
pub fn sane(exit: Exit) -> Check<Exit> {
    match exit {
        Exit::Timeout => Err(Stop::Error("time limit exceeded".into())),
        Exit::Code(c) if (120..=124).contains(&c) => {
            Err(Stop::Error(format!("could not start the program ({})", c)))
        }
        e => Ok(e),
    }
}

// ---------------------------------------------------------------------------------------------
// File descriptors

pub struct Fd(pub i32);

impl Drop for Fd {
    fn drop(&mut self) {
        unsafe { libc::close(self.0) };
    }
}

pub fn memfd(data: &[u8]) -> Check<Fd> {
    let name = CString::new("vh").unwrap();
    let fd = unsafe { libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC) };
    if fd < 0 {
        return Err(cerr("memfd_create"));
    }
    let fd = Fd(fd);
    let mut off = 0;
    while off < data.len() {
        let n = unsafe {
            libc::pwrite(
                fd.0,
                data[off..].as_ptr() as *const _,
                data.len() - off,
                off as i64,
            )
        };
        if n <= 0 {
            return Err(cerr("pwrite"));
        }
        off += n as usize;
    }
    Ok(fd)
}

pub fn read_memfd(fd: &Fd) -> Check<Vec<u8>> {
    unsafe {
        let len = libc::lseek(fd.0, 0, libc::SEEK_END);
        if len < 0 {
            return Err(cerr("lseek"));
        }
        let mut v = vec![0u8; len as usize];
        let mut off = 0;
        while off < v.len() {
            let n = libc::pread(
                fd.0,
                v[off..].as_mut_ptr() as *mut _,
                v.len() - off,
                off as i64,
            );
            if n <= 0 {
                return Err(cerr("pread"));
            }
            off += n as usize;
        }
        Ok(v)
    }
}

/// A pipe; both ends are closed on exec.
pub fn pipe() -> Check<(Fd, Fd)> {
    let mut p = [0; 2];
    if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        return Err(cerr("pipe"));
    }
    Ok((Fd(p[0]), Fd(p[1])))
}

pub fn socketpair() -> Check<(Fd, Fd)> {
    let mut p = [0; 2];
    let r = unsafe {
        libc::socketpair(
            libc::AF_UNIX,
            libc::SOCK_STREAM | libc::SOCK_CLOEXEC,
            0,
            p.as_mut_ptr(),
        )
    };
    if r != 0 {
        return Err(cerr("socketpair"));
    }
    Ok((Fd(p[0]), Fd(p[1])))
}

/// How many bytes can be read without waiting.
pub fn available(fd: &Fd) -> Check<usize> {
    let mut n: libc::c_int = 0;
    if unsafe { libc::ioctl(fd.0, libc::FIONREAD, &mut n) } != 0 {
        return Err(cerr("FIONREAD"));
    }
    Ok(n as usize)
}

pub fn write_all(fd: &Fd, data: &[u8]) -> Check {
    let mut off = 0;
    while off < data.len() {
        let n = unsafe {
            libc::write(
                fd.0,
                data[off..].as_ptr() as *const _,
                data.len() - off,
            )
        };
        if n <= 0 {
            return Err(cerr("write"));
        }
        off += n as usize;
    }
    Ok(())
}

pub fn open(path: &str) -> Check<Fd> {
    let p = CString::new(path).unwrap();
    let fd = unsafe { libc::open(p.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC) };
    if fd < 0 {
        return Err(cerr(path));
    }
    Ok(Fd(fd))
}

pub fn devnull() -> Check<Fd> {
    open("/dev/null")
}

/// Nothing can be written to the other end of this socket any more.
pub fn shutdown(fd: &Fd) {
    unsafe { libc::shutdown(fd.0, libc::SHUT_RDWR) };
}

// ---------------------------------------------------------------------------------------------
// Scratch directories

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

fn alive(pid: &str) -> bool {
    Path::new("/proc").join(pid).exists()
}

/// The scratch directory of this process, which all others are inside of.
pub fn scratch() -> PathBuf {
    let mut s = SCRATCH.lock().unwrap();
    if let Some(p) = s.as_ref() {
        return p.clone();
    }
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && fs::write(shm.join(".vh-probe"), b"").is_ok() {
        let _ = fs::remove_file(shm.join(".vh-probe"));
        shm
    } else {
        Path::new("/tmp")
    };
    // Remove what earlier runs which were killed have left behind.
    if let Ok(d) = fs::read_dir(base) {
        for e in d.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = name.strip_prefix("vh-") {
                if !pid.is_empty() && pid.bytes().all(|b| b.is_ascii_digit()) && !alive(pid) {
                    let _ = fs::remove_dir_all(e.path());
                }
            }
        }
    }
    let p = base.join(format!("vh-{}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).expect("scratch directory");
    chmod(&p, 0o755);
    *s = Some(p.clone());
    p
}

pub fn remove_scratch() {
    if let Some(p) = SCRATCH.lock().unwrap().take() {
        let _ = fs::remove_dir_all(&p);
    }
}

pub fn chmod(p: &Path, mode: u32) {
    use std::os::unix::fs::PermissionsExt;
    let _ = fs::set_permissions(p, fs::Permissions::from_mode(mode));
}

pub fn chown(p: &Path, uid: u32, gid: u32) -> Check {
    let c = cstr(p);
    if unsafe { libc::lchown(c.as_ptr(), uid, gid) } != 0 {
        return Err(cerr(&format!("chown {}", p.display())));
    }
    Ok(())
}

/// Give everything below a directory to a user.
pub fn chown_r(p: &Path, uid: u32, gid: u32) -> Check {
    chown(p, uid, gid)?;
    if fs::symlink_metadata(p)?.is_dir() {
        for e in fs::read_dir(p)? {
            chown_r(&e?.path(), uid, gid)?;
        }
    }
    Ok(())
}

pub fn copy_r(from: &Path, to: &Path) -> Check {
    use std::os::unix::fs::MetadataExt;
    let m = fs::symlink_metadata(from)?;
    if m.file_type().is_symlink() {
        std::os::unix::fs::symlink(fs::read_link(from)?, to)?;
    } else if m.is_dir() {
        fs::create_dir(to)?;
        for e in fs::read_dir(from)? {
            let e = e?;
            copy_r(&e.path(), &to.join(e.file_name()))?;
        }
        chown(to, m.uid(), m.gid())?;
        chmod(to, m.mode() & 0o7777);
        return Ok(());
    } else {
        fs::write(to, fs::read(from)?)?;
    }
    chown(to, m.uid(), m.gid())?;
    if !m.file_type().is_symlink() {
        chmod(to, m.mode() & 0o7777);
    }
    Ok(())
}

pub fn remove(p: &Path) {
    if fs::remove_dir_all(p).is_err() {
        let _ = fs::remove_file(p);
    }
}

/// The library which controls the clock.
pub fn shim() -> PathBuf {
    std::env::var_os("VERIF_SHIM")
        .unwrap_or_else(|| "/verif/target/shim.so".into())
        .into()
}
