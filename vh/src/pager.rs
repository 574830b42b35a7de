//! git recent-refs on a terminal: P25.

use crate::repo::{self, GitRepo, EMPTY_TREE};
use crate::store::Ctx;
use crate::sys::{self, Exit, Fd};
use std::collections::BTreeMap;
use std::ffi::{CString, OsString};
use std::fs;
use std::io;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vcore::{ensure, Check, Outcome, Prop, Src, Stop, B};

/// How a pager is asked for.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Value {
    Empty,
    Cat,
    /// A program in the search path, with a name of its own.
    Name,
    /// With arguments, for the shell to understand.
    Arguments,
    Pipeline,
    Variable,
    Compound,
    /// So that nobody else holds the pipe.
    Exec,
    FullPath,
    /// In the home directory, starting with a tilde.
    Home,
    /// The same in another user's home directory.
    User,
    /// With bytes which are not UTF-8.
    Bytes,
    /// /bin/cat, which is a pager like any other.
    FullCat,
    Less,
    Missing,
}

/// What the pager does.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Manner {
    /// Read everything, and go on for a while.
    All,
    /// Start reading late.
    Late,
    /// Read so many bytes, close standard input, and go on for a while.
    Some(u32),
    /// Read so many bytes and end.
    Quit(u32),
    /// Read nothing at all.
    None,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Stdout {
    Terminal,
    Pipe,
    File,
    Null,
}

#[derive(Debug)]
pub struct Paged {
    git_pager: Option<Value>,
    core_global: Option<Value>,
    core_local: Option<Value>,
    pager: Option<Value>,
    manner: Manner,
    /// Its exit status.
    status: u8,
    stdout: Stdout,
    /// Whether these are the terminal, too.
    stdin: bool,
    stderr: bool,
    refs: usize,
    name_len: usize,
    sort: &'static str,
    /// Control-C is pressed while the pager runs.  (Control-\ would also end the shell which runs
    /// the pager, so that there is no way to wait.)
    interrupt: bool,
    /// It is run in a directory below, or a linked working tree.
    place: u8,
    /// There is no repository.
    nowhere: bool,
    /// There is no shell to run a pager.
    bare: bool,
    home: &'static str,
}

fn value(s: &mut Src) -> Value {
    *s.pick(&[
        Value::Name,
        Value::Empty,
        Value::Cat,
        Value::Name,
        Value::Arguments,
        Value::Pipeline,
        Value::Variable,
        Value::Compound,
        Value::Exec,
        Value::Exec,
        Value::FullPath,
        Value::Home,
        Value::User,
        Value::Bytes,
        Value::FullCat,
        Value::Less,
        Value::Missing,
    ])
}

/// Where the output of pagers goes.
struct Places {
    bin: PathBuf,
    home: PathBuf,
    log: PathBuf,
    /// A user and where the home directory is.
    user: (String, String),
}

/// Some user who has a home directory which everyone can get at.
fn user() -> (String, String) {
    let t = fs::read_to_string("/etc/passwd").unwrap_or_default();
    for l in t.lines() {
        let f: Vec<&str> = l.split(':').collect();
        if f.len() == 7 && ["/usr/sbin", "/bin", "/usr/bin", "/dev"].contains(&f[5]) {
            // Not through a link.
            if let Ok(p) = fs::canonicalize(f[5]) {
                return (f[0].into(), p.to_string_lossy().into());
            }
        }
    }
    ("".into(), "".into())
}

impl Places {
    /// The command, and the name of the pager it runs, if any.
    fn command(&self, v: Value, from: &str) -> (Vec<u8>, Option<String>) {
        let own = Some(from.to_string());
        let mut c: Vec<u8> = vec![];
        let name = match v {
            Value::Empty => None,
            Value::Cat => {
                c.extend_from_slice(b"cat");
                None
            }
            Value::Name => {
                c.extend(format!("p-{}", from).bytes());
                own
            }
            Value::Arguments => {
                c.extend(format!("p-{} -a \"b  c\" 'd;e' \\\"#", from).bytes());
                own
            }
            Value::Pipeline => {
                c.extend(format!("tr a a | p-{}", from).bytes());
                own
            }
            Value::Variable => {
                c.extend(format!("X=1 p-{} \u{e9}", from).bytes());
                own
            }
            Value::Compound => {
                c.extend(format!("(: ; p-{}) && : || true", from).bytes());
                own
            }
            Value::Exec => {
                c.extend(format!("exec p-{}", from).bytes());
                own
            }
            Value::FullPath => {
                c.extend(format!("{}/p-{}", self.bin.display(), from).bytes());
                own
            }
            Value::Home => {
                c.extend(format!("~/bin/p-{} x", from).bytes());
                own
            }
            Value::User => {
                // /usr/sbin or similar, which is where to start from.
                let (user, home) = &self.user;
                if !user.is_empty() {
                    c.extend(format!("~{}", user).bytes());
                }
                for _ in home.split('/').filter(|p| !p.is_empty()) {
                    c.extend_from_slice(b"/..");
                }
                c.extend(format!("{}/p-{}", self.bin.display(), from).bytes());
                own
            }
            Value::Bytes => {
                c.extend(format!("p-{} caf", from).bytes());
                c.extend_from_slice(b"\xe9 \xff");
                own
            }
            Value::FullCat => {
                c.extend_from_slice(b"/bin/cat");
                Some("/bin/cat".into())
            }
            Value::Less => {
                c.extend_from_slice(b"less");
                Some("less".into())
            }
            Value::Missing => {
                c.extend_from_slice(b"no-such-pager-anywhere");
                Some("missing".into())
            }
        };
        (c, name)
    }
}

fn quoted(v: &[u8]) -> Vec<u8> {
    let mut q = vec![b'"'];
    for &b in v {
        if b == b'"' || b == b'\\' {
            q.push(b'\\');
        }
        q.push(b);
    }
    q.push(b'"');
    q
}

/// A terminal which does not change what is written to it.
struct Terminal {
    master: Fd,
    slave: Option<Fd>,
}

fn last(what: &str) -> Stop {
    Stop::Error(format!("{}: {}", what, io::Error::last_os_error()))
}

impl Terminal {
    fn new() -> Check<Terminal> {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if m < 0 {
                return Err(last("posix_openpt"));
            }
            let master = Fd(m);
            if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 {
                return Err(last("unlockpt"));
            }
            let mut name = [0 as libc::c_char; 64];
            if libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
                return Err(last("ptsname"));
            }
            let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if s < 0 {
                return Err(last("terminal"));
            }
            let slave = Fd(s);
            let mut t: libc::termios = std::mem::zeroed();
            if libc::tcgetattr(s, &mut t) != 0 {
                return Err(last("tcgetattr"));
            }
            libc::cfmakeraw(&mut t);
            t.c_lflag |= libc::ISIG;
            if libc::tcsetattr(s, libc::TCSANOW, &t) != 0 {
                return Err(last("tcsetattr"));
            }
            Ok(Terminal {
                master,
                slave: Some(slave),
            })
        }
    }
}

/// Read until there is nobody left who could write.
fn reader(fd: i32) -> (Arc<Mutex<Vec<u8>>>, std::thread::JoinHandle<()>) {
    let v = Arc::new(Mutex::new(vec![]));
    let w = v.clone();
    let t = std::thread::spawn(move || {
        let mut buf = [0u8; 65536];
        loop {
            let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n > 0 {
                w.lock().unwrap().extend_from_slice(&buf[..n as usize]);
            } else if n < 0 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
                continue;
            } else {
                return;
            }
        }
    });
    (v, t)
}

/// Whether a process has ended, without forgetting about it.
fn ended(pid: i32) -> bool {
    unsafe {
        let mut i: libc::siginfo_t = std::mem::zeroed();
        libc::waitid(
            libc::P_PID,
            pid as u32,
            &mut i,
            libc::WEXITED | libc::WNOHANG | libc::WNOWAIT,
        );
        i.si_pid() == pid
    }
}

fn until(limit: Duration, mut what: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + limit;
    loop {
        if what() {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

pub struct Pager;

impl Prop for Pager {
    type Case = Paged;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P25"
    }
    fn rule(&self) -> &'static str {
        "output is a terminal, at least two of GIT_PAGER, core.pager and PAGER are set or less is used, and there is some output"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            120_000
        } else {
            7_500
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Paged {
        let opt = |s: &mut Src| if s.chance(1, 2) { Some(value(s)) } else { None };
        let git_pager = opt(s);
        let core_global = if s.chance(1, 3) { Some(value(s)) } else { None };
        let core_local = opt(s);
        let pager = opt(s);
        let limit = |s: &mut Src| s.size(100_000) as u32;
        let manner = match s.weighted(&[6, 2, 2, 1, 1]) {
            0 => Manner::All,
            1 => Manner::Late,
            2 => Manner::Some(limit(s)),
            3 => Manner::Quit(limit(s)),
            _ => Manner::None,
        };
        let name_len = s.usize(1, 180);
        let refs = match s.weighted(&[2, 6, 4]) {
            0 => 0,
            1 => s.usize(1, 20),
            // More than fits into a pipe.
            _ => s.usize(1, 200_000 / (name_len + 20)).min(3000),
        };
        Paged {
            git_pager,
            core_global,
            core_local,
            pager,
            manner,
            status: if s.chance(1, 3) { s.range(1, 255) as u8 } else { 0 },
            stdout: match s.weighted(&[12, 1, 1, 1]) {
                0 => Stdout::Terminal,
                1 => Stdout::Pipe,
                2 => Stdout::File,
                _ => Stdout::Null,
            },
            stdin: s.chance(1, 2),
            stderr: s.chance(1, 2),
            refs,
            name_len,
            sort: s.pick(&["--sort=committerdate", "--sort=authordate", "--sort=visitdate", ""]),
            interrupt: s.chance(1, 4),
            place: s.below(3) as u8,
            nowhere: s.chance(1, 40),
            bare: s.chance(1, 40),
            home: s.pick(&["home", "ho  me", "h;*'\"$HOME\\"]),
        }
    }
    fn check(&self, case: &Paged, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let r = GitRepo::new(ctx, "g", false)?;
        let commit = repo::Commit {
            parents: vec![],
            time: 1_700_000_000,
            zone: "+0000",
            author_time: 1_700_000_000,
            author_zone: "+0000",
            message: "x\n".into(),
            headers: "".into(),
            who: "A U Thor <a@example.com>".into(),
        };
        let id = r.object("commit", &commit.encode(&[], EMPTY_TREE))?;
        let mut packed = BTreeMap::new();
        for i in 0..case.refs {
            packed.insert(
                format!("refs/heads/{:05}{}", i, "n".repeat(case.name_len)),
                (id.clone(), None),
            );
        }
        r.packed(&packed)?;
        if case.refs > 0 {
            // What was visited.
            let mut v = String::new();
            for (i, n) in packed.keys().enumerate() {
                v.push_str(&format!(
                    "{} {} A <a@example.com> {} +0000\tcheckout: moving from {} to main\n",
                    id,
                    id,
                    1_700_000_000 + i,
                    &n["refs/heads/".len()..]
                ));
            }
            r.file("logs/HEAD", v.as_bytes())?;
            r.set_ref("refs/heads/main", &id)?;
        }
        let p = Places {
            bin: r.top.join("bin"),
            home: r.top.join(case.home),
            log: r.top.join("log"),
            user: user(),
        };
        for d in [&p.bin, &p.home, &p.log] {
            fs::create_dir(d)?;
        }
        fs::create_dir(p.home.join("bin"))?;
        let log = p.log.display();
        let read = match case.manner {
            Manner::All => format!("cat >{log}/data"),
            Manner::Late => format!("until [ -e {log}/start ]; do sleep 0.005; done; cat >{log}/data"),
            Manner::Some(n) | Manner::Quit(n) => {
                format!("dd bs=1024 iflag=fullblock,count_bytes count={n} of={log}/data 2>/dev/null; exec </dev/null")
            }
            Manner::None => format!(": >{log}/data; exec </dev/null"),
        };
        let wait = match case.manner {
            Manner::Quit(_) => String::new(),
            // If something goes wrong, it is not to go on forever.
            _ => format!("n=0; until [ -e {log}/go ] || [ $n = 2000 ]; do sleep 0.005; n=$((n+1)); done"),
        };
        let script = format!(
            "#!/bin/sh\ntrap '' INT QUIT HUP\necho \"${{0##*/}}\" >>{log}/who\n: >{log}/began\n{read}\n: >{log}/ready\n{wait}\necho shown\n: >{log}/end\nexit {}\n",
            case.status
        );
        let names = ["git", "core", "core2", "pager"];
        let mut scripts = vec![];
        for n in names.iter().map(|n| format!("p-{}", n)).chain(["less".to_string()]) {
            for d in [p.bin.clone(), p.home.join("bin")] {
                scripts.push(d.join(&n));
            }
        }
        sys::write_scripts(&scripts, &script)?;
        // The configuration.
        let mut chosen: Option<Option<String>> = None;
        let mut pick = |x: Option<String>| {
            chosen.get_or_insert(x);
        };
        let mut env: Vec<(&str, OsString)> = vec![];
        if let Some(v) = case.git_pager {
            let (c, n) = p.command(v, names[0]);
            env.push(("GIT_PAGER", OsString::from_vec(c)));
            pick(n);
        }
        if let Some(v) = case.core_local {
            let (c, n) = p.command(v, names[1]);
            let mut t = fs::read(r.git.join("config"))?;
            t.extend_from_slice(b"[core]\n\tpager = ");
            t.extend(quoted(&c));
            t.push(b'\n');
            r.file("config", &t)?;
            pick(n);
        }
        if let Some(v) = case.core_global {
            let (c, n) = p.command(v, names[2]);
            let mut t = b"[core]\n\tpager = ".to_vec();
            t.extend(quoted(&c));
            t.push(b'\n');
            fs::write(p.home.join(".gitconfig"), t)?;
            pick(n);
        }
        if let Some(v) = case.pager {
            let (c, n) = p.command(v, names[3]);
            env.push(("PAGER", OsString::from_vec(c)));
            pick(n);
        }
        pick(Some("less".into()));
        let mut cwd = r.work.clone();
        match case.place {
            0 => {}
            1 => {
                cwd = cwd.join("sub");
                fs::create_dir(&cwd)?;
            }
            _ => cwd = r.git.clone(),
        }
        if case.nowhere {
            cwd = r.top.clone();
        }
        sys::chown_r(&r.top, r.uid, sys::GID)?;
        // What is to be printed.
        let prog = sys::bin("git-recent-refs");
        let mut argv = vec![prog.into_os_string()];
        if !case.sort.is_empty() {
            argv.push(case.sort.into());
        }
        let want = repo::run(&mut r.spawn(&argv, &cwd))?;
        ensure!(
            want.exit == Exit::Code(if case.nowhere { 4 } else { 0 }),
            "git recent-refs {} fails: {:?}",
            case.sort,
            want
        );
        let pager = match case.stdout {
            Stdout::Terminal if !case.nowhere => chosen.unwrap_or(None),
            _ => None,
        };
        // Run it.
        let mut s = r.spawn(&argv, &cwd);
        s.env.retain(|e| !e.as_bytes().starts_with(b"PATH=") && !e.as_bytes().starts_with(b"HOME="));
        let var = |k: &str, v: OsString| {
            let mut b = format!("{}=", k).into_bytes();
            b.extend(v.into_vec());
            CString::new(b).unwrap()
        };
        let mut path = p.bin.clone().into_os_string();
        if !case.bare {
            path.push(":/usr/bin:/bin");
        }
        s.env.push(var("PATH", path));
        s.env.push(var("HOME", p.home.clone().into()));
        for (k, v) in env {
            s.env.push(var(k, v));
        }
        let mut term = Terminal::new()?;
        let tty = term.slave.as_ref().map(|f| f.0).unwrap_or(-1);
        let null = sys::devnull()?;
        let file = sys::memfd(b"")?;
        let err = sys::memfd(b"")?;
        let (pr, pw) = sys::pipe()?;
        s.fds = [
            if case.stdin { tty } else { null.0 },
            match case.stdout {
                Stdout::Terminal => tty,
                Stdout::Pipe => pw.0,
                Stdout::File => file.0,
                Stdout::Null => null.0,
            },
            if case.stderr { tty } else { err.0 },
        ];
        s.setsid_tty = true;
        let (seen, t1) = reader(term.master.0);
        let (piped, t2) = reader(pr.0);
        let scripted = !case.bare && matches!(&pager, Some(n) if n != "/bin/cat" && n != "missing");
        if !scripted {
            // Should a pager be started nevertheless, it is not to wait for us.
            fs::write(p.log.join("start"), b"")?;
            fs::write(p.log.join("go"), b"")?;
        }
        let mut child = s.start()?;
        term.slave = None;
        drop(pw);
        let has = |n: &str| p.log.join(n).exists();
        let long = Duration::from_secs(60);
        let pid = child.pid;
        // The program must have got as far as to wait for the pager.
        let interrupt = case.interrupt && matches!(case.manner, Manner::All | Manner::Late);
        let mut early = false;
        let mut problem = None;
        if scripted {
            // It may also end because it has got something to say about the pager.
            until(long, || has("began") || ended(pid));
            if case.manner == Manner::Late {
                std::thread::sleep(Duration::from_millis(5));
                early = ended(pid);
                fs::write(p.log.join("start"), b"")?;
            }
            if !matches!(case.manner, Manner::Quit(_)) {
                until(long, || has("ready") || (ended(pid) && !has("began")));
                if interrupt {
                    sys::write_all(&term.master, &[3])?;
                }
                early |= until(Duration::from_millis(15), || ended(pid));
                fs::write(p.log.join("go"), b"")?;
            }
        }
        let exit = sys::sane(child.wait()?)?;
        let finished = has("end");
        if scripted {
            // Let it finish, even if it should have finished before.
            until(long, || has("end") || !has("began"));
        }
        let _ = t1.join();
        let _ = t2.join();
        let shown = B(seen.lock().unwrap().clone());
        let got = match case.stdout {
            Stdout::Terminal | Stdout::Null => B(vec![]),
            Stdout::Pipe => B(piped.lock().unwrap().clone()),
            Stdout::File => B(sys::read_memfd(&file)?),
        };
        let errors = B(sys::read_memfd(&err)?);
        let who: Vec<String> = fs::read_to_string(p.log.join("who"))
            .unwrap_or_default()
            .lines()
            .map(|l| l.to_string())
            .collect();
        let data = fs::read(p.log.join("data")).unwrap_or_default();
        let what = format!(
            "git recent-refs with GIT_PAGER {:?}, core.pager {:?} (globally {:?}) and PAGER {:?}, printing {} bytes to {:?}",
            case.git_pager, case.core_local, case.core_global, case.pager, want.out.len(), case.stdout
        );
        let text = |b: &[u8]| format!("{} bytes ({:?}...)", b.len(), B(b[..b.len().min(200)].to_vec()));
        match &pager {
            Some(_) if case.bare => {
                // One may be found elsewhere than in PATH, where it finds nothing, however.
                let missing = errors.0.windows(9).any(|w| w == b"not found")
                    || shown.0.windows(9).any(|w| w == b"not found");
                let good = match exit {
                    Exit::Code(0) if missing => true,
                    Exit::Code(0) => !who.is_empty() || case.stderr || shown == want.out,
                    Exit::Code(c) => c != 101,
                    _ => false,
                };
                ensure!(
                    good,
                    "{}, without a shell: ended with {:?}, printed {}, and said {:?}",
                    what,
                    exit,
                    text(&shown),
                    errors
                );
                out.class("no shell");
            }
            None => {
                ensure!(who.is_empty(), "{}: started the pager {:?}", what, who);
                let direct = match case.stdout {
                    Stdout::Terminal => {
                        let mut w = want.out.0.clone();
                        if case.stderr {
                            // It says nothing unless there is nothing to print.
                            w.extend_from_slice(&want.err);
                        }
                        B(w)
                    }
                    _ => want.out.clone(),
                };
                let printed = if case.stdout == Stdout::Terminal { &shown } else { &got };
                ensure!(
                    *printed == direct || case.stdout == Stdout::Null,
                    "{}: printed {} instead of {}",
                    what,
                    text(printed),
                    text(&direct)
                );
                if case.stdout != Stdout::Terminal {
                    let e = if case.stderr { &shown } else { &errors };
                    ensure!(*e == want.err, "{}: said {:?} instead of {:?}", what, e, want.err);
                }
                ensure!(exit == want.exit, "{}: ended with {:?} instead of {:?}", what, exit, want.exit);
                out.class(format!("no pager, {:?}", case.stdout));
            }
            Some(n) if n == "/bin/cat" => {
                ensure!(who.is_empty(), "{}: started the pager {:?}", what, who);
                ensure!(
                    shown == want.out,
                    "{}: {} appeared on the terminal instead of {}",
                    what,
                    text(&shown),
                    text(&want.out)
                );
                ensure!(exit == want.exit, "{}: ended with {:?} instead of {:?}", what, exit, want.exit);
                out.class("/bin/cat");
            }
            Some(n) if n == "missing" => {
                ensure!(who.is_empty(), "{}: started the pager {:?}", what, who);
                out.class("missing pager");
            }
            Some(n) => {
                let name = if n == "less" { n.clone() } else { format!("p-{}", n) };
                ensure!(
                    who == [name.clone()],
                    "{}: started {:?} instead of {:?}, and ended with {:?} saying {:?}",
                    what,
                    who,
                    name,
                    exit,
                    errors
                );
                let expected = match case.manner {
                    Manner::All | Manner::Late => &want.out[..],
                    Manner::Some(n) | Manner::Quit(n) => &want.out[..want.out.len().min(n as usize)],
                    Manner::None => &[],
                };
                ensure!(
                    data == expected,
                    "{}: the pager, which is like {:?}, got {} instead of {}",
                    what,
                    case.manner,
                    text(&data),
                    text(expected)
                );
                if early || !finished {
                    problem = Some(format!(
                        "{}: ended with {:?} before the pager, which is like {:?}{}, had finished",
                        what,
                        exit,
                        case.manner,
                        if interrupt { ", with Control-C pressed" } else { "" }
                    ));
                }
                ensure!(
                    shown.0 == b"shown\n",
                    "{}: {} appeared on the terminal instead of what the pager shows",
                    what,
                    text(&shown)
                );
                match case.manner {
                    Manner::All | Manner::Late => {
                        if problem.is_none() {
                            ensure!(
                                exit == want.exit,
                                "{}: ended with {:?} instead of {:?}",
                                what,
                                exit,
                                want.exit
                            );
                        }
                    }
                    _ => {}
                }
                out.class(format!("pager, {}", format!("{:?}", case.manner).split('(').next().unwrap_or("")));
                if interrupt {
                    out.class("Control-C pressed");
                }
                if want.out.len() > 65536 {
                    out.class("more than a pipe takes");
                }
            }
        }
        if let Some(p) = problem {
            return Err(Stop::Violation(p));
        }
        let set = case.git_pager.is_some() as u32
            + (case.core_local.is_some() || case.core_global.is_some()) as u32
            + case.pager.is_some() as u32;
        out.nontrivial = case.stdout == Stdout::Terminal && (set >= 2 || set == 0) && !want.out.is_empty();
        Ok(())
    }
}
