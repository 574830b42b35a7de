//! Repositories on disk, running the server on them, and looking at what is left.

use crate::proto::{self, Output};
use crate::sys::{self, Exit, Spawn};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use vcore::{violation, Check, B};

/// A user, by number.  Not all of them have names.
pub const NOBODY: u32 = 65534;
pub const USERS: [u32; 4] = [65534, 54321, 34, 54322];

pub fn user_name(uid: u32) -> String {
    static NAMES: std::sync::OnceLock<BTreeMap<u32, String>> = std::sync::OnceLock::new();
    let names = NAMES.get_or_init(|| {
        let mut m = BTreeMap::new();
        for l in fs::read_to_string("/etc/passwd").unwrap_or_default().lines() {
            let f: Vec<&str> = l.split(':').collect();
            if let Some(Ok(u)) = f.get(2).map(|u| u.parse()) {
                m.entry(u).or_insert_with(|| f[0].to_string());
            }
        }
        m
    });
    match names.get(&uid) {
        Some(n) => n.clone(),
        None => format!("uid {}", uid),
    }
}

/// A directory for one worker, with a home directory shared by all users.
pub struct Ctx {
    pub dir: PathBuf,
    pub home: PathBuf,
    names: Vec<String>,
}

impl Ctx {
    pub fn new(worker: usize) -> Ctx {
        let dir = sys::scratch().join(format!("w{}", worker));
        sys::remove(&dir);
        fs::create_dir_all(&dir).expect("worker directory");
        sys::chmod(&dir, 0o755);
        let home = dir.join("home");
        fs::create_dir(&home).expect("home");
        sys::chmod(&home, 0o755);
        Ctx {
            dir,
            home,
            names: vec![],
        }
    }

    /// A fresh directory, which replaces the one of the previous case.
    pub fn fresh(&mut self, name: &str) -> Check<PathBuf> {
        if !self.names.iter().any(|n| n == name) {
            // The libgit2 in use only knows exact paths, and Git knows this as well.
            self.names.push(name.into());
            let mut c = String::from("[user]\n\tname = A U Thor\n\temail = a@example.com\n[init]\n\tdefaultBranch = main\n[gc]\n\tauto = 0\n[advice]\n\tdetachedHead = false\n[safe]\n\tdirectory = *\n");
            for n in &self.names {
                let p = self.dir.join(n).join("repo");
                c.push_str(&format!("\tdirectory = {}\n", p.display()));
                c.push_str(&format!("\tdirectory = {}/.git\n", p.display()));
                c.push_str(&format!("\tdirectory = {}/linked\n", p.display()));
            }
            fs::write(self.home.join(".gitconfig"), c)?;
            sys::chmod(&self.home.join(".gitconfig"), 0o644);
        }
        let p = self.dir.join(name);
        sys::remove(&p);
        fs::create_dir(&p)?;
        sys::chmod(&p, 0o755);
        Ok(p)
    }
}

/// A bare repository with a Git LFS store.
#[derive(Clone)]
pub struct World {
    pub top: PathBuf,
    pub repo: PathBuf,
    pub lfs: PathBuf,
    pub home: PathBuf,
    pub owner: u32,
    /// How the repository is named, where the server runs, and additional variables.
    pub arg: OsString,
    pub cwd: PathBuf,
    pub env: Vec<(&'static str, OsString)>,
}

impl World {
    /// `shared` is the value of core.sharedRepository, and what makes the repository accessible to
    /// the group.
    pub fn new(ctx: &mut Ctx, name: &str, owner: u32, shared: Option<&str>) -> Check<World> {
        let top = ctx.fresh(name)?;
        Self::in_dir(&top, &ctx.home, owner, shared)
    }

    pub fn in_dir(top: &Path, home: &Path, owner: u32, shared: Option<&str>) -> Check<World> {
        let repo = top.join("repo");
        fs::create_dir(&repo)?;
        fs::write(repo.join("HEAD"), "ref: refs/heads/main\n")?;
        let mut config = String::from("[core]\n\trepositoryformatversion = 0\n\tbare = true\n");
        if let Some(s) = shared {
            config.push_str(&format!("\tsharedRepository = {}\n", s));
        }
        fs::write(repo.join("config"), config)?;
        fs::create_dir_all(repo.join("objects"))?;
        fs::create_dir_all(repo.join("refs/heads"))?;
        let w = World {
            top: top.into(),
            repo: repo.clone(),
            lfs: repo.join("lfs"),
            home: home.into(),
            owner,
            arg: repo.clone().into(),
            cwd: "/".into(),
            env: vec![],
        };
        sys::chown_r(&repo, owner, sys::GID)?;
        let mode = if shared.is_some() { 0o2775 } else { 0o755 };
        sys::chmod(&repo, mode);
        Ok(w)
    }

    /// A world in the same place whose repository is replaced by a copy of another one.
    pub fn copy_to(&self, ctx: &mut Ctx, name: &str) -> Check<World> {
        let top = ctx.fresh(name)?;
        sys::copy_r(&self.repo, &top.join("repo"))?;
        Ok(World {
            repo: top.join("repo"),
            lfs: top.join("repo/lfs"),
            arg: top.join("repo").into(),
            top,
            home: self.home.clone(),
            owner: self.owner,
            cwd: self.cwd.clone(),
            env: self.env.clone(),
        })
    }

    /// Create what the server would, as it would, so that it can be filled.
    pub fn init_lfs(&self, dir_mode: u32) -> Check {
        for d in ["", "objects", "incomplete", "tmp", "locks"] {
            self.mkdir(&self.lfs.join(d), dir_mode)?;
        }
        Ok(())
    }

    pub fn mkdir(&self, p: &Path, mode: u32) -> Check {
        if !p.exists() {
            fs::create_dir(p)?;
            sys::chown(p, self.owner, sys::GID)?;
            sys::chmod(p, mode);
        }
        Ok(())
    }

    pub fn object_path(&self, oid: &str) -> PathBuf {
        self.lfs
            .join("objects")
            .join(&oid[..2])
            .join(&oid[2..4])
            .join(oid)
    }

    /// Put an object into the store.
    pub fn add_object(&self, content: &[u8], dir_mode: u32) -> Check<String> {
        let oid = vcore::sha256::hex(content);
        let p = self.object_path(&oid);
        let d2 = p.parent().unwrap();
        self.mkdir(d2.parent().unwrap(), dir_mode)?;
        self.mkdir(d2, dir_mode)?;
        fs::write(&p, content)?;
        sys::chown(&p, self.owner, sys::GID)?;
        sys::chmod(&p, 0o644);
        Ok(oid)
    }

    /// Put a lock into the store.
    pub fn add_lock(&self, path: &[u8], time: i64, uid: u32) -> Check<String> {
        let id = proto::lock_id(path);
        let p = self.lfs.join("locks").join(&id);
        let mut d = format!("v1:{}:", time).into_bytes();
        d.extend_from_slice(path);
        fs::write(&p, d)?;
        sys::chown(&p, uid, sys::GID)?;
        sys::chmod(&p, 0o664);
        Ok(id)
    }

    pub fn spawn(&self, o: &Run) -> Spawn {
        let bin = sys::bin("git-lfs-transfer");
        let argv: Vec<&OsStr> = vec![
            bin.as_os_str(),
            self.arg.as_os_str(),
            OsStr::from_bytes(o.op.as_bytes()),
        ];
        let mut env: Vec<(&str, &OsStr)> = vec![
            ("HOME", self.home.as_os_str()),
            ("PATH", OsStr::new("/usr/bin:/bin")),
            ("LC_ALL", OsStr::new("C")),
            ("RUST_BACKTRACE", OsStr::new("0")),
        ];
        let (base, step);
        let shim = sys::shim();
        if let Some((b, s)) = o.clock {
            base = b.to_string();
            step = s.to_string();
            env.push(("LD_PRELOAD", shim.as_os_str()));
            env.push(("VH_CLOCK_BASE", OsStr::new(&base)));
            env.push(("VH_CLOCK_STEP", OsStr::new(&step)));
        }
        env.extend(self.env.iter().map(|(k, v)| (*k, v.as_os_str())));
        let mut s = Spawn::new(&argv, &env, &self.cwd);
        s.uid = o.uid;
        s.umask = o.umask;
        if let Some((data, files)) = o.limits {
            s.data = Some(data);
            s.nofile = Some(files);
        }
        s
    }

    /// Run a session with all of its input there from the beginning.
    pub fn run(&self, o: &Run, input: &[u8]) -> Check<Session> {
        let stdin = sys::memfd(input)?;
        let stdout = sys::memfd(b"")?;
        let stderr = sys::memfd(b"")?;
        let mut s = self.spawn(o);
        s.fds = [stdin.0, stdout.0, stderr.0];
        let mut c = s.start()?;
        let exit = sys::sane(c.wait()?)?;
        Ok(Session {
            exit,
            stdout: sys::read_memfd(&stdout)?,
            stderr: sys::read_memfd(&stderr)?,
        })
    }

    /// Run a session of well-framed requests which is expected to end in an orderly way.
    pub fn session(&self, o: &Run, requests: &[Vec<proto::Part>]) -> Check<Vec<proto::Resp>> {
        let mut input = vec![];
        for r in requests {
            input.extend(proto::encode(r));
        }
        let s = self.run(o, &input)?;
        s.complete(requests.len())
    }
}

#[derive(Clone, Debug)]
pub struct Run {
    pub op: String,
    pub uid: u32,
    pub umask: u32,
    /// The time of the first call, and by how much each call advances it, in seconds.
    pub clock: Option<(i64, i64)>,
    /// Limits of memory and of open files.
    pub limits: Option<(u64, u64)>,
}

impl Run {
    pub fn new(op: &str, uid: u32) -> Run {
        Run {
            op: op.into(),
            uid,
            umask: 0o022,
            clock: None,
            limits: None,
        }
    }
    pub fn upload() -> Run {
        Run::new("upload", NOBODY)
    }
    pub fn download() -> Run {
        Run::new("download", NOBODY)
    }
}

pub struct Session {
    pub exit: Exit,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Session {
    pub fn describe(&self) -> String {
        format!(
            "{:?}, stderr: {}",
            self.exit,
            String::from_utf8_lossy(&self.stderr[..self.stderr.len().min(600)])
        )
    }

    pub fn output(&self) -> Check<Output> {
        match proto::parse_output(&self.stdout) {
            Ok(o) => Ok(o),
            Err(e) => violation!("malformed output: {} ({})", e, self.describe()),
        }
    }

    /// The output has to be complete, with one response for each of `n` requests.
    pub fn complete(&self, n: usize) -> Check<Vec<proto::Resp>> {
        let o = self.output()?;
        if !o.greeting || o.rest != 0 || o.resps.len() != n || self.exit != Exit::Code(0) {
            violation!(
                "{} responses{} to {} requests: {}; {}",
                o.resps.len(),
                if o.rest != 0 {
                    format!(" and {} bytes of another one", o.rest)
                } else {
                    String::new()
                },
                n,
                self.describe(),
                o.resps
                    .iter()
                    .rev()
                    .take(5)
                    .rev()
                    .map(|r| r.brief())
                    .collect::<Vec<_>>()
                    .join("; ")
            );
        }
        Ok(o.resps)
    }
}

// ---------------------------------------------------------------------------------------------
// What is on disk

#[derive(Clone, PartialEq, Eq)]
pub enum Kind {
    Dir,
    File(B),
    Link(PathBuf),
    Other,
}

#[derive(Clone, PartialEq, Eq)]
pub struct Node {
    pub kind: Kind,
    pub mode: u32,
    pub uid: u32,
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:o} {} ", self.mode, self.uid)?;
        match &self.kind {
            Kind::Dir => write!(f, "directory"),
            Kind::File(b) => write!(f, "{:?}", b),
            Kind::Link(p) => write!(f, "-> {:?}", p),
            Kind::Other => write!(f, "special"),
        }
    }
}

pub type Tree = BTreeMap<PathBuf, Node>;

pub fn tree(root: &Path) -> Check<Tree> {
    let mut t = Tree::new();
    if fs::symlink_metadata(root).is_ok() {
        walk(root, Path::new(""), &mut t)?;
    }
    Ok(t)
}

fn walk(root: &Path, rel: &Path, t: &mut Tree) -> Check {
    let p = root.join(rel);
    let m = fs::symlink_metadata(&p)?;
    let kind = if m.is_dir() {
        Kind::Dir
    } else if m.is_file() {
        Kind::File(B(fs::read(&p)?))
    } else if m.file_type().is_symlink() {
        Kind::Link(fs::read_link(&p)?)
    } else {
        Kind::Other
    };
    let dir = m.is_dir();
    t.insert(
        rel.into(),
        Node {
            kind,
            mode: m.mode() & 0o7777,
            uid: m.uid(),
        },
    );
    if dir {
        for e in fs::read_dir(&p)? {
            walk(root, &rel.join(e?.file_name()), t)?;
        }
    }
    Ok(())
}

/// The first few differences between two trees.
pub fn diff(a: &Tree, b: &Tree) -> Option<String> {
    let mut v = vec![];
    for (p, n) in a {
        match b.get(p) {
            None => v.push(format!("{} has been removed ({:?})", p.display(), n)),
            Some(m) if m != n => v.push(format!("{} has changed: {:?} => {:?}", p.display(), n, m)),
            _ => (),
        }
    }
    for (p, n) in b {
        if !a.contains_key(p) {
            v.push(format!("{} has been created: {:?}", p.display(), n));
        }
    }
    if v.is_empty() {
        None
    } else {
        let n = v.len();
        v.truncate(4);
        Some(format!("{} differences: {}", n, v.join("; ")))
    }
}

/// The files of a store.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Store {
    pub objects: BTreeMap<String, B>,
    /// By ID: time and path of each valid record.
    pub locks: BTreeMap<String, (i64, B)>,
    /// Other files, relative to the LFS directory.
    pub others: BTreeMap<PathBuf, B>,
}

impl Store {
    pub fn read(lfs: &Path) -> Check<Store> {
        let mut s = Store::default();
        for (p, n) in tree(lfs)? {
            let data = match n.kind {
                Kind::File(d) => d,
                Kind::Dir => continue,
                _ => {
                    s.others.insert(p, B(b"(special file)".to_vec()));
                    continue;
                }
            };
            let c: Vec<&[u8]> = p.iter().map(|c| c.as_bytes()).collect();
            if c.len() == 4
                && c[0] == b"objects"
                && proto::is_oid(c[3])
                && c[1] == &c[3][..2]
                && c[2] == &c[3][2..4]
            {
                s.objects
                    .insert(String::from_utf8_lossy(c[3]).into_owned(), data);
            } else if c.len() == 2 && c[0] == b"locks" && proto::is_oid(c[1]) {
                let id = String::from_utf8_lossy(c[1]).into_owned();
                match parse_record(&data) {
                    Some((t, path)) if proto::lock_id(&path) == id => {
                        s.locks.insert(id, (t, path));
                    }
                    _ => {
                        s.others.insert(p, data);
                    }
                }
            } else {
                s.others.insert(p, data);
            }
        }
        Ok(s)
    }

    /// The first object which is not what its name says.
    pub fn corrupt_object(&self) -> Option<String> {
        for (oid, d) in &self.objects {
            if vcore::sha256::hex(d) != *oid {
                return Some(format!("object {} does not hash to its ID: {:?}", oid, d));
            }
        }
        None
    }

    pub fn others_list(&self) -> String {
        self.others
            .iter()
            .map(|(p, d)| format!("{} ({:?})", p.display(), d))
            .collect::<Vec<_>>()
            .join(", ")
    }
}

pub fn parse_record(d: &[u8]) -> Option<(i64, B)> {
    let mut it = d.splitn(3, |&c| c == b':');
    if it.next()? != b"v1" {
        return None;
    }
    let t = std::str::from_utf8(it.next()?).ok()?.parse().ok()?;
    Some((t, it.next()?.into()))
}

// ---------------------------------------------------------------------------------------------
// Conversations

/// A session whose client waits for each response.
pub struct Live {
    child: sys::Child,
    stdin: Option<sys::Fd>,
    stdout: sys::Fd,
    buf: Vec<u8>,
    seen: usize,
}

impl Live {
    pub fn start(w: &World, o: &Run) -> Check<Live> {
        let (r0, w0) = sys::pipe()?;
        let (r1, w1) = sys::pipe()?;
        let null = sys::devnull()?;
        let mut s = w.spawn(o);
        s.fds = [r0.0, w1.0, null.0];
        let child = s.start()?;
        drop(r0);
        drop(w1);
        Ok(Live {
            child,
            stdin: Some(w0),
            stdout: r1,
            buf: vec![],
            seen: 0,
        })
    }

    /// Send a request, which has to fit into the pipe, and wait for the response.
    pub fn request(&mut self, parts: &[proto::Part]) -> Check<proto::Resp> {
        let d = proto::encode(parts);
        let fd = self.stdin.as_ref().unwrap().0;
        let mut off = 0;
        while off < d.len() {
            let n = unsafe { libc::write(fd, d[off..].as_ptr() as *const _, d.len() - off) };
            if n <= 0 {
                return Err(vcore::Stop::Error("the server does not read".into()));
            }
            off += n as usize;
        }
        loop {
            let o = match proto::parse_output(&self.buf) {
                Ok(o) => o,
                Err(e) => violation!("malformed output: {}", e),
            };
            if o.resps.len() > self.seen {
                self.seen += 1;
                return Ok(o.resps[self.seen - 1].clone());
            }
            let mut p = libc::pollfd {
                fd: self.stdout.0,
                events: libc::POLLIN,
                revents: 0,
            };
            let r = unsafe { libc::poll(&mut p, 1, 30_000) };
            if r == 0 {
                return Err(vcore::Stop::Error("no response".into()));
            }
            let mut b = [0u8; 65536];
            let n = unsafe { libc::read(self.stdout.0, b.as_mut_ptr() as *mut _, b.len()) };
            if n < 0 {
                return Err(vcore::Stop::Error("cannot read the output".into()));
            }
            if n == 0 {
                violation!("the server ended without a response");
            }
            self.buf.extend_from_slice(&b[..n as usize]);
        }
    }

    pub fn finish(mut self) -> Check {
        self.stdin = None;
        let e = sys::sane(self.child.wait()?)?;
        if e != Exit::Code(0) {
            violation!("the server ended with {:?}", e);
        }
        Ok(())
    }
}
