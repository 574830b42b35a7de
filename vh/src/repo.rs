//! Git repositories, written directly, as that is so much faster than running Git.

use crate::store::Ctx;
use crate::sys::{self, Exit, Spawn};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::fs;
use std::path::{Path, PathBuf};
use vcore::{Check, Stop, B};

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(*x);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut r = [0; 20];
    for (i, x) in h.iter().enumerate() {
        r[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    r
}

/// A zlib stream which is not compressed.
fn stored(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let chunks: Vec<&[u8]> = data.chunks(65535).collect();
    for (i, c) in chunks.iter().enumerate() {
        v.push((i + 1 == chunks.len()) as u8);
        v.extend_from_slice(&(c.len() as u16).to_le_bytes());
        v.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        v.extend_from_slice(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    v.extend_from_slice(&(b << 16 | a).to_be_bytes());
    v
}

pub const EMPTY_TREE: &str = "4b825dc642cb6eb9a060e54bf8d69288fbee4904";

#[derive(Debug, Clone)]
pub struct Commit {
    pub parents: Vec<usize>,
    pub time: i64,
    pub zone: &'static str,
    pub author_time: i64,
    pub author_zone: &'static str,
    pub message: B,
    /// Further headers.
    pub headers: B,
    /// Name and address of the committer.
    pub who: B,
}

impl Commit {
    /// The object's contents, given the IDs of commits.
    pub fn encode(&self, ids: &[String], tree: &str) -> Vec<u8> {
        let mut v = format!("tree {}\n", tree).into_bytes();
        for p in &self.parents {
            v.extend(format!("parent {}\n", ids[*p]).into_bytes());
        }
        v.extend_from_slice(b"author ");
        v.extend_from_slice(&self.who);
        v.extend(format!(" {} {}\n", self.author_time, self.author_zone).into_bytes());
        v.extend_from_slice(b"committer ");
        v.extend_from_slice(&self.who);
        v.extend(format!(" {} {}\n", self.time, self.zone).into_bytes());
        v.extend_from_slice(&self.headers);
        v.push(b'\n');
        v.extend_from_slice(&self.message);
        v
    }
}

pub fn id_of(kind: &str, content: &[u8]) -> String {
    let mut v = format!("{} {}\0", kind, content.len()).into_bytes();
    v.extend_from_slice(content);
    sha1(&v).iter().map(|b| format!("{:02x}", b)).collect()
}

pub struct GitRepo {
    pub top: PathBuf,
    /// Where the commands run by default.
    pub work: PathBuf,
    pub git: PathBuf,
    pub home: PathBuf,
    pub uid: u32,
}

impl GitRepo {
    pub fn new(ctx: &mut Ctx, name: &str, bare: bool) -> Check<GitRepo> {
        let top = ctx.fresh(name)?;
        let work = top.join("repo");
        let git = if bare { work.clone() } else { work.join(".git") };
        fs::create_dir_all(git.join("objects"))?;
        fs::create_dir_all(git.join("refs/heads"))?;
        fs::create_dir_all(git.join("refs/tags"))?;
        fs::write(git.join("HEAD"), "ref: refs/heads/main\n")?;
        fs::write(
            git.join("config"),
            format!(
                "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = {}\n\tlogallrefupdates = true\n",
                bare
            ),
        )?;
        let r = GitRepo {
            top,
            work,
            git,
            home: ctx.home.clone(),
            uid: crate::store::NOBODY,
        };
        r.object("tree", b"")?;
        Ok(r)
    }

    /// Hand everything over to the user the commands run as.
    pub fn own(&self) -> Check {
        sys::chown_r(&self.work, self.uid, sys::GID)
    }

    pub fn object(&self, kind: &str, content: &[u8]) -> Check<String> {
        let mut v = format!("{} {}\0", kind, content.len()).into_bytes();
        v.extend_from_slice(content);
        let id: String = sha1(&v).iter().map(|b| format!("{:02x}", b)).collect();
        let d = self.git.join("objects").join(&id[..2]);
        fs::create_dir_all(&d)?;
        let f = d.join(&id[2..]);
        if !f.exists() {
            fs::write(&f, stored(&v))?;
            sys::chmod(&f, 0o444);
        }
        Ok(id)
    }

    pub fn commits(&self, commits: &[Commit]) -> Check<Vec<String>> {
        let mut ids = vec![];
        for c in commits {
            ids.push(self.object("commit", &c.encode(&ids, EMPTY_TREE))?);
        }
        Ok(ids)
    }

    /// The same in a pack.
    pub fn commit_pack(&self, commits: &[Commit]) -> Check<Vec<String>> {
        let mut ids: Vec<String> = vec![];
        let mut p = b"PACK\0\0\0\x02".to_vec();
        p.extend_from_slice(&(commits.len() as u32).to_be_bytes());
        for c in commits {
            let v = c.encode(&ids, EMPTY_TREE);
            ids.push(id_of("commit", &v));
            // Commits are objects of type 1.
            let mut n = v.len();
            let mut b = 1 << 4 | (n & 15) as u8;
            n >>= 4;
            while n > 0 {
                p.push(b | 0x80);
                b = (n & 0x7f) as u8;
                n >>= 7;
            }
            p.push(b);
            p.extend(stored(&v));
        }
        let sum = sha1(&p);
        p.extend_from_slice(&sum);
        self.file("objects/pack/pack-1.pack", &p)?;
        self.own()?;
        self.git_ok(&["index-pack", "objects/pack/pack-1.pack"])?;
        Ok(ids)
    }

    pub fn tag(&self, target: &str, kind: &str, name: &str, time: i64) -> Check<String> {
        let s = format!(
            "object {}\ntype {}\ntag {}\ntagger T <t@example.com> {} +0000\n\nA tag\n",
            target, kind, name, time
        );
        self.object("tag", s.as_bytes())
    }

    pub fn file(&self, name: &str, content: &[u8]) -> Check {
        let p = self.git.join(name);
        fs::create_dir_all(p.parent().unwrap())?;
        fs::write(p, content)?;
        Ok(())
    }

    pub fn set_ref(&self, name: &str, id: &str) -> Check {
        self.file(name, format!("{}\n", id).as_bytes())
    }

    pub fn symref(&self, name: &str, target: &str) -> Check {
        self.file(name, format!("ref: {}\n", target).as_bytes())
    }

    /// Refs with their targets, and what those lead to if they are tags.
    pub fn packed(&self, refs: &BTreeMap<String, (String, Option<String>)>) -> Check {
        let mut s = String::from("# pack-refs with: peeled fully-peeled sorted \n");
        for (n, (id, peeled)) in refs {
            s.push_str(&format!("{} {}\n", id, n));
            if let Some(p) = peeled {
                s.push_str(&format!("^{}\n", p));
            }
        }
        self.file("packed-refs", s.as_bytes())
    }

    pub fn spawn<S: AsRef<OsStr>>(&self, argv: &[S], cwd: &Path) -> Spawn {
        let path = std::env::var_os("PATH").unwrap_or_default();
        let env: Vec<(&str, &OsStr)> = vec![
            ("HOME", self.home.as_os_str()),
            ("PATH", path.as_os_str()),
            ("LC_ALL", OsStr::new("C.UTF-8")),
            ("GIT_CONFIG_NOSYSTEM", OsStr::new("1")),
            ("TZ", OsStr::new("UTC")),
        ];
        let mut s = Spawn::new(argv, &env, cwd);
        s.uid = self.uid;
        s
    }

    /// Run a program to its end.
    pub fn run_in<S: AsRef<OsStr>>(&self, argv: &[S], cwd: &Path) -> Check<Done> {
        run(&mut self.spawn(argv, cwd))
    }

    pub fn git<S: AsRef<OsStr>>(&self, args: &[S]) -> Check<Done> {
        let mut argv: Vec<&OsStr> = vec![OsStr::new("/usr/bin/git")];
        argv.extend(args.iter().map(|a| a.as_ref()));
        self.run_in(&argv, &self.work)
    }

    /// Run Git, which should succeed.
    pub fn git_ok<S: AsRef<OsStr>>(&self, args: &[S]) -> Check<Vec<u8>> {
        let d = self.git(args)?;
        if d.exit != Exit::Code(0) {
            let a: Vec<String> = args
                .iter()
                .map(|a| a.as_ref().to_string_lossy().into_owned())
                .collect();
            return Err(Stop::Error(format!("git {:?}: {:?}", a, d)));
        }
        Ok(d.out.0)
    }
}

/// What a program did.
#[derive(Debug)]
pub struct Done {
    pub exit: Exit,
    pub out: B,
    pub err: B,
}

pub fn run(s: &mut Spawn) -> Check<Done> {
    let stdin = sys::devnull()?;
    let out = sys::memfd(b"")?;
    let err = sys::memfd(b"")?;
    s.fds = [stdin.0, out.0, err.0];
    let exit = sys::sane(s.start()?.wait()?)?;
    Ok(Done {
        exit,
        out: B(sys::read_memfd(&out)?),
        err: B(sys::read_memfd(&err)?),
    })
}
