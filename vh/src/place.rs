//! git at and git recent-refs look at the repository which Git itself would use: P28.

use crate::repo::{self, Commit, Done, GitRepo};
use crate::store::{Ctx, NOBODY};
use crate::sys::{self, Exit};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use vcore::{ensure, Check, Outcome, Prop, Src, Stop, B};

/// How a repository looks.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Form {
    Work,
    Bare,
    /// A file `.git` leads to the Git directory, absolutely or not.
    Separate(bool),
    /// Like `Separate`, with core.worktree, within the Git directory of the first one.
    Submodule,
}

/// Where things are, all of them below the scratch directory.
const DIRS: &[&str] = &[
    "a",
    "a/sub/deep",
    "",
    "a/.git",
    "a/.git/refs/heads",
    "a/refs",
    "b",
    "b/sub",
    "b/.git",
    "a/in",
    "a/in/sub",
    "la",
    "la/sub",
    "a/.git/worktrees/la",
    "s",
    "s/sub",
    "sub",
    "store",
    "store/refs",
    "a/.git/modules/in",
    "none",
];

#[derive(Debug, Clone)]
enum Via {
    /// The programs themselves.
    Direct,
    /// `git at`
    Git,
    /// `git --git-dir=... at`
    GitDir(Named),
    /// `git --git-dir=... --work-tree=... at`
    Both(Named, usize),
    /// `git -C <dir> at`
    In(usize),
    /// `git --bare at`
    Bare,
    /// An alias which is a shell command.
    Alias,
}

/// A directory as it's written.
#[derive(Debug, Clone, Copy)]
struct Named {
    dir: usize,
    /// Of those which are Git directories, or lead to one.
    valid: bool,
    relative: bool,
    suffix: &'static str,
}

#[derive(Debug)]
pub struct Scene {
    a: Form,
    /// A second repository beside the first one.
    b: Option<Form>,
    /// A repository inside of the first one's working tree.
    inner: Option<Form>,
    /// A linked working tree of the first one, and whether its `.git` file is relative.
    linked: Option<bool>,
    cwd: usize,
    git_dir: Option<Option<Named>>,
    work_tree: Option<usize>,
    ceiling: Option<Vec<Option<Named>>>,
    via: Via,
    detached: bool,
}

impl Named {
    fn text(&self, top: &Path, cwd: &Path) -> OsString {
        let mut dir = DIRS[self.dir].to_string();
        if self.valid {
            let v: Vec<String> = DIRS
                .iter()
                .flat_map(|d| [d.to_string(), format!("{}/.git", d)])
                .filter(|d| {
                    let p = top.join(d);
                    p.join("HEAD").exists() || p.is_file()
                })
                .collect();
            dir = v[self.dir % v.len()].clone();
        }
        let abs = top.join(&dir);
        let mut s: OsString = if self.relative {
            // From the directory without symbolic links.
            let cwd = fs::canonicalize(cwd).unwrap_or_else(|_| cwd.into());
            let rel = cwd.strip_prefix(top).unwrap_or(Path::new(""));
            let mut p = PathBuf::new();
            for _ in rel.components() {
                p.push("..");
            }
            p.push(&dir);
            if p.as_os_str().is_empty() {
                ".".into()
            } else {
                p.into()
            }
        } else {
            abs.clone().into()
        };
        if !self.valid || abs.is_dir() && self.suffix != "/.git" {
            s.push(self.suffix);
        }
        s
    }
}

struct Built {
    top: PathBuf,
    home: PathBuf,
    count: usize,
}

impl Built {
    fn repo(&self, git: &Path) -> GitRepo {
        GitRepo {
            top: self.top.clone(),
            work: git.into(),
            git: git.into(),
            home: self.home.clone(),
            uid: NOBODY,
        }
    }

    /// What is in a Git directory, with different commits each time.
    fn fill(&mut self, git: &Path, bare: bool, config: &str, detached: bool) -> Check<Vec<String>> {
        self.count += 1;
        let n = self.count;
        let r = self.repo(git);
        fs::create_dir_all(git.join("objects"))?;
        fs::create_dir_all(git.join("refs/heads"))?;
        r.file(
            "config",
            format!(
                "[core]\n\trepositoryformatversion = 0\n\tbare = {}\n\tlogallrefupdates = true\n{}",
                bare, config
            )
            .as_bytes(),
        )?;
        r.object("tree", b"")?;
        let commits: Vec<Commit> = (0..3)
            .map(|i| Commit {
                parents: if i == 0 { vec![] } else { vec![i - 1] },
                time: 1_600_000_000 + 1000 * n as i64 + i as i64,
                zone: "+0000",
                author_time: 1_600_000_000,
                author_zone: "+0000",
                message: B(format!("commit {} of {}\n", i, n).into_bytes()),
                headers: B(vec![]),
                who: B(b"A <a@example.com>".to_vec()),
            })
            .collect();
        let ids = r.commits(&commits)?;
        r.set_ref(&format!("refs/heads/main{}", n), &ids[2])?;
        r.set_ref(&format!("refs/heads/other{}", n), &ids[1])?;
        self.head(git, &ids, detached)?;
        Ok(ids)
    }

    /// HEAD, and its history.
    fn head(&self, git: &Path, ids: &[String], detached: bool) -> Check {
        let n = self.count;
        let r = self.repo(git);
        if detached {
            r.file("HEAD", format!("{}\n", ids[0]).as_bytes())?;
        } else {
            r.symref("HEAD", &format!("refs/heads/main{}", n))?;
        }
        let to = if detached { ids[0].clone() } else { format!("main{}", n) };
        r.file(
            "logs/HEAD",
            format!(
                "{} {} A <a@example.com> 1600000000 +0000\tcheckout: moving from other{} to {}\n",
                ids[1], ids[2], n, to
            )
            .as_bytes(),
        )
    }

    fn place(&mut self, at: &str, form: Form, detached: bool) -> Check<(PathBuf, Vec<String>)> {
        let work = self.top.join(at);
        fs::create_dir_all(&work)?;
        let ids;
        let git = match form {
            Form::Work => work.join(".git"),
            Form::Bare => work.clone(),
            Form::Separate(_) => self.top.join("store"),
            Form::Submodule => self.top.join("a/.git/modules").join(work.file_name().unwrap_or_default()),
        };
        match form {
            Form::Work => ids = self.fill(&git, false, "", detached)?,
            Form::Bare => ids = self.fill(&git, true, "", detached)?,
            Form::Separate(absolute) => {
                ids = self.fill(&git, false, "", detached)?;
                let mut up = String::new();
                for _ in Path::new(at).components() {
                    up.push_str("../");
                }
                let to = if absolute {
                    git.display().to_string()
                } else {
                    format!("{}store", up)
                };
                fs::write(work.join(".git"), format!("gitdir: {}\n", to))?;
            }
            Form::Submodule => {
                ids = self.fill(&git, false, &format!("\tworktree = ../../../{}\n", "in"), detached)?;
                fs::write(work.join(".git"), "gitdir: ../.git/modules/in\n")?;
            }
        }
        Ok((git, ids))
    }
}

fn named(s: &mut Src) -> Named {
    Named {
        dir: s.usize(0, DIRS.len() - 1),
        valid: s.chance(3, 4),
        relative: s.chance(1, 2),
        suffix: s.pick(&["", "", "", "", "/.git", "/", "/.", "/refs/.."]),
    }
}

pub struct Places;

impl Prop for Places {
    type Case = Scene;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P28"
    }
    fn rule(&self) -> &'static str {
        "there are several repositories or working trees to choose from, or none is to be found"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            180_000
        } else {
            7_500
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Scene {
        let a = *s.pick(&[Form::Work, Form::Work, Form::Bare, Form::Separate(true), Form::Separate(false)]);
        // There is only one place for a separate Git directory.
        let free = !matches!(a, Form::Separate(_));
        let form = |s: &mut Src, free: bool| match s.weighted(&[3, 2, 2]) {
            0 => Form::Work,
            1 => Form::Bare,
            _ if free => Form::Separate(s.chance(1, 2)),
            _ => Form::Work,
        };
        let b = if s.chance(3, 4) { Some(form(s, free)) } else { None };
        let free = free && !matches!(b, Some(Form::Separate(_)));
        let inner = match s.weighted(&[2, 2, 2]) {
            0 => None,
            1 if a == Form::Work => Some(Form::Submodule),
            1 => None,
            _ => Some(form(s, free)),
        };
        let linked = if s.chance(1, 2) { Some(s.chance(1, 2)) } else { None };
        let cwd = s.usize(0, DIRS.len() - 2);
        let git_dir = match s.weighted(&[12, 8, 1]) {
            0 => None,
            1 => Some(Some(named(s))),
            _ => Some(None),
        };
        let work_tree = if s.chance(1, 6) { Some(s.usize(0, 12)) } else { None };
        let ceiling = if s.chance(1, if git_dir.is_some() { 12 } else { 3 }) {
            let n = s.usize(1, 3);
            Some(
                (0..n)
                    .map(|_| {
                        if s.chance(1, 6) {
                            None
                        } else {
                            Some(Named {
                                relative: s.chance(1, 8),
                                dir: s.usize(0, DIRS.len() - 1),
                                valid: false,
                                suffix: s.pick(&["", "", "/"]),
                            })
                        }
                    })
                    .collect(),
            )
        } else {
            None
        };
        let via = match s.weighted(&[6, 3, 4, 1, 2, 1, 2]) {
            0 => Via::Direct,
            1 => Via::Git,
            2 => Via::GitDir(named(s)),
            3 => Via::Both(named(s), s.usize(0, 12)),
            4 => Via::In(s.usize(0, DIRS.len() - 1)),
            5 => Via::Bare,
            _ => Via::Alias,
        };
        Scene {
            a,
            b,
            inner,
            linked,
            cwd,
            git_dir,
            work_tree,
            ceiling,
            via,
            detached: s.chance(1, 4),
        }
    }

    fn check(&self, case: &Scene, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let top = ctx.fresh("p")?;
        let mut t = Built {
            top: top.clone(),
            home: ctx.home.clone(),
            count: 0,
        };
        let (git, ids) = t.place("a", case.a, case.detached)?;
        if let Some(relative) = case.linked {
            let g = git.join("worktrees/la");
            let w = top.join("la");
            fs::create_dir_all(&g)?;
            fs::create_dir_all(&w)?;
            t.repo(&g).head_of_linked(&ids, t.count)?;
            fs::write(g.join("commondir"), "../..\n")?;
            fs::write(g.join("gitdir"), format!("{}/.git\n", w.display()))?;
            let to = if relative {
                Path::new("..").join(g.strip_prefix(&top).unwrap_or(&g))
            } else {
                g
            };
            fs::write(w.join(".git"), format!("gitdir: {}\n", to.display()))?;
        }
        if let Some(f) = case.inner {
            t.place("a/in", f, false)?;
        }
        if let Some(f) = case.b {
            t.place("b", f, case.detached)?;
        }
        symlink("a", top.join("s"))?;
        for d in ["a/sub/deep", "a/in/sub", "b/sub", "la/sub", "sub"] {
            fs::create_dir_all(top.join(d))?;
        }
        sys::chown_r(&top, NOBODY, sys::GID)?;
        let dirs: Vec<&&str> = DIRS.iter().filter(|d| top.join(d).is_dir()).collect();
        let cwd = top.join(dirs[case.cwd % dirs.len()]);

        let mut env: Vec<(&str, OsString)> = vec![];
        if let Some(n) = &case.git_dir {
            let v = match n {
                Some(n) => n.text(&top, &cwd),
                None => OsString::new(),
            };
            env.push(("GIT_DIR", v));
        }
        // Without a Git directory, this does not matter.
        if let Some(d) = case.work_tree {
            env.push(("GIT_WORK_TREE", existing(&top, d).into()));
        }
        if let Some(c) = &case.ceiling {
            // After an empty entry, Git does not resolve symbolic links, but libgit2 does.
            let literal = c.iter().any(|n| n.is_none());
            let v: Vec<OsString> = c
                .iter()
                .filter(|n| !(literal && n.map_or(false, |n| DIRS[n.dir].starts_with('s'))))
                .map(|n| n.map_or(OsString::new(), |n| n.text(&top, &cwd)))
                .collect();
            env.push(("GIT_CEILING_DIRECTORIES", v.join(OsStr::new(":"))));
        }

        // The same again, with Git itself in the place of the program.
        let git = |args: &[&OsStr]| -> Check<Done> {
            let mut v: Vec<&OsStr> = vec![OsStr::new("/usr/bin/git")];
            v.extend(args);
            exec(&t, case, &env, &v, &cwd, true)
        };
        let ours = |name: &str, args: &[&str]| -> Check<Done> {
            let bin = sys::bin(name);
            let mut v: Vec<&OsStr> = vec![bin.as_os_str()];
            v.extend(args.iter().map(OsStr::new));
            exec(&t, case, &env, &v, &cwd, false)
        };
        let o = |a: &[&'static str]| -> Vec<&'static OsStr> { a.iter().map(|x| OsStr::new(*x)).collect() };
        let dir = git(&o(&["rev-parse", "--absolute-git-dir"]))?;
        out.executions = 0;
        let context = || {
            format!(
                "in {:?} with {:?} by {:?} (Git uses {:?})",
                cwd.strip_prefix(&top).unwrap_or(&cwd),
                env,
                case.via,
                dir
            )
        };
        let at = ours("git-at", &["."])?;
        let show = ours("git-at", &["--show", "."])?;
        let visit = ours("git-recent-refs", &[])?;
        let date = ours("git-recent-refs", &["--sort=committerdate"])?;
        out.executions += 4;
        if dir.exit == Exit::Code(0) {
            let log = git(&o(&["log", "-1", "--format=%H", "HEAD", "--"]))?;
            let expected = git(&o(&["show", "HEAD", "--"]))?;
            let refs = git(&o(&["for-each-ref", "--sort=-committerdate", "--format=%(refname)"]))?;
            let head = git(&o(&["rev-parse", "--symbolic-full-name", "HEAD"]))?;
            for d in [&log, &expected, &refs, &head] {
                if d.exit != Exit::Code(0) {
                    return Err(Stop::Error(format!("Git fails: {:?}", d)));
                }
            }
            let head = &head.out;
            let first: Vec<u8> = visit.out.split_inclusive(|&c| c == b'\n').next().unwrap_or(b"").to_vec();
            let lines = visit.out.iter().filter(|&&c| c == b'\n').count();
            for (what, d, want) in [
                ("git at", &at, &log.out),
                ("git at --show", &show, &expected.out),
                ("git recent-refs --sort=committerdate", &date, &refs.out),
            ] {
                ensure!(
                    d.exit == Exit::Code(0) && d.out == *want,
                    "{} {}: {:?} instead of {:?}",
                    what,
                    context(),
                    d,
                    want
                );
            }
            ensure!(
                visit.exit == Exit::Code(0) && first == head.0 && lines == 2,
                "git recent-refs {}: {:?} instead of {:?} and another one",
                context(),
                visit,
                head
            );
            let p = String::from_utf8_lossy(&dir.out).trim().replace(&format!("{}/", top.display()), "");
            out.class(format!("finds {}", p));
        } else {
            for (what, d) in [
                ("git at", &at),
                ("git at --show", &show),
                ("git recent-refs --sort=committerdate", &date),
                ("git recent-refs", &visit),
            ] {
                ensure!(
                    matches!(d.exit, Exit::Code(c) if c != 0 && c != 101) && d.out.is_empty() && !d.err.is_empty(),
                    "{} {}: {:?}, but there is no repository",
                    what,
                    context(),
                    d
                );
            }
            out.class("no repository");
        }
        out.class(format!("{:?}", case.via).split('(').next().unwrap_or("").to_string());
        if case.git_dir.is_some() {
            out.class("GIT_DIR");
        }
        if case.ceiling.is_some() {
            out.class("GIT_CEILING_DIRECTORIES");
        }
        out.nontrivial = case.b.is_some() || case.inner.is_some() || case.linked.is_some() || dir.exit != Exit::Code(0);
        Ok(())
    }
}

/// A directory which exists.
fn existing(top: &Path, dir: usize) -> PathBuf {
    let p = top.join(DIRS[dir]);
    if p.is_dir() {
        p
    } else {
        top.into()
    }
}

/// Run a program, or Git in its place, in the way the case says.
fn exec(t: &Built, case: &Scene, env: &[(&str, OsString)], argv: &[&OsStr], cwd: &Path, git: bool) -> Check<Done> {
    let mut v: Vec<OsString> = vec![];
    let name = Path::new(argv[0]).file_name().unwrap_or_default().to_string_lossy().into_owned();
    // Through Git, git-at is called at.
    let mut rest: Vec<OsString> = argv[1..].iter().map(|a| a.into()).collect();
    if !git {
        if let Some(sub) = name.strip_prefix("git-") {
            rest.insert(0, sub.into());
        }
    }
    let git_dir = |n: &Named| -> OsString {
        let mut s = OsString::from("--git-dir=");
        s.push(n.text(&t.top, cwd));
        s
    };
    let top = |d: usize| -> OsString { t.top.join(DIRS[d]).into() };
    match &case.via {
        Via::Direct if git => {
            v.push("/usr/bin/git".into());
            v.append(&mut rest);
        }
        Via::Direct => v.extend(argv.iter().map(|a| a.into())),
        via => {
            v.push("/usr/bin/git".into());
            match via {
                Via::Direct | Via::Git => {}
                Via::GitDir(n) => v.push(git_dir(n)),
                Via::Both(n, d) => {
                    v.push(git_dir(n));
                    let mut s = OsString::from("--work-tree=");
                    s.push(existing(&t.top, *d));
                    v.push(s);
                }
                Via::In(d) => {
                    v.push("-C".into());
                    v.push(top(*d));
                }
                Via::Bare => v.push("--bare".into()),
                Via::Alias => {
                    v.push("-c".into());
                    v.push("alias.x=!git".into());
                    v.push("x".into());
                }
            }
            v.append(&mut rest);
        }
    }
    let mut path = sys::bin("").into_os_string();
    path.push(":/usr/bin:/bin");
    let mut e: Vec<(&str, &OsStr)> = vec![
        ("HOME", t.home.as_os_str()),
        ("PATH", path.as_os_str()),
        ("LC_ALL", OsStr::new("C.UTF-8")),
        ("GIT_CONFIG_NOSYSTEM", OsStr::new("1")),
        ("TZ", OsStr::new("UTC")),
    ];
    e.extend(env.iter().map(|(k, v)| (*k, v.as_os_str())));
    let mut s = sys::Spawn::new(&v, &e, cwd);
    s.uid = NOBODY;
    repo::run(&mut s)
}

impl GitRepo {
    /// The linked working tree is on a commit of its own branch.
    fn head_of_linked(&self, ids: &[String], n: usize) -> Check {
        self.symref("HEAD", &format!("refs/heads/other{}", n))?;
        self.file(
            "logs/HEAD",
            format!(
                "{} {} A <a@example.com> 1600000000 +0000\tcheckout: moving from main{} to other{}\n",
                ids[2], ids[1], n, n
            )
            .as_bytes(),
        )
    }
}
