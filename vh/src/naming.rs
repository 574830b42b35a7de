//! One repository has one store, however it is named: P26.

use crate::gen;
use crate::model::{encode_all, Model, Op, Req};
use crate::store::{self, Ctx, Store, Tree, World, NOBODY};
use crate::sys::{self, Exit};
use crate::xfer::{run_for, who};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use vcore::{ensure, Check, Outcome, Prop, Src, B};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Form {
    Work,
    Bare,
    /// A file `.git` leads to the Git directory, absolutely or not.
    Separate(bool),
}

const NAMES: &[&[u8]] = &[
    b"repo",
    b"repo.git",
    b"a repo",
    b"r\xff\xfe",
    b"-r",
    b"d\xc3\xa9p\xc3\xb4t",
    b"lfs",
    b"a:b",
    b"$HOME",
    b"~",
    b"objects",
];

#[derive(Debug)]
struct Repo {
    form: Form,
    name: usize,
    /// Linked working trees, and whether their `.git` files are relative.
    linked: Vec<bool>,
}

#[derive(Debug, Clone, Copy)]
enum Which {
    First,
    Second,
    /// A path which leads to no repository.
    None,
}

#[derive(Debug, Clone, Copy)]
enum Style {
    Absolute,
    /// From a directory inside of the scratch directory, by number.
    Relative(usize),
    /// From the place itself.
    Dot,
    /// Through a symbolic link to the place.
    Link,
    /// Through a symbolic link to the directory above.
    LinkedParent,
}

#[derive(Debug)]
struct Visit {
    which: Which,
    /// Which of the names of the repository it is.
    place: usize,
    style: Style,
    suffix: &'static str,
    noise: u64,
    op: Op,
    reqs: Vec<Req>,
}

#[derive(Debug)]
pub struct Tour {
    repos: [Repo; 2],
    visits: Vec<Visit>,
}

/// A repository as it is on disk.
struct Built {
    common: PathBuf,
    names: Vec<PathBuf>,
}

fn git_dir(git: &Path) -> Check {
    fs::create_dir_all(git.join("objects"))?;
    fs::create_dir_all(git.join("refs/heads"))?;
    fs::write(git.join("HEAD"), "ref: refs/heads/main\n")?;
    Ok(())
}

fn gitfile(at: &Path, to: &[u8]) -> Check {
    let mut v = b"gitdir: ".to_vec();
    v.extend_from_slice(to);
    v.push(b'\n');
    fs::write(at, v)?;
    Ok(())
}

/// Make a repository in a directory of its own.
fn build(dir: &Path, r: &Repo) -> Check<Built> {
    let name = OsStr::from_bytes(NAMES[r.name]);
    fs::create_dir_all(dir)?;
    let work = dir.join(name);
    fs::create_dir_all(&work)?;
    let bare = r.form == Form::Bare;
    let git = match r.form {
        Form::Work => work.join(".git"),
        Form::Bare => work.clone(),
        Form::Separate(_) => dir.join("elsewhere").join(name),
    };
    git_dir(&git)?;
    fs::write(
        git.join("config"),
        format!("[core]\n\trepositoryformatversion = 0\n\tbare = {}\n", bare),
    )?;
    let mut names = vec![git.clone()];
    if !bare {
        names.push(work.clone());
    }
    if let Form::Separate(absolute) = r.form {
        let to = if absolute {
            git.clone()
        } else {
            Path::new("../elsewhere").join(name)
        };
        gitfile(&work.join(".git"), to.as_os_str().as_bytes())?;
        names.push(work.join(".git"));
    }
    for (i, relative) in r.linked.iter().enumerate() {
        let g = git.join(format!("worktrees/l{}", i));
        let w = dir.join(format!("linked{}", i));
        fs::create_dir_all(&g)?;
        fs::create_dir_all(&w)?;
        fs::write(g.join("HEAD"), format!("ref: refs/heads/l{}\n", i))?;
        fs::write(g.join("commondir"), "../..\n")?;
        let mut v = w.join(".git").as_os_str().as_bytes().to_vec();
        v.push(b'\n');
        fs::write(g.join("gitdir"), v)?;
        let to = if *relative {
            Path::new("..").join(g.strip_prefix(dir).unwrap_or(&g))
        } else {
            g.clone()
        };
        gitfile(&w.join(".git"), to.as_os_str().as_bytes())?;
        names.push(w.clone());
        names.push(w.join(".git"));
        names.push(g);
    }
    Ok(Built { common: git, names })
}

/// The path from one directory to another place, neither of which has symbolic links in it.
fn relative(from: &Path, to: &Path) -> PathBuf {
    let a: Vec<_> = from.components().collect();
    let b: Vec<_> = to.components().collect();
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut p = PathBuf::new();
    for _ in n..a.len() {
        p.push("..");
    }
    for c in &b[n..] {
        p.push(c);
    }
    if p.as_os_str().is_empty() {
        p.push(".");
    }
    // What starts with a dash would be an option.
    if p.as_os_str().as_bytes()[0] == b'-' {
        p = Path::new(".").join(p);
    }
    p
}

fn visit(s: &mut Src, p: &gen::Pools) -> Visit {
    let which = match s.weighted(&[8, 2, 2]) {
        0 => Which::First,
        1 => Which::Second,
        _ => Which::None,
    };
    let op = if s.chance(2, 3) { Op::Upload } else { Op::Download };
    let n = s.usize(1, 3);
    let reqs = (0..n)
        .map(|_| {
            if op == Op::Upload {
                match s.weighted(&[4, 1, 2, 3]) {
                    0 => gen::good_put(s, p),
                    1 => gen::verify(s, p),
                    2 => gen::batch(s, p),
                    _ => gen::lock_req(s, p),
                }
            } else {
                match s.weighted(&[3, 2, 1]) {
                    0 => gen::get(s, p),
                    1 => gen::batch(s, p),
                    _ => Req::list(),
                }
            }
        })
        .collect();
    Visit {
        which,
        place: s.usize(0, 11),
        style: match s.weighted(&[3, 3, 1, 2, 2]) {
            0 => Style::Absolute,
            1 => Style::Relative(s.usize(0, 3)),
            2 => Style::Dot,
            3 => Style::Link,
            _ => Style::LinkedParent,
        },
        suffix: s.pick(&["", "", "", "/", "//", "/."]),
        noise: s.below(8),
        op,
        reqs,
    }
}

pub struct Naming;

impl Prop for Naming {
    type Case = Tour;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P26"
    }
    fn rule(&self) -> &'static str {
        "one repository is used by two names, and what one session has stored is of interest to the other"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            360_000
        } else {
            18_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Tour {
        let p = gen::pools(s);
        let mut repo = |s: &mut Src| Repo {
            form: *s.pick(&[
                Form::Work,
                Form::Bare,
                Form::Separate(true),
                Form::Separate(false),
            ]),
            name: if s.chance(1, 2) { 0 } else { s.usize(0, NAMES.len() - 1) },
            linked: (0..s.weighted(&[2, 3, 1])).map(|_| s.chance(1, 2)).collect(),
        };
        let repos = [repo(s), repo(s)];
        let n = s.usize(1, 5);
        let visits = (0..n).map(|_| visit(s, &p)).collect();
        Tour { repos, visits }
    }
    fn check(&self, case: &Tour, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let top = fs::canonicalize(ctx.fresh("n")?)?;
        let built = [
            build(&top.join("x"), &case.repos[0])?,
            build(&top.join("y"), &case.repos[1])?,
        ];
        fs::create_dir_all(top.join("empty/in"))?;
        fs::create_dir_all(top.join("links"))?;
        fs::write(top.join("file"), "")?;
        fs::create_dir_all(top.join("broken"))?;
        gitfile(&top.join("broken/.git"), b"../nowhere")?;
        symlink("nowhere", top.join("dangling"))?;
        let work = built[0].names.get(1).unwrap_or(&built[0].common).clone();
        let mut nowhere = vec![
            top.join("nothing"),
            top.join("empty"),
            top.join("empty/in"),
            top.join("file"),
            top.join("broken"),
            top.join("dangling"),
            top.clone(),
            built[0].common.join("refs"),
            built[0].common.join("objects"),
            built[0].common.join("HEAD"),
        ];
        if work != built[0].common {
            fs::create_dir_all(work.join("sub"))?;
            nowhere.push(work.join("sub"));
        }
        for (i, v) in case.visits.iter().enumerate() {
            let p = place(v, &built, &nowhere);
            symlink(&p, top.join(format!("links/to{}", i)))?;
            if let Some(d) = p.parent() {
                symlink(d, top.join(format!("links/above{}", i)))?;
            }
        }
        sys::chown_r(&top, NOBODY, sys::GID)?;

        let mut models = [Model::default(), Model::default()];
        let mut used: [Vec<PathBuf>; 2] = [vec![], vec![]];
        let mut fruitful = false;
        let stores: Vec<PathBuf> = built.iter().map(|b| b.common.join("lfs")).collect();
        let rest = |t: Tree| -> Tree {
            t.into_iter()
                .filter(|(p, _)| {
                    let p = top.join(p);
                    !stores.iter().any(|s| p.starts_with(s))
                })
                .collect()
        };
        let before = rest(store::tree(&top)?);
        for (i, v) in case.visits.iter().enumerate() {
            let p = place(v, &built, &nowhere);
            let cwds = [top.clone(), top.join("x"), built[1].common.clone(), top.join("empty/in")];
            let mut cwd = PathBuf::from("/");
            let mut arg = match v.style {
                Style::Absolute => p.clone(),
                Style::Relative(d) => {
                    cwd = cwds[d].clone();
                    relative(&cwd, &p)
                }
                Style::Dot if p.is_dir() => {
                    cwd = p.clone();
                    ".".into()
                }
                Style::Dot => p.clone(),
                // A link to the file `.git` is not one.
                Style::Link if !p.is_file() => top.join(format!("links/to{}", i)),
                Style::Link => p.clone(),
                Style::LinkedParent => match p.file_name() {
                    Some(n) => top.join(format!("links/above{}", i)).join(n),
                    None => p.clone(),
                },
            }
            .into_os_string();
            if p.is_dir() {
                arg.push(v.suffix);
            }
            let mut env: Vec<(&'static str, OsString)> = vec![];
            if v.noise & 3 == 3 {
                env.push(("GIT_DIR", built[1].common.clone().into()));
            }
            if v.noise & 5 == 5 {
                env.push(("GIT_WORK_TREE", top.join("empty").into()));
                env.push(("GIT_CEILING_DIRECTORIES", top.clone().into()));
            }
            let (n, lfs) = match v.which {
                Which::First | Which::None => (0, &stores[0]),
                Which::Second => (1, &stores[1]),
            };
            let w = World {
                top: top.clone(),
                repo: p.clone(),
                lfs: lfs.clone(),
                home: ctx.home.clone(),
                owner: NOBODY,
                arg,
                cwd,
                env,
            };
            let s = w.run(&run_for(v.op), &encode_all(&v.reqs))?;
            let what = || {
                format!(
                    "{:?} in {:?} with {:?} ({:?})",
                    B(w.arg.as_bytes().to_vec()),
                    w.cwd,
                    w.env,
                    p
                )
            };
            if let Which::None = v.which {
                ensure!(
                    matches!(s.exit, Exit::Code(c) if c != 0 && c != 101) && s.stdout.is_empty() && !s.stderr.is_empty(),
                    "{} is no repository, but: {}, {:?}",
                    what(),
                    s.describe(),
                    B(s.stdout.clone())
                );
                out.class("no repository");
            } else {
                let told = |e: vcore::Stop| match e {
                    vcore::Stop::Violation(m) => vcore::Stop::Violation(format!("{}: {}", what(), m)),
                    e => e,
                };
                let m = &mut models[n];
                let had = !m.objects.is_empty() || !m.locks.is_empty();
                let resps = s.complete(v.reqs.len()).map_err(told)?;
                m.session(&who(v.op), &v.reqs, &resps).map_err(told)?;
                if had && !used[n].contains(&p) {
                    fruitful = true;
                }
                used[n].push(p.clone());
                out.class(format!("{:?}", v.style).split('(').next().unwrap_or("").to_string());
                let r = p.strip_prefix(&top).unwrap_or(&p).to_string_lossy().into_owned();
                if r.contains("worktrees") || r.contains("linked") {
                    out.class("linked working tree");
                }
                if p.is_file() {
                    out.class("file .git");
                }
                if !v.noise & 3 == 0 {
                    out.class("GIT_DIR in the environment");
                }
            }
            for (m, s) in models.iter().zip(&stores) {
                m.check_store(&Store::read(s)?, true).map_err(|e| match e {
                    vcore::Stop::Violation(m) => vcore::Stop::Violation(format!("after {}: {}: {}", what(), s.display(), m)),
                    e => e,
                })?;
            }
            if let Some(d) = store::diff(&before, &rest(store::tree(&top)?)) {
                vcore::violation!("{} changed something outside of the store: {}", what(), d);
            }
        }
        out.executions = case.visits.len() as u64;
        out.nontrivial = fruitful;
        Ok(())
    }
}

fn place(v: &Visit, built: &[Built; 2], nowhere: &[PathBuf]) -> PathBuf {
    let names = match v.which {
        Which::First => &built[0].names,
        Which::Second => &built[1].names,
        Which::None => nowhere,
    };
    names[v.place % names.len()].clone()
}
