//! git recent-refs: P22 and P23.

use crate::gitat;
use crate::repo::{self, Commit, Done, GitRepo, EMPTY_TREE};
use crate::store::Ctx;
use crate::sys::{self, Exit};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use vcore::{ensure, violation, Check, Outcome, Prop, Src, Stop, B};

fn lines(d: &Done, what: &str) -> Check<Vec<String>> {
    ensure!(
        d.exit == Exit::Code(0) && d.err.is_empty(),
        "{} fails: {:?}",
        what,
        d
    );
    let t = match String::from_utf8(d.out.0.clone()) {
        Ok(t) => t,
        Err(_) => violation!("{} prints something odd: {:?}", what, d),
    };
    ensure!(
        t.is_empty() || t.ends_with('\n'),
        "{} leaves the last line incomplete: {:?}",
        what,
        d
    );
    Ok(t.lines().map(|l| l.to_string()).collect())
}

/// A linked working tree, as made by git worktree add.
pub fn linked(r: &GitRepo) -> Check<(PathBuf, PathBuf)> {
    let git = r.git.join("worktrees/linked");
    let work = r.work.join("linked");
    fs::create_dir_all(&git)?;
    fs::create_dir_all(&work)?;
    fs::write(git.join("commondir"), "../..\n")?;
    fs::write(git.join("gitdir"), format!("{}/.git\n", work.display()))?;
    fs::write(work.join(".git"), format!("gitdir: {}\n", git.display()))?;
    Ok((git, work))
}

// ---------------------------------------------------------------------------------------------
// P22

#[derive(Debug, Clone, Copy, PartialEq)]
enum Target {
    Commit(usize),
    /// An annotated tag, of so many levels.
    Note(usize, u32),
    Tree,
    TreeNote,
    Blob,
    /// A commit which is not there.
    Missing,
    /// Nothing which makes sense.
    Garbage,
    /// Another reference, by number.
    Sym(usize),
    /// A reference which does not exist.
    Nowhere,
}

#[derive(Debug)]
pub struct Ref {
    name: B,
    target: Target,
    /// Whether it is loose, packed, or both, with another target in the packed one.
    place: u8,
    other: usize,
}

#[derive(Debug)]
pub struct ByDate {
    commits: Vec<Commit>,
    refs: Vec<Ref>,
    head: usize,
    detached: bool,
    bare: bool,
    place: u8,
    stray: bool,
    gc: bool,
}

fn full_name(s: &mut Src) -> B {
    let dir: &str = s.pick(&[
        "refs/heads/",
        "refs/heads/",
        "refs/heads/topic/",
        "refs/tags/",
        "refs/remotes/origin/",
        "refs/notes/",
        "refs/",
        "refs/pull/1/",
    ]);
    let mut n = dir.as_bytes().to_vec();
    match s.weighted(&[8, 2, 2, 1]) {
        0 => n.extend(format!("r{}", s.below(12)).bytes()),
        1 => n.extend_from_slice(
            s.pick(&["main", "stash", "HEAD", "é", "日本", "a b".trim_end_matches(" b"), "@x", "x.y", "-x", "#1", "%25"])
                .as_bytes(),
        ),
        2 => n.extend(format!("deep/{}/x", s.below(3)).bytes()),
        // Not UTF-8.
        _ => n.extend_from_slice(b"\xe9t\xe9"),
    }
    B(n)
}

impl ByDate {
    fn clashes(a: &[u8], b: &[u8]) -> bool {
        let within = |a: &[u8], b: &[u8]| {
            b.len() > a.len() && b.starts_with(a) && b[a.len()] == b'/'
        };
        a == b || within(a, b) || within(b, a)
    }
}

pub struct Dates;

impl Prop for Dates {
    type Case = ByDate;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P22"
    }
    fn rule(&self) -> &'static str {
        "there are at least three references to commits of different dates, in an order other than by name, and author and committer dates order them differently or some reference does not count"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            750_000
        } else {
            40_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> ByDate {
        let n = s.usize(1, 10);
        let mut commits = gitat::history(s, n, |_, i| format!("{}\n", i).into());
        for c in commits.iter_mut() {
            if s.chance(1, 2) {
                // So that they are close to each other, too.
                c.author_time = c.time.saturating_add(s.range(0, 40) as i64);
            }
        }
        let max = match s.below(1000) {
            0 => 6000,
            1..=24 => 400,
            _ => 14,
        };
        let mut refs: Vec<Ref> = vec![];
        for i in 0..s.usize(0, max) {
            let mut name = full_name(s);
            if max > 100 {
                name = format!("refs/heads/many/{}", i).into();
            }
            if max <= 100 && refs.iter().any(|r| ByDate::clashes(&r.name, &name)) {
                continue;
            }
            let c = s.usize(0, n - 1);
            let target = match s.weighted(&[12, 4, 1, 1, 1, 1, 1, 2, 1]) {
                0 => Target::Commit(c),
                1 => Target::Note(c, if s.chance(1, 8) { s.range(4, 12) } else { s.range(1, 3) } as u32),
                2 => Target::Tree,
                3 => Target::TreeNote,
                4 => Target::Blob,
                5 => Target::Missing,
                6 => Target::Garbage,
                7 if !refs.is_empty() => Target::Sym(s.usize(0, refs.len() - 1)),
                7 => Target::Commit(c),
                _ => Target::Nowhere,
            };
            let place = match target {
                Target::Garbage | Target::Sym(_) | Target::Nowhere => 0,
                _ => s.weighted(&[4, 3, 1]) as u8,
            };
            refs.push(Ref {
                name,
                target,
                place,
                other: s.usize(0, n - 1),
            });
        }
        ByDate {
            head: s.usize(0, n - 1),
            commits,
            refs,
            detached: s.chance(1, 4),
            bare: s.chance(1, 3),
            place: s.below(4) as u8,
            stray: s.chance(1, 6),
            gc: s.chance(1, 30),
        }
    }
    fn check(&self, case: &ByDate, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let r = GitRepo::new(ctx, "g", case.bare)?;
        let ids = r.commits(&case.commits)?;
        let blob = r.object("blob", b"x")?;
        let tree_note = r.tag(EMPTY_TREE, "tree", "t", 5)?;
        let missing = "1234567890123456789012345678901234567890".to_string();
        let mut packed: Vec<(Vec<u8>, String, Option<String>)> = vec![];
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        let mut special = false;
        for (i, x) in case.refs.iter().enumerate() {
            let path = r.git.join(OsStr::from_bytes(&x.name));
            fs::create_dir_all(path.parent().unwrap())?;
            let (id, peeled) = match x.target {
                Target::Commit(c) => (ids[c].clone(), None),
                Target::Note(c, n) => {
                    let mut id = r.tag(&ids[c], "commit", &format!("n{}", i), 5)?;
                    for _ in 1..n {
                        id = r.tag(&id, "tag", &format!("n{}", i), 5)?;
                    }
                    (id, Some(ids[c].clone()))
                }
                Target::Tree => (EMPTY_TREE.to_string(), None),
                Target::TreeNote => (tree_note.clone(), Some(EMPTY_TREE.to_string())),
                Target::Blob => (blob.clone(), None),
                Target::Missing => (missing.clone(), None),
                Target::Garbage => {
                    fs::write(&path, "nothing of the kind\n")?;
                    continue;
                }
                Target::Nowhere => {
                    fs::write(&path, "ref: refs/heads/no/where\n")?;
                    continue;
                }
                Target::Sym(t) => {
                    let mut v = b"ref: ".to_vec();
                    v.extend_from_slice(&case.refs[t].name);
                    v.push(b'\n');
                    fs::write(&path, v)?;
                    special = true;
                    continue;
                }
            };
            if x.place != 1 {
                fs::write(&path, format!("{}\n", id))?;
            }
            if x.place != 0 {
                let p = match x.place {
                    1 => (x.name.0.clone(), id, peeled),
                    _ => (x.name.0.clone(), ids[x.other].clone(), None),
                };
                packed.push(p);
            }
            match x.target {
                Target::Commit(c) | Target::Note(c, _) => {
                    if let Ok(n) = String::from_utf8(x.name.0.clone()) {
                        want.insert(n, c);
                    }
                }
                _ => special = true,
            }
        }
        packed.sort();
        let mut v = b"# pack-refs with: peeled fully-peeled sorted \n".to_vec();
        for (n, id, p) in &packed {
            v.extend(format!("{} ", id).bytes());
            v.extend_from_slice(n);
            v.push(b'\n');
            if let Some(p) = p {
                v.extend(format!("^{}\n", p).bytes());
            }
        }
        if !packed.is_empty() {
            r.file("packed-refs", &v)?;
        }
        if case.stray {
            // A process which died while it changed a reference.
            r.file("refs/heads/left.lock", format!("{}\n", ids[0]).as_bytes())?;
            fs::create_dir_all(r.git.join("refs/heads/empty/er"))?;
        }
        if case.detached {
            r.file("HEAD", format!("{}\n", ids[case.head]).as_bytes())?;
        }
        r.file("ORIG_HEAD", format!("{}\n", ids[0]).as_bytes())?;
        let mut cwd = r.work.clone();
        match (case.place, case.bare) {
            (0, false) => {
                cwd = cwd.join("sub/dir");
                fs::create_dir_all(&cwd)?;
            }
            (1, false) => {
                let (g, w) = linked(&r)?;
                fs::write(g.join("HEAD"), format!("{}\n", ids[0]))?;
                cwd = w;
            }
            (0, true) => cwd = cwd.join("refs"),
            _ => {}
        }
        r.own()?;
        let clean = !special && !case.refs.iter().any(|r| r.target == Target::Garbage || r.target == Target::Nowhere);
        if case.gc && clean && !case.stray {
            r.git_ok(&["pack-refs", "--all", "--prune"])?;
            r.git_ok(&["repack", "-adq"])?;
            out.class("packed by Git");
        }
        out.executions = 0;
        let time = |c: &Commit, author: bool| if author { c.author_time } else { c.time };
        for author in [false, true] {
            let opt = if author { "authordate" } else { "committerdate" };
            let prog = sys::bin("git-recent-refs");
            let argv: Vec<B> = match case.place & 1 {
                0 => vec![format!("--sort={}", opt).into()],
                _ => vec!["--sort".into(), opt.into()],
            };
            let mut a: Vec<&OsStr> = vec![prog.as_os_str()];
            a.extend(argv.iter().map(|a| OsStr::from_bytes(a)));
            let d = r.run_in(&a, &cwd)?;
            out.executions += 1;
            let what = format!("git recent-refs --sort={}", opt);
            let got = lines(&d, &what)?;
            let mut names: Vec<&String> = got.iter().collect();
            names.sort();
            let all: Vec<&String> = want.keys().collect();
            if names != all {
                let extra: Vec<_> = names.iter().filter(|n| !want.contains_key(**n)).collect();
                let less: Vec<_> = all.iter().filter(|n| !names.contains(n)).collect();
                violation!(
                    "{} prints {} references instead of {}: {:?} are missing, {:?} should not be there",
                    what,
                    names.len(),
                    all.len(),
                    less,
                    extra
                );
            }
            for w in got.windows(2) {
                let t = |n: &String| time(&case.commits[want[n]], author);
                ensure!(
                    t(&w[0]) >= t(&w[1]),
                    "{} prints {} of {} before {} of {}",
                    what,
                    w[0],
                    t(&w[0]),
                    w[1],
                    t(&w[1])
                );
            }
        }
        let order = |author: bool| {
            let mut v: Vec<(i64, &String)> = want
                .iter()
                .map(|(n, c)| (-time(&case.commits[*c], author), n))
                .collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect::<Vec<_>>()
        };
        let by_name: Vec<&String> = want.keys().collect();
        let differ = order(false) != order(true);
        if want.len() >= 3 && order(false) != by_name && (differ || special) {
            out.nontrivial = true;
        }
        out.class(match want.len() {
            0 => "none",
            1..=3 => "up to 3",
            4..=14 => "up to 14",
            _ => "many",
        });
        if differ {
            out.class("author and committer dates differ");
        }
        if special {
            out.class("references which do not count");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P23

#[derive(Debug, Clone)]
enum What {
    Branch(usize),
    Commit(usize),
    /// A commit which has been removed.
    Gone,
}

#[derive(Debug)]
enum Entry {
    /// What was left, and what was given as the destination if that is neither a branch nor an ID.
    Checkout(What, Option<B>),
    Other(B),
}

/// Something done with Git itself.
#[derive(Debug)]
enum Op {
    Checkout(usize),
    Create(usize),
    Detach(usize),
    Tag(usize),
    Back,
    Commit,
    Reset(usize),
    Rename(usize, usize),
    Delete(usize),
    Merge(usize),
    Switch(usize),
    Rebase(usize),
    Orphan(usize),
}

#[derive(Debug)]
enum How {
    /// The reflog as Git would have written it.
    Written(Vec<Entry>),
    Real(Vec<Op>),
}

#[derive(Debug)]
pub struct Visits {
    commits: Vec<Commit>,
    /// Whether each branch still exists, and how.
    branches: Vec<u8>,
    /// Which other kinds of references have a branch's name.
    others: Vec<(usize, u8)>,
    head: What,
    how: How,
    linked: bool,
    explicit: bool,
    no_log: bool,
}

const BRANCHES: [&str; 15] = [
    "main",
    "dev",
    "a/b",
    "a/to",
    "é",
    "to",
    "v1",
    "origin",
    "HEAD2",
    "beefbeefbeefbeefbeefbeefbeefbeefbeef",
    "heads/main",
    "refs/heads/dev",
    "refs/tags/v1",
    "beefbee",
    "HEAD",
];

impl Visits {
    fn what(s: &mut Src, n: usize) -> What {
        match s.weighted(&[8, 4, 1]) {
            0 => What::Branch(s.usize(0, BRANCHES.len() - 1)),
            1 => What::Commit(s.usize(0, n - 1)),
            _ => What::Gone,
        }
    }
}

pub struct Visited;

impl Prop for Visited {
    type Case = Visits;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P23"
    }
    fn rule(&self) -> &'static str {
        "at least three checkouts, and a branch which is gone, a detached commit, or a name which is ambiguous among them"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            300_000
        } else {
            32_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Visits {
        let n = s.usize(1, 5);
        let mut commits = gitat::history(s, n, |_, i| format!("{}\n", i).into());
        for (i, c) in commits.iter_mut().enumerate() {
            c.time = 1_600_000_000 + i as i64;
            c.author_time = c.time;
            c.who = "A U Thor <a@example.com>".into();
            c.headers = "".into();
        }
        let how = if s.chance(1, 6) {
            How::Real(
                (0..s.usize(1, 9))
                    .map(|_| {
                        let b = s.usize(0, BRANCHES.len() - 1);
                        let c = s.usize(0, n - 1);
                        match s.weighted(&[6, 5, 3, 1, 3, 2, 1, 2, 2, 1, 2, 1, 1]) {
                            0 => Op::Checkout(b),
                            1 => Op::Create(b),
                            2 => Op::Detach(c),
                            3 => Op::Tag(b),
                            4 => Op::Back,
                            5 => Op::Commit,
                            6 => Op::Reset(c),
                            7 => Op::Rename(b, s.usize(0, BRANCHES.len() - 1)),
                            8 => Op::Delete(b),
                            9 => Op::Merge(b),
                            10 => Op::Switch(b),
                            11 => Op::Rebase(b),
                            _ => Op::Orphan(b),
                        }
                    })
                    .collect(),
            )
        } else {
            let k = match s.weighted(&[120, 3, 1]) {
                0 => s.usize(0, 14),
                1 => s.usize(100, 1000),
                _ => s.usize(2000, 12_000),
            };
            How::Written(
                (0..k)
                    .map(|_| match s.weighted(&[6, 2]) {
                        0 => {
                            let from = Visits::what(s, n);
                            let to = if s.chance(1, 8) {
                                Some(
                                    (*s.pick(&[
                                        &b":/Fix to dev"[..],
                                        b"HEAD~1",
                                        b"caf\xe9",
                                        b":/main to main to main",
                                        b"refs/tags/v1^0",
                                        b"HEAD@{1 day ago}",
                                        b"-",
                                    ]))
                                    .into(),
                                )
                            } else {
                                None
                            };
                            Entry::Checkout(from, to)
                        }
                        _ => Entry::Other(
                            (*s.pick(&[
                                &b"commit: More"[..],
                                b"commit (initial): First",
                                b"reset: moving to HEAD~1",
                                b"merge dev: Fast-forward",
                                b"rebase (start): checkout dev",
                                b"rebase (finish): returning to refs/heads/main",
                                b"Branch: renamed refs/heads/dev to refs/heads/a/b",
                                b"commit: checkout: moving from main to dev",
                                b"commit: \xe9t\xe9",
                                b"checkout: moving",
                                b"checkout: moving from main",
                                b"pull: checkout: moving from to to to",
                                b"clone: from somewhere to main",
                                b"",
                            ]))
                            .into(),
                        ),
                    })
                    .collect(),
            )
        };
        let head = loop {
            match Visits::what(s, n) {
                What::Gone => continue,
                w => break w,
            }
        };
        let mut branches: Vec<u8> = BRANCHES.iter().map(|_| s.weighted(&[4, 3, 2]) as u8).collect();
        if let What::Branch(b) = head {
            branches[b] = branches[b].min(1);
        }
        Visits {
            commits,
            branches,
            others: (0..s.usize(0, 4))
                .map(|_| (s.usize(0, BRANCHES.len() - 1), s.below(5) as u8))
                .collect(),
            head,
            how,
            linked: s.chance(1, 8),
            explicit: s.chance(1, 2),
            no_log: s.chance(1, 40),
        }
    }
    fn check(&self, case: &Visits, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let r = GitRepo::new(ctx, "g", false)?;
        let ids = r.commits(&case.commits)?;
        let gone = "00112233445566778899aabbccddeeff00112233";
        let mut packed = BTreeMap::new();
        for (i, b) in BRANCHES.iter().enumerate() {
            let id = &ids[i % ids.len()];
            match case.branches[i] {
                0 => r.set_ref(&format!("refs/heads/{}", b), id)?,
                1 => {
                    packed.insert(format!("refs/heads/{}", b), (id.clone(), None));
                }
                _ => {}
            }
        }
        for (b, kind) in &case.others {
            let name = BRANCHES[*b];
            let id = &ids[0];
            let full = match kind {
                0 => format!("refs/tags/{}", name),
                1 => format!("refs/remotes/{}", name),
                2 => format!("refs/remotes/{}/HEAD", name),
                3 => format!("refs/{}", name),
                // Something like refs/heads/refs/heads/main.
                _ => format!("refs/heads/refs/heads/{}", name),
            };
            // One may be in the way of another.
            if packed.keys().any(|p: &String| p.starts_with(&full) || full.starts_with(p.as_str()))
                || r.git.join(&full).exists()
            {
                continue;
            }
            packed.insert(full, (id.clone(), None));
        }
        r.packed(&packed)?;
        let head_text = match &case.head {
            What::Branch(b) => format!("ref: refs/heads/{}\n", BRANCHES[*b]),
            What::Commit(c) => format!("{}\n", ids[*c]),
            What::Gone => unreachable!(),
        };
        let mut git = r.git.clone();
        let mut cwd = r.work.clone();
        if case.linked {
            r.file("HEAD", b"ref: refs/heads/main\n")?;
            let (g, w) = linked(&r)?;
            git = g;
            cwd = w;
        }
        fs::write(git.join("HEAD"), &head_text)?;
        let text = |w: &What| match w {
            What::Branch(b) => BRANCHES[*b].to_string(),
            What::Commit(c) => ids[*c].clone(),
            What::Gone => gone.to_string(),
        };
        match &case.how {
            How::Written(entries) => {
                let mut v = vec![];
                for (i, e) in entries.iter().enumerate() {
                    let id = &ids[i % ids.len()];
                    v.extend(
                        format!("{} {} A U Thor <a@example.com> {} +0000\t", id, id, 1_600_000_000 + i)
                            .bytes(),
                    );
                    match e {
                        Entry::Checkout(w, Some(to)) => {
                            v.extend(format!("checkout: moving from {} to ", text(w)).bytes());
                            v.extend_from_slice(to);
                            v.push(b'\n');
                        }
                        Entry::Checkout(w, None) => {
                            // Where it went is where the next one starts, or HEAD is now.
                            let next = entries[i + 1..]
                                .iter()
                                .find_map(|e| match e {
                                    Entry::Checkout(w, _) => Some(w),
                                    _ => None,
                                })
                                .unwrap_or(&case.head);
                            v.extend(
                                format!("checkout: moving from {} to {}\n", text(w), text(next)).bytes(),
                            );
                        }
                        Entry::Other(m) => {
                            v.extend_from_slice(m);
                            v.push(b'\n');
                        }
                    }
                }
                if !case.no_log {
                    let p = git.join("logs/HEAD");
                    fs::create_dir_all(p.parent().unwrap())?;
                    fs::write(p, v)?;
                }
            }
            How::Real(_) => {}
        }
        r.own()?;
        if let How::Real(ops) = &case.how {
            real(&r, &cwd, ops, &ids, out)?;
        }
        // The first line.
        let head = fs::read_to_string(git.join("HEAD"))?;
        let exists = |full: &str| -> Check<bool> {
            if r.git.join(full).is_file() {
                return Ok(true);
            }
            let p = fs::read_to_string(r.git.join("packed-refs")).unwrap_or_default();
            Ok(p.lines().any(|l| l.len() > 41 && &l[41..] == full))
        };
        let first: Vec<String> = match head.strip_prefix("ref: ") {
            Some(f) if exists(f.trim_end())? => vec![f.trim_end().to_string()],
            // An unborn branch.
            Some(_) => vec![],
            None => vec![head.trim_end().to_string(), "HEAD".into()],
        };
        // The rest.
        let mut rest = vec![];
        let mut special = false;
        let mut checkouts = 0;
        let mut moves: Vec<String> = vec![];
        match &case.how {
            How::Written(entries) => {
                if !case.no_log {
                    for e in entries.iter().rev() {
                        if let Entry::Checkout(w, _) = e {
                            moves.push(text(w));
                        }
                    }
                }
            }
            How::Real(_) => {
                let log = messages(&git);
                for l in log {
                    if let Some(m) = l.strip_prefix("checkout: moving from ") {
                        match m.split(' ').collect::<Vec<_>>()[..] {
                            [from, "to", _] => moves.push(from.to_string()),
                            _ => return Err(Stop::Error(format!("reflog message {:?}", l))),
                        }
                    }
                }
            }
        }
        for m in &moves {
            checkouts += 1;
            let full = format!("refs/heads/{}", m);
            if exists(&full)? {
                rest.push(full);
                if case.others.iter().any(|(b, _)| BRANCHES[*b] == m) {
                    special = true;
                }
            } else if m.len() == 40 && r.git.join("objects").join(&m[..2]).join(&m[2..]).exists() {
                rest.push(m.clone());
                special = true;
            } else {
                special = true;
            }
        }
        let prog = sys::bin("git-recent-refs");
        let mut argv = vec![prog.as_os_str()];
        if case.explicit {
            argv.push(OsStr::new("--sort=visitdate"));
        }
        let d = r.run_in(&argv, &cwd)?;
        let got = lines(&d, "git recent-refs")?;
        let ok = match got.split_first() {
            None => first.is_empty() && rest.is_empty(),
            Some((f, r)) => {
                (first.contains(f) && r == rest) || (first.is_empty() && (got == rest || r == rest))
            }
        };
        if !ok {
            let at = rest
                .iter()
                .zip(got.iter().skip(!first.is_empty() as usize))
                .position(|(a, b)| a != b)
                .unwrap_or(0);
            let show = |v: &[String]| format!("{:?}", &v[at.min(v.len())..v.len().min(at + 12)]);
            violation!(
                "git recent-refs prints {} lines and should print {}; starting with number {}, they are {} instead of {} (the first one is to be {:?})",
                got.len(),
                first.len().min(1) + rest.len(),
                at + 1,
                show(&got),
                show(&rest),
                first
            );
        }
        if checkouts >= 3 && special {
            out.nontrivial = true;
        }
        out.class(match case.how {
            How::Real(_) => "done by Git",
            How::Written(_) => "written reflog",
        });
        out.class(match checkouts {
            0 => "no checkouts",
            1..=2 => "1 or 2 checkouts",
            3..=14 => "3 to 14 checkouts",
            _ => "more checkouts",
        });
        Ok(())
    }
}

/// The messages of HEAD's reflog, the latest first. As HEAD may be unborn, Git itself may refuse to
/// show them.
fn messages(git: &Path) -> Vec<String> {
    let v = fs::read(git.join("logs/HEAD")).unwrap_or_default();
    let mut m: Vec<String> = String::from_utf8_lossy(&v)
        .lines()
        .map(|l| l.split_once('\t').map(|x| x.1).unwrap_or("").to_string())
        .collect();
    m.reverse();
    m
}

/// Do things with Git, some of which are refused.
fn real(r: &GitRepo, cwd: &Path, ops: &[Op], ids: &[String], out: &mut Outcome) -> Check {
    for o in ops {
        let b = |i: &usize| BRANCHES[*i].to_string();
        let v: Vec<String> = match o {
            Op::Checkout(i) => vec!["checkout".into(), "-q".into(), b(i), "--".into()],
            Op::Create(i) => vec!["checkout".into(), "-q".into(), "-b".into(), b(i)],
            Op::Detach(c) => vec!["checkout".into(), "-q".into(), ids[*c].clone()],
            Op::Tag(i) => vec!["checkout".into(), "-q".into(), format!("tags/{}", b(i))],
            Op::Back => vec!["checkout".into(), "-q".into(), "-".into()],
            Op::Commit => vec!["commit".into(), "-q".into(), "--allow-empty".into(), "-m".into(), "x".into()],
            Op::Reset(c) => vec!["reset".into(), "-q".into(), "--hard".into(), ids[*c].clone()],
            Op::Rename(i, j) => vec!["branch".into(), "-m".into(), b(i), b(j)],
            Op::Delete(i) => vec!["branch".into(), "-q".into(), "-D".into(), b(i)],
            Op::Merge(i) => vec![
                "merge".into(),
                "-q".into(),
                "--allow-unrelated-histories".into(),
                "-m".into(),
                "m".into(),
                b(i),
            ],
            Op::Switch(i) => vec!["switch".into(), "-q".into(), b(i)],
            Op::Rebase(i) => vec!["rebase".into(), "-q".into(), b(i)],
            Op::Orphan(i) => vec!["checkout".into(), "-q".into(), "--orphan".into(), b(i)],
        };
        let mut a = vec!["/usr/bin/git".to_string()];
        a.extend(v);
        let d: repo::Done = r.run_in(&a, cwd)?;
        if d.exit == Exit::Code(0) {
            out.class(format!("git {}", a[1]));
        }
    }
    Ok(())
}
