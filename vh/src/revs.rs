//! Which revision git at starts from, and how it ends: P21.

use crate::gitat;
use crate::repo::{self, Commit, GitRepo};
use crate::store::Ctx;
use crate::sys::{self, Exit};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use vcore::{ensure, violation, Check, Outcome, Prop, Src, B};

/// A name under refs.
#[derive(Debug, Clone, Copy)]
enum Kind {
    Head,
    Tag,
    /// An annotated tag.
    Note,
    /// A tag of an annotated tag.
    Nested,
    /// A tag of a tree or blob.
    Odd,
    Remote,
    Other,
}

#[derive(Debug)]
pub struct Name {
    kind: Kind,
    name: &'static str,
    target: usize,
    packed: bool,
    log: Vec<usize>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Text {
    All,
    Never,
    Invalid(&'static str),
    /// The summary of a commit.
    Only(usize),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Show {
    No,
    Real,
    /// Something instead of Git, which ends this way.
    Fake(u8),
    Killed,
}

#[derive(Debug)]
pub struct Ask {
    rev: Option<B>,
    text: Text,
    quiet: bool,
    summary: bool,
    no_fixup: bool,
    show: Show,
}

#[derive(Debug)]
pub struct Resolve {
    commits: Vec<Commit>,
    names: Vec<Name>,
    /// The branch HEAD is at, or the commit.
    head: Result<usize, usize>,
    head_log: Vec<(usize, Option<usize>)>,
    upstream: Vec<(usize, usize)>,
    asks: Vec<Ask>,
}

const NAMES: [&str; 9] = [
    "main", "dev", "same", "a/b", "beef", "v1.0", "é", "x-1-gabcd", "heads",
];

impl Name {
    fn full(&self) -> String {
        let d = match self.kind {
            Kind::Head => "heads",
            Kind::Tag | Kind::Note | Kind::Nested | Kind::Odd => "tags",
            Kind::Remote => "remotes/origin",
            Kind::Other => "other",
        };
        format!("refs/{}/{}", d, self.name)
    }
}

pub fn summary_of(i: usize) -> String {
    format!("commit {} ends", i)
}

/// Where it starts.
fn base(s: &mut Src, names: &[Name], ids: &[String]) -> String {
    let name = |s: &mut Src| {
        let n = s.pick(names);
        let f = n.full();
        match s.weighted(&[6, 2, 2]) {
            0 => n.name.to_string(),
            1 => f,
            _ => f["refs/".len()..].to_string(),
        }
    };
    match s.weighted(&[3, 2, 10, 4, 3, 2, 2, 2, 2, 2]) {
        0 => "HEAD".into(),
        1 => "@".into(),
        2 => name(s),
        3 => s.pick(ids).clone(),
        4 => {
            let i = s.pick(ids);
            let n = s.usize(6, 39);
            let t = &i[..n];
            if s.chance(1, 4) {
                t.to_uppercase()
            } else {
                t.into()
            }
        }
        5 => {
            // Unambiguously, as Git looks for one with a reflog.
            let n = s.pick(names);
            let f = n.full();
            let n = match names.iter().filter(|o| o.name == n.name).count() {
                1 if s.chance(1, 2) => n.name.to_string(),
                _ if s.chance(1, 2) => f,
                _ => f["refs/".len()..].to_string(),
            };
            format!("{}@{{{}}}", n, s.below(4))
        }
        6 => match s.weighted(&[3, 1, 1]) {
            0 => format!("@{{{}}}", s.below(4)),
            1 => format!("HEAD@{{{}}}", s.below(4)),
            _ => format!("@{{-{}}}", s.range(1, 4)),
        },
        7 => match s.below(3) {
            0 => "@{u}".into(),
            k => {
                let n = s.pick(names).name;
                if names.iter().filter(|o| o.name == n).count() > 1 {
                    return "@{upstream}".into();
                }
                format!("{}@{{{}}}", n, if k == 1 { "upstream" } else { "u" })
            }
        },
        8 => match s.below(3) {
            0 => format!(":/{}", summary_of(s.usize(0, ids.len() - 1))),
            1 => format!(":/commit {}", s.below(4)),
            _ => ":/ends".into(),
        },
        _ => {
            let i = s.pick(ids);
            format!("v1.0-{}-g{}", s.below(9), &i[..s.usize(6, 12)])
        }
    }
}

fn expression(s: &mut Src, names: &[Name], ids: &[String]) -> String {
    if s.chance(1, 10) {
        return (*s.pick(&[
            "none",
            "refs/heads/none",
            "none^",
            "0000000000000000000000000000000000000001",
            "abcdef1",
            "origin/none~2",
            "HEAD~99",
            "HEAD^9",
            "HEAD^{/not there}",
            ":/not there",
        ]))
        .into();
    }
    let mut e = base(s, names, ids);
    if e.starts_with(":/") {
        return e;
    }
    for _ in 0..s.weighted(&[5, 5, 3, 1]) {
        let x = match s.weighted(&[4, 3, 2, 2, 2, 3, 2, 2, 1, 1, 1, 1]) {
            0 => "^".to_string(),
            1 => "~".to_string(),
            2 => format!("~{}", s.below(4)),
            3 => format!("^{}", s.below(3)),
            4 => "^{}".to_string(),
            5 => "^{commit}".to_string(),
            6 => format!("^{{/{}}}", summary_of(s.usize(0, ids.len() - 1))),
            7 => "^0".to_string(),
            8 => "^{tree}".to_string(),
            9 => "^{tag}".to_string(),
            10 => "^{object}".to_string(),
            _ => format!("^{{/!-{}}}", summary_of(s.usize(0, ids.len() - 1))),
        };
        // Git takes something like this for a date if it finds nothing.
        if e.contains("@{") && x.starts_with("^{") && (x != "^{commit}" || !e.ends_with('}')) {
            continue;
        }
        e.push_str(&x);
    }
    e
}

/// The commits, with different dates, such that their order is clear.
fn commits(s: &mut Src) -> Vec<Commit> {
    let n = s.usize(1, 8);
    let mut c = gitat::history(s, n, |_, i| format!("{}\n\nMore\n", summary_of(i)).into());
    for (i, c) in c.iter_mut().enumerate() {
        c.time = 1_700_000_000 + i as i64 * 100;
    }
    c
}

fn ids_of(commits: &[Commit]) -> Vec<String> {
    let mut ids = vec![];
    for c in commits {
        ids.push(repo::id_of("commit", &c.encode(&ids, repo::EMPTY_TREE)));
    }
    ids
}

fn log(ids: &[String], entries: &[(usize, String)]) -> Vec<u8> {
    let mut old = "0".repeat(40);
    let mut v = String::new();
    for (i, (c, m)) in entries.iter().enumerate() {
        v.push_str(&format!(
            "{} {} A <a@example.com> {} +0000\t{}\n",
            old,
            ids[*c],
            1_700_001_000 + 50 * i,
            m
        ));
        old = ids[*c].clone();
    }
    v.into_bytes()
}

impl Ask {
    pub fn without_show(mut self) -> Ask {
        self.show = Show::No;
        self
    }
    pub fn argv(&self) -> Vec<OsString> {
        let text = match self.text {
            Text::All => String::new(),
            Text::Never => "(?!)".into(),
            Text::Invalid(t) => t.into(),
            Text::Only(i) => format!("^{}", summary_of(i)),
        };
        let mut argv: Vec<OsString> = vec![sys::bin("git-at").into_os_string()];
        for (on, o) in [
            (self.quiet, "--quiet"),
            (self.summary, "--summary"),
            (self.no_fixup, "--no-fixup"),
            (self.show != Show::No, "--show"),
        ] {
            if on {
                argv.push(o.into());
            }
        }
        if let Some(e) = &self.rev {
            argv.push(String::from_utf8_lossy(e).into_owned().into());
        }
        argv.push(text.into());
        argv
    }
}

impl Resolve {
    /// Pairs of commits and the ancestors of each.
    pub fn ancestors(&self) -> Vec<(usize, usize)> {
        let mut sets: Vec<std::collections::BTreeSet<usize>> = vec![];
        for c in &self.commits {
            let mut a = std::collections::BTreeSet::new();
            for p in &c.parents {
                a.insert(*p);
                a.extend(sets[*p].iter().copied());
            }
            sets.push(a);
        }
        let all = sets.iter().enumerate();
        all.flat_map(|(i, a)| a.iter().map(move |p| (i, *p))).collect()
    }

    pub fn take_asks(&mut self) -> Vec<Ask> {
        std::mem::take(&mut self.asks)
    }

    /// Write it all to an empty repository, and return the commits' IDs, and what each object is,
    /// once peeled.
    pub fn build(&self, r: &GitRepo) -> Check<(Vec<String>, BTreeMap<String, Option<usize>>)> {
        let ids = r.commits(&self.commits)?;
        let blob = r.object("blob", b"some text\n")?;
        // What each object is, once peeled.
        let mut peeled: BTreeMap<String, Option<usize>> = BTreeMap::new();
        for (i, id) in ids.iter().enumerate() {
            peeled.insert(id.clone(), Some(i));
        }
        peeled.insert(blob.clone(), None);
        peeled.insert(repo::EMPTY_TREE.into(), None);
        let mut packed = BTreeMap::new();
        let mut targets = vec![];
        for n in &self.names {
            let c = &ids[n.target];
            let note = |t: &str, k: &str| r.tag(t, k, n.name, 1_700_000_500);
            let id = match n.kind {
                Kind::Note => note(c, "commit")?,
                Kind::Nested => note(&note(c, "commit")?, "tag")?,
                Kind::Odd if n.target % 2 == 0 => blob.clone(),
                Kind::Odd => note(repo::EMPTY_TREE, "tree")?,
                _ => c.clone(),
            };
            let to = match n.kind {
                Kind::Odd => None,
                _ => Some(n.target),
            };
            if let Kind::Nested = n.kind {
                peeled.insert(note(c, "commit")?, to);
            }
            peeled.insert(id.clone(), to);
            if n.packed {
                let p = (id != *c).then(|| match to {
                    Some(_) => c.clone(),
                    None => repo::EMPTY_TREE.into(),
                });
                packed.insert(n.full(), (id.clone(), p.filter(|_| id != blob)));
            } else {
                r.set_ref(&n.full(), &id)?;
            }
            targets.push(id);
            if !n.log.is_empty() {
                let mut l: Vec<(usize, String)> =
                    n.log.iter().map(|c| (*c, "commit: x".to_string())).collect();
                l.push((n.target, "commit: x".into()));
                r.file(&format!("logs/{}", n.full()), &log(&ids, &l))?;
            }
        }
        r.packed(&packed)?;
        if let Some(n) = self.names.iter().find(|n| matches!(n.kind, Kind::Remote)) {
            r.symref("refs/remotes/origin/HEAD", &n.full())?;
        }
        let at = match self.head {
            Ok(b) => {
                r.file("HEAD", format!("ref: {}\n", self.names[b].full()).as_bytes())?;
                self.names[b].target
            }
            Err(c) => {
                r.file("HEAD", format!("{}\n", ids[c]).as_bytes())?;
                c
            }
        };
        if !self.head_log.is_empty() {
            let mut from = "main".to_string();
            let mut l = vec![];
            for (c, b) in &self.head_log {
                let to = match b {
                    Some(b) => self.names[*b].name.to_string(),
                    None => ids[*c].clone(),
                };
                l.push((*c, format!("checkout: moving from {} to {}", from, to)));
                from = to;
            }
            let to = match self.head {
                Ok(b) => self.names[b].name.to_string(),
                Err(c) => ids[c].clone(),
            };
            l.push((at, format!("checkout: moving from {} to {}", from, to)));
            r.file("logs/HEAD", &log(&ids, &l))?;
        }
        let mut config = fs::read(r.git.join("config"))?;
        config.extend_from_slice(b"[remote \"origin\"]\n\turl = .\n\tfetch = +refs/heads/*:refs/remotes/origin/*\n");
        for (b, u) in &self.upstream {
            let s = format!(
                "[branch \"{}\"]\n\tremote = .\n\tmerge = {}\n",
                self.names[*b].name,
                self.names[*u].full()
            );
            config.extend_from_slice(s.as_bytes());
        }
        r.file("config", &config)?;
        Ok((ids, peeled))
    }
}

pub struct Revisions;

impl Prop for Revisions {
    type Case = Resolve;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P21"
    }
    fn rule(&self) -> &'static str {
        "some revision is not just HEAD, a branch or a full object ID, or the exit status is not 0"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            300_000
        } else {
            20_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Resolve {
        let commits = commits(s);
        let n = commits.len();
        let ids = ids_of(&commits);
        let any = |s: &mut Src| s.usize(0, n - 1);
        let mut names = vec![Name {
            kind: Kind::Head,
            name: "main",
            target: n - 1,
            packed: s.chance(1, 3),
            log: (0..s.usize(0, 3)).map(|_| any(s)).collect(),
        }];
        for _ in 0..s.usize(1, 7) {
            let kind = *s.pick(&[
                Kind::Head,
                Kind::Head,
                Kind::Head,
                Kind::Tag,
                Kind::Note,
                Kind::Nested,
                Kind::Odd,
                Kind::Remote,
                Kind::Other,
            ]);
            let name = Name {
                kind,
                name: s.pick(&NAMES),
                target: any(s),
                packed: s.chance(1, 3),
                log: match kind {
                    Kind::Head | Kind::Remote => (0..s.usize(0, 3)).map(|_| any(s)).collect(),
                    _ => vec![],
                },
            };
            let clash = names.iter().any(|o| {
                let (a, b) = (o.full(), name.full());
                a == b || a.starts_with(&format!("{}/", b)) || b.starts_with(&format!("{}/", a))
            });
            if !clash {
                names.push(name);
            }
        }
        let heads: Vec<usize> = (0..names.len())
            .filter(|i| matches!(names[*i].kind, Kind::Head))
            .collect();
        let head = if s.chance(1, 5) { Err(any(s)) } else { Ok(*s.pick(&heads)) };
        let mut head = head;
        let mut alone = None;
        if n > 1 && s.chance(1, 40) {
            // Something only HEAD leads to.
            for x in names.iter_mut() {
                x.target = x.target.min(n - 2);
            }
            head = Err(n - 1);
            alone = Some(format!(":/{}", summary_of(n - 1)));
        }
        let head_log = (0..s.usize(0, 4))
            .map(|_| {
                let to = s.chance(1, 2).then(|| *s.pick(&heads));
                (any(s), to)
            })
            .collect();
        let mut upstream: Vec<(usize, usize)> =
            (0..s.usize(0, 2)).map(|_| (*s.pick(&heads), *s.pick(&heads))).collect();
        upstream.sort();
        upstream.dedup_by_key(|u| u.0);
        let asks = (0..s.usize(1, 4))
            .map(|_| Ask {
                rev: match s.chance(1, 10) {
                    true => None,
                    false => match &alone {
                        Some(e) if s.chance(1, 2) => Some(e.as_str().into()),
                        _ => Some(expression(s, &names, &ids).into()),
                    },
                },
                text: match s.weighted(&[8, 2, 2, 2]) {
                    0 => Text::All,
                    1 => Text::Never,
                    2 => Text::Invalid(s.pick(&["(", "[", "*a", "a{2,1}", "(?<n", ")", "\\", "(?z)", "[b-a]"])),
                    _ => Text::Only(any(s)),
                },
                quiet: s.chance(1, 3),
                summary: s.chance(1, 4),
                no_fixup: s.chance(1, 4),
                show: match s.weighted(&[12, 1, 2, 1]) {
                    0 => Show::No,
                    1 => Show::Real,
                    2 => Show::Fake(s.below(120) as u8),
                    _ => Show::Killed,
                },
            })
            .collect();
        Resolve {
            commits,
            names,
            head,
            head_log,
            upstream,
            asks,
        }
    }
    fn check(&self, case: &Resolve, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let r = GitRepo::new(ctx, "g", false)?;
        let (ids, peeled) = case.build(&r)?;
        let fake = r.top.join("bin");
        fs::create_dir(&fake)?;
        r.own()?;
        out.executions = 0;
        for a in &case.asks {
            let rev = a.rev.clone().unwrap_or("HEAD".into());
            let expr = String::from_utf8_lossy(&rev).into_owned();
            let g = r.git(&["rev-parse", "--verify", "-q", &expr])?;
            let want = match g.exit {
                Exit::Code(0) => {
                    let id = String::from_utf8_lossy(&g.out).trim_end().to_string();
                    match peeled.get(&id) {
                        Some(p) => Some(*p),
                        // Git does not look whether there is such an object.
                        None if id.starts_with(&expr.to_lowercase()) => None,
                        None => {
                            return Err(vcore::Stop::Error(format!("{:?} is {:?}", expr, id)));
                        }
                    }
                }
                _ => None,
            };
            // The commit to be found, if there is one.
            let found = match (want, a.text) {
                (Some(Some(i)), Text::All) => Some(i),
                (Some(Some(i)), Text::Only(j)) => {
                    gitat::reachable(&case.commits, i).contains(&j).then_some(j)
                }
                _ => None,
            };
            if want.is_none() && expr.contains("@{0}") {
                // Without a reflog, this is not there according to some versions of Git only.
                continue;
            }
            let argv = a.argv();
            let mut s = r.spawn(&argv, &r.work);
            let end = match a.show {
                Show::Fake(n) => Some(format!("exit {}", n)),
                Show::Killed => Some("kill -9 $$".into()),
                _ => None,
            };
            if let Some(e) = end {
                let f = fake.join("git");
                sys::write_scripts(&[f], &format!("#!/bin/sh\necho \"$@\"\n{}\n", e))?;
                let mut p = b"PATH=".to_vec();
                p.extend_from_slice(fake.as_os_str().as_encoded_bytes());
                p.extend_from_slice(b":/usr/bin:/bin");
                s.env.retain(|e| !e.as_bytes().starts_with(b"PATH="));
                s.env.push(std::ffi::CString::new(p).unwrap());
            }
            let d = repo::run(&mut s)?;
            out.executions += 1;
            if !matches!(expr.as_str(), "HEAD" | "main") && expr.len() != 40
                || d.exit != Exit::Code(0)
            {
                out.nontrivial = true;
            }
            let what = format!("git at {:?}", &argv[1..]);
            // Whether it may be of the wrong type, rather than not there.
            let typed = ["^{tag}", "^{tree}", "^{object}", "@{u"].iter().any(|t| expr.contains(t))
                || case
                    .names
                    .iter()
                    .any(|n| matches!(n.kind, Kind::Odd)
                        && (expr.contains(n.name) || expr.contains("@{-")));
            let verdict: Check = (|| {
                let silent = |code: i32| -> Check {
                    ensure!(
                        d.exit == Exit::Code(code) && d.out.is_empty(),
                        "{} should exit with status {} and print nothing: {:?}",
                        what,
                        code,
                        d
                    );
                    if a.quiet && code == 1 {
                        ensure!(d.err.is_empty(), "{} says something: {:?}", what, d);
                    } else {
                        ensure!(!d.err.is_empty(), "{} does not say anything: {:?}", what, d);
                    }
                    Ok(())
                };
                match (want, a.text, found) {
                    (Some(Some(_)), Text::Invalid(_), _) => {
                        out.class("invalid pattern");
                        silent(2)
                    }
                    (Some(Some(_)), _, None) => {
                        out.class("no match");
                        silent(1)
                    }
                    (Some(Some(_)), _, Some(i)) => {
                        let line = format!("{}\n", ids[i]);
                        match a.show {
                            Show::No => {
                                out.class("match");
                                ensure!(
                                    d.exit == Exit::Code(0) && d.out.0 == line.as_bytes(),
                                    "{} should print {}: {:?}",
                                    what,
                                    ids[i],
                                    d
                                );
                            }
                            Show::Real => {
                                out.class("show");
                                let g = r.git(&["show", &ids[i]])?;
                                ensure!(
                                    d.exit == g.exit && d.out == g.out,
                                    "{} should be like git show {}: {:?} instead of {:?}",
                                    what,
                                    ids[i],
                                    d,
                                    g
                                );
                            }
                            Show::Fake(n) => {
                                out.class("show with some exit status");
                                ensure!(
                                    d.exit == Exit::Code(n as i32)
                                        && d.out.0 == format!("show {}", line).as_bytes(),
                                    "{} should run git show {} and exit with {}: {:?}",
                                    what,
                                    ids[i],
                                    n,
                                    d
                                );
                            }
                            Show::Killed => {
                                out.class("show is killed");
                                ensure!(
                                    matches!(d.exit, Exit::Code(c) if c != 0)
                                        && d.out.0 == format!("show {}", line).as_bytes(),
                                    "{} should not succeed: {:?}",
                                    what,
                                    d
                                );
                            }
                        }
                        Ok(())
                    }
                    // Not a commit.
                    (Some(None), _, _) => {
                        out.class("not a commit");
                        ensure!(
                            matches!(d.exit, Exit::Code(1) | Exit::Code(2)) && d.out.is_empty(),
                            "{} starts from something which is not a commit: {:?}",
                            what,
                            d
                        );
                        Ok(())
                    }
                    (None, _, _) if typed || matches!(a.text, Text::Invalid(_)) => {
                        ensure!(
                            matches!(d.exit, Exit::Code(1) | Exit::Code(2)) && d.out.is_empty(),
                            "{} should fail: {:?}",
                            what,
                            d
                        );
                        Ok(())
                    }
                    (None, _, _) => {
                        out.class("no such revision");
                        silent(1)
                    }
                }
            })();
            match verdict {
                Err(vcore::Stop::Violation(v)) => {
                    let key = if expr.contains("^{/!") {
                        "negated-search"
                    } else if expr.contains("^{object}") {
                        "peel-object"
                    } else if expr.starts_with(":/") && case.head.is_err() {
                        "search-detached"
                    } else {
                        ""
                    };
                    match vcore::known("P21", key) {
                        Some(k) => out.known.push(k),
                        None => violation!("{} ({:?} is {:?})", v, expr, want),
                    }
                }
                r => r?,
            }
        }
        Ok(())
    }
}
