//! git at: P19 and P20.

use crate::regex::{self, Pattern};
use crate::repo::{self, Commit, GitRepo};
use crate::store::Ctx;
use crate::sys::{self, Exit};
use std::collections::{BTreeSet, HashSet};
use std::fs;
use vcore::{ensure, violation, Check, Outcome, Prop, Src, B};

// ---------------------------------------------------------------------------------------------
// Histories

pub const ZONES: [&str; 7] = ["+0000", "-1200", "+1400", "+0530", "-0330", "+0000", "-0000"];

/// Dates of `n` commits.
fn dates(s: &mut Src, n: usize) -> Vec<i64> {
    let style = s.weighted(&[4, 3, 3, 2, 1]);
    let mut t = match style {
        4 => 0,
        _ => *s.pick(&[1_000_000_000, 1_600_000_000, 2_147_483_640, 4_294_967_290, 100, 9_000_000_000]),
    };
    (0..n)
        .map(|_| match style {
            // In order, mostly.
            0 => {
                t += s.range(1, 5000) as i64;
                t
            }
            // In order, with clocks which disagree.
            1 => {
                t += s.range(0, 100) as i64;
                if s.chance(1, 4) {
                    t + s.range(0, 1000) as i64 - 50.min(t)
                } else {
                    t
                }
            }
            // Anything, close together.
            2 => t + s.range(0, 12) as i64,
            // Anything, far apart.
            3 => s.range(0, 5_000_000_000) as i64,
            _ => *s.pick(&[0, 1, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 10_000_000_000]),
        })
        .collect()
}

/// Mostly, each commit follows the one before.
fn parents(s: &mut Src, i: usize) -> Vec<usize> {
    if i == 0 {
        return vec![];
    }
    let one = |s: &mut Src| match s.weighted(&[5, 2, 2]) {
        0 => i - 1,
        1 => i - 1 - s.usize(0, (i - 1).min(3)),
        _ => s.usize(0, i - 1),
    };
    let n = match s.weighted(&[10, 5, 1, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => 0,
    };
    let mut v: Vec<usize> = vec![];
    for _ in 0..n {
        let p = one(s);
        if !v.contains(&p) {
            v.push(p);
        }
    }
    v
}

pub fn history(s: &mut Src, n: usize, mut message: impl FnMut(&mut Src, usize) -> B) -> Vec<Commit> {
    let times = dates(s, n);
    (0..n)
        .map(|i| Commit {
            parents: parents(s, i),
            time: times[i],
            zone: s.pick(&ZONES),
            author_time: if s.chance(1, 2) {
                times[i]
            } else {
                s.range(0, 5_000_000_000) as i64
            },
            author_zone: s.pick(&ZONES),
            message: message(s, i),
            headers: match s.weighted(&[10, 1, 1]) {
                0 => "".into(),
                1 => "encoding ISO-8859-1\n".into(),
                _ => "gpgsig -----BEGIN PGP SIGNATURE-----\n \n fixup! ab\n -----END PGP SIGNATURE-----\n".into(),
            },
            who: match s.weighted(&[10, 1, 1]) {
                0 => "A U Thor <a@example.com>".into(),
                1 => B(b"\xc9tienne ab <\xe9@example.com>".to_vec()),
                _ => "<>".into(),
            },
        })
        .map(|mut c| {
            if c.who.0 == b"<>" {
                c.who = " <a>".into();
            }
            c
        })
        .collect()
}

/// The commits reachable from one of them.
pub fn reachable(commits: &[Commit], tip: usize) -> BTreeSet<usize> {
    let mut r = BTreeSet::new();
    let mut todo = vec![tip];
    while let Some(i) = todo.pop() {
        if r.insert(i) {
            todo.extend(&commits[i].parents);
        }
    }
    r
}

/// The commits which can be the first ones with a property, as the order of those with the same
/// date is not defined, and the one a walk from here ends at otherwise.
fn first(commits: &[Commit], tip: usize, is: impl Fn(usize) -> bool) -> Option<BTreeSet<usize>> {
    let mut r = BTreeSet::new();
    let mut seen = HashSet::new();
    let mut todo = vec![0u64];
    while let Some(set) = todo.pop() {
        if !seen.insert(set) {
            continue;
        }
        if seen.len() > 4000 {
            return None;
        }
        let has = |i: usize| set & (1 << i) != 0;
        let mut front = BTreeSet::new();
        if !has(tip) {
            front.insert(tip);
        }
        for i in (0..commits.len()).filter(|i| has(*i)) {
            front.extend(commits[i].parents.iter().filter(|p| !has(**p)));
        }
        let newest = front.iter().map(|i| commits[*i].time).max();
        for i in front.into_iter().filter(|i| Some(commits[*i].time) == newest) {
            if is(i) {
                r.insert(i);
            } else {
                todo.push(set | 1 << i);
            }
        }
    }
    Some(r)
}

// ---------------------------------------------------------------------------------------------
// Searches

#[derive(Debug, Clone)]
pub enum Rev {
    Default,
    Head,
    Branch(usize),
    Tag(usize),
    Id(usize),
    Parent(usize, usize),
}

#[derive(Debug)]
pub struct Query {
    rev: Rev,
    pattern: Pattern,
    text: String,
    summary: bool,
    no_fixup: bool,
    quiet: bool,
    dashes: bool,
    /// Which way options are written.
    style: u64,
}

#[derive(Debug)]
pub struct Search {
    commits: Vec<Commit>,
    head: usize,
    detached: bool,
    bare: bool,
    subdir: bool,
    packed: bool,
    graph: bool,
    /// Commits whose parents are missing, if it is a shallow clone.
    shallow: Vec<usize>,
    queries: Vec<Query>,
    /// A long history instead.
    deep: Option<Deep>,
}

/// A history of many commits, each of which is newer than those before.
#[derive(Debug)]
pub struct Deep {
    n: usize,
    seed: u64,
    /// How many percent of the commits have other parents than the one before.
    merges: u64,
    /// How far back something is (in parts per thousand) and whether it is a fixup.
    matches: Vec<(u64, bool)>,
    no_fixup: bool,
    summary: bool,
    loose: bool,
}

fn gen_deep(s: &mut Src, options: bool) -> Deep {
    // From some hundred, as many at each order of magnitude.
    let n = 200 << s.usize(0, 9);
    let n = n + s.usize(0, n);
    let seed = s.below(1 << 32);
    let merges = *s.pick(&[0, 1, 10, 40]);
    Deep {
        // libgit2 takes quadratic time if many commits have old parents.
        n: if merges > 1 { n.min(30_000) } else { n },
        seed,
        merges,
        matches: (0..s.usize(0, 3))
            .map(|_| {
                // Often near the beginning of history.
                let back = if s.chance(1, 2) { s.below(1000) } else { 900 + s.below(100) };
                (back, options && s.chance(1, 2))
            })
            .collect(),
        no_fixup: options && s.chance(1, 2),
        summary: options && s.chance(1, 2),
        // Writing many files takes long.
        loose: n < 4000 && s.chance(1, 3),
    }
}

fn check_deep(id: &str, d: &Deep, ctx: &mut Ctx, out: &mut Outcome) -> Check {
    let mut x = d.seed;
    let mut next = |n: u64| {
        x = vcore::mix(x.wrapping_add(0x9e3779b97f4a7c15));
        x % n
    };
    let mut commits: Vec<Commit> = vec![];
    let mut time = 1_000_000_000;
    for i in 0..d.n {
        time += 1 + next(3) as i64;
        let mut parents = vec![];
        if i > 0 {
            parents.push(i - 1);
            if next(100) < d.merges {
                let other = next(i as u64) as usize;
                match next(20) {
                    // A branch.
                    0 => parents = vec![other.max(i.saturating_sub(50))],
                    _ if other != i - 1 => parents.push(other),
                    _ => {}
                }
            }
        }
        commits.push(Commit {
            parents,
            time,
            zone: "+0000",
            author_time: next(2_000_000_000) as i64,
            author_zone: "+0000",
            message: format!("Commit {}\n\nIt is not fixup! Found\n", i).into(),
            headers: "".into(),
            who: "A U Thor <a@example.com>".into(),
        });
    }
    let mut is = vec![false; d.n];
    for (back, fixup) in &d.matches {
        let i = d.n - 1 - d.n * *back as usize / 1000;
        is[i] = !(*fixup && d.no_fixup);
        commits[i].message = if *fixup { "fixup! Found\n" } else { "fiXup! Found\n" }.into();
    }
    let r = GitRepo::new(ctx, "g", true)?;
    let ids = if d.loose {
        r.commits(&commits)?
    } else {
        r.commit_pack(&commits)?
    };
    r.set_ref("refs/heads/main", &ids[d.n - 1])?;
    r.own()?;
    let want = reachable(&commits, d.n - 1).into_iter().rev().find(|i| is[*i]);
    let b = sys::bin("git-at");
    let mut argv = vec![b.to_string_lossy().into_owned()];
    if d.summary {
        argv.push("--summary".into());
    }
    if d.no_fixup {
        argv.push("--no-fixup".into());
    }
    argv.push("(?i)^fix.*Found".into());
    let mut cmd = r.spawn(&argv, &r.work);
    cmd.cpu = 200;
    let got = repo::run(&mut cmd)?;
    let text = String::from_utf8_lossy(&got.out).into_owned();
    let good = match want {
        None => got.exit == Exit::Code(1) && text.is_empty(),
        Some(i) => got.exit == Exit::Code(0) && text == format!("{}\n", ids[i]),
    };
    ensure!(
        good,
        "among {} commits, git at {:?} should find {:?}, but {:?} ({:?})",
        d.n,
        &argv[1..],
        want,
        ids.iter().position(|i| text.trim_end() == i),
        got
    );
    out.class(match d.n {
        0..=999 => "up to 1000 commits",
        1000..=9999 => "up to 10000 commits",
        10000..=99999 => "up to 100000 commits",
        _ => "more commits",
    });
    out.nontrivial = match id {
        "P20" => d.no_fixup && d.matches.iter().any(|m| m.1),
        _ => want.is_some() && want != Some(d.n - 1),
    };
    Ok(())
}

fn mutate(s: &mut Src, m: &mut Vec<u8>) {
    for _ in 0..s.usize(1, 2) {
        let i = s.usize(0, m.len());
        match s.below(3) {
            0 => m.insert(i, regex::byte(s)),
            1 if i < m.len() => {
                m.remove(i);
            }
            _ if i < m.len() => m[i] = regex::byte(s),
            _ => {}
        }
    }
}

fn words(s: &mut Src, n: usize) -> Vec<u8> {
    let mut m = vec![];
    for _ in 0..n {
        match s.weighted(&[4, 2, 1]) {
            0 => m.push(regex::byte(s)),
            1 => m.extend_from_slice(s.pick(&regex::TEXTS).as_bytes()),
            _ => m.push(b' '),
        }
    }
    m
}

/// A commit message, which is likely to have to do with the patterns.
fn message(s: &mut Src, patterns: &[Pattern]) -> B {
    let mut m = match s.weighted(&[4, 6, 4, 1]) {
        0 => {
            let n = s.usize(0, 8);
            words(s, n)
        }
        3 => vec![],
        k => {
            let p = s.pick(patterns).clone();
            let n = s.usize(0, 4);
            let mut m = match s.below(3) {
                0 => vec![],
                _ => words(s, n),
            };
            m.extend(regex::sample(&p, s));
            if s.chance(1, 2) {
                let n = s.usize(0, 4);
                m.extend(words(s, n));
            }
            if k == 2 {
                mutate(s, &mut m);
            }
            m
        }
    };
    if s.chance(1, 3) {
        // A summary, or a body.
        let n = s.usize(0, 5);
        let w = words(s, n);
        if s.chance(1, 2) {
            let mut x = w;
            x.extend_from_slice(if s.chance(1, 2) { b"\n\n" } else { b"\n" });
            x.extend(m);
            m = x;
        } else {
            m.extend_from_slice(b"\n\n");
            m.extend(w);
        }
    }
    match s.weighted(&[6, 2, 1, 1, 1]) {
        1 => {
            let p = *s.pick(&["fixup! ", "squash! ", "fixup!", "squash!", "fixup!\n"]);
            m.splice(0..0, p.bytes());
        }
        2 => {
            let p = *s.pick(&["amend! ", "fixup ", "Fixup! ", "xfixup! ", "fixup !", "re fixup! ", "fixups! "]);
            m.splice(0..0, p.bytes());
        }
        3 => m.extend_from_slice(b"\nfixup! more\nsquash! more"),
        4 => {
            // A long one.
            let n = s.usize(1, 3000);
            m.extend(std::iter::repeat(&b"filler\n"[..]).take(n).flatten());
        }
        _ => {}
    }
    if s.chance(1, 2) {
        m.push(b'\n');
    }
    // Git leaves out empty lines at the start.
    while m.first() == Some(&b'\n') {
        m.remove(0);
    }
    m.retain(|b| *b != 0);
    B(m)
}

/// Not a letter in "fixup!" is among them.
const NAMES: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdeghjklmnorvwyz";

fn is_fixup(m: &[u8]) -> bool {
    m.starts_with(b"fixup!") || m.starts_with(b"squash!")
}

/// Whether this is about white space before it, which is not specified.
fn odd_fixup(m: &[u8]) -> bool {
    let ws = |b: &u8| b.is_ascii_whitespace() || *b == 0x0b || *b >= 0x80;
    let n = m.iter().take_while(|b| ws(b)).count();
    n > 0 && is_fixup(&m[n..])
}

fn gen_search(s: &mut Src, options: bool) -> Search {
    let mut patterns: Vec<Pattern> = (0..s.usize(1, 4)).map(|_| regex::pattern(s)).collect();
    if s.chance(1, 6) {
        patterns.push(Pattern::literal(s.pick(&regex::TEXTS)));
    }
    let n = match s.weighted(&[4, 4, 1]) {
        0 => s.usize(1, 4),
        1 => s.usize(2, 12),
        _ => s.usize(8, if s.thorough { 50 } else { 24 }),
    };
    let mut n = n;
    let walk = s.chance(1, 3);
    let mut commits = if walk {
        // What matters is the order, so each commit has a name, and some of them match.
        n = s.usize(3, if s.thorough { 50 } else { 20 });
        patterns = (0..3)
            .map(|_| {
                let few: Vec<u8> = (0..s.usize(1, 4)).map(|_| *s.pick(&NAMES[..n])).collect();
                Pattern::one_of(&few)
            })
            .collect();
        history(s, n, |s, i| {
            let m = NAMES[i] as char;
            match s.weighted(&[6, 1, 1]) {
                0 => format!("{}\n", m),
                1 => format!("fixup! {}\n", m),
                _ => format!("-\n\n{}", m),
            }
            .into()
        })
    } else {
        history(s, n, |s, _| message(s, &patterns))
    };
    for c in commits.iter_mut() {
        if odd_fixup(&c.message) {
            c.message.0.insert(0, b'x');
        }
    }
    let queries = (0..s.usize(1, 6))
        .map(|_| {
            let pattern = s.pick(&patterns).clone();
            let rev = match s.weighted(&[5, 1, 2, 1, 2, 1]) {
                0 => Rev::Default,
                1 => Rev::Head,
                2 => Rev::Branch(s.usize(0, n - 1)),
                3 => Rev::Tag(s.usize(0, n - 1)),
                4 => Rev::Id(s.usize(0, n - 1)),
                _ => Rev::Parent(s.usize(0, n - 1), s.usize(0, 2)),
            };
            Query {
                rev,
                text: pattern.write(),
                pattern,
                summary: options && s.chance(1, 2),
                no_fixup: options && s.chance(1, 2),
                quiet: s.chance(1, 3),
                dashes: s.chance(1, 4),
                style: s.below(8),
            }
        })
        .collect();
    let deep = if s.chance(1, 150) { Some(gen_deep(s, options)) } else { None };
    Search {
        deep,
        head: if s.chance(3, 4) { n - 1 } else { s.usize(0, n - 1) },
        commits,
        detached: s.chance(1, 6),
        bare: s.chance(1, 4),
        subdir: s.chance(1, 5),
        packed: s.chance(1, 25),
        graph: s.chance(1, 25),
        shallow: match s.chance(1, 20) {
            true => (0..s.usize(1, 4)).map(|_| s.usize(0, n - 1)).collect(),
            false => vec![],
        },
        queries,
    }
}

fn searchable<'a>(m: &'a [u8], summary: bool) -> &'a [u8] {
    if summary {
        m.split(|b| *b == b'\n').next().unwrap()
    } else {
        m
    }
}

/// The commits as far as they are there.
fn cut(case: &Search) -> Option<(Vec<Commit>, BTreeSet<usize>)> {
    if case.shallow.is_empty() {
        return None;
    }
    let mut commits = case.commits.clone();
    for i in &case.shallow {
        commits[*i].parents.clear();
    }
    let there = reachable(&commits, case.head);
    let cut: Vec<usize> = case
        .shallow
        .iter()
        .copied()
        .filter(|i| there.contains(i) && !case.commits[*i].parents.is_empty())
        .collect();
    let clean = cut
        .iter()
        .all(|i| case.commits[*i].parents.iter().all(|p| !there.contains(p)));
    if cut.is_empty() || !clean {
        return None;
    }
    Some((commits, there))
}

fn check_search(id: &str, case: &Search, ctx: &mut Ctx, out: &mut Outcome) -> Check {
    if let Some(d) = &case.deep {
        return check_deep(id, d, ctx, out);
    }
    let r = GitRepo::new(ctx, "g", case.bare)?;
    let mut commits = case.commits.clone();
    let mut there: BTreeSet<usize> = (0..commits.len()).collect();
    let ids = match cut(case) {
        None => r.commits(&commits)?,
        Some((c, t)) => {
            let mut ids = vec![];
            for i in &case.commits {
                let o = i.encode(&ids, crate::repo::EMPTY_TREE);
                match t.contains(&ids.len()) {
                    true => ids.push(r.object("commit", &o)?),
                    false => ids.push(crate::repo::id_of("commit", &o)),
                }
            }
            let s: String = (0..ids.len())
                .filter(|i| t.contains(i) && c[*i].parents != case.commits[*i].parents)
                .map(|i| format!("{}\n", ids[i]))
                .collect();
            r.file("shallow", s.as_bytes())?;
            out.class("shallow");
            commits = c;
            there = t;
            ids
        }
    };
    let shallow = there.len() < ids.len();
    let there = |i: &usize| if there.contains(i) { *i } else { case.head };
    for i in 0..ids.len() {
        let i = there(&i);
        r.set_ref(&format!("refs/heads/b{}", i), &ids[i])?;
        let t = r.tag(&ids[i], "commit", &format!("t{}", i), 5)?;
        r.set_ref(&format!("refs/tags/t{}", i), &t)?;
    }
    if case.detached {
        r.file("HEAD", format!("{}\n", ids[case.head]).as_bytes())?;
    } else {
        r.file("HEAD", format!("ref: refs/heads/b{}\n", case.head).as_bytes())?;
    }
    let mut cwd = r.work.clone();
    if case.subdir {
        cwd = cwd.join(if case.bare { "refs/heads" } else { "some/where" });
        fs::create_dir_all(&cwd)?;
    }
    r.own()?;
    if case.packed {
        r.git_ok(&["repack", "-adq"])?;
        r.git_ok(&["pack-refs", "--all"])?;
        out.class("packed");
    }
    if case.graph && commits.iter().all(|c| c.time < 1 << 33) {
        r.git_ok(&["commit-graph", "write", "--reachable"])?;
        out.class("commit graph");
    }
    out.executions = 0;
    for q in &case.queries {
        let (rev, tip) = match &q.rev {
            Rev::Default => (None, case.head),
            Rev::Head => (Some("HEAD".to_string()), case.head),
            Rev::Branch(i) => (Some(format!("b{}", there(i))), there(i)),
            Rev::Tag(i) => (Some(format!("t{}", there(i))), there(i)),
            Rev::Id(i) => (Some(ids[there(i)].clone()), there(i)),
            Rev::Parent(i, n) => match commits[there(i)].parents.get(*n) {
                Some(p) => (Some(format!("b{}^{}", there(i), n + 1)), *p),
                None => (Some(format!("b{}", there(i))), there(i)),
            },
        };
        // What matches.
        let mut m = vec![];
        for c in &commits {
            match q.pattern.matches(searchable(&c.message, q.summary)) {
                None => break,
                Some(x) => m.push(x && !(q.no_fixup && is_fixup(&c.message))),
            }
        }
        if m.len() < commits.len() {
            out.class("too much backtracking");
            continue;
        }
        let want = match first(&commits, tip, |i| m[i]) {
            Some(w) => w,
            None => {
                out.class("too many orders");
                continue;
            }
        };
        let b = sys::bin("git-at");
        let mut argv: Vec<String> = vec![b.to_string_lossy().into_owned()];
        let mut opts: Vec<&str> = vec![];
        let short = q.style & 1 != 0;
        if q.summary {
            opts.push(if short { "-s" } else { "--summary" });
        }
        if q.no_fixup {
            opts.push("--no-fixup");
        }
        if q.quiet {
            opts.push(if short { "-q" } else { "--quiet" });
        }
        if q.style & 2 != 0 {
            opts.reverse();
        }
        // This way, there cannot be a revision.
        let dashes = q.dashes && rev.is_none();
        let late = !dashes && q.style & 4 != 0;
        if !late {
            argv.extend(opts.iter().map(|o| o.to_string()));
        }
        if dashes {
            argv.push("--".into());
        }
        argv.extend(rev);
        argv.push(q.text.clone());
        if late {
            argv.extend(opts.iter().map(|o| o.to_string()));
        }
        let d = r.run_in(&argv, &cwd)?;
        out.executions += 1;
        if shallow && d.exit == Exit::Code(2) && d.out.is_empty() {
            if let Some(k) = vcore::known(id, "shallow") {
                out.known.push(k);
                continue;
            }
        }
        let show = |set: &BTreeSet<usize>| {
            set.iter()
                .map(|i| format!("commit {} ({})", i, &ids[*i][..10]))
                .collect::<Vec<_>>()
                .join(" or ")
        };
        if want.is_empty() {
            ensure!(
                d.exit == Exit::Code(1) && d.out.is_empty(),
                "git at {:?} finds something, or does not exit 1, although nothing matches: {:?}",
                &argv[1..],
                d
            );
        } else {
            let got = String::from_utf8_lossy(&d.out).into_owned();
            let ok = want.iter().any(|i| got == format!("{}\n", ids[*i]));
            if d.exit != Exit::Code(0) || !ok {
                let which = ids.iter().position(|i| got.trim_end() == i);
                violation!(
                    "git at {:?} should find {}, but finds {:?} ({:?})",
                    &argv[1..],
                    show(&want),
                    which,
                    d
                );
            }
        }
        // What makes it interesting.
        let n = reachable(&commits, tip).len();
        if want.is_empty() {
            out.class("no match");
        } else if want.contains(&tip) {
            out.class("the tip matches");
        } else {
            out.class("another one matches");
        }
        if id == "P20" {
            // Whether the options make a difference.
            let plain: Vec<bool> = case
                .commits
                .iter()
                .map(|c| q.pattern.matches(&c.message) == Some(true))
                .collect();
            if first(&commits, tip, |i| plain[i]) != Some(want) {
                out.class("an option makes a difference");
                out.nontrivial = true;
            }
        } else if n > 1 && !want.is_empty() && !want.contains(&tip) {
            out.nontrivial = true;
        }
        if q.pattern.special() {
            out.class("special pattern");
        }
    }
    Ok(())
}

pub struct FirstMatch;

impl Prop for FirstMatch {
    type Case = Search;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P19"
    }
    fn rule(&self) -> &'static str {
        "some query finds a commit other than the one it starts from"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            750_000
        } else {
            15_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Search {
        gen_search(s, false)
    }
    fn check(&self, case: &Search, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        check_search(self.id(), case, ctx, out)
    }
}

pub struct Restricted;

impl Prop for Restricted {
    type Case = Search;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P20"
    }
    fn rule(&self) -> &'static str {
        "for some query, --summary or --no-fixup changes what is found"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            750_000
        } else {
            12_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Search {
        gen_search(s, true)
    }
    fn check(&self, case: &Search, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        check_search(self.id(), case, ctx, out)
    }
}
