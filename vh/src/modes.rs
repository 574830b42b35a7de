//! P15: permissions of what the server creates.

use crate::faults;
use crate::gen;
use crate::model::{encode_all, valid_put, Model, Op, Req, Who};
use crate::proto;
use crate::store::{tree, Ctx, Kind, Run, Session, World, NOBODY};
use crate::sys;
use crate::trace::Ev;
use crate::xfer::NOON;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use vcore::{ensure, Check, Outcome, Prop, Src};

pub struct Modes;

#[derive(Debug)]
pub struct ModeSession {
    /// What the configuration file says about core.sharedRepository.
    config: String,
    /// The mode which is prescribed, if it is not the umask which counts.
    mode: Option<u32>,
    umask: u32,
    reqs: Vec<Req>,
    /// Look at objects and locks after each system call, and not only at the end.
    watched: bool,
}

const GROUP: &[&str] = &[
    "group", "true", "yes", "on", "1", "TRUE", "Yes", "oN", "\"group\"", "\"true\"", "group ; x",
    "true # all", "01", "\"1\"",
];
const ALL: &[&str] = &[
    "all",
    "world",
    "everybody",
    "2",
    "\"all\"",
    "wor\"ld\"",
    "everybody # group",
    "02",
];
const UMASK: &[&str] = &[
    "umask", "false", "no", "off", "0", "FALSE", "Off", "\"umask\"", "umask ; group", "", "\"\"", "00",
];

fn setting(s: &mut Src) -> (String, Option<u32>) {
    let (v, m): (String, Option<u32>) = match s.weighted(&[3, 3, 3, 4]) {
        0 => (s.pick(UMASK).to_string(), None),
        1 => (s.pick(GROUP).to_string(), Some(0o660)),
        2 => (s.pick(ALL).to_string(), Some(0o664)),
        _ => {
            // The owner always has to be able to read and write.
            let g = *s.pick(&[0u32, 4, 6, 6, 4, 2]);
            let o = *s.pick(&[0u32, 4, 6, 0, 4, 2]);
            let m = 0o600 | g << 3 | o;
            let x = if s.chance(1, 4) { 0o111 & m >> 2 } else { 0 };
            let f = match s.below(4) {
                0 => format!("{:o}", m | x),
                1 => format!("0{:o}", m | x),
                2 => format!("\"0{:o}\"", m | x),
                _ => format!("{:04o} # octal", m | x),
            };
            (f, Some(m))
        }
    };
    (v, m)
}

fn config(s: &mut Src) -> (String, Option<u32>) {
    if s.chance(1, 12) {
        return (String::new(), None);
    }
    let section = *s.pick(&["[core]\n", "[Core]\n", "[CORE]\n", "[core] "]);
    let key = *s.pick(&[
        "sharedRepository",
        "sharedrepository",
        "SHAREDREPOSITORY",
        "sharedRepository",
    ]);
    if s.chance(1, 12) {
        return (format!("{}{}\n", section, key), Some(0o660));
    }
    let mut c = String::new();
    // The last one counts.
    for _ in 0..s.below(2) {
        let (v, _) = setting(s);
        c.push_str(&format!("{}\t{} = {}\n", section, key, v));
    }
    let (v, m) = setting(s);
    let eq = *s.pick(&[" = ", "=", "= ", "\t=\t"]);
    c.push_str(&format!("{}\t{}{}{}\n", section, key, eq, v));
    if s.chance(1, 8) {
        c.push_str("[core \"x\"]\n\tsharedRepository = 0666\n[other]\n\tsharedRepository = all\n");
    }
    (c, m)
}

fn umask(s: &mut Src, owner: bool) -> u32 {
    let d = [0u32, 2, 5, 7, 2, 0, 7, 3, 1];
    let u = *s.pick(&d) << 3 | *s.pick(&d);
    // The server has to be able to use what it has created.
    u | if owner && s.chance(1, 3) {
        *s.pick(&[0o100, 0o200, 0o400, 0o700])
    } else {
        0
    }
}

/// Run a session, and look at objects and locks after each system call that changes something.
fn watch(w: &World, r: &Run, x: &ModeSession, files: u32, want: &BTreeMap<PathBuf, Vec<u32>>) -> Check<Session> {
    let mut fresh: Vec<PathBuf> = vec![];
    for q in &x.reqs {
        match q {
            Req::Put { oid, size, data, .. } if valid_put(oid, size, data) => {
                fresh.push(w.object_path(&String::from_utf8_lossy(oid)))
            }
            Req::Unlock(id) => fresh.push(w.lfs.join("locks").join(id)),
            _ => (),
        }
    }
    let mut g = faults::start(w, r, &encode_all(&x.reqs))?;
    let exit = loop {
        match g.t.next()? {
            Ev::Exit(e) => break e,
            Ev::Enter(_) => continue,
            Ev::Leave(s, _) if !s.mutates() || !s.under(&w.lfs) => continue,
            Ev::Leave(s, _) => {
                for dir in ["objects", "locks"] {
                    for (p, n) in tree(&w.lfs.join(dir))? {
                        let p = w.lfs.join(dir).join(p);
                        let name = p.file_name().unwrap_or_default();
                        if !matches!(n.kind, Kind::File(_)) || !proto::is_oid(name.as_bytes()) {
                            continue;
                        }
                        let have = n.mode & 0o666;
                        let before = want.get(&p);
                        let good = have == files && (before.is_none() || fresh.contains(&p))
                            || before.map_or(false, |b| b.contains(&have));
                        ensure!(
                            good,
                            "after {}, {} has mode {:o}, not {:o}; umask {:03o}, configuration {:?}",
                            s.brief(&w.lfs),
                            p.display(),
                            n.mode,
                            files,
                            x.umask,
                            x.config
                        );
                    }
                }
            }
        }
    };
    Ok(Session {
        exit: sys::sane(exit)?,
        stdout: sys::read_memfd(&g.stdout)?,
        stderr: sys::read_memfd(&g.stderr)?,
    })
}

impl Prop for Modes {
    type Case = Vec<ModeSession>;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P15"
    }
    fn rule(&self) -> &'static str {
        "an object and a lock were created, with a setting or a umask other than 022"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            600_000
        } else {
            40_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Vec<ModeSession> {
        let n = s.usize(1, 3);
        (0..n)
            .map(|_| {
                let (config, mode) = config(s);
                let umask = umask(s, mode.is_some());
                let k = s.usize(1, 5);
                let mut reqs: Vec<Req> = (0..k)
                    .map(|_| match s.weighted(&[3, 3, 1, 1]) {
                        0 => {
                            let n = s.usize(0, 40);
                            Req::put(&s.blob(n), &[])
                        }
                        1 => Req::Lock(gen::path(s, 64)),
                        2 => Req::Unlock(proto::lock_id(&gen::path(s, 64))),
                        _ => gen::bad(s),
                    })
                    .collect();
                if s.chance(2, 3) {
                    reqs.push(Req::put(&s.blob(9), &[]));
                    reqs.push(Req::Lock(gen::path(s, 64)));
                }
                ModeSession {
                    config,
                    mode,
                    umask,
                    reqs,
                    watched: s.chance(1, 40),
                }
            })
            .collect()
    }
    fn check(&self, case: &Vec<ModeSession>, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        let mut m = Model::default();
        // What each file and directory may be, by path.
        let mut want: BTreeMap<PathBuf, Vec<u32>> = BTreeMap::new();
        let (mut objects, mut locks) = (false, false);
        for (i, x) in case.iter().enumerate() {
            fs::write(
                w.repo.join("config"),
                format!(
                    "[core]\n\trepositoryformatversion = 0\n\tbare = true\n{}",
                    x.config
                ),
            )?;
            let before = m.clone();
            let mut r = Run::upload();
            r.umask = x.umask;
            r.clock = Some((NOON, 0));
            let who = Who {
                op: Op::Upload,
                uid: NOBODY,
                clock: (NOON, NOON),
            };
            let files = x.mode.unwrap_or(0o666 & !x.umask);
            let s = if x.watched {
                out.class("watched");
                watch(&w, &r, x, files, &want)?
            } else {
                w.run(&r, &encode_all(&x.reqs))?
            };
            let resps = s.complete(x.reqs.len())?;
            // Locks which have been released are gone, and may be created again.
            let mut again: Vec<PathBuf> = vec![];
            for (q, a) in x.reqs.iter().zip(&resps) {
                m.step(&who, q, a)?;
                match q {
                    Req::Put {
                        oid, size, data, ..
                    } if valid_put(oid, size, data) => {
                        let id = String::from_utf8_lossy(oid).into_owned();
                        again.push(w.object_path(&id));
                    }
                    Req::Unlock(id) => {
                        want.remove(&w.lfs.join("locks").join(id));
                    }
                    _ => (),
                }
            }
            for (p, n) in tree(&w.lfs)? {
                let p = w.lfs.join(p);
                let (have, now) = match n.kind {
                    Kind::Dir => {
                        let exec = if x.mode.is_some() {
                            files | (files & 0o444) >> 2
                        } else {
                            0o777 & !x.umask
                        };
                        (n.mode & 0o777, exec)
                    }
                    _ => (n.mode & 0o666, files),
                };
                let w = want.entry(p.clone()).or_insert_with(|| vec![now]);
                if again.contains(&p) && !w.contains(&now) {
                    // It may or may not have been replaced.
                    w.push(now);
                }
                ensure!(
                    w.contains(&have),
                    "session {}: {} has mode {:o} instead of {}; umask {:03o}, configuration {:?}",
                    i,
                    p.display(),
                    n.mode,
                    w.iter().map(|m| format!("{:o}", m)).collect::<Vec<_>>().join(" or "),
                    x.umask,
                    x.config
                );
            }
            if x.mode.is_some() || x.umask != 0o022 {
                objects |= m.objects.len() > before.objects.len();
                locks |= m.locks.keys().any(|k| !before.locks.contains_key(k));
            }
            out.class(match x.mode {
                None if x.config.is_empty() => "no setting",
                None => "umask",
                Some(0o660) => "group",
                Some(0o664) => "all",
                Some(_) => "octal",
            });
        }
        out.executions = case.len() as u64;
        out.nontrivial = objects && locks;
        if m.objects.is_empty() && m.locks.is_empty() {
            out.class("nothing stored");
        }
        Ok(())
    }
}
