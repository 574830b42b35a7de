//! P17: splitting and interrupting reads and writes.

use crate::gen;
use crate::model::{Op, Req};
use crate::proto;
use crate::store::{diff, tree, Ctx, Run, Tree, World, NOBODY};
use crate::sys::{self, Exit};
use crate::trace::{Ev, Tracee};
use crate::xfer::NOON;
use vcore::{ensure, violation, Check, Outcome, Prop, Src, Stop, B};

pub struct Timing;

#[derive(Debug, Clone)]
pub enum Cut {
    /// At the end of the n-th request, give or take some bytes.
    Request(u64, i64),
    /// After the n-th packet.
    Packet(u64, i64),
    /// Anywhere, in 1/65536 of the length.
    Any(u64),
}

#[derive(Debug, Clone, Copy)]
pub enum Fault {
    None,
    Interrupt,
    /// At most so many bytes are read or written at once.
    Short(u64),
}

#[derive(Debug)]
pub struct TimingCase {
    op: Op,
    reqs: Vec<Req>,
    /// What is done to the bytes before they are sent.
    mangle: Option<(u64, u8)>,
    bytewise: bool,
    lockstep: bool,
    cuts: Vec<Cut>,
    faults: Vec<Fault>,
    socket: bool,
}

fn fault(s: &mut Src) -> Fault {
    match s.weighted(&[4, 2, 3, 2]) {
        0 => Fault::None,
        1 => Fault::Interrupt,
        2 => Fault::Short(s.range(1, 6)),
        _ => Fault::Short(s.range(1, 9000)),
    }
}

fn run_for(op: Op) -> Run {
    let mut r = Run::new(op.name(), NOBODY);
    r.clock = Some((NOON, 0));
    r
}

/// The files, but for the names of temporary ones.
fn files(w: &World) -> Check<Tree> {
    tree(&w.lfs)
}

fn scrub(o: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < o.len() {
        if o[i..].starts_with(b"/incomplete/") || o[i..].starts_with(b".tmp") {
            // The rest of the line is the name of a temporary file.
            while i < o.len() && o[i] != b'\n' {
                i += 1;
            }
        } else {
            v.push(o[i]);
            i += 1;
        }
    }
    v
}

impl Prop for Timing {
    type Case = TimingCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P17"
    }
    fn rule(&self) -> &'static str {
        "the server waited for input at least twice, once in the middle of a request, or a read or write was cut short or interrupted"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            180_000
        } else {
            12_500
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> TimingCase {
        let p = gen::pools(s);
        let n = s.usize(1, 9);
        let mut reqs: Vec<Req> = (0..n).map(|_| gen::any(s, &p)).collect();
        if s.chance(1, 8) {
            reqs.push(Req::Quit);
            if s.chance(1, 2) {
                reqs.push(Req::Version);
            }
        }
        let k = match s.weighted(&[1, 4]) {
            0 => 0,
            _ => s.usize(1, 25),
        };
        TimingCase {
            op: if s.chance(1, 4) { Op::Download } else { Op::Upload },
            reqs,
            mangle: if s.chance(1, 6) {
                Some((s.below(1 << 16), s.below(256) as u8))
            } else {
                None
            },
            bytewise: s.chance(1, 6),
            lockstep: s.chance(1, 2),
            cuts: (0..k)
                .map(|_| match s.weighted(&[2, 3, 2]) {
                    0 => Cut::Request(s.below(10), s.range(0, 8) as i64 - 4),
                    1 => Cut::Packet(s.below(60), s.range(0, 8) as i64 - 4),
                    _ => Cut::Any(s.below(1 << 16)),
                })
                .collect(),
            faults: if s.chance(1, 2) {
                (0..s.usize(1, 20)).map(|_| fault(s)).collect()
            } else {
                vec![]
            },
            socket: s.chance(1, 4),
        }
    }
    fn check(&self, case: &TimingCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        // The whole conversation, and where each request ends.
        let mut input = vec![];
        let mut ends = vec![];
        let mut last = false;
        for r in &case.reqs {
            input.extend(proto::encode(&r.parts()));
            if !last {
                ends.push(input.len());
            }
            last |= matches!(r, Req::Quit);
        }
        let packets: Vec<usize> = proto::decode(&input).0.iter().map(|p| p.1).collect();
        if let Some((at, x)) = case.mangle {
            let at = (at as usize * input.len()) >> 16;
            if x < 128 {
                input.truncate(at);
            } else {
                input[at] ^= x | 1;
            }
            // No claims about responses to requests from there on.
            ends.retain(|e| *e <= at);
        }

        // All at once.  Both runs are at the same place, so that the messages are the same.
        let w = World::new(ctx, "w", NOBODY, None)?;
        w.init_lfs(0o755)?;
        w.add_object(b"an object", 0o755)?;
        let ref_run = w.run(&run_for(case.op), &input)?;
        let ref_files = files(&w)?;

        // In pieces.
        let w = World::new(ctx, "w", NOBODY, None)?;
        w.init_lfs(0o755)?;
        w.add_object(b"an object", 0o755)?;
        let mut cuts: Vec<usize> = case
            .cuts
            .iter()
            .filter_map(|c| {
                let (at, d) = match c {
                    Cut::Request(n, d) => (*ends.get(*n as usize % ends.len().max(1))?, *d),
                    Cut::Packet(n, d) => (packets[*n as usize % packets.len()], *d),
                    Cut::Any(x) => ((*x as usize * input.len()) >> 16, 0),
                };
                Some((at as i64 + d).clamp(0, input.len() as i64) as usize)
            })
            .collect();
        if case.lockstep {
            cuts.extend(&ends);
        }
        if case.bytewise {
            cuts.extend(0..input.len().min(700));
        }
        cuts.push(input.len());
        cuts.sort();
        cuts.dedup();
        let mut cuts = cuts.into_iter().peekable();

        let (r0, w0) = if case.socket {
            sys::socketpair()?
        } else {
            sys::pipe()?
        };
        let stdout = sys::memfd(b"")?;
        let stderr = sys::memfd(b"")?;
        let mut s = w.spawn(&run_for(case.op));
        s.fds = [r0.0, stdout.0, stderr.0];
        let mut t = Tracee::start(s)?;
        let mut w0 = Some(w0);
        let mut fed = 0;
        let mut waits = 0;
        let mut inside = false;
        let mut faulted = false;
        let mut nfault = 0;
        let mut interrupts = 0;
        let exit = loop {
            let s = match t.next()? {
                Ev::Enter(s) => s,
                Ev::Leave(..) => continue,
                Ev::Exit(e) => break e,
            };
            let (rd, wr) = (s.reads_stdin(), s.writes_stdout());
            if rd && s.nr != libc::SYS_ioctl && sys::available(&r0)? == 0 && w0.is_some() {
                waits += 1;
                // It would wait now.
                let complete = ends.iter().filter(|e| **e <= fed).count();
                inside |= fed > 0 && fed < input.len() && !ends.contains(&fed);
                let o = sys::read_memfd(&stdout)?;
                let p = match proto::parse_output(&o) {
                    Ok(p) => p,
                    Err(e) => violation!("malformed output: {}", e),
                };
                ensure!(
                    p.greeting && p.rest == 0 && p.resps.len() >= complete,
                    "the server waits for input after {} bytes with {} complete requests, but has only given {}{} complete responses{}",
                    fed,
                    complete,
                    if p.greeting { "" } else { "no greeting and " },
                    p.resps.len(),
                    if p.rest > 0 {
                        format!(" and {} bytes of another one", p.rest)
                    } else {
                        String::new()
                    }
                );
                // Give it more.
                while cuts.peek().map_or(false, |c| *c <= fed) {
                    cuts.next();
                }
                match cuts.peek() {
                    Some(&c) => {
                        let e = c.min(fed + 60_000);
                        sys::write_all(w0.as_ref().unwrap(), &input[fed..e])?;
                        fed = e;
                    }
                    None => w0 = None,
                }
            }
            if (rd && s.nr != libc::SYS_ioctl || wr) && !case.faults.is_empty() {
                let f = case.faults[nfault % case.faults.len()];
                nfault += 1;
                match f {
                    Fault::None => interrupts = 0,
                    Fault::Interrupt => {
                        interrupts += 1;
                        // Not forever.
                        if interrupts < 4 {
                            faulted = true;
                            t.pretend(-(libc::EINTR as i64))?;
                        } else {
                            interrupts = 0;
                        }
                    }
                    Fault::Short(n) => {
                        interrupts = 0;
                        // Not so short that it takes forever.
                        let n = if nfault > 400 { n.max(4000) } else { n };
                        if matches!(s.nr, libc::SYS_read | libc::SYS_write) && s.args[2] > n {
                            faulted = true;
                            t.set_len(n)?;
                        }
                    }
                }
            }
        };
        if exit == Exit::Timeout {
            return Err(Stop::Error("time limit exceeded".into()));
        }
        let o = sys::read_memfd(&stdout)?;
        ensure!(
            exit == ref_run.exit && scrub(&o) == scrub(&ref_run.stdout),
            "all at once, the output is {:?} ({:?}), but in pieces it is {:?} ({:?}, stderr: {:?})",
            B(ref_run.stdout.clone()),
            ref_run.exit,
            B(o),
            exit,
            B(sys::read_memfd(&stderr)?)
        );
        if let Some(d) = diff(&ref_files, &files(&w)?) {
            violation!("in pieces, {}", d);
        }
        if inside {
            out.class("waited inside of a request");
        }
        if case.lockstep {
            out.class("client waiting for each response");
        }
        if case.bytewise {
            out.class("byte by byte");
        }
        if faulted {
            out.class("reads or writes cut short or interrupted");
        }
        if case.mangle.is_some() {
            out.class("malformed or truncated input");
        }
        out.nontrivial = waits >= 2 && inside || faulted;
        out.executions = 2;
        Ok(())
    }
}
