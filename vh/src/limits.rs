//! What the server needs does not grow with objects and sessions: P27.

use crate::gen;
use crate::model::{self, encode_all, Model, Op, Req};
use crate::proto;
use crate::store::{Ctx, World, NOBODY};
use crate::sys::{self, Exit};
use crate::xfer::{run_for, who};
use std::fs;
use vcore::{ensure, sha256, violation, Check, Outcome, Prop, Src, Stop, B};

/// How much memory a server may use for its data, and how many files it may have open.  It needs
/// less than a megabyte, and six.
const DATA: u64 = 16 << 20;
const FILES: u64 = 24;

/// Objects of zeros, and their IDs.
const ZEROS: &[(u64, &str)] = &[
    (
        2147483647,
        "25ba9187e4e7b89d2a7f1a49f0155c233ea8fe0b19c881bc53d23fd7b93deda0",
    ),
    (
        2147483648,
        "a7c744c13cc101ed66c29f672f92455547889cc586ce6d44fe76ae824958ea51",
    ),
    (
        4294967295,
        "318eea1453f3a536e42d9637db593982c5c297220b2019bd4b7ad08e88d91e4b",
    ),
    (
        4294967296,
        "8479e43911dc45e89f934fe48d01297e16f51d17aa561d4d1c216b1ae0fcddca",
    ),
    (
        4294967297,
        "fbb82f7b353676bb562eb82157fcf0ea42c36492ca13ee56dbf82c08b6802c5c",
    ),
    (
        4295032812,
        "4402683ec47a11df4e005ef6a23b208ae2874327e88ecac5bbacabf5f5c706c9",
    ),
    (
        5368709243,
        "e6f4f304d0f53bc9d5098675b0ab364a338d95d484251cff516e9d6de9fd4c12",
    ),
];

#[derive(Debug, Clone, Copy, PartialEq)]
enum Wrong {
    No,
    /// The first, or the last byte differs from what was announced.
    First,
    Last,
    Size(i8),
    /// Not an ID, so that the data have to be skipped.
    Oid,
    /// No size.
    NoSize,
    Unknown,
}

#[derive(Debug, Clone, Copy)]
struct Large {
    seed: u64,
    len: usize,
    wrong: Wrong,
    chunk: usize,
}

impl Large {
    fn content(&self) -> Vec<u8> {
        // Quickly made, and not all the same.
        let block = vcore::blob(self.seed, 4099);
        let mut v = Vec::with_capacity(self.len);
        while v.len() < self.len {
            let n = block.len().min(self.len - v.len());
            v.extend_from_slice(&block[..n]);
        }
        v
    }
}

#[derive(Debug)]
enum What {
    Large(Vec<Large>),
    /// The same requests so many times.
    Long(Op, Vec<Req>, usize),
    /// An object of zeros is there; and whether it is downloaded.
    Huge(usize, bool),
    /// The same requests thousands of times, while looking at the memory in use.
    Steady(Op, Vec<Req>),
}

#[derive(Debug)]
pub struct Load {
    what: What,
}

pub struct Limits;

fn limited(op: Op) -> crate::store::Run {
    let mut r = run_for(op);
    r.limits = Some((DATA, FILES));
    r
}

impl Prop for Limits {
    type Case = Load;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P27"
    }
    fn rule(&self) -> &'static str {
        "an object larger than the memory allowed is accepted, sent or described, or a session has more requests than files may be open, successful ones among them"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            4_000
        } else {
            360
        }
    }
    fn shrink_budget(&self) -> usize {
        60
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Load {
        let what = match s.weighted(&[8, 12, 4, 2]) {
            0 => What::Large(
                (0..s.usize(1, 3))
                    .map(|_| Large {
                        seed: s.below(4),
                        len: s.usize(17 << 20, if s.thorough { 120 << 20 } else { 36 << 20 }),
                        wrong: match s.weighted(&[6, 1, 1, 1, 1, 1, 1]) {
                            0 => Wrong::No,
                            1 => Wrong::First,
                            2 => Wrong::Last,
                            3 => Wrong::Size(if s.chance(1, 2) { 1 } else { -1 }),
                            4 => Wrong::Oid,
                            5 => Wrong::NoSize,
                            _ => Wrong::Unknown,
                        },
                        chunk: *s.pick(&[65516, 65516, 32768, 65515, 1000]),
                    })
                    .collect(),
            ),
            1 => {
                let p = gen::pools(s);
                let op = if s.chance(2, 3) {
                    Op::Upload
                } else {
                    Op::Download
                };
                let n = s.usize(1, 12);
                let reqs: Vec<Req> = (0..n).map(|_| gen::any(s, &p)).collect();
                let weight: usize = 1 + encode_all(&reqs).len() / 1000;
                let times = s.usize(20, 400).min(1 + 40_000 / weight);
                What::Long(op, reqs, times)
            }
            2 => {
                let i = s.usize(0, ZEROS.len() - 1);
                What::Huge(i, s.chance(1, 10))
            }
            _ => {
                let p = gen::Pools {
                    contents: (0..s.usize(1, 3))
                        .map(|_| {
                            let n = s.usize(0, 60);
                            B(s.blob(n))
                        })
                        .collect(),
                    paths: s.usize(1, 6),
                };
                let op = if s.chance(3, 5) {
                    Op::Upload
                } else {
                    Op::Download
                };
                let n = s.usize(1, 4);
                let reqs = (0..n)
                    .map(|_| loop {
                        let r = match (op, s.below(5)) {
                            (Op::Upload, 0) => gen::good_put(s, &p),
                            (Op::Upload, 1) => gen::verify(s, &p),
                            (_, 2) => gen::lock_req(s, &p),
                            (Op::Download, 0) | (Op::Download, 1) => gen::get(s, &p),
                            _ => gen::any(s, &p),
                        };
                        if encode_all(&[r.clone()]).len() < 3000 {
                            break r;
                        }
                    })
                    .collect();
                What::Steady(op, reqs)
            }
        };
        Load { what }
    }

    fn check(&self, case: &Load, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        match &case.what {
            What::Large(objects) => large(&w, objects, out),
            What::Long(op, reqs, times) => {
                let mut all: Vec<Req> = vec![];
                // Something for download sessions to work on.
                let mut m = Model::default();
                if *op == Op::Download {
                    w.init_lfs(0o755)?;
                    for r in reqs {
                        if let Req::Put { data, .. } = r {
                            let oid = w.add_object(data, 0o755)?;
                            m.objects.insert(oid, data.clone());
                        }
                    }
                }
                for _ in 0..*times {
                    all.extend(reqs.iter().cloned());
                }
                let s = w.run(&limited(*op), &encode_all(&all))?;
                let resps = s.complete(all.len())?;
                m.session(&who(*op), &all, &resps)?;
                out.class(format!(
                    "session of {} requests",
                    match all.len() {
                        0..=99 => "less than 100",
                        100..=999 => "less than 1000",
                        _ => "1000 or more",
                    }
                ));
                out.nontrivial = all.len() > FILES as usize && resps.iter().any(|r| r.ok());
                Ok(())
            }
            What::Steady(op, reqs) => steady(&w, *op, reqs, out),
            What::Huge(i, download) => huge(&w, ZEROS[*i], *download, out),
        }
    }
}

/// The size of the data segment and the like.
fn vm_data(pid: i32) -> Check<u64> {
    let s = fs::read_to_string(format!("/proc/{}/status", pid))?;
    s.lines()
        .find_map(|l| {
            l.strip_prefix("VmData:")?
                .split_whitespace()
                .next()?
                .parse()
                .ok()
        })
        .ok_or_else(|| Stop::Error("no VmData".into()))
}

fn steady(w: &World, op: Op, reqs: &[Req], out: &mut Outcome) -> Check {
    let mut m = Model::default();
    w.init_lfs(0o755)?;
    if op == Op::Download {
        for k in 0..3u8 {
            let oid = w.add_object(&[k], 0o755)?;
            m.objects.insert(oid, B(vec![k]));
        }
    }
    // Some of what is there as well.
    let mut round = reqs.to_vec();
    if op == Op::Download {
        round.push(Req::Get(sha256::hex(&[1])));
    }
    let rounds = 25_000 / round.len() + 1;
    let one = encode_all(&round);
    let (r, wr) = sys::pipe()?;
    let stdout = sys::memfd(b"")?;
    let null = sys::devnull()?;
    let mut s = w.spawn(&limited(op));
    s.fds = [r.0, stdout.0, null.0];
    s.cpu = 200;
    s.limit = std::time::Duration::from_secs(400);
    let mut c = s.start()?;
    drop(r);
    let started = std::time::Instant::now();
    let mut sent = 0;
    let mut data = vec![];
    for n in [rounds / 5, rounds] {
        let block = one.repeat(20);
        let mut left = n;
        while left > 0 {
            let k = left.min(20);
            if sys::write_all(&wr, &block[..one.len() * k]).is_err() {
                let e = sys::sane(c.wait()?)?;
                violation!("the server ended early with {:?}", e);
            }
            left -= k;
        }
        sent += n * round.len();
        // Wait for all responses.
        loop {
            let o = sys::read_memfd(&stdout)?;
            let done = match proto::parse_output(&o) {
                Ok(p) => p.resps.len() >= sent,
                // It may be about to be completed.
                Err(_) => false,
            };
            if done {
                break;
            }
            if started.elapsed().as_secs() > 350 {
                return Err(Stop::Error("the server is too slow".into()));
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        data.push(vm_data(c.pid)?);
    }
    drop(wr);
    let e = sys::sane(c.wait()?)?;
    ensure!(e == Exit::Code(0), "the server ended with {:?}", e);
    let o = match proto::parse_output(&sys::read_memfd(&stdout)?) {
        Ok(o) => o,
        Err(e) => violation!("malformed output: {}", e),
    };
    ensure!(
        o.resps.len() == sent,
        "{} responses to {} requests",
        o.resps.len(),
        sent
    );
    ensure!(
        data[1] <= data[0] + 640,
        "from {} kB after {} requests, memory has grown to {} kB after {}; responses: {}",
        data[0],
        rounds / 5 * round.len(),
        data[1],
        sent,
        o.resps[..round.len()]
            .iter()
            .map(|r| r.brief())
            .collect::<Vec<_>>()
            .join("; ")
    );
    for q in &round {
        out.class(format!("memory after many: {}", q.kind()));
    }
    out.nontrivial = o.resps.iter().any(|r| r.ok());
    Ok(())
}

fn large(w: &World, objects: &[Large], out: &mut Outcome) -> Check {
    let mut input = vec![];
    let mut expected: Vec<Option<bool>> = vec![];
    let mut kept: Vec<(String, usize)> = vec![];
    for o in objects {
        let mut d = o.content();
        let oid = sha256::hex(&d);
        let mut id = oid.clone();
        let mut size = d.len() as i64;
        let last = d.len() - 1;
        let mut command = "put-object";
        match o.wrong {
            Wrong::No => {}
            Wrong::First => d[0] ^= 1,
            Wrong::Last => d[last] ^= 0x80,
            Wrong::Size(k) => size += k as i64,
            Wrong::Oid => id = id.to_uppercase(),
            Wrong::NoSize => {}
            Wrong::Unknown => command = "store-object",
        }
        proto::encode_part(&proto::line(&format!("{} {}", command, id)), &mut input);
        if o.wrong != Wrong::NoSize {
            proto::encode_part(&proto::arg("size", size.to_string().as_bytes()), &mut input);
        }
        proto::encode_part(&proto::Part::Delim, &mut input);
        for c in d.chunks(o.chunk) {
            proto::encode_part(&proto::data(c), &mut input);
        }
        proto::encode_part(&proto::Part::Flush, &mut input);
        // An uppercase ID may have no letters.
        let good = o.wrong == Wrong::No || (o.wrong == Wrong::Oid && id == oid);
        expected.push(Some(good));
        if good && !kept.iter().any(|k| k.0 == oid) {
            kept.push((oid, d.len()));
        }
        out.class(
            format!("large upload: {:?}", o.wrong)
                .split('(')
                .next()
                .unwrap_or("")
                .to_string(),
        );
    }
    input.extend(proto::encode(&proto::list(&[])));
    let s = w.run(&limited(Op::Upload), &input)?;
    drop(input);
    let resps = s.complete(objects.len() + 1)?;
    for (e, r) in expected.iter().zip(&resps) {
        match e {
            Some(true) => model::success(r, 200, "a correct upload")?,
            _ => model::refused(r, "a wrong upload")?,
        }
    }
    model::success(&resps[objects.len()], 200, "a list of locks")?;
    for (oid, len) in &kept {
        let data = fs::read(w.object_path(oid))
            .map_err(|e| Stop::Violation(format!("object {} is not there: {}", oid, e)))?;
        ensure!(
            data.len() == *len && sha256::hex(&data) == *oid,
            "object {} is stored incorrectly",
            oid
        );
    }
    out.executions = 1;
    if kept.is_empty() {
        return Ok(());
    }
    out.nontrivial = true;
    out.class("large object stored");
    let mut input = vec![];
    for (oid, _) in &kept {
        input.extend(proto::encode(&proto::get(oid)));
    }
    let s = w.run(&limited(Op::Download), &input)?;
    out.executions += 1;
    let resps = s.complete(kept.len())?;
    for ((oid, len), r) in kept.iter().zip(&resps) {
        model::success(r, 200, "a download")?;
        let size = model::args(r)?.get("size").map(|b| b.0.clone());
        ensure!(
            size == Some(len.to_string().into_bytes()),
            "object {} of {} bytes is said to have {:?}",
            oid,
            len,
            size.map(B)
        );
        let c = r.content();
        ensure!(
            c.len() == *len && sha256::hex(&c) == *oid,
            "object {} of {} bytes is sent incorrectly ({} bytes)",
            oid,
            len,
            c.len()
        );
    }
    Ok(())
}

fn huge(w: &World, (size, oid): (u64, &str), download: bool, out: &mut Outcome) -> Check {
    w.init_lfs(0o755)?;
    let p = w.object_path(oid);
    let d = p.parent().unwrap();
    fs::create_dir_all(d)?;
    fs::File::create(&p)?.set_len(size)?;
    sys::chown_r(&w.lfs, NOBODY, sys::GID)?;
    let sizes = [
        size,
        size + 1,
        size - 1,
        size % (1 << 32),
        size % (1 << 31),
        size + (1 << 32),
        size + (1 << 31),
        0,
    ];
    let mut reqs: Vec<Vec<proto::Part>> = sizes.iter().map(|s| proto::verify(oid, *s)).collect();
    let missing = sha256::hex(b"missing");
    reqs.push(proto::batch(
        &[
            (oid.to_string(), size),
            (oid.to_string(), 1),
            (missing.clone(), size),
        ],
        &[],
    ));
    let resps = w.session(&limited(Op::Upload), &reqs)?;
    for (s, r) in sizes.iter().zip(&resps) {
        if *s == size {
            model::success(r, 200, "verifying the right size")?;
        } else {
            model::refused(r, "verifying a wrong size")?;
        }
    }
    let lines = |r: &proto::Resp, what: &str| -> Check {
        model::success(r, 200, "a batch request")?;
        let got = B(r.content());
        ensure!(
            got.0 == what.as_bytes(),
            "batch answer {:?} instead of {:?}",
            got,
            what
        );
        Ok(())
    };
    lines(
        &resps[sizes.len()],
        &format!(
            "{} {} noop\n{} {} noop\n{} {} upload\n",
            oid, size, oid, size, missing, size
        ),
    )?;
    let resps = w.session(
        &limited(Op::Download),
        &[proto::batch(
            &[(oid.to_string(), 5), (missing.clone(), size)],
            &[],
        )],
    )?;
    lines(
        &resps[0],
        &format!("{} {} download\n{} {} noop\n", oid, size, missing, size),
    )?;
    out.executions = 2;
    out.nontrivial = true;
    out.class(format!("object of {} bytes", size));
    if !download {
        return Ok(());
    }
    // The answer is far too long to be kept.
    let (r, wr) = sys::pipe()?;
    unsafe { libc::fcntl(wr.0, libc::F_SETPIPE_SZ, 1 << 20) };
    let input = sys::memfd(&proto::encode(&proto::get(oid)))?;
    let null = sys::devnull()?;
    let mut s = w.spawn(&limited(Op::Download));
    s.fds = [input.0, wr.0, null.0];
    s.cpu = 300;
    s.limit = std::time::Duration::from_secs(600);
    let mut c = s.start()?;
    drop(wr);
    let mut f = Packets {
        fd: r,
        buf: vec![0; 1 << 20],
        start: 0,
        end: 0,
    };
    let mut next = |what: &str| -> Check<(usize, Vec<u8>)> {
        let h = f.take(4)?;
        let n = std::str::from_utf8(&h)
            .ok()
            .and_then(|h| usize::from_str_radix(h, 16).ok());
        match n {
            Some(0) | Some(1) => Ok((n.unwrap_or(0), vec![])),
            Some(n) if (5..=65520).contains(&n) => Ok((n, f.take(n - 4)?)),
            _ => violation!("{:?} in the place of a packet header ({})", B(h), what),
        }
    };
    let expect = |got: (usize, Vec<u8>), want: &str| -> Check {
        let d = B(got.1);
        ensure!(d.0 == want.as_bytes(), "{:?} instead of {:?}", d, want);
        Ok(())
    };
    expect(next("version")?, "version=1\n")?;
    expect(next("flush")?, "")?;
    expect(next("status")?, "status 200\n")?;
    expect(next("size")?, &format!("size={}\n", size))?;
    ensure!(next("delimiter")?.0 == 1, "no delimiter after the size");
    let zeros = vec![0; 65516];
    let mut n = 0u64;
    loop {
        let (k, d) = next("data")?;
        if k == 0 {
            break;
        }
        ensure!(
            k > 4 && d[..] == zeros[..d.len()],
            "wrong data after {} bytes",
            n
        );
        n += d.len() as u64;
    }
    ensure!(n == size, "{} bytes of an object of {} are sent", n, size);
    let e = sys::sane(c.wait()?)?;
    ensure!(e == Exit::Code(0), "the server ended with {:?}", e);
    out.executions += 1;
    out.class("huge download");
    Ok(())
}

struct Packets {
    fd: sys::Fd,
    buf: Vec<u8>,
    start: usize,
    end: usize,
}

impl Packets {
    fn take(&mut self, n: usize) -> Check<Vec<u8>> {
        while self.end - self.start < n {
            self.buf.copy_within(self.start..self.end, 0);
            self.end -= self.start;
            self.start = 0;
            let room = self.buf.len() - self.end;
            let k =
                unsafe { libc::read(self.fd.0, self.buf[self.end..].as_mut_ptr() as *mut _, room) };
            if k < 0 {
                return Err(Stop::Error("cannot read the output".into()));
            }
            if k == 0 {
                violation!("the output ends early");
            }
            self.end += k as usize;
        }
        let v = self.buf[self.start..self.start + n].to_vec();
        self.start += n;
        Ok(v)
    }
}
