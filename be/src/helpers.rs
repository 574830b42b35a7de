//! P32: what the library offers to backends: object IDs, arguments, integers and hashing.

use bytes::Bytes;
use scutiger_lfs::processor::{ArgumentParser, HashingReader, Oid};
use sha2::Sha256;
use std::collections::BTreeMap;
use std::fs;
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use vcore::{ensure, sha256, violation, Check, Outcome, Prop, Src, Stop, B};

/// A scratch directory.
pub struct Dir(PathBuf);

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum File {
    Missing,
    NoDirectory,
    Plain(usize),
    Link(usize),
    Dangling,
}

/// What a read of the underlying reader does.
#[derive(Debug, Clone)]
enum Piece {
    Data(B),
    Fail(io::ErrorKind),
    /// The end, which might not be the last thing there is.
    End,
}

#[derive(Debug)]
pub enum Case {
    Oids { names: Vec<B>, file: File, suffix: String },
    Args { items: Vec<B>, key: B },
    Integer(B),
    Hash { pieces: Vec<Piece>, bufs: Vec<usize> },
}

/// Some ID, and what is nearly one.
fn name(s: &mut Src) -> Vec<u8> {
    let mut v = sha256::hex(&(s.size(1 << 16) as u64).to_le_bytes()).into_bytes();
    let i = match s.below(4) {
        0 => 0,
        1 => 63,
        _ => s.usize(0, 63),
    };
    match s.weighted(&[6, 4, 2, 1, 1, 1, 1]) {
        0 => (),
        1 => {
            v[i] = match s.weighted(&[4, 1]) {
                0 => *s.pick(b"/:`gGAFZz@ .-+\0\n\r\x7f\x80\xff"),
                _ => s.below(256) as u8,
            }
        }
        2 => v = v.to_ascii_uppercase(),
        3 => v.truncate(i),
        4 => v.insert(i, b'0'),
        5 => {
            // As many characters, but not bytes, or the other way around.
            let c = *s.pick(&["\u{e9}", "\u{663}", "\u{ff11}"]);
            if s.chance(1, 2) {
                v.splice(i..i + 1, c.bytes());
            } else {
                let n = c.len().min(64 - i);
                v.splice(i..i + n, c.bytes());
            }
        }
        _ => {
            let n = s.usize(0, 130);
            v = s.bytes(n);
        }
    }
    v
}

fn valid_name(v: &[u8]) -> bool {
    v.len() == 64 && v.iter().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f'))
}

fn text(s: &mut Src) -> Vec<u8> {
    let n = s.size(6);
    (0..n)
        .map(|_| *s.pick(b"ab=\n \0\xc3\xa9\xff1"))
        .collect()
}

fn item(s: &mut Src) -> Vec<u8> {
    let mut v = match s.below(3) {
        0 => text(s),
        _ => s.pick(&["size", "a", "b", "path", ""]).as_bytes().to_vec(),
    };
    if !s.chance(1, 20) {
        v.push(b'=');
    }
    v.extend(text(s));
    if !s.chance(1, 20) {
        v.push(b'\n');
    }
    v
}

fn integer(s: &mut Src) -> Vec<u8> {
    let limit = *s.pick(&[
        0i128,
        u8::MAX as i128,
        i64::MAX as i128,
        i64::MIN as i128,
        u32::MAX as i128,
        u64::MAX as i128,
        1000,
        1 << 70,
    ]);
    let n = limit + s.below(7) as i128 - 3;
    let mut v = n.to_string().into_bytes();
    match s.weighted(&[5, 1, 1, 1, 1, 1]) {
        0 => (),
        1 => {
            v.insert(0, *s.pick(b"+-0 _\0"));
        }
        2 => {
            v.push(*s.pick(b" \n0_\0.xe"));
        }
        3 => {
            let i = s.usize(0, v.len() - 1);
            v[i] = *s.pick(b"/:+-,. \xff\xb2a");
        }
        4 => {
            let z = s.usize(1, 50);
            let at = usize::from(v[0] == b'-');
            v.splice(at..at, std::iter::repeat(b'0').take(z));
        }
        _ => v = s.pick(&["", "+", "-", "0x1", "1e3", "\u{663}", "+-1", "--1"]).as_bytes().to_vec(),
    }
    v
}

/// The value of a decimal number with a sign or not, if it is between the limits.
fn value(v: &[u8], min: i128, max: i128) -> Option<i128> {
    let (negative, digits) = match v.first()? {
        b'+' => (false, &v[1..]),
        b'-' if min < 0 => (true, &v[1..]),
        _ => (false, v),
    };
    if digits.is_empty() || !digits.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let mut n: i128 = 0;
    for d in digits {
        n = (n * 10 + i128::from(d - b'0')).min(1 << 100);
    }
    let n = if negative { -n } else { n };
    Some(n).filter(|n| (min..=max).contains(n))
}

struct Source<'a> {
    pieces: &'a [Piece],
    at: usize,
    /// How much of the piece has been read.
    off: usize,
    /// What has been delivered.
    data: Vec<u8>,
    ended: bool,
    /// Whether it was read on after the end.
    beyond: bool,
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.ended {
            self.beyond = true;
        }
        match self.pieces.get(self.at) {
            None | Some(Piece::End) => {
                self.ended = true;
                self.at += 1;
                Ok(0)
            }
            Some(Piece::Fail(k)) => {
                self.at += 1;
                Err((*k).into())
            }
            Some(Piece::Data(d)) => {
                let n = buf.len().min(d.len() - self.off);
                buf[..n].copy_from_slice(&d[self.off..self.off + n]);
                self.data.extend_from_slice(&buf[..n]);
                self.off += n;
                if self.off == d.len() {
                    self.off = 0;
                    self.at += 1;
                }
                Ok(n)
            }
        }
    }
}

fn oids(names: &[B], file: File, suffix: &str, dir: &Path, out: &mut Outcome) -> Check {
    let mut good: Vec<(&B, Oid)> = vec![];
    for n in names {
        let want = valid_name(n);
        ensure!(Oid::valid(n) == want, "Oid::valid({:?}) is {}", n, !want);
        match Oid::new(n) {
            Ok(o) => {
                ensure!(want, "Oid::new({:?}) succeeds", n);
                ensure!(
                    o.value() == &n[..] && o.as_str().as_bytes() == &n[..] && o.to_string().as_bytes() == &n[..],
                    "Oid::new({:?}) gives {:?}, {:?} and {:?}",
                    n,
                    B(o.value().to_vec()),
                    o.as_str(),
                    o.to_string()
                );
                good.push((n, o));
            }
            Err(_) => ensure!(!want, "Oid::new({:?}) fails", n),
        }
    }
    out.class(if good.is_empty() { "no valid ID" } else { "valid ID" });
    out.nontrivial = good.len() < names.len() || file != File::Missing;
    for (a, x) in &good {
        for (b, y) in &good {
            ensure!(
                x.cmp(y) == a[..].cmp(&b[..]) && (x == y) == (a[..] == b[..]),
                "{:?} and {:?} are compared wrongly",
                a,
                b
            );
        }
    }
    let (n, oid) = match good.first() {
        Some(x) => x,
        None => return Ok(()),
    };
    let n = std::str::from_utf8(n).unwrap();
    let top = dir.join(suffix);
    let parent = top.join("objects").join(&n[..2]).join(&n[2..4]);
    let path = parent.join(n);
    ensure!(
        oid.expected_path(&top) == path,
        "the path of {} in {:?} is {:?}",
        n,
        top,
        oid.expected_path(&top)
    );
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir)?;
    if file != File::NoDirectory {
        fs::create_dir_all(&parent)?;
    }
    let size = match file {
        File::Missing | File::NoDirectory => None,
        File::Dangling => {
            std::os::unix::fs::symlink("nothing", &path)?;
            None
        }
        File::Plain(k) => {
            fs::write(&path, vec![0; k])?;
            Some(k as u64)
        }
        File::Link(k) => {
            fs::write(dir.join("target"), vec![0; k])?;
            std::os::unix::fs::symlink(dir.join("target"), &path)?;
            Some(k as u64)
        }
    };
    out.class(format!("file: {}", format!("{:?}", file).split('(').next().unwrap()));
    // Another object being there makes no difference.
    if let Some((_, other)) = good.iter().find(|(_, o)| o != oid) {
        let p = other.expected_path(&top);
        fs::create_dir_all(p.parent().unwrap())?;
        fs::write(&p, b"other")?;
    }
    ensure!(
        oid.exists_at_path(&top) == size.is_some(),
        "exists_at_path is {} with {:?}",
        size.is_none(),
        file
    );
    ensure!(
        oid.size_at_path(&top) == size,
        "size_at_path is {:?} with {:?}",
        oid.size_at_path(&top),
        file
    );
    Ok(())
}

fn args(items: &[B], key: &B, out: &mut Outcome) -> Check {
    let mut want: Option<BTreeMap<Vec<u8>, Vec<u8>>> = Some(BTreeMap::new());
    for i in items {
        let eq = i.iter().position(|&b| b == b'=');
        want = match (want, eq) {
            (Some(mut m), Some(eq)) if i.ends_with(b"\n") => {
                let old = m.insert(i[..eq].to_vec(), i[eq + 1..i.len() - 1].to_vec());
                Some(m).filter(|_| old.is_none())
            }
            _ => None,
        };
    }
    let list: Vec<Bytes> = items.iter().map(|i| Bytes::from(&i[..])).collect();
    let got = ArgumentParser::parse(&list);
    out.class(if want.is_some() { "arguments" } else { "malformed arguments" });
    out.nontrivial = !items.is_empty();
    let (want, got) = match (want, got) {
        (None, Err(_)) => return Ok(()),
        (Some(w), Ok(g)) => (w, g),
        (w, g) => violation!("{:?} is parsed as {:?} instead of {:?}", items, g.ok(), w),
    };
    let plain: BTreeMap<Vec<u8>, Vec<u8>> = got.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
    ensure!(plain == want, "{:?} is parsed as {:?} instead of {:?}", items, plain, want);
    let w = want.get(&key[..]).and_then(|v| value(v, 0, u64::MAX as i128));
    let g: Option<u64> = ArgumentParser::parse_value_as_integer(&got, key).ok();
    ensure!(
        g.map(i128::from) == w,
        "the integer {:?} of {:?} is {:?} instead of {:?}",
        key,
        items,
        g,
        w
    );
    Ok(())
}

fn int(v: &B, out: &mut Outcome) -> Check {
    let b = Bytes::from(&v[..]);
    let mut any = false;
    macro_rules! one {
        ($t:ty) => {
            let w = value(v, <$t>::MIN as i128, <$t>::MAX as i128);
            let g = ArgumentParser::parse_integer::<$t>(&b).ok().map(|x| x as i128);
            any = any || w.is_some();
            ensure!(
                g == w,
                "{:?} is parsed as {:?} instead of {:?} ({})",
                v,
                g,
                w,
                stringify!($t)
            );
        };
    }
    one!(u8);
    one!(u32);
    one!(u64);
    one!(usize);
    one!(i64);
    out.class(if any { "integer" } else { "no integer" });
    out.nontrivial = true;
    Ok(())
}

fn hash(pieces: &[Piece], bufs: &[usize], out: &mut Outcome) -> Check {
    let mut src = Source {
        pieces,
        at: 0,
        off: 0,
        data: vec![],
        ended: false,
        beyond: false,
    };
    let mut got: Vec<u8> = vec![];
    let mut failed = 0;
    let (size, oid) = {
        let mut r = HashingReader::new(&mut src, Sha256::default());
        for (i, &n) in bufs.iter().enumerate() {
            let mut buf = vec![0; n];
            match r.read(&mut buf) {
                Ok(k) => {
                    ensure!(k <= n, "read {} says that it read {} of {} bytes", i, k, n);
                    got.extend_from_slice(&buf[..k]);
                }
                Err(e) => {
                    failed += 1;
                    let known = pieces.iter().any(|p| matches!(p, Piece::Fail(k) if *k == e.kind()));
                    ensure!(known, "read {} fails with {:?}", i, e);
                }
            }
        }
        (r.size(), r.oid())
    };
    out.class(match (failed, src.ended) {
        (0, true) => "read to the end",
        (0, false) => "read in part",
        _ => "reads fail",
    });
    out.nontrivial = !src.data.is_empty() && bufs.len() > 2;
    let expected = pieces[..src.at.min(pieces.len())]
        .iter()
        .filter(|p| matches!(p, Piece::Fail(_)))
        .count();
    ensure!(failed == expected, "{} reads failed instead of {}", failed, expected);
    ensure!(got == src.data, "{} bytes were passed on instead of {}", got.len(), src.data.len());
    ensure!(!src.beyond, "it reads on after the end");
    ensure!(size == got.len() as u64, "the size is {} instead of {}", size, got.len());
    match oid {
        Ok(o) => ensure!(o.as_str() == sha256::hex(&got), "the hash of {} bytes is wrong", got.len()),
        Err(e) => violation!("no hash: {}", e),
    }
    Ok(())
}

pub struct P32;

impl Prop for P32 {
    type Case = Case;
    type Ctx = Dir;
    fn id(&self) -> &'static str {
        "P32"
    }
    fn rule(&self) -> &'static str {
        "A case is one of: names which are or nearly are object IDs, with a store in which the \
         object is a file, a link, or missing; arguments, well-formed or not; an integer near the \
         limits of the types; or data read through a HashingReader in pieces, with failures in \
         between. Non-trivial: an invalid name or an object that is there, any arguments, any \
         integer, or data read by three reads or more."
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            20_000_000
        } else {
            400_000
        }
    }
    fn ctx(&self, worker: usize) -> Dir {
        let base = Path::new("/dev/shm");
        let base = if base.is_dir() { base.into() } else { std::env::temp_dir() };
        Dir(base.join(format!("verif-be-{}-{}", std::process::id(), worker)))
    }
    fn gen(&self, s: &mut Src) -> Case {
        match s.weighted(&[3, 3, 3, 3]) {
            0 => {
                let n = s.usize(1, 4);
                let mut names: Vec<B> = vec![];
                for _ in 0..n {
                    let v = if !names.is_empty() && s.chance(1, 5) {
                        s.pick(&names).0.clone()
                    } else {
                        name(s)
                    };
                    names.push(B(v));
                }
                Case::Oids {
                    names,
                    file: match s.below(8) {
                        0 | 1 => File::Missing,
                        2 => File::NoDirectory,
                        3 => File::Dangling,
                        4 => File::Link(s.size(5000)),
                        _ => File::Plain(s.size(5000)),
                    },
                    suffix: s.pick(&["lfs", "", "a/../lfs", "caf\u{e9} x", "lfs/"]).to_string(),
                }
            }
            1 => {
                let n = s.size(6);
                let items = (0..n).map(|_| B(item(s))).collect();
                let key = B(s.pick(&["size", "a", "b", ""]).as_bytes().to_vec());
                let mut items: Vec<B> = items;
                if s.chance(1, 2) {
                    let mut v = key.0.clone();
                    v.push(b'=');
                    v.extend(integer(s));
                    v.push(b'\n');
                    let at = s.usize(0, items.len());
                    items.insert(at, B(v));
                }
                Case::Args { items, key }
            }
            2 => Case::Integer(B(integer(s))),
            _ => {
                let n = s.size(8);
                let pieces = (0..n)
                    .map(|_| match s.weighted(&[8, 2, 1]) {
                        0 => {
                            let k = 1 + s.size(3000);
                            Piece::Data(B(s.blob(k)))
                        }
                        1 => Piece::Fail(*s.pick(&[
                            io::ErrorKind::Interrupted,
                            io::ErrorKind::WouldBlock,
                            io::ErrorKind::UnexpectedEof,
                            io::ErrorKind::Other,
                        ])),
                        _ => Piece::End,
                    })
                    .collect();
                let m = s.usize(0, 12);
                let bufs = (0..m)
                    .map(|_| match s.weighted(&[1, 3, 4]) {
                        0 => 0,
                        1 => s.usize(1, 70),
                        _ => s.usize(1, 9000),
                    })
                    .collect();
                Case::Hash { pieces, bufs }
            }
        }
    }
    fn check(&self, case: &Case, ctx: &mut Dir, out: &mut Outcome) -> Check {
        let r = catch_unwind(AssertUnwindSafe(|| match case {
            Case::Oids { names, file, suffix } => oids(names, *file, suffix, &ctx.0, out),
            Case::Args { items, key } => args(items, key, out),
            Case::Integer(v) => int(v, out),
            Case::Hash { pieces, bufs } => hash(pieces, bufs, out),
        }));
        match r {
            Ok(r) => r,
            Err(_) => Err(Stop::Violation("panic".into())),
        }
    }
}
