//! Generators shared by several properties.

use crate::model::Req;
use crate::proto::{self, arg, data, line, Part};
use vcore::{sha256, Src, B};

/// A length with a preference for the boundaries of packets and buffers.
pub fn length(s: &mut Src) -> usize {
    match s.weighted(&[6, 6, 4, 2, 1]) {
        0 => s.usize(0, 40),
        1 => s.size(5000),
        2 => {
            let b = *s.pick(&[
                0usize, 1, 512, 1024, 4096, 8188, 8192, 16384, 65516, 65520, 65535, 65536, 131032,
                131072,
            ]);
            let d = s.usize(0, 4);
            (b + d).saturating_sub(2)
        }
        3 => s.size(200_000),
        _ => {
            let max = if s.thorough { 4_000_000 } else { 400_000 };
            s.size(max)
        }
    }
}

/// Object contents, some of which look like parts of the protocol.
pub fn content(s: &mut Src) -> B {
    match s.weighted(&[8, 2, 2, 1]) {
        0 => {
            let n = length(s);
            B(s.blob(n))
        }
        1 => {
            let n = length(s);
            let c = *s.pick(&[0u8, b'0', b'\n', b'a', 0xff]);
            B(vec![c; n])
        }
        2 => {
            let parts: Vec<&[u8]> = vec![
                b"0000",
                b"0001",
                b"0004",
                b"000eversion 1\n0000",
                b"quit\n",
                b"status 200\n",
                b"0009quit\n0000",
                b"unlock ",
                b"size=3\n",
                b"\0",
                b"fff0",
                b"zzzz",
            ];
            let n = s.usize(1, 12);
            let mut v = vec![];
            for _ in 0..n {
                v.extend_from_slice(s.pick(&parts));
            }
            B(v)
        }
        _ => B(vec![]),
    }
}

/// How the data is split into packets.
pub fn chunks(s: &mut Src) -> Vec<usize> {
    match s.weighted(&[4, 3, 3, 2]) {
        0 => vec![65516],
        1 => vec![*s.pick(&[
            32768usize, 65515, 65512, 16384, 8192, 8191, 8193, 8188, 4096, 1000,
        ])],
        2 => {
            let n = s.usize(1, 8);
            let mut v: Vec<usize> = (0..n).map(|_| s.size(65516)).collect();
            v.push(65516);
            v
        }
        // With empty packets.
        _ => {
            let n = s.usize(1, 6);
            let mut v: Vec<usize> = (0..n)
                .map(|_| if s.chance(1, 2) { 0 } else { s.size(3000) })
                .collect();
            v.push(65516);
            v
        }
    }
}

pub fn hex64(s: &mut Src) -> String {
    sha256::hex(&s.below(1 << 40).to_le_bytes())
}

/// A path to be locked, never empty.
pub fn path(s: &mut Src, pool: usize) -> B {
    let n = s.below(pool as u64);
    match n % 8 {
        0 => format!("foo{}", n).into(),
        1 => format!("dir/sub dir/file {}.bin", n).into(),
        2 => B([b"caf\xc3\xa9 \xff\xfe".as_ref(), n.to_string().as_bytes()].concat()),
        3 => format!("a:b:{}:c", n).into(),
        4 => format!("k={}=v\nid=0", n).into(),
        5 => format!("../{}/../../etc/passwd", n).into(),
        6 => B([vec![b'x'; 200 + n as usize], b"\0end".to_vec()].concat()),
        _ => format!(" v1:{}:\n", n).into(),
    }
}

/// An upload which is wrong in some way, or possibly in none.
pub fn any_put(s: &mut Src, pool: &[B]) -> Req {
    let mut d = if !pool.is_empty() && s.chance(1, 3) {
        s.pick(pool).clone()
    } else {
        content(s)
    };
    let mut oid = B(sha256::hex(&d).into_bytes());
    // What is done to the data.
    match s.weighted(&[10, 2, 1, 1, 1, 1]) {
        1 => {
            if !d.is_empty() {
                let i = s.below(d.len() as u64) as usize;
                let b = s.below(8);
                d.0[i] ^= 1 << b;
            }
        }
        2 => {
            let k = s.usize(1, 3).min(d.len());
            let n = d.len() - k;
            d.0.truncate(n);
        }
        3 => {
            let k = s.usize(1, 3);
            let e = s.bytes(k);
            d.0.extend(e);
        }
        4 => {
            if d.len() > 1 {
                d.0.reverse();
            }
        }
        5 => d.0.clear(),
        _ => (),
    }
    match s.weighted(&[12, 1, 1, 1, 1, 1, 1, 1, 1]) {
        1 => oid.0.make_ascii_uppercase(),
        2 => {
            oid.0.pop();
        }
        3 => oid.0.push(b'0'),
        4 => oid = B(hex64(s).into_bytes()),
        5 => {
            let i = s.below(64) as usize;
            oid.0[i] = *s.pick(&[b'g', b'G', b'/', b'.', b':', b'`', 0xff, 0, b'\n']);
        }
        6 => {
            oid = (*s.pick(&[
                "", ".", "..", "../../../secret", "/etc/passwd", "objects", "0", "a/b",
            ]))
            .into()
        }
        7 => {
            let i = s.below(64) as usize;
            oid.0[i] = if oid.0[i] == b'0' { b'1' } else { b'0' };
        }
        8 => {
            if !pool.is_empty() {
                oid = B(sha256::hex(s.pick(pool)).into_bytes());
            }
        }
        _ => (),
    }
    let len = d.len() as u64;
    let mut extra = vec![];
    let size: B = match s.weighted(&[12, 1, 1, 1, 1, 1]) {
        1 => (len + s.range(1, 3)).to_string().into(),
        2 => len.saturating_sub(s.range(1, 3)).to_string().into(),
        3 => (*s.pick(&[
            "",
            " ",
            "-1",
            "-0",
            "x",
            "18446744073709551616",
            "99999999999999999999999999",
            "18446744073709551615",
            "9223372036854775808",
            "4294967296",
            "1e3",
            "0x10",
            "1.0",
            "1 2",
            "\u{661}",
        ]))
        .into(),
        4 => {
            let l = len.to_string();
            match s.below(4) {
                0 => format!(" {}", l),
                1 => format!("{} ", l),
                2 => format!("-{}", l),
                _ => format!("{}\n", l),
            }
            .into()
        }
        5 => {
            // The low bits alone are right.
            (len + (1 << *s.pick(&[8u64, 16, 31, 32, 48, 63]))).to_string().into()
        }
        _ => len.to_string().into(),
    };
    if s.chance(1, 8) {
        extra.push(
            (*s.pick(&["foo=bar\n", "refname=refs/heads/x\n", "x=\n", "sizes=0\n"])).into(),
        );
    }
    Req::Put {
        oid,
        size,
        data: d,
        chunks: chunks(s),
        extra,
    }
}

/// A request which is well-framed, but has to be refused in any operation.
pub fn bad(s: &mut Src) -> Req {
    let oid = hex64(s);
    let cmd = |c: &str| line(c);
    let f = Part::Flush;
    // Arguments and data which would be requests of their own if they were taken for them.
    let trap = |s: &mut Src| -> Vec<Part> {
        let n = s.usize(0, 3);
        (0..n)
            .map(|_| {
                let t = *s.pick(&[
                    "version 1\n",
                    "quit\n",
                    "list-lock\n",
                    "lock\n",
                    "path=trap\n",
                    "refname=refs/heads/trap\n",
                    "put-object 0000\n",
                    "size=0\n",
                    "batch\n",
                    "",
                ]);
                data(t)
            })
            .collect()
    };
    let args = |s: &mut Src| -> Part {
        data(*s.pick(&["size\n", "size=1", "=", "", "\n", "size", "no equals\n"]))
    };
    let k = s.below(30);
    let (w, p): (&'static str, Vec<Part>) = match k {
        0 => {
            let c = (*s.pick(&[
                "foo",
                "BATCH",
                "version",
                "version 2",
                "version 01",
                "version  1",
                "Version 1",
                "versions 1",
                "batch x",
                "lock x",
                "list-lock x",
                "list-locks",
                "put-object",
                "get-object",
                "verify-object",
                "unlock",
                "quit now",
                "status 200",
                " ",
                " version 1",
                "0000",
            ]))
            .to_string();
            let mut v = vec![if s.chance(1, 4) { data(c) } else { cmd(&c) }];
            v.extend(trap(s));
            if s.chance(1, 2) {
                v.push(Part::Delim);
                v.extend(trap(s));
            }
            v.push(f);
            ("unknown command", v)
        }
        1 => {
            let mut v = vec![data("")];
            v.extend(trap(s));
            v.push(f);
            ("empty command", v)
        }
        2 => {
            let n = s.usize(1, 20);
            let mut v = vec![Part::Data(B(s.bytes(n)))];
            if let Part::Data(d) = &mut v[0] {
                d.0[0] |= 0x80;
            }
            v.extend(trap(s));
            v.push(f);
            ("binary command", v)
        }
        3 => {
            let mut v = vec![cmd(&format!("put-object {}", oid)), args(s), Part::Delim];
            v.extend(trap(s));
            v.push(f);
            ("put with a malformed argument", v)
        }
        4 => {
            let mut v = vec![cmd(&format!("put-object {}", oid))];
            v.push(arg("size", b"4"));
            v.push(arg("size", b"4"));
            v.push(Part::Delim);
            v.extend(trap(s));
            v.push(f);
            ("put with two sizes", v)
        }
        5 => {
            let mut v = vec![cmd(&format!("put-object {}", oid)), Part::Delim];
            v.extend(trap(s));
            v.push(f);
            ("put without a size", v)
        }
        6 => {
            let mut v = vec![cmd(&format!("put-object {}", oid)), arg("size", b"4")];
            v.extend(trap(s));
            v.push(f);
            ("put without data", v)
        }
        7 => {
            // The data is right, but is followed by more.
            let d = content(s);
            let d: B = d[..d.len().min(60000)].into();
            let mut v = vec![
                cmd(&format!("put-object {}", sha256::hex(&d))),
                arg("size", d.len().to_string().as_bytes()),
                Part::Delim,
                Part::Data(d),
                Part::Delim,
            ];
            v.extend(trap(s));
            v.push(f);
            ("put with two delimiters", v)
        }
        8 => {
            let bad = *s.pick(&["0", "../../x", "xyz", "", "A"]);
            let mut v = vec![cmd(&format!("put-object {}", bad)), arg("size", b"4"), Part::Delim];
            v.extend(trap(s));
            v.push(f);
            ("put with an invalid ID", v)
        }
        9 => {
            let bad = *s.pick(&["0", "../../x", "xyz", "", "A"]);
            let c = *s.pick(&["get-object", "verify-object"]);
            let v = vec![cmd(&format!("{} {}", c, bad)), arg("size", b"4"), f];
            ("invalid ID", v)
        }
        10 => {
            let c = *s.pick(&["get-object", "verify-object"]);
            let v = vec![cmd(&format!("{} {}", c, oid)), args(s), f];
            ("get or verify with a malformed argument", v)
        }
        11 => {
            let c = *s.pick(&["get-object", "verify-object"]);
            let v = vec![
                cmd(&format!("{} {}", c, oid)),
                arg("size", b"4"),
                arg("size", b"4"),
                f,
            ];
            ("get or verify with a duplicate argument", v)
        }
        12 => ("verify without a size", vec![cmd(&format!("verify-object {}", oid)), f]),
        13 => {
            let z = *s.pick(&["", "x", "-1", "99999999999999999999999", " 1", "1 "]);
            let z = if s.chance(1, 8) { long_value(s) } else { z.into() };
            (
                "verify with a malformed size",
                vec![
                    cmd(&format!("verify-object {}", oid)),
                    arg("size", &z),
                    f,
                ],
            )
        }
        14 => {
            let mut v = vec![cmd("batch")];
            if s.chance(1, 2) {
                v.push(arg("transfer", b"ssh"));
            }
            v.push(f);
            ("batch without a delimiter", v)
        }
        15 => {
            let l = match s.below(12) {
                0 => format!("{}\n", oid),
                1 => format!("{} 4", oid),
                2 => {
                    let n = s.below(2000);
                    let x = *s.pick(&[" x", " ", " 4", "  ", " upload", "\n", "\t", "\0", "\r", "."]);
                    format!("{} {}{}\n", oid, n, x)
                }
                3 => format!("{}  4\n", oid),
                4 => format!("{} \n", oid),
                5 => format!("{} -4\n", oid),
                6 => format!("{} 99999999999999999999999\n", oid),
                7 => format!("{} x\n", &oid[1..]),
                8 => "\n".to_string(),
                9 => String::new(),
                10 => format!("{} 4\n", &oid[1..]),
                _ => format!("{} 4\n", oid.replace('0', "O").replace('a', "A").replace('1', "l")
                    .replace('b', "B")),
            };
            let mut v = vec![cmd("batch"), arg("transfer", b"ssh"), Part::Delim];
            if s.chance(1, 2) {
                v.push(line(&format!("{} 4", oid)));
            }
            v.push(data(l));
            if s.chance(1, 2) {
                v.push(line(&format!("{} 5", oid)));
            }
            v.push(f);
            ("batch with a malformed line", v)
        }
        16 => {
            let h = *s.pick(&["sha512", "sha1", "SHA256", "", "sha256 "]);
            // The message may repeat it, and need more than one packet.
            let h = if s.chance(1, 6) { long_value(s) } else { h.into() };
            (
                "batch with another hash algorithm",
                vec![
                    cmd("batch"),
                    arg("hash-algo", &h),
                    Part::Delim,
                    line(&format!("{} 4", oid)),
                    f,
                ],
            )
        }
        17 => (
            "batch with a malformed argument",
            vec![cmd("batch"), args(s), Part::Delim, line(&format!("{} 4", oid)), f],
        ),
        18 => ("lock without a path", vec![cmd("lock"), arg("refname", b"refs/heads/x"), f]),
        19 => ("lock without a ref", vec![cmd("lock"), arg("path", b"trap"), f]),
        20 => (
            "lock with two paths",
            vec![
                cmd("lock"),
                arg("path", b"trap"),
                arg("path", b"trap2"),
                arg("refname", b"refs/heads/x"),
                f,
            ],
        ),
        21 => (
            "lock with a malformed argument",
            vec![cmd("lock"), arg("path", b"trap"), arg("refname", b"r"), args(s), f],
        ),
        22 => {
            let l = *s.pick(&["0", "-1", "x", "", " 5", "5 ", "1.5", "0x10", "1,0", "00"]);
            ("list with a bad limit", vec![cmd("list-lock"), arg("limit", l.as_bytes()), f])
        }
        23 => (
            "list with two limits",
            vec![cmd("list-lock"), arg("limit", b"5"), arg("limit", b"5"), f],
        ),
        24 => ("list with a malformed argument", vec![cmd("list-lock"), args(s), f]),
        25 => {
            let i = *s.pick(&["", "x", ".", "..", "../locks", "0", "/etc/passwd"]);
            ("unlock of an invalid ID", vec![cmd(&format!("unlock {}", i)), f])
        }
        26 => {
            let mut i = b"unlock ".to_vec();
            i.extend(s.bytes(64));
            i[7] = 0xff;
            i.push(b'\n');
            ("unlock of a binary ID", vec![Part::Data(B(i)), f])
        }
        27 => ("unlock of another lock", proto::unlock(oid.as_bytes())),
        28 => {
            // A large body which has to be skipped.
            let n = s.usize(1, 3);
            let mut v = vec![cmd("put-object nonsense"), arg("size", b"4"), Part::Delim];
            for _ in 0..n {
                let k = s.size(65516);
                v.push(Part::Data(B(s.blob(k))));
            }
            v.push(f);
            ("put with an invalid ID and a large body", v)
        }
        _ => {
            let v = vec![
                cmd("batch"),
                Part::Delim,
                line(&format!("{} 4", oid)),
                Part::Delim,
                line(&format!("{} 4", oid)),
                f,
            ];
            ("batch with two delimiters", v)
        }
    };
    Req::Bad(w, p)
}

/// Requests which may refer to one another.
pub struct Pools {
    pub contents: Vec<B>,
    pub paths: usize,
}

pub fn pools(s: &mut Src) -> Pools {
    let n = s.usize(1, 4);
    Pools {
        contents: (0..n).map(|_| content(s)).collect(),
        paths: s.usize(1, 9),
    }
}

fn some_oid(s: &mut Src, p: &Pools) -> (String, u64) {
    if s.chance(1, 5) {
        (hex64(s), s.size(100000) as u64)
    } else {
        let c = s.pick(&p.contents);
        (sha256::hex(c), c.len() as u64)
    }
}

pub fn get(s: &mut Src, p: &Pools) -> Req {
    Req::Get(some_oid(s, p).0)
}

pub fn verify(s: &mut Src, p: &Pools) -> Req {
    let (oid, mut n) = some_oid(s, p);
    match s.weighted(&[5, 1, 1, 1, 2]) {
        1 => n += 1,
        2 => n = n.saturating_sub(1),
        3 => n = s.below(1 << 40),
        // Some of the bits are right.
        4 => n ^= 1 << s.below(64),
        _ => (),
    }
    Req::Verify(oid, n)
}

pub fn batch(s: &mut Src, p: &Pools) -> Req {
    let n = if s.chance(1, 20) { s.usize(0, 300) } else { s.usize(0, 6) };
    let items = (0..n)
        .map(|_| {
            let (oid, mut n) = some_oid(s, p);
            match s.weighted(&[5, 1, 1]) {
                1 => n += 1,
                2 => n = s.below(u64::MAX),
                _ => (),
            }
            (oid, n)
        })
        .collect();
    let mut args = vec![];
    for (k, v) in [
        ("transfer", "ssh"),
        ("hash-algo", "sha256"),
        ("refname", "refs/heads/main"),
    ] {
        if s.chance(1, 2) {
            args.push((k.to_string(), v.to_string()));
        }
    }
    Req::Batch(items, args)
}

/// A value which is about as long as a packet can hold, and not a number.
fn long_value(s: &mut Src) -> Vec<u8> {
    let n = s.usize(16_000, 65_500);
    let b = *s.pick(b"x\xff\0\"9");
    let mut v = vec![b; n];
    v[0] = b'x';
    v
}

/// A request of a great many packets.
pub fn long(s: &mut Src, p: &Pools) -> Req {
    let n = match s.below(3) {
        0 => s.usize(1, 400),
        1 => s.usize(900, 1200),
        _ => s.usize(1200, 12_000),
    };
    match s.below(3) {
        0 => {
            // Objects which are there are at the end, and at some other places.
            let every = s.usize(1, n);
            let (known, k) = some_oid(s, p);
            let salt = s.below(1 << 20);
            let items = (0..n)
                .map(|i| {
                    if i + 1 == n || i % every == 0 {
                        (known.clone(), k)
                    } else {
                        (sha256::hex(format!("{} {}", salt, i).as_bytes()), i as u64)
                    }
                })
                .collect();
            Req::Batch(items, vec![])
        }
        1 => Req::put(&s.blob(n), &[1]),
        _ => {
            let (oid, k) = some_oid(s, p);
            let mut v = vec![line(&format!("verify-object {}", oid)), arg("size", k.to_string().as_bytes())];
            v.extend((0..n).map(|i| arg(&format!("key{}", i), b"x")));
            v.push(proto::data(&b"nothing\n"[..]));
            v.push(Part::Flush);
            Req::Bad("many arguments, the last one malformed", v)
        }
    }
}

pub fn lock_req(s: &mut Src, p: &Pools) -> Req {
    let path = path(s, p.paths);
    match s.weighted(&[5, 3, 1, 2]) {
        0 => Req::Lock(path),
        1 => Req::Unlock(proto::lock_id(&path)),
        2 => Req::List(if s.chance(1, 3) { Some(s.range(1, 120)) } else { None }),
        _ => Req::Lookup(path),
    }
}

pub fn good_put(s: &mut Src, p: &Pools) -> Req {
    let c = s.pick(&p.contents).clone();
    let k = chunks(s);
    Req::put(&c, &k)
}

/// Anything.
pub fn any(s: &mut Src, p: &Pools) -> Req {
    match s.weighted(&[3, 2, 3, 2, 2, 5, 5, 1]) {
        0 => good_put(s, p),
        1 => any_put(s, &p.contents),
        2 => get(s, p),
        3 => verify(s, p),
        4 => batch(s, p),
        5 => lock_req(s, p),
        6 => bad(s),
        _ => Req::Version,
    }
}
