//! P01 and P02: the pkt-line reader and writer, checked in-process.

use scutiger_core::pktline::{Packet, PacketType, Reader, Writer};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use vcore::{ensure, violation, Cfg, Check, Outcome, Prop, Src, Stop, B};

const MAX_DATA: usize = 65516;

// ---------------------------------------------------------------------------------------------
// Transports which split and interrupt reads and writes.

/// How many bytes each read or write transfers at most, repeated; zero means an interruption.
#[derive(Debug, Clone)]
struct Pattern(Vec<usize>);

impl Pattern {
    fn gen(s: &mut Src) -> Pattern {
        match s.weighted(&[3, 2, 2]) {
            0 => Pattern(vec![]),
            1 => Pattern(vec![s.usize(1, 5)]),
            _ => {
                let n = s.usize(1, 6);
                Pattern(
                    (0..n)
                        .map(|_| match s.weighted(&[3, 2, 2]) {
                            0 => 1 + s.size(20),
                            1 => 0,
                            _ => 1 + s.size(70000),
                        })
                        .collect(),
                )
            }
        }
    }
    fn step(&self, i: &mut usize) -> Option<usize> {
        if self.0.is_empty() || self.0.iter().all(|&x| x == 0) {
            return Some(usize::MAX);
        }
        let v = self.0[*i % self.0.len()];
        *i += 1;
        if v == 0 {
            None
        } else {
            Some(v)
        }
    }
}

struct SlowReader<'a> {
    data: &'a [u8],
    pos: usize,
    pattern: &'a Pattern,
    i: usize,
}

impl<'a> Read for SlowReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = match self.pattern.step(&mut self.i) {
            None => return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            Some(n) => n,
        };
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct SlowWriter {
    data: Vec<u8>,
    pattern: Pattern,
    i: usize,
    flushed: usize,
}

/// A writer of which the harness keeps a handle.
struct Sink(Rc<RefCell<SlowWriter>>);

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flush()
    }
}

impl Write for SlowWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = match self.pattern.step(&mut self.i) {
            None => return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            Some(n) => n,
        };
        let n = n.min(buf.len());
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed = self.data.len();
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// The reference.

#[derive(Debug, Clone, PartialEq, Eq)]
enum Pkt {
    Flush,
    Delim,
    Data(B),
}

/// What follows the longest well-formed prefix.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum End {
    /// Nothing, or a part of a packet.
    Eof,
    /// A malformed header.
    Malformed,
}

fn reference(data: &[u8]) -> (Vec<(Pkt, usize)>, End) {
    let mut v = vec![];
    let mut i = 0;
    loop {
        if data.len() - i < 4 {
            return (v, End::Eof);
        }
        let mut len = 0usize;
        for &c in &data[i..i + 4] {
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                _ => return (v, End::Malformed),
            };
            len = len * 16 + d as usize;
        }
        match len {
            0 => {
                i += 4;
                v.push((Pkt::Flush, i));
            }
            1 => {
                i += 4;
                v.push((Pkt::Delim, i));
            }
            2 | 3 => return (v, End::Malformed),
            n if n > 65520 => return (v, End::Malformed),
            n => {
                if data.len() - i < n {
                    return (v, End::Eof);
                }
                let d = data[i + 4..i + n].into();
                i += n;
                v.push((Pkt::Data(d), i));
            }
        }
    }
}

fn encode(p: &Pkt, out: &mut Vec<u8>) {
    match p {
        Pkt::Flush => out.extend_from_slice(b"0000"),
        Pkt::Delim => out.extend_from_slice(b"0001"),
        Pkt::Data(d) => {
            let n = d.len() + 4;
            for i in (0..4).rev() {
                out.push(b"0123456789abcdef"[(n >> (4 * i)) & 15]);
            }
            out.extend_from_slice(d);
        }
    }
}

fn to_pkt(p: &Packet) -> Result<Pkt, String> {
    match (p.packet_type(), p.data()) {
        (PacketType::Flush, None) => Ok(Pkt::Flush),
        (PacketType::Delim, None) => Ok(Pkt::Delim),
        (PacketType::Data(n), Some(d)) if n == d.len() => Ok(Pkt::Data(d.into())),
        (t, d) => Err(format!("packet of type {:?} with data {:?}", t, d.map(|d| d.len()))),
    }
}

/// Turn a panic of the code under test into a violation.
fn guard<T, F: FnOnce() -> Check<T>>(f: F) -> Check<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Stop::Violation(format!("panicked: {}", msg)))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// How a case reads.

#[derive(Debug, Clone)]
enum How {
    /// With read_packet.
    Packets,
    /// With the iterator.
    Iter,
    /// As a stream, with buffers of these sizes, repeated.
    Stream(Vec<usize>),
    /// Alternately some packets, and a stream up to its end.
    Mixed(usize, Vec<usize>),
}

fn gen_sizes(s: &mut Src) -> Vec<usize> {
    let n = s.usize(1, 5);
    let mut v: Vec<usize> = (0..n)
        .map(|_| match s.weighted(&[4, 2, 2, 2, 2]) {
            0 => 1 + s.size(100),
            1 => 0,
            2 => *s.pick(&[65515, 65516, 65517, 65520, 65535, 65536, 65537]),
            3 => 1 + s.size(70000),
            _ => 8192,
        })
        .collect();
    if v.iter().all(|&x| x == 0) {
        v.push(1);
    }
    v
}

fn gen_how(s: &mut Src) -> How {
    match s.weighted(&[2, 1, 4, 3]) {
        0 => How::Packets,
        1 => How::Iter,
        2 => How::Stream(gen_sizes(s)),
        _ => How::Mixed(s.usize(0, 3), gen_sizes(s)),
    }
}

/// One stretch of stream: the data up to a flush, a delimiter, or the end.
struct StreamEnd {
    data: Vec<u8>,
    /// None: an orderly end.
    err: Option<io::Error>,
}

fn read_stream<R: Read>(rdr: &mut Reader<R>, sizes: &[usize], si: &mut usize, limit: usize) -> Check<StreamEnd> {
    let mut data = vec![];
    loop {
        let size = sizes[*si % sizes.len()];
        *si += 1;
        let mut buf = vec![0xa5u8; size];
        match rdr.read(&mut buf) {
            Ok(n) => {
                ensure!(n <= size, "read returned {} for a buffer of {} bytes", n, size);
                if n == 0 {
                    if size == 0 {
                        continue;
                    }
                    return Ok(StreamEnd { data, err: None });
                }
                ensure!(size > 0, "read into an empty buffer returned {}", n);
                data.extend_from_slice(&buf[..n]);
                ensure!(data.len() <= limit, "more data was read than there is");
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Ok(StreamEnd { data, err: Some(e) }),
        }
    }
}

/// Read everything in `wire` in the given way and compare with the reference.
fn check_reading(wire: &[u8], how: &How, pattern: &Pattern) -> Check {
    let (expected, end) = reference(wire);
    let mut src = SlowReader {
        data: wire,
        pos: 0,
        pattern,
        i: 0,
    };
    // The reader has a buffer of 64 KiB, which makes it too big for the stack in a loop.
    let mut rdr = Box::new(Reader::new(&mut src));
    let mut idx = 0;
    let mut si = 0;
    match how {
        How::Packets | How::Iter => {
            loop {
                let r = match how {
                    How::Packets => Some(rdr.read_packet()),
                    _ => rdr.iter().next(),
                };
                match r {
                    Some(Ok(p)) => {
                        let p = to_pkt(&p).map_err(Stop::Violation)?;
                        match expected.get(idx) {
                            Some((e, _)) if *e == p => idx += 1,
                            Some((e, _)) => violation!("packet {}: got {:?}, expected {:?}", idx, p, e),
                            None => violation!(
                                "got packet {:?} after the last well-formed packet ({:?})",
                                p,
                                end
                            ),
                        }
                    }
                    Some(Err(e)) => {
                        ensure!(
                            idx == expected.len(),
                            "error {:?} instead of packet {}: {:?}",
                            e,
                            idx,
                            expected[idx].0
                        );
                        if matches!(how, How::Iter) {
                            ensure!(
                                end == End::Malformed,
                                "the iterator reported {:?} where the input just stops",
                                e
                            );
                        }
                        if end == End::Malformed {
                            ensure!(
                                e.io_kind() != io::ErrorKind::UnexpectedEof,
                                "a malformed packet was reported as the end of the input"
                            );
                        } else {
                            ensure!(
                                e.io_kind() == io::ErrorKind::UnexpectedEof,
                                "the end of the input was reported as {:?}",
                                e
                            );
                        }
                        return Ok(());
                    }
                    None => {
                        ensure!(
                            idx == expected.len(),
                            "end of input instead of packet {}: {:?}",
                            idx,
                            expected[idx].0
                        );
                        ensure!(
                            end == End::Eof,
                            "the iterator took a malformed packet as the end of the input"
                        );
                        return Ok(());
                    }
                }
            }
        }
        How::Stream(sizes) | How::Mixed(_, sizes) => loop {
            if let How::Mixed(n, _) = how {
                for _ in 0..*n {
                    match rdr.read_packet() {
                        Ok(p) => {
                            let p = to_pkt(&p).map_err(Stop::Violation)?;
                            match expected.get(idx) {
                                Some((e, _)) if *e == p => idx += 1,
                                e => violation!("packet {}: got {:?}, expected {:?}", idx, p, e),
                            }
                        }
                        Err(e) => {
                            ensure!(
                                idx == expected.len(),
                                "error {:?} instead of packet {}: {:?}",
                                e,
                                idx,
                                expected[idx].0
                            );
                            return Ok(());
                        }
                    }
                }
            }
            let mut want = vec![];
            let mut orderly = false;
            let from = idx;
            while let Some((p, _)) = expected.get(idx) {
                idx += 1;
                match p {
                    Pkt::Data(d) => want.extend_from_slice(d),
                    _ => {
                        orderly = true;
                        break;
                    }
                }
            }
            let got = read_stream(&mut rdr, sizes, &mut si, want.len())?;
            ensure!(
                got.data == want,
                "stream from packet {}: got {} bytes, expected {} bytes (first difference at {:?})",
                from,
                got.data.len(),
                want.len(),
                got.data.iter().zip(want.iter()).position(|(a, b)| a != b)
            );
            match got.err {
                None => ensure!(
                    orderly,
                    "a stream which ends with {:?} was reported as complete",
                    end
                ),
                Some(e) => {
                    ensure!(!orderly, "error {:?} instead of the end of the stream", e);
                    if end == End::Malformed {
                        ensure!(
                            e.kind() != io::ErrorKind::UnexpectedEof,
                            "a malformed packet was reported as the end of the input"
                        );
                    }
                    return Ok(());
                }
            }
        },
    }
}

/// Check that the reader consumes exactly the packets it has reported.
fn check_position(wire: &[u8], pattern: &Pattern, stream: Option<usize>) -> Check {
    let (expected, _) = reference(wire);
    let src = std::cell::RefCell::new(SlowReader {
        data: wire,
        pos: 0,
        pattern,
        i: 0,
    });
    struct Shared<'a, 'b>(&'a std::cell::RefCell<SlowReader<'b>>);
    impl<'a, 'b> Read for Shared<'a, 'b> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.0.borrow_mut().read(buf)
        }
    }
    let mut rdr = Box::new(Reader::new(Shared(&src)));
    let mut total = 0;
    let mut idx = 0;
    while idx < expected.len() {
        match stream {
            None => {
                if rdr.read_packet().is_err() {
                    violation!("error instead of packet {}", idx);
                }
                let pos = src.borrow().pos;
                ensure!(
                    pos == expected[idx].1,
                    "{} bytes were consumed after packet {}, which ends at {}",
                    pos,
                    idx,
                    expected[idx].1
                );
                idx += 1;
            }
            Some(size) => {
                let mut buf = vec![0; size];
                let n = match rdr.read(&mut buf) {
                    Ok(n) => n,
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                    Err(_) => break,
                };
                total += n;
                // The packet which contains the last byte reported, or the flush or delimiter.
                let mut seen = 0;
                let mut allowed = 0;
                for (i, (p, e)) in expected.iter().enumerate() {
                    if let Pkt::Data(d) = p {
                        seen += d.len();
                    }
                    if n == 0 {
                        if !matches!(p, Pkt::Data(_)) && i >= idx {
                            allowed = *e;
                            idx = i + 1;
                            break;
                        }
                    } else if seen >= total {
                        allowed = *e;
                        break;
                    }
                }
                let pos = src.borrow().pos;
                ensure!(
                    pos <= allowed,
                    "{} bytes were consumed to report data which ends at {}",
                    pos,
                    allowed
                );
                if n == 0 && allowed == 0 {
                    break;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P01

#[derive(Debug)]
enum Op {
    Packet(Pkt),
    Write(B),
    Flush,
    /// Writer::write called by write_all or directly.
    WriteAll(B),
}

#[derive(Debug)]
struct RoundTrip {
    ops: Vec<Op>,
    write: Pattern,
    read: Pattern,
    hows: Vec<How>,
}

fn gen_len(s: &mut Src) -> usize {
    match s.weighted(&[6, 4, 2, 3]) {
        0 => s.size(40),
        1 => s.size(5000),
        2 => s.size(200_000),
        _ => *s.pick(&[
            0usize, 1, 65515, 65516, 65517, 65519, 65520, 65521, 65531, 65532, 65533, 65535, 65536,
            65537, 131031, 131032, 131033, 196548, 196549,
        ]),
    }
}

struct P01;

impl Prop for P01 {
    type Case = RoundTrip;
    type Ctx = ();
    fn id(&self) -> &'static str {
        "P01"
    }
    fn rule(&self) -> &'static str {
        "A case is a sequence of packets and byte writes, transports which split and interrupt \
         writes and reads, and several ways to read (packets, iterator, stream with a cycle of \
         buffer sizes including 0 and the sizes around 65516, and alternations of them). \
         Non-trivial: at least one byte of data is written, and it is read as a stream, or at \
         least one packet has the maximum length or is refused."
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            2_000_000
        } else {
            180_000
        }
    }
    fn ctx(&self, _: usize) {}
    fn gen(&self, s: &mut Src) -> RoundTrip {
        let n = s.usize(0, 8);
        let ops = (0..n)
            .map(|_| match s.weighted(&[4, 2, 2, 3, 2, 1]) {
                0 => {
                    let n = gen_len(s);
                    Op::Packet(Pkt::Data(s.blob(n).into()))
                }
                1 => Op::Packet(Pkt::Flush),
                2 => Op::Packet(Pkt::Delim),
                3 => {
                    let n = gen_len(s);
                    Op::Write(s.blob(n).into())
                }
                4 => {
                    let n = gen_len(s);
                    Op::WriteAll(s.blob(n).into())
                }
                _ => Op::Flush,
            })
            .collect();
        let write = Pattern::gen(s);
        let read = Pattern::gen(s);
        let n = s.usize(1, 3);
        let hows = (0..n).map(|_| gen_how(s)).collect();
        RoundTrip {
            ops,
            write,
            read,
            hows,
        }
    }
    fn check(&self, c: &RoundTrip, _: &mut (), out: &mut Outcome) -> Check {
        let mut expected: Vec<u8> = vec![];
        let sink = Rc::new(RefCell::new(SlowWriter {
            data: vec![],
            pattern: c.write.clone(),
            i: 0,
            flushed: 0,
        }));
        let mut wrtr = Writer::new(Sink(sink.clone()));
        let mut data = 0;
        let mut special = false;
        let sink_len = || sink.borrow().data.len();
        for op in &c.ops {
            let before = sink_len();
            match op {
                Op::Packet(p) => {
                    let pkt = match p {
                        Pkt::Flush => Packet::new(PacketType::Flush, b""),
                        Pkt::Delim => Packet::new(PacketType::Delim, b""),
                        Pkt::Data(d) => Packet::new(PacketType::Data(d.len()), d),
                    };
                    let r = guard(|| Ok(wrtr.write_packet(&pkt)))?;
                    let too_long = matches!(p, Pkt::Data(d) if d.len() > MAX_DATA);
                    if too_long {
                        special = true;
                        out.class("refused packet");
                        ensure!(
                            r.is_err(),
                            "writing a packet with {} bytes of data succeeded",
                            pkt.data().unwrap().len()
                        );
                        ensure!(
                            sink_len() == before,
                            "a refused packet left {} bytes on the wire",
                            sink_len() - before
                        );
                    } else {
                        if let Err(e) = r {
                            violation!("writing {:?} failed: {:?}", p, e);
                        }
                        if let Pkt::Data(d) = p {
                            data += d.len();
                            special |= d.len() == MAX_DATA;
                        }
                        encode(p, &mut expected);
                    }
                }
                Op::Write(d) | Op::WriteAll(d) => {
                    let r = guard(|| {
                        Ok(match op {
                            Op::Write(_) => wrtr.write(d),
                            _ => wrtr.write_all(d).map(|()| d.len()),
                        })
                    })?;
                    let n = match r {
                        Ok(n) => n,
                        Err(e) => violation!("writing {} bytes failed: {:?}", d.len(), e),
                    };
                    ensure!(
                        n <= d.len() && (n > 0 || d.is_empty()),
                        "write of {} bytes returned {}",
                        d.len(),
                        n
                    );
                    data += d.len();
                    // How the data is split into packets is up to the writer.
                    let wire = &sink.borrow().data[before..];
                    let (pkts, end) = reference(wire);
                    let mut all = vec![];
                    for (p, _) in &pkts {
                        match p {
                            Pkt::Data(d) => all.extend_from_slice(d),
                            p => violation!("a write produced {:?}", p),
                        }
                    }
                    let consumed = pkts.last().map_or(0, |p| p.1);
                    ensure!(
                        end == End::Eof && consumed == wire.len(),
                        "a write of {} bytes produced a malformed packet: {:?}",
                        d.len(),
                        B(wire[consumed..].to_vec())
                    );
                    ensure!(all == d[..n], "a write of {} bytes produced other data", d.len());
                    expected.extend_from_slice(wire);
                }
                Op::Flush => {
                    if let Err(e) = wrtr.flush() {
                        violation!("flush failed: {:?}", e);
                    }
                    ensure!(
                        sink.borrow().flushed == sink_len(),
                        "flush did not flush the transport"
                    );
                }
            }
        }
        let wire: Vec<u8> = sink.borrow().data.clone();
        drop(wrtr);
        ensure!(
            wire == expected,
            "wrong data on the wire, first difference at {:?}",
            wire.iter().zip(expected.iter()).position(|(a, b)| a != b)
        );
        let mut streamed = false;
        for how in &c.hows {
            out.class(match how {
                How::Packets => "read by packet",
                How::Iter => "iterated",
                How::Stream(_) => "streamed",
                How::Mixed(..) => "mixed",
            });
            streamed |= matches!(how, How::Stream(_) | How::Mixed(..));
            guard(|| check_reading(&wire, how, &c.read))
                .map_err(|e| prefix(e, &format!("{:?}", how)))?;
        }
        out.nontrivial = (data > 0 && streamed) || special;
        Ok(())
    }
}

fn prefix(e: Stop, p: &str) -> Stop {
    match e {
        Stop::Violation(v) => Stop::Violation(format!("{}: {}", p, v)),
        e => e,
    }
}

// ---------------------------------------------------------------------------------------------
// P02

#[derive(Debug)]
struct Bytes {
    wire: B,
    read: Pattern,
    how: How,
    position: Option<usize>,
}

struct P02;

fn gen_wire(s: &mut Src) -> Vec<u8> {
    let mut wire = vec![];
    let n = s.usize(0, 6);
    for _ in 0..n {
        match s.weighted(&[6, 2, 2, 2]) {
            0 => {
                let n = match s.weighted(&[8, 2, 1]) {
                    0 => s.size(30),
                    1 => s.size(3000),
                    _ => *s.pick(&[65515usize, 65516, 65500]),
                };
                let d = s.blob(n);
                encode(&Pkt::Data(d.into()), &mut wire);
            }
            1 => encode(&Pkt::Flush, &mut wire),
            2 => encode(&Pkt::Delim, &mut wire),
            _ => encode(&Pkt::Data(B(vec![])), &mut wire),
        }
    }
    // And something else.
    match s.weighted(&[2, 6, 3, 3, 2, 2]) {
        0 => (),
        1 => {
            // A header with one or two digits replaced, and data to follow.
            let mut h = *s.pick(&[*b"0005", *b"000a", *b"0010", *b"00ff", *b"0000", *b"0001", *b"fff0", *b"0009"]);
            for _ in 0..s.usize(1, 2) {
                let i = s.usize(0, 3);
                h[i] = match s.weighted(&[4, 1]) {
                    0 => *s.pick(b":;g`/@GAFaf09h +-xX\n\0_"),
                    _ => s.below(256) as u8,
                };
            }
            wire.extend_from_slice(&h);
            let n = match s.weighted(&[3, 1]) {
                0 => s.size(40),
                _ => s.size(70000),
            };
            wire.extend(s.blob(n));
        }
        2 => {
            // A length around the limits.
            let n = *s.pick(&[2usize, 3, 4, 65519, 65520, 65521, 65522, 65532, 65534, 65535]);
            wire.extend_from_slice(format!("{:04x}", n).as_bytes());
            let d = n.saturating_sub(4);
            let d = match s.below(3) {
                0 => d,
                1 => d.saturating_sub(1),
                _ => d + 8,
            };
            wire.extend(s.blob(d));
        }
        3 => {
            // Cut off.
            let d = s.usize(0, 40);
            encode(&Pkt::Data(s.blob(d).into()), &mut wire);
            let cut = s.usize(0, wire.len().min(d + 8));
            wire.truncate(wire.len() - cut);
        }
        4 => {
            let n = s.usize(0, 12);
            wire.extend(s.bytes(n));
        }
        _ => {
            // Upper case and other forms which another parser might accept.
            let h: &[u8] = *s.pick(&[
                b"000A", b"00AB", b"FFF0", b"+005", b" 005", b"0x05", b"5\0\0\0", b"-001", b"000a",
                b"fgff", b"gggg", b"::::", b"ffff", b"fff1", b"0g00", b"00g0", b"000:", b"000g", b"0:00", b":000", b"g000",
            ]);
            wire.extend_from_slice(h);
            let n = s.size(300);
            wire.extend(s.blob(n));
            if s.chance(1, 2) {
                wire.extend_from_slice(b"0000");
            }
        }
    }
    if s.chance(1, 3) {
        encode(&Pkt::Data("more"[..].into()), &mut wire);
        encode(&Pkt::Flush, &mut wire);
    }
    wire
}

impl Prop for P02 {
    type Case = Bytes;
    type Ctx = ();
    fn id(&self) -> &'static str {
        "P02"
    }
    fn rule(&self) -> &'static str {
        "A case is well-formed packets followed by something doubtful (a header with wrong \
         characters, a length around the limits, a cut, random bytes, or digits in another \
         notation), and possibly well-formed packets again, a transport which splits and \
         interrupts reads, and a way to read. Non-trivial: the bytes contain a malformed or an \
         incomplete packet."
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            4_000_000
        } else {
            450_000
        }
    }
    fn ctx(&self, _: usize) {}
    fn gen(&self, s: &mut Src) -> Bytes {
        let wire = gen_wire(s).into();
        let read = Pattern::gen(s);
        let how = gen_how(s);
        let position = match s.below(3) {
            0 => None,
            1 => Some(1 + s.size(200)),
            _ => Some(1 + s.size(70000)),
        };
        Bytes {
            wire,
            read,
            how,
            position,
        }
    }
    fn check(&self, c: &Bytes, _: &mut (), out: &mut Outcome) -> Check {
        let (pkts, end) = reference(&c.wire);
        let consumed = pkts.last().map_or(0, |p| p.1);
        out.class(match end {
            End::Malformed => "malformed header",
            End::Eof if consumed < c.wire.len() => "incomplete packet",
            End::Eof => "well-formed",
        });
        out.class(match c.how {
            How::Packets => "read by packet",
            How::Iter => "iterated",
            How::Stream(_) => "streamed",
            How::Mixed(..) => "mixed",
        });
        out.nontrivial = consumed < c.wire.len();
        guard(|| check_reading(&c.wire, &c.how, &c.read))
            .map_err(|e| prefix(e, &format!("{:?}", c.how)))?;
        guard(|| check_position(&c.wire, &c.read, c.position))
            .map_err(|e| prefix(e, &format!("position with {:?}", c.position)))
    }
}

fn main() {
    let mut cfg = Cfg::from_env();
    let mut id = String::new();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--replay" => cfg.replay = args.next().map(|p| p.into()),
            _ => id = a,
        }
    }
    let code = match id.as_str() {
        "P01" => vcore::run(P01, &cfg),
        "P02" => vcore::run(P02, &cfg),
        _ => 2,
    };
    std::process::exit(code);
}
