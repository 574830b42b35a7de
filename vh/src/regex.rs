//! Patterns as generated, how they are written, and what they match according to PCRE's
//! documentation, by plain backtracking.

use std::fmt::Write;
use vcore::Src;

#[derive(Debug, Clone)]
pub enum Item {
    Range(u8, u8),
    /// `\d`, `\W` and so on.
    Class(char),
    /// `[:alpha:]` and so on.
    Posix(&'static str),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    Greedy,
    Lazy,
    Possessive,
}

#[derive(Debug, Clone)]
pub enum Node {
    /// A byte, and how it is written.
    Byte(u8, u8),
    /// Text written as it is, of which only the last byte is repeated.
    Text(&'static str),
    Quote(&'static str),
    Any,
    Class(char),
    Set(Vec<Item>, bool),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Cap(usize, bool, Box<Node>),
    Group(Box<Node>),
    Atomic(Box<Node>),
    Rep(Box<Node>, u32, Option<u32>, Mode),
    Bol,
    Eol,
    Start,
    End,
    EndNl,
    WordB,
    NotWordB,
    Look {
        behind: bool,
        not: bool,
        node: Box<Node>,
    },
    Back(usize, u8),
    Flags(Flags, Flags, Box<Node>),
}

/// Caseless, multiple lines, dot matches all.
#[derive(Debug, Clone, Copy, Default, PartialEq)]
pub struct Flags {
    i: bool,
    m: bool,
    s: bool,
}

/// A whole pattern, with flags for all of it.
#[derive(Debug, Clone)]
pub struct Pattern {
    flags: Flags,
    node: Node,
}

fn class(c: char, b: u8) -> bool {
    match c {
        'd' => b.is_ascii_digit(),
        'w' => b.is_ascii_alphanumeric() || b == b'_',
        's' => matches!(b, b' ' | 9..=13),
        c => !class(c.to_ascii_lowercase(), b),
    }
}

fn swap_case(b: u8) -> u8 {
    if b.is_ascii_lowercase() {
        b.to_ascii_uppercase()
    } else {
        b.to_ascii_lowercase()
    }
}

fn item(i: &Item, b: u8, caseless: bool) -> bool {
    match i {
        Item::Range(lo, hi) => {
            (*lo..=*hi).contains(&b) || (caseless && (*lo..=*hi).contains(&swap_case(b)))
        }
        Item::Class(c) => class(*c, b),
        Item::Posix(p) => match *p {
            "alpha" => b.is_ascii_alphabetic(),
            "digit" => b.is_ascii_digit(),
            "alnum" => b.is_ascii_alphanumeric(),
            "punct" => b.is_ascii_punctuation(),
            _ => class('s', b),
        },
    }
}

struct State<'a> {
    text: &'a [u8],
    caps: Vec<Option<(usize, usize)>>,
    steps: usize,
    depth: usize,
}

const STEPS: usize = 100_000;
const DEPTH: usize = 2500;

type Next<'a, 'b> = &'a mut dyn FnMut(usize, &mut State<'b>) -> bool;

impl<'a> State<'a> {
    fn word(&self, i: usize) -> bool {
        self.text.get(i).map_or(false, |b| class('w', *b))
    }

    fn boundary(&self, i: usize) -> bool {
        (i > 0 && self.word(i - 1)) != self.word(i)
    }

    fn one(&mut self, n: &Node, f: Flags, i: usize) -> Option<bool> {
        let b = self.text.get(i).copied();
        let eq = |x: u8, b: u8| x == b || (f.i && swap_case(x) == b);
        Some(match n {
            Node::Byte(x, _) => b.map_or(false, |b| eq(*x, b)),
            Node::Any => b.map_or(false, |b| f.s || b != b'\n'),
            Node::Class(c) => b.map_or(false, |b| class(*c, b)),
            Node::Set(v, not) => b.map_or(false, |b| v.iter().any(|x| item(x, b, f.i)) != *not),
            _ => return None,
        })
    }

    fn run(&mut self, n: &Node, f: Flags, i: usize, k: Next<'_, 'a>) -> bool {
        self.steps += 1;
        if self.depth > DEPTH {
            self.steps = STEPS + 1;
        }
        if self.steps > STEPS {
            return false;
        }
        self.depth += 1;
        let r = self.run_one(n, f, i, k);
        self.depth -= 1;
        r
    }

    fn run_one(&mut self, n: &Node, f: Flags, i: usize, k: Next<'_, 'a>) -> bool {
        if let Some(r) = self.one(n, f, i) {
            return r && k(i + 1, self);
        }
        let len = self.text.len();
        match n {
            Node::Text(t) | Node::Quote(t) => {
                let mut j = i;
                for x in t.bytes() {
                    match self.one(&Node::Byte(x, 0), f, j) {
                        Some(true) => j += 1,
                        _ => return false,
                    }
                }
                k(j, self)
            }
            Node::Cat(v) => self.cat(v, f, i, k),
            Node::Alt(v) => v.iter().any(|n| self.run(n, f, i, k)),
            Node::Group(n) => self.run(n, f, i, k),
            Node::Cap(c, _, n) => {
                let old = self.caps[*c];
                let r = self.run(n, f, i, &mut |j, s| {
                    let o = s.caps[*c];
                    s.caps[*c] = Some((i, j));
                    let r = k(j, s);
                    if !r {
                        s.caps[*c] = o;
                    }
                    r
                });
                if !r {
                    self.caps[*c] = old;
                }
                r
            }
            Node::Atomic(n) => {
                let old = self.caps.clone();
                let mut end = None;
                self.run(n, f, i, &mut |j, _| {
                    end = Some(j);
                    true
                });
                match end {
                    Some(j) if k(j, self) => true,
                    _ => {
                        self.caps = old;
                        false
                    }
                }
            }
            Node::Rep(n, min, max, mode) => match mode {
                Mode::Possessive => {
                    let n = Node::Atomic(Box::new(Node::Rep(n.clone(), *min, *max, Mode::Greedy)));
                    self.run(&n, f, i, k)
                }
                _ => self.rep(n, *min, *max, *mode == Mode::Lazy, f, i, k),
            },
            Node::Bol => {
                (i == 0 || (f.m && i < len && self.text[i - 1] == b'\n')) && k(i, self)
            }
            Node::Eol => {
                let nl = |i: usize| self.text[i] == b'\n';
                (i == len || (nl(i) && (f.m || i + 1 == len))) && k(i, self)
            }
            Node::Start => i == 0 && k(i, self),
            Node::End => i == len && k(i, self),
            Node::EndNl => (i == len || (i + 1 == len && self.text[i] == b'\n')) && k(i, self),
            Node::WordB => self.boundary(i) && k(i, self),
            Node::NotWordB => !self.boundary(i) && k(i, self),
            Node::Look { behind, not, node } => {
                let from = if *behind {
                    match i.checked_sub(width(node)) {
                        Some(j) => Some(j),
                        None => None,
                    }
                } else {
                    Some(i)
                };
                let old = self.caps.clone();
                let r = match from {
                    Some(j) => self.run(node, f, j, &mut |_, _| true),
                    None => false,
                };
                if self.steps > STEPS {
                    return false;
                }
                if *not {
                    self.caps = old;
                    return !r && k(i, self);
                }
                if r && k(i, self) {
                    return true;
                }
                self.caps = old;
                false
            }
            Node::Back(c, _) => match self.caps[*c] {
                None => false,
                Some((a, b)) => {
                    if i + (b - a) > len {
                        return false;
                    }
                    let same = (0..b - a).all(|o| {
                        let (x, y) = (self.text[a + o], self.text[i + o]);
                        x == y || (f.i && swap_case(x) == y)
                    });
                    same && k(i + (b - a), self)
                }
            },
            Node::Flags(on, off, n) => {
                let f = Flags {
                    i: (f.i || on.i) && !off.i,
                    m: (f.m || on.m) && !off.m,
                    s: (f.s || on.s) && !off.s,
                };
                self.run(n, f, i, k)
            }
            _ => unreachable!(),
        }
    }

    fn cat(&mut self, v: &[Node], f: Flags, i: usize, k: Next<'_, 'a>) -> bool {
        match v.split_first() {
            None => k(i, self),
            Some((n, rest)) => self.run(n, f, i, &mut |j, s| s.cat(rest, f, j, k)),
        }
    }

    fn rep(
        &mut self,
        n: &Node,
        min: u32,
        max: Option<u32>,
        lazy: bool,
        f: Flags,
        i: usize,
        k: Next<'_, 'a>,
    ) -> bool {
        self.steps += 1;
        if self.steps > STEPS {
            return false;
        }
        if min > 0 {
            return self.run(n, f, i, &mut |j, s| {
                s.rep(n, min - 1, max.map(|m| m - 1), lazy, f, j, k)
            });
        }
        if max == Some(0) {
            return k(i, self);
        }
        if lazy && k(i, self) {
            return true;
        }
        let r = self.run(n, f, i, &mut |j, s| {
            if j == i {
                // Once nothing is left, more of it does not help.
                return k(j, s);
            }
            s.rep(n, 0, max.map(|m| m - 1), lazy, f, j, k)
        });
        r || (!lazy && k(i, self))
    }
}

fn width(n: &Node) -> usize {
    match n {
        Node::Cat(v) => v.iter().map(width).sum(),
        Node::Group(n) => width(n),
        _ => 1,
    }
}

impl Pattern {
    /// Whether it matches somewhere, unless that takes too long to find out.
    pub fn matches(&self, text: &[u8]) -> Option<bool> {
        let mut steps = 0;
        for i in 0..=text.len() {
            let mut s = State {
                text,
                caps: vec![None; 12],
                steps,
                depth: 0,
            };
            let r = s.run(&self.node, self.flags, i, &mut |_, _| true);
            if s.steps > STEPS {
                return None;
            }
            if r {
                return Some(true);
            }
            steps = s.steps;
        }
        Some(false)
    }

    pub fn write(&self) -> String {
        let mut o = String::new();
        let f = self.flags;
        if f != Flags::default() {
            o.push_str("(?");
            write_flags(&mut o, f);
            o.push(')');
        }
        write(&mut o, &self.node);
        o
    }

    pub fn literal(t: &'static str) -> Pattern {
        Pattern {
            flags: Flags::default(),
            node: Node::Text(t),
        }
    }

    /// One of some bytes.
    pub fn one_of(bytes: &[u8]) -> Pattern {
        Pattern {
            flags: Flags::default(),
            node: Node::Set(bytes.iter().map(|b| Item::Range(*b, *b)).collect(), false),
        }
    }

    /// Whether it is more than some text.
    pub fn special(&self) -> bool {
        fn plain(n: &Node) -> bool {
            match n {
                Node::Byte(..) | Node::Text(_) | Node::Quote(_) => true,
                Node::Cat(v) => v.iter().all(plain),
                _ => false,
            }
        }
        self.flags != Flags::default() || !plain(&self.node)
    }
}

fn write_flags(o: &mut String, f: Flags) {
    for (b, c) in [(f.i, 'i'), (f.m, 'm'), (f.s, 's')] {
        if b {
            o.push(c);
        }
    }
}

fn write_byte(o: &mut String, b: u8, style: u8) {
    match style {
        1 => write!(o, "\\x{:02x}", b).unwrap(),
        2 => write!(o, "\\x{{{:X}}}", b).unwrap(),
        3 if b == b'\n' => o.push_str("\\n"),
        3 if b == b'\t' => o.push_str("\\t"),
        3 if b == b'\r' => o.push_str("\\r"),
        3 if b.is_ascii_graphic() && b != b'^' && b != b']' && b != b'\\' => {
            write!(o, "[{}]", b as char).unwrap()
        }
        _ => match b {
            b'\n' => o.push('\n'),
            b' '..=b'~' => {
                if !b.is_ascii_alphanumeric() && b != b' ' && b != b'_' {
                    o.push('\\');
                }
                o.push(b as char);
            }
            b => write!(o, "\\x{:02X}", b).unwrap(),
        },
    }
}

fn write(o: &mut String, n: &Node) {
    match n {
        Node::Byte(b, s) => write_byte(o, *b, *s),
        Node::Text(t) => o.push_str(t),
        Node::Quote(t) => write!(o, "\\Q{}\\E", t).unwrap(),
        Node::Any => o.push('.'),
        Node::Class(c) => write!(o, "\\{}", c).unwrap(),
        Node::Set(v, not) => {
            o.push('[');
            if *not {
                o.push('^');
            }
            for i in v {
                match i {
                    Item::Range(a, b) => {
                        let one = |o: &mut String, x: u8| {
                            if x.is_ascii_alphanumeric() {
                                o.push(x as char);
                            } else {
                                write!(o, "\\x{:02x}", x).unwrap();
                            }
                        };
                        one(o, *a);
                        if a != b {
                            o.push('-');
                            one(o, *b);
                        }
                    }
                    Item::Class(c) => write!(o, "\\{}", c).unwrap(),
                    Item::Posix(p) => write!(o, "[:{}:]", p).unwrap(),
                }
            }
            o.push(']');
        }
        Node::Cat(v) => v.iter().for_each(|n| write(o, n)),
        Node::Alt(v) => {
            for (i, n) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                write(o, n);
            }
        }
        Node::Cap(i, named, n) => {
            o.push('(');
            if *named {
                write!(o, "?<n{}>", i).unwrap();
            }
            write(o, n);
            o.push(')');
        }
        Node::Group(n) => {
            o.push_str("(?:");
            write(o, n);
            o.push(')');
        }
        Node::Atomic(n) => {
            o.push_str("(?>");
            write(o, n);
            o.push(')');
        }
        Node::Rep(n, min, max, mode) => {
            write(o, n);
            match (min, max) {
                (0, None) => o.push('*'),
                (1, None) => o.push('+'),
                (0, Some(1)) => o.push('?'),
                (a, None) => write!(o, "{{{},}}", a).unwrap(),
                (a, Some(b)) if a == b => write!(o, "{{{}}}", a).unwrap(),
                (a, Some(b)) => write!(o, "{{{},{}}}", a, b).unwrap(),
            }
            match mode {
                Mode::Greedy => {}
                Mode::Lazy => o.push('?'),
                Mode::Possessive => o.push('+'),
            }
        }
        Node::Bol => o.push('^'),
        Node::Eol => o.push('$'),
        Node::Start => o.push_str("\\A"),
        Node::End => o.push_str("\\z"),
        Node::EndNl => o.push_str("\\Z"),
        Node::WordB => o.push_str("\\b"),
        Node::NotWordB => o.push_str("\\B"),
        Node::Look { behind, not, node } => {
            o.push_str("(?");
            if *behind {
                o.push('<');
            }
            o.push(if *not { '!' } else { '=' });
            write(o, node);
            o.push(')');
        }
        Node::Back(i, 0) => write!(o, "\\g{{{}}}", i).unwrap(),
        Node::Back(i, _) => write!(o, "(?:\\{})", i).unwrap(),
        Node::Flags(on, off, n) => {
            o.push_str("(?");
            write_flags(o, *on);
            if *off != Flags::default() {
                o.push('-');
                write_flags(o, *off);
            }
            o.push(':');
            write(o, n);
            o.push(')');
        }
    }
}

/// What patterns and messages are made of.
pub const TEXTS: [&str; 10] = [
    "a", "b", "ab", "fix", "fixup!", "squash!", "foo bar", "é", "x\ny", "日本",
];

pub fn byte(s: &mut Src) -> u8 {
    match s.weighted(&[16, 3, 1]) {
        0 => *s.pick(b"ab cA1_"),
        1 => *s.pick(b"\n!.B\n"),
        _ => *s.pick(b"\r\t\x0b\xc3\xa9\xff$"),
    }
}

struct Gen {
    caps: usize,
    done: Vec<usize>,
}

pub fn pattern(s: &mut Src) -> Pattern {
    let mut g = Gen {
        caps: 0,
        done: vec![],
    };
    let flags = Flags {
        i: s.chance(1, 8),
        m: s.chance(1, 8),
        s: s.chance(1, 8),
    };
    Pattern {
        flags,
        node: g.alt(s, 3),
    }
}

impl Gen {
    fn alt(&mut self, s: &mut Src, depth: u32) -> Node {
        if s.chance(1, 5) {
            Node::Alt((0..s.usize(2, 3)).map(|_| self.cat(s, depth)).collect())
        } else {
            self.cat(s, depth)
        }
    }

    fn cat(&mut self, s: &mut Src, depth: u32) -> Node {
        let n = match s.weighted(&[5, 5, 3, 2, 1]) {
            4 => 0,
            n => n + 1,
        };
        Node::Cat((0..n).map(|_| self.piece(s, depth)).collect())
    }

    fn fixed(&mut self, s: &mut Src) -> Node {
        Node::Cat((0..s.usize(1, 2)).map(|_| self.single(s)).collect())
    }

    fn single(&mut self, s: &mut Src) -> Node {
        match s.weighted(&[8, 2, 2, 2]) {
            0 => Node::Byte(byte(s), s.below(4) as u8),
            1 => Node::Any,
            2 => Node::Class(*s.pick(&['w', 's', 'd', 'W', 'S', 'D'])),
            _ => {
                let items = (0..s.usize(1, 3))
                    .map(|_| match s.weighted(&[3, 2, 1, 1]) {
                        0 => {
                            let b = byte(s);
                            Item::Range(b, b)
                        }
                        1 => s
                            .pick(&[Item::Range(b'a', b'c'), Item::Range(b'A', b'Z'), Item::Range(b'0', b'9')])
                            .clone(),
                        2 => Item::Class(*s.pick(&['w', 's', 'd', 'W', 'S', 'D'])),
                        _ => Item::Posix(s.pick(&["alpha", "digit", "alnum", "punct", "space"])),
                    })
                    .collect();
                Node::Set(items, s.chance(1, 3))
            }
        }
    }

    fn piece(&mut self, s: &mut Src, depth: u32) -> Node {
        match s.weighted(&[10, 3, 4, 4, 2, 1]) {
            0 => self.single(s),
            1 => {
                let t = *s.pick(&TEXTS);
                if s.chance(1, 4) {
                    Node::Quote(t)
                } else {
                    Node::Text(t)
                }
            }
            2 => match s.below(7) {
                0 => Node::Bol,
                1 => Node::Eol,
                2 => Node::Start,
                3 => Node::End,
                4 => Node::EndNl,
                5 => Node::WordB,
                _ => Node::NotWordB,
            },
            3 if depth > 0 => {
                let n = match s.weighted(&[3, 2]) {
                    0 => self.single(s),
                    _ => self.group(s, depth - 1),
                };
                let (min, max) = *s.pick(&[
                    (0, None),
                    (1, None),
                    (0, Some(1)),
                    (2, Some(2)),
                    (1, Some(3)),
                    (2, None),
                ]);
                let mode = *s.pick(&[Mode::Greedy, Mode::Greedy, Mode::Lazy, Mode::Possessive]);
                Node::Rep(Box::new(n), min, max, mode)
            }
            4 if depth > 0 => self.group(s, depth - 1),
            5 => match self.done.is_empty() {
                false => Node::Back(*s.pick(&self.done.clone()), s.below(2) as u8),
                true => self.single(s),
            },
            _ => self.single(s),
        }
    }

    fn group(&mut self, s: &mut Src, depth: u32) -> Node {
        match s.weighted(&[4, 4, 1, 2, 2, 2]) {
            1 if self.caps < 9 => {
                self.caps += 1;
                let c = self.caps;
                let named = s.chance(1, 4);
                let n = self.alt(s, depth);
                self.done.push(c);
                Node::Cap(c, named, Box::new(n))
            }
            2 => Node::Atomic(Box::new(self.alt(s, depth))),
            3 => Node::Look {
                behind: true,
                not: s.chance(1, 2),
                node: Box::new(self.fixed(s)),
            },
            4 => Node::Look {
                behind: false,
                not: s.chance(1, 2),
                node: Box::new(self.alt(s, depth)),
            },
            5 => {
                let mut f = || Flags {
                    i: s.chance(1, 3),
                    m: s.chance(1, 3),
                    s: s.chance(1, 3),
                };
                let (on, off) = (f(), f());
                Node::Flags(on, off, Box::new(self.alt(s, depth)))
            }
            _ => Node::Group(Box::new(self.alt(s, depth))),
        }
    }
}

/// Something which the pattern should match, more or less.
pub fn sample(p: &Pattern, s: &mut Src) -> Vec<u8> {
    let mut o = vec![];
    let mut caps = vec![vec![]; 12];
    draw(&p.node, s, &mut o, &mut caps);
    if p.flags.i && s.chance(1, 2) {
        o.iter_mut().for_each(|b| *b = swap_case(*b));
    }
    o
}

fn draw(n: &Node, s: &mut Src, o: &mut Vec<u8>, caps: &mut Vec<Vec<u8>>) {
    if o.len() > 300 {
        return;
    }
    match n {
        Node::Byte(b, _) => o.push(*b),
        Node::Text(t) | Node::Quote(t) => o.extend_from_slice(t.as_bytes()),
        Node::Any => o.push(byte(s)),
        Node::Class(c) => {
            let v: Vec<u8> = b"a1 _!\nB".iter().copied().filter(|b| class(*c, *b)).collect();
            o.push(*s.pick(&v));
        }
        Node::Set(v, not) => {
            let v: Vec<u8> = (1..=255u8)
                .filter(|b| v.iter().any(|x| item(x, *b, false)) != *not)
                .collect();
            let nice: Vec<u8> = v.iter().copied().filter(|b| b" \nabcAB1_".contains(b)).collect();
            if !nice.is_empty() {
                o.push(*s.pick(&nice));
            } else if !v.is_empty() {
                o.push(*s.pick(&v));
            }
        }
        Node::Cat(v) => v.iter().for_each(|n| draw(n, s, o, caps)),
        Node::Alt(v) => draw(s.pick(v), s, o, caps),
        Node::Cap(c, _, n) => {
            let i = o.len();
            draw(n, s, o, caps);
            caps[*c] = o[i..].to_vec();
        }
        Node::Group(n) | Node::Atomic(n) | Node::Flags(_, _, n) => draw(n, s, o, caps),
        Node::Rep(n, min, max, _) => {
            let hi = max.unwrap_or(min + 2).min(min + 2);
            for _ in 0..s.range(*min as u64, hi as u64) {
                draw(n, s, o, caps);
            }
        }
        Node::Back(c, _) => o.extend_from_slice(&caps[*c]),
        Node::Look {
            behind: false,
            not: false,
            node,
        } => {
            if s.chance(1, 2) {
                draw(node, s, o, caps)
            }
        }
        Node::Bol if !o.is_empty() => o.push(b'\n'),
        Node::Eol if s.chance(1, 3) => o.push(b'\n'),
        _ => {}
    }
}
