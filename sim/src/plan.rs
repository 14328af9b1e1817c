//! One integer -> one complete plan: who calls what, with which data, where it fails
//! and how it is scheduled. Plan generation never calls the library.
use crate::vals::*;
use simrt::{Rng, SchedCfg, MAXT};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Prop {
    C01,
    C02,
    C03,
    C04,
    C05,
    C06,
    C07,
    C08,
    C09,
    C10,
    C11,
    C12,
}
pub const PROPS: [Prop; 12] = [
    Prop::C01,
    Prop::C02,
    Prop::C03,
    Prop::C04,
    Prop::C05,
    Prop::C06,
    Prop::C07,
    Prop::C08,
    Prop::C09,
    Prop::C10,
    Prop::C11,
    Prop::C12,
];
impl Prop {
    pub fn name(self) -> String {
        format!("{:?}", self)
    }
    pub fn parse(s: &str) -> Option<Prop> {
        PROPS.iter().copied().find(|p| p.name() == s)
    }
    /// properties decided by comparing with each line's history executed alone in a
    /// pristine process
    pub fn differential(self) -> bool {
        matches!(self, Prop::C05 | Prop::C06 | Prop::C07 | Prop::C09 | Prop::C10)
    }
}

#[derive(Clone, Debug)]
pub enum In {
    Text(String, Vec<(Ty, u32)>),
    Custom(usize, Vec<(Ty, u32)>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Measure {
    Len,
    Utf16,
    Chars,
    Const(usize),
    /// a different answer at every call
    Vary(u64),
    /// uses the library from inside the callback
    Reentrant,
}
#[derive(Clone, Debug)]
pub struct Create {
    pub via: u8,
    pub inputs: Vec<In>,
    pub measure: Measure,
}
#[derive(Clone, Debug)]
pub enum M {
    Attr(Ty),
    Eq(Ty, u32),
    Any(Ty, Vec<u32>),
    Text,
    Ws,
    Seq2(Box<M>, Box<M>),
    Seq3(Box<M>, Box<M>, Box<M>),
    All2(Box<M>, Box<M>),
    All3(Box<M>, Box<M>, Box<M>),
    Or2(Box<M>, Box<M>),
    Or3(Box<M>, Box<M>, Box<M>),
}
#[derive(Clone, Debug)]
pub struct NavStep {
    pub op: u8,
    pub m: M,
    pub pick: u32,
    pub other: u32,
}
#[derive(Clone, Debug)]
pub enum ResSpec {
    /// mode: 0 case-sensitive map, 1 case-insensitive map, 2 case-insensitive array of 3
    Text { mode: u8, ty: Ty, table: Vec<(&'static str, Vec<u32>)> },
    /// delimiters, decimal; preset 1 = english(), 2 = french()
    Amount { preset: u8, delims: Vec<char>, decimal: char },
    Kw(u8),
    Clause,
    Pos,
    Sym,
    Money,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Misuse {
    /// keep a selection beyond the layer
    KeepSelection,
    /// combine a selection with one of another line
    CrossLine,
    /// return an assignment made on a longer line
    ForeignRange,
}
#[derive(Clone, Debug)]
pub enum Layer {
    Script { ty: Ty, assigns: Vec<(u32, u32, u32)>, flavor: u8, reads: Vec<M>, clone_sel: bool },
    Nav { steps: Vec<NavStep> },
    Shipped(usize),
    Misuse(Misuse, M),
}
#[derive(Clone, Debug)]
pub enum Sink {
    Text,
    FmtErrAt(u64),
    FmtErrCall(u64),
    IoShort(u64),
    IoErrAt(u64, u64),
    IoZeroAt(u64, u64),
    /// fails exactly once and would accept everything afterwards
    FmtOnce(u64),
    IoOnce(u64, u64),
}
#[derive(Clone, Debug)]
pub enum Read {
    Query(Vec<Ty>),
    Find(M),
    Display { types: Vec<Ty>, via: u8, sink: Sink },
    Tokens,
}
#[derive(Clone, Debug)]
pub enum OpK {
    Create,
    Layer(usize),
    Read(Read),
    Publish,
    SharedRead(Read),
    Drop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Callback,
    Alloc,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub id: u32,
    pub task: usize,
    pub line: usize,
    pub kind: OpK,
    pub fault: Option<(FaultKind, u64)>,
}
#[derive(Clone, Debug)]
pub struct LinePlan {
    pub create: Create,
    pub layers: Vec<Layer>,
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: Prop,
    pub seed: u64,
    pub n_tasks: usize,
    pub lines: Vec<LinePlan>,
    pub ops: Vec<Op>,
    pub shared: Vec<ResSpec>,
    pub sched: SchedCfg,
    pub reenter: bool,
    pub env: (u64, u64, u64, u32),
    /// C04: lines that must end up equal type by type
    pub twins: Vec<(usize, usize)>,
    /// which lines (one bit each, by line number modulo 32) are made again, without
    /// ever being looked at, before they are shared or let go
    pub observe: u32,
    /// how many small lines the process has handled on this thread before the run starts,
    /// and with which of the shared resolvers (none when out of range)
    pub warm: (u32, usize),
    /// how often in a row a faulted operation fails before it is retried undisturbed
    pub repeat_fail: u32,
}

const WORDS: &[&str] = &[
    "if", "If", "when", "WHEN", "then", "and", "And", "it", "rains", "run", "Slack", "slack", "SLACK", "Algolia",
    "New", "York", "City", "I", "live", "in", "don't", "should've", "baseball-card", "the", "Paris", "a", "é",
    "fatigué", "Straße", "İstanbul", "日本語", "مرحبا", "lo\u{301}ng", "name", "x", "OK", "flies", "like", "open",
];
const NUMS: &[&str] = &[
    "1", "7", "12", "000", "1000", "1,000.25", "1'000'240.00", "3.14", "1.00,00", "10.0", "12,3", "0004", "100,.",
    "1,00,00", "12abc34", "5x", "1_000", "100,,20", "7.", "99999999999999999999", "0.5", "2,", "123456789012345678901234567",
];
const SYMS: &[&str] = &[
    ".", ",", "!", ";", ":", "?", "'", "\"", "$", "€", "#", "@", "%", "(", ")", "-", "_", "/", "😀", "👩‍👩‍👧", "🦶🏽", "$1",
    "€5", "...", "\u{200d}", "→", "·",
];
const SPACES: &[&str] = &[" ", "  ", "\t", "\u{a0}", "\n", " \t ", "\r\n", "\u{3000}", "\u{2028}", "\u{200b}", "\r", "\u{202f}"];
/// spellings with rules of their own somewhere in Unicode or in writing
const SPECIAL: &[&str] = &[
    "\r\n", "\n\r", "\u{200b}\u{200b}", "\u{feff}", "\u{2060}x", "\u{ad}", "co\u{ad}op", "ﬁn", "ß", "ẞ", "ǆ", "Ǆ", "ΣΑΣ", "ς", "①", "½", "²",
    "٣٤", "１２", "१२", "Ⅷ", "a.b", "e.g.", "can’t", "l'eau", "3rd", "1e5", "0x1F", "-5", "+5", "5%", "1/2", "::", "--", "—", "–",
    "http://x.y/z?a=1&b=2", "@user", "#tag", "🇫🇷🇩🇪", "🇫", "1\u{fe0f}\u{20e3}", "👍🏽", "🏴\u{e0067}\u{e007f}", "e\u{301}\u{301}", "\u{301}", "ก็", "한국",
    "カナ", "_x_", "x_1", "1.", ".5", "1..2", "1,,", "''", "\"\"", "«a»", "¿", "…", "\0", "\u{1b}[0m", "\u{7f}", "\u{85}", "I\u{307}", "ı", "K", "Å",
];
/// inputs the tokenizer must cope with as well (digits followed by non-ASCII)
const ODD: &[&str] = &["5é", "2ème", "1º", "7\u{fe0f}\u{20e3}", "3\u{301}", "10日", "99999999999999999999999999999999999999"];

/// blocks of characters with different treatment by segmentation, case mapping, width or
/// classification
const BLOCKS: &[(u32, u32)] = &[
    (0x00, 0x1f), (0x20, 0x7e), (0x7f, 0xff), (0x100, 0x24f), (0x300, 0x36f), (0x370, 0x3ff), (0x400, 0x4ff),
    (0x590, 0x5ff), (0x600, 0x6ff), (0x900, 0x97f), (0xe00, 0xe7f), (0x1100, 0x11ff), (0x1e00, 0x1fff),
    (0x2000, 0x206f), (0x2070, 0x20cf), (0x2100, 0x218f), (0x2190, 0x23ff), (0x2460, 0x24ff), (0x2600, 0x27bf),
    (0x3000, 0x30ff), (0x4e00, 0x4eff), (0xac00, 0xacff), (0xe000, 0xe0ff), (0xfb00, 0xfb4f), (0xfe00, 0xfe0f),
    (0xfeff, 0xfeff), (0xff00, 0xffef), (0xfffd, 0xffff), (0x1d400, 0x1d7ff), (0x1f1e6, 0x1f1ff), (0x1f300, 0x1faff),
    (0x20000, 0x200ff), (0xe0020, 0xe007f), (0x100000, 0x10ffff),
];
fn gen_char(r: &mut Rng) -> char {
    loop {
        let (a, b) = *r.pick(BLOCKS);
        if let Some(c) = char::from_u32(r.range(a as u64, b as u64) as u32) {
            return c;
        }
    }
}

/// Spellings that are easily mistaken for one another (same length, ends, beginning, letters,
/// canonical form) although they mean different things to the resolvers.
const LOOKALIKE: [&[&str]; 4] = [
    &[
        "form", "from", "three", "there", "quiet", "quite", "listen", "silent", "was", "saw", "on", "no", "above", "about",
        "quickly", "quickie", "internationally", "internationalize", "internationalization", "internationalist",
    ],
    &["if", "fi", "of", "iff", "and", "dan", "end", "ands", "then", "than", "thee", "hent", "when", "hewn", "whet", "wen", "İf", "ıf", "AND", "ＡＮＤ"],
    &[
        "12", "21", "1,2", "1.2", "102", "1000001", "1000002", "1000011", "12345678901", "12345678902", "0.10", "0.1", "00.1", "1,00.1", "10.01",
        "1'2", "1 2",
    ],
    &[
        "Slack", "Slick", "Scalk", "slacks", "slackslackslackslack", "slackslackslackslick", "Algolia", "Algoila", "é", "e\u{301}", "É", "Straße",
        "strasse", "STRASSE", "ſlack", "ＳＬＡＣＫ", "slack", "SLACK", "kcals",
    ],
];

pub fn gen_text(r: &mut Rng, pieces: u64, odd: bool, alike: Option<usize>) -> String {
    let mut s = String::new();
    for i in 0..pieces {
        let p = match r.below(10) {
            1..=8 if alike.is_some() => *r.pick(LOOKALIKE[alike.unwrap()]),
            0..=3 => *r.pick(WORDS),
            4..=5 => *r.pick(NUMS),
            6..=7 => *r.pick(SYMS),
            8 if odd && r.chance(1, 3) => *r.pick(ODD),
            8 if r.chance(1, 3) => *r.pick(SPECIAL),
            8 if r.chance(1, 2) => {
                for _ in 0..r.range(1, 4) {
                    s.push(gen_char(r));
                    if r.chance(1, 4) {
                        s.push_str(*r.pick(&["a", "1", "7", ",", ".", "'", " "]));
                    }
                }
                continue;
            }
            9 if r.chance(1, 40) => {
                // one very long piece
                let unit = *r.pick(&["x", "7", "é", "-", "a1", " ", "日"]);
                for _ in 0..r.range(60, 400) {
                    s.push_str(unit);
                }
                continue;
            }
            _ => *r.pick(SPACES),
        };
        s.push_str(p);
        if i + 1 < pieces && r.chance(6, 10) {
            s.push(' ');
        }
    }
    if s.is_empty() {
        s.push('a');
    }
    s
}

pub struct Knobs {
    tasks: (u64, u64),
    lines: (u64, u64),
    layers: (u64, u64),
    reads: (u64, u64),
    pieces: (u64, u64),
    fault_pct: u64,
    shipped_pct: u64,
    nav_pct: u64,
    script_types: Vec<Ty>,
    publish_pct: u64,
    preempt_pct: u64,
    max_val: u64,
    assigns: (u64, u64),
    odd: bool,
    alike: Option<usize>,
    depth: u32,
}

pub fn gen_m(r: &mut Rng, types: &[Ty], depth: u32, max_val: u64) -> M {
    let leaf = depth == 0 || r.chance(2, 5);
    if leaf {
        let makeable: Vec<Ty> = types.iter().copied().filter(|&t| t < T_AMOUNT || t >= T_BIG).collect();
        return match r.below(10) {
            0..=3 => M::Attr(*r.pick(types)),
            4..=5 if !makeable.is_empty() => M::Eq(*r.pick(&makeable), r.below(max_val) as u32),
            6..=7 if !makeable.is_empty() => {
                let t = *r.pick(&makeable);
                let n = if r.chance(1, 10) { r.range(4, 40) } else { r.range(0, 3) };
                let mut vs: Vec<u32> = (0..n).map(|_| r.below(max_val) as u32).collect();
                if n > 3 {
                    // a large set: every value once, in any order
                    vs = (0..n as u32).collect();
                    for i in (1..vs.len()).rev() {
                        vs.swap(i, r.below(i as u64 + 1) as usize);
                    }
                }
                M::Any(t, vs)
            }
            8 => M::Ws,
            _ => M::Text,
        };
    }
    let mut g = || Box::new(gen_m(r, types, depth - 1, max_val));
    let (a, b, c) = (g(), g(), g());
    match r.below(8) {
        0..=1 => M::Seq2(a, b),
        2 => M::Seq3(a, b, c),
        3 => M::All2(a, b),
        4 => M::All3(a, b, c),
        5..=6 => M::Or2(a, b),
        _ => M::Or3(a, b, c),
    }
}

fn gen_create(r: &mut Rng, k: &Knobs, prop: Prop) -> Create {
    let mut inputs = Vec::new();
    let n_in = match r.below(10) {
        0..=4 => 1,
        5..=7 => r.range(2, 4),
        8 => r.range(3, 9),
        _ => {
            if r.chance(1, 6) {
                0
            } else {
                2
            }
        }
    };
    let pieces = r.range(k.pieces.0, k.pieces.1).max(1);
    let mut cid = 0;
    for i in 0..n_in {
        let mut attrs: Vec<(Ty, u32)> = Vec::new();
        for _ in 0..(if r.chance(1, 2) { r.range(0, 4) } else { 0 }) {
            let t = if r.chance(1, 12) { *r.pick(&[T_TAG, T_CHAR]) } else { *r.pick(&k.script_types) };
            attrs.push((t, r.below(k.max_val) as u32));
        }
        if r.chance(1, 4) {
            let size = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => 1 << 40,
                _ => r.range(1, 30) as usize,
            };
            if r.chance(4, 5) {
                attrs.insert(0, (T_CID, cid));
                cid += 1;
            } else if r.chance(1, 2) {
                attrs.clear();
            }
            inputs.push(In::Custom(size, attrs));
        } else {
            let p = (pieces / n_in.max(1)).max(1);
            if prop == Prop::C11 || r.chance(1, 4) {
                attrs.push((T_EXT, i as u32));
            }
            let p = if r.chance(1, 3) { r.range(1, p.max(1)) } else { p };
            inputs.push(In::Text(gen_text(r, p, k.odd, k.alike), attrs));
        }
    }
    let measure = match r.below(if prop == Prop::C11 { 9 } else { 12 }) {
        0..=1 => Measure::Utf16,
        2 => Measure::Chars,
        3 => Measure::Const(*r.pick(&[0usize, 0, 1, 2, 3, 4, 255, 65_535, 1 << 32, (1 << 45) + 7])),
        4..=6 if prop == Prop::C11 => Measure::Vary(r.next()),
        4 => Measure::Vary(r.next()),
        7 => Measure::Reentrant,
        _ => Measure::Len,
    };
    let simple = inputs.len() == 1 && matches!(&inputs[0], In::Text(_, a) if a.is_empty()) && measure == Measure::Len;
    let via = if simple && r.chance(1, 2) { 2 } else { *r.pick(&[0u8, 0, 1, 3]) };
    Create { via, inputs, measure }
}

/// A line of very many (mostly custom, mostly unmarked) tokens; those around powers of two
/// and at both ends can be selected.
fn gen_long(r: &mut Rng, k: &Knobs, prop: Prop, windows: &mut Vec<Vec<u32>>) -> Create {
    let n = *r.pick(&[300usize, 700, 1_100, 4_200, 4_200, 10_100, 33_000, 65_540, 66_000, 131_080]);
    let n = if prop == Prop::C12 { n.min(700) } else { n };
    let mut cid = 0;
    let mut inputs = Vec::with_capacity(n);
    let mut addr = 0;
    const EDGES: [usize; 14] = [0, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 10_000, 32768, 65536, 131072, usize::MAX];
    windows.resize(EDGES.len(), vec![]);
    for i in 0..n {
        let near: Vec<usize> = (0..EDGES.len()).filter(|&k| i.abs_diff(EDGES[k].min(n)) <= 2).collect();
        let edge = !near.is_empty();
        if edge || r.chance(12, n as u64) {
            for w in near {
                windows[w].push(addr);
            }
            addr += 1;
            if r.chance(1, 6) {
                inputs.push(In::Text((*r.pick(&["a", "word", "7", ",", "é", "😀"])).into(), vec![]));
                continue;
            }
            let mut a = vec![(T_CID, cid)];
            cid += 1;
            if r.chance(1, 3) {
                a.push((*r.pick(&k.script_types), r.below(k.max_val) as u32));
            }
            inputs.push(In::Custom(r.below(4) as usize, a));
        } else {
            inputs.push(In::Custom(r.below(3) as usize, vec![]));
        }
    }
    windows.retain(|w| !w.is_empty());
    Create { via: 0, inputs, measure: Measure::Len }
}
/// lines too long for rendering (its cost grows with the square of the length)
pub fn no_display(c: &Create) -> bool {
    c.inputs.len() > 2000
}

const NAMES: &[&str] = &["Slack", "slack", "SLACK", "Algolia", "New", "York", "İstanbul", "STRASSE", "Straße", "日本語", "1", "$", "and", "i", "I", "a"];
pub const ARR: [[&str; 3]; 4] =
    [["Slack", "Algolia", "York"], ["and", "I", "Paris"], ["İstanbul", "é", "$"], ["Slack", "slack", "a"]];

pub fn gen_res(r: &mut Rng, prop: Prop) -> ResSpec {
    match r.below(if prop == Prop::C10 { 14 } else { 10 }) {
        0..=1 | 10..=13 => {
            let mode = if prop == Prop::C10 { *r.pick(&[0u8, 1, 1, 1, 2]) } else { r.below(3) as u8 };
            let mut table: Vec<(&'static str, Vec<u32>)> = Vec::new();
            if mode == 2 {
                let arr = &ARR[r.below(4) as usize];
                for k in arr {
                    table.push((k, vec![r.below(6) as u32]));
                }
            } else {
                let big = r.chance(1, 8);
                let alike = r.chance(1, 5);
                for _ in 0..(if big { r.range(20, 60) } else { r.range(1, 10) }) {
                    let k = if alike { *r.pick(LOOKALIKE[3]) } else if big { *r.pick(WORDS) } else { *r.pick(NAMES) };
                    if table.iter().all(|(x, _)| *x != k) {
                        let n = if r.chance(1, 20) { r.range(4, 20) } else { r.range(1, 3) };
                        table.push((k, (0..n).map(|_| r.below(9) as u32).collect()));
                    }
                }
            }
            ResSpec::Text { mode, ty: r.below(3) as usize, table }
        }
        2..=4 => {
            let preset = r.below(4) as u8;
            let all = [',', '.', '\'', ' ', '_'];
            let decimal = *r.pick(&['.', ',']);
            let delims = all.iter().copied().filter(|&c| c != decimal && r.chance(1, 2)).collect();
            ResSpec::Amount { preset, delims, decimal }
        }
        5..=6 => ResSpec::Kw(r.below(3) as u8),
        7 => ResSpec::Clause,
        8 => ResSpec::Pos,
        _ => {
            if r.chance(1, 2) {
                ResSpec::Sym
            } else {
                ResSpec::Money
            }
        }
    }
}
pub fn res_ty(s: &ResSpec) -> Ty {
    match s {
        ResSpec::Text { ty, .. } => *ty,
        ResSpec::Amount { .. } => T_AMOUNT,
        ResSpec::Kw(_) => T_KW,
        ResSpec::Clause => T_CLAUSE,
        ResSpec::Pos => T_POS,
        ResSpec::Sym => T_SYM,
        ResSpec::Money => T_MONEY,
    }
}

/// Contention: one or two resolvers everybody uses over and over, on many short lines
/// made of the few words that matter to them. Returns the resolvers, the words, and how
/// many of the resolvers are run once, in order, before the hot ones.
fn gen_hot(r: &mut Rng, prop: Prop) -> (Vec<ResSpec>, &'static [&'static str], usize) {
    const POS: &[&str] = &["run", "the", "open", "like", "it", "Paris", "flies", "zzyx"];
    const CL: &[&str] = &["if", "when", "then", "and", "it", "rains", ",", ".", "If", "run"];
    const NUM: &[&str] = &["1,000", "1.000", "12", "3.14", "7,5", "100", "x", "1'000.5", ","];
    const MON: &[&str] = &["$", "€", "5", "1,000", "3.5", "7,25", "x"];
    const NAM: &[&str] = &["Slack", "slack", "SLACK", "and", "I", "i", "York", "$", "1", "a"];
    let alike = r.chance(1, 3);
    let pick = |i: usize, v: &'static [&'static str]| if alike { LOOKALIKE[i] } else { v };
    match r.below(if prop == Prop::C10 { 7 } else { 6 }) {
        0 => (vec![ResSpec::Pos], pick(0, POS), 0),
        1 => (vec![ResSpec::Kw(r.below(3) as u8), ResSpec::Clause], pick(1, CL), 1),
        2 => (vec![ResSpec::Kw(r.below(3) as u8), ResSpec::Kw(0)], pick(1, CL), 0),
        3 => {
            let mut v = vec![ResSpec::Amount { preset: 1, delims: vec![], decimal: '.' }];
            if r.chance(2, 3) {
                v.push(ResSpec::Amount { preset: 2, delims: vec![], decimal: ',' });
            }
            if r.chance(1, 3) {
                v.push(ResSpec::Amount { preset: 0, delims: vec![','], decimal: '.' });
            }
            (v, pick(2, NUM), 0)
        }
        4 => (vec![ResSpec::Amount { preset: 1, delims: vec![], decimal: '.' }, ResSpec::Sym, ResSpec::Money], MON, 2),
        _ => {
            let n = r.range(1, 2);
            let mut v = Vec::new();
            while (v.len() as u64) < n {
                let s = gen_res(r, Prop::C10);
                if matches!(s, ResSpec::Text { .. }) {
                    v.push(s);
                }
            }
            (v, pick(3, NAM), 0)
        }
    }
}
fn gen_hot_line(r: &mut Rng, shared: &[ResSpec], vocab: &[&'static str], first: usize) -> LinePlan {
    let mut s = String::new();
    let mut w = *r.pick(vocab);
    for i in 0..r.range(1, 9) {
        if i > 0 {
            s.push(' ');
        }
        if !r.chance(1, 3) {
            w = *r.pick(vocab);
        }
        s.push_str(w);
    }
    let mut layers: Vec<Layer> = (0..first).map(Layer::Shipped).collect();
    for _ in 0..r.range(1, 4) {
        layers.push(Layer::Shipped(first + r.below((shared.len() - first) as u64) as usize));
    }
    LinePlan { create: Create { via: 2, inputs: vec![In::Text(s, vec![])], measure: Measure::Len }, layers }
}

fn gen_script(r: &mut Rng, k: &Knobs, pool: &[(u32, u32)], long: Option<usize>, windows: &[Vec<u32>]) -> Layer {
    let ty = if r.chance(1, 25) { *r.pick(&[T_TAG, T_CHAR]) } else { *r.pick(&k.script_types) };
    let n = if r.chance(1, 12) { r.range(k.assigns.1, k.assigns.1 * 5) } else { r.range(k.assigns.0, k.assigns.1) };
    if r.chance(1, 60) {
        // very many values at one range
        let (a, b) = *r.pick(pool);
        let n = r.range(60, 400);
        let assigns = (0..n).map(|_| (a, b, r.below(k.max_val) as u32)).collect();
        return Layer::Script { ty, assigns, flavor: r.below(4) as u8, reads: vec![], clone_sel: false };
    }
    if !windows.is_empty() && r.chance(2, 3) {
        // every range between tokens around two or three edges
        let mut t = windows[0].clone();
        for _ in 0..r.range(1, 2) {
            t.extend_from_slice(r.pick(windows));
        }
        t.sort_unstable();
        t.dedup();
        let mut assigns = vec![];
        for (i, a) in t.iter().enumerate() {
            for b in &t[i..] {
                assigns.push((*a, b - a, r.below(k.max_val) as u32));
            }
        }
        if r.chance(1, 2) {
            assigns.reverse();
        }
        return Layer::Script { ty, assigns, flavor: r.below(4) as u8, reads: vec![], clone_sel: false };
    }
    if r.chance(1, 50) || long.is_some() && r.chance(1, 3) {
        // very many ranges of one type
        let n = match long {
            None => r.range(100, 400),
            Some(0..=1500) => r.range(500, 1500),
            Some(x) => r.range(100, 1000).min(4_000_000 / x as u64),
        };
        let far = *r.pick(&[12u64, 90]);
        let assigns = (0..n).map(|_| (r.next() as u32, r.below(far) as u32, r.below(k.max_val) as u32)).collect();
        return Layer::Script { ty, assigns, flavor: r.below(4) as u8, reads: vec![], clone_sel: false };
    }
    let assigns = (0..n)
        .map(|_| {
            let (a, b) = if r.chance(2, 3) { *r.pick(pool) } else { (r.next() as u32, gen_len(r)) };
            (a, b, r.below(k.max_val) as u32)
        })
        .collect();
    let reads = if r.chance(1, 4) { vec![gen_m(r, &[ty, T_TAG, T_CHAR], 1, k.max_val)] } else { vec![] };
    Layer::Script { ty, assigns, flavor: r.below(4) as u8, reads, clone_sel: r.chance(1, 4) }
}
fn gen_len(r: &mut Rng) -> u32 {
    match r.below(8) {
        0..=2 => 0,
        3..=4 => 1,
        5 => r.range(2, 4) as u32,
        6 => r.range(1, 9) as u32,
        _ => r.range(0, 40) as u32,
    }
}

pub fn used_types(shared: &[ResSpec], layers: &[Layer], create: &Create) -> Vec<Ty> {
    let mut v = vec![T_TAG, T_CHAR];
    for i in &create.inputs {
        let a = match i {
            In::Text(_, a) => a,
            In::Custom(_, a) => a,
        };
        for (t, _) in a {
            v.push(*t);
        }
    }
    for l in layers {
        match l {
            Layer::Script { ty, .. } => {
                v.push(*ty);
                v.push(*ty)
            }
            Layer::Nav { .. } => v.push(T_MARK),
            Layer::Shipped(i) => v.push(res_ty(&shared[*i])),
            Layer::Misuse(..) => {}
        }
    }
    v
}

fn gen_read(r: &mut Rng, types: &[Ty], k: &Knobs, prop: Prop) -> Read {
    let disp = match prop {
        Prop::C09 => 8,
        _ => 3,
    };
    match r.below(12) {
        x if x < disp => {
            let n = r.range(0, 4);
            let mut ts: Vec<Ty> = Vec::new();
            for _ in 0..n {
                ts.push(*r.pick(types));
            }
            let sink = if prop == Prop::C09 || (prop == Prop::C07 && r.chance(1, 2)) {
                match r.below(12) {
                    8..=10 => Sink::FmtOnce(r.next()),
                    11 => Sink::IoOnce(r.next(), r.next()),
                    0 => Sink::Text,
                    1..=2 => Sink::FmtErrAt(r.next()),
                    3..=4 => Sink::FmtErrCall(r.next()),
                    5 => Sink::IoShort(r.next()),
                    6 => Sink::IoErrAt(r.next(), r.next()),
                    _ => Sink::IoZeroAt(r.next(), r.next()),
                }
            } else {
                Sink::Text
            };
            Read::Display { types: ts, via: r.below(4) as u8, sink }
        }
        x if x < disp + 1 => Read::Tokens,
        x if x < disp + 4 => Read::Query(types.to_vec()),
        _ => Read::Find(gen_m(r, types, k.depth, k.max_val)),
    }
}

fn knobs(prop: Prop, r: &mut Rng, tier_big: bool) -> Knobs {
    let size = r.below(20);
    let pieces = match size {
        0..=9 => (1, 10),
        10..=16 => (4, 25),
        17..=18 => (20, 60),
        _ => {
            if tier_big || r.chance(1, 4) {
                (150, 400)
            } else {
                (40, 120)
            }
        }
    };
    let mut script_types = vec![0, 1, 2, 3, T_U64, T_STR, T_ZST, T_BIG, T_TWIN, T_ODD];
    // swarm: a random subset of attribute types per run
    let keep = r.range(1, script_types.len() as u64);
    while (script_types.len() as u64) > keep {
        let i = r.below(script_types.len() as u64) as usize;
        script_types.remove(i);
    }
    let mut k = Knobs {
        tasks: (1, 3),
        lines: (1, 3),
        layers: (1, 6),
        reads: (1, 5),
        pieces,
        fault_pct: 0,
        shipped_pct: 30,
        nav_pct: 10,
        script_types,
        publish_pct: 30,
        preempt_pct: 60,
        max_val: *r.pick(&[2, 4, 4, 8, 1000]),
        assigns: (0, 8),
        odd: true,
        alike: if r.chance(1, 8) { Some(r.below(4) as usize) } else { None },
        depth: 3,
    };
    if pieces.1 > 120 {
        k.lines = (1, 1);
        k.reads = (1, 2);
        k.layers = (1, 3);
    }
    match prop {
        Prop::C01 => {
            k.fault_pct = if r.chance(1, 2) { 15 } else { 0 };
            k.layers = if r.chance(1, 8) { (10, 40) } else { (1, 9) };
            k.reads = (0, 3);
            k.publish_pct = 15;
        }
        Prop::C02 => {
            k.fault_pct = if r.chance(1, 4) { 10 } else { 0 };
            k.reads = (2, 8);
            k.nav_pct = 25;
        }
        Prop::C03 => {
            k.fault_pct = if r.chance(1, 4) { 10 } else { 0 };
            k.nav_pct = 60;
            k.shipped_pct = 15;
            k.reads = (0, 1);
        }
        Prop::C04 => {
            k.fault_pct = if r.chance(1, 3) { 15 } else { 0 };
            k.reads = (0, 1);
            k.publish_pct = 0;
        }
        Prop::C05 => {
            k.tasks = (2, 5);
            k.lines = (2, 5);
            k.publish_pct = 60;
            k.preempt_pct = 97;
            k.shipped_pct = 45;
        }
        Prop::C06 => {
            k.tasks = (1, 4);
            k.lines = (2, 6);
            k.layers = (1, 6);
            k.reads = (1, 2);
            k.shipped_pct = 90;
            k.nav_pct = 0;
            k.publish_pct = 10;
            k.fault_pct = if r.chance(1, 2) { 25 } else { 0 };
        }
        Prop::C07 => {
            k.tasks = (1, 4);
            k.lines = (2, 4);
            k.fault_pct = 35;
            k.shipped_pct = 40;
        }
        Prop::C08 => {
            k.fault_pct = if r.chance(2, 3) { 35 } else { 0 };
            k.shipped_pct = 25;
        }
        Prop::C09 => {
            k.reads = (3, 9);
            k.layers = (0, 4);
        }
        Prop::C10 => {
            k.tasks = (1, 3);
            k.lines = (1, 4);
            k.preempt_pct = 20;
            k.shipped_pct = 60;
        }
        Prop::C11 => {
            k.fault_pct = if r.chance(1, 2) { 30 } else { 0 };
            k.layers = (0, 1);
            k.lines = (1, 4);
            k.reads = (0, 2);
        }
        Prop::C12 => {
            k.layers = (2, 7);
            k.reads = (0, 2);
        }
    }
    if matches!(prop, Prop::C02 | Prop::C03) && r.chance(1, 4) {
        // dense: few tokens, few types, few values and many ranges, so that composite
        // matchers have several candidates in both directions
        k.pieces = (2, 6);
        k.script_types.truncate(2);
        k.max_val = 2;
        k.depth = 2;
        k.layers = (1, 4);
        k.assigns = (4, 16);
        k.shipped_pct = 10;
    }
    k
}

pub fn generate(prop: Prop, seed: u64, big: bool) -> Plan {
    let mut r = Rng::new(seed, 0xA11CE);
    let hot = match prop {
        Prop::C05 | Prop::C06 => r.chance(2, 5),
        Prop::C07 | Prop::C10 => r.chance(1, 4),
        _ => false,
    };
    let mut k = knobs(prop, &mut r, big);
    if hot {
        k.tasks = (if r.chance(1, 6) { 1 } else { 2 }, 5);
        k.lines = (3, 9);
        k.reads = (0, 1);
        k.preempt_pct = 100;
        k.publish_pct = 5;
    }
    // callers that wait for lines nobody has looked at yet, and then all look
    let gather = prop == Prop::C05 && !hot && r.chance(1, 4);
    if gather {
        k.tasks = (2, 5);
        k.lines = (2, 5);
        k.layers = (0, 3);
        k.reads = (0, 0);
        k.publish_pct = 100;
        k.preempt_pct = 100;
    }
    let n_tasks = (r.range(k.tasks.0, k.tasks.1) as usize).min(MAXT);
    let n_lines = r.range(k.lines.0, k.lines.1) as usize;
    let n_shared = r.range(1, 6) as usize;
    let mut shared: Vec<ResSpec> = (0..n_shared).map(|_| gen_res(&mut r, prop)).collect();

    let mut lines = Vec::new();
    let mut twins = Vec::new();
    if hot {
        let (res, vocab, first) = gen_hot(&mut r, prop);
        shared = res;
        for _ in 0..n_lines {
            lines.push(gen_hot_line(&mut r, &shared, vocab, first));
        }
    }
    let long = matches!(prop, Prop::C01 | Prop::C02 | Prop::C03 | Prop::C11 | Prop::C12) && r.chance(1, if matches!(prop, Prop::C01 | Prop::C02) { 220 } else if prop == Prop::C03 { 160 } else { 400 });
    let hot_or_long = hot || long;
    let n_lines = if long { 1 } else { n_lines };
    if long {
        k.depth = 1;
        k.reads = (1, 3);
    }
    for _ in 0..(if hot { 0 } else { n_lines }) {
        let mut windows = vec![];
        let create = if long { gen_long(&mut r, &k, prop, &mut windows) } else { gen_create(&mut r, &k, prop) };
        let pool: Vec<(u32, u32)> = (0..6).map(|_| (r.next() as u32, gen_len(&mut r))).collect();
        let n_layers = r.range(k.layers.0, k.layers.1);
        let mut layers: Vec<Layer> = Vec::new();
        if long && prop != Prop::C11 {
            // something rare, far along the line, and steps that have to get there
            let ty = *r.pick(&[0, 1, 2, 3, T_U64, T_STR, T_BIG]);
            let last = r.chance(1, 2);
            let assigns = (0..r.range(1, 3))
                .map(|_| (if last { r.range(40, 70) as u32 } else { r.next() as u32 }, gen_len(&mut r), r.below(k.max_val) as u32))
                .collect();
            layers.push(Layer::Script { ty, assigns, flavor: 0, reads: vec![], clone_sel: false });
            let steps = (0..r.range(3, 8))
                .map(|i| NavStep {
                    op: r.below(16) as u8,
                    m: match r.below(4) {
                        0..=1 => M::Attr(ty),
                        2 => M::Or2(Box::new(M::Attr(ty)), Box::new(M::Eq(T_CHAR, 4))),
                        _ => gen_m(&mut r, &[ty, T_TAG, T_CID], 1, k.max_val),
                    },
                    pick: if i < 3 { 0 } else { r.next() as u32 },
                    other: r.next() as u32,
                })
                .collect();
            layers.push(Layer::Nav { steps });
        }
        for _ in 0..n_layers {
            if (prop == Prop::C12 && r.chance(2, 5)) || (prop == Prop::C08 && r.chance(1, 9)) {
                let kind = *r.pick(&[Misuse::KeepSelection, Misuse::KeepSelection, Misuse::CrossLine, Misuse::ForeignRange]);
                layers.push(Layer::Misuse(kind, gen_m(&mut r, &[T_TAG, T_CHAR, k.script_types[0]], 2, k.max_val)));
                continue;
            }
            let x = r.below(100);
            if x < k.shipped_pct {
                layers.push(Layer::Shipped(r.below(n_shared as u64) as usize));
            } else if x < k.shipped_pct + k.nav_pct && prop != Prop::C04 {
                let types = used_types(&shared, &layers, &create);
                let n = if prop == Prop::C03 { r.range(2, 10) } else { r.range(1, 6) };
                let steps = (0..n)
                    .map(|i| NavStep {
                        op: if i < 2 && r.chance(1, 2) {
                            15
                        } else if prop == Prop::C02 && r.chance(1, 2) {
                            *r.pick(&[2, 7, 8])
                        } else {
                            r.below(16) as u8
                        },
                        m: gen_m(&mut r, &types, k.depth.min(2), k.max_val),
                        pick: r.next() as u32,
                        other: r.next() as u32,
                    })
                    .collect();
                layers.push(Layer::Nav { steps });
            } else {
                layers.push(gen_script(&mut r, &k, &pool, long.then_some(create.inputs.len()), &windows));
            }
        }
        lines.push(LinePlan { create, layers });
    }
    if prop == Prop::C04 {
        // every line gets twins: the same layers in other admissible orders
        let mut all = Vec::new();
        for lp in lines.drain(..) {
            let mut base = lp.clone();
            // independent layers only: no attribute type that another layer reads
            base.layers.retain(|l| !matches!(l, Layer::Script { ty, .. } if *ty == T_TAG || *ty == T_CHAR));
            // one layer per attribute type written, in the canonical order
            let mut seen = vec![false; N_TY];
            base.layers.retain(|l| {
                let t = layer_ty(&shared, l);
                !std::mem::replace(&mut seen[t], true)
            });
            if shared.len() < 12 && r.chance(3, 4) {
                for s in [
                    ResSpec::Kw(0),
                    ResSpec::Clause,
                    ResSpec::Pos,
                    ResSpec::Sym,
                    ResSpec::Amount { preset: 1, delims: vec![], decimal: '.' },
                    ResSpec::Money,
                ] {
                    let t = res_ty(&s);
                    if !seen[t] && r.chance(2, 3) {
                        seen[t] = true;
                        shared.push(s);
                        base.layers.push(Layer::Shipped(shared.len() - 1));
                    }
                }
            }
            let a = all.len();
            all.push(LinePlan { create: base.create.clone(), layers: topo(&mut r, &shared, &base.layers) });
            for _ in 0..r.range(1, 2) {
                all.push(LinePlan { create: base.create.clone(), layers: topo(&mut r, &shared, &base.layers) });
                twins.push((a, all.len() - 1));
            }
        }
        lines = all;
    }

    // --- the global order of operations (a legal linear extension by construction)
    struct St {
        owner: usize,
        created: bool,
        next_layer: usize,
        reads: u64,
        published: bool,
        will_publish: bool,
        shared_reads: u64,
        dropped: bool,
    }
    let mut st: Vec<St> = lines
        .iter()
        .map(|_| St {
            owner: r.below(n_tasks as u64) as usize,
            created: false,
            next_layer: 0,
            reads: r.range(k.reads.0, k.reads.1),
            published: false,
            will_publish: r.below(100) < k.publish_pct,
            shared_reads: if gather { r.range(n_tasks as u64, 2 * n_tasks as u64 + 2) } else { r.range(1, 6) },
            dropped: false,
        })
        .collect();
    let mut ops: Vec<Op> = Vec::new();
    let faults_on = k.fault_pct > 0;
    let mut guard = 0;
    while st.iter().any(|s| !s.dropped) && guard < 5000 {
        guard += 1;
        let li = r.below(lines.len() as u64) as usize;
        if st[li].dropped {
            continue;
        }
        if r.chance(1, 5) {
            st[li].owner = r.below(n_tasks as u64) as usize; // hand the line to another caller
        }
        let types = used_types(&shared, &lines[li].layers[..st[li].next_layer], &lines[li].create);
        let s = &mut st[li];
        let (kind, task) = if !s.created {
            s.created = true;
            (OpK::Create, s.owner)
        } else if prop == Prop::C08 && !s.published && r.chance(1, 14) {
            // dropped in the middle of its history
            s.dropped = true;
            (OpK::Drop, s.owner)
        } else if s.next_layer < lines[li].layers.len() && r.chance(2, 3) {
            s.next_layer += 1;
            (OpK::Layer(s.next_layer - 1), s.owner)
        } else if s.reads > 0 && !s.published {
            s.reads -= 1;
            (OpK::Read(gen_read(&mut r, &types, &k, prop)), s.owner)
        } else if s.next_layer < lines[li].layers.len() {
            s.next_layer += 1;
            (OpK::Layer(s.next_layer - 1), s.owner)
        } else if s.will_publish && !s.published {
            s.published = true;
            (OpK::Publish, s.owner)
        } else if s.published && s.shared_reads > 0 {
            s.shared_reads -= 1;
            (OpK::SharedRead(gen_read(&mut r, &types, &k, prop)), r.below(n_tasks as u64) as usize)
        } else {
            s.dropped = true;
            (OpK::Drop, s.owner)
        };
        let can_fail = !matches!(kind, OpK::Publish | OpK::Drop)
            && !matches!(&kind, OpK::Layer(i) if matches!(lines[li].layers[*i], Layer::Misuse(..)));
        let fault = if faults_on && can_fail && r.below(100) < k.fault_pct {
            Some((if r.chance(1, 2) { FaultKind::Callback } else { FaultKind::Alloc }, r.next()))
        } else {
            None
        };
        ops.push(Op { id: ops.len() as u32, task, line: li, kind, fault });
    }

    let preempt = r.below(100) < k.preempt_pct && n_tasks > 1;
    let mut sched = SchedCfg { seed: r.next(), ..Default::default() };
    if preempt {
        let m = *r.pick(if gather { &[15u32, 40, 40, 100, 300, 300, 2000] } else { &[0u32, 40, 300, 300, 2000, 2000, 12000] });
        sched.mean_bb = m;
        if r.chance(1, 2) {
            sched.heavy = r.range(6, 15) as u32;
        }
        if r.chance(1, 3) {
            sched.p_rare = *r.pick(&[8u32, 40, 128]);
        }
        sched.p_cb = *r.pick(&[0u32, 2, 8, 40]);
        sched.p_op = *r.pick(&[16u32, 64, 160]);
        if m == 0 && sched.p_cb == 0 {
            sched.p_cb = 40;
        }
    } else {
        sched.p_op = 64;
    }
    let reenter = r.chance(1, 4);
    let env = (r.next(), r.next() >> 3, *r.pick(&[1u64, 1000, 3_600_000_000_000]), r.below(28) as u32);
    let repeat_fail = *r.pick(&[1u32, 1, 1, 1, 2, 3, 7, 18]);
    let warm = if prop.differential() && prop != Prop::C09 && !hot_or_long && r.chance(1, 60) {
        let n = match r.below(12) {
            0 => 66_000,
            1..=3 => 5_000,
            4..=7 => 1_100,
            _ => 300,
        };
        (n, r.below(1 + shared.len() as u64) as usize)
    } else {
        (0, 0)
    };
    let observe = r.next() as u32;
    Plan { prop, seed, n_tasks, lines, ops, shared, sched, reenter, env, twins, observe, repeat_fail, warm }
}

pub fn layer_ty(shared: &[ResSpec], l: &Layer) -> Ty {
    match l {
        Layer::Script { ty, .. } => *ty,
        Layer::Nav { .. } => T_MARK,
        Layer::Shipped(i) => res_ty(&shared[*i]),
        Layer::Misuse(..) => T_MARK,
    }
}
/// attribute types a layer reads (other than those every line starts with)
fn layer_reads(shared: &[ResSpec], l: &Layer) -> Vec<Ty> {
    match l {
        Layer::Shipped(i) => match &shared[*i] {
            ResSpec::Clause => vec![T_KW],
            ResSpec::Money => vec![T_SYM, T_AMOUNT],
            _ => vec![],
        },
        _ => vec![],
    }
}
/// A random order of `layers` in which every layer still comes after (before) the
/// layers whose output it reads exactly when it did in the given order.
fn topo(r: &mut Rng, shared: &[ResSpec], layers: &[Layer]) -> Vec<Layer> {
    let n = layers.len();
    let dep = |i: usize, j: usize| {
        // j must stay after i
        i < j
            && (layer_reads(shared, &layers[j]).contains(&layer_ty(shared, &layers[i]))
                || layer_reads(shared, &layers[i]).contains(&layer_ty(shared, &layers[j])))
    };
    let mut used = vec![false; n];
    let mut out = Vec::new();
    while out.len() < n {
        let ready: Vec<usize> =
            (0..n).filter(|&j| !used[j] && (0..n).all(|i| used[i] || i == j || !dep(i, j))).collect();
        let j = *r.pick(&ready);
        used[j] = true;
        out.push(layers[j].clone());
    }
    out
}
