//! Attribute values the simulated callers hand to the library, with a ledger that
//! knows which of them are alive.
use layered_amount::Amount;
use layered_clauses::{Clause, ClauseKeyword};
use layered_nlp::TextTag;
use layered_part_of_speech::Tag;
use simrt::{callback, mix, quiet};
use std::fmt::{self, Debug};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU8, Ordering::Relaxed};

pub const LEDGER: usize = 1 << 23;
static STATE: [AtomicU8; LEDGER] = [const { AtomicU8::new(0) }; LEDGER];
static NEXT: AtomicU32 = AtomicU32::new(0);
static LIVE: AtomicU32 = AtomicU32::new(0);
static BAD: AtomicU32 = AtomicU32::new(0);
pub static REENTER: AtomicBool = AtomicBool::new(false);
pub static REENTER_BAD: AtomicU32 = AtomicU32::new(0);
pub static REENTERED: AtomicU32 = AtomicU32::new(0);

pub fn ledger_reset() {
    let n = NEXT.swap(0, Relaxed).min(LEDGER as u32);
    for s in STATE.iter().take(n as usize) {
        s.store(0, Relaxed);
    }
    LIVE.store(0, Relaxed);
    BAD.store(0, Relaxed);
    REENTER_BAD.store(0, Relaxed);
    twin::MADE.store(0, Relaxed);
    twin::GONE.store(0, Relaxed);
}
pub fn ledger_live() -> u32 {
    LIVE.load(Relaxed)
}
/// values dropped twice, dropped without having existed, or read after being dropped
pub fn ledger_bad() -> u32 {
    BAD.load(Relaxed)
}
pub fn ledger_made() -> u32 {
    NEXT.load(Relaxed)
}
fn ledger_new() -> u32 {
    let id = NEXT.fetch_add(1, Relaxed);
    assert!((id as usize) < LEDGER, "ledger full");
    STATE[id as usize].store(1, Relaxed);
    LIVE.fetch_add(1, Relaxed);
    id
}
fn ledger_drop(id: u32) {
    if (id as usize) >= LEDGER || STATE[id as usize].swap(2, Relaxed) != 1 {
        BAD.fetch_add(1, Relaxed);
    } else {
        LIVE.fetch_sub(1, Relaxed);
    }
}
fn ledger_check(id: u32) {
    if (id as usize) >= LEDGER || STATE[id as usize].load(Relaxed) != 1 {
        BAD.fetch_add(1, Relaxed);
    }
}

/// A tracked attribute type; `K` tells attribute types apart.
pub struct V<const K: usize> {
    id: u32,
    canary: u32,
    v: u32,
}
const CANARY: u32 = 0xC0FF_EE11;
impl<const K: usize> V<K> {
    pub fn new(v: u32) -> Self {
        V { id: ledger_new(), canary: CANARY, v }
    }
    fn ok(&self) {
        if self.canary != CANARY {
            BAD.fetch_add(1, Relaxed);
        }
        ledger_check(self.id);
    }
}
impl<const K: usize> Drop for V<K> {
    fn drop(&mut self) {
        if K == 3 {
            // (a destructor must not panic)
            simrt::undisturbed(reenter);
        }
        quiet(|| {
            if self.canary != CANARY {
                BAD.fetch_add(1, Relaxed);
            }
            ledger_drop(self.id);
        });
    }
}
impl<const K: usize> Clone for V<K> {
    fn clone(&self) -> Self {
        callback("clone");
        self.ok();
        if K == 1 {
            reenter();
        }
        V::new(self.v)
    }
}
impl<const K: usize> PartialEq for V<K> {
    fn eq(&self, o: &Self) -> bool {
        callback("eq");
        self.ok();
        o.ok();
        if K == 3 {
            reenter();
        }
        self.v == o.v
    }
}
impl<const K: usize> Debug for V<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        callback("debug");
        self.ok();
        if K == 3 {
            reenter();
        }
        write!(f, "V{}({})", K, self.v)
    }
}

/// A callback that uses the library while the library is calling it.
pub fn reenter() {
    if !REENTER.load(Relaxed) || !simrt::in_lib_now() || std::thread::panicking() || !simrt::may_reenter() {
        return;
    }
    REENTERED.fetch_add(1, Relaxed);
    let line = layered_nlp::create_line_from_string("if 7,5").run(
        &layered_clauses::ClauseKeywordResolver::new(&["if"], &["and"], &["then"]),
    );
    let n = line.ll_tokens().len();
    let k = line.query::<ClauseKeyword>();
    let good = n == 5 && k.len() == 1 && k[0].0 == (0, 0) && k[0].1 == "if";
    // the same kinds of calls the library may be in the middle of
    use layered_nlp::x;
    let a = line.find(&x::attr_eq(&TextTag::NATN)).iter().map(|f| f.range()).collect::<Vec<_>>();
    let b = line.find(&x::token_has_any(&[',', ' '])).iter().map(|f| *f.attr()).collect::<String>();
    let c = line.find(&x::seq((x::attr::<TextTag>(), x::any_of((x::attr_eq(&','), x::whitespace()))))).len();
    let d = line.find(&x::all((x::token_text(), x::attr_eq(&'7')))).iter().map(|f| f.attr().0).collect::<String>();
    let e = layered_nlp::LLLineDisplay::new(&line).with::<ClauseKeyword>().to_string();
    let good = good
        && a == [(3, 4), (5, 6)]
        && b == " ,"
        && c == 2
        && d == "7"
        && e == "if     7  ,  5\n╰╯ConditionStart";
    // every kind of resolver
    let t = layered_nlp::TextMatchAssignResolver::new_case_insensitive_str_arr([("IF", Zst)]);
    let u = layered_nlp::TextMatchAssignResolver::new([("if".to_string(), vec![V::<7>::new(1), V::new(2)])].into_iter().collect());
    let line = line
        .run(&layered_amount::AmountResolver::english())
        .run(&layered_clauses::ClauseResolver::default())
        .run(&layered_part_of_speech::POSTagResolver::default())
        .run(&t)
        .run(&u);
    let good = good
        && line.query::<V<7>>().iter().map(|q| (q.0, q.2.len())).collect::<Vec<_>>() == [((0, 0), 2)]
        && line.query::<Amount>().iter().map(|q| q.0).collect::<Vec<_>>() == [(2, 4)]
        && line.query::<Clause>().len() == 2
        && line.query::<Zst>().iter().map(|q| q.0).collect::<Vec<_>>() == [(0, 0)]
        && line.query::<Tag>().iter().map(|q| q.0).collect::<Vec<_>>() == [(0, 0)];
    if !good {
        REENTER_BAD.fetch_add(1, Relaxed);
    }
}

/// An attribute type without any content.
#[derive(Debug, Clone, PartialEq)]
pub struct Zst;

/// A large, over-aligned, tracked attribute type whose rendering takes two lines.
#[repr(align(64))]
#[derive(Clone, PartialEq)]
pub struct Big {
    inner: V<8>,
    pad: [u64; 40],
}
impl Big {
    fn ok(&self) {
        if (self as *const Self as usize) % 64 != 0 || self.pad.iter().any(|p| *p != self.inner.v as u64) {
            BAD.fetch_add(1, Relaxed);
        }
        self.inner.ok();
    }
}
impl Debug for Big {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        callback("debug");
        self.ok();
        if f.alternate() || f.width().is_some() || f.precision().is_some() {
            return f.write_str("formatted otherwise");
        }
        write!(f, "Big\n日({})", self.inner.v)
    }
}
/// Another type of the same name as [Zst], also without content, and tracked.
pub mod twin {
    use super::*;
    pub static MADE: AtomicU32 = AtomicU32::new(0);
    pub static GONE: AtomicU32 = AtomicU32::new(0);
    #[derive(Debug)]
    pub struct Zst(());
    impl Zst {
        pub fn new() -> Self {
            MADE.fetch_add(1, Relaxed);
            LIVE.fetch_add(1, Relaxed);
            Zst(())
        }
    }
    impl Clone for Zst {
        fn clone(&self) -> Self {
            callback("clone");
            Zst::new()
        }
    }
    impl PartialEq for Zst {
        fn eq(&self, _: &Self) -> bool {
            callback("eq");
            true
        }
    }
    impl Drop for Zst {
        fn drop(&mut self) {
            if GONE.fetch_add(1, Relaxed) >= MADE.load(Relaxed) {
                BAD.fetch_add(1, Relaxed);
            } else {
                LIVE.fetch_sub(1, Relaxed);
            }
        }
    }
}
/// A type with a value that does not equal itself.
#[derive(Debug, Clone, PartialEq)]
pub struct Odd(f64);

#[derive(Debug, Clone, PartialEq)]
pub enum Sym {
    Usd,
    Eur,
}
#[derive(Debug, Clone)]
pub struct Money(pub Sym, pub Amount);

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h, b as u64))
}

/// What the simulator knows about an attribute type.
pub trait AttrVal: 'static + Debug + Send + Sync {
    fn code(&self) -> u64;
    fn dbg(&self) -> String {
        quiet(|| format!("{:?}", self))
    }
}
/// ... and about one it can produce and compare itself.
pub trait MakeVal: AttrVal + PartialEq {
    fn make(v: u32) -> Self;
    /// code()/dbg() of make(v), computed without the library
    fn expect(v: u32) -> (u64, String);
}

impl<const K: usize> AttrVal for V<K> {
    fn code(&self) -> u64 {
        self.ok();
        self.v as u64
    }
}
impl<const K: usize> MakeVal for V<K> {
    fn make(v: u32) -> Self {
        V::new(v)
    }
    fn expect(v: u32) -> (u64, String) {
        (v as u64, format!("V{}({})", K, v))
    }
}
impl AttrVal for u64 {
    fn code(&self) -> u64 {
        *self
    }
}
impl MakeVal for u64 {
    fn make(v: u32) -> Self {
        v as u64 * 1_000_003
    }
    fn expect(v: u32) -> (u64, String) {
        (v as u64 * 1_000_003, format!("{}", v as u64 * 1_000_003))
    }
}
impl AttrVal for String {
    fn code(&self) -> u64 {
        hash_str(self)
    }
}
impl MakeVal for String {
    fn make(v: u32) -> Self {
        format!("s{}", v)
    }
    fn expect(v: u32) -> (u64, String) {
        (hash_str(&format!("s{}", v)), format!("\"s{}\"", v))
    }
}
impl AttrVal for Zst {
    fn code(&self) -> u64 {
        77
    }
}
impl MakeVal for Zst {
    fn make(_: u32) -> Self {
        Zst
    }
    fn expect(_: u32) -> (u64, String) {
        (77, "Zst".into())
    }
}
impl AttrVal for Big {
    fn code(&self) -> u64 {
        self.ok();
        self.inner.v as u64
    }
}
impl MakeVal for Big {
    fn make(v: u32) -> Self {
        Big { inner: V::new(v), pad: [v as u64; 40] }
    }
    fn expect(v: u32) -> (u64, String) {
        (v as u64, format!("Big\n日({})", v))
    }
}
impl AttrVal for twin::Zst {
    fn code(&self) -> u64 {
        78
    }
}
impl MakeVal for twin::Zst {
    fn make(_: u32) -> Self {
        twin::Zst::new()
    }
    fn expect(_: u32) -> (u64, String) {
        (78, "Zst(())".into())
    }
}
const NAN: u64 = 0x7ff8_0000_0000_0000;
impl AttrVal for Odd {
    fn code(&self) -> u64 {
        self.0.to_bits()
    }
}
impl MakeVal for Odd {
    fn make(v: u32) -> Self {
        Odd(if v % 3 == 0 { f64::from_bits(NAN) } else { (v % 3) as f64 })
    }
    fn expect(v: u32) -> (u64, String) {
        let o = Self::make(v);
        (o.0.to_bits(), format!("{o:?}"))
    }
}
/// Whether values with these codes are equal for `==`.
pub fn same(ty: Ty, a: u64, b: u64) -> bool {
    a == b && !(ty == T_ODD && a == NAN)
}
pub const TAGS: [TextTag; 5] = [TextTag::NATN, TextTag::PUNC, TextTag::SYMB, TextTag::SPACE, TextTag::WORD];
pub fn tag_code(t: &TextTag) -> u64 {
    match t {
        TextTag::NATN => 0,
        TextTag::PUNC => 1,
        TextTag::SYMB => 2,
        TextTag::SPACE => 3,
        TextTag::WORD => 4,
    }
}
pub const TAG_NAMES: [&str; 5] = ["NATN", "PUNC", "SYMB", "SPACE", "WORD"];
impl AttrVal for TextTag {
    fn code(&self) -> u64 {
        tag_code(self)
    }
}
impl MakeVal for TextTag {
    fn make(v: u32) -> Self {
        TAGS[v as usize % 5].clone()
    }
    fn expect(v: u32) -> (u64, String) {
        ((v % 5) as u64, TAG_NAMES[v as usize % 5].into())
    }
}
pub const CHARS: [char; 12] = ['.', ',', '$', '€', 'a', '1', ' ', '\'', '😀', 'é', '!', '_'];
impl AttrVal for char {
    fn code(&self) -> u64 {
        *self as u64
    }
}
impl MakeVal for char {
    fn make(v: u32) -> Self {
        CHARS[v as usize % 12]
    }
    fn expect(v: u32) -> (u64, String) {
        let c = CHARS[v as usize % 12];
        (c as u64, format!("{:?}", c))
    }
}
impl AttrVal for Amount {
    fn code(&self) -> u64 {
        hash_str(&quiet(|| format!("{:?}", self)))
    }
}
impl AttrVal for Clause {
    fn code(&self) -> u64 {
        self.clone() as u64
    }
}
impl AttrVal for ClauseKeyword {
    fn code(&self) -> u64 {
        self.clone() as u64
    }
}
impl AttrVal for Tag {
    fn code(&self) -> u64 {
        hash_str(&quiet(|| format!("{:?}", self)))
    }
}
impl AttrVal for Sym {
    fn code(&self) -> u64 {
        self.clone() as u64
    }
}
impl AttrVal for Money {
    fn code(&self) -> u64 {
        hash_str(&quiet(|| format!("{:?}", self)))
    }
}

pub type Ty = usize;
/// V<0>..V<3> are general; V<4> marks selections a navigation visited; V<5> marks
/// custom input tokens; V<6> marks input-token extents.
pub const T_MARK: Ty = 4;
pub const T_CID: Ty = 5;
pub const T_EXT: Ty = 6;
pub const T_U64: Ty = 7;
pub const T_STR: Ty = 8;
pub const T_ZST: Ty = 9;
pub const T_TAG: Ty = 10;
pub const T_CHAR: Ty = 11;
pub const T_AMOUNT: Ty = 12;
pub const T_KW: Ty = 13;
pub const T_CLAUSE: Ty = 14;
pub const T_POS: Ty = 15;
pub const T_SYM: Ty = 16;
pub const T_MONEY: Ty = 17;
pub const T_BIG: Ty = 18;
pub const T_TWIN: Ty = 19;
pub const T_ODD: Ty = 20;
pub const N_TY: Ty = 21;
pub const TY_NAMES: [&str; N_TY] = [
    "V0", "V1", "V2", "V3", "Mark", "Cid", "Ext", "u64", "String", "Zst", "TextTag", "char", "Amount",
    "ClauseKeyword", "Clause", "PosTag", "Sym", "Money", "Big", "twin::Zst", "Odd",
];
pub fn is_tracked(t: Ty) -> bool {
    t <= T_EXT || t == T_BIG || t == T_TWIN
}

#[macro_export]
macro_rules! with_make {
    ($ty:expr, $T:ident => $e:expr) => {{
        use $crate::vals::*;
        match $ty {
            0 => { type $T = V<0>; $e }
            1 => { type $T = V<1>; $e }
            2 => { type $T = V<2>; $e }
            3 => { type $T = V<3>; $e }
            4 => { type $T = V<4>; $e }
            5 => { type $T = V<5>; $e }
            6 => { type $T = V<6>; $e }
            7 => { type $T = u64; $e }
            8 => { type $T = String; $e }
            9 => { type $T = Zst; $e }
            10 => { type $T = layered_nlp::TextTag; $e }
            11 => { type $T = char; $e }
            18 => { type $T = Big; $e }
            19 => { type $T = twin::Zst; $e }
            20 => { type $T = Odd; $e }
            _ => unreachable!("not a makeable type"),
        }
    }};
}
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {{
        use $crate::vals::*;
        match $ty {
            0 => { type $T = V<0>; $e }
            1 => { type $T = V<1>; $e }
            2 => { type $T = V<2>; $e }
            3 => { type $T = V<3>; $e }
            4 => { type $T = V<4>; $e }
            5 => { type $T = V<5>; $e }
            6 => { type $T = V<6>; $e }
            7 => { type $T = u64; $e }
            8 => { type $T = String; $e }
            9 => { type $T = Zst; $e }
            10 => { type $T = layered_nlp::TextTag; $e }
            11 => { type $T = char; $e }
            12 => { type $T = layered_amount::Amount; $e }
            13 => { type $T = layered_clauses::ClauseKeyword; $e }
            14 => { type $T = layered_clauses::Clause; $e }
            15 => { type $T = layered_part_of_speech::Tag; $e }
            16 => { type $T = Sym; $e }
            17 => { type $T = Money; $e }
            18 => { type $T = Big; $e }
            19 => { type $T = twin::Zst; $e }
            20 => { type $T = Odd; $e }
            _ => unreachable!("not a type"),
        }
    }};
}

pub fn expect_val(ty: Ty, v: u32) -> (u64, String) {
    with_make!(ty, T => <T as MakeVal>::expect(v))
}
