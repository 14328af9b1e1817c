//! Executes a plan against the real code: the simulated callers, the resolvers,
//! matchers, sinks and measuring callbacks they bring along, and the observations.
use crate::model::*;
use crate::plan::*;
use crate::vals::*;
use crate::{with_make, with_ty};
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{ClauseKeywordResolver, ClauseResolver};
use layered_nlp::x::{self, XDirection, XMatch};
use layered_nlp::{
    create_line_from_input_tokens, create_line_from_string, debug_line, AnyAttribute, FinishWith, InputToken,
    LLCursorAssignment, LLLine, LLLineDisplay, LLSelection, LToken, Resolver, TextMatchAssignResolver, TextTag,
};
use layered_part_of_speech::POSTagResolver;
use simrt::{callback, in_lib, mix, quiet, Arm, OpCount, Rng};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

/// The simulator moves everything between caller threads, whatever the types promise;
/// what they promise is checked separately (C05).
pub struct Sh<T>(pub T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}

// ------------------------------------------------------------------ matchers

/// A matcher tree evaluated through the library's own matchers and combinators.
pub struct R<'m>(pub &'m M);
impl<'l, 'm> XMatch<'l> for R<'m> {
    type Out = u64;
    fn go<D>(&self, d: &D, l: &'l LLLine) -> Vec<(u64, x::ToIdx)>
    where
        D: XDirection<'l>,
    {
        callback("matcher");
        match self.0 {
            M::Attr(t) => with_ty!(*t, T => {
                let r = x::attr::<T>().go(d, l);
                quiet(|| r.into_iter().map(|(v, i)| (d_attr(v.code()), i)).collect())
            }),
            M::Eq(t, v) => with_make!(*t, T => {
                let want: T = quiet(|| <T as MakeVal>::make(*v));
                let r = x::attr_eq(&want).go(d, l);
                quiet(|| r.into_iter().map(|(_, i)| (D_EQ, i)).collect())
            }),
            M::Any(t, vs) => with_make!(*t, T => {
                let want: Vec<T> = quiet(|| vs.iter().map(|v| <T as MakeVal>::make(*v)).collect());
                let r = x::token_has_any(&want).go(d, l);
                quiet(|| r.into_iter().map(|(v, i)| (d_any(v.code()), i)).collect())
            }),
            M::Text => {
                let r = x::token_text().go(d, l);
                quiet(|| r.into_iter().map(|(s, i)| (d_text(s), i)).collect())
            }
            M::Ws => {
                let r = x::whitespace().go(d, l);
                quiet(|| r.into_iter().map(|(_, i)| (D_EQ, i)).collect())
            }
            M::Seq2(a, b) => {
                let r = x::seq((R(a), R(b))).go(d, l);
                quiet(|| r.into_iter().map(|((a, b), i)| (d_seq2(a, b), i)).collect())
            }
            M::Seq3(a, b, c) => {
                let r = x::seq((R(a), R(b), R(c))).go(d, l);
                quiet(|| r.into_iter().map(|((a, b, c), i)| (d_seq3(a, b, c), i)).collect())
            }
            M::All2(a, b) => {
                let r = x::all((R(a), R(b))).go(d, l);
                quiet(|| r.into_iter().map(|((a, b), i)| (d_all2(a, b), i)).collect())
            }
            M::All3(a, b, c) => {
                let r = x::all((R(a), R(b), R(c))).go(d, l);
                quiet(|| r.into_iter().map(|((a, b, c), i)| (d_all3(a, b, c), i)).collect())
            }
            M::Or2(a, b) => {
                let r = x::any_of((R(a), R(b))).go(d, l);
                quiet(|| {
                    r.into_iter()
                        .map(|(o, i)| {
                            (
                                match o {
                                    x::AnyOf2::A(v) => d_alt(0, v),
                                    x::AnyOf2::B(v) => d_alt(1, v),
                                },
                                i,
                            )
                        })
                        .collect()
                })
            }
            M::Or3(a, b, c) => {
                let r = x::any_of((R(a), R(b), R(c))).go(d, l);
                quiet(|| {
                    r.into_iter()
                        .map(|(o, i)| {
                            (
                                match o {
                                    x::AnyOf3::A(v) => d_alt(0, v),
                                    x::AnyOf3::B(v) => d_alt(1, v),
                                    x::AnyOf3::C(v) => d_alt(2, v),
                                },
                                i,
                            )
                        })
                        .collect()
                })
            }
        }
    }
}

// ------------------------------------------------------------------ observations

pub type QueryRow = (usize, usize, String, Vec<(u64, String)>);

pub fn obs_tokens(l: &LLLine) -> Vec<Tok> {
    let t = l.ll_tokens();
    quiet(|| {
        t.iter()
            .map(|t| match t.get_token() {
                LToken::Text(s, tag) => Tok { text: Some(s.clone()), tag: tag_code(tag) },
                LToken::Value => Tok { text: None, tag: 0 },
            })
            .collect()
    })
}
pub fn obs_query(l: &LLLine, ty: Ty) -> Vec<QueryRow> {
    with_ty!(ty, T => {
        let r = l.query::<T>();
        quiet(|| r.into_iter().map(|((s, e), t, vs)| {
            (s, e, t, vs.into_iter().map(|v| (v.code(), v.dbg())).collect())
        }).collect())
    })
}
pub fn obs_find(l: &LLLine, m: &M) -> Vec<(usize, usize, u64)> {
    let r = l.find(&R(m));
    quiet(|| r.iter().map(|f| (f.range().0, f.range().1, *f.attr())).collect())
}
fn include_ty(d: &mut LLLineDisplay<'_>, ty: Ty) {
    with_ty!(ty, T => d.include::<T>())
}
pub fn obs_display<'a>(l: &'a LLLine, types: &[Ty], via: u8) -> LLLineDisplay<'a> {
    let mut d = if via & 1 == 0 { LLLineDisplay::new(l) } else { debug_line(l) };
    for t in types {
        if via & 2 == 0 {
            include_ty(&mut d, *t);
        } else {
            d = with_ty!(*t, T => d.with::<T>());
        }
    }
    d
}

// ------------------------------------------------------------------ sinks

#[derive(Default)]
struct SinkState {
    got: Vec<u8>,
    calls: u64,
    failed: bool,
}
/// fails from byte `at` on, or at call `call`
struct FmtSink {
    once: bool,
    s: SinkState,
    at: u64,
    call: u64,
}
impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        callback("sink");
        quiet(|| {
            let n = self.s.calls;
            self.s.calls += 1;
            if self.s.failed && !self.once {
                // a sink that has failed keeps failing
                return Err(std::fmt::Error);
            }
            if n == self.call {
                self.s.failed = true;
                return Err(std::fmt::Error);
            }
            for b in t.bytes() {
                if self.s.got.len() as u64 == self.at && !self.s.failed {
                    self.s.failed = true;
                    return Err(std::fmt::Error);
                }
                self.s.got.push(b);
            }
            Ok(())
        })
    }
}
struct IoSink {
    s: SinkState,
    chunk: u64,
    err_at: u64,
    zero: bool,
    interrupt_every: u64,
    once: bool,
}
impl std::io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        callback("sink");
        quiet(|| {
            self.s.calls += 1;
            if self.interrupt_every > 0 && self.s.calls % self.interrupt_every == 0 && !self.s.failed {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            if self.s.failed && self.once {
                self.s.got.extend_from_slice(b);
                return Ok(b.len());
            }
            let room = self.err_at.saturating_sub(self.s.got.len() as u64);
            if self.s.failed || room == 0 {
                self.s.failed = true;
                return if self.zero { Ok(0) } else { Err(std::io::Error::from(std::io::ErrorKind::StorageFull)) };
            }
            let n = (b.len() as u64).min(self.chunk.max(1)).min(room) as usize;
            self.s.got.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// (delivered bytes, reported success, sink refused something)
fn render_into(d: &LLLineDisplay<'_>, sink: &Sink, full: usize) -> (Vec<u8>, bool, bool) {
    let span = full as u64 + 1;
    match sink {
        Sink::Text => {
            let mut s = String::new();
            let ok = write!(s, "{}", d).is_ok();
            (s.into_bytes(), ok, false)
        }
        Sink::FmtErrAt(r) => {
            let mut s = FmtSink { once: false, s: SinkState::default(), at: r % span, call: u64::MAX };
            let ok = write!(s, "{}", d).is_ok();
            (s.s.got, ok, s.s.failed)
        }
        Sink::FmtOnce(r) => {
            // at a byte (all earlier bytes taken) or at a call
            let (at, call) = if r & 1 == 0 { ((r >> 1) % span, u64::MAX) } else { (u64::MAX, (r >> 1) % span) };
            let mut s = FmtSink { once: true, s: SinkState::default(), at, call };
            let ok = write!(s, "{}", d).is_ok();
            (s.s.got, ok, s.s.failed)
        }
        Sink::IoOnce(r, c) => {
            let mut s = IoSink {
                once: true,
                s: SinkState::default(),
                chunk: 1 + c % 9,
                err_at: r % span,
                zero: c & 2048 != 0,
                interrupt_every: if c & 1024 != 0 { 3 } else { 0 },
            };
            let ok = write!(s, "{}", d).is_ok();
            (s.s.got, ok, s.s.failed)
        }
        Sink::FmtErrCall(r) => {
            let mut s = FmtSink { once: false, s: SinkState::default(), at: u64::MAX, call: r % span };
            let ok = write!(s, "{}", d).is_ok();
            (s.s.got, ok, s.s.failed)
        }
        Sink::IoShort(r) => {
            let mut s = IoSink { once: false, s: SinkState::default(), chunk: 1 + r % 7, err_at: u64::MAX, zero: false, interrupt_every: 2 + (r >> 8) % 5 };
            let ok = write!(s, "{}", d).is_ok();
            (s.s.got, ok, s.s.failed)
        }
        Sink::IoErrAt(r, c) | Sink::IoZeroAt(r, c) => {
            let mut s = IoSink {
                once: false,
                s: SinkState::default(),
                chunk: 1 + c % 9,
                err_at: r % span,
                zero: matches!(sink, Sink::IoZeroAt(..)),
                interrupt_every: if c & 1024 != 0 { 3 } else { 0 },
            };
            let ok = write!(s, "{}", d).is_ok();
            (s.s.got, ok, s.s.failed)
        }
    }
}
pub fn sink_name(s: &Sink) -> &'static str {
    match s {
        Sink::Text => "none",
        Sink::FmtErrAt(_) => "fmt sink fails at a byte",
        Sink::FmtErrCall(_) => "fmt sink fails at a call",
        Sink::IoShort(_) => "io sink short writes and EINTR",
        Sink::IoErrAt(..) => "io sink full at a byte",
        Sink::IoZeroAt(..) => "io sink accepts zero bytes",
        Sink::FmtOnce(_) => "fmt sink fails once and recovers",
        Sink::IoOnce(..) => "io sink fails once and recovers",
    }
}

// ------------------------------------------------------------------ creating lines

/// prepared attributes that did not give their value back
pub static EXTRACT_BAD: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

pub struct Answers(pub RefCell<Vec<(String, usize)>>);

fn attrs_of(a: &[(Ty, u32)]) -> Vec<AnyAttribute> {
    a.iter().map(|(t, v)| with_make!(*t, T => AnyAttribute::new(<T as MakeVal>::make(*v)))).collect()
}

fn inputs_of(c: &Create) -> Vec<InputToken> {
    let mut out = Vec::new();
    for i in &c.inputs {
        if c.via == 3 {
            // the other ways in: add_attr, and values taken out of a prepared attribute
            let (In::Text(_, a) | In::Custom(_, a)) = i;
            let mut tok = match i {
                In::Text(s, _) => InputToken::text(s.clone(), Vec::new()),
                In::Custom(n, _) => InputToken::custom(*n, Vec::new()),
            };
            for (k, (t, v)) in a.iter().enumerate() {
                with_make!(*t, T => {
                    let val = <T as MakeVal>::make(*v);
                    if k % 2 == 1 {
                        let code = quiet(|| val.code());
                        let a = AnyAttribute::new(val);
                        let a = match a.extract::<Sh<T>>() { Err(a) => a, Ok(_) => unreachable!() };
                        let b = a.extract::<T>();
                        match b {
                            Ok(v) => {
                                if quiet(|| v.code()) != code {
                                    EXTRACT_BAD.fetch_add(1, Relaxed);
                                }
                                tok.add_attr(v)
                            }
                            Err(_) => {
                                EXTRACT_BAD.fetch_add(1, Relaxed);
                                panic!("a prepared attribute did not give its value back")
                            }
                        }
                    } else {
                        tok.add_attr(val);
                    }
                });
            }
            // a token that is prepared and never used
            if let Some((t, v)) = a.first() {
                with_make!(*t, T => drop(InputToken::custom(1, vec![AnyAttribute::new(<T as MakeVal>::make(*v))])));
            }
            out.push(tok);
        } else {
            out.push(match i {
                In::Text(s, a) => InputToken::text(s.clone(), attrs_of(a)),
                In::Custom(n, a) => InputToken::custom(*n, attrs_of(a)),
            });
        }
    }
    out
}

#[allow(deprecated)]
pub fn create(c: &Create, ans: &Answers) -> LLLine {
    let calls = Cell::new(0u64);
    let measure = |s: &str| {
        callback("measure");
        let k = calls.get();
        calls.set(k + 1);
        let n = match c.measure {
            Measure::Len => s.len(),
            Measure::Utf16 => s.encode_utf16().count(),
            Measure::Chars => s.chars().count(),
            Measure::Const(n) => n,
            Measure::Vary(seed) => (mix(seed, k) % 37) as usize,
            Measure::Reentrant => {
                if simrt::in_lib_now() && !std::thread::panicking() {
                    let l = create_line_from_input_tokens(vec![InputToken::text("ab 12".into(), vec![])], |s| s.len());
                    let f = l.find(&x::token_text());
                    let w: usize = f.iter().map(|f| f.range().1 - f.range().0).sum();
                    if w != 5 || f.len() != 3 {
                        REENTER_BAD.fetch_add(1, Relaxed);
                    }
                }
                s.len()
            }
        };
        quiet(|| ans.0.borrow_mut().push((s.to_string(), n)));
        n
    };
    if c.via == 2 {
        let In::Text(s, _) = &c.inputs[0] else { unreachable!() };
        return create_line_from_string(s);
    }
    let inputs = inputs_of(c);
    if c.via == 1 {
        layered_nlp::create_tokens(inputs, measure)
    } else {
        create_line_from_input_tokens(inputs, measure)
    }
}

// ------------------------------------------------------------------ resolvers

pub enum Res {
    T0(TextMatchAssignResolver<V<0>>),
    T1(TextMatchAssignResolver<V<1>>),
    T2(TextMatchAssignResolver<V<2>>),
    Amount(AmountResolver),
    Kw(ClauseKeywordResolver),
    Clause(ClauseResolver),
    Pos(POSTagResolver),
    Sym(SymRes),
    Money(MoneyRes),
}
fn text_res<const K: usize>(mode: u8, table: &[(&'static str, Vec<u32>)]) -> TextMatchAssignResolver<V<K>> {
    if mode == 2 {
        let g = |i: usize| (table[i].0, V::<K>::new(table[i].1[0]));
        return TextMatchAssignResolver::new_case_insensitive_str_arr([g(0), g(1), g(2)]);
    }
    let map: HashMap<String, Vec<V<K>>> =
        table.iter().map(|(k, v)| (k.to_string(), v.iter().map(|v| V::new(*v)).collect())).collect();
    if mode == 0 {
        TextMatchAssignResolver::new(map)
    } else {
        TextMatchAssignResolver::new_case_insensitive(map)
    }
}
pub fn build_res(s: &ResSpec) -> Res {
    match s {
        ResSpec::Text { mode, ty, table } => match ty {
            0 => Res::T0(text_res(*mode, table)),
            1 => Res::T1(text_res(*mode, table)),
            _ => Res::T2(text_res(*mode, table)),
        },
        ResSpec::Amount { preset, delims, decimal } => Res::Amount(match preset {
            1 => AmountResolver::english(),
            2 => AmountResolver::french(),
            _ => AmountResolver::new(delims.clone(), *decimal),
        }),
        ResSpec::Kw(k) => Res::Kw(match k {
            0 => ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"]),
            1 => ClauseKeywordResolver::new(&["when"], &["and", "or"], &["then", "run"]),
            _ => ClauseKeywordResolver::new(&[], &["and"], &[]),
        }),
        ResSpec::Clause => Res::Clause(ClauseResolver::default()),
        ResSpec::Pos => Res::Pos(POSTagResolver::default()),
        ResSpec::Sym => Res::Sym(SymRes),
        ResSpec::Money => Res::Money(MoneyRes),
    }
}

pub struct SymRes;
impl Resolver for SymRes {
    type Attr = Sym;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<Sym>> {
        sel.find_by(&x::token_has_any(&['$', '€'])).finish_with(|c| if *c == '$' { Sym::Usd } else { Sym::Eur })
    }
}
pub struct MoneyRes;
impl Resolver for MoneyRes {
    type Attr = Money;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<Money>> {
        sel.find_by(&x::seq((x::attr::<Sym>(), x::attr::<Amount>())))
            .into_iter()
            .map(|(s, (sym, am))| s.finish_with_attr(Money(sym.clone(), am.clone())))
            .collect()
    }
}
/// Passes through, counting the assignments.
struct Counted<'a, X>(&'a X, &'a Cell<usize>);
impl<'a, X: Resolver> Resolver for Counted<'a, X> {
    type Attr = X::Attr;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<X::Attr>> {
        callback("resolver");
        let r = self.0.go(sel);
        self.1.set(r.len());
        callback("resolver");
        r
    }
}
/// The process has a past: `n` small lines, made and dropped.
pub fn warm_up(n: u32, res: Option<(&Res, Ty)>) -> Result<(), String> {
    const SHORT: [&str; 4] = ["if", "York", "1", "x"];
    const LONG: [&str; 4] = [
        "if it rains, $5 and 1,000 Slack SLACK York \u{130}stanbul then I",
        "a 7.5 Algolia New 1 000,2 and",
        "run 日本語 Straße when 1",
        "x",
    ];
    let texts = if n > 10_000 { SHORT } else { LONG };
    let (r, _) = in_lib(Arm::None, || {
        let cnt = Cell::new(0);
        let mut first: [Option<u64>; 4] = [None; 4];
        for i in 0..n {
            let k = if res.is_some() { i as usize % 3 } else { 3 };
            let l = create_line_from_string(texts[k]);
            let (l, ty) = match res {
                Some((r, ty)) => (run_res(l, r, &cnt), ty),
                None => (l, T_TAG),
            };
            let q = obs_query(&l, ty);
            let h = quiet(|| {
                q.iter().fold(7, |h, (s, e, t, vs)| {
                    vs.iter().fold(mix(mix(h, (*s as u64) << 32 | *e as u64), hash_str(t)), |h, v| mix(h, v.0))
                })
            });
            drop(l);
            match first[k] {
                None => first[k] = Some(h),
                Some(w) if w != h => return Some((i, texts[k])),
                _ => {}
            }
        }
        None
    });
    match r {
        Ok(None) => Ok(()),
        Ok(Some((i, t))) => Err(format!("\"{t}\" gave another result as the {}th line than before", i + 1)),
        Err(e) => Err(e),
    }
}

fn run_res(l: LLLine, r: &Res, n: &Cell<usize>) -> LLLine {
    match r {
        Res::T0(r) => l.run(&Counted(r, n)),
        Res::T1(r) => l.run(&Counted(r, n)),
        Res::T2(r) => l.run(&Counted(r, n)),
        Res::Amount(r) => l.run(&Counted(r, n)),
        Res::Kw(r) => l.run(&Counted(r, n)),
        Res::Clause(r) => l.run(&Counted(r, n)),
        Res::Pos(r) => l.run(&Counted(r, n)),
        Res::Sym(r) => l.run(&Counted(r, n)),
        Res::Money(r) => l.run(&Counted(r, n)),
    }
}

/// single-token selections, by token index
fn token_sels(sel: &LLSelection, addr: &[Addr]) -> Vec<Option<LLSelection>> {
    let texts = sel.find_by(&x::token_text());
    let cids = sel.find_by(&x::attr::<V<5>>());
    quiet(|| {
        addr.iter()
            .map(|a| match a {
                Addr::Text(k) => texts.get(*k).map(|t| t.0.clone()),
                Addr::Cid(k) => cids.get(*k).map(|t| t.0.clone()),
                Addr::None => None,
            })
            .collect()
    })
}
/// the selection s..=e, made from steps on single tokens
fn make_sel(whole: &LLSelection, toks: &[Option<LLSelection>], s: usize, e: usize) -> Option<LLSelection> {
    let a = toks.get(s)?.as_ref()?;
    if s == e {
        return Some(a.clone());
    }
    let b = toks.get(e)?.as_ref()?;
    let from_s = match &whole.split_with(a)[0] {
        Some(left) => whole.split_with(left)[1].clone()?,
        None => whole.clone(),
    };
    match &whole.split_with(b)[1] {
        Some(right) => from_s.split_with(right)[0].clone(),
        None => Some(from_s),
    }
}

struct ScriptRes<'a, T> {
    assigns: &'a [(usize, usize, u32)],
    addr: &'a [Addr],
    flavor: u8,
    reads: &'a [M],
    clone_sel: bool,
    log: &'a RefCell<Vec<u64>>,
    _t: std::marker::PhantomData<T>,
}
impl<'a, T: MakeVal> Resolver for ScriptRes<'a, T> {
    type Attr = T;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<T>> {
        callback("resolver");
        reenter();
        let kept = if self.clone_sel { Some((sel.clone(), sel.clone())) } else { None };
        for m in self.reads {
            let r = sel.find_by(&R(m));
            quiet(|| self.log.borrow_mut().extend(r.iter().map(|(_, d)| *d)));
        }
        let toks = token_sels(&sel, self.addr);
        let mut out = Vec::new();
        for (s, e, v) in self.assigns {
            callback("assign");
            match make_sel(&sel, &toks, *s, *e) {
                Some(x) => {
                    let val = T::make(*v);
                    if self.flavor & 1 == 0 {
                        out.push(x.finish_with_attr(val));
                    } else {
                        let val = Cell::new(Some(val));
                        out.extend(Some((x, ())).finish_with(|()| val.take().unwrap()));
                    }
                }
                None => quiet(|| self.log.borrow_mut().push(0xDEAD_0000 + *s as u64)),
            }
        }
        drop(kept);
        out
    }
}

struct NavRes<'a> {
    steps: &'a [NavStep],
    plan: &'a [bool],
    parts: &'a [Option<Sel>],
    addr: &'a [Addr],
    log: &'a RefCell<Vec<u64>>,
    count: &'a Cell<usize>,
}
impl<'a> Resolver for NavRes<'a> {
    type Attr = V<4>;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<V<4>>> {
        callback("resolver");
        let mut sels = vec![sel];
        let mut toks = None;
        for ((st, run), part) in self.steps.iter().zip(self.plan).zip(self.parts) {
            if !*run {
                continue;
            }
            let cur = sels[choose(st.pick, sels.len())].clone();
            let other = sels[choose(st.other, sels.len())].clone();
            let m = R(&st.m);
            let mut log: Vec<u64> = vec![];
            let mut got: Vec<LLSelection> = vec![];
            let mut take = |r: Vec<(LLSelection, u64)>| {
                quiet(|| {
                    for (s, d) in r {
                        got.push(s);
                        log.push(d);
                    }
                })
            };
            match st.op {
                0 => take(cur.find_by(&m)),
                1 => take(cur.find_first_by(&m).into_iter().collect()),
                2 => take(cur.find_by_forwards_and_backwards(&m)),
                3 => got = cur.split_by(&m),
                4 => {
                    let [a, b] = cur.split_with(&other);
                    log.push(a.is_some() as u64 * 2 + b.is_some() as u64);
                    got.extend(a);
                    got.extend(b);
                }
                5 => take(cur.match_forwards(&m)),
                6 => take(cur.match_first_forwards(&m).into_iter().collect()),
                7 => take(cur.match_backwards(&m)),
                8 => take(cur.match_first_backwards(&m).into_iter().collect()),
                9 => got.extend(cur.trim(&m)),
                10 => got.extend(cur.trim_start(&m)),
                11 => got.extend(cur.trim_end(&m)),
                12 => got.extend(cur.after()),
                13 => got.push(cur.clone()),
                PART => {
                    let toks = toks.get_or_insert_with(|| token_sels(&sels[0], self.addr));
                    got.extend(part.and_then(|(s, e)| make_sel(&sels[0], toks, s, e)));
                }
                _ => log.push((cur == other) as u64),
            }
            quiet(|| {
                let mut l = self.log.borrow_mut();
                l.push(mix(0x57E9, log.len() as u64));
                l.extend(log);
                l.push(mix(0x57EA, got.len() as u64));
                for s in got.into_iter().take(NAV_CAP) {
                    sels.push(s);
                }
            });
        }
        self.count.set(sels.len());
        sels.iter().enumerate().map(|(k, s)| s.finish_with_attr(V::new(k as u32))).collect()
    }
}

/// looks at every type from a running layer, forwards and backwards from every token, and
/// marks what it finds
struct ProbeRes<'a> {
    types: &'a [Ty],
    log: &'a RefCell<Vec<u64>>,
}
const PROBE_CAP: usize = 600;
impl<'a> Resolver for ProbeRes<'a> {
    type Attr = V<4>;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<V<4>>> {
        let mut out = vec![];
        for t in self.types {
            let m = M::Attr(*t);
            for (s, d) in sel.find_by_forwards_and_backwards(&R(&m)) {
                if out.len() < PROBE_CAP {
                    quiet(|| self.log.borrow_mut().push(d));
                    out.push(s.finish_with_attr(V::new(out.len() as u32)));
                }
            }
        }
        out
    }
}

// Many attribute types on one line: a family of types, each with its own small layer.
pub const WIDE: usize = 64;
#[derive(Debug, PartialEq)]
struct W<const K: usize>(u32);
struct WideRes<'a, const K: usize> {
    at: (usize, usize),
    vals: &'a [u32],
}
impl<'a, const K: usize> Resolver for WideRes<'a, K> {
    type Attr = W<K>;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<W<K>>> {
        let toks: Vec<Option<LLSelection>> = sel.find_by(&x::token_text()).into_iter().map(|t| Some(t.0)).collect();
        let Some(at) = make_sel(&sel, &toks, self.at.0, self.at.1) else { return vec![] };
        self.vals.iter().map(|v| at.finish_with_attr(W(*v))).collect()
    }
}
type WideRow = (usize, usize, Vec<u32>);
type WideSeen = (Vec<WideRow>, Vec<(usize, usize, u32)>);
type WideFns = (fn(LLLine, (usize, usize), &[u32]) -> LLLine, fn(&LLLine) -> WideSeen);
fn wide_run<const K: usize>(l: LLLine, at: (usize, usize), vals: &[u32]) -> LLLine {
    l.run(&WideRes::<K> { at, vals })
}
fn wide_see<const K: usize>(l: &LLLine) -> WideSeen {
    let q = l.query::<W<K>>();
    let f = l.find(&x::attr::<W<K>>());
    quiet(|| {
        (
            q.into_iter().map(|((s, e), _, vs)| (s, e, vs.iter().map(|v| v.0).collect())).collect(),
            f.iter().map(|f| (f.range().0, f.range().1, f.attr().0)).collect(),
        )
    })
}
macro_rules! wide_fns {
    ($($k:literal)*) => { [$((wide_run::<$k> as fn(LLLine, (usize, usize), &[u32]) -> LLLine, wide_see::<$k> as fn(&LLLine) -> WideSeen)),*] };
}
static WIDE_FNS: [WideFns; WIDE] = wide_fns!(
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
    32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63
);

/// what a misused layer observed
#[derive(Default)]
struct MisuseLog {
    kept: RefCell<Vec<LLSelection>>,
    refused: Cell<bool>,
    tried: Cell<bool>,
}
struct MisuseRes<'a> {
    kind: Misuse,
    m: &'a M,
    text: String,
    n_toks: usize,
    variant: u32,
    log: &'a MisuseLog,
}
impl<'a> Resolver for MisuseRes<'a> {
    type Attr = V<4>;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<V<4>>> {
        callback("resolver");
        self.log.tried.set(true);
        match self.kind {
            Misuse::KeepSelection => {
                let part = sel.find_first_by(&R(self.m)).map(|p| p.0);
                let mut k = self.log.kept.borrow_mut();
                k.push(sel.clone());
                k.extend(part);
                vec![sel.finish_with_attr(V::new(900))]
            }
            Misuse::CrossLine => {
                let o = LLSelection::from_line(Rc::new(create_line_from_string(&self.text))).expect("not empty");
                if sel == o {
                    return vec![sel.finish_with_attr(V::new(902))];
                }
                let part = sel.find_first_by(&R(self.m)).map(|p| p.0).unwrap_or_else(|| sel.clone());
                let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| part.split_with(&o))).is_err();
                let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.split_with(&part))).is_err();
                self.log.refused.set(a && b);
                vec![]
            }
            Misuse::ForeignRange if self.variant > 0 => {
                // one token too far: exactly the token after the last, alone or from here on
                let mut t = String::new();
                for _ in 0..self.n_toks + 2 {
                    t.push_str(". ");
                }
                let o = LLSelection::from_line(Rc::new(create_line_from_string(&t))).expect("not empty");
                let all = o.find_by(&x::token_text());
                let far = if self.variant == 1 {
                    all[self.n_toks].0.clone()
                } else {
                    let right = &all[self.n_toks].0;
                    match &o.split_with(right)[1] {
                        Some(rest) => o.split_with(rest)[0].clone().expect("not empty"),
                        None => o.clone(),
                    }
                };
                vec![far.finish_with_attr(V::new(901))]
            }
            Misuse::ForeignRange => {
                // a line with more tokens than this one
                let mut t = String::new();
                for _ in 0..self.n_toks + 2 {
                    t.push_str(". ");
                }
                let o = LLSelection::from_line(Rc::new(create_line_from_string(&t))).expect("not empty");
                let o = if self.n_toks % 2 == 0 {
                    // both ends beyond this line
                    let all = o.find_by(&x::token_text());
                    all[self.n_toks + 1].0.clone()
                } else {
                    o
                };
                vec![sel.finish_with_attr(V::new(901)), o.finish_with_attr(V::new(901))]
            }
        }
    }
}

// ------------------------------------------------------------------ the execution

#[derive(Clone, Debug, Default)]
pub struct OpRes {
    pub done: bool,
    pub hash: u64,
    pub text: String,
    pub cnt: OpCount,
    pub attempts: u32,
    pub panicked: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}

pub struct LineState {
    line: Option<LLLine>,
    shared: Option<Arc<Sh<LLLine>>>,
    model: Option<LineModel>,
    layers_done: Vec<usize>,
    view: Option<Vec<(String, String)>>,
}

#[derive(Clone, Debug, Default)]
pub struct Counters {
    pub faults: [u64; 2],
    pub sinks: [u64; 8],
    pub sink_refused: u64,
    pub misuse: [u64; 3],
    pub rebuilds: u64,
    pub queries: u64,
    pub finds: u64,
    pub renders: u64,
    pub nav_steps: u64,
    pub nav_sels: u64,
    pub assigns: u64,
    pub shipped: u64,
    pub layers: u64,
    pub tokens: u64,
    pub skipped: u64,
    pub handovers: u64,
    pub values: u64,
    pub lines: u64,
    pub twins: u64,
}

pub struct Exec<'p> {
    pub plan: &'p Plan,
    /// resolvers shared by all callers; None: a fresh one per use (the reference)
    pub shared: Option<Vec<Res>>,
    pub base_live: u32,
    lines: Vec<UnsafeCell<LineState>>,
    results: Vec<UnsafeCell<OpRes>>,
    viol: UnsafeCell<Vec<Violation>>,
    pub cnt: UnsafeCell<Counters>,
}
unsafe impl<'p> Sync for Exec<'p> {}
unsafe impl<'p> Send for Exec<'p> {}

fn shorten(s: &str) -> String {
    if s.len() <= 900 {
        return s.to_string();
    }
    let mut k = 900;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}…({} bytes)", &s[..k], s.len())
}
/// where two texts part
fn differ(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let f = |s: &str| {
        let mut i = k.saturating_sub(60);
        while i > 0 && !s.is_char_boundary(i) {
            i -= 1;
        }
        let mut j = (k + 140).min(s.len());
        while j < s.len() && !s.is_char_boundary(j) {
            j += 1;
        }
        s.get(i..j).unwrap_or("").to_string()
    };
    format!("expected …{}… but got …{}…", f(a), f(b))
}

impl<'p> Exec<'p> {
    pub fn new(plan: &'p Plan, shared: Option<Vec<Res>>, base_live: u32) -> Self {
        let max_id = plan.ops.iter().map(|o| o.id + 1).max().unwrap_or(0) as usize;
        Exec {
            plan,
            shared,
            base_live,
            lines: plan
                .lines
                .iter()
                .map(|_| {
                    UnsafeCell::new(LineState { line: None, shared: None, model: None, layers_done: vec![], view: None })
                })
                .collect(),
            results: (0..max_id).map(|_| UnsafeCell::new(OpRes::default())).collect(),
            viol: UnsafeCell::new(vec![]),
            cnt: UnsafeCell::new(Counters::default()),
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self, l: usize) -> &mut LineState {
        unsafe { &mut *self.lines[l].get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn res(&self, op: u32) -> &mut OpRes {
        unsafe { &mut *self.results[op as usize].get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn c(&self) -> &mut Counters {
        unsafe { &mut *self.cnt.get() }
    }
    pub fn violations(&self) -> &mut Vec<Violation> {
        unsafe { &mut *self.viol.get() }
    }
    pub fn violate(&self, kind: &str, msg: String) {
        let v = self.violations();
        if v.len() < 20 {
            v.push(Violation { kind: kind.to_string(), msg });
        }
    }
    fn is(&self, p: Prop) -> bool {
        self.plan.prop == p
    }
    fn panics_count(&self) -> bool {
        !matches!(self.plan.prop, Prop::C05 | Prop::C06 | Prop::C08 | Prop::C10)
    }

    /// may this operation start?
    pub fn ready(&self, op: &Op) -> bool {
        self.plan.ops.iter().take_while(|o| o.id < op.id).filter(|o| o.line == op.line).all(|o| {
            let needed = match (&op.kind, &o.kind) {
                (OpK::Drop, _) => true,
                (OpK::SharedRead(_), OpK::SharedRead(_)) => false,
                _ => true,
            };
            !needed || self.res(o.id).done
        })
    }

    fn set(&self, op: &Op, text: String, cnt: OpCount) {
        let r = self.res(op.id);
        r.hash = hash_str(&text);
        r.text = shorten(&text);
        r.cnt = cnt;
    }

    pub fn run_op(&self, op: &Op, arm: Arm) {
        match &op.kind {
            OpK::Create => self.op_create(op, arm),
            OpK::Layer(i) => self.op_layer(op, *i, arm),
            OpK::Read(r) => self.op_read(op, r, arm, false),
            OpK::SharedRead(r) => self.op_read(op, r, arm, true),
            OpK::Publish => {
                let st = self.st(op.line);
                if self.plan.observe >> (op.line % 32) & 1 == 1 && st.line.is_some() {
                    if let Some(l) = self.unseen(op.line, op) {
                        let old = st.line.replace(l);
                        let _ = in_lib(Arm::None, || drop(old));
                    }
                }
                st.shared = st.line.take().map(|l| Arc::new(Sh(l)));
                self.set(op, "published".into(), OpCount::default());
            }
            OpK::Drop => self.op_drop(op),
        }
        self.res(op.id).done = true;
        if self.is(Prop::C08) && self.plan.n_tasks == 1 {
            self.check_live(op);
        }
    }

    fn fired(&self, c: &OpCount) {
        if c.fired > 0 {
            self.c().faults[c.fired as usize - 1] += 1;
        }
    }
    fn unexpected(&self, op: &Op, what: &str, e: &str) {
        self.res(op.id).panicked = true;
        self.set(op, format!("{what} panicked"), OpCount::default());
        if self.panics_count() {
            self.violate("panic", format!("op {} ({what} on line {}): panicked by itself: {e}", op.id, op.line));
        }
    }

    // --- creating

    /// in_lib(create), plus the model of the new line
    fn make_line(&self, li: usize, arm: Arm) -> (Result<(LLLine, Vec<(String, usize)>), String>, OpCount) {
        let c = &self.plan.lines[li].create;
        let ans = Answers(RefCell::new(vec![]));
        let (r, cnt) = in_lib(arm, || create(c, &ans));
        (r.map(|l| (l, ans.0.into_inner())), cnt)
    }

    fn op_create(&self, op: &Op, arm: Arm) {
        let li = op.line;
        let (mut r, mut cnt) = self.make_line(li, arm);
        self.fired(&cnt);
        let mut attempts = 1;
        if cnt.fired > 0 {
            match r {
                Ok(_) => {
                    if self.is(Prop::C11) && cnt.fired == 1 {
                        self.violate("created-despite-failure", format!("op {}: the measuring callback failed and a line was returned", op.id));
                    }
                }
                Err(_) => {
                    let first = cnt;
                    while attempts < self.plan.repeat_fail {
                        let (again, c) = self.make_line(li, arm);
                        self.fired(&c);
                        attempts += 1;
                        if again.is_ok() && c.fired == 1 && self.is(Prop::C11) {
                            self.violate("created-despite-failure", format!("op {}: the measuring callback failed and a line was returned", op.id));
                        }
                    }
                    (r, cnt) = self.make_line(li, Arm::None);
                    attempts += 1;
                    cnt.fired = first.fired;
                }
            }
        }
        self.res(op.id).attempts = attempts;
        let (line, answers) = match r {
            Ok(x) => x,
            Err(e) => {
                if self.is(Prop::C11) || self.panics_count() {
                    let c = &self.plan.lines[li].create;
                    self.unexpected(op, "create", &format!("{e}; input {:?}", c.inputs));
                } else {
                    self.unexpected(op, "create", &e);
                }
                return;
            }
        };
        let c = &self.plan.lines[li].create;
        let (obs, _) = in_lib(Arm::None, || {
            let toks = obs_tokens(&line);
            let texts = obs_find(&line, &M::Text);
            let cids = obs_find(&line, &M::Attr(T_CID));
            (toks, texts, cids)
        });
        let (toks, texts, cids) = match obs {
            Ok(x) => x,
            Err(e) => {
                self.unexpected(op, "reading a new line", &e);
                return;
            }
        };
        self.set(op, format!("{toks:?}|{texts:?}|{cids:?}"), cnt);
        self.c().lines += 1;
        self.c().tokens += toks.len() as u64;
        let st = self.st(li);
        match LineModel::new(c, toks) {
            Err(e) => {
                if self.is(Prop::C11) {
                    self.violate("lossy", format!("op {}: {e}", op.id));
                }
                st.model = None;
            }
            Ok(mut m) => {
                self.positions(op, c, &mut m, &texts, &cids, &answers, &line);
                st.model = Some(m);
            }
        }
        st.line = Some(line);
        st.layers_done.clear();
        if self.is(Prop::C01) {
            self.check_all(op, "after creation");
        }
    }

    /// learn the tokens' positions, and (C11) check them
    #[allow(clippy::too_many_arguments)]
    fn positions(
        &self,
        op: &Op,
        c: &Create,
        m: &mut LineModel,
        texts: &[(usize, usize, u64)],
        cids: &[(usize, usize, u64)],
        answers: &[(String, usize)],
        line: &LLLine,
    ) {
        let c11 = self.is(Prop::C11);
        let n_text = m.toks.iter().filter(|t| t.text.is_some()).count();
        let n_cid = m.addr.iter().filter(|a| matches!(a, Addr::Cid(_))).count();
        if texts.len() != n_text || cids.len() != n_cid {
            if c11 || self.is(Prop::C02) {
                self.violate(
                    "find-count",
                    format!("op {}: {} text tokens found of {}, {} marked custom tokens found of {}", op.id, texts.len(), n_text, cids.len(), n_cid),
                );
            }
            return;
        }
        for i in 0..m.n() {
            match m.addr[i] {
                Addr::Text(k) => m.pos[i] = Some((texts[k].0, texts[k].1)),
                Addr::Cid(k) => m.pos[i] = Some((cids[k].0, cids[k].1)),
                Addr::None => {}
            }
        }
        let sizes: Vec<Option<usize>> = {
            let mut v = vec![None; m.n()];
            for (k, i) in c.inputs.iter().enumerate() {
                if let In::Custom(n, _) = i {
                    v[m.inputs[k].0] = Some(*n);
                }
            }
            v
        };
        // tokens nobody can point at: their position follows from their neighbours
        let mut at = 0;
        for i in 0..m.n() {
            match m.pos[i] {
                Some((a, b)) => {
                    if c11 && a != at {
                        self.violate("positions", format!("op {}: token {i} starts at {a}, the token before ends at {at}", op.id));
                        return;
                    }
                    if c11 {
                        if let Some(n) = sizes[i] {
                            if b != a + n {
                                self.violate("custom-size", format!("op {}: custom token {i} of size {n} spans {a}..{b}", op.id));
                            }
                        } else {
                            let t = m.toks[i].text.as_deref().unwrap_or("");
                            let ok = if c.via == 2 {
                                b.wrapping_sub(a) == t.len()
                            } else {
                                answers.iter().any(|(s, n)| s == t && a + n == b)
                            };
                            if !ok {
                                self.violate(
                                    "width",
                                    format!("op {}: token {i} {t:?} spans {a}..{b}; the callback answered {:?} for that text", op.id,
                                        answers.iter().filter(|(s, _)| s == t).map(|x| x.1).take(8).collect::<Vec<_>>()),
                                );
                            }
                        }
                    }
                    at = b;
                }
                None => {
                    let n = sizes[i].unwrap_or(0);
                    m.pos[i] = Some((at, at + n));
                    at += n;
                }
            }
        }
        if c11 {
            // extents of the input tokens, in tokens and in positions
            for ty in [T_EXT, T_CID] {
                let (r, _) = in_lib(Arm::None, || (obs_query(line, ty), obs_find(line, &M::Attr(ty))));
                let Ok((q, f)) = r else { continue };
                let want: Vec<(usize, usize, String)> = m.store[ty].iter().map(|e| (e.s, e.e, m.text(e.s, e.e))).collect();
                let got: Vec<(usize, usize, String)> = q.iter().map(|r| (r.0, r.1, r.2.clone())).collect();
                if want != got {
                    self.violate("extent", format!("op {}: {}", op.id, differ(&format!("{want:?}"), &format!("{got:?}"))));
                }
                let wantf = self.want_find(m, &M::Attr(ty));
                if wantf.as_deref() != Some(&f[..]) && wantf.is_some() {
                    self.violate("extent-positions", format!("op {}: {}", op.id, differ(&format!("{:?}", wantf.unwrap()), &format!("{f:?}"))));
                }
            }
        }
    }

    fn want_find(&self, m: &LineModel, k: &M) -> Option<Vec<(usize, usize, u64)>> {
        if m.n() == 0 {
            return Some(vec![]);
        }
        let f = m.find(k, 0, m.n() - 1)?;
        f.into_iter().map(|(a, b, d)| Some((m.pos[a]?.0, m.pos[b]?.1, d))).collect()
    }

    // --- layers

    fn op_layer(&self, op: &Op, i: usize, arm: Arm) {
        let li = op.line;
        let st = self.st(li);
        let Some(line) = st.line.take() else {
            self.set(op, "no line".into(), OpCount::default());
            return;
        };
        let layer = &self.plan.lines[li].layers[i];
        if let Layer::Misuse(kind, m) = layer {
            self.op_misuse(op, *kind, m, line);
            return;
        }
        self.c().layers += 1;
        let before = if matches!(layer, Layer::Shipped(_)) { self.snapshot(&line, layer) } else { None };
        let (mut r, mut cnt, mut log, mut n) = self.apply(li, line, layer, arm);
        self.fired(&cnt);
        let mut attempts = 1;
        if cnt.fired > 0 && r.is_err() {
            // the line is gone: make it again the same way, and run the layer again
            let first = cnt.fired;
            attempts += 1;
            while attempts <= self.plan.repeat_fail.min(3) {
                match self.rebuild(li, op) {
                    None => return,
                    Some(l) => {
                        let (again, c, _, _) = self.apply(li, l, layer, arm);
                        self.fired(&c);
                        drop(again);
                        attempts += 1;
                    }
                }
            }
            match self.rebuild(li, op) {
                None => return,
                Some(l) => {
                    (r, cnt, log, n) = self.apply(li, l, layer, Arm::None);
                    cnt.fired = first;
                }
            }
        }
        self.res(op.id).attempts = attempts;
        let line = match r {
            Ok(l) => l,
            Err(e) => {
                self.unexpected(op, &format!("layer {i}"), &format!("{e}; {}", self.layer_text(layer)));
                return;
            }
        };
        st.line = Some(line);
        st.layers_done.push(i);
        self.absorb(op, i, layer, before, &log, n, cnt);
        if self.is(Prop::C01) {
            self.check_all(op, &format!("after layer {i}"));
        }
    }

    fn layer_text(&self, l: &Layer) -> String {
        match l {
            Layer::Shipped(k) => shorten(&format!("{:?}", self.plan.shared[*k])),
            l => shorten(&format!("{l:?}")),
        }
    }

    /// what the layer's type looked like before it
    fn snapshot(&self, line: &LLLine, layer: &Layer) -> Option<Vec<QueryRow>> {
        let ty = layer_ty(&self.plan.shared, layer);
        in_lib(Arm::None, || obs_query(line, ty)).0.ok()
    }

    fn concrete(&self, m: &LineModel, assigns: &[(u32, u32, u32)]) -> Vec<(usize, usize, u32)> {
        assigns.iter().filter_map(|(a, l, v)| m.resolve(*a, *l).map(|(s, e)| (s, e, *v))).collect()
    }

    #[allow(clippy::type_complexity)]
    fn apply(&self, li: usize, line: LLLine, layer: &Layer, arm: Arm) -> (Result<LLLine, String>, OpCount, Vec<u64>, usize) {
        let n = Cell::new(0);
        let log = RefCell::new(Vec::new());
        let st = self.st(li);
        let (r, cnt) = match layer {
            Layer::Shipped(k) => {
                let fresh;
                let res = match &self.shared {
                    Some(s) => &s[*k],
                    None => {
                        fresh = match in_lib(Arm::None, || build_res(&self.plan.shared[*k])).0 {
                            Ok(f) => f,
                            Err(e) => return (Err(format!("building the resolver: {e}")), OpCount::default(), vec![], 0),
                        };
                        &fresh
                    }
                };
                in_lib(arm, || run_res(line, res, &n))
            }
            Layer::Script { ty, assigns, flavor, reads, clone_sel } => match &st.model {
                None => (Ok(line), OpCount::default()),
                Some(m) => {
                    let a = self.concrete(m, assigns);
                    let reads: Vec<M> = reads.iter().filter(|q| m.n() > 0 && m.find(q, 0, m.n() - 1).is_some()).cloned().collect();
                    with_make!(*ty, T => {
                        let res = ScriptRes::<T> {
                            assigns: &a, addr: &m.addr, flavor: *flavor, reads: &reads, clone_sel: *clone_sel,
                            log: &log, _t: std::marker::PhantomData };
                        in_lib(arm, || line.run(&res))
                    })
                }
            },
            Layer::Nav { steps } => match &st.model {
                Some(m) if m.n() > 0 => {
                    let want = nav(m, steps);
                    let res = NavRes { steps, plan: &want.plan, parts: &want.parts, addr: &m.addr, log: &log, count: &n };
                    in_lib(arm, || line.run(&res))
                }
                _ => (Ok(line), OpCount::default()),
            },
            Layer::Misuse(..) => unreachable!(),
        };
        (r, cnt, log.into_inner(), n.get())
    }

    /// a new line with the layers that have been run so far
    fn rebuild(&self, li: usize, op: &Op) -> Option<LLLine> {
        self.c().rebuilds += 1;
        let (r, _) = self.make_line(li, Arm::None);
        let mut line = match r {
            Ok((l, _)) => l,
            Err(e) => {
                self.unexpected(op, "rebuild", &e);
                return None;
            }
        };
        // layers resolve their ranges against the model, which only grows: fine
        let done = self.st(li).layers_done.clone();
        let full = self.st(li).model.clone();
        if let Some(m) = &full {
            // navigation depends on what is recorded: replay it against the model as it
            // was then
            let mut past = LineModel::new(&self.plan.lines[li].create, m.toks.clone()).ok();
            if let Some(p) = &mut past {
                p.pos = m.pos.clone();
            }
            self.st(li).model = past;
        }
        for i in done {
            let layer = &self.plan.lines[li].layers[i];
            let before = if matches!(layer, Layer::Shipped(_)) { self.snapshot(&line, layer) } else { None };
            let (r, _, log, n) = self.apply(li, line, layer, Arm::None);
            line = match r {
                Ok(l) => l,
                Err(e) => {
                    self.st(li).model = full;
                    self.unexpected(op, "rebuild", &e);
                    return None;
                }
            };
            self.grow(op, li, layer, before, &line, &log, n, false);
        }
        if full.is_some() {
            if self.is(Prop::C07) || self.is(Prop::C01) {
                let (a, b) = (full.as_ref().unwrap(), self.st(li).model.as_ref());
                if b.map(|b| b.store != a.store).unwrap_or(true) {
                    self.violate("rebuild", format!("op {}: the line made again the same way differs from the first one", op.id));
                }
            }
        }
        self.st(li).model = full;
        Some(line)
    }

    /// a new line with the same layers that nobody has looked at: every layer is run on
    /// it, and on a second line whose answers bring the model along
    fn unseen(&self, li: usize, op: &Op) -> Option<LLLine> {
        self.c().rebuilds += 1;
        let full = self.st(li).model.clone();
        let line = self.unseen_(li, full.as_ref());
        self.st(li).model = full;
        match line {
            Ok(l) => Some(l),
            Err(e) => {
                self.unexpected(op, "making the line again", &e);
                None
            }
        }
    }
    fn unseen_(&self, li: usize, full: Option<&LineModel>) -> Result<LLLine, String> {
        let done = self.st(li).layers_done.clone();
        let mut new = self.make_line(li, Arm::None).0?.0;
        if done.is_empty() {
            return Ok(new);
        }
        let mut seen = self.make_line(li, Arm::None).0?.0;
        if let Some(m) = full {
            let mut past = LineModel::new(&self.plan.lines[li].create, m.toks.clone()).ok();
            if let Some(p) = &mut past {
                p.pos = m.pos.clone();
            }
            self.st(li).model = past;
        }
        let op = Op { id: 0, task: 0, line: li, kind: OpK::Publish, fault: None };
        for i in done {
            let layer = &self.plan.lines[li].layers[i];
            new = self.apply(li, new, layer, Arm::None).0?;
            let before = if matches!(layer, Layer::Shipped(_)) { self.snapshot(&seen, layer) } else { None };
            let (r, _, log, n) = self.apply(li, seen, layer, Arm::None);
            seen = r?;
            self.grow(&op, li, layer, before, &seen, &log, n, false);
        }
        let _ = in_lib(Arm::None, || drop(seen));
        Ok(new)
    }

    #[allow(clippy::too_many_arguments)]
    fn absorb(&self, op: &Op, _i: usize, layer: &Layer, before: Option<Vec<QueryRow>>, log: &[u64], n: usize, cnt: OpCount) {
        let li = op.line;
        let st = self.st(li);
        let line = st.line.take().unwrap();
        let text = self.grow(op, li, layer, before, &line, log, n, true);
        self.st(li).line = Some(line);
        self.set(op, text, cnt);
    }

    /// update the model with what a layer did; check what the layer reported; returns the
    /// layer's result as text
    #[allow(clippy::too_many_arguments)]
    fn grow(&self, op: &Op, li: usize, layer: &Layer, before: Option<Vec<QueryRow>>, line: &LLLine, log: &[u64], n: usize, check: bool) -> String {
        let st = self.st(li);
        let ty = layer_ty(&self.plan.shared, layer);
        let after = match in_lib(Arm::None, || obs_query(line, ty)).0 {
            Ok(a) => a,
            Err(e) => {
                if check {
                    self.unexpected(op, "query", &e);
                }
                return "query panicked".into();
            }
        };
        let out = format!("{after:?}|{log:?}|{n}");
        let Some(m) = st.model.as_mut() else { return out };
        match layer {
            Layer::Script { ty, assigns, reads, .. } => {
                let a: Vec<(usize, usize, u32)> =
                    assigns.iter().filter_map(|(a, l, v)| m.resolve(*a, *l).map(|(s, e)| (s, e, *v))).collect();
                let mut want = vec![];
                for q in reads {
                    if m.n() > 0 {
                        if let Some(f) = m.find(q, 0, m.n() - 1) {
                            want.extend(f.iter().map(|x| x.2));
                        }
                    }
                }
                if check && want != log {
                    if matches!(self.plan.prop, Prop::C02 | Prop::C12 | Prop::C01 | Prop::C03) {
                        let k = if log.iter().any(|x| x & 0xFFFF_0000 == 0xDEAD_0000) { "select" } else { "layer-read" };
                        self.violate(k, format!("op {}: inside the layer the line shows {:?}, recorded was {:?}", op.id, &log[..log.len().min(12)], &want[..want.len().min(12)]));
                    }
                }
                if check {
                    self.c().assigns += a.len() as u64;
                }
                for (s, e, v) in a {
                    m.insert_v(*ty, s, e, v);
                }
            }
            Layer::Nav { steps } => {
                if m.n() == 0 {
                    return out;
                }
                let want = nav(m, steps);
                if check {
                    self.c().nav_steps += want.plan.iter().filter(|x| **x).count() as u64;
                    self.c().nav_sels += want.sels.len() as u64;
                    if want.log != log && matches!(self.plan.prop, Prop::C02 | Prop::C03) {
                        self.violate(
                            "steps",
                            format!("op {}: steps {}: reported {:?}, specified {:?}", op.id, shorten(&format!("{steps:?}")), &log[..log.len().min(16)], &want.log[..want.log.len().min(16)]),
                        );
                    }
                }
                for (k, (s, e)) in want.sels.iter().enumerate() {
                    m.insert_v(T_MARK, *s, *e, k as u32);
                }
                if check && self.is(Prop::C03) {
                    let want: Vec<QueryRow> = rows(m, T_MARK);
                    if want != after {
                        self.violate(
                            "selections",
                            format!("op {}: steps {}: the selections reached are {}", op.id, shorten(&format!("{steps:?}")), differ(&format!("{want:?}"), &format!("{after:?}"))),
                        );
                    }
                }
            }
            Layer::Shipped(k) => {
                // what it assigned is learnt; what was there must still be there
                if check {
                    self.c().shipped += 1;
                }
                let before = before.unwrap_or_default();
                let strict = check && matches!(self.plan.prop, Prop::C01 | Prop::C12);
                let mut fresh = 0usize;
                let mut bad = None;
                for (k, b) in before.iter().enumerate() {
                    match after.get(k) {
                        Some(a) if (a.0, a.1, &a.2) == (b.0, b.1, &b.2) && a.3.len() >= b.3.len() && a.3[..b.3.len()] == b.3[..] => {}
                        other => {
                            bad = Some(format!("{b:?} became {other:?}"));
                            break;
                        }
                    }
                }
                for (k, a) in after.iter().enumerate() {
                    let old = before.get(k).map_or(0, |b| b.3.len());
                    if a.0 > a.1 || a.1 >= m.n() {
                        bad = Some(format!("range {:?} outside the line", (a.0, a.1)));
                        break;
                    }
                    if a.3.is_empty() || a.2 != m.text(a.0, a.1) {
                        bad = Some(format!("{a:?}"));
                    }
                    for v in a.3.iter().skip(old) {
                        fresh += 1;
                        m.insert(ty, a.0, a.1, Val { code: v.0, dbg: v.1.clone() });
                    }
                }
                if bad.is_none() && fresh != n {
                    bad = Some(format!("{n} assignments were returned and {fresh} values were recorded"));
                }
                if let (Some(b), true) = (bad, strict) {
                    self.violate("layer", format!("op {}: running {:?}: {b}", op.id, self.plan.shared[*k]));
                }
            }
            Layer::Misuse(..) => {}
        }
        out
    }

    fn op_misuse(&self, op: &Op, kind: Misuse, m: &M, line: LLLine) {
        let li = op.line;
        let Some(model) = self.st(li).model.clone() else {
            self.st(li).line = Some(line);
            self.set(op, "no model".into(), OpCount::default());
            return;
        };
        if model.n() > 0 && model.find(m, 0, model.n() - 1).is_none() {
            self.c().skipped += 1;
            self.st(li).line = Some(line);
            return;
        }
        let c12 = self.is(Prop::C12);
        self.c().misuse[kind as usize] += 1;
        let log = MisuseLog::default();
        let text = if op.id % 2 == 0 && model.n() > 0 { model.text(0, model.n() - 1) } else { "another line, 5".to_string() };
        let text = if text.is_empty() { "x".to_string() } else { text };
        let res = MisuseRes { kind, m, text, n_toks: model.n(), variant: (op.id / 2) % 3, log: &log };
        let (r, cnt) = in_lib(Arm::None, || line.run(&res));
        if model.n() == 0 {
            // nothing to select: the layer is not even asked
            if c12 && (r.is_err() || log.tried.get()) {
                self.violate("empty-line", format!("op {}: running a layer on an empty line did something", op.id));
            }
            self.st(li).line = r.ok();
            return;
        }
        let must_panic = kind != Misuse::CrossLine;
        if c12 {
            match kind {
                Misuse::CrossLine => {
                    if !log.refused.get() {
                        self.violate("cross-line", format!("op {}: selections of two lines were combined", op.id));
                    }
                }
                _ if r.is_ok() => {
                    self.violate("not-refused", format!("op {}: {kind:?} was not refused", op.id));
                }
                _ => {}
            }
        }
        if kind == Misuse::KeepSelection {
            // the kept selection still shows the line as it was
            let kept = std::mem::take(&mut *log.kept.borrow_mut());
            for (k, s) in kept.iter().enumerate() {
                let (got, _) = in_lib(Arm::None, || {
                    let a = s.find_by(&R(m));
                    let mk = s.find_by(&x::attr::<V<4>>());
                    let tg = s.find_by(&x::attr::<TextTag>());
                    let tx = s.find_by(&x::token_text());
                    quiet(|| {
                        (
                            a.iter().map(|x| x.1).collect::<Vec<u64>>(),
                            mk.iter().map(|x| x.1.code()).collect::<Vec<_>>(),
                            tg.iter().map(|x| x.1.code()).collect::<Vec<_>>(),
                            tx.iter().map(|x| x.1.to_string()).collect::<Vec<_>>(),
                        )
                    })
                });
                let (s0, e0) = if k == 0 {
                    (0, model.n() - 1)
                } else {
                    let f = model.find(m, 0, model.n() - 1).unwrap();
                    match f.first() {
                        Some(f) => (f.0, f.1),
                        None => (0, model.n() - 1),
                    }
                };
                let codes = |ty: Ty| -> Vec<u64> {
                    (s0..=e0).flat_map(|i| model.eval(&M::Attr(ty), i, true).unwrap_or_default()).map(|x| x.0).collect()
                };
                let want_a: Option<Vec<u64>> = model.find(m, s0, e0).map(|f| f.iter().map(|x| x.2).collect());
                match got {
                    Ok((a, mk, tg, tx)) => {
                        let mk: Vec<u64> = mk.into_iter().map(d_attr).collect();
                        let tg: Vec<u64> = tg.into_iter().map(d_attr).collect();
                        let wtx: Vec<String> = (s0..=e0).filter_map(|i| model.toks[i].text.clone()).collect();
                        if c12 && (want_a.map_or(false, |w| w != a) || mk != codes(T_MARK) || tg != codes(T_TAG) || tx != wtx) {
                            self.violate("snapshot", format!("op {}: a kept selection no longer shows the line as it was when its layer started", op.id));
                        }
                    }
                    Err(e) => {
                        if c12 {
                            self.violate("snapshot", format!("op {}: using a kept selection panicked: {e}", op.id));
                        }
                    }
                }
            }
            in_lib(Arm::None, || drop(kept)).0.ok();
        }
        self.set(op, format!("{kind:?} refused={}", r.is_err()), cnt);
        match r {
            Ok(l) if !must_panic => {
                self.st(li).line = Some(l);
                if c12 {
                    self.check_all(op, "after a refused combination");
                }
            }
            Ok(l) => {
                // not refused: continue with the line as it should have been
                in_lib(Arm::None, || drop(l)).0.ok();
                self.st(li).line = self.rebuild(li, op);
            }
            Err(_) => {
                self.st(li).line = self.rebuild(li, op);
                if c12 {
                    self.check_all(op, "after a refusal and rebuild");
                }
            }
        }
    }

    // --- reading

    fn op_read(&self, op: &Op, read: &Read, arm: Arm, shared: bool) {
        let st = self.st(op.line);
        let arc;
        let line: &LLLine = if shared {
            match &st.shared {
                Some(a) => {
                    arc = a.clone();
                    &arc.0
                }
                None => {
                    self.set(op, "no line".into(), OpCount::default());
                    return;
                }
            }
        } else {
            match &st.line {
                Some(l) => l,
                None => {
                    self.set(op, "no line".into(), OpCount::default());
                    return;
                }
            }
        };
        let model = st.model.as_ref();
        if matches!(read, Read::Display { .. }) && no_display(&self.plan.lines[op.line].create) {
            self.c().skipped += 1;
            self.set(op, "skipped".into(), OpCount::default());
            return;
        }
        if let (Read::Find(m), Some(md)) = (read, model) {
            if md.n() > 0 && md.find(m, 0, md.n() - 1).is_none() {
                self.c().skipped += 1;
                self.set(op, "skipped".into(), OpCount::default());
                return;
            }
        }
        let go = |arm: Arm| -> (Result<String, String>, OpCount) {
            match read {
                Read::Tokens => in_lib(arm, || {
                    let t = obs_tokens(line);
                    quiet(|| format!("{t:?}"))
                }),
                Read::Query(ts) => in_lib(arm, || {
                    let mut s = String::new();
                    for t in ts {
                        let q = obs_query(line, *t);
                        quiet(|| write!(s, "{t}:{q:?};").unwrap());
                    }
                    s
                }),
                Read::Find(m) => in_lib(arm, || {
                    let f = obs_find(line, m);
                    quiet(|| format!("{f:?}"))
                }),
                Read::Display { types, via, .. } => in_lib(arm, || obs_display(line, types, *via).to_string()),
            }
        };
        let (mut r, mut cnt) = go(arm);
        self.fired(&cnt);
        let mut attempts = 1;
        if cnt.fired > 0 && r.is_err() {
            let first = cnt.fired;
            while attempts < self.plan.repeat_fail {
                let (_, c) = go(arm);
                self.fired(&c);
                attempts += 1;
            }
            (r, cnt) = go(Arm::None);
            cnt.fired = first;
            attempts += 1;
        }
        self.res(op.id).attempts = attempts;
        let text = match r {
            Ok(t) => t,
            Err(e) => {
                self.unexpected(op, "read", &format!("{e}; {}", shorten(&format!("{read:?}"))));
                return;
            }
        };
        match read {
            Read::Tokens => {}
            Read::Query(_) => self.c().queries += 1,
            Read::Find(_) => self.c().finds += 1,
            Read::Display { .. } => self.c().renders += 1,
        }
        if let Some(m) = model {
            let want = match read {
                Read::Tokens => Some(format!("{:?}", m.toks)),
                Read::Query(ts) => {
                    let mut s = String::new();
                    for t in ts {
                        write!(s, "{t}:{:?};", rows(m, *t)).unwrap();
                    }
                    Some(s)
                }
                Read::Find(k) => self.want_find(m, k).map(|f| format!("{f:?}")),
                Read::Display { types, .. } => Some(m.render(types)),
            };
            let mine = match read {
                Read::Query(_) => matches!(self.plan.prop, Prop::C01 | Prop::C02 | Prop::C12 | Prop::C08),
                Read::Tokens => matches!(self.plan.prop, Prop::C02 | Prop::C11 | Prop::C12),
                Read::Find(_) => matches!(self.plan.prop, Prop::C02 | Prop::C12),
                Read::Display { .. } => matches!(self.plan.prop, Prop::C02 | Prop::C09),
            };
            if let (Some(w), true) = (want, mine) {
                if w != text {
                    let k = match read {
                        Read::Query(_) => "query",
                        Read::Tokens => "tokens",
                        Read::Find(_) => "find",
                        Read::Display { .. } => "display",
                    };
                    self.violate(k, format!("op {}: {}: {}", op.id, shorten(&format!("{read:?}")), differ(&w, &text)));
                }
            }
        }
        if let Read::Display { types, via, sink } = read {
            if !matches!(sink, Sink::Text) {
                self.render_fault(op, line, types, *via, sink, &text);
            }
        }
        self.set(op, text, cnt);
    }

    fn render_fault(&self, op: &Op, line: &LLLine, types: &[Ty], via: u8, sink: &Sink, full: &str) {
        let k = match sink {
            Sink::Text => 0,
            Sink::FmtErrAt(_) => 1,
            Sink::FmtErrCall(_) => 2,
            Sink::IoShort(_) => 3,
            Sink::IoErrAt(..) => 4,
            Sink::IoZeroAt(..) => 5,
            Sink::FmtOnce(_) => 6,
            Sink::IoOnce(..) => 7,
        };
        self.c().sinks[k] += 1;
        let c09 = self.is(Prop::C09) || self.is(Prop::C07);
        let (r, _) = in_lib(Arm::None, || {
            let d = obs_display(line, types, via);
            let first = render_into(&d, sink, full.len());
            // the prepared rendering is still good, and so is the line
            let again = d.to_string();
            let third = obs_display(line, types, via ^ 1).to_string();
            (first, again, third)
        });
        match r {
            Err(e) => {
                if c09 {
                    self.violate("sink-panic", format!("op {}: rendering into a failing sink ({}) panicked: {e}", op.id, sink_name(sink)));
                }
            }
            Ok(((got, ok, refused), again, third)) => {
                if refused {
                    self.c().sink_refused += 1;
                }
                if !c09 {
                    return;
                }
                if !full.as_bytes().starts_with(&got) {
                    self.violate("not-a-prefix", format!("op {}: {}: delivered bytes are not a prefix of the rendering: {}", op.id, sink_name(sink), differ(full, &String::from_utf8_lossy(&got))));
                }
                let complete = got == full.as_bytes();
                // a sink that refused something and has got everything all the same may be
                // reported either way
                if (ok && !complete) || (!ok && complete && !refused) {
                    self.violate("wrong-report", format!("op {}: {}: delivered {} of {} bytes, reported {}", op.id, sink_name(sink), got.len(), full.len(), if ok { "success" } else { "failure" }));
                }
                if again != full || third != full {
                    self.violate("re-render", format!("op {}: after {}: {}", op.id, sink_name(sink), differ(full, if again != full { &again } else { &third })));
                }
            }
        }
    }

    fn op_drop(&self, op: &Op) {
        let li = op.line;
        let nodisp = no_display(&self.plan.lines[li].create);
        // one last look at everything
        let st = self.st(li);
        if self.plan.observe >> ((li + 11) % 29) & 3 == 0 && st.line.is_some() {
            if let Some(l) = self.unseen(li, op) {
                let old = st.line.replace(l);
                let _ = in_lib(Arm::None, || drop(old));
            }
        }
        let view = {
            let line: Option<&LLLine> = st.line.as_ref().or(st.shared.as_ref().map(|a| &a.0));
            line.and_then(|line| {
                let (r, cnt) = in_lib(Arm::None, || {
                    let mut v: Vec<(String, String)> = vec![];
                    for t in 0..N_TY {
                        let q = obs_query(line, t);
                        if q.is_empty() {
                            continue;
                        }
                        let f = obs_find(line, &M::Attr(t));
                        let d = if nodisp { String::new() } else { obs_display(line, &[t], 0).to_string() };
                        quiet(|| {
                            v.push((format!("query of {}", TY_NAMES[t]), format!("{q:?}")));
                            v.push((format!("find of {}", TY_NAMES[t]), format!("{f:?}")));
                            v.push((format!("display of {}", TY_NAMES[t]), d));
                        });
                    }
                    v
                });
                match r {
                    Ok(v) => Some((v, cnt)),
                    Err(e) => {
                        self.unexpected(op, "final read", &e);
                        None
                    }
                }
            })
        };
        if let Some((v, cnt)) = view {
            self.set(op, format!("{v:?}"), cnt);
            st.view = Some(v);
            if matches!(self.plan.prop, Prop::C01 | Prop::C02 | Prop::C12 | Prop::C08) {
                self.check_all(op, "at the end");
            }
        }
        let mut line = st.line.take();
        let mut shared = st.shared.take();
        if let Some(a) = shared.take() {
            match Arc::try_unwrap(a) {
                Ok(l) => line = Some(l.0),
                Err(a) => shared = Some(a),
            }
        }
        if line.is_some() && !nodisp && matches!(self.plan.prop, Prop::C02 | Prop::C04 | Prop::C05 | Prop::C06 | Prop::C07 | Prop::C10) {
            line = self.probe(op, line.unwrap());
        }
        if let Some(l) = line.take() {
            line = self.wide(op, l);
        }
        let (r, _) = in_lib(Arm::None, || {
            drop(line);
            drop(shared);
        });
        if let Err(e) = r {
            self.unexpected(op, "drop", &e);
        }
        st.model = None;
    }

    /// everything recorded, seen from a layer in both directions
    fn probe(&self, op: &Op, line: LLLine) -> Option<LLLine> {
        let st = self.st(op.line);
        let types: Vec<Ty> = {
            let v = st.view.as_ref()?;
            (0..N_TY).filter(|t| v.iter().any(|x| x.0.strip_prefix("query of ") == Some(TY_NAMES[*t]))).collect()
        };
        let log = RefCell::new(Vec::<u64>::new());
        let res = ProbeRes { types: &types, log: &log };
        let (r, _) = in_lib(Arm::None, || line.run(&res));
        let line = match r {
            Ok(l) => l,
            Err(e) => {
                self.unexpected(op, "final layer", &e);
                return None;
            }
        };
        let log = log.into_inner();
        let (q, _) = in_lib(Arm::None, || obs_query(&line, T_MARK));
        let Ok(got) = q else {
            self.unexpected(op, "final layer", &q.unwrap_err());
            return None;
        };
        if let (true, Some(m)) = (self.is(Prop::C02), &mut st.model) {
            let mut want = vec![];
            for t in &types {
                for i in 0..m.n() {
                    for fwd in [true, false] {
                        for (d, j) in m.eval(&M::Attr(*t), i, fwd).unwrap_or_default() {
                            want.push((if fwd { (i, j) } else { (j, i) }, d));
                        }
                    }
                }
            }
            want.truncate(PROBE_CAP);
            for (k, ((a, b), _)) in want.iter().enumerate() {
                m.insert_v(T_MARK, *a, *b, k as u32);
            }
            let (wd, want) = (want.iter().map(|w| w.1).collect::<Vec<_>>(), rows(m, T_MARK));
            self.c().finds += 1;
            if wd != log || want != got {
                self.violate(
                    "both-ways",
                    format!("op {}: at the end, everything found both ways from a layer: {}", op.id, differ(&format!("{want:?} {wd:?}"), &format!("{got:?} {log:?}"))),
                );
            }
        }
        let h = format!("{got:?} {log:?}");
        st.view.as_mut().unwrap().push(("found both ways".into(), h.clone()));
        let r = self.res(op.id);
        r.hash = mix(r.hash, hash_str(&h));
        Some(line)
    }

    /// one run in so many: a good many layers more, each recording a type of its own
    fn wide(&self, op: &Op, line: LLLine) -> Option<LLLine> {
        let mut r = Rng::new(mix(self.plan.seed, op.id as u64), 0x51DE);
        let share = if self.is(Prop::C01) || self.is(Prop::C02) { 8 } else { 24 };
        if !r.chance(1, share) || self.res(op.id).panicked {
            return Some(line);
        }
        let texts: Vec<usize> =
            line.ll_tokens().iter().enumerate().filter(|(_, t)| matches!(t.get_token(), LToken::Text(..))).map(|x| x.0).collect();
        if texts.is_empty() || line.ll_tokens().len() > 60 {
            return Some(line);
        }
        let pos: Vec<(usize, usize)> = line.find(&x::token_text()).iter().map(|f| f.range()).collect();
        if pos.len() != texts.len() {
            self.violate("many-types", format!("op {}: {} text tokens, {} found", op.id, texts.len(), pos.len()));
            return Some(line);
        }
        let n = r.range(2, WIDE as u64) as usize;
        let first = r.below(WIDE as u64) as usize;
        // mostly the same few ranges, so that many types meet at one of them
        let ranges: Vec<(usize, usize)> = (0..r.range(1, 3))
            .map(|_| {
                let a = r.below(texts.len() as u64) as usize;
                (a, r.range(a as u64, texts.len() as u64 - 1) as usize)
            })
            .collect();
        let n = if r.chance(1, 10) { r.range(200, 300) as usize } else { n };
        let todo: Vec<(usize, (usize, usize), Vec<u32>)> = (0..n)
            .map(|i| ((first + i) % WIDE, *r.pick(&ranges), (0..r.range(1, 3)).map(|j| (i * 10) as u32 + j as u32).collect()))
            .collect();
        let before: Vec<String> = {
            let (q, _) = in_lib(Arm::None, || (0..N_TY).map(|t| obs_query(&line, t)).collect::<Vec<_>>());
            q.unwrap_or_default().iter().map(|q| format!("{q:?}")).collect()
        };
        let (l, _) = in_lib(Arm::None, || todo.iter().fold(line, |l, (k, at, vals)| (WIDE_FNS[*k].0)(l, *at, vals)));
        let line = match l {
            Ok(l) => l,
            Err(e) => {
                self.unexpected(op, "one of many layers", &e);
                return None;
            }
        };
        self.c().layers += n as u64;
        let (seen, _) = in_lib(Arm::None, || {
            (
                (0..WIDE).map(|k| (WIDE_FNS[k].1)(&line)).collect::<Vec<_>>(),
                (0..N_TY).map(|t| obs_query(&line, t)).collect::<Vec<_>>(),
            )
        });
        let (wide, after) = match seen {
            Ok(x) => x,
            Err(e) => {
                self.unexpected(op, "reading many types", &e);
                return None;
            }
        };
        self.c().queries += (WIDE + N_TY) as u64;
        for (k, got) in wide.iter().enumerate() {
            let mut q: Vec<WideRow> = vec![];
            for (_, (a, b), vals) in todo.iter().filter(|t| t.0 == k) {
                let at = (texts[*a], texts[*b]);
                match q.iter_mut().find(|x| (x.0, x.1) == at) {
                    Some(x) => x.2.extend(vals),
                    None => q.push((at.0, at.1, vals.clone())),
                }
            }
            let place = |i: usize| pos[texts.iter().position(|t| *t == i).unwrap()];
            let mut f: Vec<(usize, (usize, usize, u32))> = vec![];
            for x in &q {
                f.extend(x.2.iter().map(|v| (x.0, (place(x.0).0, place(x.1).1, *v))));
            }
            f.sort_by_key(|x| x.0);
            let want: WideSeen = (q, f.into_iter().map(|x| x.1).collect());
            if *got != want {
                self.violate("many-types", format!("op {}: after {n} layers of different types, type {k}: {}", op.id, differ(&format!("{want:?}"), &format!("{got:?}"))));
                break;
            }
        }
        for (t, q) in after.iter().enumerate() {
            let got = format!("{q:?}");
            if before.get(t) != Some(&got) {
                self.violate("many-types", format!("op {}: after {n} layers of different types, query of {}: {}", op.id, TY_NAMES[t], differ(&before[t], &got)));
                break;
            }
        }
        Some(line)
    }

    /// C01: the line reports exactly what the model says, for every type
    fn check_all(&self, op: &Op, when: &str) {
        let st = self.st(op.line);
        let line: Option<&LLLine> = st.line.as_ref().or(st.shared.as_ref().map(|a| &a.0));
        let (Some(line), Some(m)) = (line, st.model.as_ref()) else { return };
        for t in 0..N_TY {
            let (r, _) = in_lib(Arm::None, || obs_query(line, t));
            self.c().queries += 1;
            match r {
                Ok(got) => {
                    let want = rows(m, t);
                    if got != want {
                        self.violate("query", format!("op {}: {when}, query of {}: {}", op.id, TY_NAMES[t], differ(&format!("{want:?}"), &format!("{got:?}"))));
                        return;
                    }
                }
                Err(e) => {
                    self.unexpected(op, "query", &e);
                    return;
                }
            }
        }
    }

    /// C08, one caller: between operations exactly the recorded values are alive
    fn check_live(&self, op: &Op) {
        let mut want = self.base_live as usize;
        for l in 0..self.lines.len() {
            let st = self.st(l);
            if st.line.is_some() || st.shared.is_some() {
                match &st.model {
                    Some(m) => want += m.tracked(),
                    None => return,
                }
            }
        }
        let got = ledger_live() as usize;
        if got != want {
            self.violate("alive", format!("op {}: {} attribute values are alive, {} are recorded on living lines", op.id, got, want));
        }
    }

    pub fn twins(&self) {
        for (a, b) in &self.plan.twins {
            let (va, vb) = (&self.st(*a).view, &self.st(*b).view);
            if let (Some(va), Some(vb)) = (va, vb) {
                self.c().twins += 1;
                if va != vb {
                    let k = va.iter().zip(vb.iter()).position(|(x, y)| x != y).unwrap_or(va.len().min(vb.len()));
                    let e = (String::from("(nothing)"), String::new());
                    let (x, y) = (va.get(k).unwrap_or(&e), vb.get(k).unwrap_or(&e));
                    self.violate(
                        "order",
                        format!("lines {a} and {b}, same layers in another order: {} vs {}: {}", x.0, y.0, differ(&x.1, &y.1)),
                    );
                }
            }
        }
    }
}

pub fn rows(m: &LineModel, ty: Ty) -> Vec<QueryRow> {
    m.store[ty]
        .iter()
        .map(|e| (e.s, e.e, m.text(e.s, e.e), e.vals.iter().map(|v| (v.code, v.dbg.clone())).collect()))
        .collect()
}

// ------------------------------------------------------------------ Send / Sync

struct Probe<T>(std::marker::PhantomData<T>);
trait NoSend {
    const SEND: bool = false;
}
trait NoSync {
    const SYNC: bool = false;
}
impl<T> NoSend for Probe<T> {}
impl<T> NoSync for Probe<T> {}
#[allow(dead_code)]
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
/// What the types promise about threads, found out at compile time without relying on it.
pub fn thread_promises() -> Vec<(&'static str, bool, bool)> {
    vec![
        ("LLLine", Probe::<LLLine>::SEND, Probe::<LLLine>::SYNC),
        ("TextMatchAssignResolver", Probe::<TextMatchAssignResolver<V<0>>>::SEND, Probe::<TextMatchAssignResolver<V<0>>>::SYNC),
        ("AmountResolver", Probe::<AmountResolver>::SEND, Probe::<AmountResolver>::SYNC),
        ("ClauseKeywordResolver", Probe::<ClauseKeywordResolver>::SEND, Probe::<ClauseKeywordResolver>::SYNC),
        ("ClauseResolver", Probe::<ClauseResolver>::SEND, Probe::<ClauseResolver>::SYNC),
        ("POSTagResolver", Probe::<POSTagResolver>::SEND, Probe::<POSTagResolver>::SYNC),
    ]
}
