//! The small executable reference model: a line is a list of tokens plus, per
//! attribute type, a flat list of (range, values) in the order they were recorded.
//! Nothing in here calls the library.
use std::cell::Cell;
use crate::plan::*;
use crate::vals::*;
use simrt::mix;
use unicode_width::UnicodeWidthStr;

#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub code: u64,
    pub dbg: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub s: usize,
    pub e: usize,
    pub vals: Vec<Val>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub text: Option<String>,
    pub tag: u64,
}
/// How a single token can be selected through the public API.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Addr {
    /// the k-th text token of the line
    Text(usize),
    /// the k-th token carrying a `Cid`
    Cid(usize),
    None,
}
#[derive(Clone, Debug)]
pub struct LineModel {
    pub toks: Vec<Tok>,
    /// observed positions (None where not observed)
    pub pos: Vec<Option<(usize, usize)>>,
    pub addr: Vec<Addr>,
    /// addressable token indexes
    pub adr: Vec<usize>,
    pub inputs: Vec<(usize, usize)>,
    pub store: Vec<Vec<Ent>>,
    by_s: Vec<Vec<Vec<u32>>>,
    by_e: Vec<Vec<Vec<u32>>>,
}

pub const MATCH_BUDGET: usize = 4000;
pub const WORK_BUDGET: u64 = 500_000;

pub fn d_attr(code: u64) -> u64 {
    mix(0x11, code)
}
pub const D_EQ: u64 = 0x22;
pub fn d_any(code: u64) -> u64 {
    mix(0x33, code)
}
pub fn d_text(s: &str) -> u64 {
    mix(0x44, hash_str(s))
}
pub fn d_seq2(a: u64, b: u64) -> u64 {
    mix(mix(0x55, a), b)
}
pub fn d_seq3(a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(0x66, a), b), c)
}
pub fn d_all2(a: u64, b: u64) -> u64 {
    mix(mix(0x77, a), b)
}
pub fn d_all3(a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(0x88, a), b), c)
}
pub fn d_alt(which: u64, a: u64) -> u64 {
    mix(mix(0x99, which), a)
}

impl LineModel {
    /// Builds the model of a new line from its observed tokens; `Err` when the tokens do
    /// not spell the input.
    pub fn new(c: &Create, toks: Vec<Tok>) -> Result<LineModel, String> {
        let n = toks.len();
        let mut m = LineModel {
            pos: vec![None; n],
            addr: vec![Addr::None; n],
            adr: vec![],
            inputs: vec![],
            store: vec![Vec::new(); N_TY],
            by_s: vec![vec![Vec::new(); n]; N_TY],
            by_e: vec![vec![Vec::new(); n]; N_TY],
            toks,
        };
        // which tokens came from which input token
        let mut at = 0;
        for (k, inp) in c.inputs.iter().enumerate() {
            let from = at;
            match inp {
                In::Custom(..) => {
                    if m.toks.get(at).map(|t| t.text.is_none()) != Some(true) {
                        return Err(format!("input token {k} (custom) has no token at index {at}"));
                    }
                    at += 1;
                }
                In::Text(t, _) => {
                    let mut got = String::new();
                    while got.len() < t.len() {
                        match m.toks.get(at).and_then(|t| t.text.as_ref()) {
                            Some(x) if !x.is_empty() => got.push_str(x),
                            _ => return Err(format!("tokens spell {got:?} where input token {k} is {t:?}")),
                        }
                        at += 1;
                    }
                    if got != *t {
                        return Err(format!("tokens spell {got:?} where input token {k} is {t:?}"));
                    }
                }
            }
            m.inputs.push((from, at - 1));
        }
        if at != n {
            return Err(format!("{} tokens more than the input accounts for", n - at));
        }
        // automatic attributes
        let mut k_text = 0;
        for i in 0..n {
            if let Some(t) = m.toks[i].text.clone() {
                m.addr[i] = Addr::Text(k_text);
                k_text += 1;
                let mut cs = t.chars();
                if let (Some(ch), None) = (cs.next(), cs.next()) {
                    m.insert(T_CHAR, i, i, Val { code: ch as u64, dbg: format!("{ch:?}") });
                }
                let tag = m.toks[i].tag;
                m.insert(T_TAG, i, i, Val { code: tag, dbg: TAG_NAMES[tag as usize % 5].into() });
            }
        }
        // attributes supplied with the input
        let mut k_cid = 0;
        for (k, inp) in c.inputs.iter().enumerate() {
            let (f, t) = m.inputs[k];
            let (In::Text(_, a) | In::Custom(_, a)) = inp;
            for (ty, v) in a {
                m.insert_v(*ty, f, t, *v);
                if *ty == T_CID {
                    m.addr[f] = Addr::Cid(k_cid);
                    k_cid += 1;
                }
            }
        }
        m.adr = (0..n).filter(|&i| m.addr[i] != Addr::None).collect();
        Ok(m)
    }

    pub fn n(&self) -> usize {
        self.toks.len()
    }
    pub fn insert(&mut self, ty: Ty, s: usize, e: usize, v: Val) {
        let hit = self.by_s[ty][s].iter().copied().find(|&i| self.store[ty][i as usize].e == e);
        match hit {
            Some(i) => self.store[ty][i as usize].vals.push(v),
            None => {
                let i = self.store[ty].len() as u32;
                self.store[ty].push(Ent { s, e, vals: vec![v] });
                self.by_s[ty][s].push(i);
                self.by_e[ty][e].push(i);
            }
        }
    }
    pub fn insert_v(&mut self, ty: Ty, s: usize, e: usize, v: u32) {
        let (code, dbg) = expect_val(ty, v);
        self.insert(ty, s, e, Val { code, dbg });
    }
    pub fn text(&self, s: usize, e: usize) -> String {
        self.toks[s..=e].iter().filter_map(|t| t.text.as_deref()).collect()
    }
    /// live values of tracked types
    pub fn tracked(&self) -> usize {
        (0..N_TY).filter(|&t| is_tracked(t)).map(|t| self.store[t].iter().map(|e| e.vals.len()).sum::<usize>()).sum()
    }
    /// a concrete range for a generated one; both ends can be selected on their own
    pub fn resolve(&self, a: u32, len: u32) -> Option<(usize, usize)> {
        let k = self.adr.len();
        if k == 0 {
            return None;
        }
        let i = a as usize % k;
        let j = (i + len as usize).min(k - 1);
        Some((self.adr[i], self.adr[j]))
    }

    fn rng(&self, ty: Ty, from: usize, fwd: bool) -> impl Iterator<Item = &Ent> {
        let l = if fwd { &self.by_s[ty][from] } else { &self.by_e[ty][from] };
        l.iter().map(move |&i| &self.store[ty][i as usize])
    }
    fn next(&self, to: usize, fwd: bool) -> Option<usize> {
        if fwd {
            Some(to + 1).filter(|&x| x < self.n())
        } else {
            to.checked_sub(1)
        }
    }

    /// What a matcher reports from token `from` in one direction; None: too many results
    /// to be worth the time (the operation is then skipped everywhere).
    pub fn eval(&self, m: &M, from: usize, fwd: bool) -> Option<Vec<(u64, usize)>> {
        self.ev(m, from, fwd, &Cell::new(0))
    }

    /// What a naive evaluation of the matcher costs, which may evaluate the later parts of a
    /// composite once per result of the earlier ones.
    fn spend(&self, w: &Cell<u64>, n: u64) -> Option<()> {
        w.set(w.get().saturating_add(n));
        (w.get() <= WORK_BUDGET + 20 * self.n() as u64).then_some(())
    }

    fn ev(&self, m: &M, from: usize, fwd: bool, w: &Cell<u64>) -> Option<Vec<(u64, usize)>> {
        let mut out: Vec<(u64, usize)> = Vec::new();
        self.spend(w, 1)?;
        match m {
            M::Attr(t) => {
                for e in self.rng(*t, from, fwd) {
                    self.spend(w, e.vals.len() as u64)?;
                    for v in &e.vals {
                        out.push((d_attr(v.code), if fwd { e.e } else { e.s }));
                    }
                }
            }
            M::Eq(t, v) => {
                let want = expect_val(*t, *v).0;
                for e in self.rng(*t, from, fwd) {
                    self.spend(w, e.vals.len() as u64)?;
                    for v in &e.vals {
                        if same(*t, v.code, want) {
                            out.push((D_EQ, if fwd { e.e } else { e.s }));
                        }
                    }
                }
            }
            M::Any(t, vs) => {
                let want: Vec<u64> = vs.iter().map(|v| expect_val(*t, *v).0).collect();
                for e in self.rng(*t, from, fwd).filter(|e| e.s == e.e) {
                    self.spend(w, e.vals.len() as u64)?;
                    for v in &e.vals {
                        if want.iter().any(|w| same(*t, *w, v.code)) {
                            out.push((d_any(v.code), from));
                        }
                    }
                }
            }
            M::Text => {
                if let Some(t) = &self.toks[from].text {
                    out.push((d_text(t), from));
                }
            }
            M::Ws => {
                for e in self.rng(T_TAG, from, fwd) {
                    self.spend(w, e.vals.len() as u64)?;
                    for v in &e.vals {
                        if v.code == 3 {
                            out.push((D_EQ, if fwd { e.e } else { e.s }));
                        }
                    }
                }
            }
            M::Seq2(a, b) => {
                for (x, i) in self.ev(a, from, fwd, w)? {
                    if let Some(f) = self.next(i, fwd) {
                        for (y, j) in self.ev(b, f, fwd, w)? {
                            out.push((d_seq2(x, y), j));
                        }
                    }
                    if out.len() > MATCH_BUDGET {
                        return None;
                    }
                }
            }
            M::Seq3(a, b, c) => {
                for (x, i) in self.ev(a, from, fwd, w)? {
                    let Some(f) = self.next(i, fwd) else { continue };
                    for (y, j) in self.ev(b, f, fwd, w)? {
                        let Some(g) = self.next(j, fwd) else { continue };
                        for (z, k) in self.ev(c, g, fwd, w)? {
                            out.push((d_seq3(x, y, z), k));
                        }
                        if out.len() > MATCH_BUDGET {
                            return None;
                        }
                    }
                }
            }
            M::All2(a, b) => {
                let w0 = w.get();
                let bs = self.ev(b, from, fwd, w)?;
                let wb = w.get() - w0;
                let xs = self.ev(a, from, fwd, w)?;
                self.spend(w, xs.len() as u64 * (wb + bs.len() as u64))?;
                for (x, i) in xs {
                    for (y, j) in &bs {
                        if i == *j {
                            out.push((d_all2(x, *y), i));
                        }
                    }
                    if out.len() > MATCH_BUDGET {
                        return None;
                    }
                }
            }
            M::All3(a, b, c) => {
                let w0 = w.get();
                let bs = self.ev(b, from, fwd, w)?;
                let w1 = w.get();
                let cs = self.ev(c, from, fwd, w)?;
                let (wb, wc) = (w1 - w0, w.get() - w1);
                let xs = self.ev(a, from, fwd, w)?;
                let (nb, nc) = (bs.len() as u64, cs.len() as u64);
                self.spend(w, (xs.len() as u64).saturating_mul(wb + nb.saturating_mul(wc + nc)))?;
                for (x, i) in xs {
                    for (y, j) in &bs {
                        for (z, k) in &cs {
                            if i == *j && i == *k {
                                out.push((d_all3(x, *y, *z), i));
                            }
                        }
                        if out.len() > MATCH_BUDGET {
                            return None;
                        }
                    }
                }
            }
            M::Or2(a, b) => {
                for (k, m) in [a, b].into_iter().enumerate() {
                    let r = self.ev(m, from, fwd, w)?;
                    if !r.is_empty() {
                        out = r.into_iter().map(|(x, i)| (d_alt(k as u64, x), i)).collect();
                        break;
                    }
                }
            }
            M::Or3(a, b, c) => {
                for (k, m) in [a, b, c].into_iter().enumerate() {
                    let r = self.ev(m, from, fwd, w)?;
                    if !r.is_empty() {
                        out = r.into_iter().map(|(x, i)| (d_alt(k as u64, x), i)).collect();
                        break;
                    }
                }
            }
        }
        if out.len() > MATCH_BUDGET {
            return None;
        }
        Some(out)
    }

    /// every match starting in s..=e, as (start, end, digest)
    pub fn find(&self, m: &M, s: usize, e: usize) -> Option<Vec<(usize, usize, u64)>> {
        let mut out = vec![];
        let w = Cell::new(0);
        for i in s..=e {
            for (d, j) in self.ev(m, i, true, &w)? {
                out.push((i, j, d));
            }
            if out.len() > 8 * MATCH_BUDGET {
                return None;
            }
        }
        Some(out)
    }

    pub fn render(&self, types: &[Ty]) -> String {
        let mut line = String::new();
        let (mut st, mut en) = (vec![], vec![]);
        for (i, t) in self.toks.iter().enumerate() {
            if i > 0 {
                line.push_str("  ");
            }
            st.push(UnicodeWidthStr::width(&*line));
            line.push_str(t.text.as_deref().unwrap_or("<>"));
            en.push(UnicodeWidthStr::width(&*line));
        }
        let mut out = line;
        for &ty in types {
            for e in &self.store[ty] {
                for v in e.vals.iter().rev() {
                    let (a, b) = (st[e.s], en[e.e]);
                    out.push('\n');
                    out.extend(std::iter::repeat(' ').take(a));
                    out.push('╰');
                    out.extend(std::iter::repeat('─').take(b.saturating_sub(1).saturating_sub(a + 1)));
                    if b - a > 1 {
                        out.push('╯');
                    }
                    out.push_str(&v.dbg);
                }
            }
        }
        out
    }
}

// ------------------------------------------------------------------ selections

pub type Sel = (usize, usize);
pub const NAV_CAP: usize = 40;
/// the step that selects some tokens of the line
pub const PART: u8 = 15;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct NavOut {
    /// selections visited, in order
    pub sels: Vec<Sel>,
    /// per step: whether it was executed, and the digests reported
    pub log: Vec<u64>,
    /// how many steps are to be executed (the rest would be unspecified or too large)
    pub plan: Vec<bool>,
    /// the tokens of the steps that select a part of the line
    pub parts: Vec<Option<Sel>>,
}
/// Which of `n` selections a step takes: any, or one of the latest.
pub fn choose(pick: u32, n: usize) -> usize {
    if pick & 0x4000_0000 != 0 {
        n - 1 - pick as usize % n.min(4)
    } else {
        pick as usize % n
    }
}

/// What a chain of selection steps gives.
pub fn nav(l: &LineModel, steps: &[NavStep]) -> NavOut {
    let mut o = NavOut::default();
    let last = l.n() - 1;
    o.sels.push((0, last));
    for st in steps {
        let cur = o.sels[choose(st.pick, o.sels.len())];
        let other = o.sels[choose(st.other, o.sels.len())];
        let part = if st.op == PART { l.resolve(st.pick, [0, 1, 2, 3, 5, 9][st.other as usize % 6]) } else { None };
        o.parts.push(part);
        if st.op == PART {
            o.plan.push(part.is_some());
            if let Some(p) = part {
                o.log.extend([mix(0x57E9, 0), mix(0x57EA, 1)]);
                o.sels.push(p);
            }
            continue;
        }
        match nav_step(l, st, cur, other) {
            None => o.plan.push(false),
            Some((sels, log)) => {
                o.plan.push(true);
                o.log.push(mix(0x57E9, log.len() as u64));
                o.log.extend(log);
                o.log.push(mix(0x57EA, sels.len() as u64));
                for s in sels.into_iter().take(NAV_CAP) {
                    o.sels.push(s);
                }
            }
        }
    }
    o
}

fn clip(a: usize, b: usize, cur: Sel) -> Option<Sel> {
    let (a, b) = (a.max(cur.0), b.min(cur.1));
    (a <= b).then_some((a, b))
}

/// One step: the selections it yields and the digests it reports.
fn nav_step(l: &LineModel, st: &NavStep, cur: Sel, other: Sel) -> Option<(Vec<Sel>, Vec<u64>)> {
    let (s, e) = cur;
    let last = l.n() - 1;
    let m = &st.m;
    let mut sels = vec![];
    let mut log = vec![];
    match st.op {
        0 | 1 => {
            for (a, b, d) in l.find(m, s, e)? {
                sels.push((a, b));
                log.push(d);
            }
            if st.op == 1 {
                sels.truncate(1);
                log.truncate(1);
            }
        }
        2 => {
            for i in s..=e {
                for (d, j) in l.eval(m, i, true)? {
                    sels.push((i, j));
                    log.push(d);
                }
                for (d, j) in l.eval(m, i, false)? {
                    sels.push((j, i));
                    log.push(d);
                }
                if log.len() > 8 * MATCH_BUDGET {
                    return None;
                }
            }
        }
        3 => {
            let ms = l.find(m, s, e)?;
            // stretches of the selection that no match covers; unspecified when a later
            // match ends before an earlier one
            if ms.windows(2).any(|w| w[1].1 < w[0].1) {
                return None;
            }
            let mut at = s;
            for (a, b, _) in ms {
                if a > at {
                    sels.push((at, a - 1));
                }
                at = at.max(b + 1);
            }
            if at <= e {
                sels.push((at, e));
            }
        }
        4 => {
            let left = if other.0 > 0 { clip(s, other.0 - 1, cur) } else { None };
            let right = clip(other.1 + 1, e, cur);
            log.push(left.is_some() as u64 * 2 + right.is_some() as u64);
            sels.extend(left);
            sels.extend(right);
        }
        5 | 6 => {
            if e < last {
                for (d, j) in l.eval(m, e + 1, true)? {
                    sels.push((s, j));
                    log.push(d);
                }
            }
            if st.op == 6 {
                sels.truncate(1);
                log.truncate(1);
            }
        }
        7 | 8 => {
            if s > 0 {
                for (d, j) in l.eval(m, s - 1, false)? {
                    sels.push((j, e));
                    log.push(d);
                }
            }
            if st.op == 8 {
                sels.truncate(1);
                log.truncate(1);
            }
        }
        9 | 10 | 11 => {
            let (mut ns, mut ne) = (s as i64, e as i64);
            if st.op != 11 {
                if let Some((_, j)) = l.eval(m, s, true)?.first() {
                    ns = *j as i64 + 1;
                }
            }
            if st.op != 10 {
                if let Some((_, j)) = l.eval(m, e, false)?.first() {
                    ne = *j as i64 - 1;
                }
            }
            if ns <= ne && ne >= s as i64 {
                sels.push((ns as usize, ne as usize));
            }
        }
        12 => {
            if e < last {
                sels.push((e + 1, last));
            }
        }
        13 => {
            sels.push(cur);
        }
        _ => {
            log.push((cur == other) as u64);
        }
    }
    Some((sels, log))
}
