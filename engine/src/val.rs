//! Symbolic values: sums of functions of single finite-domain variables.
use crate::ir::{Bin, Cast, Pred, Ty};
use std::rc::Rc;

/// Set of indices (0..256) of one variable.
pub type Dom = [u64; 4];
pub fn d_full(n: usize) -> Dom {
    let mut d = [0; 4];
    for i in 0..n {
        d[i / 64] |= 1 << (i % 64);
    }
    d
}
pub fn d_has(d: &Dom, i: usize) -> bool {
    d[i / 64] >> (i % 64) & 1 == 1
}
pub fn d_set(d: &mut Dom, i: usize) {
    d[i / 64] |= 1 << (i % 64)
}
pub fn d_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn d_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn d_or(a: &Dom, b: &Dom) -> Dom {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn d_empty(a: &Dom) -> bool {
    a == &[0; 4]
}
pub struct DIter(Dom, usize);
impl Iterator for DIter {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.1 < 4 {
            let w = self.0[self.1];
            if w != 0 {
                let b = w.trailing_zeros() as usize;
                self.0[self.1] &= w - 1;
                return Some(self.1 * 64 + b);
            }
            self.1 += 1;
        }
        None
    }
}
pub fn d_iter(d: &Dom) -> DIter {
    DIter(*d, 0)
}

pub type Doms = Vec<Dom>;

/// Variables of the running thread: identifier, lowest value, size.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Var {
    pub id: u32,
    pub lo: u64,
    pub n: usize,
}
thread_local! {
    pub static VARS: std::cell::RefCell<Vec<Var>> = const { std::cell::RefCell::new(Vec::new()) };
}
pub fn var_size(x: u32) -> usize {
    VARS.with(|v| v.borrow()[x as usize].n)
}

/// c + sum of t.1[x_{t.0}]; over the live domains the sum stays within the
/// width it is used at.
#[derive(Debug, Clone, PartialEq)]
pub struct Sep {
    pub c: u128,
    pub t: Vec<(u32, Rc<Vec<u128>>)>,
}
#[derive(Debug, Clone)]
pub enum V {
    C(u128),
    S(Rc<Sep>),
    B(Rc<Vec<Cell>>),
    A(Rc<Vec<V>>),
    /// A quotient or remainder by a constant that has not been worked out.
    D(Rc<Lazy>),
    U,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Part {
    /// n / k
    Quot,
    /// n % k
    Rem,
    /// n - n % k
    Whole,
    /// n % k - n, modulo the width
    Minus,
}
#[derive(Debug, Clone)]
pub struct Lazy {
    pub part: Part,
    pub n: V,
    pub k: u128,
}
#[derive(Debug, Clone)]
pub enum Cell {
    U,
    K(u8),
    V(Rc<Sep>, u8, u8),
}
#[derive(Debug)]
pub enum E {
    Split(u32, Vec<Dom>),
    /// A genuine misbehaviour of the code (kind, text).
    Bug(&'static str, String),
    /// Something the engine cannot handle.
    Bad(String),
}
pub type R<X> = Result<X, E>;
pub fn bad<X>(s: impl Into<String>) -> R<X> {
    Err(E::Bad(s.into()))
}
pub fn bug<X>(k: &'static str, s: impl Into<String>) -> R<X> {
    Err(E::Bug(k, s.into()))
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
impl V {
    pub fn zero(t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(V::zero).collect())),
            Ty::Arr(n, e) => V::A(Rc::new(vec![V::zero(e); *n as usize])),
            _ => V::C(0),
        }
    }
    pub fn is_c(&self) -> Option<u128> {
        if let V::C(c) = self {
            Some(*c)
        } else {
            None
        }
    }
}

/// Wide signed integer: hi * 2^128 + lo.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct W {
    pub hi: i64,
    pub lo: u128,
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> std::cmp::Ordering {
        (self.hi, self.lo).cmp(&(o.hi, o.lo))
    }
}
impl W {
    pub const Z: W = W { hi: 0, lo: 0 };
    pub fn u(x: u128) -> W {
        W { hi: 0, lo: x }
    }
    pub fn add(self, o: W) -> W {
        let (lo, c) = self.lo.overflowing_add(o.lo);
        W { hi: self.hi + o.hi + c as i64, lo }
    }
    pub fn neg(self) -> W {
        let lo = (!self.lo).wrapping_add(1);
        W { hi: !self.hi + (self.lo == 0) as i64, lo }
    }
    pub fn sub(self, o: W) -> W {
        self.add(o.neg())
    }
    /// floor(self / 2^w), w <= 128.
    pub fn sar(self, w: u32) -> W {
        if w == 0 {
            return self;
        }
        if w == 128 {
            return W { hi: if self.hi < 0 { -1 } else { 0 }, lo: self.hi as i128 as u128 };
        }
        let lo = (self.lo >> w) | ((self.hi as i128 as u128) << (128 - w));
        let h = (self.hi as i128) >> w.min(127);
        W { hi: h as i64, lo }
    }
    pub fn shl(self, w: u32) -> W {
        // only used for small counts
        let mut r = self;
        for _ in 0..w {
            r = r.add(r);
        }
        r
    }
    pub fn low(self, w: u32) -> u128 {
        self.lo & mask(w)
    }
    /// self (non-negative, < 2^128) * k
    pub fn mulu(a: u128, k: u128) -> Option<W> {
        let (a1, a0) = (a >> 64, a & mask(64));
        let (k1, k0) = (k >> 64, k & mask(64));
        let p00 = a0 * k0;
        let p01 = a0 * k1;
        let p10 = a1 * k0;
        let p11 = a1 * k1;
        let mut r = W::u(p00);
        for p in [p01, p10] {
            r = r.add(W { hi: (p >> 64) as i64, lo: p << 64 });
            if p >> 64 > (1 << 60) {
                return None;
            }
        }
        if p11 > (1 << 60) {
            return None;
        }
        r.hi += p11 as i64;
        if r.hi < 0 || r.hi > (1 << 61) {
            return None;
        }
        Some(r)
    }
}

pub type Terms = Vec<(u32, Vec<W>)>;

fn dom(ds: &Doms, v: u32) -> &Dom {
    &ds[v as usize]
}

/// Groups the live values of a variable by a key.
pub fn classes<K: PartialEq>(d: &Dom, key: impl Fn(usize) -> K) -> Vec<Dom> {
    let mut ks: Vec<(K, Dom)> = vec![];
    for i in d_iter(d) {
        let k = key(i);
        if let Some(e) = ks.iter_mut().find(|e| e.0 == k) {
            d_set(&mut e.1, i);
        } else {
            let mut x = [0; 4];
            d_set(&mut x, i);
            ks.push((k, x));
        }
    }
    ks.into_iter().map(|x| x.1).collect()
}

pub fn lin(v: &V, ds: &Doms) -> (W, Terms) {
    match v {
        V::C(c) => (W::u(*c), vec![]),
        V::S(s) => {
            let mut c = W::u(s.c);
            let mut t = vec![];
            for (v, f) in &s.t {
                let d = dom(ds, *v);
                if d_count(d) == 1 {
                    c = c.add(W::u(f[d_iter(d).next().unwrap()]));
                } else {
                    t.push((*v, f.iter().map(|x| W::u(*x)).collect()));
                }
            }
            (c, t)
        }
        _ => panic!("lin {:?}", v),
    }
}
fn lin_add(a: &mut Terms, b: &Terms) {
    for (v, f) in b {
        match a.binary_search_by_key(v, |x| x.0) {
            Ok(i) => {
                for (x, y) in a[i].1.iter_mut().zip(f) {
                    *x = x.add(*y)
                }
            }
            Err(i) => a.insert(i, (*v, f.clone())),
        }
    }
}
fn lin_neg(c: &mut W, a: &mut Terms) {
    *c = c.neg();
    for (_, f) in a.iter_mut() {
        for x in f.iter_mut() {
            *x = x.neg()
        }
    }
}
/// Normalises tables to minimum 0; returns per-term maxima.
fn normal(c: &mut W, t: &mut Terms, ds: &Doms) -> Vec<W> {
    let mut maxs = vec![];
    t.retain_mut(|(v, f)| {
        let d = dom(ds, *v);
        let mut mn: Option<W> = None;
        let mut mx: Option<W> = None;
        for i in d_iter(d) {
            let x = f[i];
            if mn.map_or(true, |m| x < m) {
                mn = Some(x)
            }
            if mx.map_or(true, |m| x > m) {
                mx = Some(x)
            }
        }
        let (mn, mx) = (mn.unwrap(), mx.unwrap());
        *c = c.add(mn);
        if mn == mx {
            return false;
        }
        for (i, x) in f.iter_mut().enumerate() {
            *x = if d_has(d, i) { x.sub(mn) } else { W::Z };
        }
        maxs.push(mx.sub(mn));
        true
    });
    maxs
}
/// Chooses a split that separates sums below `thr` from those at or above.
fn split_thr(c: W, t: &Terms, maxs: &[W], thr: W, ds: &Doms) -> E {
    let mut ord: Vec<usize> = (0..t.len()).collect();
    ord.sort_by(|a, b| maxs[*b].cmp(&maxs[*a]));
    for &i in &ord {
        let rest = maxs.iter().enumerate().filter(|x| x.0 != i).fold(W::Z, |a, b| a.add(*b.1));
        let cl = classes(dom(ds, t[i].0), |x| {
            let lo = c.add(t[i].1[x]);
            if lo >= thr {
                1
            } else if lo.add(rest) < thr {
                0
            } else {
                2
            }
        });
        if cl.len() > 1 {
            return E::Split(t[i].0, cl);
        }
    }
    let i = ord[0];
    E::Split(t[i].0, classes(dom(ds, t[i].0), |x| t[i].1[x].lo))
}
/// Splits towards deciding whether the sum equals `thr`.
fn split_eq(c: W, t: &Terms, maxs: &[W], thr: W, ds: &Doms) -> E {
    let mut ord: Vec<usize> = (0..t.len()).collect();
    ord.sort_by(|a, b| maxs[*b].cmp(&maxs[*a]));
    for &i in &ord {
        let rest = maxs.iter().enumerate().filter(|x| x.0 != i).fold(W::Z, |a, b| a.add(*b.1));
        let cl = classes(dom(ds, t[i].0), |x| {
            let lo = c.add(t[i].1[x]);
            lo > thr || lo.add(rest) < thr
        });
        if cl.len() > 1 {
            return E::Split(t[i].0, cl);
        }
    }
    let i = ord[0];
    E::Split(t[i].0, classes(dom(ds, t[i].0), |x| t[i].1[x].lo))
}
fn to_sep(c: u128, t: Terms) -> V {
    if t.is_empty() {
        return V::C(c);
    }
    V::S(Rc::new(Sep { c, t: t.into_iter().map(|(v, f)| (v, Rc::new(f.into_iter().map(|x| x.lo).collect()))).collect() }))
}
pub fn finish(mut c: W, mut t: Terms, w: u32, ds: &Doms) -> R<V> {
    let maxs = normal(&mut c, &mut t, ds);
    let mx = maxs.iter().fold(c, |a, b| a.add(*b));
    let (k0, k1) = (c.sar(w), mx.sar(w));
    if k0 == k1 {
        return Ok(to_sep(c.low(w), t));
    }
    if t.len() == 1 {
        let f: Vec<W> = t[0].1.iter().map(|x| W::u(c.add(*x).low(w))).collect();
        let mut t2 = vec![(t[0].0, f)];
        let mut c2 = W::Z;
        normal(&mut c2, &mut t2, ds);
        return Ok(to_sep(c2.lo, t2));
    }
    let thr = k0.add(W::u(1)).shl(w);
    Err(split_thr(c, &t, &maxs, thr, ds))
}
/// Tightens tables to the current domains.
pub fn simp(v: &V, ds: &Doms) -> V {
    match v {
        V::S(s) => {
            // cheap check: nothing to do when every table still starts at its minimum
            let (mut c, mut t) = lin(v, ds);
            let n = t.len();
            normal(&mut c, &mut t, ds);
            if n == s.t.len() && t.len() == n && c.lo == s.c {
                return v.clone();
            }
            to_sep(c.lo, t)
        }
        _ => v.clone(),
    }
}
pub fn vars_of(v: &V, ds: &Doms, out: &mut Vec<u32>) {
    if let V::S(s) = v {
        for (x, _) in &s.t {
            if d_count(dom(ds, *x)) > 1 && !out.contains(x) {
                out.push(*x)
            }
        }
    }
}
/// Value with variable `x` fixed to index `i` (other variables must be fixed).
pub fn at(v: &V, x: u32, i: usize, ds: &Doms) -> u128 {
    match v {
        V::C(c) => *c,
        V::S(s) => {
            let mut r = s.c;
            for (y, f) in &s.t {
                let k = if *y == x { i } else { d_iter(dom(ds, *y)).next().unwrap() };
                r = r.wrapping_add(f[k]);
            }
            r
        }
        _ => panic!("at"),
    }
}
pub fn table(x: u32, ds: &Doms, f: impl Fn(usize) -> R<u128>) -> R<V> {
    let d = dom(ds, x);
    let n = var_size(x);
    let mut t = vec![W::Z; n];
    for i in d_iter(d) {
        t[i] = W::u(f(i)?);
    }
    let mut ts = vec![(x, t)];
    let mut c = W::Z;
    normal(&mut c, &mut ts, ds);
    Ok(to_sep(c.lo, ts))
}
/// Split on the variable of `v` with the fewest distinct table values.
pub fn split_values(v: &V, ds: &Doms) -> E {
    let mut best: Option<(usize, u32, Vec<Dom>)> = None;
    if let V::S(s) = v {
        for (x, f) in &s.t {
            let cl = classes(dom(ds, *x), |i| f[i]);
            if cl.len() > 1 && best.as_ref().map_or(true, |b| cl.len() < b.0) {
                best = Some((cl.len(), *x, cl));
            }
        }
    }
    match best {
        Some((_, x, c)) => E::Split(x, c),
        None => E::Bad("split of a constant".into()),
    }
}
/// Concrete value, or a split that makes it so.
pub fn conc(v: &V, w: u32, ds: &Doms) -> R<u128> {
    let v = force(v, w, ds)?;
    match simp(&v, ds) {
        V::C(c) => Ok(c),
        V::U => bad("uninitialised value used"),
        v => Err(split_values(&v, ds)),
    }
}
/// Tabulates when at most one variable is involved, otherwise splits.
fn tab(a: &V, b: &V, ds: &Doms, f: impl Fn(u128, u128) -> R<u128>) -> R<V> {
    let mut vs = vec![];
    vars_of(a, ds, &mut vs);
    vars_of(b, ds, &mut vs);
    match vs.len() {
        0 => {
            let z = 0;
            Ok(V::C(f(at(a, !0, z, ds), at(b, !0, z, ds))?))
        }
        1 => table(vs[0], ds, |i| f(at(a, vs[0], i, ds), at(b, vs[0], i, ds))),
        _ => {
            let (mut va, mut vb) = (vec![], vec![]);
            vars_of(a, ds, &mut va);
            vars_of(b, ds, &mut vb);
            // split the operand with fewer variables
            if !vb.is_empty() && (va.is_empty() || vb.len() <= va.len()) {
                Err(split_values(b, ds))
            } else {
                Err(split_values(a, ds))
            }
        }
    }
}

pub fn rng(v: &V, ds: &Doms) -> (u128, u128) {
    match v {
        V::C(c) => (*c, *c),
        V::S(_) => {
            let (mut c, mut t) = lin(v, ds);
            let m = normal(&mut c, &mut t, ds);
            (c.lo, m.iter().fold(c, |a, b| a.add(*b)).lo)
        }
        _ => (0, !0),
    }
}

/// Quotient and remainder by a constant.
pub fn divrem(v: &V, k: u128, ds: &Doms) -> R<(V, V)> {
    if k == 1 {
        return Ok((v.clone(), V::C(0)));
    }
    let (mut c, mut t) = lin(v, ds);
    normal(&mut c, &mut t, ds);
    let c = c.lo;
    if t.is_empty() {
        return Ok((V::C(c / k), V::C(c % k)));
    }
    if t.len() == 1 {
        let f = &t[0].1;
        let x = t[0].0;
        return Ok((table(x, ds, |i| Ok((c + f[i].lo) / k))?, table(x, ds, |i| Ok((c + f[i].lo) % k))?));
    }
    let q: Terms = t.iter().map(|(v, f)| (*v, f.iter().map(|x| W::u(x.lo / k)).collect())).collect();
    let r: Terms = t.iter().map(|(v, f)| (*v, f.iter().map(|x| W::u(x.lo % k)).collect())).collect();
    let (mut cq, mut cr) = (W::u(c / k), W::u(c % k));
    let (mut q, mut r) = (q, r);
    normal(&mut cq, &mut q, ds);
    let mr = normal(&mut cr, &mut r, ds);
    let mx = mr.iter().fold(cr, |a, b| a.add(*b));
    // number of whole k in the minimum and in the maximum of the remainder part
    let (lo, hi) = (wdiv(cr, k), wdiv(mx, k));
    if lo == hi {
        cq = cq.add(W::u(lo));
        cr = cr.sub(W::mulu(k, lo).unwrap());
        return Ok((to_sep(cq.lo, q), to_sep(cr.lo, r)));
    }
    let thr = match W::mulu(k, lo + 1) {
        Some(x) => x,
        None => return bad("divrem range"),
    };
    Err(split_thr(cr, &r, &mr, thr, ds))
}
fn wdiv(a: W, k: u128) -> u128 {
    // a >= 0, small quotient beyond 128 bits
    let mut a = a;
    let mut q = 0u128;
    while a.hi > 0 {
        // subtract the largest k*2^s that fits
        let mut s = W::u(k);
        let mut m = 1u128;
        loop {
            let d = s.add(s);
            if d > a || m >> 126 != 0 {
                break;
            }
            s = d;
            m *= 2;
        }
        a = a.sub(s);
        q += m;
    }
    q + a.lo / k
}

/// As `divrem`, one of the two, put off when it would take many splits.
fn divpart(part: Part, n: &V, k: u128, ds: &Doms) -> R<V> {
    let e = match divrem(n, k, ds) {
        Ok((q, r)) => return Ok(if part == Part::Quot { q } else { r }),
        Err(E::Split(x, c)) => E::Split(x, c),
        Err(e) => return Err(e),
    };
    let (lo, hi) = rng(n, ds);
    if hi / k - lo / k < 64 {
        return Err(e);
    }
    Ok(lazy(part, n.clone(), k))
}
fn lazy(part: Part, n: V, k: u128) -> V {
    V::D(Rc::new(Lazy { part, n, k }))
}
/// The value of a quotient or remainder, or a split towards it.
fn settle(l: &Lazy, w: u32, ds: &Doms) -> R<V> {
    let (q, r) = divrem(&simp(&l.n, ds), l.k, ds)?;
    match l.part {
        Part::Quot => Ok(q),
        Part::Rem => Ok(r),
        Part::Whole => bin(Bin::Sub, w, &l.n, &r, ds),
        Part::Minus => bin(Bin::Sub, w, &r, &l.n, ds),
    }
}
/// The largest value of `l`.
fn lazy_max(l: &Lazy, ds: &Doms) -> u128 {
    let (_, hi) = rng(&l.n, ds);
    match l.part {
        Part::Quot => hi / l.k,
        Part::Rem => hi.min(l.k - 1),
        Part::Whole => hi,
        Part::Minus => !0,
    }
}
/// Whether two sums are the same everywhere.
fn same(a: &V, b: &V, ds: &Doms) -> bool {
    let (c1, mut t) = lin(a, ds);
    let (mut c2, mut t2) = lin(b, ds);
    lin_neg(&mut c2, &mut t2);
    lin_add(&mut t, &t2);
    let mut c = c1.add(c2);
    normal(&mut c, &mut t, ds);
    t.is_empty() && c == W::Z
}
/// Decides a condition, or splits towards deciding it.
pub fn decide(c: V, ds: &Doms) -> R<bool> {
    Ok(conc(&c, 1, ds)? & 1 == 1)
}
/// `a op b` without working out lazy operands.
fn lazy_bin(op: Bin, w: u32, a: &V, b: &V, ds: &Doms) -> R<Option<V>> {
    if w > 128 {
        return Ok(None);
    }
    let m = mask(w);
    match (op, a, b) {
        (Bin::Add, V::D(l), V::C(c)) | (Bin::Add, V::C(c), V::D(l)) if l.part == Part::Quot => {
            if w > 1 && *c >> (w - 1) == 1 {
                return lazy_bin(Bin::Sub, w, &V::D(l.clone()), &V::C(m - *c + 1), ds);
            }
            let n = match c.checked_mul(l.k) {
                Some(n) if rng(&l.n, ds).1.checked_add(n).is_some() => n,
                _ => return Ok(None),
            };
            if lazy_max(l, ds) > m - *c {
                return Ok(None);
            }
            Ok(Some(lazy(Part::Quot, bin(Bin::Add, 128, &l.n, &V::C(n), ds)?, l.k)))
        }
        (Bin::Sub, V::D(l), V::C(c)) if l.part == Part::Quot => {
            let Some(n) = c.checked_mul(l.k) else { return Ok(None) };
            if decide(cmp(Pred::Ult, 128, &l.n, &V::C(n), ds)?, ds)? {
                return Ok(None);
            }
            Ok(Some(lazy(Part::Quot, bin(Bin::Sub, 128, &l.n, &V::C(n), ds)?, l.k)))
        }
        (Bin::Mul, V::D(l), V::C(c)) | (Bin::Mul, V::C(c), V::D(l)) if l.part == Part::Quot => {
            let part = if *c == l.k {
                Part::Whole
            } else if (m - *c).wrapping_add(1) & m == l.k {
                Part::Minus
            } else {
                return Ok(None);
            };
            Ok(Some(lazy(part, l.n.clone(), l.k)))
        }
        (Bin::Sub, V::S(_), V::D(l)) if l.part == Part::Whole && same(a, &l.n, ds) => divpart(Part::Rem, a, l.k, ds).map(Some),
        (Bin::Add, V::S(_), V::D(l)) if l.part == Part::Minus && same(a, &l.n, ds) => divpart(Part::Rem, a, l.k, ds).map(Some),
        (Bin::Add, V::D(l), V::S(_)) if l.part == Part::Minus && same(b, &l.n, ds) => divpart(Part::Rem, b, l.k, ds).map(Some),
        (Bin::UDiv, V::D(l), V::C(c)) if l.part == Part::Quot && *c > 0 => match l.k.checked_mul(*c) {
            Some(k) => divpart(Part::Quot, &l.n, k, ds).map(Some),
            None => Ok(Some(V::C(0))),
        },
        (Bin::LShr, V::D(_), V::C(c)) if *c < w as u128 && *c < 127 => lazy_bin(Bin::UDiv, w, a, &V::C(1 << *c), ds),
        _ => Ok(None),
    }
}
/// A comparison that needs no more than a threshold on the numerator.
fn lazy_cmp(p: Pred, w: u32, a: &V, b: &V, ds: &Doms) -> R<Option<V>> {
    if w > 128 {
        return Ok(None);
    }
    let not = |v: Option<V>| {
        v.map(|v| match v {
            V::C(c) => V::C(1 - c),
            _ => unreachable!(),
        })
    };
    let flip = match p {
        Pred::Ult => Pred::Ugt,
        Pred::Ule => Pred::Uge,
        Pred::Ugt => Pred::Ult,
        Pred::Uge => Pred::Ule,
        Pred::Slt => Pred::Sgt,
        Pred::Sle => Pred::Sge,
        Pred::Sgt => Pred::Slt,
        Pred::Sge => Pred::Sle,
        p => p,
    };
    let (l, o) = match (a, b) {
        (V::D(l), o) => (l, o),
        (_, V::D(_)) => return lazy_cmp(flip, w, b, a, ds),
        _ => return Ok(None),
    };
    if let (Pred::Eq | Pred::Ne, Part::Rem, V::S(_)) = (p, l.part, o) {
        if same(&l.n, o, ds) {
            let lt = decide(cmp(Pred::Ult, 128, o, &V::C(l.k), ds)?, ds)?;
            return Ok(Some(V::C((lt == (p == Pred::Eq)) as u128)));
        }
    }
    let V::C(c) = o else { return Ok(None) };
    if l.part == Part::Rem && lazy_max(l, ds) < *c {
        if let Pred::Eq | Pred::Ne | Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge = p {
            return Ok(Some(V::C(matches!(p, Pred::Ne | Pred::Ult | Pred::Ule) as u128)));
        }
    }
    if l.part != Part::Quot {
        return Ok(None);
    }
    let low = w > 0 && lazy_max(l, ds) >> (w - 1) == 0 && *c >> (w - 1) == 0;
    let below = |c: u128| -> R<bool> {
        match c.checked_mul(l.k) {
            Some(n) => decide(cmp(Pred::Ult, 128, &l.n, &V::C(n), ds)?, ds),
            None => Ok(true),
        }
    };
    Ok(match p {
        Pred::Eq => Some(V::C(if below(*c)? { 0 } else { c.checked_add(1).map_or(Ok(true), below)? as u128 })),
        Pred::Ne => not(lazy_cmp(Pred::Eq, w, a, b, ds)?),
        Pred::Ult => Some(V::C(below(*c)? as u128)),
        Pred::Uge => Some(V::C(!below(*c)? as u128)),
        Pred::Ule => Some(V::C(c.checked_add(1).map_or(Ok(true), below)? as u128)),
        Pred::Ugt => Some(V::C(!c.checked_add(1).map_or(Ok(true), below)? as u128)),
        Pred::Slt if low => lazy_cmp(Pred::Ult, w, a, b, ds)?,
        Pred::Sle if low => lazy_cmp(Pred::Ule, w, a, b, ds)?,
        Pred::Sgt if low => lazy_cmp(Pred::Ugt, w, a, b, ds)?,
        Pred::Sge if low => lazy_cmp(Pred::Uge, w, a, b, ds)?,
        _ => None,
    })
}
/// Whether an addition, subtraction or multiplication of lazy operands wraps.
pub fn lazy_ovf(op: Bin, w: u32, a: &V, b: &V, ds: &Doms) -> R<Option<bool>> {
    if w > 128 {
        return Ok(None);
    }
    Ok(match (op, a, b) {
        (Bin::Sub, V::D(_), V::C(_)) => lazy_cmp(Pred::Ult, w, a, b, ds)?.map(|v| v.is_c() == Some(1)),
        (Bin::Sub, V::S(_), V::D(l)) if l.part == Part::Whole && same(a, &l.n, ds) => Some(false),
        (Bin::Add, V::D(_), V::C(c)) => lazy_cmp(Pred::Ugt, w, a, &V::C(mask(w) - *c), ds)?.map(|v| v.is_c() == Some(1)),
        (Bin::Add, V::C(c), V::D(_)) => lazy_cmp(Pred::Ugt, w, b, &V::C(mask(w) - *c), ds)?.map(|v| v.is_c() == Some(1)),
        (Bin::Mul, V::D(l), V::C(c)) | (Bin::Mul, V::C(c), V::D(l)) if l.part == Part::Quot && *c == l.k => Some(false),
        _ => None,
    })
}

/// Sum of byte cells as one integer.
pub fn force(v: &V, w: u32, ds: &Doms) -> R<V> {
    let b = match v {
        V::B(b) => b,
        V::D(l) => return settle(l, w, ds),
        _ => return Ok(v.clone()),
    };
    let mut c = W::Z;
    let mut t: Terms = vec![];
    for (i, x) in b.iter().enumerate() {
        if i >= 16 {
            // wider than 128 bits: must be zero
            match x {
                Cell::K(0) => continue,
                _ => return bad("integer wider than 128 bits"),
            }
        }
        match x {
            Cell::U => return Ok(V::U),
            Cell::K(k) => c = c.add(W::u((*k as u128) << (8 * i))),
            Cell::V(s, j, n) => {
                let e = byte_of(s, *j, *n, ds)?;
                let (c2, t2) = lin(&e, ds);
                c = c.add(W::u(c2.lo << (8 * i)));
                let t2: Terms = t2.into_iter().map(|(v, f)| (v, f.into_iter().map(|x| W::u(x.lo << (8 * i))).collect())).collect();
                lin_add(&mut t, &t2);
            }
        }
    }
    finish(c, t, w, ds)
}
pub fn byte_of(s: &Rc<Sep>, j: u8, n: u8, ds: &Doms) -> R<V> {
    let v = V::S(s.clone());
    if n == 1 {
        return Ok(v);
    }
    let (_, r) = if j + 1 < n { divrem(&v, 1u128 << (8 * (j as u32 + 1)), ds)? } else { (V::C(0), v) };
    Ok(if j == 0 { r } else { divrem(&r, 1u128 << (8 * j as u32), ds)?.0 })
}
pub fn to_cells(v: &V, n: usize) -> Vec<Cell> {
    match v {
        V::C(c) => (0..n).map(|i| Cell::K(if i < 16 { (c >> (8 * i)) as u8 } else { 0 })).collect(),
        V::S(s) => (0..n).map(|i| if i < 16 { Cell::V(s.clone(), i as u8, n.min(16) as u8) } else { Cell::K(0) }).collect(),
        V::B(b) => (0..n).map(|i| b.get(i).cloned().unwrap_or(Cell::K(0))).collect(),
        V::U => vec![Cell::U; n],
        V::A(_) | V::D(_) => panic!("to_cells"),
    }
}
pub fn from_cells(c: &[Cell]) -> V {
    if c.len() <= 16 && c.iter().all(|x| matches!(x, Cell::K(_))) {
        let mut r = 0u128;
        for (i, x) in c.iter().enumerate() {
            if let Cell::K(k) = x {
                r |= (*k as u128) << (8 * i);
            }
        }
        return V::C(r);
    }
    if c.iter().all(|x| matches!(x, Cell::U)) {
        return V::U;
    }
    if let Cell::V(s, 0, n) = &c[0] {
        if *n as usize == c.len()
            && c.iter().enumerate().all(|(i, x)| match x {
                Cell::V(t, j, m) => *j as usize == i && m == n && (Rc::ptr_eq(s, t) || s == t),
                _ => false,
            })
        {
            return V::S(s.clone());
        }
        // a zero-extended smaller value
        let n = *n as usize;
        if n < c.len() && c[n..].iter().all(|x| matches!(x, Cell::K(0))) {
            if let V::S(s) = from_cells(&c[..n]) {
                return V::S(s);
            }
        }
    }
    V::B(Rc::new(c.to_vec()))
}

fn sx(x: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((x << s) as i128) >> s
}
fn conc_bin(op: Bin, w: u32, a: u128, b: u128) -> R<u128> {
    let m = mask(w);
    Ok(match op {
        Bin::Add => a.wrapping_add(b) & m,
        Bin::Sub => a.wrapping_sub(b) & m,
        Bin::Mul => a.wrapping_mul(b) & m,
        Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if b == 0 => return bug("ub", "division by zero"),
        Bin::UDiv => a / b,
        Bin::URem => a % b,
        Bin::SDiv => (sx(a, w).wrapping_div(sx(b, w)) as u128) & m,
        Bin::SRem => (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m,
        Bin::Shl => {
            if b >= w as u128 {
                return bug("ub", "shift out of range");
            }
            (a << b) & m
        }
        Bin::LShr => {
            if b >= w as u128 {
                return bug("ub", "shift out of range");
            }
            a >> b
        }
        Bin::AShr => {
            if b >= w as u128 {
                return bug("ub", "shift out of range");
            }
            (sx(a, w) >> b) as u128 & m
        }
        Bin::And => a & b,
        Bin::Or | Bin::OrDisjoint => a | b,
        Bin::Xor => a ^ b,
    })
}

/// One byte of a bitwise operation, where that is one byte again.
fn byte_bin(op: Bin, p: &Cell, q: &Cell, ds: &Doms) -> Option<Cell> {
    let part = |c: &Cell| match c {
        Cell::K(k) => Some(V::C(*k as u128)),
        Cell::V(s, j, n) => byte_of(s, *j, *n, ds).ok(),
        Cell::U => None,
    };
    Some(match (op, p, q) {
        (Bin::And, Cell::K(0), _) | (Bin::And, _, Cell::K(0)) => Cell::K(0),
        (Bin::And, Cell::K(255), x) | (Bin::And, x, Cell::K(255)) => x.clone(),
        (Bin::Or | Bin::OrDisjoint | Bin::Xor, Cell::K(0), x) | (Bin::Or | Bin::OrDisjoint | Bin::Xor, x, Cell::K(0)) => x.clone(),
        (Bin::Or, Cell::K(255), _) | (Bin::Or, _, Cell::K(255)) => Cell::K(255),
        (Bin::And | Bin::Or | Bin::OrDisjoint | Bin::Xor, p, q) => match bin(op, 8, &part(p)?, &part(q)?, ds).ok()? {
            V::C(k) => Cell::K(k as u8),
            V::S(s) => Cell::V(s, 0, 1),
            _ => return None,
        },
        _ => return None,
    })
}
fn cells_bin(op: Bin, w: u32, a: &V, b: &V, ds: &Doms) -> Option<V> {
    if w % 8 != 0 {
        return None;
    }
    let n = (w / 8) as usize;
    match (op, a, b) {
        (Bin::And | Bin::Or | Bin::OrDisjoint | Bin::Xor, x, y) => {
            let mut r = vec![];
            for (p, q) in to_cells(x, n).iter().zip(&to_cells(y, n)) {
                r.push(byte_bin(op, p, q, ds)?);
            }
            Some(from_cells(&r))
        }
        (Bin::LShr, x, V::C(k)) if k % 8 == 0 && *k < w as u128 => {
            let k = (*k / 8) as usize;
            let mut c = to_cells(x, n)[k..].to_vec();
            c.extend(vec![Cell::K(0); k]);
            Some(from_cells(&c))
        }
        (Bin::Shl, x, V::C(k)) if k % 8 == 0 && *k < w as u128 => {
            let k = (*k / 8) as usize;
            let mut c = vec![Cell::K(0); k];
            c.extend(to_cells(x, n)[..n - k].to_vec());
            Some(from_cells(&c))
        }
        (Bin::Add, x, y) => {
            let (p, q) = (to_cells(x, n), to_cells(y, n));
            let mut r = vec![];
            for (p, q) in p.into_iter().zip(q) {
                r.push(match (p, q) {
                    (Cell::K(0), q) => q,
                    (p, Cell::K(0)) => p,
                    _ => return None,
                });
            }
            Some(from_cells(&r))
        }
        _ => None,
    }
}

/// Forces everything but a lazy value.
pub fn plain(v: &V, w: u32, ds: &Doms) -> R<V> {
    Ok(match v {
        V::D(l) => {
            let n = simp(&l.n, ds);
            match divrem(&n, l.k, ds) {
                Ok(_) => settle(l, w, ds)?,
                Err(E::Split(..)) => lazy(l.part, n, l.k),
                Err(e) => return Err(e),
            }
        }
        v => simp(&force(v, w, ds)?, ds),
    })
}
pub fn bin(op: Bin, w: u32, a: &V, b: &V, ds: &Doms) -> R<V> {
    if let (V::C(a), V::C(b)) = (a, b) {
        if w > 128 {
            return bad("wide arithmetic");
        }
        return Ok(V::C(conc_bin(op, w, *a, *b)?));
    }
    if matches!(a, V::D(_)) || matches!(b, V::D(_)) {
        // constants show as such, sums as sums
        let (x, y) = (plain(a, w, ds)?, plain(b, w, ds)?);
        if let Some(v) = lazy_bin(op, w, &x, &y, ds)? {
            return Ok(v);
        }
        return bin(op, w, &force(&x, w, ds)?, &force(&y, w, ds)?, ds);
    }
    if matches!(a, V::B(_)) || matches!(b, V::B(_)) {
        if let Some(v) = cells_bin(op, w, a, b, ds) {
            return Ok(v);
        }
    }
    if w > 128 {
        if let Some(v) = cells_bin(op, w, a, b, ds) {
            return Ok(v);
        }
        return bad("wide arithmetic");
    }
    let (a, b) = (force(a, w, ds)?, force(b, w, ds)?);
    if matches!(a, V::U) || matches!(b, V::U) {
        // poison-like propagation, except for absorbing constants
        return Ok(match (op, &a, &b) {
            (Bin::And | Bin::Mul, V::C(0), _) | (Bin::And | Bin::Mul, _, V::C(0)) => V::C(0),
            _ => V::U,
        });
    }
    let (a, b) = (simp(&a, ds), simp(&b, ds));
    let (a, b) = (&a, &b);
    if let (V::C(a), V::C(b)) = (a, b) {
        return Ok(V::C(conc_bin(op, w, *a, *b)?));
    }
    let m = mask(w);
    match op {
        Bin::Add => {
            let (c1, mut t1) = lin(a, ds);
            let (c2, t2) = lin(b, ds);
            lin_add(&mut t1, &t2);
            // adding a constant in the upper half is subtracting
            let mut c = c1.add(c2);
            if let V::C(k) = b {
                if w > 1 && *k >> (w - 1) == 1 {
                    c = c1.sub(W::u((m - *k) + 1));
                }
            }
            finish(c, t1, w, ds)
        }
        Bin::Sub => {
            let (c1, mut t1) = lin(a, ds);
            let (mut c2, mut t2) = lin(b, ds);
            lin_neg(&mut c2, &mut t2);
            lin_add(&mut t1, &t2);
            finish(c1.add(c2), t1, w, ds)
        }
        Bin::Mul => {
            let (s, k) = match (a, b) {
                (s, V::C(k)) | (V::C(k), s) => (s, *k),
                _ => return tab(a, b, ds, |x, y| conc_bin(op, w, x, y)),
            };
            if k == 0 {
                return Ok(V::C(0));
            }
            if k == m {
                return bin(Bin::Sub, w, &V::C(0), s, ds);
            }
            let (mut c, mut t) = lin(s, ds);
            normal(&mut c, &mut t, ds);
            if t.len() > 1 {
                let mut ok = true;
                let c2 = W::mulu(c.lo, k).unwrap_or_else(|| {
                    ok = false;
                    W::Z
                });
                let t2: Terms = t
                    .iter()
                    .map(|(v, f)| {
                        (
                            *v,
                            f.iter()
                                .map(|x| {
                                    W::mulu(x.lo, k).unwrap_or_else(|| {
                                        ok = false;
                                        W::Z
                                    })
                                })
                                .collect(),
                        )
                    })
                    .collect();
                if ok {
                    return finish(c2, t2, w, ds);
                }
            }
            tab(a, b, ds, |x, y| conc_bin(op, w, x, y))
        }
        Bin::UDiv | Bin::URem => match b {
            V::C(0) => bug("ub", "division by zero"),
            V::C(k) => {
                divpart(if op == Bin::UDiv { Part::Quot } else { Part::Rem }, a, *k, ds)
            }
            _ => tab(a, b, ds, |x, y| conc_bin(op, w, x, y)),
        },
        Bin::SDiv | Bin::SRem => {
            if let V::C(k) = b {
                if *k >> (w - 1) == 0 && *k != 0 && rng(a, ds).1 >> (w - 1) == 0 {
                    let (q, r) = divrem(a, *k, ds)?;
                    return Ok(if op == Bin::SDiv { q } else { r });
                }
            }
            tab(a, b, ds, |x, y| conc_bin(op, w, x, y))
        }
        Bin::Shl => match b {
            V::C(k) if *k < w as u128 => {
                let k = *k as u32;
                let lo = if k == 0 { a.clone() } else { divrem(a, 1u128 << (w - k), ds)?.1 };
                bin(Bin::Mul, w, &lo, &V::C(1u128 << k), ds)
            }
            _ => tab(a, b, ds, |x, y| conc_bin(op, w, x, y)),
        },
        Bin::LShr => match b {
            V::C(k) if *k < w as u128 => divpart(Part::Quot, a, 1u128 << *k as u32, ds),
            _ => tab(a, b, ds, |x, y| conc_bin(op, w, x, y)),
        },
        Bin::AShr => {
            if let V::C(k) = b {
                if *k < w as u128 && rng(a, ds).1 >> (w - 1) == 0 {
                    return Ok(divrem(a, 1u128 << *k as u32, ds)?.0);
                }
            }
            tab(a, b, ds, |x, y| conc_bin(op, w, x, y))
        }
        Bin::And => match (a, b) {
            (s, V::C(k)) | (V::C(k), s) => and_const(s, *k, w, ds),
            _ => tab(a, b, ds, |x, y| conc_bin(op, w, x, y)),
        },
        Bin::OrDisjoint => bin(Bin::Add, w, a, b, ds),
        Bin::Or | Bin::Xor => {
            if disjoint(a, b, ds) || disjoint(b, a, ds) {
                return bin(Bin::Add, w, a, b, ds);
            }
            match (a, b) {
                (s, V::C(k)) | (V::C(k), s) => {
                    if *k == m && op == Bin::Xor {
                        return bin(Bin::Sub, w, &V::C(m), s, ds);
                    }
                    let rest = and_const(s, m & !*k, w, ds)?;
                    if op == Bin::Or {
                        bin(Bin::Add, w, &rest, &V::C(*k), ds)
                    } else {
                        let ov = and_const(s, *k, w, ds)?;
                        let fl = bin(Bin::Sub, w, &V::C(*k), &ov, ds)?;
                        bin(Bin::Add, w, &rest, &fl, ds)
                    }
                }
                _ => tab(a, b, ds, |x, y| conc_bin(op, w, x, y)),
            }
        }
    }
}
/// a < 2^k and b a multiple of 2^k for some k.
fn disjoint(a: &V, b: &V, ds: &Doms) -> bool {
    let (_, hi) = rng(a, ds);
    let k = 128 - hi.leading_zeros();
    if k >= 128 {
        return false;
    }
    let m = (1u128 << k) - 1;
    match b {
        V::C(c) => c & m == 0,
        V::S(s) => s.c & m == 0 && s.t.iter().all(|(v, f)| d_iter(dom(ds, *v)).all(|i| f[i] & m == 0)),
        _ => false,
    }
}
fn and_const(s: &V, k: u128, w: u32, ds: &Doms) -> R<V> {
    let mut vs = vec![];
    vars_of(s, ds, &mut vs);
    if vs.len() <= 1 {
        return tab(s, &V::C(k), ds, |x, y| Ok(x & y));
    }
    if k & (k.wrapping_add(1)) == 0 && k != !0 {
        return divpart(Part::Rem, s, k + 1, ds);
    }
    // runs of ones
    let mut acc = V::C(0);
    let mut i = 0;
    while i < w {
        if k >> i & 1 == 1 {
            let mut j = i;
            while j < w && k >> j & 1 == 1 {
                j += 1;
            }
            let hi = if i == 0 { s.clone() } else { divrem(s, 1u128 << i, ds)?.0 };
            let fld = if j == w { hi } else { divrem(&hi, 1u128 << (j - i), ds)?.1 };
            let p = bin(Bin::Mul, w, &fld, &V::C(1u128 << i), ds)?;
            acc = bin(Bin::Add, w, &acc, &p, ds)?;
            i = j;
        } else {
            i += 1;
        }
    }
    Ok(acc)
}

fn conc_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}
pub fn cmp(p: Pred, w: u32, a: &V, b: &V, ds: &Doms) -> R<V> {
    if let (V::C(a), V::C(b)) = (a, b) {
        return Ok(V::C(conc_cmp(p, w, *a, *b) as u128));
    }
    if matches!(a, V::D(_)) || matches!(b, V::D(_)) {
        let (x, y) = (plain(a, w, ds)?, plain(b, w, ds)?);
        if let Some(v) = lazy_cmp(p, w, &x, &y, ds)? {
            return Ok(v);
        }
        return cmp(p, w, &force(&x, w, ds)?, &force(&y, w, ds)?, ds);
    }
    // byte-wise comparison of wide or mixed values
    if w > 128 || matches!(p, Pred::Eq | Pred::Ne) && (matches!(a, V::B(_)) || matches!(b, V::B(_))) {
        let n = ((w + 7) / 8) as usize;
        let (x, y) = (to_cells(a, n), to_cells(b, n));
        let mut sure = true;
        let mut diff = false;
        for (x, y) in x.iter().zip(&y) {
            match (x, y) {
                (Cell::K(a), Cell::K(b)) => diff |= a != b,
                (Cell::V(s, i, m), Cell::V(t, j, o)) if i == j && m == o && (Rc::ptr_eq(s, t) || s == t) => {}
                _ => sure = false,
            }
        }
        if diff || sure {
            if !matches!(p, Pred::Eq | Pred::Ne) {
                return bad("wide comparison");
            }
            return Ok(V::C((diff == (p == Pred::Ne)) as u128));
        }
        if w > 128 {
            return bad("wide comparison");
        }
    }
    let (a, b) = (force(a, w, ds)?, force(b, w, ds)?);
    if matches!(a, V::U) || matches!(b, V::U) {
        return Ok(V::U);
    }
    let mut vs = vec![];
    vars_of(&a, ds, &mut vs);
    vars_of(&b, ds, &mut vs);
    if vs.len() <= 1 {
        return tab(&a, &b, ds, |x, y| Ok(conc_cmp(p, w, x, y) as u128));
    }
    let (a, b) = if matches!(p, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge) {
        let h = V::C(1u128 << (w - 1));
        (bin(Bin::Add, w, &a, &h, ds)?, bin(Bin::Add, w, &b, &h, ds)?)
    } else {
        (a, b)
    };
    // d = a - b over the integers
    let (c1, mut t) = lin(&a, ds);
    let (mut c2, mut t2) = lin(&b, ds);
    lin_neg(&mut c2, &mut t2);
    lin_add(&mut t, &t2);
    let mut c = c1.add(c2);
    let maxs = normal(&mut c, &mut t, ds);
    let mx = maxs.iter().fold(c, |a, b| a.add(*b));
    // thresholds: a<b iff d<0; a<=b iff d<1
    let (thr, neg) = match p {
        Pred::Eq | Pred::Ne => {
            let ne = (p == Pred::Ne) as u128;
            if c > W::Z || mx < W::Z {
                return Ok(V::C(ne));
            }
            if c == mx {
                return Ok(V::C(1 - ne));
            }
            if t.len() == 1 {
                return table(t[0].0, ds, |i| Ok(if c.add(t[0].1[i]) == W::Z { 1 - ne } else { ne }));
            }
            return Err(split_eq(c, &t, &maxs, W::Z, ds));
        }
        Pred::Ult | Pred::Slt => (W::Z, false),
        Pred::Ule | Pred::Sle => (W::u(1), false),
        Pred::Uge | Pred::Sge => (W::Z, true),
        Pred::Ugt | Pred::Sgt => (W::u(1), true),
    };
    if mx < thr {
        return Ok(V::C(!neg as u128));
    }
    if c >= thr {
        return Ok(V::C(neg as u128));
    }
    if t.len() == 1 {
        return table(t[0].0, ds, |i| Ok(((c.add(t[0].1[i]) < thr) != neg) as u128));
    }
    Err(split_thr(c, &t, &maxs, thr, ds))
}

pub fn cast(k: Cast, fw: u32, tw: u32, v: &V, ds: &Doms) -> R<V> {
    if let (V::D(_), Cast::Zext | Cast::Trunc | Cast::Sext) = (v, k) {
        let x = plain(v, fw, ds)?;
        let V::D(l) = &x else { return cast(k, fw, tw, &x, ds) };
        let fits = match k {
            Cast::Zext if tw <= 128 => true,
            Cast::Trunc if l.part == Part::Quot && tw < 128 => lazy_cmp(Pred::Ule, 128, &x, &V::C(mask(tw)), ds)?.unwrap().is_c() == Some(1),
            Cast::Trunc => lazy_max(l, ds) <= mask(tw),
            Cast::Sext => l.part != Part::Minus && lazy_max(l, ds) >> (fw - 1) == 0,
            _ => false,
        };
        if fits && (l.part != Part::Minus || fw == tw) {
            return Ok(x);
        }
        return cast(k, fw, tw, &force(&x, fw, ds)?, ds);
    }
    match k {
        Cast::Same => Ok(v.clone()),
        Cast::Zext => match v {
            V::B(b) => {
                let mut c = (**b).clone();
                c.resize(((tw + 7) / 8) as usize, Cell::K(0));
                Ok(from_cells(&c))
            }
            V::S(_) if tw > 128 => Ok(V::B(Rc::new(to_cells(v, (tw / 8) as usize)))),
            V::C(_) if tw > 128 => Ok(V::B(Rc::new(to_cells(v, (tw / 8) as usize)))),
            _ => Ok(v.clone()),
        },
        Cast::Trunc => match v {
            V::C(c) => Ok(V::C(c & mask(tw))),
            V::U => Ok(V::U),
            V::B(b) if tw % 8 == 0 => Ok(from_cells(&b[..(tw / 8) as usize])),
            V::B(b) => {
                let n = ((tw + 7) / 8) as usize;
                let v = from_cells(&b[..n]);
                let v = force(&v, n as u32 * 8, ds)?;
                if let V::U = v {
                    return Ok(V::U);
                }
                Ok(divrem(&v, 1u128 << tw, ds)?.1)
            }
            v => {
                if tw >= 128 {
                    return Ok(v.clone());
                }
                divpart(Part::Rem, v, 1u128 << tw, ds)
            }
        },
        Cast::Sext => {
            let v = force(v, fw, ds)?;
            if let V::U = v {
                return Ok(V::U);
            }
            let (lo, hi) = rng(&v, ds);
            let h = 1u128 << (fw - 1);
            if hi < h {
                return Ok(v);
            }
            if lo >= h {
                return bin(Bin::Add, tw, &v, &V::C(mask(tw) & !mask(fw)), ds);
            }
            let mut vs = vec![];
            vars_of(&v, ds, &mut vs);
            if vs.len() == 1 {
                return tab(&v, &V::C(0), ds, |x, _| Ok(sx(x, fw) as u128 & mask(tw)));
            }
            // split at the sign
            match cmp(Pred::Ult, fw, &v, &V::C(h), ds) {
                Err(e) => Err(e),
                Ok(c) => Err(split_values(&c, ds)),
            }
        }
    }
}

pub fn select(c: &V, a: &V, b: &V, ds: &Doms) -> R<V> {
    let c = simp(&force(c, 1, ds)?, ds);
    match &c {
        V::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
        V::U => Ok(V::U),
        _ => {
            let mut vs = vec![];
            vars_of(&c, ds, &mut vs);
            if vs.len() == 1 {
                let x = vs[0];
                let (mut tr, mut fa) = ([0; 4], [0; 4]);
                for i in d_iter(dom(ds, x)) {
                    if at(&c, x, i, ds) & 1 == 1 {
                        d_set(&mut tr, i)
                    } else {
                        d_set(&mut fa, i)
                    }
                }
                let mut da = ds.clone();
                da[x as usize] = tr;
                let mut db = ds.clone();
                db[x as usize] = fa;
                if let Some(v) = merge_v(a, b, x, &da, &db) {
                    return Ok(v);
                }
            }
            Err(split_values(&c, ds))
        }
    }
}

/// Value that is `a` under `da` and `b` under `db`, where the two sets of
/// domains differ in variable `x` only.
pub fn merge_v(a: &V, b: &V, x: u32, da: &Doms, db: &Doms) -> Option<V> {
    match (a, b) {
        (V::U, V::U) => Some(V::U),
        (V::C(p), V::C(q)) if p == q => Some(a.clone()),
        (V::S(p), V::S(q)) if Rc::ptr_eq(p, q) => Some(a.clone()),
        (V::C(_) | V::S(_), V::C(_) | V::S(_)) => merge_s(a, b, x, da, db),
        (V::D(p), V::D(q)) if p.part == q.part && p.k == q.k => {
            if Rc::ptr_eq(p, q) {
                return Some(a.clone());
            }
            Some(lazy(p.part, merge_v(&p.n, &q.n, x, da, db)?, p.k))
        }
        (V::A(p), V::A(q)) if p.len() == q.len() => {
            let mut r = vec![];
            for (p, q) in p.iter().zip(q.iter()) {
                r.push(merge_v(p, q, x, da, db)?);
            }
            Some(V::A(Rc::new(r)))
        }
        (V::B(p), V::B(q)) if p.len() == q.len() => {
            if Rc::ptr_eq(p, q) {
                return Some(a.clone());
            }
            Some(from_cells(&merge_cells(p, q, x, da, db)?))
        }
        (V::B(p), V::C(_) | V::S(_)) => {
            let q = to_cells(b, p.len());
            Some(from_cells(&merge_cells(p, &q, x, da, db)?))
        }
        (V::C(_) | V::S(_), V::B(q)) => {
            let p = to_cells(a, q.len());
            Some(from_cells(&merge_cells(&p, q, x, da, db)?))
        }
        _ => None,
    }
}
fn split_x(c: &mut W, t: &mut Terms, x: u32) -> Option<Vec<W>> {
    let _ = c;
    t.iter().position(|e| e.0 == x).map(|i| t.remove(i).1)
}
fn merge_s(a: &V, b: &V, x: u32, da: &Doms, db: &Doms) -> Option<V> {
    let get = |v: &V, ds: &Doms| {
        // keep x even when fixed
        let (mut c, mut t) = (W::Z, vec![]);
        match v {
            V::C(k) => c = W::u(*k),
            V::S(s) => {
                c = W::u(s.c);
                for (v, f) in &s.t {
                    if *v != x && d_count(dom(ds, *v)) == 1 {
                        c = c.add(W::u(f[d_iter(dom(ds, *v)).next().unwrap()]));
                    } else {
                        t.push((*v, f.iter().map(|x| W::u(*x)).collect::<Vec<W>>()));
                    }
                }
            }
            _ => unreachable!(),
        }
        let g = split_x(&mut c, &mut t, x);
        normal(&mut c, &mut t, ds);
        (c, t, g)
    };
    let (ca, ta, ga) = get(a, da);
    let (cb, tb, gb) = get(b, db);
    if ta.len() != tb.len() {
        return None;
    }
    for (p, q) in ta.iter().zip(&tb) {
        if p.0 != q.0 {
            return None;
        }
        for i in d_iter(dom(da, p.0)) {
            if p.1[i] != q.1[i] {
                return None;
            }
        }
    }
    let d = d_or(dom(da, x), dom(db, x));
    let n = var_size(x);
    let mut h = vec![W::Z; n];
    for i in d_iter(&d) {
        h[i] = if d_has(dom(da, x), i) {
            ca.add(ga.as_ref().map_or(W::Z, |g| g[i]))
        } else {
            cb.add(gb.as_ref().map_or(W::Z, |g| g[i]))
        };
    }
    let mut mn: Option<W> = None;
    for i in d_iter(&d) {
        if mn.map_or(true, |m| h[i] < m) {
            mn = Some(h[i])
        }
    }
    let mn = mn.unwrap();
    let mut nz = false;
    for (i, v) in h.iter_mut().enumerate() {
        if d_has(&d, i) {
            *v = v.sub(mn);
            nz |= *v != W::Z;
        }
    }
    let mut t = ta;
    if nz {
        let p = t.iter().position(|e| e.0 > x).unwrap_or(t.len());
        t.insert(p, (x, h));
    }
    Some(to_sep(mn.lo, t))
}
pub fn merge_cells(p: &[Cell], q: &[Cell], x: u32, da: &Doms, db: &Doms) -> Option<Vec<Cell>> {
    if p.len() != q.len() {
        return None;
    }
    // initialised bytes must agree
    let mut r = Vec::with_capacity(p.len());
    let mut i = 0;
    while i < p.len() {
        let same = match (&p[i], &q[i]) {
            (Cell::U, Cell::U) => true,
            (Cell::K(a), Cell::K(b)) => a == b,
            (Cell::V(a, j, n), Cell::V(b, k, m)) => j == k && n == m && Rc::ptr_eq(a, b),
            (Cell::U, _) | (_, Cell::U) => return None,
            _ => false,
        };
        if same {
            r.push(p[i].clone());
            i += 1;
            continue;
        }
        let run = |c: &Cell| match c {
            Cell::V(_, 0, n) => Some(*n as usize),
            Cell::K(_) => Some(1),
            _ => None,
        };
        let n = run(&p[i])?.max(run(&q[i])?);
        if i + n > p.len() {
            return None;
        }
        let a = force(&from_cells(&p[i..i + n]), 8 * n as u32, da).ok()?;
        let b = force(&from_cells(&q[i..i + n]), 8 * n as u32, db).ok()?;
        if matches!(a, V::U) || matches!(b, V::U) {
            return None;
        }
        let v = merge_v(&a, &b, x, da, db)?;
        r.extend(to_cells(&v, n));
        i += n;
    }
    Some(r)
}
