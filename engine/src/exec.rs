//! The symbolic executor.
use crate::ir::*;
use crate::smt::*;
use crate::val::*;
use std::cell::Cell as StdCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub struct Obj {
    pub data: Vec<Cell>,
    pub ro: bool,
    shape: StdCell<u64>,
}
impl Clone for Obj {
    fn clone(&self) -> Self {
        Obj { data: self.data.clone(), ro: self.ro, shape: StdCell::new(0) }
    }
}
impl Obj {
    pub fn new(data: Vec<Cell>, ro: bool) -> Rc<Obj> {
        Rc::new(Obj { data, ro, shape: StdCell::new(0) })
    }
    /// Hash of which bytes are initialised.
    fn shape(&self) -> u64 {
        if self.shape.get() == 0 {
            let mut h = 0x9e3779b97f4a7c15u64 ^ self.data.len() as u64;
            for c in &self.data {
                h = (h ^ matches!(c, Cell::U) as u64).wrapping_mul(0x100000001b3).rotate_left(5);
            }
            self.shape.set(h | 1);
        }
        self.shape.get()
    }
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    block: u32,
    ip: u32,
    regs: Vec<V>,
    base: usize,
    iters: Vec<u32>,
    ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub doms: Rc<Doms>,
    frames: Vec<Rc<Frame>>,
    stack: Vec<Rc<Obj>>,
    heap: Vec<Option<Rc<Obj>>>,
    glob: Rc<HashMap<u32, Rc<Obj>>>,
    expect_panic: bool,
    steps: u64,
    emits: Rc<Vec<Vec<Cell>>>,
    njob: u32,
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
    pub alloc: u64,
    pub frontier: usize,
    pub samples: usize,
    pub seconds: f64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub id: u32,
    pub text: String,
    pub model: Vec<(u32, u64)>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub model: Vec<(u32, u64)>,
    pub out: String,
    pub panicked: bool,
}
#[derive(Default)]
pub struct Report {
    pub jobs: Option<u32>,
    pub leaves: u64,
    pub merges: u64,
    pub splits: u64,
    pub steps: u64,
    pub dropped: u64,
    pub obligations: u64,
    pub trivial: u64,
    pub proved: u64,
    pub cover_queries: u64,
    pub panics_expected: u64,
    pub weight: f64,
    pub reach: BTreeMap<u32, u64>,
    pub checks: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<String>,
    pub viols: Vec<Viol>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub max_frontier: usize,
    pub vars: usize,
}

enum Stop {
    Leaf,
    Dropped,
    Yield,
    Split(u32, Vec<Dom>),
    Fork(u32, Vec<Dom>),
    Job(u32),
    Skip,
    Err(String),
}

pub struct Exec<'a> {
    pub m: &'a Module,
    pub gobj: Vec<Rc<Obj>>,
    pub lim: Limits,
    pub rep: Report,
    pub solver: Solver,
    pub job: Vec<u32>,
    pub tier: u32,
    pub boxes: Vec<Rc<Doms>>,
    used: Vec<bool>,
    pend: Vec<Obl>,
    rng: u64,
    nviol: u64,
    start: std::time::Instant,
    seen_viol: BTreeSet<(String, u32)>,
    pub trace: bool,
    /// Search for a counterexample in a small part of the input space: the
    /// variables outside a window keep one value each.
    pub narrow: Option<(u64, usize)>,
}

type Pos = Vec<u32>;

/// The values variable number `x` keeps in a narrowed search.
fn narrowed(seed: u64, w: usize, x: usize, sz: usize) -> Dom {
    let mix = |k: u64| {
        let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (k + 1).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^ h >> 32
    };
    let at = mix(1000) as usize % 24;
    if x >= at && x < at + w {
        return d_full(sz);
    }
    let h = mix(x as u64);
    let i = match (mix(1001) % 4, h % 4) {
        // all the lowest, all the highest, one in four at an end, any
        (0, 0..=2) => 0,
        (1, 0..=2) => sz - 1,
        (_, 0) => [0, sz - 1][h as usize >> 8 & 1],
        _ => (h >> 16) as usize % sz,
    };
    let mut d = [0; 4];
    d_set(&mut d, i);
    d
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, lim: Limits, solver: Solver, job: Vec<u32>, tier: u32, seed: u64) -> Self {
        let gobj = m.globals.iter().map(|g| Obj::new(g.init.clone(), g.ro)).collect();
        VARS.with(|v| v.borrow_mut().clear());
        Exec {
            m,
            gobj,
            lim,
            rep: Report::default(),
            solver,
            job,
            tier,
            boxes: vec![],
            used: vec![false; m.funcs.len()],
            pend: vec![],
            nviol: 0,
            rng: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1,
            start: std::time::Instant::now(),
            seen_viol: BTreeSet::new(),
            trace: std::env::var_os("SXE_TRACE").is_some(),
            narrow: None,
        }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn run(&mut self, entry: &str) {
        self.run_paths(entry);
        // obligations collected before a limit was hit still count
        self.flush();
    }
    fn run_paths(&mut self, entry: &str) {
        let f = match self.m.fidx.get(entry) {
            Some(f) => *f,
            None => {
                self.rep.errors.push(format!("no entry {}", entry));
                return;
            }
        };
        let mut s = State {
            doms: Rc::new(vec![]),
            frames: vec![],
            stack: vec![],
            heap: vec![],
            glob: Rc::new(HashMap::new()),
            expect_panic: false,
            steps: 0,
            emits: Rc::new(vec![]),
            njob: 0,
        };
        self.push_frame(&mut s, f, vec![], None);
        let mut roots = vec![s];
        while let Some(s) = roots.pop() {
            let mut frontier: BTreeMap<Pos, Vec<State>> = BTreeMap::new();
            let mut list = vec![s];
            let mut nfront = 0usize;
            loop {
                while let Some(mut s) = list.pop() {
                    let min = if list.is_empty() { frontier.keys().next().cloned() } else { Some(vec![]) };
                    match self.exec(&mut s, min.as_ref()) {
                        Stop::Leaf => self.leaf(s, false),
                        Stop::Dropped => {
                            self.rep.dropped += 1;
                            self.account(&s);
                        }
                        Stop::Yield => {
                            let p = self.pos(&s);
                            frontier.entry(p).or_default().push(s);
                            nfront += 1;
                        }
                        Stop::Split(v, cl) => {
                            self.rep.splits += 1;
                            for c in self.children(&s, v, cl).into_iter().rev() {
                                list.push(c);
                            }
                        }
                        Stop::Fork(v, cl) => {
                            self.rep.splits += 1;
                            roots.extend(self.children(&s, v, cl));
                        }
                        Stop::Job(n) => {
                            self.rep.jobs = Some(n);
                            return;
                        }
                        Stop::Skip => {}
                        Stop::Err(e) => {
                            self.rep.errors.push(e);
                            if self.rep.errors.len() > 3 {
                                return;
                            }
                        }
                    }
                    if nfront + list.len() > self.rep.max_frontier {
                        self.rep.max_frontier = nfront + list.len();
                    }
                    if nfront + list.len() > self.lim.frontier {
                        self.rep.errors.push("frontier limit".into());
                        return;
                    }
                    if self.start.elapsed().as_secs_f64() > self.lim.seconds {
                        self.rep.errors.push("time limit".into());
                        return;
                    }
                    if self.nviol >= 10 {
                        return;
                    }
                }
                match frontier.pop_first() {
                    None => break,
                    Some((_, v)) => {
                        nfront -= v.len();
                        list = self.merge_all(v);
                        list.reverse();
                    }
                }
            }
        }
        self.flush();
        self.cover();
        self.rep.vars = VARS.with(|v| v.borrow().len());
        for (i, u) in self.used.iter().enumerate() {
            if *u {
                self.rep.funcs.insert(self.m.funcs[i].name.clone());
            }
        }
    }

    fn children(&mut self, s: &State, v: u32, cl: Vec<Dom>) -> Vec<State> {
        // the classes partition the live values
        let d = s.doms[v as usize];
        let mut all = [0; 4];
        let mut n = 0;
        for c in &cl {
            n += d_count(c);
            all = d_or(&all, c);
        }
        assert!(all == d && n == d_count(&d) && cl.len() > 1 && cl.iter().all(|c| !d_empty(c)), "split is not a partition");
        cl.into_iter()
            .map(|c| {
                let mut t = s.clone();
                Rc::make_mut(&mut t.doms)[v as usize] = c;
                t
            })
            .collect()
    }

    fn weight(&self, s: &State) -> f64 {
        let mut w = 1.0;
        VARS.with(|v| {
            for (d, x) in s.doms.iter().zip(v.borrow().iter()) {
                if !d_empty(d) {
                    w *= d_count(d) as f64 / x.n as f64;
                }
            }
        });
        w
    }
    fn account(&mut self, s: &State) {
        self.rep.weight += self.weight(s);
        if self.boxes.len() <= 1000 {
            self.boxes.push(s.doms.clone());
        }
    }
    /// The boxes of all finished paths cover the declared input space.
    fn cover(&mut self) {
        if self.narrow.is_some() || self.boxes.len() > 1000 || self.boxes.is_empty() || !self.rep.errors.is_empty() {
            return;
        }
        let n = VARS.with(|v| v.borrow().len());
        let mut f = String::from("(and");
        for i in 0..n {
            let sz = VARS.with(|v| v.borrow()[i].n);
            if sz < 256 {
                f.push_str(&format!(" (bvult x{} {})", i, bv(sz as u128, 8)));
            }
        }
        for b in &self.boxes {
            f.push_str(&format!(" (not {})", Solver::boxed(b)));
        }
        f.push(')');
        self.rep.cover_queries += 1;
        match self.solver.check(&f, false, 120000) {
            Ok(Ans::Unsat) => {}
            Ok(Ans::Sat(_)) => self.rep.errors.push("paths do not cover the input space".into()),
            Ok(Ans::Unknown(e)) | Err(e) => self.rep.errors.push(format!("coverage query: {}", e)),
        }
    }

    fn leaf(&mut self, s: State, panicked: bool) {
        self.rep.leaves += 1;
        self.account(&s);
        let k = self.rep.leaves;
        let want = self.rep.samples.len() < self.lim.samples || self.rnd() % k < self.lim.samples as u64;
        if !want || self.lim.samples == 0 {
            return;
        }
        let pick: Vec<usize> = s
            .doms
            .clone()
            .iter()
            .map(|d| {
                let n = d_count(d) as u64;
                if n == 0 {
                    0
                } else {
                    let k = self.rnd() % n;
                    d_iter(d).nth(k as usize).unwrap()
                }
            })
            .collect();
        let mut out = String::new();
        for e in s.emits.iter() {
            for c in e {
                match eval_cell(c, &pick) {
                    Some(b) => out.push_str(&format!("{:02x}", b)),
                    None => out.push_str("??"),
                }
            }
            out.push('.');
        }
        let model = model_of(&s.doms, &pick);
        let smp = Sample { model, out, panicked };
        if self.rep.samples.len() < self.lim.samples {
            self.rep.samples.push(smp);
        } else {
            let i = (self.rnd() % self.lim.samples as u64) as usize;
            self.rep.samples[i] = smp;
        }
    }

    fn violate(&mut self, kind: &str, id: u32, text: String, doms: &Doms, idx: Option<Vec<usize>>) {
        self.nviol += 1;
        if !self.seen_viol.insert((kind.to_string(), id)) && self.rep.viols.len() > 1 {
            return;
        }
        let pick: Vec<usize> = match idx {
            Some(m) => m,
            None => doms.iter().map(|d| d_iter(d).next().unwrap_or(0)).collect(),
        };
        self.rep.viols.push(Viol { kind: kind.into(), id, text, model: model_of(doms, &pick) });
    }

    fn oblige(&mut self, o: Obl) {
        self.pend.push(o);
        if self.pend.len() >= 48 {
            self.flush();
        }
    }
    fn flush(&mut self) {
        let p = std::mem::take(&mut self.pend);
        if p.is_empty() {
            return;
        }
        let mut f = String::from("(or false");
        for o in &p {
            f.push_str(&format!(" (and {} {})", Solver::boxed(&o.box_), o.neg));
        }
        f.push(')');
        match self.solver.check(&f, false, 20000) {
            Ok(Ans::Unsat) => {
                self.rep.proved += p.len() as u64;
                return;
            }
            Ok(_) => {}
            Err(e) => {
                self.rep.errors.push(format!("solver: {}", e));
                return;
            }
        }
        for o in p {
            if self.nviol >= 10 {
                return;
            }
            let f = format!("(and {} {})", Solver::boxed(&o.box_), o.neg);
            let mut found = None;
            // a counterexample is found much sooner with most variables
            // fixed; only the query with none fixed can prove the obligation
            for fix in [100, 100, 100, 80, 50] {
                let mut g = format!("(and {}", f);
                for (x, d) in o.box_.iter().enumerate() {
                    let n = d_count(d) as u64;
                    if n > 0 && self.rnd() % 100 < fix {
                        let k = (self.rnd() % n) as usize;
                        let v = d_iter(d).nth(k).unwrap();
                        g.push_str(&format!(" (= x{} (_ bv{} 8))", x, v));
                    }
                }
                g.push(')');
                if let Ok(Ans::Sat(m)) = self.solver.check(&g, true, 2000) {
                    found = Some(m);
                    break;
                }
            }
            if let Some(m) = found {
                self.violate(o.what, o.id, "assertion can fail".into(), &o.box_.clone(), Some(m));
                continue;
            }
            match self.solver.check(&f, true, 120000) {
                Ok(Ans::Unsat) => self.rep.proved += 1,
                Ok(Ans::Sat(m)) => self.violate(o.what, o.id, "assertion can fail".into(), &o.box_.clone(), Some(m)),
                Ok(Ans::Unknown(e)) | Err(e) => self.rep.errors.push(format!("solver: {}", e)),
            }
        }
    }

    // ---- merging ----

    fn merge_all(&mut self, mut v: Vec<State>) -> Vec<State> {
        if v.len() < 2 {
            return v;
        }
        // states can only merge when the same bytes are initialised
        let mut buckets: Vec<(u64, Vec<State>)> = vec![];
        let mut index: HashMap<u64, usize> = HashMap::new();
        for s in v.drain(..) {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.frames.len().hash(&mut h);
            s.stack.len().hash(&mut h);
            s.heap.len().hash(&mut h);
            for o in &s.stack {
                o.shape().hash(&mut h);
            }
            for o in &s.heap {
                o.as_ref().map_or(0, |o| o.shape()).hash(&mut h);
            }
            for e in s.emits.iter() {
                e.len().hash(&mut h);
            }
            let k = h.finish();
            let i = *index.entry(k).or_insert_with(|| {
                buckets.push((k, vec![]));
                buckets.len() - 1
            });
            buckets[i].1.push(s);
        }
        let mut out = vec![];
        for (_, b) in buckets {
            out.extend(self.merge_bucket(b));
        }
        out
    }
    fn merge_bucket(&mut self, mut v: Vec<State>) -> Vec<State> {
        fn hd(i: usize, d: &Dom) -> u64 {
            let mut h = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
            for x in d {
                h = (h ^ x).wrapping_mul(0xff51afd7ed558ccd);
                h ^= h >> 32;
            }
            h
        }
        loop {
            if v.len() < 2 {
                return v;
            }
            let before = v.len();
            // only variables whose domain differs somewhere
            let nv = v.iter().map(|s| s.doms.len()).max().unwrap_or(0);
            let mut cand = vec![];
            for x in 0..nv {
                let d0 = v[0].doms.get(x);
                if v.iter().any(|s| s.doms.get(x) != d0) {
                    cand.push(x);
                }
            }
            for x in cand {
                let mut groups: Vec<Vec<State>> = vec![];
                let mut index: HashMap<u64, usize> = HashMap::new();
                for s in v.drain(..) {
                    let mut h = 0u64;
                    for (i, d) in s.doms.iter().enumerate() {
                        if i != x && !d_empty(d) {
                            h = h.wrapping_add(hd(i, d));
                        }
                    }
                    let i = *index.entry(h).or_insert_with(|| {
                        groups.push(vec![]);
                        groups.len() - 1
                    });
                    groups[i].push(s);
                }
                for g in groups {
                    let mut acc: Vec<State> = vec![];
                    for s in g {
                        let mut done = false;
                        for a in acc.iter_mut() {
                            if let Some(m) = self.merge(a, &s, x) {
                                *a = m;
                                done = true;
                                self.rep.merges += 1;
                                break;
                            }
                        }
                        if !done {
                            acc.push(s);
                        }
                    }
                    v.extend(acc);
                }
                if v.len() < 2 {
                    return v;
                }
            }
            if v.len() == before {
                return v;
            }
        }
    }
    fn merge(&self, a: &State, b: &State, x: usize) -> Option<State> {
        if a.doms.len() != b.doms.len() || a.expect_panic != b.expect_panic || a.njob != b.njob {
            return None;
        }
        if x >= a.doms.len() || d_empty(&a.doms[x]) || d_empty(&b.doms[x]) {
            return None;
        }
        for (i, (p, q)) in a.doms.iter().zip(b.doms.iter()).enumerate() {
            if i != x && p != q {
                return None;
            }
        }
        assert!(d_empty(&d_and(&a.doms[x], &b.doms[x])), "merge of overlapping states");
        let (da, db, x) = (&*a.doms, &*b.doms, x as u32);
        if a.frames.len() != b.frames.len() || a.stack.len() != b.stack.len() || a.heap.len() != b.heap.len() {
            return None;
        }
        let mut frames = Vec::with_capacity(a.frames.len());
        let top = a.frames.len() - 1;
        for (k, (p, q)) in a.frames.iter().zip(&b.frames).enumerate() {
            if p.f != q.f || p.block != q.block || p.ip != q.ip || p.iters != q.iters || p.base != q.base || p.ret != q.ret {
                return None;
            }
            if Rc::ptr_eq(p, q) {
                frames.push(p.clone());
                continue;
            }
            let f = &self.m.funcs[p.f as usize];
            let blk = &f.blocks[p.block as usize];
            let live: &Vec<u64> = if p.ip == 0 && k == top {
                &blk.live_in
            } else if p.ip > 0 {
                match &blk.ins[p.ip as usize - 1] {
                    I::Call(_, _, _, _, l) => &f.live_calls[*l as usize],
                    _ => return None,
                }
            } else {
                return None;
            };
            let mut regs = vec![V::U; p.regs.len()];
            for r in 0..p.regs.len() {
                if live[r / 64] >> (r % 64) & 1 == 1 {
                    regs[r] = merge_v(&p.regs[r], &q.regs[r], x, da, db)?;
                }
            }
            frames.push(Rc::new(Frame {
                f: p.f,
                block: p.block,
                ip: p.ip,
                regs,
                base: p.base,
                iters: p.iters.clone(),
                ret: p.ret,
            }));
        }
        let mo = |p: &Rc<Obj>, q: &Rc<Obj>| -> Option<Rc<Obj>> {
            if Rc::ptr_eq(p, q) {
                return Some(p.clone());
            }
            Some(Obj::new(merge_cells(&p.data, &q.data, x, da, db)?, p.ro))
        };
        let mut stack = Vec::with_capacity(a.stack.len());
        for (p, q) in a.stack.iter().zip(&b.stack) {
            stack.push(mo(p, q)?);
        }
        let mut heap = Vec::with_capacity(a.heap.len());
        for (p, q) in a.heap.iter().zip(&b.heap) {
            heap.push(match (p, q) {
                (None, None) => None,
                (Some(p), Some(q)) => Some(mo(p, q)?),
                _ => return None,
            });
        }
        let glob = if Rc::ptr_eq(&a.glob, &b.glob) {
            a.glob.clone()
        } else {
            let mut g = HashMap::new();
            for k in a.glob.keys().chain(b.glob.keys()) {
                let p = a.glob.get(k).unwrap_or(&self.gobj[*k as usize]);
                let q = b.glob.get(k).unwrap_or(&self.gobj[*k as usize]);
                g.insert(*k, mo(p, q)?);
            }
            Rc::new(g)
        };
        let emits = if Rc::ptr_eq(&a.emits, &b.emits) {
            a.emits.clone()
        } else {
            if a.emits.len() != b.emits.len() {
                return None;
            }
            let mut e = vec![];
            for (p, q) in a.emits.iter().zip(b.emits.iter()) {
                e.push(merge_cells(p, q, x, da, db)?);
            }
            Rc::new(e)
        };
        let mut doms = a.doms.clone();
        {
            let d = Rc::make_mut(&mut doms);
            d[x as usize] = d_or(&da[x as usize], &db[x as usize]);
        }
        Some(State {
            doms,
            frames,
            stack,
            heap,
            glob,
            expect_panic: a.expect_panic,
            steps: a.steps.max(b.steps),
            emits,
            njob: a.njob,
        })
    }

    fn pos(&self, s: &State) -> Pos {
        let mut p = Vec::with_capacity(s.frames.len() * 4);
        for fr in &s.frames {
            let f = &self.m.funcs[fr.f as usize];
            let o = &f.order[fr.block as usize];
            p.push(o[0]);
            for (i, it) in fr.iters.iter().enumerate() {
                p.push(*it);
                p.push(o[i + 1]);
            }
            p.push(fr.ip);
        }
        p
    }

    // ---- memory ----

    fn obj<'b>(&'b self, s: &'b State, a: u64, n: u64, write: bool) -> R<(&'b Rc<Obj>, usize)> {
        let k = a & (0xf << 60);
        let i = ((a & !(0xf << 60)) >> 32) as usize;
        let off = a & 0xffff_ffff;
        let o = match k {
            K_GLOBAL => match s.glob.get(&(i as u32)) {
                Some(o) => o,
                None => match self.gobj.get(i) {
                    Some(o) => o,
                    None => return bug("memory", format!("wild pointer {:#x}", a)),
                },
            },
            K_STACK => match s.stack.get(i) {
                Some(o) => o,
                None => return bug("memory", "dangling stack pointer"),
            },
            K_HEAP => match s.heap.get(i) {
                Some(Some(o)) => o,
                _ => return bug("memory", "use after free"),
            },
            _ => return bug("memory", format!("wild pointer {:#x}", a)),
        };
        if off + n > o.data.len() as u64 {
            return bug("memory", format!("access of {} bytes at offset {} of {}", n, off, o.data.len()));
        }
        if write && o.ro {
            return bug("memory", "write to constant memory");
        }
        Ok((o, off as usize))
    }
    fn write_cells(&self, s: &mut State, a: u64, c: &[Cell]) -> R<()> {
        if c.is_empty() {
            return Ok(());
        }
        let off = self.obj(s, a, c.len() as u64, true)?.1;
        let k = a & (0xf << 60);
        let i = ((a & !(0xf << 60)) >> 32) as usize;
        let o = match k {
            K_GLOBAL => {
                let base = self.gobj[i].clone();
                Rc::make_mut(&mut s.glob).entry(i as u32).or_insert(base)
            }
            K_STACK => &mut s.stack[i],
            _ => s.heap[i].as_mut().unwrap(),
        };
        let o = Rc::make_mut(o);
        o.shape.set(0);
        o.data[off..off + c.len()].clone_from_slice(c);
        Ok(())
    }
    fn read_cells(&self, s: &State, a: u64, n: u64) -> R<Vec<Cell>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(s, a, n, false)?;
        Ok(o.data[off..off + n as usize].to_vec())
    }
    fn load_at(&self, s: &State, t: &Ty, a: u64) -> R<V> {
        match t {
            Ty::Int(w) => {
                let n = t.store();
                let (o, off) = self.obj(s, a, n, false)?;
                let v = from_cells(&o.data[off..off + n as usize]);
                if w % 8 != 0 {
                    return match v {
                        V::C(c) => Ok(V::C(c & mask(*w))),
                        v => cast(Cast::Trunc, n as u32 * 8, *w, &v, &s.doms),
                    };
                }
                Ok(v)
            }
            Ty::Ptr => {
                let (o, off) = self.obj(s, a, 8, false)?;
                Ok(from_cells(&o.data[off..off + 8]))
            }
            Ty::Struct(f, _) => {
                let (l, _) = t.layout();
                let mut v = vec![];
                for (i, e) in f.iter().enumerate() {
                    v.push(self.load_at(s, e, a + l[i])?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_at(s, e, a + i * e.size())?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => bad("load type"),
        }
    }
    fn load(&self, s: &State, t: &Ty, a: &V) -> R<V> {
        if let V::C(a) = a {
            return self.load_at(s, t, *a as u64);
        }
        let a = simp(&force(a, 64, &s.doms)?, &s.doms);
        let mut vs = vec![];
        vars_of(&a, &s.doms, &mut vs);
        if vs.len() == 1 && matches!(t, Ty::Int(_) | Ty::Ptr) {
            let x = vs[0];
            let r = table(x, &s.doms, |i| {
                let v = self.load_at(s, t, at(&a, x, i, &s.doms) as u64)?;
                match v {
                    V::C(c) => Ok(c),
                    _ => Err(E::Bad(String::new())),
                }
            });
            match r {
                Ok(v) => return Ok(v),
                Err(E::Bad(m)) if m.is_empty() => {}
                Err(E::Bug(..)) => {}
                Err(e) => return Err(e),
            }
        }
        let a = conc(&a, 64, &s.doms)?;
        self.load_at(s, t, a as u64)
    }
    fn store_at(&self, s: &mut State, t: &Ty, v: &V, a: u64) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr => {
                let w = 8 * t.store() as u32;
                let v = &match v {
                    V::D(_) => force(v, w, &s.doms)?,
                    v => v.clone(),
                };
                let c = to_cells(v, t.store() as usize);
                self.write_cells(s, a, &c)
            }
            _ => {
                let (l, _) = t.layout();
                match v {
                    V::A(f) => {
                        for (i, x) in f.iter().enumerate() {
                            self.store_at(s, t.elem(i), x, a + l[i])?;
                        }
                        Ok(())
                    }
                    V::U => {
                        let c = vec![Cell::U; t.size() as usize];
                        self.write_cells(s, a, &c)
                    }
                    _ => bad("aggregate store"),
                }
            }
        }
    }

    // ---- execution ----

    fn push_frame(&mut self, s: &mut State, f: u32, args: Vec<V>, ret: Option<u32>) {
        let fu = &self.m.funcs[f as usize];
        self.used[f as usize] = true;
        let mut regs = vec![V::U; fu.nregs as usize];
        for (p, a) in fu.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let mut iters = vec![];
        iters.resize(fu.loops[0].len(), 0);
        s.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, base: s.stack.len(), iters, ret }));
    }

    fn jump(&self, s: &mut State, to: u32) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let f = &self.m.funcs[fr.f as usize];
        let from = fr.block;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<(u32, V)> = b
                .phis
                .iter()
                .map(|(d, v)| {
                    let o = &v.iter().find(|x| x.0 == from).expect("phi edge").1;
                    (
                        *d,
                        match o {
                            Opd::R(r) => fr.regs[*r as usize].clone(),
                            Opd::K(v) => v.clone(),
                        },
                    )
                })
                .collect();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let (lb, ls) = (&f.loops[from as usize], &f.loops[to as usize]);
        if !lb.is_empty() || !ls.is_empty() {
            let mut k = 0;
            while k < lb.len() && k < ls.len() && lb[k] == ls[k] {
                k += 1;
            }
            fr.iters.truncate(k);
            if k == ls.len() && k > 0 && f.headers[ls[k - 1] as usize] == to {
                fr.iters[k - 1] += 1;
            }
            fr.iters.resize(ls.len(), 0);
        }
        fr.block = to;
        fr.ip = 0;
    }

    fn exec(&mut self, s: &mut State, min: Option<&Pos>) -> Stop {
        let start = s.steps;
        let r = self.exec_inner(s, min);
        self.rep.steps += s.steps - start;
        match r {
            Ok(s) => s,
            Err(E::Split(v, c)) => {
                if self.trace {
                    eprintln!("split x{} at {}", v, self.where_(s));
                }
                Stop::Split(v, c)
            }
            Err(E::Bug(k, t)) => {
                let d = s.doms.clone();
                let at = self.where_(s);
                if k == "panic" && s.expect_panic {
                    self.rep.panics_expected += 1;
                    self.leaf(s.clone(), true);
                    return Stop::Skip;
                }
                self.violate(k, 0, format!("{} in {}", t, at), &d, None);
                self.account(s);
                Stop::Skip
            }
            Err(E::Bad(t)) => Stop::Err(format!("{} in {}", t, self.where_(s))),
        }
    }
    fn where_(&self, s: &State) -> String {
        s.frames
            .iter()
            .rev()
            .take(4)
            .map(|f| {
                let fu = &self.m.funcs[f.f as usize];
                format!("{}:{}+{}", fu.name, fu.blocks[f.block as usize].name, f.ip)
            })
            .collect::<Vec<_>>()
            .join(" < ")
    }

    fn exec_inner(&mut self, s: &mut State, min: Option<&Pos>) -> R<Stop> {
        let m = self.m;
        loop {
            let fr = s.frames.last().unwrap();
            let (fi, bi, ip) = (fr.f, fr.block, fr.ip);
            let f = &m.funcs[fi as usize];
            let ins = &f.blocks[bi as usize].ins[ip as usize];
            s.steps += 1;
            if s.steps > self.lim.steps {
                return bug("steps", "step limit");
            }
            macro_rules! v {
                ($o:expr) => {
                    match $o {
                        Opd::R(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
                        Opd::K(v) => v.clone(),
                    }
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                    fr.regs[$d as usize] = v;
                    fr.ip = ip + 1;
                }};
            }
            match ins {
                I::Bin(op, w, a, b, d) => {
                    let r = bin(*op, *w, &v!(a), &v!(b), &s.doms)?;
                    set!(*d, r)
                }
                I::Cmp(p, w, a, b, d) => {
                    let r = cmp(*p, *w, &v!(a), &v!(b), &s.doms)?;
                    set!(*d, r)
                }
                I::Sel(c, a, b, d) => {
                    let r = select(&v!(c), &v!(a), &v!(b), &s.doms)?;
                    set!(*d, r)
                }
                I::Cast(k, fw, tw, a, d) => {
                    let r = cast(*k, *fw, *tw, &v!(a), &s.doms)?;
                    set!(*d, r)
                }
                I::Load(t, a, d) => {
                    let r = self.load(s, t, &v!(a))?;
                    set!(*d, r)
                }
                I::Store(t, a, p) => {
                    let val = v!(a);
                    let p = conc(&v!(p), 64, &s.doms)?;
                    self.store_at(s, t, &val, p as u64)?;
                    Rc::make_mut(s.frames.last_mut().unwrap()).ip = ip + 1;
                }
                I::Gep(base, off, dynv, d) => {
                    let mut r = v!(base);
                    if *off != 0 {
                        r = bin(Bin::Add, 64, &r, &V::C(*off as u128), &s.doms)?;
                    }
                    for (o, w, st) in dynv {
                        let i = v!(o);
                        let i = if *w < 64 { cast(Cast::Sext, *w, 64, &i, &s.doms)? } else { i };
                        let x = bin(Bin::Mul, 64, &i, &V::C(*st as u128), &s.doms)?;
                        r = bin(Bin::Add, 64, &r, &x, &s.doms)?;
                    }
                    set!(*d, r)
                }
                I::Alloca(n, d) => {
                    let i = s.stack.len();
                    s.stack.push(Obj::new(vec![Cell::U; *n as usize], false));
                    set!(*d, V::C(addr(K_STACK, i) as u128))
                }
                I::Extract(a, ix, d) => {
                    let mut x = v!(a);
                    for i in ix {
                        x = match x {
                            V::A(f) => f[*i].clone(),
                            V::U => V::U,
                            _ => return bad("extractvalue"),
                        };
                    }
                    set!(*d, x)
                }
                I::Insert(a, b, ix, t, d) => {
                    let x = v!(a);
                    let y = v!(b);
                    set!(*d, insert(&x, t, ix, &y))
                }
                I::Freeze(_, a, d) => {
                    let x = v!(a);
                    if let V::U = x {
                        return bad("freeze of undef");
                    }
                    set!(*d, x)
                }
                I::Br(b) => {
                    self.jump(s, *b);
                    if self.at_join(s, min) {
                        return Ok(Stop::Yield);
                    }
                }
                I::CBr(c, x, y) => {
                    let c = conc(&v!(c), 1, &s.doms)?;
                    self.jump(s, if c & 1 == 1 { *x } else { *y });
                    if self.at_join(s, min) {
                        return Ok(Stop::Yield);
                    }
                }
                I::Switch(w, c, df, cs) => {
                    let c = simp(&force(&v!(c), *w, &s.doms)?, &s.doms);
                    let find = |k: u128| cs.iter().find(|e| e.0 == k).map_or(*df, |e| e.1);
                    let to = match &c {
                        V::C(k) => find(*k),
                        V::U => return bad("switch on uninitialised value"),
                        c => {
                            let mut vs = vec![];
                            vars_of(c, &s.doms, &mut vs);
                            if vs.len() == 1 {
                                let cl = classes(&s.doms[vs[0] as usize], |i| find(at(c, vs[0], i, &s.doms)));
                                if cl.len() > 1 {
                                    return Err(E::Split(vs[0], cl));
                                }
                                let i = d_iter(&s.doms[vs[0] as usize]).next().unwrap();
                                find(at(c, vs[0], i, &s.doms))
                            } else {
                                // one equality per case, each splitting no more than it needs
                                let mut to = *df;
                                for (k, b) in cs {
                                    let e = cmp(Pred::Eq, *w, c, &V::C(*k), &s.doms)?;
                                    if conc(&e, 1, &s.doms)? & 1 == 1 {
                                        to = *b;
                                        break;
                                    }
                                }
                                to
                            }
                        }
                    };
                    self.jump(s, to);
                    if self.at_join(s, min) {
                        return Ok(Stop::Yield);
                    }
                }
                I::Ret(o) => {
                    let r = o.as_ref().map(|o| v!(o));
                    let fr = s.frames.pop().unwrap();
                    s.stack.truncate(fr.base);
                    if s.frames.is_empty() {
                        return Ok(Stop::Leaf);
                    }
                    if let (Some(d), Some(r)) = (fr.ret, r) {
                        Rc::make_mut(s.frames.last_mut().unwrap()).regs[d as usize] = r;
                    }
                    if let Some(mn) = min {
                        if self.pos(s) >= *mn {
                            return Ok(Stop::Yield);
                        }
                    }
                }
                I::Unreachable => return bug("ub", "unreachable code reached"),
                I::Call(d, rt, cal, args, _) => {
                    let target = match cal {
                        Callee::Fn(f) => Ok(*f),
                        Callee::Ext(n) => Err(n.clone()),
                        Callee::Ind(o) => {
                            let a = conc(&v!(o), 64, &s.doms)? as u64;
                            let i = ((a & !(0xf << 60)) >> 32) as u32;
                            if a & (0xf << 60) != K_FUNC || i as usize >= m.funcs.len() || a & 0xffff_ffff != 0 {
                                return bug("memory", "call through a bad pointer");
                            }
                            Ok(i)
                        }
                    };
                    let av: Vec<V> = args.iter().map(|(_, o)| v!(o)).collect();
                    match target {
                        Ok(f) => {
                            if s.frames.len() >= self.lim.depth {
                                return bug("steps", "recursion limit");
                            }
                            if av.len() != m.funcs[f as usize].params.len() {
                                return bad("argument count");
                            }
                            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                            fr.ip = ip + 1;
                            if let Some(d) = d {
                                fr.regs[*d as usize] = V::U;
                            }
                            self.push_frame(s, f, av, *d);
                        }
                        Err(n) => match self.ext(s, &n, &av, args, rt)? {
                            Ext::V(v) => {
                                if let Some(d) = d {
                                    set!(*d, v)
                                } else {
                                    Rc::make_mut(s.frames.last_mut().unwrap()).ip = ip + 1;
                                }
                            }
                            Ext::Stop(st) => return Ok(st),
                        },
                    }
                }
            }
        }
    }

    fn at_join(&self, s: &State, min: Option<&Pos>) -> bool {
        let mn = match min {
            Some(m) => m,
            None => return false,
        };
        let fr = s.frames.last().unwrap();
        if self.m.funcs[fr.f as usize].npreds[fr.block as usize] < 2 {
            return false;
        }
        self.pos(s) >= *mn
    }

    fn ovf(&self, op: Bin, signed: bool, w: u32, a: &V, b: &V, ds: &Doms) -> R<V> {
        let pair = |v: V, o: V| V::A(Rc::new(vec![v, o]));
        if !signed && (matches!(a, V::D(_)) || matches!(b, V::D(_))) {
            let (a, b) = (plain(a, w, ds)?, plain(b, w, ds)?);
            if let Some(o) = lazy_ovf(op, w, &a, &b, ds)? {
                return Ok(pair(bin(op, w, &a, &b, ds)?, V::C(o as u128)));
            }
        }
        let (a, b) = (simp(&force(a, w, ds)?, ds), simp(&force(b, w, ds)?, ds));
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(pair(V::U, V::U));
        }
        let conc1 = |x: u128, y: u128| -> bool {
            if signed {
                if w > 64 {
                    let (x, y) = (x as i128, y as i128);
                    return match op {
                        Bin::Add => x.checked_add(y).is_none(),
                        Bin::Sub => x.checked_sub(y).is_none(),
                        _ => x.checked_mul(y).is_none(),
                    };
                }
                let (x, y) = (sext64(x, w) as i64 as i128, sext64(y, w) as i64 as i128);
                let r = match op {
                    Bin::Add => x + y,
                    Bin::Sub => x - y,
                    _ => x * y,
                };
                r < -(1i128 << (w - 1)) || r >= 1i128 << (w - 1)
            } else {
                let m = mask(w);
                match op {
                    Bin::Add => x.checked_add(y).map_or(true, |r| r > m),
                    Bin::Sub => x < y,
                    _ => x.checked_mul(y).map_or(true, |r| r > m),
                }
            }
        };
        if let (V::C(x), V::C(y)) = (&a, &b) {
            return Ok(pair(bin(op, w, &a, &b, ds)?, V::C(conc1(*x, *y) as u128)));
        }
        if signed && w > 64 {
            return bad("signed 128-bit overflow");
        }
        let mut vs = vec![];
        vars_of(&a, ds, &mut vs);
        vars_of(&b, ds, &mut vs);
        if vs.len() <= 1 && !vs.is_empty() {
            let x = vs[0];
            let v = table(x, ds, |i| match bin(op, w, &V::C(at(&a, x, i, ds)), &V::C(at(&b, x, i, ds)), ds)? {
                V::C(c) => Ok(c),
                _ => bad("ovf"),
            })?;
            let o = table(x, ds, |i| Ok(conc1(at(&a, x, i, ds), at(&b, x, i, ds)) as u128))?;
            return Ok(pair(v, o));
        }
        if signed {
            return Err(split_values(if matches!(b, V::C(_)) { &a } else { &b }, ds));
        }
        // a threshold on the operands decides the overflow
        let o = match op {
            Bin::Sub => cmp(Pred::Ult, w, &a, &b, ds)?,
            Bin::Add => {
                if let V::C(k) = b {
                    cmp(Pred::Ugt, w, &a, &V::C(mask(w) - k), ds)?
                } else {
                    let nb = bin(Bin::Xor, w, &b, &V::C(mask(w)), ds)?;
                    cmp(Pred::Ugt, w, &a, &nb, ds)?
                }
            }
            _ => match (&a, &b) {
                (x, V::C(k)) | (V::C(k), x) => {
                    if *k == 0 {
                        V::C(0)
                    } else {
                        cmp(Pred::Ugt, w, x, &V::C(mask(w) / k), ds)?
                    }
                }
                _ => return Err(split_values(&b, ds)),
            },
        };
        match o {
            V::C(_) => Ok(pair(bin(op, w, &a, &b, ds)?, o)),
            o => Err(split_values(&o, ds)),
        }
    }

    fn un(&self, v: &V, w: u32, ds: &Doms, f: impl Fn(u128) -> u128) -> R<V> {
        let v = simp(&force(v, w, ds)?, ds);
        match &v {
            V::U => Ok(V::U),
            V::C(c) => Ok(V::C(f(*c))),
            v => {
                let mut vs = vec![];
                vars_of(v, ds, &mut vs);
                if vs.len() == 1 {
                    table(vs[0], ds, |i| Ok(f(at(v, vs[0], i, ds))))
                } else {
                    Err(split_values(v, ds))
                }
            }
        }
    }

    fn ext(&mut self, s: &mut State, n: &str, a: &[V], args: &[(Ty, Opd)], _rt: &Ty) -> R<Ext> {
        let ok = |v: V| Ok(Ext::V(v));
        let ds = s.doms.clone();
        let w0 = || args[0].0.width();
        let settled: Vec<V>;
        let mut a = a;
        if a.iter().any(|v| matches!(v, V::D(_))) && !["uadd", "usub", "umul", "umin", "umax", "ucmp", "expect"].iter().any(|k| n[..].starts_with(&format!("llvm.{k}"))) {
            let mut r = vec![];
            for (v, t) in a.iter().zip(args) {
                r.push(if let V::D(_) = v { force(v, t.0.width(), &ds)? } else { v.clone() });
            }
            settled = r;
            a = &settled;
        }
        let a = a;
        let c = |i: usize| conc(&a[i], args[i].0.width(), &ds);
        if let Some(r) = n.strip_prefix("llvm.") {
            let base = r.split('.').next().unwrap();
            match base {
                "lifetime" => {
                    let p = a.last().unwrap();
                    if let V::C(p) = p {
                        let p = *p as u64;
                        if p & (0xf << 60) == K_STACK {
                            let i = ((p & !(0xf << 60)) >> 32) as usize;
                            if let Some(o) = s.stack.get(i) {
                                if !o.data.iter().all(|c| matches!(c, Cell::U)) {
                                    let n = o.data.len();
                                    s.stack[i] = Obj::new(vec![Cell::U; n], false);
                                }
                            }
                        }
                    }
                    return ok(V::U);
                }
                "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" => return ok(V::U),
                "assume" => {
                    let mut vs = vec![];
                    vars_of(&a[0], &ds, &mut vs);
                    if let V::C(0) = a[0] {
                        return bug("ub", "assumption violated");
                    } else if vs.len() == 1 && c(0)? == 0 {
                        return bug("ub", "assumption violated");
                    }
                    return ok(V::U);
                }
                "expect" => return ok(a[0].clone()),
                "is" => return ok(V::C(0)), // llvm.is.constant: any answer is correct
                "trap" | "ubsantrap" | "debugtrap" => return bug("panic", "trap"),
                "memcpy" | "memmove" => {
                    let len = c(2)? as u64;
                    if len == 0 {
                        return ok(V::U);
                    }
                    let dst = c(0)? as u64;
                    let src = simp(&force(&a[1], 64, &ds)?, &ds);
                    let cells = match &src {
                        V::C(p) => self.read_cells(s, *p as u64, len)?,
                        _ => {
                            let mut out = vec![];
                            for k in 0..len {
                                let p = bin(Bin::Add, 64, &src, &V::C(k as u128), &ds)?;
                                let v = self.load(s, &Ty::Int(8), &p)?;
                                out.extend(to_cells(&v, 1));
                            }
                            out
                        }
                    };
                    if base == "memcpy" && dst & !0xffff_ffff == src.is_c().unwrap_or(0) as u64 & !0xffff_ffff {
                        let (x, y) = (dst, src.is_c().unwrap() as u64);
                        if x != y && x < y + len && y < x + len {
                            return bug("ub", "overlapping copy");
                        }
                    }
                    self.write_cells(s, dst, &cells)?;
                    return ok(V::U);
                }
                "memset" => {
                    let len = c(2)? as usize;
                    let b = to_cells(&a[1], 1)[0].clone();
                    self.write_cells(s, c(0)? as u64, &vec![b; len])?;
                    return ok(V::U);
                }
                "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                    let op = match &base[1..] {
                        "add" => Bin::Add,
                        "sub" => Bin::Sub,
                        _ => Bin::Mul,
                    };
                    let signed = base.starts_with('s');
                    let r = self.ovf(op, signed, w0(), &a[0], &a[1], &ds)?;
                    if r.contains_sat(n) {
                        // saturating forms
                        let (v, o) = match &r {
                            V::A(f) => (f[0].clone(), f[1].clone()),
                            _ => unreachable!(),
                        };
                        if signed {
                            return bad("signed saturation");
                        }
                        let lim = if op == Bin::Sub { V::C(0) } else { V::C(mask(w0())) };
                        return ok(select(&o, &lim, &v, &ds)?);
                    }
                    return ok(r);
                }
                "umin" | "umax" | "smin" | "smax" => {
                    let p = match base {
                        "umin" => Pred::Ult,
                        "umax" => Pred::Ugt,
                        "smin" => Pred::Slt,
                        _ => Pred::Sgt,
                    };
                    let k = cmp(p, w0(), &a[0], &a[1], &ds)?;
                    return ok(select(&k, &a[0], &a[1], &ds)?);
                }
                "ctpop" => return ok(self.un(&a[0], w0(), &ds, |x| x.count_ones() as u128)?),
                "bitreverse" => {
                    let w = w0();
                    return ok(self.un(&a[0], w, &ds, |x| x.reverse_bits() >> (128 - w))?);
                }
                "ctlz" => {
                    let w = w0();
                    // only the highest bit counts
                    let v = simp(&force(&a[0], w, &ds)?, &ds);
                    if let V::S(_) = v {
                        let bits = |x: u128| 128 - x.leading_zeros();
                        let (lo, hi) = rng(&v, &ds);
                        if bits(lo) == bits(hi) {
                            return ok(V::C((w - bits(hi)) as u128));
                        }
                        let mut vs = vec![];
                        vars_of(&v, &ds, &mut vs);
                        if vs.len() > 1 {
                            decide(cmp(Pred::Uge, w, &v, &V::C(1 << (bits(hi) - 1)), &ds)?, &ds)?;
                        }
                    }
                    return ok(self.un(&a[0], w, &ds, |x| (x.leading_zeros() - (128 - w)) as u128)?);
                }
                "cttz" => {
                    let w = w0();
                    return ok(self.un(&a[0], w, &ds, |x| x.trailing_zeros().min(w) as u128)?);
                }
                "bswap" => {
                    let w = w0();
                    let mut cs = to_cells(&a[0], (w / 8) as usize);
                    cs.reverse();
                    return ok(from_cells(&cs));
                }
                "abs" => {
                    let w = w0();
                    return ok(self.un(&a[0], w, &ds, |x| if x >> (w - 1) == 1 { x.wrapping_neg() & mask(w) } else { x })?);
                }
                "ucmp" | "scmp" => {
                    let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                    let rw = _rt.width();
                    let l = cmp(lt, w0(), &a[0], &a[1], &ds)?;
                    let g = cmp(gt, w0(), &a[0], &a[1], &ds)?;
                    let x = select(&g, &V::C(1), &V::C(0), &ds)?;
                    return ok(select(&l, &V::C(mask(rw)), &x, &ds)?);
                }
                "fshl" | "fshr" => {
                    let w = w0();
                    let k = c(2)? as u32 % w;
                    let (hi, lo) = if base == "fshl" { (k, w - k) } else { (w - k, k) };
                    let x = if hi >= w { V::C(0) } else { bin(Bin::Shl, w, &a[0], &V::C(hi as u128), &ds)? };
                    let y = if lo >= w { V::C(0) } else { bin(Bin::LShr, w, &a[1], &V::C(lo as u128), &ds)? };
                    return ok(bin(Bin::Or, w, &x, &y, &ds)?);
                }
                _ => return bad(format!("intrinsic {}", n)),
            }
        }
        match n {
            "sx_var" => {
                let (id, lo, hi) = (c(0)? as u32, c(1)? as u64, c(2)? as u64);
                if hi < lo || hi - lo > 255 {
                    return bad("variable range");
                }
                let sz = (hi - lo) as usize + 1;
                if sz == 1 {
                    return ok(V::C(lo as u128));
                }
                let x = VARS.with(|v| {
                    let mut v = v.borrow_mut();
                    let k = Var { id, lo, n: sz };
                    match v.iter().position(|y| *y == k) {
                        Some(i) => i,
                        None => {
                            v.push(k);
                            v.len() - 1
                        }
                    }
                });
                let d = Rc::make_mut(&mut s.doms);
                if d.len() <= x {
                    d.resize(x + 1, [0; 4]);
                }
                if d_empty(&d[x]) {
                    d[x] = match self.narrow {
                        None => d_full(sz),
                        Some((seed, w)) => narrowed(seed, w, x, sz),
                    };
                }
                let f: Vec<u128> = (0..sz as u128).collect();
                let v = V::S(Rc::new(Sep { c: lo as u128, t: vec![(x as u32, Rc::new(f))] }));
                return ok(simp(&v, &s.doms.clone()));
            }
            "sx_fork" => {
                let v = simp(&force(&a[0], 64, &ds)?, &ds);
                match &v {
                    V::C(_) => return ok(v),
                    v => match split_values(v, &ds) {
                        E::Split(x, cl) => return Ok(Ext::Stop(Stop::Fork(x, cl))),
                        e => return Err(e),
                    },
                }
            }
            "sx_job" => {
                let n = c(0)? as u32;
                let i = s.njob as usize;
                if i >= self.job.len() {
                    return Ok(Ext::Stop(Stop::Job(n)));
                }
                s.njob += 1;
                return ok(V::C(self.job[i] as u128));
            }
            "sx_tier" => return ok(V::C(self.tier as u128)),
            "sx_assume" => {
                if c(0)? & 1 == 0 {
                    return Ok(Ext::Stop(Stop::Dropped));
                }
                return ok(V::U);
            }
            "sx_reach" => {
                *self.rep.reach.entry(c(0)? as u32).or_default() += 1;
                return ok(V::U);
            }
            "sx_expect_panic" => {
                s.expect_panic = c(0)? & 1 == 1;
                return ok(V::U);
            }
            "sx_check" => {
                let id = c(1)? as u32;
                let v = simp(&force(&a[0], 1, &ds)?, &ds);
                self.rep.obligations += 1;
                *self.rep.checks.entry(id).or_default() += 1;
                match v {
                    V::C(k) if k & 1 == 1 => self.rep.trivial += 1,
                    V::U => return bug("memory", "uninitialised value asserted"),
                    v => {
                        let t = self.solver.term(&v, 8, &ds).map_err(E::Bad)?;
                        self.oblige(Obl { id, what: "check", box_: ds.clone(), neg: format!("(= {} {})", t, bv(0, 8)) });
                    }
                }
                return ok(V::U);
            }
            "sx_eq" => {
                let id = c(4)? as u32;
                let (l1, l2) = (c(1)? as u64, c(3)? as u64);
                let (p, q) = (c(0)? as u64, c(2)? as u64);
                let x = self.read_cells(s, p, l1)?;
                let y = self.read_cells(s, q, l2)?;
                self.rep.obligations += 1;
                *self.rep.checks.entry(id).or_default() += 1;
                if x.iter().any(|c| matches!(c, Cell::U)) || y.iter().any(|c| matches!(c, Cell::U)) {
                    return bug("memory", "uninitialised byte in a text");
                }
                let (xs, ys) = (&x, &y);
                let mut neg = String::new();
                if l1 != l2 {
                    neg = " true".into();
                } else {
                    let mut skip = 0;
                    for (i, (x, y)) in x.iter().zip(&y).enumerate() {
                        if i < skip {
                            continue;
                        }
                        // whole integers
                        if let (Cell::V(p, 0, n), Cell::V(q, 0, m)) = (x, y) {
                            let whole = |z: &[Cell], p: &Rc<Sep>| {
                                (0..*n).all(|j| matches!(z.get(i + j as usize), Some(Cell::V(r, k, m)) if Rc::ptr_eq(r, p) && *k == j && m == n))
                            };
                            if n == m && *n > 1 && whole(&xs, p) && whole(&ys, q) {
                                let w = 8 * *n as u32;
                                let (t, u) = (
                                    self.solver.term(&V::S(p.clone()), w, &ds).map_err(E::Bad)?,
                                    self.solver.term(&V::S(q.clone()), w, &ds).map_err(E::Bad)?,
                                );
                                neg.push_str(&format!(" (not (= {} {}))", t, u));
                                skip = i + *n as usize;
                                continue;
                            }
                        }
                        if let (Cell::K(a), Cell::K(b)) = (x, y) {
                            if a == b {
                                continue;
                            }
                        }
                        let (t, u) = (self.solver.byte(x, &ds).map_err(E::Bad)?, self.solver.byte(y, &ds).map_err(E::Bad)?);
                        neg.push_str(&format!(" (not (= {} {}))", t, u));
                    }
                }
                if neg.is_empty() {
                    self.rep.trivial += 1;
                } else {
                    self.oblige(Obl { id, what: "eq", box_: ds.clone(), neg: format!("(or false{})", neg) });
                }
                return ok(V::U);
            }
            "sx_emit" => {
                let x = self.read_cells(s, c(0)? as u64, c(1)? as u64)?;
                Rc::make_mut(&mut s.emits).push(x);
                return ok(V::U);
            }
            "sx_panic" => return bug("panic", "panic"),
            "sx_alloc" => {
                let n = c(0)? as u64;
                if n > self.lim.alloc {
                    return bug("steps", format!("allocation of {} bytes", n));
                }
                s.heap.push(Some(Obj::new(vec![Cell::U; n as usize], false)));
                return ok(V::C(addr(K_HEAP, s.heap.len() - 1) as u128));
            }
            "sx_free" => {
                let (p, n) = (c(0)? as u64, c(1)?);
                let i = ((p & !(0xf << 60)) >> 32) as usize;
                let size = self.obj(s, p, 0, false)?.0.data.len() as u128;
                if p & (0xf << 60) != K_HEAP || p & 0xffff_ffff != 0 || size != n {
                    return bug("memory", "bad deallocation");
                }
                s.heap[i] = None;
                return ok(V::U);
            }
            "sx_realloc" => {
                let (p, n, m) = (c(0)? as u64, c(1)?, c(3)? as u64);
                let i = ((p & !(0xf << 60)) >> 32) as usize;
                let old = self.obj(s, p, 0, false)?.0.data.clone();
                if p & (0xf << 60) != K_HEAP || p & 0xffff_ffff != 0 || old.len() as u128 != n {
                    return bug("memory", "bad reallocation");
                }
                if m > self.lim.alloc {
                    return bug("steps", format!("allocation of {} bytes", m));
                }
                s.heap[i] = None;
                let mut d = old;
                d.resize(m as usize, Cell::U);
                s.heap.push(Some(Obj::new(d, false)));
                return ok(V::C(addr(K_HEAP, s.heap.len() - 1) as u128));
            }
            "sx_live" => return ok(V::C(s.heap.iter().filter(|h| h.is_some()).count() as u128)),
            "memcpy" | "memmove" => {
                let len = c(2)? as u64;
                let cells = self.read_cells(s, c(1)? as u64, len)?;
                self.write_cells(s, c(0)? as u64, &cells)?;
                return ok(a[0].clone());
            }
            "memcmp" | "bcmp" => {
                let len = c(2)? as u64;
                if len == 0 {
                    return ok(V::C(0));
                }
                let x = self.read_cells(s, c(0)? as u64, len)?;
                let y = self.read_cells(s, c(1)? as u64, len)?;
                for (p, q) in x.iter().zip(&y) {
                    if let (Cell::K(p), Cell::K(q)) = (p, q) {
                        if p == q {
                            continue;
                        }
                        return ok(V::C(if p < q { mask(32) } else { 1 }));
                    }
                    let (p, q) = (cell_v(p, &ds)?, cell_v(q, &ds)?);
                    match cmp(Pred::Eq, 8, &p, &q, &ds)? {
                        V::C(1) => continue,
                        V::C(_) => match cmp(Pred::Ult, 8, &p, &q, &ds)? {
                            V::C(k) => return ok(V::C(if k == 1 { mask(32) } else { 1 })),
                            V::U => return bug("memory", "comparison of uninitialised memory"),
                            v => return Err(split_values(&v, &ds)),
                        },
                        V::U => return bug("memory", "comparison of uninitialised memory"),
                        v => return Err(split_values(&v, &ds)),
                    }
                }
                return ok(V::C(0));
            }
            _ => {}
        }
        bad(format!("external function {}", n))
    }
}

fn cell_v(c: &Cell, ds: &Doms) -> R<V> {
    match c {
        Cell::U => bug("memory", "uninitialised byte"),
        Cell::K(k) => Ok(V::C(*k as u128)),
        Cell::V(s, j, n) => byte_of(s, *j, *n, ds),
    }
}

enum Ext {
    V(V),
    Stop(Stop),
}
impl V {
    fn contains_sat(&self, n: &str) -> bool {
        n.contains(".sat.")
    }
}

fn insert(x: &V, t: &Ty, ix: &[usize], y: &V) -> V {
    if ix.is_empty() {
        return y.clone();
    }
    let n = match t {
        Ty::Arr(n, _) => *n as usize,
        Ty::Struct(f, _) => f.len(),
        _ => 0,
    };
    let mut f = match x {
        V::A(f) => (**f).clone(),
        _ => vec![V::U; n],
    };
    f[ix[0]] = insert(&f[ix[0]].clone(), t.elem(ix[0]), &ix[1..], y);
    V::A(Rc::new(f))
}

fn eval_cell(c: &Cell, pick: &[usize]) -> Option<u8> {
    match c {
        Cell::U => None,
        Cell::K(k) => Some(*k),
        Cell::V(s, j, _) => {
            let mut r = s.c;
            for (x, f) in &s.t {
                r = r.wrapping_add(f[pick[*x as usize]]);
            }
            Some((r >> (8 * *j)) as u8)
        }
    }
}
fn model_of(doms: &Doms, pick: &[usize]) -> Vec<(u32, u64)> {
    VARS.with(|v| {
        let v = v.borrow();
        doms.iter()
            .enumerate()
            .filter(|d| !d_empty(d.1))
            .map(|(i, _)| (v[i].id, v[i].lo + pick[i] as u64))
            .collect()
    })
}
