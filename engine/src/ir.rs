//! Textual LLVM IR -> a small executable form.
use crate::val::V;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (w + 7) / 8 {
                0..=1 => 1,
                2 => 2,
                3..=4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (_, s) = self.layout();
                s
            }
            _ => 0,
        }
    }
    /// Bytes written by a store.
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut v = vec![];
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    v.push(o);
                    o += t.size();
                }
                let a = self.align();
                (v, (o + a - 1) / a * a)
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                ((0..*n).map(|i| i * s).collect(), n * s)
            }
            _ => (vec![], self.size()),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("elem"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    OrDisjoint,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Same,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(Rc<str>),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u32, Opd, Opd, u32),
    Cmp(Pred, u32, Opd, Opd, u32),
    Sel(Opd, Opd, Opd, u32),
    Cast(Cast, u32, u32, Opd, u32),
    Load(Ty, Opd, u32),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>, u32),
    Alloca(u64, u32),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>, u32 /*live set index*/),
    Extract(Opd, Vec<usize>, u32),
    Insert(Opd, Opd, Vec<usize>, Ty, u32),
    Freeze(Ty, Opd, u32),
    Br(u32),
    CBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<I>,
    pub live_in: Vec<u64>,
}
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<u32>>, // None: function exit
    pub live_calls: Vec<Vec<u64>>,
    pub ninstr: usize,
    /// Loops containing each block, outermost first; the block's topological
    /// index at every nesting level; the header of each loop.
    pub loops: Vec<Vec<u32>>,
    pub order: Vec<Vec<u32>>,
    pub headers: Vec<u32>,
    pub npreds: Vec<u32>,
}
pub struct Global {
    pub name: String,
    pub init: Vec<crate::val::Cell>,
    pub ro: bool,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
}

pub const K_GLOBAL: u64 = 1 << 60;
pub const K_STACK: u64 = 2 << 60;
pub const K_HEAP: u64 = 3 << 60;
pub const K_FUNC: u64 = 4 << 60;
pub fn addr(kind: u64, idx: usize) -> u64 {
    kind | ((idx as u64) << 32)
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),   // word
    L(String),   // %local
    G(String),   // @global
    N(i128, bool), // number (unsigned 128 stored as wrapping)
    S(Vec<u8>),  // string
    M,           // metadata !...
    P(char),
}

fn lex(line: &str) -> Vec<T> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' {
            i += 1;
            continue;
        }
        if c == b';' {
            break;
        }
        if c == b'%' || c == b'@' {
            let mut j = i + 1;
            let name;
            if j < b.len() && b[j] == b'"' {
                j += 1;
                let s = j;
                while b[j] != b'"' {
                    j += 1;
                }
                name = line[s..j].to_string();
                j += 1;
            } else {
                let s = j;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                name = line[s..j].to_string();
            }
            o.push(if c == b'%' { T::L(name) } else { T::G(name) });
            i = j;
            continue;
        }
        if c == b'!' {
            // metadata: !name or !123 or !{...}; swallow the identifier
            let mut j = i + 1;
            while j < b.len() && is_id(b[j]) {
                j += 1;
            }
            o.push(T::M);
            i = j;
            continue;
        }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let mut j = if c == b'c' { i + 2 } else { i + 1 };
            let mut s = vec![];
            while b[j] != b'"' {
                if b[j] == b'\\' {
                    if b[j + 1] == b'\\' {
                        s.push(b'\\');
                        j += 2;
                        continue;
                    }
                    let h = u8::from_str_radix(&line[j + 1..j + 3], 16).unwrap();
                    s.push(h);
                    j += 3;
                } else {
                    s.push(b[j]);
                    j += 1;
                }
            }
            o.push(T::S(s));
            i = j + 1;
            continue;
        }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let neg = c == b'-';
            let mut j = if neg { i + 1 } else { i };
            let s = j;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j < b.len() && is_id(b[j]) {
                // label like 12abc or a float; take as word
                while j < b.len() && (is_id(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                o.push(T::W(line[i..j].to_string()));
                i = j;
                continue;
            }
            let v: u128 = line[s..j].parse().unwrap();
            let v = if neg { (v as i128).wrapping_neg() } else { v as i128 };
            o.push(T::N(v, neg));
            i = j;
            continue;
        }
        if c == b'#' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            i = j;
            continue;
        }
        if is_id(c) {
            let s = i;
            let mut j = i;
            while j < b.len() && is_id(b[j]) {
                j += 1;
            }
            o.push(T::W(line[s..j].to_string()));
            i = j;
            continue;
        }
        o.push(T::P(c as char));
        i += 1;
    }
    o
}

struct P<'a> {
    t: &'a [T],
    i: usize,
    m: &'a Names,
    types: &'a HashMap<String, Ty>,
    regs: Option<&'a HashMap<String, u32>>,
}
struct Names {
    f: HashMap<String, u32>,
    g: HashMap<String, u32>,
}

fn int_ty(w: &str) -> Option<u32> {
    if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

impl<'a> P<'a> {
    fn pk(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn isp(&self, c: char) -> bool {
        self.pk() == Some(&T::P(c))
    }
    fn isw(&self, s: &str) -> bool {
        matches!(self.pk(), Some(T::W(w)) if w == s)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, s: &str) -> bool {
        if self.isw(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {} at {} in {:?}", c, self.i, self.t);
        }
    }
    fn num(&mut self) -> i128 {
        match self.pk() {
            Some(&T::N(n, _)) => {
                self.i += 1;
                n
            }
            _ => panic!("expected number at {} in {:?}", self.i, self.t),
        }
    }
    fn local(&mut self) -> String {
        match self.pk() {
            Some(T::L(n)) => {
                let n = n.clone();
                self.i += 1;
                n
            }
            _ => panic!("expected local at {} in {:?}", self.i, self.t),
        }
    }
    fn is_ty(&self) -> bool {
        match self.pk() {
            Some(T::W(w)) => {
                int_ty(w).is_some()
                    || matches!(
                        w.as_str(),
                        "ptr" | "void" | "float" | "double" | "half" | "metadata" | "token" | "x86_fp80"
                    )
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::L(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = self.pk().cloned();
        match t {
            Some(T::W(w)) => {
                self.i += 1;
                if let Some(n) = int_ty(&w) {
                    return Ty::Int(n);
                }
                match w.as_str() {
                    "ptr" => {
                        if self.isw("addrspace") {
                            self.i += 1;
                            self.skip_paren();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    _ => Ty::Other,
                }
            }
            Some(T::P('[')) => {
                self.i += 1;
                let n = self.num();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n as u64, Box::new(t))
            }
            Some(T::P('{')) => {
                self.i += 1;
                let mut f = vec![];
                while !self.eat('}') {
                    f.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(f, false)
            }
            Some(T::P('<')) => {
                self.i += 1;
                if self.eat('{') {
                    let mut f = vec![];
                    while !self.eat('}') {
                        f.push(self.ty());
                        self.eat(',');
                    }
                    self.exp('>');
                    Ty::Struct(f, true)
                } else {
                    // vector
                    let n = self.num();
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.exp('>');
                    let _ = (n, t);
                    Ty::Other
                }
            }
            Some(T::L(n)) => {
                self.i += 1;
                self.types[&n].clone()
            }
            x => panic!("type expected: {:?} in {:?}", x, self.t),
        }
    }
    fn skip_paren(&mut self) {
        if self.isp('(') {
            let mut d = 0;
            loop {
                if self.isp('(') {
                    d += 1
                }
                if self.isp(')') {
                    d -= 1
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    /// Skips attribute words until a value or type token.
    fn skip_attrs(&mut self) {
        loop {
            match self.pk() {
                Some(T::W(w)) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint"
                            | "getelementptr" | "asm" | "none" | "bitcast" | "addrspacecast" | "add" | "sub" | "trunc"
                            | "ptrtoaddr"
                    ) || int_ty(w).is_some()
                        || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "metadata")
                    {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if al && matches!(self.pk(), Some(T::N(..))) {
                        self.i += 1;
                    }
                    self.skip_paren();
                }
                Some(T::S(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn gaddr(&self, n: &str) -> u64 {
        if let Some(i) = self.m.f.get(n) {
            addr(K_FUNC, *i as usize)
        } else if let Some(i) = self.m.g.get(n) {
            addr(K_GLOBAL, *i as usize)
        } else {
            // external symbol whose address is taken: opaque, distinct
            addr(K_FUNC, 0x0fff_ffff)
        }
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        match self.pk().cloned() {
            Some(T::L(n)) => {
                self.i += 1;
                Opd::R(*self.regs.expect("reg in const").get(&n).unwrap_or_else(|| panic!("unknown reg {}", n)))
            }
            _ => Opd::K(self.cval(ty)),
        }
    }
    fn cval(&mut self, ty: &Ty) -> V {
        let t = self.pk().cloned();
        self.i += 1;
        match t {
            Some(T::G(n)) => V::C(self.gaddr(&n) as u128),
            Some(T::N(n, _)) => match ty {
                Ty::Int(w) if *w <= 128 => V::C((n as u128) & crate::val::mask(*w)),
                Ty::Int(w) => {
                    // wider than 128 bits
                    let mut v = vec![];
                    for i in 0..((w + 7) / 8) {
                        let x = if i < 16 { (n >> (8 * i)) as u8 } else if n < 0 { 255 } else { 0 };
                        v.push(crate::val::Cell::K(x));
                    }
                    V::B(Rc::new(v))
                }
                _ => V::U,
            },
            Some(T::W(w)) => match w.as_str() {
                "true" => V::C(1),
                "false" => V::C(0),
                "null" => V::C(0),
                "undef" | "poison" => V::U,
                "zeroinitializer" => V::zero(ty),
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.exp(')');
                    match v {
                        V::C(c) => V::C(c & crate::val::mask(t2.width())),
                        v => v,
                    }
                }
                "getelementptr" => {
                    self.skip_flags();
                    self.exp('(');
                    let t = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let p = self.cval(&pt);
                    let mut off: u64 = 0;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat(',') {
                        self.eatw("inrange");
                        let it = self.ty();
                        let iv = match self.cval(&it) {
                            V::C(c) => sext64(c, it.width()),
                            _ => panic!("gep const"),
                        };
                        if first {
                            off = off.wrapping_add(iv.wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            let (l, _) = cur.layout();
                            match &cur {
                                Ty::Arr(_, e) => {
                                    off = off.wrapping_add(iv.wrapping_mul(e.size()));
                                }
                                _ => off = off.wrapping_add(l[iv as usize]),
                            }
                            cur = cur.elem(iv as usize).clone();
                        }
                    }
                    self.exp(')');
                    match p {
                        V::C(c) => V::C((c as u64).wrapping_add(off) as u128),
                        v => v,
                    }
                }
                "add" | "sub" => {
                    self.skip_flags();
                    self.exp('(');
                    let t = self.ty();
                    let a = self.cval(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.cval(&t2);
                    self.exp(')');
                    match (a, b) {
                        (V::C(a), V::C(b)) => V::C(
                            (if w == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) })
                                & crate::val::mask(t.width()),
                        ),
                        _ => panic!("const expr"),
                    }
                }
                _ => panic!("const {} in {:?}", w, self.t),
            },
            Some(T::S(s)) => V::A(Rc::new(s.into_iter().map(|b| V::C(b as u128)).collect())),
            Some(T::P('[')) => {
                let mut v = vec![];
                while !self.eat(']') {
                    let t = self.ty();
                    v.push(self.cval(&t));
                    self.eat(',');
                }
                V::A(Rc::new(v))
            }
            Some(T::P('{')) => {
                let mut v = vec![];
                while !self.eat('}') {
                    let t = self.ty();
                    v.push(self.cval(&t));
                    self.eat(',');
                }
                V::A(Rc::new(v))
            }
            Some(T::P('<')) => {
                let st = self.eat('{');
                if !st {
                    panic!("vector constant");
                }
                let mut v = vec![];
                while !self.eat('}') {
                    let t = self.ty();
                    v.push(self.cval(&t));
                    self.eat(',');
                }
                self.exp('>');
                V::A(Rc::new(v))
            }
            x => panic!("const {:?} in {:?}", x, self.t),
        }
    }
    fn skip_flags(&mut self) -> Vec<String> {
        let mut f = vec![];
        while let Some(T::W(w)) = self.pk().cloned() {
            if matches!(
                w.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "samesign" | "nneg" | "inbounds" | "nusw" | "volatile" | "inrange"
            ) {
                f.push(w.clone());
                self.i += 1;
                if w == "inrange" {
                    self.skip_paren();
                }
            } else {
                break;
            }
        }
        f
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
}

pub fn sext64(c: u128, w: u32) -> u64 {
    if w >= 64 {
        return c as u64;
    }
    let s = 128 - w;
    (((c << s) as i128) >> s) as i64 as u64
}

fn flatten(ty: &Ty, v: &V, out: &mut [crate::val::Cell]) {
    use crate::val::Cell;
    match (ty, v) {
        (_, V::U) => {}
        (Ty::Int(_), V::C(c)) | (Ty::Ptr, V::C(c)) => {
            for (i, o) in out.iter_mut().enumerate().take(ty.store() as usize) {
                *o = Cell::K(if i < 16 { (c >> (8 * i)) as u8 } else { 0 });
            }
        }
        (Ty::Int(_), V::B(b)) => {
            for (i, c) in b.iter().enumerate() {
                out[i] = c.clone();
            }
        }
        (_, V::A(a)) => {
            let (l, _) = ty.layout();
            for (i, x) in a.iter().enumerate() {
                let e = ty.elem(i);
                let o = l[i] as usize;
                flatten(e, x, &mut out[o..o + e.size() as usize]);
            }
        }
        _ => panic!("flatten {:?} {:?}", ty, v),
    }
}

/// Instruction mnemonics that make a line start an instruction without result.
pub fn parse(text: &str) -> Result<Module, String> {
    let mut names = Names { f: HashMap::new(), g: HashMap::new() };
    let mut types: HashMap<String, Ty> = HashMap::new();
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: names
    let fname = |l: &str| -> String {
        let at = l.find('@').unwrap();
        match &lex(&l[at..])[0] {
            T::G(n) => n.clone(),
            _ => unreachable!(),
        }
    };
    let mut gl: Vec<&str> = vec![];
    let mut typelines = vec![];
    let mut aliases: Vec<(String, String)> = vec![];
    for l in &lines {
        if l.starts_with("define ") {
            let n = names.f.len() as u32;
            names.f.insert(fname(l), n);
        } else if l.starts_with('@') {
            if l.contains(" alias ") {
                let t = lex(l);
                let a = match &t[0] {
                    T::G(n) => n.clone(),
                    _ => continue,
                };
                if let Some(T::G(b)) = t.iter().rev().find(|x| matches!(x, T::G(_))) {
                    aliases.push((a, b.clone()));
                }
                continue;
            }
            let n = names.g.len() as u32;
            names.g.insert(fname(l), n);
            gl.push(l);
        } else if l.starts_with('%') && l.contains(" = type ") {
            typelines.push(*l);
        }
    }
    for (a, b) in aliases {
        if let Some(x) = names.f.get(&b).copied() {
            names.f.insert(a, x);
        }
    }
    for l in typelines {
        let t = lex(l);
        let n = match &t[0] {
            T::L(n) => n.clone(),
            _ => continue,
        };
        let mut p = P { t: &t, i: 3, m: &names, types: &types.clone(), regs: None };
        let ty = p.ty();
        types.insert(n, ty);
    }
    // globals
    let mut globals = vec![];
    for l in gl {
        let t = lex(l);
        let mut p = P { t: &t, i: 0, m: &names, types: &types, regs: None };
        let name = match &t[0] {
            T::G(n) => n.clone(),
            _ => unreachable!(),
        };
        // find 'constant' or 'global'
        let mut ro = false;
        let mut ext = false;
        loop {
            if p.isw("constant") {
                ro = true;
                p.i += 1;
                break;
            }
            if p.isw("global") {
                p.i += 1;
                break;
            }
            if p.isw("external") {
                ext = true;
            }
            p.i += 1;
            if p.i >= t.len() {
                return Err(format!("global {}", name));
            }
        }
        let ty = p.ty();
        let mut cells = vec![crate::val::Cell::U; ty.size() as usize];
        if !ext {
            let v = p.cval(&ty);
            flatten(&ty, &v, &mut cells);
        }
        globals.push(Global { name, init: cells, ro });
    }
    // functions
    let mut funcs = vec![];
    let mut i = 0;
    while i < lines.len() {
        if lines[i].starts_with("define ") {
            let mut j = i + 1;
            while lines[j] != "}" {
                j += 1;
            }
            let f = parse_fn(&lines[i..j], &names, &types)?;
            funcs.push(f);
            i = j;
        }
        i += 1;
    }
    Ok(Module { funcs, fidx: names.f, globals, gidx: names.g })
}

fn parse_fn(ls: &[&str], names: &Names, types: &HashMap<String, Ty>) -> Result<Func, String> {
    // header
    let h = lex(ls[0]);
    let gi = h.iter().position(|t| matches!(t, T::G(_))).unwrap();
    let name = match &h[gi] {
        T::G(n) => n.clone(),
        _ => unreachable!(),
    };
    let mut regs: HashMap<String, u32> = HashMap::new();
    let mut params = vec![];
    {
        let mut p = P { t: &h, i: gi + 1, m: names, types, regs: None };
        p.exp('(');
        let mut k = 0;
        while !p.eat(')') {
            if p.eat('.') {
                p.eat('.');
                p.eat('.');
                continue;
            }
            if p.isw("...") {
                p.i += 1;
                continue;
            }
            p.ty();
            p.skip_attrs();
            let n = if let Some(T::L(_)) = p.pk() { p.local() } else { k.to_string() };
            k += 1;
            let r = regs.len() as u32;
            regs.insert(n, r);
            params.push(r);
            p.eat(',');
        }
    }
    // split into blocks of token lines
    let mut blocks: Vec<(String, Vec<Vec<T>>)> = vec![];
    let mut k = 1;
    while k < ls.len() {
        let l = ls[k];
        k += 1;
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let n = l.split(';').next().unwrap().trim_end();
            let n = n.strip_suffix(':').ok_or_else(|| format!("label {}", l))?;
            let n = n.trim_matches('"').to_string();
            blocks.push((n, vec![]));
            continue;
        }
        if blocks.is_empty() {
            blocks.push((params.len().to_string(), vec![]));
        }
        let mut t = lex(l);
        if t.is_empty() {
            continue;
        }
        let is_switch = matches!(&t[0], T::W(w) if w == "switch");
        if is_switch && !l.trim_end().ends_with(']') {
            loop {
                let l2 = ls[k];
                k += 1;
                t.extend(lex(l2));
                if l2.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        if t.iter().any(|x| matches!(x, T::W(w) if w == "invoke")) && k < ls.len() && ls[k].trim_start().starts_with("to label") {
            t.extend(lex(ls[k]));
            k += 1;
        }
        // landingpad clauses
        if let T::W(w) = &t[0] {
            if matches!(w.as_str(), "cleanup" | "catch" | "filter") {
                continue;
            }
        }
        if let (T::L(n), Some(T::P('='))) = (&t[0], t.get(1)) {
            let r = regs.len() as u32;
            regs.insert(n.clone(), r);
        }
        blocks.last_mut().unwrap().1.push(t);
    }
    let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
    let lab = |p: &mut P| -> u32 {
        assert!(p.eatw("label"), "label in {:?}", p.t);
        let n = p.local();
        bidx[&n]
    };
    let mut out = vec![];
    let mut ninstr = 0;
    let mut temps = 0; // registers beyond the named ones
    for (bn, tl) in &blocks {
        let mut b = Block { name: bn.clone(), phis: vec![], ins: vec![], live_in: vec![] };
        for t in tl {
            ninstr += 1;
            let mut p = P { t, i: 0, m: names, types, regs: Some(&regs) };
            let mut d = None;
            if let (T::L(n), Some(T::P('='))) = (&t[0], t.get(1)) {
                d = Some(regs[n]);
                p.i = 2;
            }
            while p.isw("tail") || p.isw("musttail") || p.isw("notail") {
                p.i += 1;
            }
            let op = match p.pk() {
                Some(T::W(w)) => w.clone(),
                x => return Err(format!("instruction {:?}", x)),
            };
            p.i += 1;
            let bin = match op.as_str() {
                "add" => Some(Bin::Add),
                "sub" => Some(Bin::Sub),
                "mul" => Some(Bin::Mul),
                "udiv" => Some(Bin::UDiv),
                "urem" => Some(Bin::URem),
                "sdiv" => Some(Bin::SDiv),
                "srem" => Some(Bin::SRem),
                "shl" => Some(Bin::Shl),
                "lshr" => Some(Bin::LShr),
                "ashr" => Some(Bin::AShr),
                "and" => Some(Bin::And),
                "or" => Some(Bin::Or),
                "xor" => Some(Bin::Xor),
                _ => None,
            };
            if let Some(mut bo) = bin {
                let fl = p.skip_flags();
                if bo == Bin::Or && fl.iter().any(|f| f == "disjoint") {
                    bo = Bin::OrDisjoint;
                }
                let ty = p.ty();
                if !matches!(ty, Ty::Int(_)) {
                    return Err(format!("vector op {:?}", t));
                }
                let a = p.val(&ty);
                p.exp(',');
                let c = p.val(&ty);
                b.ins.push(I::Bin(bo, ty.width(), a, c, d.unwrap()));
                continue;
            }
            match op.as_str() {
                "icmp" => {
                    p.skip_flags();
                    let pr = match p.pk() {
                        Some(T::W(w)) => match w.as_str() {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            _ => return Err(format!("icmp {:?}", t)),
                        },
                        _ => return Err(format!("icmp {:?}", t)),
                    };
                    p.i += 1;
                    let ty = p.ty();
                    let a = p.val(&ty);
                    p.exp(',');
                    let c = p.val(&ty);
                    b.ins.push(I::Cmp(pr, ty.width(), a, c, d.unwrap()));
                }
                "select" => {
                    let (_, c) = p.tyval();
                    p.exp(',');
                    let (_, x) = p.tyval();
                    p.exp(',');
                    let (_, y) = p.tyval();
                    b.ins.push(I::Sel(c, x, y, d.unwrap()));
                }
                "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                    p.skip_flags();
                    let (ft, v) = p.tyval();
                    assert!(p.eatw("to"));
                    let tt = p.ty();
                    let (fw, tw) = (ft.width(), tt.width());
                    let k = match op.as_str() {
                        "zext" => Cast::Zext,
                        "sext" => Cast::Sext,
                        "trunc" => Cast::Trunc,
                        _ => {
                            if fw < tw {
                                Cast::Zext
                            } else if fw > tw {
                                Cast::Trunc
                            } else {
                                Cast::Same
                            }
                        }
                    };
                    b.ins.push(I::Cast(k, fw, tw, v, d.unwrap()));
                }
                "load" => {
                    p.eatw("atomic");
                    p.eatw("volatile");
                    let ty = p.ty();
                    p.exp(',');
                    let (_, a) = p.tyval();
                    b.ins.push(I::Load(ty, a, d.unwrap()));
                }
                "store" => {
                    p.eatw("atomic");
                    p.eatw("volatile");
                    let (ty, v) = p.tyval();
                    p.exp(',');
                    let (_, a) = p.tyval();
                    b.ins.push(I::Store(ty, v, a));
                }
                // one thread: atomic operations are plain ones
                "fence" => {}
                "atomicrmw" => {
                    p.eatw("volatile");
                    let k = match p.pk() {
                        Some(T::W(w)) => w.clone(),
                        x => return Err(format!("atomicrmw {:?}", x)),
                    };
                    p.i += 1;
                    let (_, a) = p.tyval();
                    p.exp(',');
                    let (ty, v) = p.tyval();
                    let d = d.unwrap_or_else(|| {
                        temps += 1;
                        regs.len() as u32 + temps - 1
                    });
                    b.ins.push(I::Load(ty.clone(), a.clone(), d));
                    let op = match k.as_str() {
                        "xchg" => None,
                        "add" => Some(Bin::Add),
                        "sub" => Some(Bin::Sub),
                        "and" => Some(Bin::And),
                        "or" => Some(Bin::Or),
                        "xor" => Some(Bin::Xor),
                        _ => return Err(format!("atomicrmw {}", k)),
                    };
                    let r = match op {
                        None => v,
                        Some(op) => {
                            let r = regs.len() as u32 + temps;
                            temps += 1;
                            b.ins.push(I::Bin(op, ty.width(), Opd::R(d), v, r));
                            Opd::R(r)
                        }
                    };
                    b.ins.push(I::Store(ty, r, a));
                }
                "getelementptr" => {
                    p.skip_flags();
                    let ty = p.ty();
                    p.exp(',');
                    let (_, base) = p.tyval();
                    let mut off = 0u64;
                    let mut dynv = vec![];
                    let mut cur = ty.clone();
                    let mut first = true;
                    while p.eat(',') {
                        if let Some(T::M) = p.pk() {
                            break;
                        }
                        let (it, iv) = p.tyval();
                        let stride;
                        if first {
                            stride = cur.size();
                        } else {
                            match &cur {
                                Ty::Arr(_, e) => stride = e.size(),
                                _ => stride = 0,
                            }
                        }
                        match (&iv, first, &cur) {
                            (Opd::K(V::C(c)), false, Ty::Struct(..)) => {
                                let (l, _) = cur.layout();
                                off = off.wrapping_add(l[*c as usize]);
                                cur = cur.elem(*c as usize).clone();
                            }
                            (Opd::K(V::C(c)), f, _) => {
                                off = off.wrapping_add(sext64(*c, it.width()).wrapping_mul(stride));
                                if !f {
                                    cur = cur.elem(0).clone();
                                }
                            }
                            (_, f, _) => {
                                dynv.push((iv.clone(), it.width(), stride));
                                if !f {
                                    cur = cur.elem(0).clone();
                                }
                            }
                        }
                        first = false;
                    }
                    b.ins.push(I::Gep(base, off, dynv, d.unwrap()));
                }
                "alloca" => {
                    let ty = p.ty();
                    let mut n = 1;
                    if p.eat(',') && p.is_ty() {
                        let (_, v) = p.tyval();
                        match v {
                            Opd::K(V::C(c)) => n = c as u64,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                    b.ins.push(I::Alloca(ty.size() * n, d.unwrap()));
                }
                "call" | "invoke" => {
                    // skip cc and return attributes
                    loop {
                        match p.pk() {
                            Some(T::W(w)) if int_ty(w).is_none() && !matches!(w.as_str(), "ptr" | "void" | "float" | "double") => {
                                let al = w == "align";
                                p.i += 1;
                                if al && matches!(p.pk(), Some(T::N(..))) {
                                    p.i += 1;
                                }
                                p.skip_paren();
                            }
                            _ => break,
                        }
                    }
                    let rt = p.ty();
                    if p.isp('(') {
                        p.skip_paren();
                    }
                    let callee = match p.pk().cloned() {
                        Some(T::G(n)) => {
                            p.i += 1;
                            if let Some(f) = names.f.get(&n) {
                                Callee::Fn(*f)
                            } else {
                                Callee::Ext(n.as_str().into())
                            }
                        }
                        Some(T::L(_)) => Callee::Ind(p.val(&Ty::Ptr)),
                        Some(T::W(w)) if w == "asm" => Callee::Ext("asm".into()),
                        x => return Err(format!("callee {:?}", x)),
                    };
                    let mut args = vec![];
                    if matches!(&callee, Callee::Ext(n) if &**n=="asm" || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg")) {
                        b.ins.push(I::Call(d, rt, callee, args, 0));
                    } else {
                        p.exp('(');
                        while !p.eat(')') {
                            let t = p.ty();
                            p.skip_attrs();
                            if t == Ty::Other {
                                // metadata etc.
                                while !p.isp(',') && !p.isp(')') {
                                    if p.isp('(') || p.isp('{') {
                                        p.i += 1;
                                        continue;
                                    }
                                    p.i += 1;
                                }
                                p.eat(',');
                                continue;
                            }
                            let v = p.val(&t);
                            args.push((t, v));
                            p.eat(',');
                        }
                        b.ins.push(I::Call(d, rt, callee, args, 0));
                    }
                    if op == "invoke" {
                        while !p.isw("to") {
                            p.i += 1;
                        }
                        p.i += 1;
                        let l = lab(&mut p);
                        b.ins.push(I::Br(l));
                    }
                }
                "extractvalue" => {
                    let (_, a) = p.tyval();
                    let mut ix = vec![];
                    while p.eat(',') {
                        if let Some(T::M) = p.pk() {
                            break;
                        }
                        ix.push(p.num() as usize);
                    }
                    b.ins.push(I::Extract(a, ix, d.unwrap()));
                }
                "insertvalue" => {
                    let (t, a) = p.tyval();
                    p.exp(',');
                    let (_, v) = p.tyval();
                    let mut ix = vec![];
                    while p.eat(',') {
                        if let Some(T::M) = p.pk() {
                            break;
                        }
                        ix.push(p.num() as usize);
                    }
                    b.ins.push(I::Insert(a, v, ix, t, d.unwrap()));
                }
                "freeze" => {
                    let (t, a) = p.tyval();
                    b.ins.push(I::Freeze(t, a, d.unwrap()));
                }
                "phi" => {
                    p.skip_flags();
                    let ty = p.ty();
                    let mut v = vec![];
                    loop {
                        p.exp('[');
                        let x = p.val(&ty);
                        p.exp(',');
                        let l = p.local();
                        p.exp(']');
                        v.push((bidx[&l], x));
                        if !p.eat(',') {
                            break;
                        }
                        if let Some(T::M) = p.pk() {
                            break;
                        }
                    }
                    b.phis.push((d.unwrap(), v));
                }
                "br" => {
                    if p.isw("label") {
                        let l = lab(&mut p);
                        b.ins.push(I::Br(l));
                    } else {
                        let (_, c) = p.tyval();
                        p.exp(',');
                        let x = lab(&mut p);
                        p.exp(',');
                        let y = lab(&mut p);
                        b.ins.push(I::CBr(c, x, y));
                    }
                }
                "switch" => {
                    let (t, v) = p.tyval();
                    p.exp(',');
                    let df = lab(&mut p);
                    p.exp('[');
                    let mut cs = vec![];
                    while !p.eat(']') {
                        let t = p.ty();
                        let c = match p.cval(&t) {
                            V::C(c) => c,
                            _ => return Err("switch".into()),
                        };
                        p.exp(',');
                        let l = lab(&mut p);
                        cs.push((c, l));
                    }
                    b.ins.push(I::Switch(t.width(), v, df, cs));
                }
                "ret" => {
                    if p.isw("void") {
                        b.ins.push(I::Ret(None));
                    } else {
                        let (_, v) = p.tyval();
                        b.ins.push(I::Ret(Some(v)));
                    }
                }
                "unreachable" => b.ins.push(I::Unreachable),
                "landingpad" | "resume" | "cleanupret" => b.ins.push(I::Unreachable),
                _ => return Err(format!("unsupported instruction {} in {}: {:?}", op, name, t)),
            }
        }
        out.push(b);
    }
    let nregs = regs.len() as u32 + temps;
    let mut f = Func { name, params, nregs, blocks: out, ipdom: vec![], live_calls: vec![], ninstr, loops: vec![], order: vec![], headers: vec![], npreds: vec![] };
    mask_before_trunc(&mut f);
    analyse(&mut f);
    loops(&mut f);
    Ok(f)
}

/// `and (trunc x), c` becomes `trunc (and x, c)` where the truncated value has
/// no other use: the same value, without forming x modulo a power of two.
fn mask_before_trunc(f: &mut Func) {
    let mut uses: HashMap<u32, usize> = HashMap::new();
    {
        let mut seen = |o: &Opd| {
            if let Opd::R(r) = o {
                *uses.entry(*r).or_default() += 1;
            }
        };
        for b in &f.blocks {
            for (_, v) in &b.phis {
                v.iter().for_each(|x| seen(&x.1));
            }
            for i in &b.ins {
                match i {
                    I::Bin(_, _, a, b, _) | I::Cmp(_, _, a, b, _) | I::Store(_, a, b) | I::Insert(a, b, _, _, _) => {
                        seen(a);
                        seen(b);
                    }
                    I::Sel(c, a, b, _) => {
                        seen(c);
                        seen(a);
                        seen(b);
                    }
                    I::Cast(_, _, _, a, _) | I::Load(_, a, _) | I::Extract(a, _, _) | I::Freeze(_, a, _) => seen(a),
                    I::Gep(a, _, v, _) => {
                        seen(a);
                        v.iter().for_each(|x| seen(&x.0));
                    }
                    I::Call(_, _, c, a, _) => {
                        if let Callee::Ind(o) = c {
                            seen(o);
                        }
                        a.iter().for_each(|x| seen(&x.1));
                    }
                    I::CBr(c, _, _) | I::Switch(_, c, _, _) | I::Ret(Some(c)) => seen(c),
                    _ => {}
                }
            }
        }
    }
    for b in &mut f.blocks {
        let mut k = 0;
        while k < b.ins.len() {
            if let I::Cast(Cast::Trunc, fw, tw, a, d) = b.ins[k].clone() {
                let at: Vec<usize> = (k + 1..b.ins.len())
                    .filter(|j| matches!(&b.ins[*j], I::Bin(Bin::And, w, Opd::R(r), Opd::K(V::C(_)), _) if *r == d && *w == tw))
                    .collect();
                if !at.is_empty() && uses.get(&d) == Some(&at.len()) {
                    for j in at.into_iter().rev() {
                        if let I::Bin(Bin::And, _, _, c, e) = b.ins[j].clone() {
                            let t = f.nregs;
                            f.nregs += 1;
                            b.ins[j] = I::Cast(Cast::Trunc, fw, tw, Opd::R(t), e);
                            b.ins.insert(j, I::Bin(Bin::And, fw, a.clone(), c, t));
                        }
                    }
                    b.ins.remove(k);
                    continue;
                }
            }
            k += 1;
        }
    }
    // `and (or x, y), c` becomes `or (and x, c), (and y, c)` in the same way
    // (and for xor): bytes that the mask clears need not be combined.
    for b in &mut f.blocks {
        let mut k = b.ins.len();
        while k > 0 {
            k -= 1;
            if let I::Bin(Bin::And, w, Opd::R(r), Opd::K(V::C(c)), e) = b.ins[k].clone() {
                let def = (0..k).find(|j| matches!(&b.ins[*j], I::Bin(Bin::Or | Bin::OrDisjoint | Bin::Xor, _, _, _, d) if *d == r));
                if let (Some(j), Some(1)) = (def, uses.get(&r)) {
                    if let I::Bin(op, _, x, y, _) = b.ins[j].clone() {
                        let (t, u) = (f.nregs, f.nregs + 1);
                        f.nregs += 2;
                        b.ins[k] = I::Bin(op, w, Opd::R(t), Opd::R(u), e);
                        b.ins.insert(k, I::Bin(Bin::And, w, y, Opd::K(V::C(c)), u));
                        b.ins.insert(k, I::Bin(Bin::And, w, x, Opd::K(V::C(c)), t));
                        b.ins.remove(j);
                        // back to the two new masks
                        k += 1;
                    }
                }
            }
        }
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    for i in &b.ins {
        match i {
            I::Br(x) => return vec![*x],
            I::CBr(_, x, y) => return vec![*x, *y],
            I::Switch(_, _, d, c) => {
                let mut v = vec![*d];
                v.extend(c.iter().map(|x| x.1));
                return v;
            }
            I::Ret(_) | I::Unreachable => return vec![],
            _ => {}
        }
    }
    vec![]
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let sc: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    // blocks that can reach a return
    let mut can = vec![false; n];
    for (i, b) in f.blocks.iter().enumerate() {
        can[i] = b.ins.iter().any(|x| matches!(x, I::Ret(_)));
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            if !can[i] && sc[i].iter().any(|s| can[*s as usize]) {
                can[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // post-dominators over blocks that can return; exit = n
    let words = (n + 1 + 63) / 64;
    let full = vec![!0u64; words];
    let mut pd: Vec<Vec<u64>> = vec![full.clone(); n + 1];
    let mut only_exit = vec![0u64; words];
    only_exit[n / 64] |= 1 << (n % 64);
    pd[n] = only_exit.clone();
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            if !can[i] {
                continue;
            }
            let mut s = full.clone();
            let isret = f.blocks[i].ins.iter().any(|x| matches!(x, I::Ret(_)));
            if isret {
                s = only_exit.clone();
            } else {
                for j in &sc[i] {
                    if can[*j as usize] {
                        for k in 0..words {
                            s[k] &= pd[*j as usize][k];
                        }
                    }
                }
            }
            s[i / 64] |= 1 << (i % 64);
            if s != pd[i] {
                pd[i] = s;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let cnt = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
    let mut ip = vec![None; n];
    for i in 0..n {
        if !can[i] {
            continue;
        }
        // immediate post-dominator: the strict post-dominator with the largest set
        let mut best: Option<(u32, u32)> = None;
        for j in 0..=n {
            if j != i && pd[i][j / 64] >> (j % 64) & 1 == 1 {
                let c = cnt(&pd[j]);
                if best.map_or(true, |b| c > b.0) {
                    best = Some((c, j as u32));
                }
            }
        }
        ip[i] = match best {
            Some((_, j)) if (j as usize) < n => Some(j),
            _ => None,
        };
    }
    f.ipdom = ip;
    // liveness
    let rw = (f.nregs as usize + 63) / 64;
    let mut live_in: Vec<Vec<u64>> = vec![vec![0; rw]; n];
    let mut calls: Vec<Vec<u64>> = vec![];
    fn use_op(o: &Opd, s: &mut [u64]) {
        if let Opd::R(r) = o {
            s[*r as usize / 64] |= 1 << (r % 64);
        }
    }
    fn def(r: u32, s: &mut [u64]) {
        s[r as usize / 64] &= !(1 << (r % 64));
    }
    fn step(i: &I, s: &mut [u64]) {
        match i {
            I::Bin(_, _, a, b, d) | I::Cmp(_, _, a, b, d) => {
                def(*d, s);
                use_op(a, s);
                use_op(b, s);
            }
            I::Sel(c, a, b, d) => {
                def(*d, s);
                use_op(c, s);
                use_op(a, s);
                use_op(b, s);
            }
            I::Cast(_, _, _, a, d) | I::Load(_, a, d) | I::Extract(a, _, d) | I::Freeze(_, a, d) => {
                def(*d, s);
                use_op(a, s);
            }
            I::Store(_, a, b) => {
                use_op(a, s);
                use_op(b, s);
            }
            I::Gep(a, _, v, d) => {
                def(*d, s);
                use_op(a, s);
                for x in v {
                    use_op(&x.0, s);
                }
            }
            I::Alloca(_, d) => def(*d, s),
            I::Call(d, _, c, a, _) => {
                if let Some(d) = d {
                    def(*d, s);
                }
                if let Callee::Ind(o) = c {
                    use_op(o, s);
                }
                for x in a {
                    use_op(&x.1, s);
                }
            }
            I::Insert(a, b, _, _, d) => {
                def(*d, s);
                use_op(a, s);
                use_op(b, s);
            }
            I::CBr(c, _, _) => use_op(c, s),
            I::Switch(_, c, _, _) => use_op(c, s),
            I::Ret(Some(c)) => use_op(c, s),
            _ => {}
        }
    }
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            let mut s = vec![0u64; rw];
            for j in &sc[i] {
                let j = *j as usize;
                // live-in of successor minus its phi defs, plus phi uses from i
                let mut t = live_in[j].clone();
                for (d, _) in &f.blocks[j].phis {
                    def(*d, &mut t);
                }
                for (_, v) in &f.blocks[j].phis {
                    for (p, o) in v {
                        if *p as usize == i {
                            use_op(o, &mut t);
                        }
                    }
                }
                for k in 0..rw {
                    s[k] |= t[k];
                }
            }
            for ins in f.blocks[i].ins.iter().rev() {
                step(ins, &mut s);
            }
            // live_in here is "after phis"
            if s != live_in[i] {
                live_in[i] = s;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..n {
        let mut s = vec![0u64; rw];
        for j in &sc[i] {
            let j = *j as usize;
            let mut t = live_in[j].clone();
            for (d, _) in &f.blocks[j].phis {
                def(*d, &mut t);
            }
            for (_, v) in &f.blocks[j].phis {
                for (p, o) in v {
                    if *p as usize == i {
                        use_op(o, &mut t);
                    }
                }
            }
            for k in 0..rw {
                s[k] |= t[k];
            }
        }
        for ins in f.blocks[i].ins.iter_mut().rev() {
            if let I::Call(_, _, _, _, l) = ins {
                *l = calls.len() as u32;
                calls.push(s.clone());
            }
            step(ins, &mut s);
        }
    }
    for (b, l) in f.blocks.iter_mut().zip(live_in) {
        b.live_in = l;
    }
    f.live_calls = calls;
}

fn loops(f: &mut Func) {
    let n = f.blocks.len();
    let sc: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut pr: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in sc.iter().enumerate() {
        for j in s {
            pr[*j as usize].push(i as u32);
        }
    }
    f.npreds = pr.iter().map(|p| p.len() as u32).collect();
    // dominators
    let words = (n + 63) / 64;
    let mut dom = vec![vec![!0u64; words]; n];
    dom[0] = vec![0; words];
    dom[0][0] = 1;
    loop {
        let mut ch = false;
        for i in 1..n {
            let mut s = vec![!0u64; words];
            for p in &pr[i] {
                for k in 0..words {
                    s[k] &= dom[*p as usize][k];
                }
            }
            s[i / 64] |= 1 << (i % 64);
            if s != dom[i] {
                dom[i] = s;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // natural loops, one per header
    let mut ls: Vec<(u32, Vec<bool>)> = vec![];
    for h in 0..n {
        let mut body = vec![false; n];
        let mut any = false;
        for &t in &pr[h] {
            if dom[t as usize][h / 64] >> (h % 64) & 1 == 1 && !pr[t as usize].is_empty() | (t as usize == h) | (t == 0) {
                any = true;
                body[h] = true;
                let mut st = vec![t as usize];
                while let Some(x) = st.pop() {
                    if !body[x] {
                        body[x] = true;
                        st.extend(pr[x].iter().map(|y| *y as usize));
                    }
                }
            }
        }
        if any {
            ls.push((h as u32, body));
        }
    }
    ls.sort_by_key(|l| std::cmp::Reverse(l.1.iter().filter(|x| **x).count()));
    f.headers = ls.iter().map(|l| l.0).collect();
    f.loops = (0..n).map(|b| (0..ls.len() as u32).filter(|l| ls[*l as usize].1[b]).collect()).collect();
    // topological index per level: region = None or a loop
    f.order = f.loops.iter().map(|c| vec![0; c.len() + 1]).collect();
    for region in std::iter::once(None).chain((0..ls.len() as u32).map(Some)) {
        let lvl = match region {
            None => 0,
            Some(l) => f.loops[f.headers[l as usize] as usize].iter().position(|x| *x == l).unwrap() + 1,
        };
        let head = region.map_or(0, |l| f.headers[l as usize] as usize);
        let inside = |b: usize| region.map_or(true, |l| f.loops[b].contains(&l));
        // item of a block: the sub-loop at this level, or the block itself
        let item = |b: usize| -> (bool, u32) {
            match f.loops[b].get(lvl) {
                Some(l) => (true, *l),
                None => (false, b as u32),
            }
        };
        let mut post: Vec<(bool, u32)> = vec![];
        let mut seen: std::collections::HashSet<(bool, u32)> = Default::default();
        let mut members: HashMap<(bool, u32), Vec<usize>> = HashMap::new();
        for b in 0..n {
            if inside(b) {
                members.entry(item(b)).or_default().push(b);
            }
        }
        let exits = |it: (bool, u32)| -> Vec<usize> {
            let mut v = vec![];
            for &b in &members[&it] {
                for s in &sc[b] {
                    let s = *s as usize;
                    if inside(s) && s != head && item(s) != it {
                        v.push(s);
                    }
                }
            }
            v.sort();
            v.dedup();
            v
        };
        let mut st: Vec<((bool, u32), Vec<usize>)> = vec![];
        let it = item(head);
        seen.insert(it);
        st.push((it, exits(it)));
        while let Some((it, ex)) = st.last_mut() {
            if let Some(s) = ex.pop() {
                let k = item(s);
                if seen.insert(k) {
                    let e = exits(k);
                    st.push((k, e));
                }
            } else {
                post.push(*it);
                st.pop();
            }
        }
        let m = post.len();
        let idx: HashMap<(bool, u32), u32> = post.iter().enumerate().map(|(i, k)| (*k, (m - i) as u32)).collect();
        for b in 0..n {
            if inside(b) {
                if let Some(i) = idx.get(&item(b)) {
                    f.order[b][lvl] = *i;
                }
            }
        }
    }
}
