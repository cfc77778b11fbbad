//! Obligations and their discharge by z3.
use crate::val::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub struct Solver {
    child: Child,
    inp: std::process::ChildStdin,
    out: BufReader<std::process::ChildStdout>,
    nvars: usize,
    tables: HashMap<(u32, u32, Vec<u128>), String>,
    pub queries: u64,
    pub secs: f64,
    limit: u32,
    pub log: Option<std::fs::File>,
}

pub enum Ans {
    Unsat,
    Sat(Vec<usize>),
    Unknown(String),
}

impl Solver {
    pub fn new(bin: &str) -> Result<Solver, String> {
        let mut child = Command::new(bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{}: {}", bin, e))?;
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, inp, out, nvars: 0, tables: HashMap::new(), queries: 0, secs: 0.0, limit: 120000, log: None };
        s.send("(set-option :timeout 120000)\n(set-logic QF_BV)\n")?;
        Ok(s)
    }
    fn send(&mut self, t: &str) -> Result<(), String> {
        if let Some(l) = &mut self.log {
            let _ = l.write_all(t.as_bytes());
        }
        self.inp.write_all(t.as_bytes()).map_err(|e| e.to_string())
    }
    fn line(&mut self) -> Result<String, String> {
        let mut l = String::new();
        self.inp.flush().map_err(|e| e.to_string())?;
        self.out.read_line(&mut l).map_err(|e| e.to_string())?;
        if l.is_empty() {
            return Err("solver died".into());
        }
        Ok(l.trim().to_string())
    }
    fn declare(&mut self) -> Result<(), String> {
        let n = VARS.with(|v| v.borrow().len());
        while self.nvars < n {
            let t = format!("(declare-const x{} (_ BitVec 8))\n", self.nvars);
            self.send(&t)?;
            self.nvars += 1;
        }
        Ok(())
    }
    fn table(&mut self, v: u32, f: &[u128], w: u32, d: &Dom) -> Result<String, String> {
        // only live entries matter; key on the masked table
        let mut key: Vec<u128> = f.to_vec();
        for (i, k) in key.iter_mut().enumerate() {
            if !d_has(d, i) {
                *k = 0;
            }
        }
        let k = (0, w, key);
        if let Some(n) = self.tables.get(&k) {
            return Ok(format!("({} x{})", n, v));
        }
        let name = format!("f{}", self.tables.len());
        let mut body = bv(0, w);
        let mut i = 0;
        // ite chain over runs of equal values
        let f = &k.2;
        let mut runs = vec![];
        while i < f.len() {
            let mut j = i;
            while j + 1 < f.len() && f[j + 1] == f[i] {
                j += 1;
            }
            if f[i] != 0 {
                runs.push((i, j, f[i]));
            }
            i = j + 1;
        }
        for (a, b, x) in runs {
            let c = if a == b { format!("(= x {})", bv(a as u128, 8)) } else { format!("(and (bvuge x {}) (bvule x {}))", bv(a as u128, 8), bv(b as u128, 8)) };
            body = format!("(ite {} {} {})", c, bv(x, w), body);
        }
        let t = format!("(define-fun {} ((x (_ BitVec 8))) (_ BitVec {}) {})\n", name, w, body);
        self.send(&t)?;
        self.tables.insert(k, name.clone());
        Ok(format!("({} x{})", name, v))
    }
    pub fn term(&mut self, v: &V, w: u32, ds: &Doms) -> Result<String, String> {
        match v {
            V::C(c) => Ok(bv(c & mask(w), w)),
            V::S(s) => {
                // tables start at zero, so that equal sums look alike
                let mut c = s.c;
                let mut t = String::new();
                for (x, f) in &s.t {
                    let d = ds[*x as usize];
                    let z = d_iter(&d).next().map_or(0, |i| f[i]);
                    c = c.wrapping_add(z);
                    let f: Vec<u128> = f.iter().map(|y| y.wrapping_sub(z) & mask(w)).collect();
                    t.push(' ');
                    t.push_str(&self.table(*x, &f, w, &d)?);
                }
                let t = format!("(bvadd {}{})", bv(c & mask(w), w), t);
                Ok(t)
            }
            _ => Err(format!("term of {:?}", v)),
        }
    }
    pub fn byte(&mut self, c: &Cell, ds: &Doms) -> Result<String, String> {
        match c {
            Cell::K(k) => Ok(bv(*k as u128, 8)),
            Cell::V(s, j, n) => {
                let t = self.term(&V::S(s.clone()), 8 * *n as u32, ds)?;
                if *n == 1 {
                    Ok(t)
                } else {
                    Ok(format!("((_ extract {} {}) {})", 8 * *j + 7, 8 * *j, t))
                }
            }
            Cell::U => Err("undefined byte".into()),
        }
    }
    pub fn boxed(ds: &Doms) -> String {
        let mut o = String::from("(and true");
        for (x, d) in ds.iter().enumerate() {
            if d_empty(d) {
                continue;
            }
            o.push_str(" (or");
            let v: Vec<usize> = d_iter(d).collect();
            let mut i = 0;
            while i < v.len() {
                let mut j = i;
                while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
                    j += 1;
                }
                if i == j {
                    o.push_str(&format!(" (= x{} {})", x, bv(v[i] as u128, 8)));
                } else {
                    o.push_str(&format!(" (and (bvuge x{} {}) (bvule x{} {}))", x, bv(v[i] as u128, 8), x, bv(v[j] as u128, 8)));
                }
                i = j + 1;
            }
            o.push(')');
        }
        o.push(')');
        o
    }
    /// Satisfiability of a formula over the declared variables.
    pub fn check(&mut self, f: &str, model: bool, ms: u32) -> Result<Ans, String> {
        let t0 = Instant::now();
        self.declare()?;
        self.queries += 1;
        if self.limit != ms {
            self.limit = ms;
            self.send(&format!("(set-option :timeout {})\n", ms))?;
        }
        let t = format!("(push)\n(assert {})\n(check-sat)\n", f);
        self.send(&t)?;
        let mut a = self.line()?;
        while a.starts_with("(error") {
            return Err(a);
        }
        let r = match a.as_str() {
            "unsat" => Ans::Unsat,
            "sat" => {
                let mut m = vec![0; self.nvars];
                if model {
                    for (i, x) in m.iter_mut().enumerate() {
                        let t = format!("(get-value (x{}))\n", i);
                        self.send(&t)?;
                        a = self.line()?;
                        // ((x0 #x05))
                        let p = a.find("#").ok_or(format!("model {}", a))?;
                        let s = &a[p..].trim_end_matches(')');
                        *x = if let Some(h) = s.strip_prefix("#x") {
                            usize::from_str_radix(h, 16).map_err(|e| e.to_string())?
                        } else if let Some(b) = s.strip_prefix("#b") {
                            usize::from_str_radix(b, 2).map_err(|e| e.to_string())?
                        } else {
                            return Err(format!("model {}", a));
                        };
                    }
                }
                Ans::Sat(m)
            }
            x => Ans::Unknown(x.to_string()),
        };
        self.send("(pop)\n")?;
        self.secs += t0.elapsed().as_secs_f64();
        Ok(r)
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub fn bv(c: u128, w: u32) -> String {
    format!("(_ bv{} {})", c, w)
}

/// One assertion on one path: must not hold together with the box.
pub struct Obl {
    pub id: u32,
    pub what: &'static str,
    pub box_: Rc<Doms>,
    pub neg: String,
}
