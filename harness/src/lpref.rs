//! Exact reference for small linear problems: rational simplex with Bland's rule.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q { n: i128, d: i128 }

fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }

impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    fn make(n: i128, d: i128) -> Option<Q> {
        let g = gcd(n, d);
        if g == 0 { return None; }
        let s = if d < 0 { -1 } else { 1 };
        Some(Q { n: s * (n / g), d: s * (d / g) })
    }
    /// Exact value of a number with few binary places.
    pub fn of(x: f64) -> Option<Q> {
        if !x.is_finite() || x.abs() > 1e12 { return None; }
        let y = x * 1024.;
        if y.fract() != 0. { return None; }
        Q::make(y as i128, 1024)
    }
    fn add(self, o: Q) -> Option<Q> { Q::make(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?) }
    fn neg(self) -> Q { Q { n: -self.n, d: self.d } }
    fn sub(self, o: Q) -> Option<Q> { self.add(o.neg()) }
    fn mul(self, o: Q) -> Option<Q> { Q::make(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?) }
    fn div(self, o: Q) -> Option<Q> { Q::make(self.n.checked_mul(o.d)?, self.d.checked_mul(o.n)?) }
    fn sgn(self) -> i32 { self.n.signum() as i32 }
    pub fn f(self) -> f64 { self.n as f64 / self.d as f64 }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Opt { Infeasible, Unbounded, Value(f64) }

struct Tab { t: Vec<Vec<Q>>, basis: Vec<usize>, cols: usize }

impl Tab {
    fn pivot(&mut self, r: usize, c: usize, z: &mut Vec<Q>) -> Option<()> {
        let p = self.t[r][c];
        for x in self.t[r].iter_mut() { *x = x.div(p)?; }
        let row = self.t[r].clone();
        for (i, other) in self.t.iter_mut().enumerate() {
            if i == r || other[c].sgn() == 0 { continue; }
            let f = other[c];
            for (x, y) in other.iter_mut().zip(row.iter()) { *x = x.sub(f.mul(*y)?)?; }
        }
        if z[c].sgn() != 0 {
            let f = z[c];
            for (x, y) in z.iter_mut().zip(row.iter()) { *x = x.sub(f.mul(*y)?)?; }
        }
        self.basis[r] = c;
        Some(())
    }
    /// Minimizes; z are reduced costs with minus the value last. Some(false): unbounded.
    fn run(&mut self, z: &mut Vec<Q>, allowed: usize) -> Option<bool> {
        loop {
            let c = match (0..allowed).find(|c| z[*c].sgn() < 0) { Some(c) => c, None => return Some(true) };
            let mut best: Option<(usize, Q)> = None;
            for r in 0..self.t.len() {
                if self.t[r][c].sgn() > 0 {
                    let q = self.t[r][self.cols].div(self.t[r][c])?;
                    let better = match best { None => true, Some((b, v)) => { let s = q.sub(v)?.sgn(); s < 0 || (s == 0 && self.basis[r] < self.basis[b]) } };
                    if better { best = Some((r, q)); }
                }
            }
            match best { None => return Some(false), Some((r, _)) => self.pivot(r, c, z)? }
        }
    }
}

/// min c x, a x = b (dense rows), l <= x <= u. None if numbers get too long.
pub fn solve(c: &[f64], a: &[Vec<f64>], b: &[f64], l: &[f64], u: &[f64]) -> Option<Opt> {
    let n = c.len();
    if (0..n).any(|i| l[i] > u[i]) { return Some(Opt::Infeasible); }
    // x = off + sum of sign * y
    let mut ycost: Vec<Q> = vec![];
    let mut map: Vec<(usize, Q)> = vec![]; // y -> (x, sign)
    let mut off = vec![Q::ZERO; n];
    let mut ub: Vec<(usize, Q)> = vec![];
    for i in 0..n {
        let ci = Q::of(c[i])?;
        if l[i].is_finite() {
            off[i] = Q::of(l[i])?;
            if u[i].is_finite() { ub.push((map.len(), Q::of(u[i])?.sub(off[i])?)); }
            map.push((i, Q::ONE)); ycost.push(ci);
        } else if u[i].is_finite() {
            off[i] = Q::of(u[i])?;
            map.push((i, Q::ONE.neg())); ycost.push(ci.neg());
        } else {
            map.push((i, Q::ONE)); ycost.push(ci);
            map.push((i, Q::ONE.neg())); ycost.push(ci.neg());
        }
    }
    let ny = map.len();
    let m = a.len() + ub.len();
    let ns = ny + ub.len();
    let cols = ns + m;
    let mut t: Vec<Vec<Q>> = vec![];
    let mut value = Q::ZERO;
    for i in 0..n { value = value.add(Q::of(c[i])?.mul(off[i])?)?; }
    for (r, row) in a.iter().enumerate() {
        let mut x = vec![Q::ZERO; cols + 1];
        let mut rhs = Q::of(b[r])?;
        for i in 0..n { rhs = rhs.sub(Q::of(row[i])?.mul(off[i])?)?; }
        for (k, (i, s)) in map.iter().enumerate() { x[k] = Q::of(row[*i])?.mul(*s)?; }
        x[cols] = rhs;
        t.push(x);
    }
    for (k, (y, w)) in ub.iter().enumerate() {
        let mut x = vec![Q::ZERO; cols + 1];
        x[*y] = Q::ONE;
        x[ny + k] = Q::ONE;
        x[cols] = *w;
        t.push(x);
    }
    let mut z = vec![Q::ZERO; cols + 1];
    for (r, row) in t.iter_mut().enumerate() {
        if row[cols].sgn() < 0 { for x in row.iter_mut() { *x = x.neg(); } }
        for k in 0..=cols { z[k] = z[k].sub(row[k])?; }
        row[ns + r] = Q::ONE;
    }
    let mut tab = Tab { t, basis: (ns..ns + m).collect(), cols };
    tab.run(&mut z, ns)?;
    if z[cols].sgn() != 0 { return Some(Opt::Infeasible); }
    // Artificials out of the basis
    for r in 0..m {
        if tab.basis[r] >= ns {
            if let Some(k) = (0..ns).find(|k| tab.t[r][*k].sgn() != 0) { tab.pivot(r, k, &mut z)?; }
        }
    }
    let mut z = vec![Q::ZERO; cols + 1];
    for k in 0..ny { z[k] = ycost[k]; }
    for r in 0..m {
        let bc = tab.basis[r];
        if bc < ns && z[bc].sgn() != 0 {
            let f = z[bc];
            for k in 0..=cols { let y = tab.t[r][k]; z[k] = z[k].sub(f.mul(y)?)?; }
        }
    }
    if !tab.run(&mut z, ns)? { return Some(Opt::Unbounded); }
    Some(Opt::Value(value.sub(z[cols])?.f()))
}

/// The same with integer variables (with finite limits), by enumeration.
pub fn solve_int(c: &[f64], a: &[Vec<f64>], b: &[f64], l: &[f64], u: &[f64], p: &[bool]) -> Option<Opt> {
    let ints: Vec<usize> = (0..c.len()).filter(|i| p[*i]).collect();
    let (mut l2, mut u2) = (l.to_vec(), u.to_vec());
    let lo: Vec<f64> = ints.iter().map(|i| l[*i].ceil()).collect();
    let hi: Vec<f64> = ints.iter().map(|i| u[*i].floor()).collect();
    if lo.iter().zip(hi.iter()).any(|(a, b)| a > b) { return Some(Opt::Infeasible); }
    if lo.iter().zip(hi.iter()).map(|(a, b)| b - a + 1.).product::<f64>() > 3e3 { return None; }
    let mut cur = lo.clone();
    let mut best: Option<f64> = None;
    loop {
        for (k, i) in ints.iter().enumerate() { l2[*i] = cur[k]; u2[*i] = cur[k]; }
        let r = if ints.len() == c.len() {
            if a.iter().zip(b).all(|(r, b)| crate::stdp::dot(r, &cur) == *b) { Opt::Value(crate::stdp::dot(c, &cur)) } else { Opt::Infeasible }
        } else { solve(c, a, b, &l2, &u2)? };
        match r {
            Opt::Value(v) => best = Some(best.map_or(v, |b: f64| b.min(v))),
            Opt::Unbounded => return Some(Opt::Unbounded),
            Opt::Infeasible => (),
        }
        let mut k = 0;
        while k < cur.len() { cur[k] += 1.; if cur[k] <= hi[k] { break; } cur[k] = lo[k]; k += 1; }
        if k == cur.len() { break; }
    }
    Some(best.map_or(Opt::Infeasible, Opt::Value))
}
