//! Reference arithmetic: value, majorant and error bound, with first and
//! second derivatives by forward differentiation.

const U: f64 = 1.1102230246251565e-16;

/// A value with a majorant m >= |v| (the sum of absolute values of the terms
/// it may be split into by distribution) and a bound e on the rounding error
/// of any way of computing it that only reassociates, distributes or folds
/// the operations written.
#[derive(Clone, Copy, Debug)]
pub struct Ev { pub v: f64, pub m: f64, pub e: f64 }

impl Ev {
    pub const ZERO: Ev = Ev { v: 0., m: 0., e: 0. };
    pub fn c(v: f64) -> Ev { Ev { v, m: v.abs(), e: 0. } }
    pub fn bad() -> Ev { Ev { v: f64::NAN, m: f64::INFINITY, e: f64::INFINITY } }
    pub fn ok(&self) -> bool { self.v.is_finite() && self.m < 1e100 && self.e < 1e100 }
    /// Well enough conditioned for a comparison to mean something.
    pub fn sharp(&self) -> bool { self.ok() && self.e * 1e7 <= 1. + self.v.abs() }
    pub fn tol(&self) -> f64 { 16. * self.e + 16. * U * self.m + 1e-250 }
    pub fn near(&self, x: f64) -> bool { (x - self.v).abs() <= self.tol() }
    /// Certainly not zero.
    pub fn nonzero(&self) -> bool { self.ok() && self.v.abs() > 1e3 * self.e + 1e-9 * self.m + 1e-200 }
    pub fn add(self, o: Ev) -> Ev {
        let m = self.m + o.m;
        Ev { v: self.v + o.v, m, e: self.e + o.e + 4. * U * m }
    }
    pub fn neg(self) -> Ev { Ev { v: -self.v, ..self } }
    pub fn sub(self, o: Ev) -> Ev { self.add(o.neg()) }
    pub fn mul(self, o: Ev) -> Ev {
        if (self.v == 0. && self.m == 0.) || (o.v == 0. && o.m == 0.) {
            return if self.ok() && o.ok() { Ev::ZERO } else { Ev::bad() };
        }
        let m = self.m * o.m;
        Ev { v: self.v * o.v, m, e: self.e * o.m + o.e * self.m + self.e * o.e + 4. * U * m }
    }
    pub fn div(self, o: Ev) -> Ev {
        let b = o.v.abs();
        if !(b > 1e-6 * o.m.min(1.) + 1e3 * o.e && b > 1e-100) { return Ev::bad(); }
        let d = b - o.e;
        let m = self.m / d;
        Ev { v: self.v / o.v, m, e: self.e / d + m * (o.e / d) + 4. * U * m }
    }
    fn fun(self, v: f64) -> Ev {
        if !self.ok() { return Ev::bad(); }
        Ev { v, m: 1., e: self.e + 4. * U * (1. + if self.e > 0. { self.m } else { 0. }) }
    }
    pub fn sin(self) -> Ev { self.fun(self.v.sin()) }
    pub fn cos(self) -> Ev { self.fun(self.v.cos()) }
}

/// Value with derivatives with respect to n variables, up to the given order.
#[derive(Clone, Debug)]
pub struct Hd { pub f: Ev, pub g: Vec<Ev>, pub h: Vec<Ev>, pub n: usize, pub order: u8 }

/// Position of (i, j) in the packed lower triangle.
pub fn tri(i: usize, j: usize) -> usize { let (i, j) = if i >= j { (i, j) } else { (j, i) }; i * (i + 1) / 2 + j }

impl Hd {
    pub fn cst(v: f64, n: usize, order: u8) -> Hd {
        Hd { f: Ev::c(v),
             g: if order >= 1 { vec![Ev::ZERO; n] } else { vec![] },
             h: if order >= 2 { vec![Ev::ZERO; n * (n + 1) / 2] } else { vec![] }, n, order }
    }
    pub fn var(v: f64, i: usize, n: usize, order: u8) -> Hd {
        let mut x = Hd::cst(v, n, order);
        if order >= 1 { x.g[i] = Ev::c(1.); }
        x
    }
    pub fn ok(&self) -> bool {
        self.f.ok() && self.g.iter().all(|x| x.ok()) && self.h.iter().all(|x| x.ok())
    }
    pub fn hess(&self, i: usize, j: usize) -> Ev { self.h[tri(i, j)] }
    fn zip(&self, o: &Hd, f: Ev, fg: impl Fn(usize) -> Ev, fh: impl Fn(usize, usize) -> Ev) -> Hd {
        let _ = o;
        let g = if self.order >= 1 { (0..self.n).map(&fg).collect() } else { vec![] };
        let mut h = vec![];
        if self.order >= 2 {
            h.reserve(self.n * (self.n + 1) / 2);
            for i in 0..self.n { for j in 0..=i { h.push(fh(i, j)); } }
        }
        Hd { f, g, h, n: self.n, order: self.order }
    }
    pub fn add(&self, o: &Hd) -> Hd {
        self.zip(o, self.f.add(o.f), |i| self.g[i].add(o.g[i]), |i, j| self.hess(i, j).add(o.hess(i, j)))
    }
    pub fn neg(&self) -> Hd {
        self.zip(self, self.f.neg(), |i| self.g[i].neg(), |i, j| self.hess(i, j).neg())
    }
    pub fn sub(&self, o: &Hd) -> Hd { self.add(&o.neg()) }
    pub fn mul(&self, o: &Hd) -> Hd {
        self.zip(o, self.f.mul(o.f),
            |i| self.g[i].mul(o.f).add(self.f.mul(o.g[i])),
            |i, j| self.hess(i, j).mul(o.f).add(self.f.mul(o.hess(i, j)))
                       .add(self.g[i].mul(o.g[j])).add(self.g[j].mul(o.g[i])))
    }
    /// f(self) for a scalar function with value y and derivatives d1, d2.
    fn chain(&self, y: Ev, d1: Ev, d2: Ev) -> Hd {
        self.zip(self, y,
            |i| d1.mul(self.g[i]),
            |i, j| d1.mul(self.hess(i, j)).add(d2.mul(self.g[i].mul(self.g[j]))))
    }
    pub fn recip(&self) -> Hd {
        let one = Ev::c(1.);
        let y = one.div(self.f);
        let f2 = self.f.mul(self.f);
        let d1 = one.div(f2).neg();
        let d2 = Ev::c(2.).div(f2.mul(self.f));
        // The majorants of products of f must not hide that f itself is a sum
        // whose terms get multiplied out: scale them accordingly.
        self.chain(y, d1, d2)
    }
    pub fn div(&self, o: &Hd) -> Hd {
        let mut r = self.mul(&o.recip());
        // The value itself is a single division.
        r.f = self.f.div(o.f);
        r
    }
    pub fn sin(&self) -> Hd { self.chain(self.f.sin(), self.f.cos(), self.f.sin().neg()) }
    pub fn cos(&self) -> Hd { self.chain(self.f.cos(), self.f.sin().neg(), self.f.cos().neg()) }
}
