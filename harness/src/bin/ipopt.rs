//! Plays libipopt: the C functions numopt links with are defined here.

use nv::fw::{main_with, p};
use nv::p_ipopt::{self, Callbacks, EvalF, EvalG, EvalGrad, EvalH, EvalJac, C22, C23};
use std::os::raw::{c_char, c_int, c_void};

#[no_mangle]
pub unsafe extern "C" fn CreateIpoptProblem(n: c_int, xl: *const f64, xu: *const f64, m: c_int, gl: *const f64, gu: *const f64, nj: c_int, nh: c_int, style: c_int,
                                            f: EvalF, g: EvalG, grad: EvalGrad, jac: EvalJac, h: EvalH) -> *mut c_void {
    p_ipopt::create(n, xl, xu, m, gl, gu, nj, nh, style, Callbacks { f, g, grad, jac, h })
}
#[no_mangle]
pub unsafe extern "C" fn FreeIpoptProblem(p: *mut c_void) { p_ipopt::free(p) }
#[no_mangle]
pub unsafe extern "C" fn AddIpoptIntOption(p: *mut c_void, key: *const c_char, v: c_int) -> c_int { p_ipopt::int_option(p, key, v) }
#[no_mangle]
pub unsafe extern "C" fn AddIpoptStrOption(p: *mut c_void, key: *const c_char, v: *const c_char) -> c_int { p_ipopt::str_option(p, key, v) }
#[no_mangle]
pub unsafe extern "C" fn AddIpoptNumOption(p: *mut c_void, _key: *const c_char, _v: f64) -> c_int { p_ipopt::num_option(p) }
#[no_mangle]
pub unsafe extern "C" fn IpoptSolve(p: *mut c_void, x: *mut f64, g: *mut f64, obj: *mut f64, lam: *mut f64, zl: *mut f64, zu: *mut f64, user: *mut c_void) -> c_int {
    p_ipopt::solve(p, x, g, obj, lam, zl, zu, user)
}

fn main() { main_with(vec![p::<C22>(), p::<C23>()]); }
