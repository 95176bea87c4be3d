//! Property-based checks of numopt.

pub mod ev;
#[macro_use]
pub mod fw;
pub mod dict;
pub mod tape;
pub mod p_expr;
pub mod p_ident;
pub mod stdp;
pub mod modelgen;
pub mod p_model;
pub mod p_state;
pub mod probgen;
pub mod lp;
pub mod p_problem;
pub mod p_sol;
pub mod lpref;
pub mod p_e2e;
pub mod shim;
pub mod fake;
pub mod p_cmd;
pub mod p_nlp;
pub mod p_ipopt;
pub mod p_misc;
pub mod p_rew;
