use nv::fw::{main_with, p};
use nv::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "jobs" { std::process::exit(p_cmd::worker(&args[2])); }
    main_with(vec![
        p::<p_expr::C01>(),
        p::<p_expr::C02>(),
        p::<p_expr::C03>(),
        p::<p_expr::C04>(),
        p::<p_expr::C05>(),
        p::<p_ident::C06>(),
        p::<p_ident::C07>(),
        p::<p_model::C08>(),
        p::<p_model::C09>(),
        p::<p_model::C10>(),
        p::<p_model::C11>(),
        p::<p_state::C12>(),
        p::<p_state::C13>(),
        p::<p_problem::C14>(),
        p::<p_problem::C15>(),
        p::<p_problem::C16>(),
        p::<p_sol::C17>(),
        p::<p_sol::C18>(),
        p::<p_e2e::C19>(),
        p::<p_e2e::C20>(),
        p::<p_e2e::C21>(),
        p::<p_nlp::C24>(),
        p::<p_cmd::C25>(),
        p::<p_cmd::C26>(),
        p::<p_cmd::C27>(),
        p::<p_cmd::C28>(),
        p::<p_misc::C29>(),
        p::<p_misc::C30>(),
        p::<p_rew::C31>(),
    ]);
}
