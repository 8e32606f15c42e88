//! Symmetry operations, space groups and their identification.
mod cat;
mod chain;
mod hist;
mod ident;
mod more;
mod ops;
mod robust;
use mc::engine::{Ctx, Space};

fn space(ctx: &Ctx) -> Option<Space<'static>> {
    Some(match ctx.prop.as_str() {
        "C15" => ops::c15(ctx),
        "C16" => ops::c16(ctx),
        "C17" => ops::c17(ctx),
        "C18" => ident::c18(ctx),
        "C19" => ident::c19(ctx),
        "C20" => ident::c20(ctx),
        "C21" => robust::c21(ctx),
        "C22" => robust::c22(ctx),
        "C26" => ident::c26(ctx),
        "C27" => robust::c27(ctx),
        "C28" => more::c28(ctx),
        "C29" => more::c29(ctx),
        "C30" => more::c30(ctx),
        "C31" => more::c31(ctx),
        "C32" => more::c32(ctx),
        "C34" => more::c34(ctx),
        "C37" => robust::c37(ctx),
        "C35" => hist::c35(ctx),
        "C36" => more::c36(ctx),
        "C38" => more::c38(ctx),
        "C39" => chain::c39(ctx),
        "C40" => chain::c40(ctx),
        "C41" => chain::c41(ctx),
        _ => return None,
    })
}

fn main() {
    if let Ok(k) = std::env::var("MC_SINGLE") {
        return hist::single(&k);
    }
    mc::cli::run_main(space)
}
