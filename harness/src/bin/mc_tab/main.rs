//! Tables and names.
#[allow(dead_code)]
#[path = "../mc_pg/groups.rs"]
mod groups;
mod tables;
use mc::engine::{Ctx, Space};

fn space(ctx: &Ctx) -> Option<Space<'static>> {
    Some(match ctx.prop.as_str() {
        "C10" => tables::c10(ctx),
        "C24" => tables::c24(ctx),
        _ => return None,
    })
}

fn main() {
    mc::cli::run_main(space)
}
