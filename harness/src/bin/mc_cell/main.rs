//! Structures, cells and reductions.
mod cells;
mod reduce;
use mc::engine::{Ctx, Space};

fn space(ctx: &Ctx) -> Option<Space<'static>> {
    Some(match ctx.prop.as_str() {
        "C01" => reduce::c01(ctx),
        "C02" => reduce::c02(ctx),
        "C03" => reduce::c03(ctx),
        "C04" => cells::c04(ctx),
        "C05" => cells::c05(ctx),
        "C06" => cells::c06(ctx),
        "C07" => cells::c07(ctx),
        "C12" => reduce::c12(ctx),
        "C13" => reduce::c13(ctx),
        "C14" => reduce::c14(ctx),
        _ => return None,
    })
}

fn main() {
    mc::cli::run_main(space)
}
