//! Encodings and tolerant comparisons.
mod codes;
mod tols;
use mc::engine::{Ctx, Space};

fn space(ctx: &Ctx) -> Option<Space<'static>> {
    Some(match ctx.prop.as_str() {
        "C11" => codes::c11(ctx),
        "C25" => tols::c25(ctx),
        _ => return None,
    })
}

fn main() {
    mc::cli::run_main(space)
}
