//! Point groups.
mod groups;
use mc::engine::{Ctx, Space};

fn space(ctx: &Ctx) -> Option<Space<'static>> {
    Some(match ctx.prop.as_str() {
        "C08" => groups::c08(ctx),
        "C09" => groups::c09(ctx),
        _ => return None,
    })
}

fn main() {
    mc::cli::run_main(space)
}
