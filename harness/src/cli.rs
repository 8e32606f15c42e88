//! Command line of the runners.
use crate::engine::*;

fn field(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{}\":", k))? + k.len() + 3;
    let r = s[i..].trim_start();
    let r = r.strip_prefix('"').unwrap_or(r);
    Some(r.split(['"', ',', '\n']).next()?.trim().to_string())
}

fn tier(s: Option<&String>) -> Tier {
    if s.map(|s| s.as_str()) == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn child(args: &[&str]) -> Option<i32> {
    std::process::Command::new(std::env::current_exe().unwrap()).args(args).status().ok().and_then(|s| s.code())
}

/// Entry point of a runner: `PROPERTY [tier]`, `replay FILE`.
pub fn run_main(space: fn(&Ctx) -> Option<Space<'static>>) {
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let ctx = Ctx {
                prop: field(&t, "property").unwrap(),
                tier: tier(field(&t, "tier").as_ref()),
                seed: field(&t, "seed").unwrap().parse().unwrap(),
            };
            let sp = space(&ctx).expect("property");
            match field(&t, "index") {
                Some(i) => replay(&ctx, &sp, i.parse().unwrap()),
                None => explore(&ctx, &sp),
            }
        }
        Some("explore") => {
            let ctx = Ctx { prop: args[2].clone(), tier: tier(args.get(3)), seed };
            explore(&ctx, &space(&ctx).expect("property"))
        }
        Some("case") => {
            let ctx = Ctx { prop: args[2].clone(), tier: tier(args.get(3)), seed };
            replay(&ctx, &space(&ctx).expect("property"), args[4].parse().unwrap())
        }
        Some(p) => {
            let ctx = Ctx { prop: p.to_string(), tier: tier(args.get(2)), seed };
            match space(&ctx) {
                Some(sp) => {
                    let t = if ctx.tier == Tier::Quick { "quick" } else { "thorough" };
                    match child(&["explore", p, t]) {
                        Some(c) => c,
                        None => after_crash(&ctx, &sp, |g| child(&["case", p, t, &g.to_string()]).is_none()),
                    }
                }
                None => {
                    eprintln!("unknown property {}", p);
                    2
                }
            }
        }
        None => {
            eprintln!("usage: mc PROPERTY [quick|thorough] | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}
