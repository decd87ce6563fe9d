mod core;
mod world;
mod prop;
mod force;
mod traj;
mod dev;
mod blse;
mod codec;
mod guid;
mod lamb;
mod targ;
mod pnt;
mod maths;
mod state;
mod mc;
mod seq;
mod noise;
mod od;
mod track;
mod sim;
mod sol;

use core::*;

fn build(id: &str, tier: Tier) -> Space {
    match id {
        "C01" => prop::c01(tier),
        "C02" => prop::c02(tier),
        "C03" => prop::c03(tier),
        "C04" => prop::c04(tier),
        "C05" => prop::c05(tier),
        "C06" => force::c06(tier),
        "C07" => force::c07(tier),
        "C08" => force::c08(tier),
        "C09" => traj::c09(tier),
        "C10" => traj::c10(tier),
        "C11" => traj::c11(tier),
        "C12" => track::c12(tier),
        "C13" => track::c13(tier),
        "C14" => od::c14(tier),
        "C15" => od::c15(tier),
        "C16" => dev::c16(tier),
        "C17" => blse::c17(tier),
        "C18" => sol::c18(tier),
        "C19" => sol::c19(tier),
        "C20" => sim::c20(tier),
        "C21" => sim::c21(tier),
        "C22" => noise::c22(tier),
        "C23" => codec::c23(tier),
        "C24" => guid::c24(tier),
        "C25" => guid::c25(tier),
        "C26" => seq::c26(tier),
        "C27" => mc::c27(tier),
        "C28" => mc::c28(tier),
        "C29" => lamb::c29(tier),
        "C30" => lamb::c30(tier),
        "C31" => targ::c31(tier),
        "C32" => pnt::c32(tier),
        "C33" => state::c33(tier),
        "C34" => maths::c34(tier),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut id = String::new();
    let mut tier = Tier::Quick;
    let mut seed = 1u64;
    let mut only = None;
    let mut list = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--seed" => {
                i += 1;
                seed = args[i].parse().unwrap_or(1);
            }
            "--case" => {
                i += 1;
                only = Some(args[i].clone());
            }
            "--list" => list = true,
            x => id = x.to_string(),
        }
        i += 1;
    }
    let mut space = build(&id, tier);
    // The same space with all of its epochs in another time scale. C21 rounds epochs to multiples of a duration, in their own scale.
    let slow = ["C04", "C15", "C17", "C26", "C31"];
    if id != "C21" && (tier.thorough() || !slow.contains(&id.as_str())) {
        let again = world::in_tt(|| build(&id, Tier::Quick));
        for c in again.cases {
            space.push(format!("tt:{}", c.key), move |t| world::in_tt(|| (c.f)(t)));
        }
        space.rule = format!("{}; and all of it again{} with the epochs in TT", space.rule, if tier.thorough() { " (at the bounds of the quick tier)" } else { "" });
    }
    if list {
        for c in &space.cases {
            println!("{}", c.key);
        }
        return;
    }
    let cfg = RunCfg { id, tier, seed, only, root: std::env::var("NYXMC_ROOT").unwrap_or_else(|_| "/verif".into()).into() };
    let rc = run(&cfg, space);
    let _ = std::fs::remove_dir_all(world::scratch_root());
    std::process::exit(rc);
}
