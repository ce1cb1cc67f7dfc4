mod api_props;
mod build_props;
mod cli;
mod contexts;
mod cli_props;
mod core_props;
mod date;
mod fault_props;
mod js_props;
mod json;
mod chars;
mod ladders;
mod load_props;
mod model;
mod msg_props;
mod place;
mod plugins;
mod rt;
mod serve_props;
mod site;
mod verb_props;

use rt::{Prop, Tier};
use site::Site;

fn props() -> Vec<Prop> {
    use build_props::*;
    use cli_props::*;
    use core_props::*;
    use fault_props::*;
    let tree = Tree::from_json as fn(&json::V) -> Box<dyn rt::Case>;
    let site = Site::from_json as fn(&json::V) -> Box<dyn rt::Case>;
    let p = |id, explore, from_json, bounds| Prop { id, explore, from_json, bounds, hang: 60, shards: 8 };
    vec![
        p("C01", c01, site, c01_bounds),
        p("C02", c02, c02_json, c02_bounds),
        p("C03", c03, site, c03_bounds),
        p("C04", c04, site, c04_bounds),
        p("C05", c05, site, c05_bounds),
        p("C06", c06, site, c06_bounds),
        p("C07", c07, site, c07_bounds),
        p("C08", c08, site, c08_bounds),
        p("C09", c09, site, c09_bounds),
        p("C10", c10, site, c10_bounds),
        p("C11", c11, site, c11_bounds),
        p("C12", c12, c12_json, c12_bounds),
        p("C13", c13, |v| place::Place::from_json(v).unwrap_or_else(|| Tree::from_json(v)), c13_bounds),
        p("C14", c14, tree, c14_bounds),
        p("C15", c15, c15_json, c15_bounds),
        p("C16", c16, c16_json, c16_bounds),
        p("C17", c17, c17_json, c17_bounds),
        p("C18", c18, c18_json, c18_bounds),
        p("C19", c19, tree, c19_bounds),
        p("C20", plugins::c20, site, plugins::c20_bounds),
        p("C21", js_props::c21, js_props::c21_json, js_props::c21_bounds),
        p("C22", msg_props::c22, msg_props::c22_json, msg_props::c22_bounds),
        p("C23", serve_props::c23, serve_props::c23_json, serve_props::c23_bounds),
        Prop { id: "C24", explore: serve_props::c24, from_json: serve_props::c24_json, bounds: serve_props::c24_bounds, hang: 60, shards: 32 },
        p("C25", c25, c25_json, c25_bounds),
        p("C26", c26, tree, c26_bounds),
        p("C27", load_props::c27, load_props::c27_json, load_props::c27_bounds),
        p("C29", verb_props::c29, verb_props::c29_json, verb_props::c29_bounds),
        p("C28", api_props::c28, api_props::c28_json, api_props::c28_bounds),
    ]
}

fn main() {
    // what a build does must not depend on the zone; every explored build, in process or not, runs in an odd one
    std::env::set_var("TZ", "QQQ7:15");
    let a: Vec<String> = std::env::args().collect();
    let all = props();
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {}", id));
    let tier = |t: &str| match t {
        "deep" => Tier::Deep,
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => rt::check_main(find(&a[2]), &a[3]),
        Some("shard") => {
            rt::shard_main(find(&a[2]), tier(&a[3]), a[4].parse().unwrap(), std::path::Path::new(&a[5]));
            0
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let v = json::parse(&t).expect("json");
            rt::replay_main(find(v.get("property").and_then(|s| s.str()).unwrap()), &a[2])
        }
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
