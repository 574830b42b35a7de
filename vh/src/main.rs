//! Checks of the programs as a whole.

mod conc;
mod faults;
mod gen;
mod gitat;
mod limits;
mod locks;
mod model;
mod maint;
mod modes;
mod names;
mod naming;
mod proto;
mod pager;
mod place;
mod readonly;
mod refs;
mod regex;
mod repo;
mod revs;
mod spoil;
mod store;
mod sys;
mod timing;
mod trace;
mod xfer;

use vcore::{run, Cfg};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut cfg = Cfg::from_env();
    if args.get(2).map(|a| a == "--replay") == Some(true) {
        cfg.replay = args.get(3).map(|p| p.into());
    }
    let id = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match id {
        "P03" => run(xfer::Uploads, &cfg),
        "P04" => run(xfer::Transfers, &cfg),
        "P05" => run(xfer::InStep, &cfg),
        "P06" => run(xfer::Operations, &cfg),
        "P07" => run(xfer::CutOff, &cfg),
        "P08" => run(xfer::AnyInput, &cfg),
        "P09" => run(faults::Crash, &cfg),
        "P10" => run(faults::Failures, &cfg),
        "P11" => run(locks::Table, &cfg),
        "P12" => run(locks::Paging, &cfg),
        "P13" => run(conc::Exclusion, &cfg),
        "P14" => run(names::Names, &cfg),
        "P15" => run(modes::Modes, &cfg),
        "P16" => run(conc::Whole, &cfg),
        "P17" => run(timing::Timing, &cfg),
        "P18" => run(locks::Foreign, &cfg),
        "P19" => run(gitat::FirstMatch, &cfg),
        "P20" => run(gitat::Restricted, &cfg),
        "P21" => run(revs::Revisions, &cfg),
        "P22" => run(refs::Dates, &cfg),
        "P23" => run(refs::Visited, &cfg),
        "P24" => run(readonly::ReadOnly, &cfg),
        "P25" => run(pager::Pager, &cfg),
        "P26" => run(naming::Naming, &cfg),
        "P27" => run(limits::Limits, &cfg),
        "P29" => run(spoil::Spoil, &cfg),
        "P31" => run(maint::Maintenance, &cfg),
        "P28" => run(place::Places, &cfg),
        _ => {
            eprintln!("unknown property {:?}", id);
            2
        }
    };
    sys::remove_scratch();
    std::process::exit(code);
}
