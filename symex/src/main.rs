#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod exec;
mod expr;
mod fx;
mod intrin;
mod lower;
mod mem;
mod report;
mod solver;

use exec::*;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{Instance, TyCtxt};

struct Cb { opts: Opts }

#[derive(Clone, Default)]
pub struct Opts {
    pub entry: String,
    pub out: String,
    pub jobs: usize,
    pub time_limit: u64,
    pub seeds: usize,
    pub step_limit: u64,
    pub max_viol: usize,
    pub trace: bool,
    pub crate_name: String,
    pub profile: bool,
    pub keep: usize,
}

fn child(tcx: TyCtxt<'_>, m: DefId, name: &str) -> Option<(DefKind, DefId)> {
    for c in tcx.module_children(m) {
        if c.ident.name.as_str() == name {
            if let rustc_hir::def::Res::Def(k, d) = c.res { return Some((k, d)); }
        }
    }
    None
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == self.opts.crate_name).expect("harness crate not found");
        let root = krate.as_def_id();
        let mut it = Interp::new(tcx);
        for (n, h) in intrin::hook_table() { it.hooks.insert(n.to_string(), h); }
        for m in include_str!("merges.txt").lines() { let m = m.trim(); if !m.is_empty() && !m.starts_with('#') { it.merges.insert(m.to_string()); } }
        for m in include_str!("zerohash.txt").lines() { let m = m.trim(); if !m.is_empty() && !m.starts_with('#') { it.hooks.insert(m.to_string(), Hook::ZeroHash); } }
        // extern "C" symbols implemented by the environment model
        if let Some((_, pm)) = child(tcx, root, "pymodel") {
            if let Some((_, capi)) = child(tcx, pm, "capi") {
                for c in tcx.module_children(capi) {
                    if let rustc_hir::def::Res::Def(k, d) = c.res {
                        if matches!(k, DefKind::Fn | DefKind::Static { .. }) { it.externs.insert(c.ident.name.to_string(), d); }
                    }
                }
            }
        }
        // functions of the model that stand for private functions of the standard library
        for (from, to) in [("harness::pymodel::capi::init_args", "std::sys::args::init")] {
            let mut segs = to.split("::");
            let k = segs.next().unwrap();
            let krate = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == k).expect("std not found");
            let mut cur = Some(krate.as_def_id());
            for s in segs { cur = cur.and_then(|c| child(tcx, c, s)).map(|x| x.1); }
            if let Some(d) = cur { it.redirects.insert(from.to_string(), d); }
        }
        let mut cur = root;
        let mut kind = DefKind::Mod;
        for seg in self.opts.entry.split("::") {
            let (k, d) = child(tcx, cur, seg).unwrap_or_else(|| panic!("entry {} not found", self.opts.entry));
            cur = d; kind = k;
        }
        assert!(matches!(kind, DefKind::Fn));
        it.step_limit = self.opts.step_limit;
        it.trace = self.opts.trace;
        if self.opts.profile { it.profile = Some(Default::default()); }
        let code = report::explore(&mut it, Instance::mono(tcx, cur), &self.opts);
        std::process::exit(code);
    }
}

fn main() {
    let mut o = Opts { jobs: 1, time_limit: 600, seeds: 160, step_limit: 500_000_000, max_viol: 20, crate_name: "harness".into(), keep: 32, ..Default::default() };
    let mut rest = vec!["rustc".to_string()];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--entry" => o.entry = a.next().unwrap(),
            "--out" => o.out = a.next().unwrap(),
            "--jobs" => o.jobs = a.next().unwrap().parse().unwrap(),
            "--time-limit" => o.time_limit = a.next().unwrap().parse().unwrap(),
            "--seeds" => o.seeds = a.next().unwrap().parse().unwrap(),
            "--step-limit" => o.step_limit = a.next().unwrap().parse().unwrap(),
            "--max-violations" => o.max_viol = a.next().unwrap().parse().unwrap(),
            "--keep" => o.keep = a.next().unwrap().parse().unwrap(),
            "--trace" => o.trace = true,
            "--profile" => o.profile = true,
            "--crate" => o.crate_name = a.next().unwrap(),
            "--" => { rest.extend(a.by_ref()); }
            _ => rest.push(x),
        }
    }
    let _ = rustc_session::config::host_tuple();
    let mut cb = Cb { opts: o };
    rustc_driver::compiler_entrypoint(&rest, &mut cb);
}
