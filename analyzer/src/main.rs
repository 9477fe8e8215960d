#![feature(rustc_private)]
//! vabs: decides properties of venial by abstract interpretation of its MIR.
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
mod cmp;
mod exec;
mod harness;
mod loops;
mod merge;
mod models;
mod ploop;
mod scan;
mod state;
mod subst;
mod types;
mod val;

use exec::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use state::State;
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};

pub struct Report {
    pub what: String,
    pub harness: String,
    pub detail: String,
    pub path: Vec<String>,
}

impl Ix {
    pub fn report(&mut self, st: &State, what: &str, detail: &str) {
        let mut path = vec![];
        let mut t = st.trail.clone();
        while let Some(x) = t {
            path.push(format!("{} [{}]", cmp::show_assume(st, &x.what), x.at));
            t = x.prev.clone();
        }
        path.reverse();
        let harness = self.harness.clone();
        if self.reports.iter().any(|r| r.what == what && r.harness == harness) {
            return;
        }
        self.reports.push(Report { what: what.into(), harness, detail: detail.into(), path });
    }
}

/// Compiler-derived implementations have the span of the trait name in `derive(..)`.
pub fn is_derived(i: &Instance) -> bool {
    let l = i.def.span().get_lines();
    l.start_line == l.end_line && l.end_col - l.start_col == 5
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn analyse() {
    let sel: Vec<String> =
        std::env::var("VABS_PROPS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let only = std::env::var("VABS_ONLY").unwrap_or_default();
    let budget: f64 = std::env::var("VABS_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(120.0);
    let mem: u64 = std::env::var("VABS_MEM").ok().and_then(|s| s.parse().ok()).unwrap_or(2600);
    let start = Instant::now();
    let mut ix = Ix {
        bodies: HashMap::new(),
        shims: HashMap::new(),
        stats: Default::default(),
        deadline: start + Duration::from_secs_f64(budget),
        mem_limit: 0,
        step_limit: u64::MAX,
        ticks: 0,
        expired: false,
        reports: vec![],
        strict: false,
        trace: std::env::var("VABS_TRACE").is_ok(),
        obligations: 0,
        obl_by: BTreeMap::new(),
        recursion: vec![],
        loop_depth: 0,
        parse_mode: false,
        small: false,
        deep: false,
        drop_panics: false,
        no_merge: 0,
        harness: String::new(),
        prune: Default::default(),
        sums: Default::default(),
        start_next: false,
        prof: Default::default(),
    };
    let mut hs: Vec<(String, FnDef)> = vec![];
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name().to_string();
        let segs: Vec<&str> = n.split("::").collect();
        let m = segs[segs.len().saturating_sub(2)];
        let last = segs[segs.len() - 1];
        if segs.len() >= 2 && m == "sh" {
            ix.shims.insert(last.to_string(), f);
        } else if segs.len() >= 2 && m == "vs" && last == "types" {
            let b = f.body().unwrap();
            let ks = ["usize", "bool", "str", "char", "spacing", "delim", "tt", "ts"];
            for (k, a) in ks.iter().zip(b.arg_locals()) {
                types::info(a.ty);
                types::set_named(k, a.ty);
            }
        } else if segs.len() >= 2 && m.starts_with('c') && m.len() >= 3 && m[1..3].chars().all(|c| c.is_ascii_digit()) {
            hs.push((format!("{}::{}", m, last), f));
        }
    }
    hs.sort_by(|a, b| a.0.cmp(&b.0));
    let out = std::env::var("VABS_OUT").ok();
    let emit = |line: String| {
        if let Some(p) = &out {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
            writeln!(f, "{}", line).unwrap();
        }
    };
    for (name, f) in hs {
        let m = name.split("::").next().unwrap().to_string();
        if !sel.is_empty() && !sel.contains(&m) {
            continue;
        }
        if !only.is_empty() && !only.split(',').any(|o| name.contains(o)) {
            continue;
        }
        if f.name().contains("helper") {
            continue;
        }
        if !f.body().map_or(false, |b| b.arg_locals().is_empty()) {
            continue;
        }
        let Ok(inst) = Instance::resolve(f, &GenericArgs(vec![])) else { continue };
        if std::env::var("VABS_LIST").is_ok() {
            emit(format!("{{\"list\":{}}}", js(&name)));
            continue;
        }
        let parse = m.ends_with('p');
        ix.deep = m.ends_with("ds");
        ix.parse_mode = parse;
        ix.small = m.ends_with('s');
        state::SMALL.with(|n| n.set(state::NOT_SMALL));
        let only_small = ix.small;
        ix.drop_panics = parse || ix.small;
        ix.harness = name.clone();
        ix.stats = Default::default();
        ix.obligations = 0;
        ix.obl_by.clear();
        ix.loop_depth = 0;
        ix.recursion.clear();
        ix.prune.clear();
        ix.sums = Default::default();
        ix.strict = false;
        ix.expired = false;
        let nrep = ix.reports.len();
        let t0 = Instant::now();
        ix.deadline = t0 + Duration::from_secs_f64(budget);
        ix.mem_limit = mem + state::rss_now();
        let (mut ret, mut pan) = (0, 0);
        for pass in 0..2 {
            if pass == 1 {
                // what is undecided for lists of any length is analysed again for short ones
                if ix.small || ix.stats.undecided.is_empty() || ix.reports.len() > nrep {
                    break;
                }
                ix.small = true;
                ix.parse_mode = false;
                state::SMALL.with(|n| n.set(if parse { 4 } else { 3 }));
                ix.deadline = Instant::now() + Duration::from_secs_f64(if parse { budget.min(60.0) } else { budget });
                ix.mem_limit = mem + state::rss_now();
                ix.expired = false;
                ix.loop_depth = 0;
                ix.recursion.clear();
                ix.sums = Default::default();
                ix.strict = false;
            }
        let outs = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ix.call(State::default(), inst, vec![], None, None))) {
            Ok(o) => o,
            Err(_) => {
                *ix.stats.undecided.entry("the analyser stopped".into()).or_default() += 1;
                vec![]
            }
        };
            pan += ix.stats.panics;
            ix.stats.panics = 0;
        for o in &outs {
            match &o.end {
                End::Ret(_) => ret += 1,
                End::Panic(p) => {
                    pan += 1;
                    if !o.st.may_panic && !parse && !only_small {
                        if let Some(t) = &o.st.taint {
                            *ix.stats.undecided.entry(format!("C18 panic {} (imprecise: {})", p, t)).or_default() += 1;
                        } else {
                            ix.report(&o.st, &format!("C18 no panic: {}", p), p);
                        }
                    }
                }
                End::Undecided(u) => *ix.stats.undecided.entry(u.clone()).or_default() += 1,
            }
        }
        }
        if std::env::var("VABS_PROF").is_ok() {
            let mut v: Vec<_> = ix.prof.drain().collect();
            v.sort_by(|a, b| b.1 .2.total_cmp(&a.1 .2));
            for (n, (c, o, t)) in v.iter().take(25) {
                eprintln!("{:8.2}s {:7} calls {:7} outs {}", t, c, o, n);
            }
        }
        if ix.stats.cut > 0 {
            *ix.stats.undecided.entry("recursion without a summary".into()).or_default() += ix.stats.cut;
        }
        let s = &ix.stats;
        eprintln!(
            "{:40} {:6.2}s ret {} panic {} obl {} steps {} calls {} forks {} loops m{} p{} u{} cut{} merges{} undecided {} reports {}",
            name,
            t0.elapsed().as_secs_f64(),
            ret,
            pan,
            ix.obligations,
            s.steps,
            s.calls,
            s.forks,
            s.loops_m,
            s.loops_p,
            s.loops_unrolled,
            s.cut,
            s.merges,
            s.undecided.values().sum::<u64>(),
            ix.reports.len() - nrep
        );
        for (u, n) in s.undecided.iter().take(8) {
            eprintln!("      undecided {} x{}", u, n);
        }
        let mut reps = vec![];
        for r in &ix.reports[nrep..] {
            eprintln!("      REPORT {}: {}", r.what, r.detail);
            if std::env::var("VABS_PATH").is_ok() {
                for p in &r.path {
                    eprintln!("          {}", p);
                }
            }
            reps.push(format!("{{\"what\":{},\"harness\":{},\"detail\":{},\"path\":{}}}", js(&r.what), js(&r.harness), js(&r.detail), jlist(&r.path)));
        }
        let und: Vec<String> = s.undecided.iter().map(|(k, n)| format!("{} x{}", k, n)).collect();
        let fns: Vec<String> = s.fns.iter().cloned().collect();
        let by: Vec<String> = ix.obl_by.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
        emit(format!(
            "{{\"harness\":{},\"paths\":{},\"panics\":{},\"obligations\":{{{}}},\"steps\":{},\"calls\":{},\"forks\":{},\"loops_map\":{},\"loops_inv\":{},\"loops_unrolled\":{},\"cut\":{},\"merges\":{},\"undecided\":{},\"functions\":{},\"wall_s\":{:.3},\"reports\":[{}]}}",
            js(&name), ret, pan, by.join(","), s.steps, s.calls, s.forks, s.loops_m, s.loops_p, s.loops_unrolled, s.cut, s.merges,
            jlist(&und), jlist(&fns), t0.elapsed().as_secs_f64(), reps.join(",")
        ));
    }
    if sel.iter().any(|s| s == "c17") && std::env::var("VABS_LIST").is_err() {
        emit(format!("{{\"scan\":{}}}", scan::scan()));
    }
    if sel.iter().any(|s| s == "c07w") && std::env::var("VABS_LIST").is_err() {
        emit(format!("{{\"narrow\":{}}}", scan::narrow_counters()));
    }
    emit("{\"done\":true}".into());
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probe");
    if let (true, Ok(p)) = (is_probe, std::env::var("VABS_RECORD")) {
        // only note how the probe crate is compiled
        std::fs::write(p, args[1..].join("\0")).unwrap();
    }
    if !is_probe || std::env::var("VABS_RECORD").is_ok() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
        panic!("exec failed: {e}");
    }
    let rargs: Vec<String> = args[1..].to_vec();
    let _ = rustc_public::run!(&rargs, || -> std::ops::ControlFlow<()> {
        analyse();
        std::ops::ControlFlow::Break(())
    });
}
