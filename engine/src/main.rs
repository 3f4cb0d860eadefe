mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    // "name: value," inside a DI record (values here never contain commas except strings)
    let pat = format!("{k}: ");
    let mut from = 0;
    loop {
        let i = s[from..].find(&pat)? + from;
        let ok = i == 0 || matches!(s.as_bytes()[i - 1], b'(' | b' ');
        if ok {
            let r = &s[i + pat.len()..];
            if let Some(q) = r.strip_prefix('"') {
                return q.split('"').next();
            }
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = i + pat.len();
    }
}
fn mref(s: &str) -> Option<u32> {
    s.trim_start_matches('!').parse().ok()
}
struct Loc {
    file: String,
    line: u32,
    func: String,
    inlined: Option<u32>,
}
fn loc_of(m: &ir::Module, id: u32) -> Option<Loc> {
    let r = m.meta.get(&id)?;
    if !r.contains("DILocation(") {
        return None;
    }
    let line = field(r, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
    let inlined = field(r, "inlinedAt").and_then(mref);
    let mut sc = field(r, "scope").and_then(mref)?;
    let mut func = String::new();
    let mut file = String::new();
    let mut file_id = None;
    for _ in 0..40 {
        let s = m.meta.get(&sc)?;
        if file_id.is_none() {
            file_id = field(s, "file").and_then(mref);
        }
        if s.contains("DISubprogram(") {
            let mut n = field(s, "name").unwrap_or("?").to_string();
            // prepend the enclosing scope name
            let mut up = field(s, "scope").and_then(mref);
            let mut g = 0;
            while let Some(u) = up {
                let Some(us) = m.meta.get(&u) else { break };
                if us.contains("DINamespace(") || us.contains("DICompositeType(") {
                    if let Some(x) = field(us, "name") {
                        n = format!("{x}::{n}");
                    }
                }
                up = field(us, "scope").and_then(mref);
                g += 1;
                if g > 12 {
                    break;
                }
            }
            func = n;
            break;
        }
        sc = field(s, "scope").and_then(mref)?;
    }
    if let Some(f) = file_id.and_then(|f| m.meta.get(&f)) {
        let n = field(f, "filename").unwrap_or("");
        let d = field(f, "directory").unwrap_or("");
        file = if n.starts_with('/') { n.to_string() } else { format!("{d}/{n}") };
    }
    Some(Loc { file, line, func, inlined })
}
pub fn dbg_chain(m: &ir::Module, id: u32) -> String {
    let mut s = String::new();
    let mut cur = Some(id);
    let mut n = 0;
    while let Some(i) = cur {
        let Some(l) = loc_of(m, i) else { break };
        let short = l.file.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
        let _ = write!(s, "{}{}:{}", if n > 0 { " < " } else { "" }, short, l.line);
        cur = l.inlined;
        n += 1;
        if n > 8 {
            break;
        }
    }
    s
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ja(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut a: HashMap<String, String> = HashMap::new();
    let av: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < av.len() {
        let k = av[i].trim_start_matches("--").to_string();
        a.insert(k, av.get(i + 1).cloned().unwrap_or_default());
        i += 2;
    }
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(g("ir", "")).expect("ir file");
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse: {e}");
            std::process::exit(3);
        }
    };
    drop(text);
    let nf = m.funcs.len();
    let p = match exec::Prog::link(m) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("link: {e}");
            std::process::exit(3);
        }
    };
    eprintln!("loaded {} functions in {:.2}s", nf, t0.elapsed().as_secs_f64());
    if g("list-unsup", "") == "1" {
        for f in &p.m.funcs {
            for b in &f.blocks {
                for i in &b.ins {
                    if let ir::I::Unsup(s) = i {
                        println!("{s}");
                    }
                }
            }
        }
        return;
    }
    let srcroot = g("src", "/repo/src");
    // source lines of /repo in every block
    let mut names: Vec<(String, BTreeSet<u32>)> = vec![];
    let mut ids: HashMap<String, u32> = HashMap::new();
    let mut cache: HashMap<u32, Vec<(u32, u32)>> = HashMap::new();
    let mut at: Vec<Vec<Vec<(u32, u32)>>> = vec![];
    for f in &p.m.funcs {
        let mut bs = vec![];
        for b in &f.blocks {
            let mut v = vec![];
            let mut ds: Vec<u32> = b.dbg.iter().copied().filter(|d| *d != 0).collect();
            ds.sort_unstable();
            ds.dedup();
            for d in ds {
                let l = cache.entry(d).or_insert_with(|| {
                    let mut v = vec![];
                    let mut cur = Some(d);
                    while let Some(i) = cur {
                        let Some(l) = loc_of(&p.m, i) else { break };
                        if let Some(r) = l.file.strip_prefix(&srcroot) {
                            let n = format!("{}:{}", r.trim_start_matches('/'), l.func);
                            let id = *ids.entry(n.clone()).or_insert_with(|| {
                                names.push((n, BTreeSet::new()));
                                names.len() as u32 - 1
                            });
                            names[id as usize].1.insert(l.line);
                            v.push((id, l.line));
                        }
                        cur = l.inlined;
                    }
                    v
                });
                v.extend(l.iter().copied());
            }
            v.sort_unstable();
            v.dedup();
            bs.push(v);
        }
        at.push(bs);
    }
    let mut outj = vec![];
    for entry in g("entry", "").split(',').filter(|x| !x.is_empty()) {
        for f in &p.cover {
            for b in f {
                b.store(false, Relaxed);
            }
        }
        let sh = Arc::new(solver::Shared::new(g("dump-every", "0").parse().unwrap()));
        let t1 = std::time::Instant::now();
        let secs: f64 = g("timeout", "600").parse().unwrap();
        let cfg = exec::Cfg {
            threads: g("threads", "8").parse().unwrap(),
            max_steps: g("max-steps", "40000000").parse().unwrap(),
            deadline: t1 + std::time::Duration::from_secs_f64(secs),
            samples: g("samples", "24").parse().unwrap(),
            solver_timeout_ms: g("solver-ms", "20000").parse().unwrap(),
            max_viol: g("max-viol", "1").parse().unwrap(),
            seed: g("seed", "1").parse().unwrap(),
        };
        let o = exec::explore(&p, entry, &cfg, sh.clone());
        let dt = t1.elapsed().as_secs_f64();
        // coverage
        let mut hits: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); names.len()];
        let mut allf = 0u64;
        for (fi, f) in p.cover.iter().enumerate() {
            allf += f.iter().any(|b| b.load(Relaxed)) as u64;
            for (bi, b) in f.iter().enumerate() {
                if b.load(Relaxed) {
                    for (n, ln) in &at[fi][bi] {
                        hits[*n as usize].insert(*ln);
                    }
                }
            }
        }
        let st = &sh.stats;
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"entry\":{},\"wall_s\":{:.3},\"paths\":{},\"assume_pruned\":{},\"instructions\":{},\"forks\":{},\"covers\":\"{:#x}\",\"incomplete\":{},\"asserts\":{},\"symbolic_asserts\":{},\"max_path_constraints\":{},\"max_path_steps\":{},",
            js(entry), dt, o.paths, o.assumed, o.steps, o.forks, o.covers, o.incomplete, o.asserts, o.sym_asserts, o.max_cons, o.max_path_steps
        );
        let _ = write!(
            s,
            "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"model_hits\":{},\"solver_s\":{:.3},\"solver\":{},\"functions_executed\":{},",
            st.queries.load(Relaxed), st.sat.load(Relaxed), st.unsat.load(Relaxed), st.unknown.load(Relaxed), st.cached.load(Relaxed), st.model_hits.load(Relaxed),
            st.solver_ns.load(Relaxed) as f64 / 1e9, js(&solver::version()), allf
        );
        s.push_str("\"violations\":[");
        for (i, (m, iv, bt)) in o.viols.iter().enumerate() {
            let _ = write!(s, "{}{{\"msg\":{},\"inputs\":{},\"trace\":{}}}", if i > 0 { "," } else { "" }, js(m), ja(iv), js(bt));
        }
        s.push_str("],\"errors\":[");
        for (i, m) in o.errs.iter().take(5).enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(m));
        }
        s.push_str("],\"samples\":[");
        let maxs = cfg.samples;
        let stride = (o.samples.len() / maxs.max(1)).max(1);
        for (i, (iv, ob)) in o.samples.iter().step_by(stride).take(maxs).enumerate() {
            let _ = write!(s, "{}{{\"inputs\":{},\"obs\":{}}}", if i > 0 { "," } else { "" }, ja(iv), ja(ob));
        }
        s.push_str("],\"repo_functions\":[");
        let mut first = true;
        for ((n, all), hit) in names.iter().zip(&hits) {
            if hit.is_empty() {
                continue;
            }
            let _ = write!(s, "{}{{\"fn\":{},\"lines\":{},\"hit\":{}}}", if first { "" } else { "," }, js(n), all.len(), hit.len());
            first = false;
        }
        s.push_str("]}");
        eprintln!(
            "{entry}: {} paths ({} pruned) {} viol {} err, {:.1}s, {:.1}M instr, {} queries ({:.1}s), cached {}, covers {:#x}{}",
            o.paths, o.assumed, o.viols.len(), o.errs.len(), dt, o.steps as f64 / 1e6, st.queries.load(Relaxed),
            st.solver_ns.load(Relaxed) as f64 / 1e9, st.cached.load(Relaxed), o.covers, if o.incomplete { " INCOMPLETE" } else { "" }
        );
        for (m, iv, bt) in o.viols.iter().take(2) {
            eprintln!("  violation: {m}\n  inputs {iv:?}\n{bt}");
        }
        for m in o.errs.iter().take(2) {
            eprintln!("  engine error: {m}");
        }
        if let Some(d) = a.get("dump-dir") {
            for (i, (q, sat)) in sh.dump.lock().unwrap().iter().enumerate() {
                let _ = std::fs::write(format!("{d}/{entry}-{i}-{}.smt2", if *sat { "sat" } else { "unsat" }), q);
            }
        }
        outj.push(s);
    }
    let j = format!("[{}]\n", outj.join(",\n"));
    match a.get("out") {
        Some(f) => std::fs::write(f, j).unwrap(),
        None => println!("{j}"),
    }
    // no need to tear everything down
    std::process::exit(0);
}
