//! Clause sets: every solver entry point, certificate checker and simplifier.
use logicaffeine_proof::cdcl::{BudgetedResult, Lit, RestartMode, SolveResult, Solver};
use logicaffeine_proof::proof::{Perm, ProofStep, Witness};
use logicaffeine_proof::solve::{self, Answer, Solved};
use logicaffeine_proof::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn lit(x: i64) -> Lit {
    Lit::new((x.unsigned_abs() - 1) as u32, x > 0)
}
fn num(l: Lit) -> i64 {
    let v = l.var() as i64 + 1;
    if l.is_positive() { v } else { -v }
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn clause(v: &Value) -> Vec<Lit> {
    ints(v).into_iter().map(lit).collect()
}
fn nums(cs: &[Vec<Lit>]) -> Vec<Vec<i64>> {
    cs.iter().map(|c| c.iter().map(|&l| num(l)).collect()).collect()
}

enum A {
    Sat(Vec<bool>),
    Unsat,
    Unknown,
}
fn of(r: SolveResult) -> A {
    match r {
        SolveResult::Sat(m) => A::Sat(m),
        SolveResult::Unsat => A::Unsat,
    }
}
fn ofs(r: &Solved) -> A {
    match &r.answer {
        Answer::Sat(m) => A::Sat(m.clone()),
        Answer::Unsat => A::Unsat,
    }
}
fn refuted(b: bool) -> A {
    if b { A::Unsat } else { A::Unknown }
}
/// A model given by atom names; atoms it does not mention are free.
fn named(n: usize, m: &[(String, bool)]) -> Vec<bool> {
    let mut r = vec![false; n];
    for (k, v) in m {
        if let Some(i) = k.strip_prefix('x').and_then(|s| s.parse::<usize>().ok()) {
            r[i] = *v;
        }
    }
    r
}
fn expr(n: usize, f: &[Vec<Lit>]) -> ProofExpr {
    let t = || ProofExpr::Or(Box::new(ProofExpr::Atom("x0".into())), Box::new(ProofExpr::Not(Box::new(ProofExpr::Atom("x0".into())))));
    let bot = || ProofExpr::Not(Box::new(t()));
    let _ = n;
    let one = |l: &Lit| {
        let a = ProofExpr::Atom(format!("x{}", l.var()));
        if l.is_positive() { a } else { ProofExpr::Not(Box::new(a)) }
    };
    let or = |c: &Vec<Lit>| c.iter().map(one).reduce(|a, b| ProofExpr::Or(Box::new(a), Box::new(b))).unwrap_or_else(bot);
    f.iter().map(or).reduce(|a, b| ProofExpr::And(Box::new(a), Box::new(b))).unwrap_or_else(t)
}

struct Log {
    ans: Vec<Value>,
    cert: Vec<Value>,
    eq: Vec<Value>,
    red: Vec<Value>,
    imp: Vec<Value>,
}
impl Log {
    fn ask_if(&mut self, when: bool, by: &str, g: impl FnOnce() -> A) {
        if when {
            self.ask(by, g)
        }
    }
    fn ask(&mut self, by: &str, g: impl FnOnce() -> A) {
        self.ask_with(by, &[], &[], g)
    }
    fn ask_with(&mut self, by: &str, add: &[Vec<i64>], asm: &[i64], g: impl FnOnce() -> A) {
        let r = catch_unwind(AssertUnwindSafe(g));
        let (a, m) = match r {
            Ok(A::Sat(m)) => ("sat", m),
            Ok(A::Unsat) => ("unsat", vec![]),
            Ok(A::Unknown) => ("unknown", vec![]),
            Err(_) => ("panic", vec![]),
        };
        self.ans.push(json!({"by": by, "ans": a, "m": m, "add": add, "as": asm}));
    }
    fn cert(&mut self, by: &str, drop: usize, must: bool, g: impl FnOnce() -> bool) {
        match catch_unwind(AssertUnwindSafe(g)) {
            Ok(ok) => self.cert.push(json!({"by": by, "drop": drop, "must": must, "ok": ok})),
            Err(_) => self.ans.push(json!({"by": by, "ans": "panic", "m": [], "add": [], "as": []})),
        }
    }
    fn eq(&mut self, by: &str, g: impl FnOnce() -> Vec<Vec<Lit>>) {
        let r = catch_unwind(AssertUnwindSafe(g));
        match r {
            Ok(cs) if cs.len() > 160 => {} // too many clauses to judge
            Ok(cs) => self.eq.push(json!({"by": by, "g": nums(&cs)})),
            Err(_) => self.ans.push(json!({"by": by, "ans": "panic", "m": [], "add": [], "as": []})),
        }
    }
}

fn fresh(n: usize, f: &[Vec<Lit>]) -> Solver {
    let mut s = Solver::new(n);
    for c in f {
        s.add_clause(c.clone());
    }
    s
}
fn learned(s: &Solver) -> Vec<Vec<Lit>> {
    s.learned().iter().map(|c| c.lits.clone()).collect()
}
fn without(f: &[Vec<Lit>], k: usize) -> Vec<Vec<Lit>> {
    f.iter().enumerate().filter(|(i, _)| i + 1 != k).map(|(_, c)| c.clone()).collect()
}
/// A refutation is to be accepted for the formula it was made for; it is also
/// offered for the formula with one clause taken away.
fn offer(log: &mut Log, by: &str, n: usize, f: &[Vec<Lit>], steps: &[ProofStep], small: bool) {
    log.cert(by, 0, true, || pr::check_pr_refutation(n, f, steps));
    log.cert(&format!("{by} (fast)"), 0, true, || pr::check_pr_refutation_fast(n, f, steps));
    if small {
        for k in 1..=f.len() {
            let g = without(f, k);
            log.cert(by, k, false, || pr::check_pr_refutation(n, &g, steps));
            log.cert(&format!("{by} (fast)"), k, false, || pr::check_pr_refutation_fast(n, &g, steps));
        }
    }
}

pub fn case(v: &mut Value) {
    let n = v["v"].as_u64().unwrap() as usize;
    let f: Vec<Vec<Lit>> = v["f"].as_array().unwrap().iter().map(clause).collect();
    let size = v["size"].as_str().unwrap().to_string();
    let small = size == "small";
    let mut log = Log { ans: vec![], cert: vec![], eq: vec![], red: vec![], imp: vec![] };
    let l = &mut log;

    // the search engine under its settings
    type Tune = fn(&mut Solver);
    let tunes: [(&str, Tune); 8] = [
        ("plain", |_| {}),
        ("glucose", |s| s.set_restart_mode(RestartMode::Glucose)),
        ("luby", |s| s.set_restart_mode(RestartMode::Luby)),
        ("inprocessing", |s| {
            s.set_inprocess(true);
            s.set_inprocess_interval(2);
        }),
        ("reducing", |s| s.set_reduce_limit(2)),
        ("subsumed", |s| {
            s.subsume();
        }),
        ("vivified", |s| {
            s.vivify();
        }),
        ("probed", |s| {
            s.probe();
        }),
    ];
    for (name, tune) in tunes {
        let mut proof = None;
        l.ask(name, || {
            let mut s = fresh(n, &f);
            tune(&mut s);
            let r = of(s.solve());
            if let A::Unsat = r {
                proof = Some(learned(&s));
            }
            r
        });
        if let Some(p) = proof {
            l.cert(name, 0, true, || rup::check_refutation(n, &f, &p));
            if small && name == "plain" {
                for k in 1..=f.len() {
                    let g = without(&f, k);
                    l.cert(name, k, false, || rup::check_refutation(n, &g, &p));
                }
            }
        }
    }
    l.ask("phases", || {
        let mut s = fresh(n, &f);
        s.set_initial_phase(&(0..n).map(|i| i % 2 == 0).collect::<Vec<_>>());
        of(s.solve())
    });
    for b in [1, 3] {
        let mut s = fresh(n, &f);
        for _ in 0..200 {
            let mut more = false;
            l.ask("in instalments", || match s.solve_budgeted(b) {
                BudgetedResult::Sat(m) => A::Sat(m),
                BudgetedResult::Unsat => A::Unsat,
                BudgetedResult::Budget => {
                    more = true;
                    A::Unknown
                }
            });
            if !more {
                break;
            }
        }
    }
    // one solver, call after call
    let mut s = fresh(n, &f);
    let mut add: Vec<Vec<i64>> = vec![];
    for c in v["calls"].as_array().unwrap() {
        let ls = ints(&c["c"]);
        match c["o"].as_str().unwrap() {
            "add" => {
                add.push(ls.clone());
                let r = catch_unwind(AssertUnwindSafe(|| s.add_clause(ls.iter().map(|&x| lit(x)).collect())));
                if r.is_err() {
                    l.ans.push(json!({"by": "adding a clause", "ans": "panic", "m": [], "add": [], "as": []}));
                }
            }
            "solve" => l.ask_with("solved again", &add, &[], || of(s.solve())),
            "budget" => l.ask_with("solved again in part", &add, &[], || match s.solve_budgeted(c["k"].as_u64().unwrap()) {
                BudgetedResult::Sat(m) => A::Sat(m),
                BudgetedResult::Unsat => A::Unsat,
                BudgetedResult::Budget => A::Unknown,
            }),
            _ => {
                let a: Vec<Lit> = ls.iter().map(|&x| lit(x)).collect();
                l.ask_with("under assumptions", &add, &ls, || of(s.solve_under_assumptions(&a)))
            }
        }
    }
    // front ends; the ones that look for symmetry can take long, and are left out
    // once a case has used up its time
    let start = std::time::Instant::now();
    let quick = || start.elapsed().as_millis() < 250;
    let mut via = vec![];
    {
        let mut front = |l: &mut Log, by: &str, g: &dyn Fn() -> Solved| {
            let mut out = None;
            l.ask(by, || {
                let r = g();
                let a = ofs(&r);
                out = Some(r);
                a
            });
            if let Some(r) = out {
                via.push(format!("{:?}", r.via));
                if matches!(r.answer, Answer::Unsat) && !r.proof.is_empty() && !by.contains("breaking") {
                    l.cert(by, 0, true, || pr::check_pr_refutation(n, &f, &r.proof));
                }
            }
        };
        front(l, "structured", &|| solve::solve_structured(n, &f));
        if small {
            front(l, "comprehensive", &|| solve::solve_comprehensive(n, &f));
            front(l, "components", &|| solve::solve_by_components(n, &f));
            if quick() {
                front(l, "symmetry breaking", &|| solve::solve_by_symmetry_breaking(n, &f));
            }
            let declared: Vec<Vec<usize>> = v["sr"].as_array().unwrap().iter().map(|s| {
                let mut p: Vec<usize> = (0..n).collect();
                p.swap(s["a"].as_u64().unwrap() as usize - 1, s["b"].as_u64().unwrap() as usize - 1);
                p
            }).chain([(0..n).map(|i| (i + 1) % n).collect()]).collect();
            if quick() {
                front(l, "declared symmetry", &|| solve::solve_with_declared_symmetry(n, &f, &declared));
            }
        }
    }
    l.ask("text form", || {
        let c = dimacs::DimacsCnf { num_vars: n, clauses: f.clone() };
        of(dimacs::parse(&dimacs::print(&c)).unwrap().into_solver().solve())
    });
    let e = expr(n, &f);
    let mut steps_c = None;
    l.ask("formula", || match sat::find_model(&e) {
        sat::ModelOutcome::Sat(m) => A::Sat(named(n, &m)),
        sat::ModelOutcome::Unsat => A::Unsat,
        sat::ModelOutcome::Unsupported => A::Unknown,
    });
    l.ask("formula refutation", || match sat::prove_unsat(&e) {
        sat::UnsatOutcome::Sat(m) => A::Sat(named(n, &m)),
        sat::UnsatOutcome::Refuted => A::Unsat,
        sat::UnsatOutcome::Unsupported => A::Unknown,
    });
    if small {
        l.ask_if(quick(), "certified", || match sdcl::solve_certified(n, &f) {
            sdcl::CertifiedOutcome::Unsat { steps, .. } => {
                steps_c = Some(steps);
                A::Unsat
            }
            sdcl::CertifiedOutcome::Sat(m) => A::Sat(m),
        });
        if let Some(st) = &steps_c {
            offer(l, "certified", n, &f, st, true);
        }
        let mut auto = None;
        l.ask_if(quick(), "certified symmetry", || {
            let r = sym_certify::certified_unsat_auto(n, &f);
            let u = r.refuted;
            auto = u.then_some(r.steps);
            refuted(u)
        });
        if let Some(st) = &auto {
            offer(l, "certified symmetry", n, &f, st, true);
        }
        let mut sel = None;
        l.ask_if(quick(), "symmetric learning", || match sym_dynamic::sel_refute(n, &f) {
            sym_dynamic::SelOutcome::Sat(m) => A::Sat(m),
            sym_dynamic::SelOutcome::Unsat { steps, .. } => {
                sel = Some(steps);
                A::Unsat
            }
            _ => A::Unknown,
        });
        if let Some(st) = &sel {
            offer(l, "symmetric learning", n, &f, st, false);
        }
        l.ask("pigeons", || refuted(pigeonhole::decide_pigeonhole_unsat(&e)));
        l.ask("cutting planes", || refuted(pseudo_boolean::refute_clausal(&e)));
        l.ask("parity", || refuted(xorsat::refute_via_parity(&e)));
        l.ask("counting", || refuted(counting_principle::refute_counting(n, &f)));
        l.ask("parity and counting", || refuted(parity_cardinality::refute(n, &f)));
        l.ask_if(quick(), "ordering", || refuted(ordering::refute_ordering(n, &f)));
        l.ask_if(quick(), "sums of squares", || refuted(sos::sos_refutes(n, &f)));
        if n <= 8 {
            l.ask("algebra", || refuted(polycalc::nullstellensatz_refutes(n, &f, 2)));
            l.ask("algebra calculus", || refuted(polycalc::polynomial_calculus_refutes(n, &f, 2)));
        }
        l.ask_if(quick(), "fused", || match lyapunov::fused_parity_cardinality_decide(n, &f) {
            Some(false) => A::Unsat,
            _ => A::Unknown,
        });
        let mut be = None;
        l.ask("buckets", || {
            be = inprocess::bucket_elimination_refute(n, &f, 12);
            refuted(be.is_some())
        });
        if let Some(st) = &be {
            offer(l, "buckets", n, &f, st, false);
        }
        l.ask("resampling", || lll::moser_tardos_witness(n, &f, 7, 2000).map_or(A::Unknown, A::Sat));
        // simplification
        l.eq("variable elimination", || inprocess::bve(n, &f).0);
        l.eq("vivification", || inprocess::vivify(n, &f).0);
        if quick() {
            l.eq("all symmetry broken", || solve::break_all_symmetry(n, &f));
        }
        if quick() {
            l.eq("all symmetry broken completely", || solve::break_all_symmetry_complete(n, &f).0);
        }
        match catch_unwind(AssertUnwindSafe(|| solve::mine_clauses(n, &f))) {
            Ok(cs) => cs.iter().for_each(|c| l.imp.push(json!({"by": "mined", "ok": true, "c": nums(&[c.clone()])[0]}))),
            Err(_) => l.ans.push(json!({"by": "mined", "ans": "panic", "m": [], "add": [], "as": []})),
        }
        // implied clauses
        for p in v["pr"].as_array().unwrap() {
            let c = clause(&p["c"]);
            let goal = expr(n, &[c.clone()]);
            let r = catch_unwind(AssertUnwindSafe(|| rup::entails_certified(&[e.clone()], &goal)));
            match r {
                Ok(x) => {
                    l.imp.push(json!({"by": "entailment", "ok": x == Some(rup::Verdict::Entailed), "c": p["c"]}));
                    if x == Some(rup::Verdict::NotEntailed) {
                        // then some model of the formula falsifies the clause: the negated clause is consistent with it
                        let neg: Vec<i64> = ints(&p["c"]).iter().map(|x| -x).collect();
                        let asm: Vec<Lit> = neg.iter().map(|&x| lit(x)).collect();
                        l.ask_with("non-entailment", &[], &neg, || {
                            let mut s = fresh(n, &f);
                            match s.solve_under_assumptions(&asm) {
                                SolveResult::Sat(m) => A::Sat(m),
                                SolveResult::Unsat => A::Sat(vec![]),
                            }
                        });
                    }
                }
                Err(_) => l.ans.push(json!({"by": "entailment", "ans": "panic", "m": [], "add": [], "as": []})),
            }
            // redundancy with a made-up witness
            let w = Witness::Assignment(clause(&p["w"]));
            if let Ok(ok) = catch_unwind(AssertUnwindSafe(|| pr::is_pr(n, &f, &c, &w))) {
                l.red.push(json!({"by": "witness", "ok": ok, "c": p["c"]}));
            }
        }
        for p in v["sr"].as_array().unwrap() {
            let c = clause(&p["c"]);
            let mut im: Vec<Lit> = (0..n as u32).map(Lit::pos).collect();
            let (a, b) = (p["a"].as_u64().unwrap() as usize - 1, p["b"].as_u64().unwrap() as usize - 1);
            match p["s"].as_u64().unwrap() {
                1 => im.swap(a, b),
                2 => im = (0..n as u32).map(|i| Lit::pos((i + 1) % n as u32)).collect(),
                _ => im[a] = im[a].negated(),
            }
            let w = Witness::Substitution(Perm::from_images(im));
            if let Ok(ok) = catch_unwind(AssertUnwindSafe(|| pr::is_pr(n, &f, &c, &w))) {
                l.red.push(json!({"by": "symmetry witness", "ok": ok, "c": p["c"]}));
            }
            let steps = [ProofStep::Pr { clause: c, witness: w }];
            for fast in [false, true] {
                l.cert("made-up symmetry step", 0, false, || if fast { pr::check_pr_refutation_fast(n, &f, &steps) } else { pr::check_pr_refutation(n, &f, &steps) });
            }
        }
        // made-up refutations
        let st: Vec<Vec<Lit>> = v["steps"].as_array().unwrap().iter().map(clause).collect();
        l.cert("made-up", 0, false, || rup::check_refutation(n, &f, &st));
        let rs: Vec<ProofStep> = st.iter().cloned().map(ProofStep::Rup).collect();
        l.cert("made-up steps", 0, false, || pr::check_pr_refutation(n, &f, &rs));
        l.cert("made-up steps (fast)", 0, false, || pr::check_pr_refutation_fast(n, &f, &rs));
        for i in 1..=n as i64 {
            let pair = [vec![lit(i)], vec![lit(-i)]];
            l.cert("made-up pair", 0, false, || rup::check_refutation(n, &f, &pair));
            let ps: Vec<ProofStep> = pair.iter().cloned().map(|c| ProofStep::Pr { witness: Witness::Assignment(c.clone()), clause: c }).collect();
            l.cert("made-up redundant pair", 0, false, || pr::check_pr_refutation(n, &f, &ps));
            l.cert("made-up redundant pair (fast)", 0, false, || pr::check_pr_refutation_fast(n, &f, &ps));
        }
        special(l, n, &f, v);
    }
    v["via"] = json!(via);
    v["ans"] = json!(log.ans);
    v["cert"] = json!(log.cert);
    v["eq"] = json!(log.eq);
    v["red"] = json!(log.red);
    v["imp"] = json!(log.imp);
}

/// The solvers for clause sets of a special form, called directly.
fn special(l: &mut Log, n: usize, f: &[Vec<Lit>], v: &Value) {
    if f.iter().all(|c| (1..=2).contains(&c.len())) {
        let t = |x: Lit| if x.is_positive() { twosat::Lit::pos(x.var() as usize) } else { twosat::Lit::neg(x.var() as usize) };
        let cs: Vec<_> = f.iter().map(|c| (t(c[0]), t(*c.last().unwrap()))).collect();
        let mut at = None;
        l.ask("two literals", || match twosat::solve(&cs, n) {
            twosat::TwoSatOutcome::Sat(m) => A::Sat(m),
            twosat::TwoSatOutcome::Unsat(x) => {
                at = Some(x);
                A::Unsat
            }
        });
        if let Some(x) = at {
            l.cert("two literals", 0, true, || twosat::is_refutation(&cs, n, x));
        }
        for x in 0..n {
            l.cert("two literals, any variable", 0, false, || twosat::is_refutation(&cs, n, x));
        }
    }
    if f.iter().all(|c| !c.is_empty() && c.iter().filter(|x| x.is_positive()).count() <= 1) {
        let cs: Vec<_> = f.iter().map(|c| hornsat::HornClause {
            body: c.iter().filter(|x| !x.is_positive()).map(|x| x.var() as usize).collect(),
            head: c.iter().find(|x| x.is_positive()).map(|x| x.var() as usize),
        }).collect();
        let mut at = None;
        l.ask("rules", || match hornsat::solve(&cs, n) {
            hornsat::HornOutcome::Sat(m) => A::Sat(m),
            hornsat::HornOutcome::Unsat(x) => {
                at = Some(x);
                A::Unsat
            }
        });
        if let Some(x) = at {
            l.cert("rules", 0, true, || hornsat::is_refutation(&cs, n, &x));
            for k in 1..=cs.len() {
                // the same indices after one clause is replaced by a rule that says nothing
                let mut d = cs.clone();
                d[k - 1] = hornsat::HornClause::rule(vec![0], 0);
                l.cert("rules", k, false, || hornsat::is_refutation(&d, n, &x));
            }
        }
        for k in 0..cs.len() {
            l.cert("any rules", 0, false, || hornsat::is_refutation(&cs, n, &(0..=k).collect::<Vec<_>>()));
        }
    }
    let eqs = v["eqs"].as_array().unwrap();
    let whole: usize = eqs.iter().map(|q| 1usize << (q["x"].as_array().unwrap().len() - 1)).sum();
    if !eqs.is_empty() && whole == f.len() && v["kind"] == "parity" {
        let es: Vec<_> = eqs.iter().map(|q| xorsat::XorEquation::new(ints(&q["x"]).iter().map(|x| *x as usize - 1).collect::<Vec<_>>(), q["r"] == 1)).collect();
        let mut at = None;
        l.ask("equations", || match xorsat::solve(&es, n) {
            xorsat::XorOutcome::Sat(m) => A::Sat(m),
            xorsat::XorOutcome::Unsat(x) => {
                at = Some(x);
                A::Unsat
            }
        });
        if let Some(x) = at {
            l.cert("equations", 0, true, || xorsat::is_refutation(&es, n, &x));
        }
        for k in 0..es.len() {
            for j in 0..=k {
                l.cert("any equations", 0, false, || xorsat::is_refutation(&es, n, &(j..=k).collect::<Vec<_>>()));
                l.cert("equation pair", 0, false, || xorsat::is_refutation(&es, n, &[j, k]));
            }
        }
    }
}
