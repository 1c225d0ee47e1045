//! Executes the scripts of mc/c/driver.c through the crate of build/rust: one tab-separated command per line on stdin,
//! one answer line per command on the file given as argument.
use coco::{observer, suite, LogLevel, Observer, Problem, RandomState, Suite};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct World {
    p: HashMap<usize, Problem<'static>>,
    s: HashMap<usize, Box<Suite>>,
    o: HashMap<usize, Observer>,
    r: HashMap<usize, RandomState>,
}

fn num(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else if v.is_infinite() {
        (if v > 0.0 { "inf" } else { "-inf" }).into()
    } else {
        format!("{:e}", v)
    }
}

fn vec(v: &[f64]) -> String {
    v.iter().map(|x| num(*x)).collect::<Vec<_>>().join("\t")
}

fn point(t: &[&str]) -> Vec<f64> {
    t.iter().filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
}

fn describe(p: Option<&Problem<'static>>) -> String {
    match p {
        None => "null".into(),
        Some(p) => format!("{}\t{}\t{}\t{}\t{}\t{}\t{}", p.id(), p.suite_index().0, p.dimension(), p.number_of_objectives(),
                           p.number_of_constraints(), p.number_of_integer_variables(), p.name()),
    }
}

fn suite_name(s: &str) -> suite::Name {
    match s {
        "bbob" => suite::Name::Bbob,
        "bbob-biobj" => suite::Name::BbobBiobj,
        "bbob-biobj-ext" => suite::Name::BbobBiobjExt,
        "bbob-largescale" => suite::Name::BbobLargescale,
        "bbob-constrained" => suite::Name::BbobConstrained,
        "bbob-mixint" => suite::Name::BbobMixint,
        "bbob-biobj-mixint" => suite::Name::BbobBiobjMixint,
        "bbob-boxed" => suite::Name::SboxCost,
        _ => suite::Name::Toy,
    }
}

fn observer_name(s: &str) -> observer::Name {
    match s {
        "bbob" => observer::Name::Bbob,
        "bbob-biobj" => observer::Name::BbobBiobj,
        "toy" => observer::Name::Toy,
        _ => observer::Name::None,
    }
}

/// Ends the borrow of the suite: the scripts free the problems before their suite.
fn keep(p: Problem<'_>) -> Problem<'static> {
    unsafe { std::mem::transmute(p) }
}

fn put(w: &mut World, k: usize, p: Option<Problem<'static>>) -> String {
    w.p.remove(&k);
    let r = describe(p.as_ref());
    if let Some(p) = p {
        w.p.insert(k, p);
    }
    r
}

fn run(w: &mut World, t: &[&str]) -> String {
    let k: usize = if t.len() > 1 { t[1].parse().unwrap_or(0) } else { 0 };
    let z = |i: usize| -> usize { t[i].parse().unwrap() };
    match t[0] {
        "S" => match Suite::new(suite_name(t[2]), t[3], t[4]) {
            None => "null".into(),
            Some(s) => {
                w.s.insert(k, Box::new(s));
                "ok".into()
            }
        },
        "Sc" => {
            let s = (*w.s[&z(2)]).clone();
            w.s.insert(k, Box::new(s));
            "ok".into()
        }
        "n" => w.s[&k].number_of_problems().to_string(),
        "i" => {
            let s = &w.s[&k];
            format!("{}\t{}\t{}", s.function_from_function_index(suite::FunctionIdx(z(2))),
                    s.dimension_from_dimension_index(suite::DimensionIdx(z(3))), s.instance_from_instance_index(suite::InstanceIdx(z(4))))
        }
        "N" => {
            let o: Option<usize> = t[3].parse().ok();
            let s = w.s.get_mut(&z(2)).unwrap();
            let p = s.next_problem(o.and_then(|k| w.o.get_mut(&k))).map(keep);
            put(w, k, p)
        }
        "G" => {
            let p = w.s.get_mut(&z(2)).unwrap().problem(suite::ProblemIdx(z(3))).map(keep);
            put(w, k, p)
        }
        "B" => {
            let p = w.s.get_mut(&z(2)).unwrap().problem_by_function_dimension_instance(z(3), z(4), z(5)).map(keep);
            put(w, k, p)
        }
        "O" => match Observer::new(observer_name(t[2]), t[3]) {
            None => "null".into(),
            Some(o) => {
                let r = o.result_folder().to_string();
                w.o.insert(k, o);
                r
            }
        },
        "A" => {
            w.p.get_mut(&k).unwrap().add_observer(&w.o[&z(2)]);
            describe(w.p.get(&k))
        }
        "R" => {
            w.p.get_mut(&k).unwrap().remove_observer(&w.o[&z(2)]);
            describe(w.p.get(&k))
        }
        "E" | "C" => {
            let p = w.p.get_mut(&k).unwrap();
            let x = point(&t[2..]).into_boxed_slice();
            let c = x.clone();
            let m = if t[0] == "E" { p.number_of_objectives() } else { p.number_of_constraints() };
            let mut y = vec![0.0; m].into_boxed_slice();
            if t[0] == "E" {
                p.evaluate_function(&x, &mut y)
            } else {
                p.evaluate_constraint(&x, &mut y)
            }
            if x.iter().zip(c.iter()).any(|(a, b)| a.to_bits() != b.to_bits()) {
                return "xmodified".into();
            }
            vec(&y)
        }
        "Ey" | "Cy" => {
            /* a result vector of the given length */
            let p = w.p.get_mut(&k).unwrap();
            let x = point(&t[3..]);
            let mut y = vec![0.0; z(2)].into_boxed_slice();
            if t[0] == "Ey" {
                p.evaluate_function(&x, &mut y)
            } else {
                p.evaluate_constraint(&x, &mut y)
            }
            vec(&y)
        }
        "T" => {
            w.o[&k].signal_restart(&w.p[&z(2)]);
            "ok".into()
        }
        "F" => {
            w.p.remove(&k).unwrap();
            "ok".into()
        }
        "f" => {
            w.s.remove(&k).unwrap();
            "ok".into()
        }
        "o" => {
            w.o.remove(&k);
            "ok".into()
        }
        "D" => describe(w.p.get(&k)),
        "Q" => {
            let p = &w.p[&k];
            format!("{}\t{}\t{}\t{}", p.evaluations(), p.evaluations_constraints(), p.final_target_hit() as i32, num(p.best_observed_value()))
        }
        "q" => format!("{}\t{}", w.p[&k].evaluations(), w.p[&k].evaluations_constraints()),
        "v" => num(w.p[&k].best_value()),
        "u" => num(w.p[&k].final_target_value()),
        "t" => w.p[&k].typ().to_string(),
        "X" => {
            let mut x = vec![0.0; w.p[&k].dimension()].into_boxed_slice();
            w.p[&k].initial_solution(&mut x);
            vec(&x)
        }
        "Xy" => {
            let mut x = vec![0.0; z(2)].into_boxed_slice();
            w.p[&k].initial_solution(&mut x);
            vec(&x)
        }
        "W" => {
            let r = w.p[&k].ranges_of_interest();
            let l: Vec<f64> = r.iter().map(|r| *r.start()).collect();
            let u: Vec<f64> = r.iter().map(|r| *r.end()).collect();
            vec(&l) + "\t" + &vec(&u)
        }
        "L" => {
            match t[1] {
                "error" => LogLevel::Error,
                "warning" => LogLevel::Warning,
                "debug" => LogLevel::Debug,
                _ => LogLevel::Info,
            }
            .set();
            "ok".into()
        }
        "rn" => {
            w.r.insert(k, RandomState::new(t[2].parse().unwrap()));
            "ok".into()
        }
        "ru" => num(w.r.get_mut(&k).unwrap().uniform()),
        "rg" => num(w.r.get_mut(&k).unwrap().normal()),
        "rf" => {
            w.r.remove(&k);
            "ok".into()
        }
        _ => "?".into(),
    }
}

fn main() {
    let name = std::env::args().nth(1).unwrap();
    let mut out = std::fs::File::create(name).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = World::default();
    let mut ans = String::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split('\t').collect();
        match t[0] {
            "." => {
                ans.push_str(".\n");
                out.write_all(ans.as_bytes()).unwrap();
                ans.clear();
            }
            "H" | "h" => {
                w.p.clear();
                w.s.clear();
                w.o.clear();
                w.r.clear();
                if t[0] == "H" {
                    let _ = std::fs::remove_dir_all("exdata");
                }
                ans.push_str("H\n");
            }
            _ => {
                let r = catch_unwind(AssertUnwindSafe(|| run(&mut w, &t))).unwrap_or_else(|_| "exc".into());
                ans.push_str(&r);
                ans.push('\n');
            }
        }
    }
}
