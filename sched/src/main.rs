//! C24, C25, C26: every interleaving, up to a preemption bound, of small concurrent programs on
//! the real code, whose locks are those of the explorer.
#[path = "../../mc/src/fw.rs"]
mod fw;
#[allow(dead_code)]
#[path = "../../mc/src/model.rs"]
mod model;
#[allow(dead_code)]
#[path = "../../mc/src/real.rs"]
mod real;

mod c07;
mod c24;
mod c25;
mod c26;
mod c31;

use fw::*;
use mcstd::mc::{Explorer, Failure, Task};
use std::cell::RefCell;
use std::rc::Rc;

pub type Setup = (Vec<Task>, Box<dyn FnOnce() -> Result<(), String>>);

/// Explores one program; `outcomes` counts the distinct results that the checks see.
pub fn explore(bound: usize, ctx: &mut Ctx, setup: impl Fn() -> Setup) -> Result<(), String> {
    let mut e = Explorer::new(bound);
    let r = e.run(|| setup());
    ctx.traces += e.stats.executions;
    ctx.direct += e.stats.states;
    ctx.states += e.stats.executions;
    ctx.transitions += e.stats.steps;
    match r {
        Ok(()) => {
            ctx.note(|| format!("{} executions, at most {} steps", e.stats.executions, e.stats.max_steps));
            Ok(())
        }
        Err(f) => {
            if f.what.starts_with("harness") {
                eprintln!("{}", f.what);
                std::process::exit(2);
            }
            if ctx.verbose {
                let choices = e.choices();
                let releases = e.releases();
                let f: Failure = match e.replay(&choices, releases, || setup()) {
                    Err(f) => f,
                    Ok(()) => f.clone(),
                };
                ctx.note(|| format!("execution {}:\n{}", e.stats.executions, f.log.join("\n")));
            }
            Err(format!("{} (tasks by step: {})", f.what, f.schedule.iter().map(|x| x.to_string()).collect::<String>()))
        }
    }
}

/// A list that tasks write to
pub type Shared<X> = Rc<RefCell<Vec<X>>>;
pub fn shared<X>() -> Shared<X> {
    Rc::new(RefCell::new(vec![]))
}

/// all sequences over 0..n of length 1..=len
pub fn seqs(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut all = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|s| {
                (0..n).map(move |x| {
                    let mut s = s.clone();
                    s.push(x);
                    s
                })
            })
            .collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn main() {
    main_with(|id, t| match id {
        "C07" => Some(c07::check(t)),
        "C24" => Some(c24::check(t)),
        "C25" => Some(c25::check(t)),
        "C26" => Some(c26::check(t)),
        "C31" => Some(c31::check(t)),
        _ => None,
    })
}
