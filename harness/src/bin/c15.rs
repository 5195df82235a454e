use harness::optim::*;
use harness::*;

fn hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    history(case, ctx, HistOpts { features: false })
}

fn featured(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    history(case, ctx, HistOpts { features: true })
}

fn main() {
    run_main(Check {
        id: "C15",
        rule: "histories of up to 30 events over 1-5 parameters and 1-3 optimizers: gradients set, added or back-propagated, registrations (also repeated), updates of subsets of the registered parameters, epochs set, gradients reset; after every update each value against the published rule evaluated in f64 with error bounds (statistics kept by the model, not read from the parameter), gradient cleared, epoch +1, all other parameters bit for bit as before; featured: the same with weight decay, clipping and learning-rate scaling switched on and off; non-trivial with at least two updates",
        assumptions: &["values and gradients below 1e12 in magnitude"],
        subs: vec![
            Sub { name: "history", head: 80, steps: (2, 30), step_len: 20, quick: 250_000, thorough: 10_000_000, run: hist },
            Sub { name: "featured", head: 80, steps: (2, 30), step_len: 20, quick: 150_000, thorough: 6_000_000, run: featured },
        ],
    })
}
