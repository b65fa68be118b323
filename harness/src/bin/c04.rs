//! C04: Queue is FIFO.
use core_h::ctx::{Plan, run};
use core_h::history::{big_case, model_case};
use core_h::model::Kind;
use core_h::pool::random_cfg;
use core_h::typed::{self, Want};

const PLAIN: Want = Want { relations: false, balance: false };

fn main() {
    run(Plan { quick: 400000, thorough: 8000000, hang_secs: 150 }, |ctx, case, rng| {
        if case % 4000 == 11 {
            // The great majority just past 65 536, some beyond a million.
            let kind = Kind::Queue;
            let n = if rng.chance(1, 8) { rng.range(1_050_000, 1_100_000) } else { *rng.pick(&[33_000, 65_540, 66_000, 131_100]) };
            return typed::huge(ctx, kind, n, rng);
        }
        if case % 8 == 5 {
            return typed::case(ctx, Kind::Queue, PLAIN, rng);
        }
        if case % 1000 == 7 {
            let cfg = random_cfg(Kind::Queue, rng);
            let size = rng.range(300, 3000);
            return big_case(ctx, &cfg, size, rng);
        }
        model_case(ctx, &[Kind::Queue], rng, 140)
    });
}
