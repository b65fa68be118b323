//! C03: Vector agrees with a growable array at every index.
use core_h::ctx::{Plan, run};
use core_h::history::{big_case, model_case};
use core_h::model::Kind;
use core_h::pool::random_cfg;
use core_h::typed::{self, Want};

const PLAIN: Want = Want { relations: false, balance: false };

fn main() {
    run(Plan { quick: 120000, thorough: 2400000, hang_secs: 150 }, |ctx, case, rng| {
        if case % 1200 == 11 {
            // The great majority just past 65 536, some beyond a million.
            let kind = Kind::Vector;
            let n = if rng.chance(1, 8) { rng.range(1_050_000, 1_100_000) } else { *rng.pick(&[33_000, 65_540, 66_000, 131_100]) };
            return typed::huge(ctx, kind, n, rng);
        }
        if case % 8 == 5 {
            return typed::case(ctx, Kind::Vector, PLAIN, rng);
        }
        if case % 500 == 7 {
            let mut cfg = random_cfg(Kind::Vector, rng);
            cfg.bits = *rng.pick(&[1, 2, 3, 4, 5, 5, 5, 6, 8, 10, 12, 16, 31, 32, 63, 64, 200, 255]);
            let size = match (cfg.bits, rng.below(8)) {
                (5, 0) => 32_780,
                (8, 0..=3) => 65_540,
                (4, 0) => 65_540,
                (6, 0) => 4_100,
                (3, 0..=3) => 4_100,
                (1, 0..=3) => 2_052,
                _ => rng.range(300, 3000),
            };
            return big_case(ctx, &cfg, size, rng);
        }
        model_case(ctx, &[Kind::Vector], rng, 120)
    });
}
