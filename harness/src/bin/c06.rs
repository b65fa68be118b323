//! C06: RedBlackTreeMap is a correct sorted map, including ranges.
use core_h::ctx::{Plan, run};
use core_h::history::{big_case, model_case};
use core_h::model::Kind;
use core_h::pool::random_cfg;
use core_h::typed::{self, Want};

const PLAIN: Want = Want { relations: false, balance: false };

fn main() {
    run(Plan { quick: 60000, thorough: 1200000, hang_secs: 150 }, |ctx, case, rng| {
        if case % 6000 == 11 {
            // The great majority just past 65 536, some beyond a million.
            let kind = Kind::RbMap;
            let n = if rng.chance(1, 4) { rng.range(200_000, 400_000) } else { *rng.pick(&[33_000, 65_540, 66_000, 131_100]) };
            return typed::huge(ctx, kind, n, rng);
        }
        if case % 8 == 5 {
            return typed::case(ctx, Kind::RbMap, PLAIN, rng);
        }
        if case % 500 == 7 {
            let kind = if rng.chance(3, 4) { Kind::RbMap } else { Kind::RbSet };
            let mut cfg = random_cfg(kind, rng);
            let size = rng.range(300, 8_000);
            cfg.universe = (size * 3 / 2) as u32;
            cfg.stride = *rng.pick(&[1, 3, 64]);
            return big_case(ctx, &cfg, size, rng);
        }
        model_case(ctx, &[Kind::RbMap], rng, 140)
    });
}
