//! C05: HashTrieMap is a correct map under every hash distribution.
use core_h::ctx::{Plan, run};
use core_h::hashers::Mode;
use core_h::history::{big_case, model_case};
use core_h::model::Kind;
use core_h::pool::random_cfg;
use core_h::typed::{self, Want};

const PLAIN: Want = Want { relations: false, balance: false };

fn main() {
    run(Plan { quick: 40_000, thorough: 1_500_000, hang_secs: 150 }, |ctx, case, rng| {
        if case % 4000 == 11 {
            // The great majority just past 65 536, some beyond a million.
            let kind = Kind::HtMap;
            let n = if rng.chance(1, 4) { rng.range(200_000, 400_000) } else { *rng.pick(&[33_000, 65_540, 66_000, 131_100]) };
            return typed::huge(ctx, kind, n, rng);
        }
        if case % 8 == 5 {
            return typed::case(ctx, Kind::HtMap, PLAIN, rng);
        }
        if case % 500 == 7 {
            let mut cfg = random_cfg(Kind::HtMap, rng);
            let bad = matches!(cfg.mode, Mode::Const(_) | Mode::Few(_) | Mode::HalfConst | Mode::Groups | Mode::TopBits(_) | Mode::OneBit);
            let size = if bad { rng.range(100, 400) } else { rng.range(500, 20_000) };
            cfg.universe = (size * 3 / 2) as u32;
            cfg.stride = *rng.pick(&[1, 3, 64, 4096]);
            return big_case(ctx, &cfg, size, rng);
        }
        model_case(ctx, &[Kind::HtMap], rng, 140)
    });
}
