use crate::util::{Check, Ctx, Rng};

mod accuracy;
mod configs;
#[cfg(feature = "gpl")]
mod exploring;
mod graph;
mod malformed;
mod metrics;
mod pbf;
mod routes;
mod routing;
mod writing;

pub fn run(prop: &str, ctx: &mut Ctx, rng: &mut Rng) -> Check {
    match prop {
        "A01" => accuracy::a01(ctx, rng),
        "R01" => routing::r01(ctx, rng),
        "R02" => routing::r02(ctx, rng),
        "R03" => routing::r03(ctx, rng),
        "R04" => routing::r04(ctx, rng),
        "G01" => graph::g01(ctx, rng),
        "G02" => graph::g02(ctx, rng),
        "G03" => graph::g03(ctx, rng),
        "M01" => metrics::m01(ctx, rng),
        "M02" => metrics::m02(ctx, rng),
        "M03" => metrics::m03(ctx, rng),
        "W01" => writing::w01(ctx, rng),
        "W02" => writing::w02(ctx, rng),
        "W03" => writing::w03(ctx, rng),
        "W04" => writing::w04(ctx, rng),
        "W05" => routes::w05(ctx, rng),
        "T01" => routes::t01(ctx, rng),
        #[cfg(feature = "gpl")]
        "E01" => exploring::e01(ctx, rng),
        "B01" => pbf::b01(ctx, rng),
        "B02" => pbf::b02(ctx, rng),
        "C01" => configs::c01(ctx, rng),
        "X01" => malformed::x01(ctx, rng),
        p => panic!("unknown property {}", p),
    }
}
