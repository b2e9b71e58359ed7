//! A01: comparisons with accuracy, vectors and linear systems.
use crate::util::{guard, hash_str, Check, Ctx, Rng};
use kissunits::geo::Coordinate;
use osmgraphing::{
    approximating::Approx,
    defaults::{accuracy::F64_ABS, capacity::DimVec},
    helpers::{self, algebra::Matrix},
};
use std::cmp::Ordering;

/// What has to hold for two numbers; none if they differ by the accuracy's limit
fn expected(a: f64, b: f64) -> Option<Ordering> {
    if a == b {
        return Some(Ordering::Equal);
    }
    let d = (a - b).abs();
    // values of 1.5 times the accuracy are rounded
    let slack = 1e-9 + a.abs().max(b.abs()) * 1e-15;
    if d <= 1.5 * F64_ABS - slack {
        Some(Ordering::Equal)
    } else if d >= 1.5 * F64_ABS + slack {
        Some(if a < b { Ordering::Less } else { Ordering::Greater })
    } else {
        None
    }
}

fn number(rng: &mut Rng) -> f64 {
    let sign = if rng.chance(1, 3) { -1.0 } else { 1.0 };
    sign * match rng.below(12) {
        0 => 0.0,
        1 => F64_ABS * rng.below(5) as f64,
        2 => rng.f() * 1e-5,
        3 => rng.f(),
        4 => rng.below(100) as f64,
        5 => rng.f() * 180.0,
        6 => rng.f() * 1e6,
        7 => rng.f() * 1e12,
        8 => 1e300 * rng.f(),
        9 => 5e-324,
        10 => f64::INFINITY,
        _ => rng.f() * 1000.0,
    }
}

fn neighbour(rng: &mut Rng, a: f64) -> f64 {
    match rng.below(8) {
        0 => a,
        1 => a + F64_ABS * (rng.f() * 8.0 - 4.0),
        2 => a + F64_ABS * ((rng.below(17) as f64 - 8.0) * 0.25),
        3 => a * (1.0 + 1e-7 * (rng.f() - 0.5)),
        4 => a + rng.f() - 0.5,
        5 => -a,
        _ => number(rng),
    }
}

macro_rules! check_pair {
    ($a:expr, $b:expr, $want:expr, $name:expr) => {{
        let (a, b) = ($a, $b);
        let (eq, ne, partial, lt, le, gt, ge) = guard("comparing panicked", || {
            (a == b, a != b, a.partial_cmp(&b), a < b, a <= b, a > b, a >= b)
        })?;
        let cmp = match partial {
            Some(cmp) => cmp,
            None => viol!("{:?} and {:?} ({}) can't be compared", a, b, $name),
        };
        ensure!(
            eq == (cmp == Ordering::Equal) && ne != eq
                && lt == (cmp == Ordering::Less) && gt == (cmp == Ordering::Greater)
                && le == (cmp != Ordering::Greater) && ge == (cmp != Ordering::Less),
            "comparing {:?} and {:?} ({}) contradicts itself: == {}, partial_cmp {:?}, < {}, <= {}, > {}, >= {}",
            a, b, $name, eq, cmp, lt, le, gt, ge
        );
        ensure!(
            b.partial_cmp(&a) == Some(cmp.reverse()) && (b == a) == eq,
            "comparing {:?} and {:?} ({}) depends on their order", a, b, $name
        );
        if let Some(want) = $want {
            ensure!(cmp == want, "{:?} and {:?} ({}) compare as {:?} instead of {:?}", a, b, $name, cmp, want);
        }
    }};
}

pub fn a01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut log = String::new();
    for _ in 0..40 {
        let a = number(rng);
        let b = neighbour(rng, a);
        let want = expected(a, b);
        check_pair!(Approx(a), Approx(b), want, "numbers");
        let cmp = guard("comparing panicked", || Approx(a).cmp(&Approx(b)))?;
        ensure!(Some(cmp) == Approx(a).partial_cmp(&Approx(b)), "cmp and partial_cmp of {:?} and {:?} differ", a, b);
        check_pair!(Approx(&a), Approx(&b), want, "references");
        check_pair!(Approx(Some(a)), Approx(Some(b)), want, "optional numbers");
        check_pair!(Approx(None::<f64>), Approx(Some(b)), Some(Ordering::Less), "optional numbers");
        check_pair!(Approx(None::<f64>), Approx(None::<f64>), Some(Ordering::Equal), "optional numbers");
        check_pair!(Approx(a), Approx(a), Some(Ordering::Equal), "the same number");
        ctx.count("pairs_of_numbers", 1);
        if want == Some(Ordering::Equal) && a != b {
            ctx.count("equal_up_to_accuracy", 1);
        }
        if a.abs() < 1e9 {
            let x = guard("approximating panicked", || Approx(a).approx())?;
            let k = (x / F64_ABS).round();
            ensure!(
                (x - a).abs() <= F64_ABS * 0.5 + 1e-15 * (1.0 + a.abs()) + 1e-12
                    && (x - k * F64_ABS).abs() <= 1e-15 * (1.0 + a.abs()),
                "{:?} is approximated by {:?}", a, x
            );
        }
        let (c, d) = (rng.f() * 180.0 - 90.0, rng.f() * 360.0 - 180.0);
        let (e, f) = (neighbour(rng, c), neighbour(rng, d));
        let same = match (expected(c, e), expected(d, f)) {
            (Some(x), Some(y)) => Some(x == Ordering::Equal && y == Ordering::Equal),
            (Some(x), None) | (None, Some(x)) if x != Ordering::Equal => Some(false),
            _ => None,
        };
        let eq = Approx(Coordinate { lat: c, lon: d }) == Approx(Coordinate { lat: e, lon: f });
        if let Some(same) = same {
            ensure!(eq == same, "({}, {}) and ({}, {}) compare as equal: {}", c, d, e, f, eq);
        }
        log.push_str(&format!("{:?} {:?};", a, b));
    }
    // vectors
    for _ in 0..20 {
        let n = rng.below(9);
        let v: DimVec<f64> = (0..n).map(|_| number(rng)).collect();
        let style = rng.below(3);
        let w: DimVec<f64> = v
            .iter()
            .map(|x| match style {
                0 => neighbour(rng, *x),
                1 => *x + F64_ABS * rng.f(),
                _ => *x + if rng.chance(1, 4) { 1.0 } else { 0.0 },
            })
            .collect();
        let single: Vec<Option<Ordering>> = v.iter().zip(&w).map(|(a, b)| expected(*a, *b)).collect();
        if single.iter().all(|x| x.is_some()) {
            let single: Vec<Ordering> = single.into_iter().flatten().collect();
            let all = |o: Ordering| single.iter().all(|x| *x == o);
            let want = [Ordering::Less, Ordering::Equal, Ordering::Greater].iter().cloned().find(|o| n > 0 && all(*o));
            let want_le = single.iter().all(|x| *x != Ordering::Greater);
            let want_ge = single.iter().all(|x| *x != Ordering::Less);
            let (eq, cmp, le, ge) = guard("comparing vectors panicked", || {
                let (a, b) = (Approx(&v), Approx(&w));
                (a == b, a.partial_cmp(&b), a <= b, a >= b)
            })?;
            ensure!(
                eq == all(Ordering::Equal) && cmp == want && le == want_le && ge == want_ge,
                "{:?} and {:?} compare as == {}, partial_cmp {:?}, <= {}, >= {}", v, w, eq, cmp, le, ge
            );
            let (a, b) = (Approx(&v[..]), Approx(&w[..]));
            ensure!(
                (a == b) == eq && a.partial_cmp(&b) == cmp && (a <= b) == le && (a >= b) == ge,
                "{:?} and {:?} compare differently as slices", v, w
            );
            ctx.count("pairs_of_vectors", 1);
            if le && !eq {
                ctx.count("vectors_less_or_equal", 1);
            }
        }
        let (sum, diff, dot, plain_le) = guard("calculating with vectors panicked", || {
            (helpers::add(&v, &w), helpers::sub(&v, &w), helpers::dot_product(&v, &w), helpers::le(&v, &w))
        })?;
        let mut acc = v.clone();
        helpers::add_assign(&mut acc, &w);
        ensure!(sum.len() == n && diff.len() == n && acc.len() == n, "sums of {} components have {}", n, sum.len());
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
        for i in 0..n {
            ensure!(
                same(sum[i], v[i] + w[i]) && same(acc[i], v[i] + w[i]) && same(diff[i], v[i] - w[i]),
                "{:?} +- {:?} is {:?}, {:?} and {:?}", v, w, sum, acc, diff
            );
        }
        ensure!(plain_le == (0..n).all(|i| v[i] <= w[i]), "{:?} <= {:?} is {}", v, w, plain_le);
        let scale: f64 = v.iter().zip(&w).map(|(a, b)| (a * b).abs()).sum();
        let want: f64 = v.iter().zip(&w).map(|(a, b)| a * b).sum();
        ensure!(
            !scale.is_finite() || (dot - want).abs() <= 1e-12 * scale + 1e-300,
            "the dot-product of {:?} and {:?} is {}", v, w, dot
        );
    }
    // matrices
    for _ in 0..10 {
        let (rows, cols) = (rng.range(1, 7), rng.range(1, 7));
        let square = rng.chance(3, 4);
        let cols = if square { rows } else { cols };
        let mut a: Vec<Vec<i64>> = (0..rows)
            .map(|_| (0..cols).map(|_| rng.below(19) as i64 - 9).collect())
            .collect();
        let mut degenerated = false;
        if rng.chance(1, 4) {
            if rows > 1 && rng.chance(1, 2) {
                let (i, j) = (rng.below(rows), rng.below(rows));
                a[i] = a[j].clone();
                // rounding may hide that (except for small ones)
                degenerated = i != j && rows == 2;
            } else {
                a[rng.below(rows)].iter_mut().for_each(|x| *x = 0);
                degenerated = true;
            }
        }
        let m: DimVec<DimVec<f64>> = a.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect();
        let m = guard("creating a matrix panicked", || Matrix::from_rows(m))?;
        for r in 0..rows {
            for c in 0..cols {
                let x = guard("accessing a matrix panicked", || m[(r, c)])?;
                ensure!(x == a[r][c] as f64, "element ({}, {}) of {:?} is {}", r, c, a, x);
            }
        }
        ctx.count("matrices", 1);
        if !square {
            continue;
        }
        let b: Vec<i64> = (0..rows).map(|_| rng.below(41) as i64 - 20).collect();
        let rhs: DimVec<f64> = b.iter().map(|x| *x as f64).collect();
        let x = guard("solving panicked", || m.lu().solve(&rhs))?;
        let regular = determinant(&a) != 0;
        match x {
            None => {
                ensure!(!regular, "{:?} x = {:?} has a solution, but none is found", a, b);
                ctx.count("systems_without_solution", 1);
            }
            Some(x) => {
                ensure!(!degenerated, "{:?} x = {:?} has not exactly one solution, but {:?} is found", a, b, x);
                if regular {
                    ensure!(x.len() == rows, "a solution of {:?} has {} components", a, x.len());
                    for r in 0..rows {
                        let got: f64 = (0..rows).map(|c| a[r][c] as f64 * x[c]).sum();
                        let size: f64 = (0..rows).map(|c| (a[r][c] as f64 * x[c]).abs()).sum();
                        ensure!(
                            (got - b[r] as f64).abs() <= 1e-9 * (1.0 + size),
                            "{:?} is no solution of {:?} x = {:?}", x, a, b
                        );
                    }
                    ctx.count("systems_solved", 1);
                }
            }
        }
    }
    ctx.nontrivial(hash_str(&log));
    ctx.sample(|| log.clone());
    Ok(())
}

/// without fractions
fn determinant(a: &[Vec<i64>]) -> i128 {
    let n = a.len();
    let mut m: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|x| *x as i128).collect()).collect();
    let mut prev = 1i128;
    for k in 0..n {
        if m[k][k] == 0 {
            match (k + 1..n).find(|i| m[*i][k] != 0) {
                Some(i) => m.swap(i, k),
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
            }
        }
        prev = m[k][k];
    }
    // its sign doesn't matter
    m[n - 1][n - 1]
}
