use crate::core::*;
use crate::engine::*;
use crate::plan::*;

pub mod methods;
mod prec;
mod repro;
mod sizes;
mod state;
mod threads;
mod value;

pub fn get(id: &str) -> Prop {
    match id {
        "C01" => value::c01(),
        "C02" => value::c02(),
        "C03" => value::c03(),
        "C04" => value::c04(),
        "C05" => value::c05(),
        "C06" => methods::c06(),
        "C07" => methods::c07(),
        "C08" => methods::c08(),
        "C09" => methods::c09(),
        "C10" => sizes::c10(),
        "C13" => sizes::c13(),
        "C14" => sizes::c14(),
        "C11" => state::c11(),
        "C12" => threads::c12(),
        "C15" => prec::c15(),
        "C16" => value::c16(),
        "C17" => repro::c17(),
        "C18" => repro::c18(),
        "C19" => repro::c19(),
        "C20" => repro::c20(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

pub fn bx(p: Plan) -> Box<Plan> {
    Box::new(p)
}
pub fn mr(a: Plan, b: Plan) -> Plan {
    Plan::MR(bx(a), bx(b))
}
pub fn x(k: usize, a: Plan) -> Plan {
    Plan::X(k, bx(a))
}
pub fn sr(a: Plan, b: Plan) -> Plan {
    Plan::SR(bx(a), bx(b))
}
pub fn ra(a: Plan) -> Plan {
    Plan::RA(bx(a))
}
pub fn thru(m: usize, a: Plan) -> Plan {
    Plan::W(m, bx(a))
}
/// every algorithm of length n over user-written wrappers that call back into the library (`process`, constructors)
pub fn wrapped(n: usize) -> Vec<Plan> {
    let mut v = Vec::new();
    for m in 0..2 {
        let kids = |n: usize| -> Vec<Plan> {
            let mut v = vec![thru(m, leaf(n))];
            for s in 0..4 {
                let p = auto(n, s);
                if p.depth() > 0 {
                    v.push(thru(m, p));
                }
            }
            v.dedup();
            v
        };
        for k in 2..=6 {
            if n % k == 0 {
                v.extend(kids(n / k).into_iter().map(|a| x(k, a)));
            }
        }
        for w in 1..=n {
            if n % w == 0 {
                for a in kids(w) {
                    v.push(mr(a.clone(), leaf(n / w)));
                    v.push(mr(leaf(n / w), a.clone()));
                    for b in kids(n / w) {
                        v.push(mr(a.clone(), b));
                    }
                }
            }
        }
        if n % 4 == 0 {
            for a in kids(n / 4) {
                for b in kids(n / 2) {
                    v.push(sr(a.clone(), b));
                }
            }
        }
        if is_prime(n) {
            v.extend(kids(n - 1).into_iter().map(ra));
        }
    }
    let mut s = std::collections::HashSet::new();
    v.retain(|p| s.insert(p.clone()));
    v
}
pub fn lane_case(p: &Plan, m: Meth, chunks: usize, extra: usize) -> String {
    format!("lane {p} {}", Shape { m, chunks, extra }.text())
}
/// all methods, one chunk, exact scratch
pub fn lane_all(v: &mut Vec<String>, p: &Plan) {
    for m in METHS {
        v.push(lane_case(p, m, 1, 0));
    }
}
pub fn uniq(v: Vec<String>) -> Vec<String> {
    let mut s = std::collections::HashSet::new();
    v.into_iter().filter(|c| s.insert(c.clone())).collect()
}
/// most specialised library leaf of this length
pub fn leaf(n: usize) -> Plan {
    if BF.contains(&n) {
        Plan::B(n)
    } else {
        Plan::N(n)
    }
}
/// realistic plans of length n: `s` selects the decomposition strategy
pub fn auto(n: usize, s: usize) -> Plan {
    let pf = |mut n: usize| {
        let mut v = vec![];
        let mut d = 2;
        while d * d <= n {
            while n % d == 0 {
                v.push(d);
                n /= d;
            }
            d += 1;
        }
        if n > 1 {
            v.push(n);
        }
        v
    };
    if BF.contains(&n) && !(s == 3 && n > 3) {
        return Plan::B(n);
    }
    if is_prime(n) {
        return if n < 8 { Plan::N(n) } else { ra(auto(n - 1, s)) };
    }
    match s {
        // specialised radices, largest first, then general mixed radix
        0 => {
            for k in [4, 6, 5, 3, 2] {
                if n % k == 0 {
                    return x(k, auto(n / k, s));
                }
            }
            let f = pf(n);
            mr(auto(f[0], s), auto(n / f[0], s))
        }
        // balanced mixed radix
        1 => {
            let w = (1..=n).filter(|w| n % w == 0 && w * w <= n).max().unwrap();
            if n % 3 == 0 {
                mr(auto(w, s), auto(n / w, s))
            } else {
                mr(auto(n / w, s), auto(w, s))
            }
        }
        // split radix where possible, radix-4 leaves, balanced otherwise
        2 => {
            if n.is_power_of_two() && n.trailing_zeros() % 2 == 0 {
                return Plan::R4(n);
            }
            if n % 4 == 0 {
                return sr(auto(n / 4, s), auto(n / 2, s));
            }
            let f = pf(n);
            let p = *f.last().unwrap();
            mr(auto(p, s), auto(n / p, s))
        }
        // smallest radix first
        _ => {
            for k in [2, 3, 5] {
                if n % k == 0 && n > k {
                    return x(k, auto(n / k, s));
                }
            }
            let f = pf(n);
            let p = *f.last().unwrap();
            if p == n {
                return leaf(n);
            }
            mr(auto(n / p, s), auto(p, s))
        }
    }
}
