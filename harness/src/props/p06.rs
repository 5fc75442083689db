//! P06: ephemeris selection.
use crate::ensure;
use crate::gen::Gen;
use crate::nav::*;
use crate::obs::{max_prn, min_prn};
use crate::props::p04::dedup;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;

/// validity after the reference time, seconds
fn validity(sys: char) -> i64 {
    match sys {
        'G' | 'J' => 7200,
        'E' => 10800,
        'C' => 21600,
        'R' => 1800,
        _ => i64::MAX,
    }
}

/// origin of the week counters: Galileo and QZSS weeks are aligned on GPS
fn week_origin(sys: char) -> Civil {
    match sys {
        'C' => Civil { y: 2006, mo: 1, d: 1, h: 0, mi: 0, t100: 0 },
        _ => Civil { y: 1980, mo: 1, d: 6, h: 0, mi: 0, t100: 0 },
    }
}

const TICK: i128 = 10_000_000;

/// seconds between a system's civil time and GPS time, for the dates used here (2018 to 2040)
fn to_gpst(sys: char) -> i128 {
    match sys {
        'C' => 14,
        'R' => 18,
        _ => 0,
    }
}

struct Cand {
    sys: char,
    prn: i64,
    /// 100 ns ticks of GPS time
    toc: i128,
    toe: Option<i128>,
    tag: f64,
}

fn run(g: &mut Gen) -> Res {
    let major = g.pickc(&[2u8, 3, 4, 4]);
    let st = NumStyle { letter: 'E', form: 0 };
    let systems: Vec<char> = match major {
        2 => vec![g.pickc(&['G', 'R'])],
        _ => g.subset(SYSTEMS, 3, false),
    };
    let systems = if systems.is_empty() { vec!['G'] } else { systems };
    // reference date, possibly near the end of a week
    let mut base = Civil::gen(g, (2018, 2039), false);
    if base.y < 2018 {
        base.y = 2018;
        base.d = base.d.min(28);
    }
    if g.bool() {
        // Sunday midnight, give or take
        let days = days_from_civil(base.y, base.mo, base.d);
        let sunday = days - (days + 4).rem_euclid(7);
        base = Civil::from_ticks(sunday as i128 * 86400 * TICK).add(g.range(-7200, 7200) * 10_000_000);
        base.t100 -= base.frac();
    }
    let mut frames = vec![];
    let n = g.usize(1, 12);
    let prns: Vec<i64> = (0..2).map(|_| g.range(0, 100)).collect();
    for _ in 0..n {
        let sys = *g.pick(&systems);
        let mut f = eph_frame(g, major, sys, st);
        // few satellites, so that frames compete
        let span = max_prn(sys) - min_prn(sys) + 1;
        f.prn = min_prn(sys) + g.pickc(&prns) % span;
        let step = g.pickc(&[7200i64, 3600, 1800, 600, 900, 86400, 16]);
        f.toc = base.add(step * g.range(-4, 4) * 10_000_000);
        if g.chance(1, 3) {
            f.toc = base.add(g.range(-30000, 30000) * 10_000_000);
        }
        if let Body::Eph { clk, words } = &mut f.body {
            // unique tag
            clk[0] = num((frames.len() + 1) as f64, st);
            let toe = match g.below(4) {
                0 => f.toc.add(g.range(-7200, 7200) * 10_000_000),
                _ => f.toc,
            };
            let sow = (toe.ticks() - week_origin(sys).ticks()) / TICK;
            for ((name, _), w) in table(major, sys, f.msg).iter().zip(words.iter_mut()) {
                if *name == "toe" {
                    *w = Some(num(sow.rem_euclid(604800) as f64, st));
                } else if *name == "week" {
                    *w = Some(num(sow.div_euclid(604800) as f64, st));
                }
            }
        }
        frames.push(f);
    }
    dedup(&mut frames);
    let file = NavFile { major, minor: 0, system: if major == 2 { systems[0] } else { 'M' }, frames, extra: vec![] };
    g.text = file.text(g);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let mut cands = vec![];
    for f in &file.frames {
        if let Body::Eph { clk, words } = &f.body {
            let t = table(major, f.sys, f.msg);
            let val = |name: &str| t.iter().zip(words).find(|((n, _), _)| *n == name).and_then(|(_, w)| w.as_ref().map(|w| w.val));
            let toc = f.toc.ticks() + to_gpst(f.sys) * TICK;
            let toe = match f.sys {
                'R' | 'S' => Some(toc),
                _ => match (val("week"), val("toe")) {
                    (Some(w), Some(s)) => Some(week_origin(f.sys).ticks() + (w as i128 * 604800 + s as i128 + to_gpst(f.sys)) * TICK),
                    _ => None,
                },
            };
            cands.push(Cand { sys: f.sys, prn: f.prn, toc, toe, tag: clk[0].val });
        }
    }
    // instants to try: around every limit, and anywhere
    let mut selected = 0;
    for _ in 0..6 {
        let c = &cands[g.usize(0, cands.len() - 1)];
        let (sys, mut prn) = (c.sys, c.prn);
        if g.chance(1, 12) {
            prn = g.range(min_prn(sys), max_prn(sys));
        }
        let v = if validity(sys) == i64::MAX { 86400 } else { validity(sys) };
        let at = match g.below(6) {
            0 => c.toc,
            1 => c.toe.unwrap_or(c.toc),
            2 => c.toe.unwrap_or(c.toc) + v as i128 * TICK,
            3 => c.toc + g.range(-2 * v, 2 * v) as i128 * TICK,
            _ => c.toc + g.range(0, v) as i128 * TICK,
        } + g.pickc(&[0i128, 0, 0, 1, -1, TICK, -TICK, 12345]);
        // asked in any timescale
        let gps = Civil::from_ticks(at).epoch(TimeScale::GPST);
        let t = gps.to_time_scale(g.pickc(&[TimeScale::GPST, TimeScale::UTC, TimeScale::BDT, TimeScale::GST]));
        let target = sv(sys, prn);
        let got = rnx.nav_ephemeris_selection(target, t);
        let valid: Vec<&Cand> = cands
            .iter()
            .filter(|c| {
                c.sys == sys
                    && c.prn == prn
                    && c.toc <= at
                    && match c.toe {
                        None => false,
                        Some(toe) => toe <= at && (validity(sys) == i64::MAX || at - toe < validity(sys) as i128 * TICK),
                    }
            })
            .collect();
        let best = valid.iter().map(|c| c.toc).max();
        match (got, best) {
            (None, None) => {},
            (None, Some(b)) => return fail("none", format!("{} at {:?}: nothing selected, frames published at {:?} are valid", target, t, Civil::from_ticks(b))),
            (Some((toc, toe, eph)), best) => {
                selected += 1;
                let c = match cands.iter().find(|c| c.tag == eph.clock_bias) {
                    Some(c) => c,
                    None => return fail("foreign", format!("{:?}", eph)),
                };
                ensure!(c.sys == sys && c.prn == prn, "satellite", "{}: frame of {}{:02} selected", target, c.sys, c.prn);
                ensure!(valid.iter().any(|v| v.tag == c.tag), "invalid", "{} at {:?}: frame published at {:?} is not valid", target, t, toc);
                ensure!(Some(c.toc) == best, "outdated", "{} at {:?}: frame published at {:?} selected, a more recent one is valid", target, t, toc);
                let g_toc = toc.to_time_scale(TimeScale::GPST);
                ensure!(g_toc == Civil::from_ticks(c.toc).epoch(TimeScale::GPST), "toc", "{:?} instead of {:?}", toc, Civil::from_ticks(c.toc));
                let g_toe = toe.to_time_scale(TimeScale::GPST);
                let want = Civil::from_ticks(c.toe.unwrap()).epoch(TimeScale::GPST);
                ensure!(g_toe == want, "toe", "{:?} instead of {:?}", toe, want);
            },
        }
        let orbit = rnx.sv_orbit(target, t);
        ensure!(best.is_some() || orbit.is_none(), "orbit", "{} at {:?}: state without a valid frame", target, t);
    }
    g.nontrivial = selected > 0;
    g.label(match major {
        2 => "RINEX 2",
        3 => "RINEX 3",
        _ => "RINEX 4",
    });
    g.label_if(selected > 0 && selected < 6, "selected and not selected");
    g.label_if(systems.contains(&'C'), "BeiDou");
    g.label_if(systems.contains(&'R'), "Glonass");
    g.label_if(systems.contains(&'S'), "SBAS");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P06",
        parts: vec![Part { name: "selection", run, quick: 150_000, thorough: 5_000_000 }],
        rule: "navigation files of 1 to 12 frames of few satellites of GPS, Glonass, Galileo, BeiDou, QZSS and SBAS, with times of clock and ephemeris close to each other, to the validity limits and to week changes; selection is asked at those limits give or take 100 ns, in several timescales, and compared with an integer model. Non-trivial when a frame is selected at least once.",
        assumptions: &["dates of 2018 to 2039 (18 leap seconds)", "frames without week counter (CNAV like) are never selected: the library documents no time of ephemeris for them", "SBAS frames never expire"],
    }
}
