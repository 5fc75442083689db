//! P24: observation differencing.
use crate::ensure;
use crate::gen::*;
use crate::met;
use crate::obs::*;
use crate::props::p16;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;

/// a second data set that overlaps the first one: some epochs, satellites and observations only exist
/// on one side
fn variant(g: &mut Gen, f: &ObsFile) -> ObsFile {
    let mut b = f.clone();
    let r = g.pickc(&[0u64, 2, 5, 9]);
    b.epochs.retain(|_| g.below(10) >= r);
    for e in &mut b.epochs {
        if g.chance(1, 6) {
            e.t = e.t.add(g.pickc(&[1i64, 10_000_000, -1]));
        }
        if e.flag <= 1 && g.chance(1, 8) {
            e.flag = 1 - e.flag;
        }
        e.sats.retain(|_| g.below(10) >= r);
        for s in &mut e.sats {
            for o in &mut s.obs {
                match g.below(8) {
                    0 => *o = None,
                    1 => *o = Some(ob(g)),
                    2 => {},
                    _ => {
                        if let Some(o) = o {
                            o.milli = (o.milli + g.int_digits(9, true)).clamp(-999_999_999_999, 9_999_999_999_999);
                            if o.milli == 0 {
                                o.milli = 5;
                            }
                            o.lli = None;
                        }
                    },
                }
            }
        }
        if g.bool() {
            g.shuffle(&mut e.sats);
        }
        e.clock = None;
    }
    // time must stay strictly increasing for the file to hold every epoch once
    b.epochs.dedup_by(|a, b| a.t == b.t);
    b
}

fn parsed(g: &mut Gen, text: &str) -> Result<Rinex, crate::runner::Fail> {
    g.text.push_str(text);
    parse_text(text).map_err(|e| crate::runner::Fail { sig: "rejected".into(), msg: format!("rejected {:?}", e) })
}

fn same_rest(a: &Rinex, c: &Rinex) -> Res {
    ensure!(a.header == c.header, "header", "header modified");
    Ok(())
}

fn obs(g: &mut Gen) -> Res {
    let cfg = ObsCfg { max_codes: 8, max_sats: 8, events: false, ..DEFAULT_CFG };
    let fa = obs_file(g, &cfg);
    let fb = match g.below(6) {
        0 => obs_file(g, &cfg),
        1 => fa.clone(),
        _ => variant(g, &fa),
    };
    if fb.epochs.is_empty() {
        return Ok(());
    }
    let built = g.chance(1, 4);
    let (a, b) = if built {
        (to_rinex(g, &fa, true), to_rinex(g, &fb, true))
    } else {
        let st = Style::plain();
        let (ta, tb) = (fa.text(&st), fb.text(&st));
        (parsed(g, &ta)?, parsed(g, &tb)?)
    };
    let (ra, rb) = (a.record.as_obs().unwrap(), b.record.as_obs().unwrap());
    let c = a.observation_substract(&b);
    same_rest(&a, &c)?;
    let rc = match c.record.as_obs() {
        Some(r) => r,
        None => return fail("record-type", "not observations anymore"),
    };
    ensure!(rc.len() == ra.len() && ra.keys().eq(rc.keys()), "epochs", "{} epochs, {} before", rc.len(), ra.len());
    let mut shared = 0;
    for ((k, va), vc) in ra.iter().zip(rc.values()) {
        let vb = rb.get(k);
        ensure!(va.clock == vc.clock, "clock", "{:?} clock {:?}, {:?} before", k, vc.clock, va.clock);
        ensure!(va.signals.len() == vc.signals.len(), "signals", "{:?} {} signals, {} before", k, vc.signals.len(), va.signals.len());
        for (sa, sc) in va.signals.iter().zip(&vc.signals) {
            ensure!(sa.sv == sc.sv && sa.observable == sc.observable && sa.lli == sc.lli && sa.snr == sc.snr, "signals", "{:?} {:?} turned into {:?}", k, sa, sc);
            let other = vb.and_then(|v| v.signals.iter().find(|s| s.sv == sa.sv && s.observable == sa.observable));
            let want = match other {
                Some(o) => {
                    shared += 1;
                    sa.value - o.value
                },
                None => sa.value,
            };
            ensure!(sc.value.to_bits() == want.to_bits() || sc.value == want, "difference", "{:?} {} {}: {} - {:?} gives {}", k, sa.sv, sa.observable, sa.value, other.map(|o| o.value), sc.value);
        }
    }
    let mut d = a.clone();
    d.observation_substract_mut(&b);
    ensure!(d.header == c.header && d.record == c.record, "in-place", "in place and copying forms differ");
    let z = a.observation_substract(&a);
    ensure!(z.record.as_obs().unwrap().values().all(|v| v.signals.iter().all(|s| s.value == 0.0)), "self", "a data set minus itself is not zero");
    g.nontrivial = shared > 0;
    g.label_if(shared > 0, "shared observations");
    g.label_if(a.header.constellation != b.header.constellation, "different constellations");
    Ok(())
}

fn meteo(g: &mut Gen) -> Res {
    let fa = met::met_file(g, 5);
    let mut fb = fa.clone();
    fb.epochs.retain(|_| !g.chance(1, 5));
    for e in &mut fb.epochs {
        for r in &mut e.1 {
            if g.chance(1, 5) {
                *r = None;
            } else if g.bool() {
                *r = Some(met::reading(g));
            }
        }
    }
    let (ta, tb) = (fa.text(0, false, true), fb.text(0, false, true));
    let (a, b) = (parsed(g, &ta)?, parsed(g, &tb)?);
    let c = a.observation_substract(&b);
    same_rest(&a, &c)?;
    let (ra, rb, rc) = (a.record.as_meteo().unwrap(), b.record.as_meteo().unwrap(), c.record.as_meteo().unwrap());
    ensure!(ra.keys().eq(rc.keys()), "epochs", "readings lost or gained");
    let mut shared = 0;
    for ((k, x), z) in ra.iter().zip(rc.values()) {
        let want = match rb.get(k) {
            Some(y) => {
                shared += 1;
                x - y
            },
            None => *x,
        };
        ensure!(*z == want, "difference", "{:?}: {} - {:?} gives {}", k, x, rb.get(k), z);
    }
    let mut d = a.clone();
    d.observation_substract_mut(&b);
    ensure!(d.header == c.header && d.record == c.record, "in-place", "in place and copying forms differ");
    g.nontrivial = shared > 0;
    Ok(())
}

fn doris(g: &mut Gen) -> Res {
    let fa = p16::dor_file(g);
    let mut fb = fa.clone();
    fb.vary(g);
    let (ta, tb) = (fa.text(false, 0), fb.text(false, 0));
    let (a, b) = (parsed(g, &ta)?, parsed(g, &tb)?);
    let c = a.observation_substract(&b);
    same_rest(&a, &c)?;
    let (ra, rb, rc) = (a.record.as_doris().unwrap(), b.record.as_doris().unwrap(), c.record.as_doris().unwrap());
    ensure!(ra.keys().eq(rc.keys()), "epochs", "epochs lost or gained");
    let mut shared = 0;
    for ((k, va), vc) in ra.iter().zip(rc.values()) {
        ensure!(va.clock == vc.clock && va.clock_extrapolated == vc.clock_extrapolated, "clock", "{:?} clock {:?}, {:?} before", k, vc.clock, va.clock);
        ensure!(va.signals.len() == vc.signals.len(), "signals", "{:?} {} signals, {} before", k, vc.signals.len(), va.signals.len());
        for (s, x) in &va.signals {
            let z = match vc.signals.get(s) {
                Some(z) => z,
                None => return fail("signals", format!("{:?} lost", s)),
            };
            let other = rb.get(k).and_then(|v| v.signals.get(s));
            let want = match other {
                Some(y) => {
                    shared += 1;
                    x.value - y.value
                },
                None => x.value,
            };
            ensure!(z.value == want && z.m1 == x.m1 && z.m2 == x.m2, "difference", "{:?} {:?}: {:?} - {:?} gives {:?}", k, s, x, other, z);
        }
    }
    let mut d = a.clone();
    d.observation_substract_mut(&b);
    ensure!(d.header == c.header && d.record == c.record, "in-place", "in place and copying forms differ");
    g.nontrivial = shared > 0;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P24",
        parts: vec![
            Part { name: "obs", run: obs, quick: 120_000, thorough: 3_000_000 },
            Part { name: "meteo", run: meteo, quick: 60_000, thorough: 1_500_000 },
            Part { name: "doris", run: doris, quick: 60_000, thorough: 1_500_000 },
        ],
        rule: "pairs of data sets read from generated files (observations, meteo, DORIS) or built in memory: the second one is the first with epochs, satellites, observations or flags removed, moved, replaced or shuffled, or an unrelated one; the difference is compared item by item with a brute-force subtraction. Non-trivial when at least one item is shared.",
        assumptions: &["one observation per satellite and observable within an epoch", "what the other data set does not hold is left as it is"],
    }
}
