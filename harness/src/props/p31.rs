//! P31: ionosphere (TEC) and code multipath estimates from dual frequency phases.
use crate::ensure;
use crate::gen::*;
use crate::props::p25::{build, dump, epochs, mhz, observable, Epo, Sig};
use crate::runner::{Part, Prop, Res};
use crate::util::*;
use rinex::ionex::TEC;
use rinex::observation::{EpochFlag, SignalObservation};
use rinex::prelude::*;
use std::collections::BTreeSet;

const C0: f64 = 299_792_458.0;

fn hz(s: &Sig) -> f64 {
    mhz(s.sys, s.code.chars().next().unwrap(), s.code.chars().nth(1).unwrap()).expect("harness: frequency") * 1.0e6
}

fn sv(s: &Sig) -> SV {
    SV { constellation: crate::obs::constellation(s.sys), prn: s.prn as u8 }
}

/// is the signal carried by 1575.42 MHz, the reference of a TEC estimate?
fn l1(s: &Sig) -> bool {
    s.phase && hz(s) == 1575.42e6
}

/// what the library states a TEC in
fn tecu(a: &Sig, b: &Sig) -> f64 {
    let (f1, f2) = (hz(a).powi(2), hz(b).powi(2));
    (f1 * f2 / (f1 - f2) * (a.value - b.value) / 40.308 / 1.0e17).abs()
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-11 * scale + 1e-12
}

fn value(g: &mut Gen, phase: bool) -> f64 {
    let v = if g.chance(1, 16) { g.range(-1, 1) } else { g.range(-999_999_999, 40_000_000_000) } as f64 / 1000.0;
    if phase {
        v * 5.0
    } else {
        v
    }
}

fn signal(s: &Sig) -> SignalObservation {
    SignalObservation::new(sv(s), observable(s), s.value)
}

fn sets(g: &mut Gen) -> (Vec<Epo>, Rinex) {
    let (mut eps, step) = epochs(g, &mut |g, _, _, _, phase, _| value(g, phase));
    // sampling need not be regular: neither estimate looks beyond one epoch
    if g.chance(1, 3) {
        let mut t = eps[0].0.epoch;
        for e in eps.iter_mut() {
            e.0.epoch = t;
            t = t + Duration::from_seconds(g.pickc(&[0.5f64, 1.0, 15.0, 30.0, 86_400.0]));
        }
        g.label("irregular sampling");
    }
    let rnx = build(g, &eps, step);
    g.text = dump(&eps);
    g.label_if(eps.len() == 1, "single epoch");
    (eps, rnx)
}

/// total electron content of a whole record
fn tec(g: &mut Gen) -> Res {
    let (eps, rnx) = sets(g);
    let got = rnx.observation_dual_phase_ionosphere_tec();
    let mut n = 0;
    for (k, v) in eps.iter().filter(|e| e.0.flag == EpochFlag::Ok) {
        for a in v.iter().filter(|s| l1(s)) {
            for b in v.iter().filter(|s| s.phase && s.sys == a.sys && s.prn == a.prn && hz(s) != hz(a)) {
                n += 1;
                let found: Vec<&TEC> = got
                    .iter()
                    .filter(|(i, _)| i.epoch == k.epoch && i.sv == sv(a) && i.reference == observable(a) && i.rhs == observable(b))
                    .map(|i| i.1)
                    .collect();
                ensure!(found.len() == 1, "missing", "{} {}: {} estimates of {} against {}", k.epoch, sv(a), found.len(), observable(b), observable(a));
                let (f1, f2) = (hz(a).powi(2), hz(b).powi(2));
                let scale = (f1 * f2 / (f1 - f2)).abs() / 40.308 / 1.0e17 * (a.value.abs() + b.value.abs());
                let want = tecu(a, b);
                ensure!(close(found[0].tecu(), want, scale), "value", "{} {}: TEC {} from {} against {}, {} expected", k.epoch, sv(a), found[0].tecu(), observable(b), observable(a), want);
                ensure!(found[0].rms_tec().is_none(), "rms", "an estimate has a RMS");
            }
        }
    }
    ensure!(got.len() == n, "foreign", "{} estimates, {} expected: {:?}", got.len(), n, got.keys().collect::<Vec<_>>());
    g.nontrivial = n > 0;
    g.label_if(n == 0, "nothing to estimate");
    Ok(())
}

/// one pair of signals
fn pair(g: &mut Gen) -> Res {
    let (eps, _) = sets(g);
    let all: Vec<&Sig> = eps.iter().flat_map(|e| e.1.iter()).collect();
    if all.is_empty() {
        return Ok(());
    }
    for _ in 0..10 {
        let a = all[g.usize(0, all.len() - 1)];
        let same: Vec<&&Sig> = all.iter().filter(|s| s.sys == a.sys && s.prn == a.prn).collect();
        let b = if g.chance(4, 5) { *same[g.usize(0, same.len() - 1)] } else { all[g.usize(0, all.len() - 1)] };
        let got = signal(a).tec_estimate(&signal(b));
        let valid = l1(a) && b.phase && sv(a) == sv(b) && hz(a) != hz(b);
        g.nontrivial |= valid;
        g.label_if(l1(a) && b.phase && sv(a) == sv(b) && hz(a) == hz(b), "same frequency");
        match got {
            None => ensure!(!valid, "none", "no TEC from {:?} and {:?}", a, b),
            Some(t) => {
                ensure!(valid, "undue", "TEC {:?} from {:?} and {:?}", t, a, b);
                let (f1, f2) = (hz(a).powi(2), hz(b).powi(2));
                let scale = (f1 * f2 / (f1 - f2)).abs() / 40.308 / 1.0e17 * (a.value.abs() + b.value.abs());
                ensure!(close(t.tecu(), tecu(a, b), scale), "value", "TEC {} from {:?} and {:?}, {} expected", t.tecu(), a, b, tecu(a, b));
            },
        }
    }
    Ok(())
}

/// code multipath of a whole record
fn multipath(g: &mut Gen) -> Res {
    let (eps, rnx) = sets(g);
    let got = rnx.signals_multipath();
    let mut seen = BTreeSet::new();
    let mut n = 0;
    for (k, v) in &eps {
        for a in v.iter().filter(|s| s.phase) {
            let c = match v.iter().find(|c| !c.phase && c.sys == a.sys && c.prn == a.prn && c.code == a.code) {
                Some(c) => c,
                None => continue,
            };
            for b in v.iter().filter(|s| s.phase && s.sys == a.sys && s.prn == a.prn && hz(s) != hz(a)) {
                let (fi, fj) = (hz(a).powi(2), hz(b).powi(2));
                let (mi, mj) = (a.value * C0 / hz(a), b.value * C0 / hz(b));
                let want = c.value - mi - 2.0 * fj / (fi - fj) * (mi - mj);
                let scale = c.value.abs() + (mi.abs() + mj.abs()) * (1.0 + 2.0 * fj / (fi - fj).abs());
                let found: Vec<f64> = got
                    .iter()
                    .filter(|(i, _)| i.epoch == k.epoch && i.sv == sv(a) && i.signal == observable(a) && i.rhs == observable(b))
                    .map(|i| *i.1)
                    .collect();
                ensure!(found.len() == 1, "missing", "{} {}: {} multipath values of {} against {}", k.epoch, sv(a), found.len(), observable(a), observable(b));
                // sets of the same instant share their keys
                let shared = eps.iter().filter(|e| e.0.epoch == k.epoch).count() > 1;
                ensure!(shared || close(found[0], want, scale), "value", "{} {}: multipath {} of {} against {}, {} expected", k.epoch, sv(a), found[0], observable(a), observable(b), want);
                seen.insert((k.epoch, sv(a), observable(a).to_string(), observable(b).to_string()));
                n += 1;
            }
        }
    }
    for i in got.keys() {
        let shared = eps.iter().filter(|e| e.0.epoch == i.epoch).count() > 1;
        ensure!(shared || seen.contains(&(i.epoch, i.sv, i.signal.to_string(), i.rhs.to_string())), "foreign", "unexpected multipath value {:?} = {}", i, got[i]);
    }
    ensure!(got.values().all(|v| v.is_finite()), "finite", "infinite multipath in {:?}", got);
    g.nontrivial = n > 0;
    g.label_if(n == 0, "nothing to estimate");
    Ok(())
}

/// TEC in TECu and in electrons per square metre
fn units(g: &mut Gen) -> Res {
    let digits = g.range(1, 12) as u32;
    let m = g.int_digits(digits, true);
    let exp = g.range(0, 6) as i32;
    let v = m as f64 / 10f64.powi(exp);
    g.text = format!("{}", v);
    g.nontrivial = m != 0;
    for (t, want) in [(TEC::from_tecu(v), v), (TEC::from_tec_m2(v * 1.0e17), v)] {
        ensure!((t.tecu() - want).abs() <= 1e-14 * want.abs() + 1e-15, "tecu", "{} TECu is read back as {}", want, t.tecu());
        ensure!((t.tec() - want * 1.0e17).abs() <= 1e-13 * want.abs() * 1.0e17 + 100.0, "tec", "{} TECu is {} per square metre", want, t.tec());
        ensure!(t.rms_tec().is_none(), "rms", "{:?} has a RMS", t);
        let r = g.int_digits(6, false) as f64 / 100.0;
        let w = t.with_rms(r);
        ensure!(w.tecu() == t.tecu(), "with_rms", "with_rms changes {} to {}", t.tecu(), w.tecu());
        ensure!(w.rms_tec().map_or(false, |x| (x - r).abs() <= 1e-12), "rms", "RMS {} is read back as {:?}", r, w.rms_tec());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P31",
        parts: vec![
            Part { name: "tec", run: tec, quick: 60_000, thorough: 1_500_000 },
            Part { name: "pair", run: pair, quick: 60_000, thorough: 1_500_000 },
            Part { name: "multipath", run: multipath, quick: 60_000, thorough: 1_500_000 },
            Part { name: "units", run: units, quick: 60_000, thorough: 1_500_000 },
        ],
        rule: "at least one estimate is due (units: the value is not zero)",
        assumptions: &[
            "The TEC unit is the library's, 10E16 per square metre, and phases enter the TEC formula as they are in the files: both are fixed by its tests.",
            "Multipath values of two sets of observations at the same instant share their key: only one of them can be reported.",
        ],
    }
}
