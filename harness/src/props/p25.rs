//! P25: signal combinations.
use crate::ensure;
use crate::gen::*;
use crate::obs::*;
use crate::runner::{Part, Prop, Res};
use crate::util::*;
use rinex::observation::{Combination, CombinationKey, EpochFlag, HeaderFields, ObsKey, Observations, SignalObservation};
use rinex::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

const C0: f64 = 299_792_458.0;

/// nominal frequency (MHz) of a RINEX 3 signal, from the standard's tables; None: not in the tables
pub fn mhz(sys: char, band: char, attr: char) -> Option<f64> {
    Some(match (sys, band) {
        ('G', '1') | ('J', '1') | ('S', '1') | ('E', '1') => 1575.42,
        ('G', '2') | ('J', '2') => 1227.60,
        ('G', '5') | ('J', '5') | ('S', '5') | ('E', '5') | ('C', '5') | ('I', '5') => 1176.45,
        ('J', '6') | ('E', '6') => 1278.75,
        ('R', '1') => 1602.0,
        ('R', '4') => 1600.995,
        ('R', '2') => 1246.0,
        ('R', '6') => 1248.06,
        ('R', '3') => 1202.025,
        ('E', '7') | ('C', '7') => 1207.14,
        ('E', '8') | ('C', '8') => 1191.795,
        ('C', '2') => 1561.098,
        ('C', '1') if "DPXSLZA".contains(attr) => 1575.42,
        ('C', '6') => 1268.52,
        ('I', '9') => 2492.028,
        _ => return None,
    })
}

/// signals a system may be observed with, as in RINEX 3
const SIGNALS: &[(char, &[&str])] = &[
    ('G', &["1C", "1W", "1L", "2W", "2L", "2C", "2X", "5Q", "5X"]),
    ('E', &["1C", "1X", "5Q", "5X", "7Q", "7X", "8Q", "8X", "6C", "6X"]),
    ('R', &["1C", "1P", "2C", "2P", "3Q", "3X"]),
    ('C', &["2I", "2X", "7I", "7D", "6I", "5P", "5X", "1P", "1X", "8X"]),
    ('J', &["1C", "1X", "2L", "2X", "5Q", "6L"]),
    ('S', &["1C", "5I", "5X"]),
    ('I', &["5A", "5X", "9A", "9X"]),
];

/// does the signal serve as reference of the combinations of its system?
fn pivot(sys: char, code: &str) -> bool {
    match sys {
        'C' => code.starts_with("7I") || code.starts_with("7Q") || code.starts_with("7X"),
        'I' => false,
        _ => code.starts_with('1'),
    }
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub sys: char,
    pub prn: i64,
    pub phase: bool,
    pub code: &'static str,
    pub value: f64,
}

pub type Epo = (ObsKey, Vec<Sig>);

/// epochs with any subset of the signals of any satellite, in any order
pub fn epochs(g: &mut Gen, value: &mut dyn FnMut(&mut Gen, char, i64, usize, bool, &'static str) -> f64) -> (Vec<Epo>, u8) {
    let n = g.pickc(&[1usize, 1, 2, 3, 4, 6]);
    let mut t = Civil::gen(g, (2005, 2024), false);
    let mut sats: Vec<(char, i64)> = vec![];
    for _ in 0..g.usize(1, 5) {
        let s = g.pick(SIGNALS).0;
        let p = (s, g.range(min_prn(s), max_prn(s)));
        if !sats.contains(&p) {
            sats.push(p);
        }
    }
    let step = g.pickc(&[1i64, 30, 900]);
    let loss = g.below(5);
    let mut out: Vec<Epo> = vec![];
    for e in 0..n {
        let mut v = vec![];
        for &(sys, prn) in &sats {
            let table = SIGNALS.iter().find(|s| s.0 == sys).unwrap().1;
            let present: Vec<&'static str> = table.iter().copied().filter(|_| g.below(10) >= loss).collect();
            for code in present {
                for phase in [false, true] {
                    if g.below(12) >= loss {
                        let value = value(g, sys, prn, e, phase, code);
                        v.push(Sig { sys, prn, phase, code, value });
                    }
                }
            }
        }
        if g.bool() {
            g.shuffle(&mut v);
        }
        let flag = g.pickc(&[EpochFlag::Ok, EpochFlag::Ok, EpochFlag::Ok, EpochFlag::PowerFailure]);
        let k = ObsKey { epoch: t.epoch(TimeScale::GPST), flag };
        out.push((k, v));
        // two sets of observations at the same instant: flags differ
        if !g.chance(1, 10) || out.iter().filter(|o| o.0.epoch == k.epoch).count() > 1 {
            t = t.add(10_000_000 * step * g.pickc(&[1i64, 1, 1, 2, 50]));
        }
    }
    out.dedup_by(|a, b| a.0 == b.0);
    (out, step as u8)
}

pub fn observable(s: &Sig) -> Observable {
    let t = format!("{}{}", if s.phase { 'L' } else { 'C' }, s.code);
    Observable::from_str(&t).expect("library: observable")
}

pub fn build(g: &mut Gen, eps: &[Epo], step: u8) -> Rinex {
    let mut fields = HeaderFields::default();
    for (_, v) in eps {
        for s in v {
            let l = fields.codes.entry(constellation(s.sys)).or_default();
            if !l.contains(&observable(s)) {
                l.push(observable(s));
            }
        }
    }
    let mut header = Header::basic_obs().with_version(Version::new(3, 4)).with_constellation(Constellation::Mixed).with_observation_fields(fields);
    if g.bool() {
        header.sampling_interval = Some(Duration::from_seconds(step as f64));
    }
    let mut rec = rinex::observation::Record::new();
    for (k, v) in eps {
        let mut o = Observations::default();
        for s in v {
            o.signals.push(SignalObservation {
                sv: SV { constellation: constellation(s.sys), prn: s.prn as u8 },
                observable: observable(s),
                value: s.value,
                lli: None,
                snr: None,
            });
        }
        rec.insert(*k, o);
    }
    Rinex::new(header, Record::ObsRecord(rec))
}

pub fn dump(eps: &[Epo]) -> String {
    let mut s = String::new();
    for (k, v) in eps {
        s.push_str(&format!("{} {:?}\n", k.epoch, k.flag));
        for i in v {
            s.push_str(&format!("  {}{:02} {} {}\n", i.sys, i.prn, observable(i), i.value));
        }
    }
    s
}

const ALL: [Combination; 4] = [Combination::GeometryFree, Combination::IonosphereFree, Combination::WideLane, Combination::NarrowLane];

struct Pair<'a> {
    lhs: &'a Sig,
    reference: &'a Sig,
    f1: f64,
    fi: f64,
}

/// locates the two signals an entry claims to combine
fn locate<'a>(eps: &'a [Epo], k: &CombinationKey, what: Combination) -> Result<Pair<'a>, crate::runner::Fail> {
    let e = match eps.iter().find(|e| e.0.epoch == k.epoch && e.0.flag == k.flag) {
        Some(e) => e,
        None => return Err(crate::runner::Fail { sig: "foreign".into(), msg: format!("{:?}: {:?} is not an epoch of the data", what, k) }),
    };
    let find = |o: &Observable| e.1.iter().find(|s| constellation(s.sys) == k.sv.constellation && s.prn == k.sv.prn as i64 && observable(s) == *o);
    match (find(&k.lhs), find(&k.reference)) {
        (Some(lhs), Some(reference)) => {
            let f = |s: &Sig| mhz(s.sys, s.code.chars().next().unwrap(), s.code.chars().nth(1).unwrap()).expect("harness: frequency") * 1.0e6;
            if lhs.phase != reference.phase {
                return Err(crate::runner::Fail { sig: "physics".into(), msg: format!("{:?}: {:?} mixes phase and code", what, k) });
            }
            Ok(Pair { lhs, reference, f1: f(reference), fi: f(lhs) })
        },
        (a, b) => Err(crate::runner::Fail {
            sig: "not observed".into(),
            msg: format!("{:?}: {:?} but lhs observed: {}, reference observed: {}", what, k, a.is_some(), b.is_some()),
        }),
    }
}

/// length of a signal in metres
fn metres(s: &Sig, f: f64) -> f64 {
    if s.phase {
        s.value * C0 / f
    } else {
        s.value
    }
}

fn textbook(what: Combination, p: &Pair) -> f64 {
    let (m1, mi) = (metres(p.reference, p.f1), metres(p.lhs, p.fi));
    match what {
        Combination::GeometryFree => {
            if p.lhs.phase {
                m1 - mi
            } else {
                mi - m1
            }
        },
        Combination::IonosphereFree => (p.f1 * p.f1 * m1 - p.fi * p.fi * mi) / (p.f1 * p.f1 - p.fi * p.fi),
        Combination::WideLane => (p.f1 * m1 - p.fi * mi) / (p.f1 - p.fi),
        _ => (p.f1 * m1 + p.fi * mi) / (p.f1 + p.fi),
    }
}

/// amplification of an error on one signal, to size tolerances
fn amplification(what: Combination, p: &Pair) -> f64 {
    match what {
        Combination::IonosphereFree => (p.f1 * p.f1 + p.fi * p.fi) / (p.f1 * p.f1 - p.fi * p.fi).abs(),
        Combination::WideLane => (p.f1 + p.fi) / (p.f1 - p.fi).abs(),
        _ => 1.0,
    }
}

type Values = BTreeMap<CombinationKey, f64>;

fn completeness(eps: &[Epo], what: Combination, got: &Values) -> Res {
    let listed: BTreeSet<(ObsKey, SV, String)> = got.keys().map(|k| (ObsKey { epoch: k.epoch, flag: k.flag }, k.sv, k.lhs.to_string())).collect();
    ensure!(listed.len() == got.len(), "several", "{:?}: a signal is combined twice at the same epoch", what);
    let mut n = 0;
    for (k, v) in eps {
        for s in v {
            if pivot(s.sys, s.code) || !v.iter().any(|r| r.sys == s.sys && r.prn == s.prn && r.phase == s.phase && pivot(r.sys, r.code)) {
                continue;
            }
            if s.sys == 'C' && s.code.starts_with('7') {
                continue; // same frequency as the reference
            }
            n += 1;
            let key = (*k, SV { constellation: constellation(s.sys), prn: s.prn as u8 }, observable(s).to_string());
            ensure!(listed.contains(&key), "missing", "{:?}: {}{:02} {} at {} {:?} has an observed reference but no combination", what, s.sys, s.prn, observable(s), k.epoch, k.flag);
        }
    }
    for k in got.keys() {
        let sys = SIGNALS.iter().map(|s| s.0).find(|c| constellation(*c) == k.sv.constellation).expect("library: system");
        ensure!(
            pivot(sys, &k.reference.to_string()[1..]) && !pivot(sys, &k.lhs.to_string()[1..]),
            "reference",
            "{:?}: {:?} does not combine a signal with a reference",
            what,
            k
        );
    }
    ensure!(got.len() >= n, "missing", "{:?}: {} entries, {} expected", what, got.len(), n);
    Ok(())
}

fn labels(g: &mut Gen, eps: &[Epo], gf: &Values) {
    g.nontrivial = !gf.is_empty();
    g.label_if(eps.len() == 1, "single epoch");
    g.label_if(gf.is_empty(), "nothing to combine");
    let late = eps.iter().any(|e| e.1.iter().enumerate().any(|(i, s)| pivot(s.sys, s.code) && e.1[..i].iter().any(|o| o.sys == s.sys && o.prn == s.prn && o.phase == s.phase && !pivot(o.sys, o.code))));
    g.label_if(late, "reference listed after the signal it combines with");
    let gap = eps.iter().any(|e| e.1.iter().any(|s| !pivot(s.sys, s.code) && !e.1.iter().any(|r| r.sys == s.sys && r.prn == s.prn && r.phase == s.phase && pivot(r.sys, r.code))));
    g.label_if(gap, "reference not observed");
}

/// arbitrary values against the textbook formulas
fn formulas(g: &mut Gen) -> Res {
    let (eps, step) = epochs(g, &mut |g, _, _, _, phase, _| {
        let v = if g.chance(1, 16) { g.range(-1, 1) } else { g.range(-999_999_999, 40_000_000_000) } as f64 / 1000.0;
        if phase {
            v * 5.0
        } else {
            v
        }
    });
    g.text = dump(&eps);
    let rnx = build(g, &eps, step);
    let mut all = vec![];
    for what in ALL {
        let got = rnx.signals_combination(what);
        for (k, v) in &got {
            let p = locate(&eps, k, what)?;
            if p.f1 == p.fi && matches!(what, Combination::IonosphereFree | Combination::WideLane) {
                return crate::runner::fail("undefined", format!("{:?}: {:?} = {} although both signals share a frequency", what, k, v));
            }
            let want = textbook(what, &p);
            let tol = 1e-12 * amplification(what, &p) * (metres(p.lhs, p.fi).abs() + metres(p.reference, p.f1).abs()) + 1e-9;
            ensure!((v - want).abs() <= tol, "value", "{:?}: {:?} = {}, {} expected", what, k, v, want);
        }
        completeness(&eps, what, &got)?;
        all.push(got);
    }
    labels(g, &eps, &all[0]);
    // Melbourne-Wubbena: wide lane of the phases minus narrow lane of the codes, of the same signal
    let mw = rnx.signals_combination(Combination::MelbourneWubbena);
    for (k, v) in &mw {
        let wl = match all[2].get(k) {
            Some(w) if k.lhs.is_phase_range_observable() => *w,
            _ => return crate::runner::fail("mw", format!("Melbourne-Wubbena {:?} without a phase wide lane", k)),
        };
        let code = k.lhs.to_string()[1..].to_string();
        let nl: Vec<f64> = all[3]
            .iter()
            .filter(|(n, _)| n.epoch == k.epoch && n.flag == k.flag && n.sv == k.sv && n.lhs.to_string() == format!("C{}", code))
            .map(|(_, v)| *v)
            .collect();
        ensure!(!nl.is_empty(), "mw", "Melbourne-Wubbena {:?} without a code narrow lane", k);
        ensure!(nl.iter().any(|n| (wl - n - v).abs() <= 1e-12 * (wl.abs() + n.abs()) + 1e-9), "mw", "Melbourne-Wubbena {:?} = {}, wide lane {} narrow lane {:?}", k, v, wl, nl);
    }
    for (k, _) in all[2].iter().filter(|(k, _)| k.lhs.is_phase_range_observable()) {
        let code = format!("C{}", &k.lhs.to_string()[1..]);
        if all[3].keys().any(|n| n.epoch == k.epoch && n.flag == k.flag && n.sv == k.sv && n.lhs.to_string() == code) {
            ensure!(mw.contains_key(k), "mw missing", "no Melbourne-Wubbena combination for {:?}", k);
        }
    }
    g.label_if(!mw.is_empty(), "Melbourne-Wubbena");
    Ok(())
}

/// observations simulated from a geometry and a first order ionosphere: what cancels must cancel
fn physics(g: &mut Gen) -> Res {
    let seed = g.range(0, 1 << 40) as u64;
    let hash = move |sys: char, prn: i64, e: usize, salt: u64| -> f64 {
        let h = mix(seed ^ (sys as u64) << 48 ^ (prn as u64) << 32 ^ (e as u64) << 8 ^ salt);
        (h >> 11) as f64 / (1u64 << 53) as f64
    };
    let rho = move |sys, prn, e| 19.0e6 + 20.0e6 * hash(sys, prn, e, 1);
    let iono = move |sys, prn, e| 60.0 * hash(sys, prn, e, 2);
    let (eps, step) = epochs(g, &mut |_, sys, prn, e, phase, code| {
        let f = mhz(sys, code.chars().next().unwrap(), code.chars().nth(1).unwrap()).unwrap();
        // delay of a carrier at 1575.42 MHz scaled to this one
        let d = iono(sys, prn, e) * (1575.42 / f) * (1575.42 / f);
        if phase {
            (rho(sys, prn, e) - d) * f * 1.0e6 / C0
        } else {
            rho(sys, prn, e) + d
        }
    });
    g.text = dump(&eps);
    let rnx = build(g, &eps, step);
    let at = |k: &CombinationKey| eps.iter().position(|e| e.0.epoch == k.epoch && e.0.flag == k.flag);
    // index the simulation used: epochs dropped as duplicates keep the index of the one that stays
    for what in [Combination::GeometryFree, Combination::IonosphereFree, Combination::MelbourneWubbena] {
        let got = rnx.signals_combination(what);
        for (k, v) in &got {
            let p = locate(&eps, k, what)?;
            let sys = p.lhs.sys;
            let e = match at(k) {
                Some(e) => e,
                None => continue,
            };
            // geometry and ionosphere as carried by the reference itself
            let (i, r) = {
                let pr = p.reference;
                let f = p.f1 / 1.0e6;
                let mut found = None;
                for n in 0..8 {
                    let d = iono(sys, pr.prn, n) * (1575.42 / f) * (1575.42 / f);
                    let want = if pr.phase { (rho(sys, pr.prn, n) - d) * f * 1.0e6 / C0 } else { rho(sys, pr.prn, n) + d };
                    if want == pr.value {
                        found = Some((iono(sys, pr.prn, n), rho(sys, pr.prn, n)));
                    }
                }
                match found {
                    Some(x) => x,
                    None => panic!("library: simulation of epoch {}", e),
                }
            };
            let scale = |f: f64| (1575.42e6 / f) * (1575.42e6 / f);
            let want = match what {
                Combination::GeometryFree => i * (scale(p.fi) - scale(p.f1)),
                Combination::IonosphereFree => r,
                _ => 0.0,
            };
            ensure!((v - want).abs() < 1e-4, "physics", "{:?}: {:?} = {}, {} expected (range {}, delay {})", what, k, v, want, r, i);
        }
        if what == Combination::GeometryFree {
            labels(g, &eps, &got);
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P25",
        parts: vec![
            Part { name: "formulas", run: formulas, quick: 60_000, thorough: 1_500_000 },
            Part { name: "physics", run: physics, quick: 60_000, thorough: 1_500_000 },
        ],
        rule: "at least one combination is reported",
        assumptions: &[
            "The reference is any observed signal of the first frequency of the system (B2I for BeiDou, as the library has it); Glonass signals are on the nominal frequency of their band.",
            "Phases are in cycles, as in the files. Code multipath and TEC estimates are P31.",
        ],
    }
}
