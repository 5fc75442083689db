//! P23: sampling analysis. Data sets of every epoch-indexed type are built around an arbitrary list of
//! instants held as integer nanoseconds; every figure is recomputed from those integers.
use crate::ensure;
use crate::gen::*;
use crate::met;
use crate::obs::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::clock::{ClockKey, ClockProfile, ClockProfileType, ClockType};
use rinex::doris::DorisKey;
use rinex::navigation::{Ephemeris, NavFrame, NavFrameType, NavKey, NavMessageType};
use rinex::observation::{EpochFlag, ObsKey};
use rinex::prelude::*;
use std::collections::BTreeMap;

/// increasing instants (ns after a reference); intervals drawn from a small palette so that ties, runs
/// and gaps are all frequent
fn instants(g: &mut Gen) -> Vec<i64> {
    let n = g.pickc(&[0usize, 1, 2, 2, 3, 4, 6, 9, 14]);
    let palette: Vec<i64> = (0..g.usize(1, 4))
        .map(|_| match g.below(5) {
            0 => g.pickc(&[1i64, 2, 100, 1_000]),
            1 => 1_000_000 * g.range(1, 999),
            2 => 1_000_000_000 * g.pickc(&[1i64, 5, 15, 30, 60]),
            3 => 1_000_000_000 * g.pickc(&[900i64, 3600, 7200, 86_400]),
            _ => g.range(1, 100_000_000_000),
        })
        .collect();
    let mut t = g.range(0, 86_399) * 1_000_000_000 + g.pickc(&[0i64, 0, 1, 500_000_000]);
    let mut v = vec![];
    for _ in 0..n {
        v.push(t);
        t += *g.pick(&palette);
    }
    v
}

fn bounded_dup(g: &mut Gen) -> usize {
    if g.chance(1, 6) {
        2
    } else {
        1
    }
}

/// data set indexed by the instants; the second item lists the epochs its `epoch_iter` walks through
fn build(g: &mut Gen, kind: u64, ins: &[i64], t0: Epoch) -> (Rinex, Vec<i64>) {
    let at = |ns: i64| t0 + Duration::from_total_nanoseconds(ns as i128);
    let basic = |ty: RinexType| {
        let h = Header::default();
        Header { rinex_type: ty, ..h }
    };
    let mut walk = vec![];
    let (ty, record) = match kind {
        0 => {
            let mut r = rinex::observation::Record::new();
            for &ns in ins {
                let flags = [EpochFlag::Ok, EpochFlag::PowerFailure, EpochFlag::AntennaBeingMoved, EpochFlag::CycleSlip];
                for _ in 0..bounded_dup(g) {
                    let k = ObsKey { epoch: at(ns), flag: g.pickc(&flags) };
                    if r.insert(k, Default::default()).is_none() {
                        walk.push(ns);
                    }
                }
            }
            (RinexType::ObservationData, Record::ObsRecord(r))
        },
        1 => {
            let mut r = rinex::meteo::Record::new();
            for &ns in ins {
                let codes = g.subset(&["TD", "PR", "HR", "RI", "WS"], 3, true);
                let n = codes.len();
                for c in codes.into_iter().take(n.max(1)) {
                    r.insert(MeteoKey { epoch: at(ns), observable: c.parse().unwrap() }, 1.0);
                }
                if !r.keys().any(|k| k.epoch == at(ns)) {
                    r.insert(MeteoKey { epoch: at(ns), observable: Observable::Temperature }, 1.0);
                }
                walk.push(ns);
            }
            (RinexType::MeteoData, Record::MeteoRecord(r))
        },
        2 => {
            let mut r = rinex::clock::Record::new();
            for &ns in ins {
                let mut m = BTreeMap::new();
                for i in 0..g.usize(0, 2) {
                    m.insert(
                        ClockKey { clock_type: ClockType::Station(format!("S{}", i)), profile_type: ClockProfileType::AR },
                        ClockProfile::default(),
                    );
                }
                r.insert(at(ns), m);
                walk.push(ns);
            }
            (RinexType::ClockData, Record::ClockRecord(r))
        },
        3 => {
            let mut r = rinex::ionex::Record::new();
            for &ns in ins {
                for i in 0..g.usize(1, 3) {
                    let c = QuantizedCoordinates::new(5.0 * i as f64, 1, 10.0, 1, 450.0, 0);
                    r.insert(IonexKey { epoch: at(ns), coordinates: c }, TEC::from_tecu(1.0));
                }
                walk.push(ns);
            }
            (RinexType::IonosphereMaps, Record::IonexRecord(r))
        },
        4 => {
            let mut r = rinex::doris::Record::new();
            for &ns in ins {
                for _ in 0..bounded_dup(g) {
                    let k = DorisKey { epoch: at(ns), flag: g.pickc(&[EpochFlag::Ok, EpochFlag::PowerFailure]) };
                    if r.insert(k, Default::default()).is_none() {
                        walk.push(ns);
                    }
                }
            }
            (RinexType::DORIS, Record::DorisRecord(r))
        },
        _ => {
            let mut r = rinex::navigation::Record::new();
            for &ns in ins {
                for _ in 0..g.usize(1, 2) {
                    let k = NavKey {
                        epoch: at(ns),
                        sv: SV { constellation: Constellation::GPS, prn: g.usize(1, 4) as u8 },
                        msgtype: NavMessageType::LNAV,
                        frmtype: NavFrameType::Ephemeris,
                    };
                    if r.insert(k, NavFrame::EPH(Ephemeris::default())).is_none() {
                        walk.push(ns);
                    }
                }
            }
            (RinexType::NavigationData, Record::NavRecord(r))
        },
    };
    (Rinex::new(basic(ty), record), walk)
}

fn dur(ns: i64) -> Duration {
    Duration::from_total_nanoseconds(ns as i128)
}

fn check(g: &mut Gen, rnx: &Rinex, walk: &[i64], t0: Epoch, header: Option<Duration>) -> Res {
    let at = |ns: i64| t0 + dur(ns);
    let got: Vec<Epoch> = rnx.epoch_iter().collect();
    let want: Vec<Epoch> = walk.iter().map(|&n| at(n)).collect();
    let same = |a: &[Epoch], b: &[Epoch]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_epoch(*x, *y));
    ensure!(same(&got, &want), "epoch_iter", "epochs {:?}, {:?} expected", got, want);
    ensure!(rnx.first_epoch() == want.first().copied(), "first", "first epoch {:?}, {:?} expected", rnx.first_epoch(), want.first());
    ensure!(rnx.last_epoch() == want.last().copied(), "last", "last epoch {:?}, {:?} expected", rnx.last_epoch(), want.last());
    let d = walk.first().map(|f| dur(walk[walk.len() - 1] - f));
    ensure!(rnx.duration() == d, "duration", "duration {:?}, {:?} expected", rnx.duration(), d);
    ensure!(rnx.sampling_interval() == header, "header", "sampling interval {:?}, {:?} expected", rnx.sampling_interval(), header);

    let steps: Vec<i64> = walk.windows(2).map(|w| w[1] - w[0]).collect();
    let mut histo = BTreeMap::<i64, usize>::new();
    for s in &steps {
        *histo.entry(*s).or_default() += 1;
    }
    let mut seen: Vec<(Duration, usize)> = rnx.sampling_histogram().collect();
    seen.sort();
    let model: Vec<(Duration, usize)> = histo.iter().map(|(k, v)| (dur(*k), *v)).collect();
    ensure!(seen == model, "histogram", "histogram {:?}, {:?} expected", seen, model);
    ensure!(rnx.steady_sampling() == (histo.len() == 1), "steady", "steady sampling {}, intervals {:?}", rnx.steady_sampling(), model);

    let top = histo.values().max().copied().unwrap_or(0);
    let dominant = rnx.dominant_sampling_interval();
    match dominant {
        None => ensure!(histo.is_empty(), "dominant", "no dominant interval among {:?}", model),
        Some(dt) => ensure!(
            histo.iter().any(|(k, v)| *v == top && dur(*k) == dt),
            "dominant",
            "dominant interval {} is not a most frequent one of {:?}",
            dt,
            model
        ),
    }
    let rate = rnx.dominant_sampling_rate_hz();
    match (dominant, rate) {
        (None, None) => {},
        (Some(dt), Some(r)) => {
            let want = 1.0e9 / dt.total_nanoseconds() as f64;
            ensure!(r == want || ((r - want) / want).abs() < 1e-9, "rate", "dominant rate {} Hz, interval {}", r, dt);
        },
        _ => return fail("rate", format!("dominant interval {:?} but rate {:?}", dominant, rate)),
    }

    let gaps = |above: i64| -> Vec<(Epoch, Duration)> {
        walk.windows(2).filter(|w| w[1] - w[0] > above).map(|w| (at(w[0]), dur(w[1] - w[0]))).collect()
    };
    let same_gaps = |tol: Option<Duration>, want: &[(Epoch, Duration)]| -> Res {
        let got: Vec<_> = rnx.data_gaps(tol).collect();
        let ok = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| same_epoch(a.0, b.0) && a.1 == b.1);
        ensure!(ok, "gaps", "data gaps for {:?}: {:?}, {:?} expected (intervals {:?})", tol, got, want, model);
        Ok(())
    };
    if let Some(dt) = dominant {
        same_gaps(None, &gaps(dt.total_nanoseconds() as i64))?;
    } else {
        same_gaps(None, &[])?;
    }
    for _ in 0..3 {
        let tol = if steps.is_empty() || g.chance(1, 3) {
            g.range(0, 100_000_000_000)
        } else {
            *g.pick(&steps) + g.pickc(&[0i64, 0, -1, 1])
        };
        same_gaps(Some(dur(tol)), &gaps(tol))?;
    }

    match (rnx.timeseries(), dominant) {
        (None, None) => {},
        (Some(ts), Some(dt)) => {
            let dt = dt.total_nanoseconds() as i64;
            let span = walk[walk.len() - 1] - walk[0];
            if dt > 0 && span / dt <= 200 {
                let got: Vec<Epoch> = ts.collect();
                let want: Vec<Epoch> = (0..=span / dt).map(|i| at(walk[0] + i * dt)).collect();
                ensure!(same(&got, &want), "timeseries", "time series {:?}, {:?} expected", got, want);
                g.label("time series");
            }
        },
        (t, d) => return fail("timeseries", format!("time series {:?} for a dominant interval {:?}", t.is_some(), d)),
    }
    g.nontrivial = steps.len() >= 2;
    g.label_if(steps.is_empty(), "no interval");
    g.label_if(histo.len() == 1, "steady");
    g.label_if(histo.values().filter(|v| **v == top).count() > 1, "tie between intervals");
    g.label_if(histo.contains_key(&0), "epochs at the same instant");
    g.label_if(!gaps(0).is_empty() && dominant.map_or(false, |d| !gaps(d.total_nanoseconds() as i64).is_empty()), "gap above the dominant interval");
    Ok(())
}

fn built(g: &mut Gen) -> Res {
    let kind = g.below(6);
    g.label(["observation", "meteo", "clock", "ionex", "doris", "navigation"][kind as usize]);
    let ins = instants(g);
    let ts = g.pickc(&[TimeScale::GPST, TimeScale::UTC, TimeScale::GST, TimeScale::BDT]);
    // no leap second within the span of the instants: intervals are the same in every timescale
    let t0 = Civil { y: 2019, mo: g.range(1, 12) as u8, d: g.range(1, 28) as u8, h: 0, mi: 0, t100: 0 }.epoch(ts);
    let (mut rnx, walk) = build(g, kind, &ins, t0);
    let header = if g.bool() { Some(dur(g.range(1, 60_000) * 1_000_000)) } else { None };
    rnx.header.sampling_interval = header;
    g.text = format!("{:?} in {:?}, instants {:?}", rnx.header.rinex_type, ts, walk);
    check(g, &rnx, &walk, t0, header)
}

/// same figures for data sets decoded from observation and meteo files
fn decoded(g: &mut Gen) -> Res {
    let ts0;
    let (rnx, times): (Rinex, Vec<Epoch>) = if g.bool() {
        let f = obs_file(g, &DEFAULT_CFG);
        let st = Style::gen(g);
        g.text = f.text(&st);
        g.label("observation file");
        let rnx = parse_text(&g.text).map_err(|e| crate::runner::Fail { sig: "rejected".into(), msg: format!("rejected {:?}", e) })?;
        let times = rnx.record.as_obs().unwrap().keys().map(|k| k.epoch).collect();
        (rnx, times)
    } else {
        let f = met::met_file(g, 14);
        g.text = f.text(g.below(3), false, true);
        g.label("meteo file");
        let rnx = parse_text(&g.text).map_err(|e| crate::runner::Fail { sig: "rejected".into(), msg: format!("rejected {:?}", e) })?;
        let mut times: Vec<Epoch> = rnx.record.as_meteo().unwrap().keys().map(|k| k.epoch).collect();
        times.dedup();
        (rnx, times)
    };
    ts0 = match times.first() {
        Some(t) => *t,
        None => return Ok(()),
    };
    let walk: Vec<i64> = times.iter().map(|t| (*t - ts0).total_nanoseconds() as i64).collect();
    let header = rnx.header.sampling_interval;
    check(g, &rnx, &walk, ts0, header)
}

pub fn prop() -> Prop {
    Prop {
        id: "P23",
        parts: vec![
            Part { name: "built", run: built, quick: 2_000_000, thorough: 30_000_000 },
            Part { name: "decoded", run: decoded, quick: 150_000, thorough: 2_000_000 },
        ],
        rule: "the data set has at least two intervals between successive epochs",
        assumptions: &["Navigation, observation and DORIS records walk through one epoch per entry: entries at the same instant are an interval of zero. Any of several equally frequent intervals may be the dominant one."],
    }
}
