//! P22: browsing iterators against brute-force projections of the record.
use crate::ensure;
use crate::gen::*;
use crate::nav;
use crate::obs::*;
use crate::props::{p04, p05, p16};
use crate::runner::{fail, Fail, Part, Prop, Res};
use crate::util::*;
use crate::{clk, met};
use rinex::navigation::{IonosphereModel, NavFrame};
use rinex::observation::{EpochFlag, LliFlags, ObsKey, SignalObservation};
use rinex::prelude::*;
use std::collections::BTreeSet;

fn decoded(text: &str) -> Result<Rinex, Fail> {
    parse_text(text).map_err(|e| Fail { sig: "rejected".into(), msg: format!("rejected {:?}", e) })
}

type Item = (ObsKey, SignalObservation);

/// the same items in the same order
fn same<'a>(what: &'static str, it: impl Iterator<Item = (ObsKey, &'a SignalObservation)>, want: &[&Item]) -> Res {
    let got: Vec<_> = it.collect();
    let ok = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && *a.1 == b.1);
    if !ok {
        let odd = got.iter().find(|a| !want.iter().any(|b| a.0 == b.0 && *a.1 == b.1)).map(|a| format!("{:?} foreign", a));
        let miss = want.iter().find(|b| !got.iter().any(|a| a.0 == b.0 && *a.1 == b.1)).map(|b| format!("{:?} missing", b));
        return fail(what, format!("{} items, {} expected; {:?} {:?}", got.len(), want.len(), odd, miss));
    }
    Ok(())
}

fn same_t<'a>(what: &'static str, it: impl Iterator<Item = (Epoch, &'a SignalObservation)>, want: &[&Item]) -> Res {
    let got: Vec<_> = it.collect();
    let ok = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| same_epoch(a.0, b.0.epoch) && *a.1 == b.1);
    if !ok {
        let odd = got.iter().find(|a| !want.iter().any(|b| a.0 == b.0.epoch && *a.1 == b.1)).map(|a| format!("{:?} foreign", a));
        let miss = want.iter().find(|b| !got.iter().any(|a| a.0 == b.0.epoch && *a.1 == b.1)).map(|b| format!("{:?} missing", b));
        return fail(what, format!("{} items, {} expected; {:?} {:?}", got.len(), want.len(), odd, miss));
    }
    Ok(())
}

/// physics, from the first letter of the observable
fn letter(o: &Observable) -> char {
    match o.to_string().chars().next().unwrap_or('?') {
        'P' => 'C',
        c => c,
    }
}

fn bits(s: &SignalObservation) -> Option<u8> {
    s.lli.map(|l| l.bits())
}

fn no_dup<T: Ord + Clone + std::fmt::Debug>(what: &'static str, got: Vec<T>, want: BTreeSet<T>, sorted: bool) -> Res {
    let mut g = got.clone();
    if !sorted {
        g.sort();
    }
    let w: Vec<T> = want.into_iter().collect();
    ensure!(g == w, what, "{:?}, {:?} expected", got, w);
    Ok(())
}

fn obs(g: &mut Gen) -> Res {
    let mut cfg = ObsCfg { ..DEFAULT_CFG };
    cfg.max_sats = 8;
    cfg.max_codes = 12;
    let f = obs_file(g, &cfg);
    let mut rnx = if g.bool() {
        let st = Style::gen(g);
        g.text = f.text(&st);
        decoded(&g.text)?
    } else {
        g.text = f.text(&Style::plain());
        to_rinex(g, &normalised(&f), false)
    };
    // every epoch flag, not only those of the file
    if g.chance(1, 3) {
        let flags = [EpochFlag::Ok, EpochFlag::Ok, EpochFlag::PowerFailure, EpochFlag::AntennaBeingMoved, EpochFlag::NewSiteOccupation, EpochFlag::HeaderInformationFollows, EpochFlag::ExternalEvent, EpochFlag::CycleSlip];
        let rec = rnx.record.as_mut_obs().unwrap();
        let old = std::mem::take(rec);
        for (mut k, v) in old {
            k.flag = g.pickc(&flags);
            rec.insert(k, v);
        }
        g.label("altered flags");
    }
    let rec = rnx.record.as_obs().unwrap().clone();
    let items: Vec<Item> = rec.iter().flat_map(|(k, v)| v.signals.iter().map(|s| (*k, s.clone()))).collect();
    let sel = |p: &dyn Fn(&Item) -> bool| -> Vec<&Item> { items.iter().filter(|i| p(i)).collect() };
    g.nontrivial = items.len() > 1;
    g.label_if(rec.keys().any(|k| k.flag != EpochFlag::Ok), "abnormal epoch");
    g.label_if(items.iter().any(|i| bits(&i.1).is_some()), "lli");

    ensure!(rnx.is_observation_rinex() && !rnx.is_meteo_rinex() && !rnx.is_navigation_rinex() && !rnx.is_doris() && !rnx.is_ionex(), "type", "type predicates");
    let keys: Vec<ObsKey> = rnx.observation_keys().copied().collect();
    ensure!(keys == rec.keys().copied().collect::<Vec<_>>(), "keys", "keys {:?}", keys);
    ensure!(rnx.observations_iter().eq(rec.iter()), "observations", "observations differ from the record");
    same("signals", rnx.signal_observations_iter(), &sel(&|_| true))?;
    same("pseudo range", rnx.pseudo_range_observations_iter(), &sel(&|i| letter(&i.1.observable) == 'C'))?;
    same("phase range", rnx.phase_range_observations_iter(), &sel(&|i| letter(&i.1.observable) == 'L'))?;
    same("doppler", rnx.doppler_observations_iter(), &sel(&|i| letter(&i.1.observable) == 'D'))?;
    same("ssi", rnx.ssi_observations_iter(), &sel(&|i| letter(&i.1.observable) == 'S'))?;
    let clocks: Vec<_> = rnx.clock_observations_iter().collect();
    let want: Vec<_> = rec.iter().filter_map(|(k, v)| v.clock.map(|c| (*k, c))).collect();
    ensure!(clocks == want, "clocks", "{:?}, {:?} expected", clocks, want);

    epochs(&rnx, keys.iter().map(|k| k.epoch).collect())?;
    let svs: BTreeSet<SV> = items.iter().map(|i| i.1.sv).collect();
    no_dup("sv", rnx.sv_iter().collect(), svs.clone(), true)?;
    no_dup("constellations", rnx.constellations_iter().collect(), svs.iter().map(|s| s.constellation).collect(), true)?;
    no_dup("observables", rnx.observables_iter().cloned().collect(), items.iter().map(|i| i.1.observable.clone()).collect(), true)?;
    no_dup("carriers", rnx.carrier_iter().collect(), items.iter().filter_map(|i| i.1.observable.carrier(i.1.sv.constellation).ok()).collect(), false)?;
    let codes = items
        .iter()
        .filter_map(|i| {
            let t = i.1.observable.to_string();
            if t.len() == 3 {
                Some(t[1..].to_string())
            } else {
                None
            }
        })
        .collect();
    no_dup("codes", rnx.signal_code_iter().collect(), codes, false)?;

    let good = |i: &Item| i.0.flag == EpochFlag::Ok;
    same_t("sampling ok", rnx.signal_observations_sampling_ok_iter(), &sel(&|i| good(i)))?;
    same_t("sampling ok, code", rnx.pseudo_range_sampling_ok_iter(), &sel(&|i| good(i) && letter(&i.1.observable) == 'C'))?;
    same_t("sampling ok, phase", rnx.phase_range_sampling_ok_iter(), &sel(&|i| good(i) && letter(&i.1.observable) == 'L'))?;
    // a signal under anti spoofing only may or may not count as well tracked
    let spoof = |i: &Item| bits(&i.1).map_or(false, |b| b & 3 == 0 && b & 4 != 0);
    let tracked: Vec<_> = rnx.phase_range_tracking_ok_iter().filter(|(_, s)| !bits(s).map_or(false, |b| b & 3 == 0 && b & 4 != 0)).collect();
    same_t(
        "tracking ok",
        tracked.into_iter(),
        &sel(&|i| good(i) && letter(&i.1.observable) == 'L' && !spoof(i) && bits(&i.1).map_or(true, |b| b & 3 == 0)),
    )?;
    same("cycle slips", rnx.phase_cycle_slip_events(), &sel(&|i| letter(&i.1.observable) == 'L' && bits(&i.1).map_or(false, |b| b & 1 != 0)))?;
    same("half or full cycle slips", rnx.phase_half_full_cycle_slip_events(), &sel(&|i| letter(&i.1.observable) == 'L' && bits(&i.1).map_or(false, |b| b & 3 != 0)))?;
    let odd: Vec<ObsKey> = rnx.epoch_anomalies().copied().collect();
    let want: Vec<ObsKey> = rec.keys().filter(|k| k.flag != EpochFlag::Ok).copied().collect();
    ensure!(odd == want, "anomalies", "abnormal epochs {:?}, {:?} expected", odd, want);

    // and mask on the flags of phase observations
    let mask = g.pickc(&[1u8, 2, 3, 4, 5, 6, 7]);
    let m = LliFlags::from_bits_truncate(mask);
    let masked = rnx.observation_phase_tracking_lli_masking(m);
    same(
        "lli mask",
        masked.signal_observations_iter(),
        &sel(&|i| letter(&i.1.observable) != 'L' || bits(&i.1).map_or(false, |b| b & mask != 0)),
    )?;
    ensure!(masked.header == rnx.header, "lli mask", "header modified by the mask");
    let mut c = rnx.clone();
    c.observation_phase_tracking_lli_masking_mut(m);
    ensure!(c.record == masked.record, "lli mask", "in place and copying masks differ");
    for (k, v) in masked.record.as_obs().unwrap() {
        ensure!(rec.get(k).map(|o| o.clock) == Some(v.clock), "lli mask", "clock at {:?}", k);
    }

    // mutable forms reach every item, once
    let mut c = rnx.clone();
    for (_, s) in c.signal_observations_iter_mut() {
        s.value += 1.0;
    }
    for (_, k) in c.clock_observations_iter_mut() {
        k.offset_s += 2.0;
    }
    for (_, o) in c.observations_iter_mut() {
        for s in &mut o.signals {
            s.snr = None;
        }
    }
    let mut want = rec.clone();
    for v in want.values_mut() {
        for s in &mut v.signals {
            s.value += 1.0;
            s.snr = None;
        }
        if let Some(k) = &mut v.clock {
            k.offset_s += 2.0;
        }
    }
    ensure!(*c.record.as_obs().unwrap() == want, "mutable", "mutable iterators did not reach every item once");
    Ok(())
}

fn navigation(g: &mut Gen) -> Res {
    let major = g.pickc(&[2u8, 3, 4, 4, 4]);
    let st = nav::NumStyle::gen(g, major);
    let mut frames = vec![];
    let system = if major == 2 { g.pickc(&['G', 'R']) } else { 'M' };
    for _ in 0..g.usize(0, 9) {
        let mut f = if major == 4 && g.chance(2, 3) {
            p05::sys_frame(g, st)
        } else {
            let sys = if major == 2 { system } else { g.pickc(nav::SYSTEMS) };
            nav::eph_frame(g, major, sys, st)
        };
        if !frames.is_empty() && g.chance(1, 3) {
            let p: &nav::Frame = g.pick(&frames);
            f.toc = p.toc;
            if p.sys == f.sys {
                f.prn = p.prn;
            }
        }
        frames.push(f);
    }
    p04::dedup(&mut frames);
    let file = nav::NavFile { major, minor: if major == 2 { 11 } else { 0 }, system, frames, extra: vec![] };
    g.text = file.text(g);
    let rnx = decoded(&g.text)?;
    let rec = rnx.record.as_nav().unwrap();
    g.nontrivial = rec.len() > 1;
    ensure!(rnx.is_navigation_rinex() && !rnx.is_observation_rinex() && !rnx.is_meteo_rinex(), "type", "type predicates");
    ensure!(rnx.navigation_keys().eq(rec.keys()), "keys", "keys differ from the record");
    ensure!(rnx.nav_message_types_iter().eq(rec.keys().map(|k| (k.epoch, k.sv, k.msgtype))), "message types", "{:?}", rnx.nav_message_types_iter().collect::<Vec<_>>());
    ensure!(
        rnx.nav_ephemeris_frames_iter().eq(rec.iter().filter_map(|(k, v)| if let NavFrame::EPH(e) = v { Some((k, e)) } else { None })),
        "ephemeris",
        "{} ephemeris",
        rnx.nav_ephemeris_frames_iter().count()
    );
    ensure!(
        rnx.nav_earth_orientation_frames_iter().eq(rec.iter().filter_map(|(k, v)| if let NavFrame::EOP(e) = v { Some((k, e)) } else { None })),
        "earth orientation",
        "{} frames",
        rnx.nav_earth_orientation_frames_iter().count()
    );
    ensure!(
        rnx.nav_ionosphere_models_iter().eq(rec.iter().filter_map(|(k, v)| if let NavFrame::ION(e) = v { Some((k, e)) } else { None })),
        "ionosphere",
        "{} models",
        rnx.nav_ionosphere_models_iter().count()
    );
    ensure!(
        rnx.nav_system_time_frames_iter().eq(rec.iter().filter_map(|(k, v)| if let NavFrame::STO(e) = v { Some((k, e)) } else { None })),
        "system time",
        "{} frames",
        rnx.nav_system_time_frames_iter().count()
    );
    let ion: Vec<_> = rec.iter().filter_map(|(k, v)| if let NavFrame::ION(e) = v { Some((k, e)) } else { None }).collect();
    ensure!(
        rnx.nav_klobuchar_models_iter().eq(ion.iter().filter_map(|(k, v)| if let IonosphereModel::Klobuchar(m) = v { Some((*k, m)) } else { None })),
        "klobuchar",
        "{} models",
        rnx.nav_klobuchar_models_iter().count()
    );
    ensure!(
        rnx.nav_bdgim_models_iter().eq(ion.iter().filter_map(|(k, v)| if let IonosphereModel::Bdgim(m) = v { Some((*k, m)) } else { None })),
        "bdgim",
        "{} models",
        rnx.nav_bdgim_models_iter().count()
    );
    ensure!(
        rnx.nav_nequickg_models_iter().eq(ion.iter().filter_map(|(k, v)| if let IonosphereModel::NequickG(m) = v { Some((*k, m)) } else { None })),
        "nequick",
        "{} models",
        rnx.nav_nequickg_models_iter().count()
    );
    let clocks: Vec<_> = rnx.nav_sv_clock_iter().collect();
    let want: Vec<_> = rec.iter().filter_map(|(k, v)| if let NavFrame::EPH(e) = v { Some((*k, (e.clock_bias, e.clock_drift, e.clock_drift_rate))) } else { None }).collect();
    ensure!(clocks == want, "sv clock", "{:?}, {:?} expected", clocks, want);
    // UT1: one per Earth orientation frame, TAI - UT1 = (TAI - UTC) - (UT1 - UTC)
    let ut1: Vec<_> = rnx.nav_delta_tai_ut1_iter().collect();
    let eop: Vec<_> = rec.iter().filter_map(|(k, v)| if let NavFrame::EOP(e) = v { Some((k, e)) } else { None }).collect();
    ensure!(ut1.len() == eop.len(), "ut1", "{} items for {} frames", ut1.len(), eop.len());
    for (a, (k, e)) in ut1.iter().zip(&eop) {
        let leap = k.epoch.leap_seconds(true).unwrap_or(0.0);
        let want = Duration::from_seconds(leap) - Duration::from_seconds(e.delta_ut1.0);
        ensure!(
            a.epoch == k.epoch && (a.delta_tai_minus_ut1 - want).abs() < Duration::from_nanoseconds(1_000.0),
            "ut1",
            "TAI - UT1 {} at {}, {} expected (UT1 - UTC {})",
            a.delta_tai_minus_ut1,
            a.epoch,
            want,
            e.delta_ut1.0
        );
    }
    epochs(&rnx, rec.keys().map(|k| k.epoch).collect())?;
    no_dup("sv", rnx.sv_iter().collect(), rec.keys().map(|k| k.sv).collect(), true)?;
    no_dup("constellations", rnx.constellations_iter().collect(), rec.keys().map(|k| k.sv.constellation).collect(), true)?;
    ensure!(rnx.observables_iter().next().is_none(), "observables", "observables of a navigation file");
    g.label_if(!eop.is_empty(), "earth orientation");
    g.label_if(!ion.is_empty(), "ionosphere");
    g.label_if(rec.len() > eop.len() + ion.len(), "ephemeris or system time");
    Ok(())
}

/// every epoch of the record, sorted, and no other one
fn epochs(rnx: &Rinex, of: Vec<Epoch>) -> Res {
    let got: Vec<Epoch> = rnx.epoch_iter().collect();
    ensure!(got.windows(2).all(|w| w[0] <= w[1]), "epochs", "epochs are not sorted: {:?}", got);
    let (a, b): (BTreeSet<Epoch>, BTreeSet<Epoch>) = (got.iter().copied().collect(), of.into_iter().collect());
    ensure!(a == b, "epochs", "epochs {:?}, {:?} expected", a, b);
    ensure!(rnx.first_epoch() == b.iter().next().copied(), "epochs", "first epoch {:?} of {:?}", rnx.first_epoch(), b);
    ensure!(rnx.last_epoch() == b.iter().last().copied(), "epochs", "last epoch {:?} of {:?}", rnx.last_epoch(), b);
    Ok(())
}

fn others(g: &mut Gen) -> Res {
    match g.below(3) {
        0 => {
            g.label("meteo");
            let f = met::met_file(g, 8);
            g.text = f.text(g.below(3), false, true);
            let rnx = decoded(&g.text)?;
            let rec = rnx.record.as_meteo().unwrap();
            g.nontrivial = rec.len() > 1;
            ensure!(rnx.is_meteo_rinex() && !rnx.is_observation_rinex(), "type", "type predicates");
            epochs(&rnx, rec.keys().map(|k| k.epoch).collect())?;
            ensure!(rnx.meteo_observation_keys().eq(rec.keys()), "keys", "meteo keys");
            ensure!(rnx.meteo_observations_iter().eq(rec.iter()), "observations", "meteo observations");
            no_dup("observables", rnx.observables_iter().cloned().collect(), rec.keys().map(|k| k.observable.clone()).collect(), true)?;
            let sensors: Vec<_> = rnx.meteo_sensors_iter().cloned().collect();
            ensure!(sensors == rnx.header.meteo.as_ref().map(|m| m.sensors.clone()).unwrap_or_default(), "sensors", "sensors {:?}", sensors);
            ensure!(rnx.sv_iter().next().is_none() && rnx.constellations_iter().next().is_none(), "sv", "satellites in a meteo file");
            let mut c = rnx.clone();
            for (_, v) in c.meteo_observations_iter_mut() {
                *v += 1.0;
            }
            let mut want = rec.clone();
            for v in want.values_mut() {
                *v += 1.0;
            }
            ensure!(*c.record.as_meteo().unwrap() == want, "mutable", "meteo mutable iterator");
        },
        1 => {
            g.label("clock");
            let f = clk::clk_file(g, 14);
            g.text = f.text(g);
            let rnx = decoded(&g.text)?;
            let rec = rnx.record.as_clock().unwrap();
            g.nontrivial = rec.len() > 1;
            epochs(&rnx, rec.keys().copied().collect())?;
            let svs: BTreeSet<SV> = rec.values().flat_map(|m| m.keys().filter_map(|k| k.clock_type.as_sv())).collect();
            no_dup("sv", rnx.sv_iter().collect(), svs.clone(), false)?;
            no_dup("constellations", rnx.constellations_iter().collect(), svs.iter().map(|s| s.constellation).collect(), true)?;
            ensure!(rnx.precise_clock().eq(rec.iter()), "clock", "clock record");
            let all: Vec<_> = rec.iter().flat_map(|(t, m)| m.iter().map(move |(k, v)| (*t, k.clone(), v.clone()))).collect();
            let a: Vec<_> = rnx.precise_sv_clock().collect();
            let b: Vec<_> = all.iter().filter_map(|(t, k, v)| k.clock_type.as_sv().map(|s| (*t, s, k.profile_type.clone(), v.clone()))).collect();
            ensure!(a == b, "sv clock", "{:?}, {:?} expected", a, b);
            let a: Vec<_> = rnx.precise_station_clock().collect();
            let b: Vec<_> = all.iter().filter_map(|(t, k, v)| k.clock_type.as_station().map(|s| (*t, s, k.profile_type.clone(), v.clone()))).collect();
            ensure!(a == b, "station clock", "{:?}, {:?} expected", a, b);
            ensure!(rnx.observables_iter().next().is_none(), "observables", "observables of a clock file");
        },
        _ => {
            g.label("doris");
            let f = p16::dor_file(g);
            g.text = f.text(g.bool(), 0);
            let rnx = decoded(&g.text)?;
            let rec = rnx.record.as_doris().unwrap();
            g.nontrivial = rec.len() > 1;
            epochs(&rnx, rec.keys().map(|k| k.epoch).collect())?;
            g.label_if(rec.keys().any(|k| !k.flag.is_ok()), "event flag");
            let codes = rec.values().flat_map(|v| v.signals.keys().map(|k| k.observable.clone())).collect();
            no_dup("observables", rnx.observables_iter().cloned().collect(), codes, true)?;
            ensure!(rnx.sv_iter().next().is_none(), "sv", "satellites in a DORIS file");
            let mut c = rnx.clone();
            for (_, v) in c.doris_observation_iter_mut() {
                for s in v.signals.values_mut() {
                    s.value += 1.0;
                }
            }
            let mut want = rec.clone();
            for s in want.values_mut().flat_map(|v| v.signals.values_mut()) {
                s.value += 1.0;
            }
            ensure!(*c.record.as_doris().unwrap() == want, "mutable", "DORIS mutable iterator");
        },
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P22",
        parts: vec![
            Part { name: "observations", run: obs, quick: 300_000, thorough: 6_000_000 },
            Part { name: "navigation", run: navigation, quick: 200_000, thorough: 6_000_000 },
            Part { name: "others", run: others, quick: 200_000, thorough: 6_000_000 },
        ],
        rule: "the record holds more than one item",
        assumptions: &[
            "Phase observations flagged with anti spoofing only are left out of the comparison of the tracking-ok iterator; phase observations without a flag never pass the mask, as the mask keeps those whose flags intersect it.",
            "Iterators of the DORIS pseudo range, phase range and satellite drift, and of the IONEX isosurfaces, are not implemented (always empty) and are not part of the property.",
        ],
    }
}
