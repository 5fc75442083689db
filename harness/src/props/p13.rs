//! P13: ionosphere maps.
use crate::ensure;
use crate::gen::Gen;
use crate::inx::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::ionex::*;
use rinex::prelude::*;
use std::collections::BTreeMap;

fn scaled(v: (i64, i64)) -> f64 {
    v.0 as f64 * 10f64.powi(v.1 as i32)
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * b.abs()
}

pub fn header(rnx: &Rinex, f: &InxFile) -> Res {
    let h = match &rnx.header.ionex {
        Some(h) => h,
        None => return fail("header", "no ionex header"),
    };
    ensure!(rnx.is_ionex() && rnx.header.version == Version::new(1, f.minor), "header", "version {:?}", rnx.header.version);
    let dt = if f.interval == 0 { None } else { Some(Duration::from_seconds(f.interval as f64)) };
    ensure!(rnx.header.sampling_interval == dt, "header", "interval {:?}, written {}", rnx.header.sampling_interval, f.interval);
    ensure!(h.number_of_maps == f.tec_maps(), "header", "{} maps announced, {} read", f.tec_maps(), h.number_of_maps);
    let t1 = f.maps.iter().map(|m| m.t).max_by_key(|t| t.ticks()).unwrap();
    ensure!(
        same_epoch(h.epoch_of_first_map, f.maps[0].t.epoch(TimeScale::UTC)) && same_epoch(h.epoch_of_last_map, t1.epoch(TimeScale::UTC)),
        "header",
        "maps from {} to {}",
        h.epoch_of_first_map,
        h.epoch_of_last_map
    );
    match f.system {
        "GPS" => ensure!(h.reference == RefSystem::GnssConstellation(Constellation::GPS), "header", "system {:?}", h.reference),
        "GNSS" => ensure!(h.reference == RefSystem::GnssConstellation(Constellation::Mixed), "header", "system {:?}", h.reference),
        _ => (),
    }
    let d = if f.description.is_empty() { None } else { Some(f.description.join(" ")) };
    ensure!(h.description == d, "header", "description {:?}, written {:?}", h.description, d);
    let m = match f.mapping {
        "COSZ" => Some(MappingFunction::CosZ),
        "QFAC" => Some(MappingFunction::QFac),
        _ => None,
    };
    ensure!(h.mapping == m, "header", "mapping function {:?}, written {}", h.mapping, f.mapping);
    ensure!(h.map_dimension == if f.is_2d() { 2 } else { 3 }, "header", "dimension {}", h.map_dimension);
    ensure!(h.base_radius == dec(f.radius, 1) as f32 && h.elevation_cutoff == dec(f.cutoff, 1) as f32, "header", "radius {} cutoff {}", h.base_radius, h.elevation_cutoff);
    let o = if f.observables.is_empty() { None } else { Some(f.observables.clone()) };
    ensure!(h.observables == o, "header", "observables {:?}, written {:?}", h.observables, o);
    ensure!(
        h.nb_stations as i64 == f.stations.unwrap_or(0) && h.nb_satellites as i64 == f.satellites.unwrap_or(0),
        "header",
        "{} stations {} satellites, written {:?} {:?}",
        h.nb_stations,
        h.nb_satellites,
        f.stations,
        f.satellites
    );
    ensure!(h.exponent as i64 == f.exponent.unwrap_or(-1), "header", "exponent {}, written {:?}", h.exponent, f.exponent);
    for (a, b, n) in [(&h.grid.latitude, &f.lat, "latitude"), (&h.grid.longitude, &f.lon, "longitude"), (&h.grid.height, &f.hgt, "height")] {
        let step = if b.n == 1 { 0 } else { b.step };
        ensure!(a.start == dec(b.start, 1) && a.end == dec(b.end(), 1) && a.spacing == dec(step, 1), "header", "{} grid {:?}, written {:?}", n, a, b);
    }
    ensure!(rnx.is_ionex_2d() == f.is_2d() && rnx.is_ionex_3d() != f.is_2d(), "dimension", "{:?}", h.map_dimension);
    let mm = |a: &Axis| (dec(a.start.min(a.end()), 1), dec(a.start.max(a.end()), 1));
    ensure!(rnx.tec_map_borders() == Some((mm(&f.lat), mm(&f.lon))), "borders", "{:?}", rnx.tec_map_borders());
    ensure!(rnx.ionex_altitude_range_km() == Some(mm(&f.hgt)), "altitudes", "{:?}", rnx.ionex_altitude_range_km());
    let alt = if f.is_2d() { Some(dec(f.hgt.start, 1)) } else { None };
    ensure!(rnx.ionex_2d_fixed_altitude_km() == alt, "altitudes", "{:?}", rnx.ionex_2d_fixed_altitude_km());
    Ok(())
}

pub fn compare(rnx: &Rinex, f: &InxFile) -> Res {
    header(rnx, f)?;
    let rec = match rnx.record.as_ionex() {
        Some(r) => r,
        None => return fail("record-type", "not an ionex record"),
    };
    let want = f.expected();
    let mut times = BTreeMap::new();
    for m in &f.maps {
        times.insert(m.t.ticks(), m.t.epoch(TimeScale::UTC));
    }
    let mut got = BTreeMap::new();
    for (k, v) in rec {
        let t = match times.iter().find(|(_, e)| same_epoch(**e, k.epoch)) {
            Some((t, _)) => *t,
            None => return fail("foreign", format!("estimate at {}", k.epoch)),
        };
        let c = &k.coordinates;
        let tenth = |x: f64| (x * 10.0).round() as i64;
        let n = (t, tenth(c.latitude_ddeg()), tenth(c.longitude_ddeg()), tenth(c.altitude_km()));
        ensure!(
            c.latitude_ddeg() == dec(n.1, 1) && c.longitude_ddeg() == dec(n.2, 1) && c.altitude_km() == dec(n.3, 1),
            "coordinates",
            "{:?}",
            c
        );
        ensure!(want.contains_key(&n), "foreign", "estimate {:?} at {} {:?}", v.tecu(), k.epoch, c);
        got.insert(n, v);
    }
    ensure!(got.len() == rec.len(), "duplicate", "{} estimates on {} nodes", rec.len(), got.len());
    // maps followed by something else than a TEC map are dealt with at last
    let last = |i: usize| f.maps.get(i + 1).map(|m| m.rms).unwrap_or(true);
    let mut lost = None;
    for (n, (i, v, rms)) in &want {
        let d = match got.get(n) {
            Some(d) => d,
            None if last(*i) => {
                lost = Some(*i);
                continue;
            },
            None => return fail("missing", format!("nothing at {:?}, {:?} is written", n, v)),
        };
        ensure!(close(d.tecu(), scaled(*v)), "tec", "TEC {} at {:?} where {:?} is written", d.tecu(), n, v);
        match (d.rms_tec(), rms) {
            (None, None) => (),
            (Some(a), Some(b)) => ensure!(close(a, scaled(*b)), "rms", "RMS {} at {:?} where {:?} is written", a, n, b),
            (a, b) => return fail("rms", format!("RMS {:?} at {:?} where {:?} is written", a, n, b)),
        }
    }
    let pairs: Vec<_> = rnx.ionex_tec_maps_iter().collect();
    ensure!(pairs.len() == rec.len() && pairs.iter().all(|(k, v)| rec.get(k) == Some(v)), "maps-iter", "{} of {} estimates iterated", pairs.len(), rec.len());
    ensure!(rnx.ionex_tec_maps_keys().eq(rec.keys()), "maps-keys", "{:?}", rnx.ionex_tec_maps_keys());
    // projections
    let (mut a, b): (Vec<Epoch>, std::collections::BTreeSet<Epoch>) = (rnx.epoch_iter().collect(), rec.keys().map(|k| k.epoch).collect());
    ensure!(a.windows(2).all(|w| w[0] <= w[1]), "epochs", "epochs are not sorted: {:?}", a);
    a.dedup();
    ensure!(a == b.iter().copied().collect::<Vec<_>>(), "epochs", "{:?}, {:?} expected", a, b);
    let a: Vec<_> = rnx.ionex_tecu_latlong_ddeg_alt_km_iter().collect();
    let b: Vec<_> = rec
        .iter()
        .map(|(k, v)| (k.epoch, k.coordinates.latitude_ddeg(), k.coordinates.longitude_ddeg(), k.coordinates.altitude_km(), v.tecu()))
        .collect();
    ensure!(a == b, "iterator", "{:?} instead of {:?}", a, b);
    let a: Vec<_> = rnx.ionex_rms_tec_maps_iter().collect();
    let b: Vec<_> = rec.iter().filter_map(|(k, v)| v.rms_tec().map(|r| (*k, r))).collect();
    ensure!(a == b, "iterator", "{:?} instead of {:?}", a, b);
    if let Some(i) = lost {
        // the whole map is lost
        if want.iter().any(|(n, w)| w.0 == i && got.contains_key(n)) {
            return fail("missing", format!("map {} is incomplete", i));
        }
        return fail("last-map", format!("map {} of {} is lost", i, f.maps.len()));
    }
    Ok(())
}

fn decode(g: &mut Gen) -> Res {
    let f = inx_file(g, 4);
    g.text = f.text(g);
    g.nontrivial = f.tec_maps() > 1;
    g.label_if(!f.is_2d(), "3d");
    g.label_if(f.maps.iter().any(|m| m.rms), "rms");
    g.label_if(f.maps.iter().any(|m| m.exponent.is_some()), "exponent-changes");
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    compare(&rnx, &f)
}

fn units(g: &mut Gen) -> Res {
    let x = dec(g.int_digits(6, false), g.below(4) as usize);
    let r = dec(g.int_digits(6, false), g.below(4) as usize);
    g.text = format!("{} {}", x, r);
    g.nontrivial = x != 0.0;
    let t = TEC::from_tecu(x);
    ensure!(close(t.tecu(), x) && t.rms_tec().is_none(), "tecu", "{:?} for {} TECu", t, x);
    let u = t.with_rms(r);
    ensure!(close(u.tecu(), x) && u.rms_tec().map(|v| close(v, r)) == Some(true), "tecu", "{:?} for {} TECu, RMS {}", u, x, r);
    // 1 TECu is 1e16 electrons per square meter
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs();
    let m2 = TEC::from_tec_m2(t.tec());
    ensure!(close(m2.tecu(), x), "tec-inverse", "{} TECu back from {} m-2, that is {} TECu", m2.tecu(), t.tec(), x);
    ensure!(close(t.tec(), x * 1e16) || close(t.tec(), x * 1e17), "tec-factor", "{} m-2 for {} TECu", t.tec(), x);
    ensure!(close(t.tec(), x * 1e16), "tec-unit", "{} m-2 for {} TECu", t.tec(), x);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P13",
        parts: vec![
            Part { name: "decode", run: decode, quick: 40_000, thorough: 1_500_000 },
            Part { name: "units", run: units, quick: 20_000, thorough: 400_000 },
        ],
        rule: "decode: ionosphere maps of an independent writer (2D and 3D grids, ascending or descending axes, spacings of 0.1 to 10 degrees, starts on or off the spacing, 1 to 73 values per line of the grid, exponents in the header and restated in any map, missing values, RMS maps after all TEC maps or interleaved, comments); every node of every map and the header are compared, estimates outside of the maps are refused. units: TEC values of up to 6 digits. Non-trivial when more than one TEC map (a non null value) is present.",
        assumptions: &["maps come in chronological order with one map per kind and epoch", "no height maps"],
    }
}
