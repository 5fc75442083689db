//! P27: meteo statistics and per-quantity iterators.
use crate::ensure;
use crate::gen::*;
use crate::met::*;
use crate::props::p16;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::str::FromStr;

/// meteo files, readings kept within what each quantity allows
fn file(g: &mut Gen) -> MetFile {
    let mut f = met_file(g, 12);
    if g.chance(3, 4) && !f.codes.contains(&"RI") {
        let n = f.codes.len();
        f.codes[g.below(n as u64) as usize] = "RI";
        f.sensors.clear();
    }
    let dry = g.chance(1, 4);
    for (i, c) in f.codes.iter().enumerate() {
        if ["RI", "HI", "WS", "HR"].contains(c) {
            for e in &mut f.epochs {
                if let Some(r) = &mut e.1[i] {
                    *r = r.abs();
                    if dry || (*c == "HI" && g.bool()) {
                        *r = 0;
                    }
                }
            }
        }
    }
    f
}

fn series<'a>(f: &MetFile, code: &str) -> Vec<(Epoch, f64)> {
    match f.codes.iter().position(|c| *c == code) {
        Some(i) => f.epochs.iter().filter_map(|(t, v)| v[i].map(|x| (t.epoch(TimeScale::UTC), dec(x, 1)))).collect(),
        None => vec![],
    }
}

fn meteo(g: &mut Gen) -> Res {
    let f = file(g);
    let rnx = if g.bool() {
        g.text = f.text(g.below(3), false, true);
        match parse_text(&g.text) {
            Ok(r) => r,
            Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
        }
    } else {
        f.to_rinex(g, false)
    };
    let same = |what: &'static str, it: Box<dyn Iterator<Item = (Epoch, f64)> + '_>, code: &str| -> Res {
        let got: Vec<_> = it.collect();
        let want = series(&f, code);
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same_epoch(a.0, b.0) && a.1 == b.1);
        ensure!(ok, what, "{} readings {:?}, {:?} expected", what, got, want);
        Ok(())
    };
    same("temperature", rnx.temperature_iter(), "TD")?;
    same("pressure", rnx.pressure_iter(), "PR")?;
    same("moisture", rnx.moisture_rate_iter(), "HR")?;
    same("wind-speed", rnx.wind_speed_iter(), "WS")?;
    same("wind-direction", rnx.wind_direction_iter(), "WD")?;
    same("rain", rnx.accumulated_rain_iter(), "RI")?;
    same("zenith-total", rnx.zenith_total_delay_iter(), "ZT")?;
    same("zenith-dry", rnx.zenith_dry_delay_iter(), "ZD")?;
    same("zenith-wet", rnx.zenith_wet_delay_iter(), "ZW")?;
    let rain: i64 = f.codes.iter().position(|c| *c == "RI").map(|i| f.epochs.iter().filter_map(|e| e.1[i]).sum()).unwrap_or(0);
    let got = rnx.total_accumulated_rain();
    ensure!((got - dec(rain, 1)).abs() < 1e-6, "rain-total", "{} tenths of mm, {} expected", got, dec(rain, 1));
    ensure!(rnx.rain_detected() == (rain > 0), "rain-detected", "{} with {} accumulated", rnx.rain_detected(), dec(rain, 1));
    let hail = series(&f, "HI").iter().any(|x| x.1 > 0.0);
    ensure!(rnx.hail_detected() == hail, "hail-detected", "{}, {} expected", rnx.hail_detected(), hail);
    let keys: Vec<_> = rnx.meteo_observation_keys().collect();
    let items: Vec<_> = rnx.meteo_observations_iter().collect();
    let want = f.expected();
    ensure!(keys.len() == want.len() && items.len() == want.len() && rnx.is_meteo_rinex(), "readings", "{} keys, {} readings, {} expected", keys.len(), items.len(), want.len());
    for ((k, (a, v)), w) in keys.iter().zip(&items).zip(&want) {
        ensure!(k == a && same_epoch(k.epoch, w.0) && k.observable == w.1 && **v == w.2, "readings", "{:?} {} instead of {:?}", k, v, w);
    }
    let mut obs: Vec<Observable> = f.codes.iter().enumerate().filter(|(i, _)| f.epochs.iter().any(|e| e.1[*i].is_some())).map(|(_, c)| Observable::from_str(c).unwrap()).collect();
    obs.sort();
    let got: Vec<Observable> = rnx.observables_iter().cloned().collect();
    ensure!(got == obs, "observables", "{:?} instead of {:?}", got, obs);
    let got: Vec<Epoch> = rnx.epoch_iter().collect();
    let want: Vec<Epoch> = f.epochs.iter().filter(|e| e.1.iter().any(|r| r.is_some())).map(|e| e.0.epoch(TimeScale::UTC)).collect();
    ensure!(got == want, "epochs", "{:?} instead of {:?}", got, want);
    let n = rnx.meteo_sensors_iter().count();
    ensure!(n == f.sensors.len() && rnx.meteo_sensors_iter().zip(&f.sensors).all(|(a, b)| a.observable == Observable::from_str(b.code).unwrap()), "sensors", "{} sensors instead of {}", n, f.sensors.len());
    g.nontrivial = items.len() > 1;
    g.label_if(rain > 0, "rain");
    g.label_if(hail, "hail");
    g.label_if(f.codes.contains(&"HI") && !hail, "hail sensor, no hail");
    g.label_if(f.codes.contains(&"RI") && rain == 0, "rain sensor, no rain");
    Ok(())
}

fn doris(g: &mut Gen) -> Res {
    let f = p16::dor_file(g);
    g.text = f.text(false, 0);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let rec = rnx.record.as_doris().unwrap();
    let sorted = |mut v: Vec<(Epoch, f64)>| {
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    let mut n = 0;
    for (what, it, o) in [
        ("temperature", rnx.temperature_iter(), Observable::Temperature),
        ("pressure", rnx.pressure_iter(), Observable::Pressure),
        ("moisture", rnx.moisture_rate_iter(), Observable::HumidityRate),
    ] {
        let got: Vec<_> = it.collect();
        ensure!(got.windows(2).all(|w| w[0].0 <= w[1].0), what, "not in order of time: {:?}", got);
        let want: Vec<(Epoch, f64)> = rec.iter().flat_map(|(k, v)| v.signals.iter().filter(|(s, _)| s.observable == o).map(|(_, x)| (k.epoch, x.value))).collect();
        let (got, want) = (sorted(got), sorted(want));
        ensure!(got == want, what, "{:?} instead of {:?}", got, want);
        n += got.len();
    }
    g.nontrivial = n > 1;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P27",
        parts: vec![
            Part { name: "meteo", run: meteo, quick: 200_000, thorough: 4_000_000 },
            Part { name: "doris", run: doris, quick: 50_000, thorough: 1_000_000 },
        ],
        rule: "meteo data sets (read from generated files or built in memory) and DORIS files: every per-quantity iterator, the rain total, the rain and hail detections, epochs, observables and sensors against the readings of the model. Non-trivial when more than one reading is present.",
        assumptions: &["rain, hail, wind speed and humidity readings are not negative"],
    }
}
