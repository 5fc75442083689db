//! P03: meteo files.
use crate::ensure;
use crate::gen::Gen;
use crate::met::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::str::FromStr;

pub fn compare(rnx: &Rinex, f: &MetFile) -> Res {
    let m = match &rnx.header.meteo {
        Some(m) => m,
        None => return fail("header", "no meteo header"),
    };
    ensure!(rnx.header.version == Version::new(f.major, f.minor), "header", "version {:?}", rnx.header.version);
    let got: Vec<String> = m.codes.iter().map(|c| c.to_string()).collect();
    ensure!(got == f.codes, "header-codes", "observables {:?} instead of {:?}", got, f.codes);
    ensure!(m.sensors.len() == f.sensors.len(), "sensors", "{} sensors instead of {}", m.sensors.len(), f.sensors.len());
    for (a, b) in m.sensors.iter().zip(&f.sensors) {
        let opt = |s: &String| if s.is_empty() { None } else { Some(s.clone()) };
        ensure!(a.observable == Observable::from_str(b.code).unwrap(), "sensors", "{:?} instead of {:?}", a, b);
        ensure!(a.model == opt(&b.model) && a.sensor_type == opt(&b.typ), "sensors", "{:?} instead of {:?}", a, b);
        ensure!(a.accuracy == b.acc.map(|x| fixed(x, 1, 7).trim().parse::<f32>().unwrap()), "sensors", "{:?} instead of {:?}", a, b);
        let pos = b.pos.map(|v| (dec(v[0], 4), dec(v[1], 4), dec(v[2], 4)));
        ensure!(a.position == pos && a.height == b.pos.map(|v| dec(v[3], 4)), "sensors", "{:?} instead of {:?}", a, b);
    }
    let rec = match rnx.record.as_meteo() {
        Some(r) => r,
        None => return fail("record-type", "not a meteo record"),
    };
    let want = f.expected();
    for ((k, v), w) in rec.iter().zip(&want) {
        ensure!(
            same_epoch(k.epoch, w.0) && k.observable == w.1 && *v == w.2,
            "readings",
            "found {:?} {} {} where {:?} {} {} is expected",
            k.epoch,
            k.observable,
            v,
            w.0,
            w.1,
            w.2
        );
    }
    ensure!(rec.len() == want.len(), "readings", "{} readings instead of {}", rec.len(), want.len());
    Ok(())
}

fn roundtrip(g: &mut Gen, rnx: &Rinex, f: &MetFile) -> Res {
    let text = match format_text(rnx) {
        Ok(t) => t,
        Err(e) => return fail("format-error", e),
    };
    g.text = text.clone();
    let back = match parse_text(&text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("written file rejected: {:?}", e)),
    };
    compare(&back, f)?;
    let again = format_text(&back).unwrap_or_default();
    ensure!(again == text, "unstable", "{:?}", again.lines().zip(text.lines()).find(|(a, b)| a != b));
    Ok(())
}

fn decode(g: &mut Gen) -> Res {
    let max = if g.below(200) == 199 { 150 } else { 5 };
    let f = met_file(g, max);
    g.text = f.text(g.below(3), g.chance(1, 4), !g.chance(1, 4));
    f.classify(g);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    compare(&rnx, &f)?;
    let mut f = f;
    f.epochs.retain(|e| e.1.iter().any(|r| r.is_some()));
    roundtrip(g, &rnx, &f)
}

fn built(g: &mut Gen) -> Res {
    let max = if g.below(200) == 199 { 150 } else { 5 };
    let f = met_file(g, max);
    f.classify(g);
    let rnx = f.to_rinex(g, true);
    roundtrip(g, &rnx, &f)
}

pub fn prop() -> Prop {
    Prop {
        id: "P03",
        parts: vec![
            Part { name: "decode", run: decode, quick: 150_000, thorough: 4_000_000 },
            Part { name: "built", run: built, quick: 150_000, thorough: 4_000_000 },
        ],
        rule: "decode: meteo files of an independent writer (revisions 2.00 to 4.00, 1 to 10 observables in any order, blanks, continuation lines, trimmed or padded lines, sensors with type, accuracy and position) parsed, compared, formatted and parsed back; built: data sets assembled through the public types, formatted and parsed back. Non-trivial when more than one reading is present.",
        assumptions: &["at most one sensor per observable", "readings fit F7.1, epochs are whole seconds"],
    }
}
