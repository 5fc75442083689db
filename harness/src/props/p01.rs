//! P01: decoding of observation files against an independent writer.
use crate::ensure;
use crate::gen::Gen;
use crate::obs::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::str::FromStr;

/// Compares a parsed data set with the model it was written from.
pub fn compare(rnx: &Rinex, f: &ObsFile, clock_tol: f64) -> Res {
    let rec = match rnx.record.as_obs() {
        Some(r) => r,
        None => return crate::runner::fail("record-type", "not an observation record"),
    };
    let expected: Vec<&Epo> = f.epochs.iter().filter(|e| !(2..=5).contains(&e.flag)).collect();
    ensure!(
        rec.len() == expected.len(),
        "epochs",
        "{} epochs instead of {}: {:?}",
        rec.len(),
        expected.len(),
        rec.keys().collect::<Vec<_>>()
    );
    for ((k, v), e) in rec.iter().zip(expected.iter()) {
        let t = e.t.epoch(f.ts);
        ensure!(same_epoch(k.epoch, t), "epoch", "epoch {:?} ({:?}) instead of {:?} ({:?})", k.epoch, k.epoch.time_scale, t, f.ts);
        ensure!(k.flag == EpochFlag::from_str(&e.flag.to_string()).unwrap(), "flag", "flag {:?} instead of {}", k.flag, e.flag);
        match (v.clock, e.clock) {
            (None, None) => {},
            (Some(c), Some(m)) => {
                let want = f.clock_seconds(m);
                ensure!((c.offset_s - want).abs() <= clock_tol, "clock", "{}: clock offset {} instead of {}", t, c.offset_s, want);
            },
            (a, b) => {
                return crate::runner::fail("clock", format!("{}: clock offset {:?} instead of {:?}", t, a, b.map(|m| f.clock_seconds(m))))
            },
        }
        let mut want = vec![];
        for s in &e.sats {
            let sv = SV::from_str(&s.name).unwrap();
            for (o, code) in s.obs.iter().zip(f.codes_of(&s.name)) {
                if let Some(o) = o {
                    want.push((sv, code.clone(), o.value(), o.lli, o.ssi));
                }
            }
        }
        let mut got: Vec<_> = v
            .signals
            .iter()
            .map(|s| {
                (
                    s.sv,
                    s.observable.to_string(),
                    s.value,
                    s.lli.map(|l| l.bits()),
                    s.snr.map(|x| format!("{:x}", x).parse::<u8>().unwrap_or(99)),
                )
            })
            .collect();
        let key = |a: &(SV, String, f64, Option<u8>, Option<u8>), b: &(SV, String, f64, Option<u8>, Option<u8>)| {
            (a.0, &a.1).cmp(&(b.0, &b.1))
        };
        got.sort_by(key);
        want.sort_by(key);
        for (a, b) in got.iter().zip(want.iter()) {
            ensure!(a.0 == b.0 && a.1 == b.1, "signals", "{}: found {:?} where {:?} is expected", t, a, b);
            ensure!(a.2 == b.2, "value", "{}: {} {} is {} instead of {}", t, a.0, a.1, a.2, b.2);
            ensure!(a.3 == b.3, "lli", "{}: {} {} LLI {:?} instead of {:?}", t, a.0, a.1, a.3, b.3);
            ensure!(a.4 == b.4, "snr", "{}: {} {} SNR {:?} instead of {:?}", t, a.0, a.1, a.4, b.4);
        }
        ensure!(got.len() == want.len(), "signals", "{}: {} observations instead of {}", t, got.len(), want.len());
        // typed content, not only its text
        for s in &v.signals {
            ensure!(
                Observable::from_str(&s.observable.to_string()).ok().as_ref() == Some(&s.observable),
                "observable",
                "{:?} does not read back",
                s.observable
            );
        }
    }
    Ok(())
}

fn decode(g: &mut Gen) -> Res {
    let f = obs_file(g, &DEFAULT_CFG);
    let st = Style::gen(g);
    g.text = f.text(&st);
    f.classify(g);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return crate::runner::fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let h = &rnx.header;
    ensure!(h.version == Version::new(f.major, f.minor), "header", "version {:?}", h.version);
    ensure!(h.constellation == Some(constellation(f.system)), "header", "constellation {:?}", h.constellation);
    for (c, list) in &f.codes {
        let got: Vec<String> = h.obs.as_ref().unwrap().codes[&constellation(*c)].iter().map(|o| o.to_string()).collect();
        ensure!(&got == list, "header-codes", "{}: observables {:?} instead of {:?}", c, got, list);
    }
    compare(&rnx, &f, 0.0)
}

/// A code the library does not know is one column all the same: either the file is refused, or
/// the other columns keep their values. Nothing may move to the column of another code.
fn unknown_code(g: &mut Gen) -> Res {
    let mut f = obs_file(g, &DEFAULT_CFG);
    let st = Style::gen(g);
    let junk = match f.major {
        2 => g.pickc(&["Q1", "Z9", "K2", "11", "B1", "c", "0"]),
        _ => g.pickc(&["Q1C", "Z9X", "K2W", "111", "B1", "T1C", "V"]),
    };
    let i = g.usize(0, f.codes.len() - 1);
    let col = g.usize(0, f.codes[i].1.len() - 1);
    let sys = f.codes[i].0;
    let codes = &mut f.codes;
    for (c, list) in codes.iter_mut() {
        // RINEX 2: one list for all
        if f.major == 2 || *c == sys {
            list[col] = junk.to_string();
        }
    }
    g.text = f.text(&st);
    f.classify(g);
    g.label_if(col + 1 < f.codes[i].1.len(), "not the last column");
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(_) => {
            g.label("refused");
            return Ok(());
        },
    };
    if compare(&rnx, &f, 0.0).is_ok() {
        g.label("kept");
        return Ok(());
    }
    let major = f.major;
    for e in f.epochs.iter_mut() {
        for s in e.sats.iter_mut() {
            if major == 2 || s.name.starts_with(sys) {
                s.obs[col] = None;
            }
        }
    }
    match compare(&rnx, &f, 0.0) {
        Ok(()) => {
            g.label("ignored");
            Ok(())
        },
        Err(e) => fail("unknown-code", format!("column {:?}: {}", junk, e.msg)),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "P01",
        parts: vec![
            Part { name: "decode", run: decode, quick: 250_000, thorough: 6_000_000 },
            Part { name: "unknown-code", run: unknown_code, quick: 60_000, thorough: 1_500_000 },
        ],
        rule: "random observation files written by an independent writer (format revisions 2.00 to 4.01, single or mixed systems, 1 to 22 observables per system, 1 to 48 satellites, random blanks, LLI 0-7, SSI 0-9, flags 0/1/6 with records and 2-5 events, clock offsets, trimmed, full or padded lines), parsed and compared field by field; non-trivial when more than one observation is present; the same files with one code replaced by one that does not exist are either refused, or nothing moves to another column.",
        assumptions: &[
            "values are non-zero (0.000 is one of the notations of a missing observation)",
            "SYS / SCALE FACTOR is not used",
            "LLI is in 0..7",
            "satellite names resolve through gnss-rs, which is trusted",
        ],
    }
}
