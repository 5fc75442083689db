//! P04: broadcast ephemeris frames.
use crate::ensure;
use crate::gen::Gen;
use crate::nav::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::navigation::orbits::OrbitItem;
use rinex::navigation::{Ephemeris, GloHealth, NavFrame, NavFrameType, NavKey, NavMessageType};
use rinex::prelude::*;
use std::collections::HashSet;
use std::str::FromStr;

pub fn key(f: &Frame) -> NavKey {
    NavKey {
        epoch: f.epoch(),
        sv: f.sv(),
        msgtype: NavMessageType::from_str(f.msg).expect("library: message"),
        frmtype: NavFrameType::from_str(f.class()).expect("library: class"),
    }
}

/// removes frames that share their identification with a previous one
pub fn dedup(frames: &mut Vec<Frame>) {
    let mut seen = HashSet::new();
    frames.retain(|f| seen.insert((f.sys, f.prn, f.msg, f.class(), f.toc.ticks())));
}

/// health codes the library has a name for
fn named(sys: char, code: f64) -> bool {
    match sys {
        'G' => code <= 7.0,
        'E' => true,
        _ => code == 0.0 || code == 8.0,
    }
}

/// health codes without a name
fn codes(f: &Frame, major: u8, eph: &Ephemeris) -> Res {
    let words = match &f.body {
        Body::Eph { words, .. } if f.sys != 'R' => words,
        _ => return Ok(()),
    };
    for ((name, kind), w) in table(major, f.sys, f.msg).iter().zip(words) {
        if let (Kind::H, Some(w)) = (kind, w) {
            let item = eph.orbits.get(*name);
            let got = match item {
                Some(OrbitItem::Health(h)) => h.clone() as u32 as f64,
                Some(OrbitItem::GeoHealth(h)) => h.clone() as u32 as f64,
                _ => continue,
            };
            ensure!(got == w.val || got == 0.0, "health-value", "{} of {}{:02} is {:?} instead of {}", name, f.sys, f.prn, item, w.val);
            ensure!(named(f.sys, w.val) || got == w.val, "health-code", "{} of {}{:02} is {:?} instead of {}", name, f.sys, f.prn, item, w.val);
        }
    }
    Ok(())
}

/// one broadcast word
fn check_word(eph: &Ephemeris, sys: char, name: &str, kind: Kind, w: &Option<Num>) -> Res {
    let item = eph.orbits.get(name);
    let val = match w {
        None => {
            ensure!(item.is_none(), "invented", "{} is blank, {:?} decoded", name, item);
            return Ok(());
        },
        Some(n) => n.val,
    };
    match kind {
        Kind::F => {
            ensure!(eph.get_orbit_f64(name).unwrap_or(0.0) == val, "value", "{} is {} instead of {:e}", name, eph.get_orbit_f64(name).unwrap_or(0.0), val);
            ensure!(val == 0.0 || matches!(item, Some(OrbitItem::F64(_))), "kind", "{} is {:?}", name, item);
        },
        Kind::U => {
            let got = item.and_then(|i| i.as_u32());
            ensure!(got.unwrap_or(0) as f64 == val, "counter", "{} is {:?} instead of {}", name, got, val);
            ensure!(eph.get_orbit_f64(name).unwrap_or(0.0) == val, "counter", "{} is {:?} instead of {}", name, eph.get_orbit_f64(name), val);
        },
        Kind::I => {
            let got = item.and_then(|i| i.as_i8());
            ensure!(got.map(|g| g as f64) == Some(val), "channel", "{} is {:?} instead of {}", name, got, val);
            ensure!(eph.glonass_freq_channel().map(|g| g as f64) == Some(val), "channel", "{:?} instead of {}", eph.glonass_freq_channel(), val);
        },
        Kind::S => {
            let got = match item {
                None => 0,
                Some(OrbitItem::GloStatus(s)) => s.bits(),
                Some(_) => u32::MAX,
            };
            ensure!(got as f64 == val, "status", "{} is {:?} instead of {}", name, item, val);
        },
        Kind::H => {
            // zero may be left out
            let got = match item {
                None => 0.0,
                Some(i) => match sys {
                    'G' => i.as_gps_health().map(|h| h as u32 as f64).unwrap_or(f64::NAN),
                    'R' => i.as_glo_health().map(|h| h as u32 as f64).unwrap_or(f64::NAN),
                    'E' => i.as_gal_health().map(|h| h.bits() as f64).unwrap_or(f64::NAN),
                    _ => i.as_geo_health().map(|h| h as u32 as f64).unwrap_or(f64::NAN),
                },
            };
            if sys == 'R' {
                // any other code than zero is an unhealthy satellite
                let healthy = item.map(|i| i.as_glo_health() == Some(GloHealth::Healthy)).unwrap_or(true);
                ensure!(healthy == (val == 0.0), "health", "{} is {:?} instead of {}", name, item, val);
            } else if named(sys, val) {
                ensure!(got == val, "health", "{} is {:?} instead of {}", name, item, val);
            }
        },
        Kind::X => {},
    }
    Ok(())
}

pub fn check_eph(f: &Frame, major: u8, eph: &Ephemeris) -> Res {
    let (clk, words) = match &f.body {
        Body::Eph { clk, words } => (clk, words),
        _ => return Ok(()),
    };
    let t = table(major, f.sys, f.msg);
    let drr = if f.sys == 'S' { 0.0 } else { clk[2].val };
    let got = (eph.clock_bias, eph.clock_drift, eph.clock_drift_rate);
    ensure!(got == (clk[0].val, clk[1].val, drr), "clock", "{:?} instead of {:?}", got, (clk[0].val, clk[1].val, drr));
    ensure!(eph.sv_clock() == got, "clock", "{:?} instead of {:?}", eph.sv_clock(), got);
    for ((name, kind), w) in t.iter().zip(words) {
        check_word(eph, f.sys, name, *kind, w)?;
    }
    for k in eph.orbits.keys() {
        let known = t.iter().any(|(n, kind)| n == k && *kind != Kind::X) || (f.sys == 'S' && k == "week");
        ensure!(known, "invented", "field {:?} is not part of a {} {} frame", k, f.sys, f.msg);
    }
    Ok(())
}

fn decode(g: &mut Gen, majors: &[u8]) -> Res {
    let major = g.pickc(majors);
    let minor = match major {
        2 => g.pickc(&[0u8, 10, 11]),
        3 => g.pickc(&[0u8, 1, 2, 3, 4]),
        _ => 0,
    };
    let st = NumStyle::gen(g, major);
    let system = match major {
        2 => g.pickc(&['G', 'R']),
        _ => *g.pick(&['M', 'M', 'M', 'G', 'R', 'E', 'C', 'J', 'S']),
    };
    let max = if g.below(200) == 199 { 120 } else { 8 };
    let n = g.usize(1, max);
    let mut frames: Vec<Frame> = vec![];
    for _ in 0..n {
        let sys = if system == 'M' { g.pickc(SYSTEMS) } else { system };
        let mut f = eph_frame(g, major, sys, st);
        if !frames.is_empty() && g.chance(1, 3) {
            // same satellite, or same date, as a previous frame
            let p = g.pick(&frames).clone();
            if p.sys == f.sys && g.bool() {
                f.prn = p.prn;
            }
            if g.bool() {
                f.toc = p.toc;
            }
        }
        frames.push(f);
    }
    dedup(&mut frames);
    let mut file = NavFile { major, minor, system, frames, extra: vec![] };
    if g.chance(1, 5) {
        file.extra.push(hline("    18", "LEAP SECONDS"));
    }
    g.text = file.text(g);
    let blanks = file.frames.iter().any(|f| match &f.body {
        Body::Eph { words, .. } => words.iter().any(|w| w.is_none()),
        _ => false,
    });
    g.nontrivial = file.frames.len() > 1;
    g.label_if(blanks, "blank fields");
    g.label_if(st.letter != 'E', "exponent other than E");
    g.label_if(st.form > 0, "no leading digit");
    for f in &file.frames {
        g.label(match f.sys {
            'G' => "GPS",
            'R' => "Glonass",
            'E' => "Galileo",
            'C' => "BeiDou",
            'J' => "QZSS",
            _ => "SBAS",
        });
    }
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let rec = match rnx.record.as_nav() {
        Some(r) => r,
        None => return fail("record-type", "not a navigation record"),
    };
    for f in &file.frames {
        let k = key(f);
        let fr = match rec.get(&k) {
            Some(NavFrame::EPH(e)) => e,
            x => return fail("missing", format!("frame {:?} decoded as {:?}; {:?} in the record", k, x, rec.keys().collect::<Vec<_>>())),
        };
        check_eph(f, major, fr)?;
    }
    ensure!(rec.len() == file.frames.len(), "extra", "{} frames instead of {}", rec.len(), file.frames.len());
    for k in rec.keys() {
        ensure!(file.frames.iter().any(|f| same_epoch(f.epoch(), k.epoch)), "timescale", "{:?} is not a date of the file", k);
    }
    for f in &file.frames {
        if let Some(NavFrame::EPH(e)) = rec.get(&key(f)) {
            codes(f, major, e)?;
        }
    }
    Ok(())
}

fn v2(g: &mut Gen) -> Res {
    decode(g, &[2])
}
fn v3(g: &mut Gen) -> Res {
    decode(g, &[3])
}
fn v4(g: &mut Gen) -> Res {
    decode(g, &[4])
}

pub fn prop() -> Prop {
    Prop {
        id: "P04",
        parts: vec![
            Part { name: "v2", run: v2, quick: 60_000, thorough: 2_000_000 },
            Part { name: "v3", run: v3, quick: 80_000, thorough: 3_000_000 },
            Part { name: "v4", run: v4, quick: 80_000, thorough: 3_000_000 },
        ],
        rule: "navigation files of an independent writer built on its own frame tables: 1 to 8 frames of GPS, Glonass, Galileo, BeiDou, QZSS and SBAS (LNAV, FDMA, INAV, FNAV, D1, D2, CNAV, CNV1, CNV2, CNV3, SBAS messages), random words with D/E/d/e exponents and with or without a leading digit, blank and trimmed fields, comments, any header system; every word is looked up by name. Non-trivial with more than one frame.",
        assumptions: &["IRNSS frames are not generated: the library knows no timescale for them", "zero and absent health words are the same thing"],
    }
}
