//! P09: compression then decompression.
use crate::crx;
use crate::ensure;
use crate::gen::Gen;
use crate::obs::*;
use crate::props::p01::compare;
use crate::props::p08::CFG;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;

/// header without what a conversion is meant to change
fn stripped(h: &Header) -> Header {
    let mut h = h.clone();
    if let Some(obs) = h.obs.as_mut() {
        obs.crinex = None;
    }
    h.program = None;
    h
}

/// the conversions only change the compression and the program name
fn structure(g: &mut Gen, rnx: &Rinex) -> Res {
    let mut rnx = rnx.clone();
    let version = rnx.header.version.major;
    if let Some(obs) = rnx.header.obs.as_mut() {
        if g.bool() {
            obs.clock_offset_applied = true;
        }
        if g.bool() {
            let t = g.pick(&[obs.timeof_first_obs, obs.timeof_last_obs]).or(obs.timeof_first_obs);
            obs.timeof_first_obs = t;
            obs.timeof_last_obs = t;
        }
        if g.bool() {
            let codes: Vec<_> = obs.codes.iter().flat_map(|(c, l)| l.iter().map(move |o| (*c, o.clone()))).collect();
            if !codes.is_empty() {
                let (c, o) = g.pick(&codes).clone();
                obs.scaling.insert((c, o), g.pickc(&[1, 10, 100, 1000]));
            }
        }
    }
    if version < 3 && g.chance(1, 8) {
        rnx.header.version.major = 1;
    }
    let crnx = rnx.rnx2crnx();
    let crinex = crnx.header.obs.as_ref().and_then(|o| o.crinex.clone());
    let want = if version < 3 { 1 } else { 3 };
    ensure!(crinex.as_ref().map(|c| c.version.major) == Some(want), "structure", "{:?} for RINEX {}", crinex, rnx.header.version);
    for (what, x) in [("rnx2crnx", crnx.clone()), ("crnx2rnx", crnx.crnx2rnx()), ("crnx2rnx of a plain file", rnx.crnx2rnx())] {
        ensure!(stripped(&x.header) == stripped(&rnx.header), "structure", "{} changes the header: {:?}\ninstead of {:?}", what, x.header, rnx.header);
        ensure!(x.record == rnx.record && x.comments == rnx.comments, "structure", "{} changes the data", what);
        ensure!(x.header.is_crinex() == (what == "rnx2crnx"), "structure", "{} is a CRINEX: {}", what, x.header.is_crinex());
        let mut m = if what == "crnx2rnx" { crnx.clone() } else { rnx.clone() };
        if what == "rnx2crnx" {
            m.rnx2crnx_mut();
        } else {
            m.crnx2rnx_mut();
        }
        ensure!(stripped(&m.header) == stripped(&x.header) && m.record == x.record && m.header.is_crinex() == x.header.is_crinex(), "structure", "{}: in place and copying forms differ", what);
    }
    Ok(())
}

fn check(g: &mut Gen, rnx: &Rinex, f: &ObsFile) -> Res {
    structure(g, rnx)?;
    let crnx = rnx.rnx2crnx();
    ensure!(crnx.header.is_crinex(), "structure", "not a CRINEX after rnx2crnx");
    ensure!(crnx.record == rnx.record, "structure", "rnx2crnx alters the record");
    let mut m = rnx.clone();
    m.rnx2crnx_mut();
    ensure!(m.record == rnx.record && m.header.is_crinex(), "structure", "rnx2crnx_mut alters the record");
    let text = match format_text(&crnx) {
        Ok(t) => t,
        Err(e) => return fail("format-error", format!("formatting the CRINEX fails: {}", e)),
    };
    g.text = text.clone();
    // independent decoder
    match crx::decode(&text, f) {
        Err(e) => return fail("not-crinex", format!("written CRINEX is not valid: {}", e)),
        Ok(epochs) => {
            ensure!(epochs.len() == f.epochs.len(), "reference", "{} epochs instead of {}", epochs.len(), f.epochs.len());
            for (a, b) in epochs.iter().zip(f.epochs.iter()) {
                ensure!(a.t.ticks() == b.t.ticks() && a.flag == b.flag, "reference", "epoch {:?} {} instead of {:?} {}", a.t, a.flag, b.t, b.flag);
                ensure!(a.clock == b.clock, "reference", "{:?}: clock offset {:?} instead of {:?}", b.t, a.clock, b.clock);
                let (mut x, mut y) = (a.sats.clone(), b.sats.clone());
                x.sort_by(|a, b| a.name.cmp(&b.name));
                y.sort_by(|a, b| a.name.cmp(&b.name));
                for (p, q) in x.iter().zip(y.iter()) {
                    ensure!(p == q, "reference", "{:?}: {:?} instead of {:?}", b.t, p, q);
                }
                ensure!(x.len() == y.len(), "reference", "{:?}: {} satellites instead of {}", b.t, x.len(), y.len());
            }
        },
    }
    let back = match parse_text(&text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("written CRINEX rejected: {:?}", e)),
    };
    ensure!(back.header.is_crinex(), "header", "written CRINEX is not identified as such");
    compare(&back, f, 0.0)?;
    // back to plain RINEX
    let plain = back.crnx2rnx();
    ensure!(!plain.header.is_crinex(), "header", "still a CRINEX after crnx2rnx");
    ensure!(plain.record == back.record, "structure", "crnx2rnx alters the record");
    let (a, b) = (plain.header.obs.as_ref().unwrap(), rnx.header.obs.as_ref().unwrap());
    for (c, l) in &b.codes {
        ensure!(a.codes.get(c) == Some(l), "header", "{}: observables {:?} instead of {:?}", c, a.codes.get(c), l);
    }
    ensure!(plain.header.version == rnx.header.version, "header", "version {:?}", plain.header.version);
    ensure!(plain.header.constellation == rnx.header.constellation, "header", "constellation {:?}", plain.header.constellation);
    ensure!(
        a.timeof_first_obs.is_some() == b.timeof_first_obs.is_some(),
        "header",
        "first epoch {:?} instead of {:?}",
        a.timeof_first_obs,
        b.timeof_first_obs
    );
    let text = match format_text(&plain) {
        Ok(t) => t,
        Err(e) => return fail("format-error", format!("formatting the plain RINEX fails: {}", e)),
    };
    ensure!(!text.contains("CRINEX"), "header", "CRINEX lines remain after crnx2rnx");
    match parse_text(&text) {
        Ok(r) => compare(&r, f, 0.0),
        Err(e) => fail("rejected", format!("plain RINEX rejected: {:?}", e)),
    }
}

fn built(g: &mut Gen) -> Res {
    let mut f = obs_file(g, &ObsCfg { events: false, ..CFG });
    crx::evolve(g, &mut f);
    let f = normalised(&f);
    f.classify(g);
    let rnx = to_rinex(g, &f, true);
    check(g, &rnx, &f)
}

fn reread(g: &mut Gen) -> Res {
    let mut f = obs_file(g, &CFG);
    crx::evolve(g, &mut f);
    let st = Style::gen(g);
    g.text = f.text(&st);
    f.classify(g);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    check(g, &rnx, &normalised(&f))
}

pub fn prop() -> Prop {
    Prop {
        id: "P09",
        parts: vec![
            Part { name: "built", run: built, quick: 60_000, thorough: 1_200_000 },
            Part { name: "reread", run: reread, quick: 40_000, thorough: 800_000 },
        ],
        rule: "built: data sets assembled through the public types, converted to CRINEX, formatted, decoded by an independent CRINEX decoder and by the library, converted back to plain RINEX, formatted and parsed; reread: the same from parsed files. Non-trivial when more than one observation is present.",
        assumptions: &["values fit F14.3 and are non-zero, clock offsets fit the field", "epochs of a given instant and flag are unique"],
    }
}
