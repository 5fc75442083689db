//! P02: what is formatted reads back.
use crate::ensure;
use crate::gen::Gen;
use crate::obs::*;
use crate::props::p01::compare;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;

fn check(g: &mut Gen, rnx: &Rinex, f: &ObsFile) -> Res {
    let text = match format_text(rnx) {
        Ok(t) => t,
        Err(e) => return fail("format-error", format!("formatting fails: {}", e)),
    };
    g.text = text.clone();
    let back = match parse_text(&text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("written file rejected: {:?}", e)),
    };
    ensure!(back.header.version == rnx.header.version, "header", "version {:?}", back.header.version);
    ensure!(back.header.constellation == rnx.header.constellation, "header", "constellation {:?}", back.header.constellation);
    let (a, b) = (back.header.obs.as_ref().unwrap(), rnx.header.obs.as_ref().unwrap());
    for (c, l) in &b.codes {
        ensure!(a.codes.get(c) == Some(l), "header-codes", "{}: observables {:?} instead of {:?}", c, a.codes.get(c), l);
    }
    compare(&back, f, 0.0)?;
    match format_text(&back) {
        Ok(t) => {
            if t != text {
                let d = t.lines().zip(text.lines()).find(|(a, b)| a != b);
                return fail("unstable", format!("formatting the parsed result gives another text: {:?}", d));
            }
        },
        Err(e) => return fail("format-error", format!("formatting the parsed result fails: {}", e)),
    }
    Ok(())
}

fn built(g: &mut Gen) -> Res {
    let f = obs_file(g, &ObsCfg { events: false, ..DEFAULT_CFG });
    let mut f = normalised(&f);
    if g.chance(1, 10) {
        // nothing observed at this epoch
        let n = f.epochs.len();
        let i = g.usize(0, n - 1);
        f.epochs[i].sats.clear();
        g.label("epoch without satellites");
    }
    f.classify(g);
    let rnx = to_rinex(g, &f, true);
    check(g, &rnx, &f)
}

fn reread(g: &mut Gen) -> Res {
    let f = obs_file(g, &DEFAULT_CFG);
    let st = Style::gen(g);
    g.text = f.text(&st);
    f.classify(g);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    check(g, &rnx, &normalised(&f))
}

pub fn prop() -> Prop {
    Prop {
        id: "P02",
        parts: vec![
            Part { name: "built", run: built, quick: 100_000, thorough: 2_000_000 },
            Part { name: "reread", run: reread, quick: 60_000, thorough: 1_000_000 },
        ],
        rule: "built: data sets assembled through the public types (signals in any order, values off the millimetre grid by less than half a digit), formatted and parsed back; reread: files of an independent writer parsed, formatted and parsed back; the second text must equal the first. Non-trivial when more than one observation is present.",
        assumptions: &[
            "values round to a non-zero number of thousandths that fits F14.3, clock offsets fit the field and are non-zero",
            "satellites without any observation are not written",
            "epochs of a given instant and flag are unique",
        ],
    }
}
