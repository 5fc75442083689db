//! P05: RINEX 4 system messages, ionosphere models of RINEX 2 and 3 headers.
use crate::ensure;
use crate::gen::Gen;
use crate::nav::*;
use crate::obs::{max_prn, min_prn};
use crate::props::p04::{check_eph, dedup, key};
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::navigation::{IonosphereModel, KbModel, KbRegionCode, NavFrame};
use rinex::prelude::*;

pub fn sys_frame(g: &mut Gen, st: NumStyle) -> Frame {
    let (sys, msg, body) = match g.below(7) {
        0 | 1 => {
            let (sys, msg) = g.pickc(&[('G', "LNAV"), ('G', "CNVX"), ('J', "LNAV"), ('J', "CNVX"), ('C', "D1D2"), ('R', "LNAV")]);
            let region = match g.below(3) {
                0 => None,
                1 => Some(num(0.0, st)),
                _ => Some(num(1.0, st)),
            };
            (sys, msg, Body::Kb { alpha: words4(g, st), beta: words4(g, st), region })
        },
        2 => ('E', "IFNV", Body::Ng { a: words3(g, st), flags: num(g.range(0, 31) as f64, st) }),
        3 => ('C', "CNVX", Body::Bdgim { alpha: (0..9).map(|_| num(any_f64(g), st)).collect() }),
        4 | 5 => {
            let (sys, msg) = g.pickc(&[('G', "LNAV"), ('G', "CNVX"), ('E', "IFNV"), ('C', "D1D2"), ('C', "CNVX"), ('R', "FDMA"), ('J', "LNAV"), ('S', "SBAS")]);
            let system = g.pickc(&["GPUT", "GAUT", "GLUT", "BDUT", "QZUT", "SBUT", "GPGA", "GLGP", "BDGP", "QZGP", "BDGA"]).to_string();
            let utc = g.pickc(&["UTC(USNO)", "UTC(SU)", "UTCGAL", "UTC(NTSC)", "UTC(NICT)", "UTC(BIPM)", ""]).to_string();
            let t_tm = num(g.range(0, 604_799) as f64, st);
            (sys, msg, Body::Sto { system, utc, a: words3(g, st), t_tm })
        },
        _ => {
            let (sys, msg) = g.pickc(&[('G', "CNVX"), ('J', "CNVX"), ('C', "CNVX")]);
            let t_tm = num(g.range(0, 604_799) as f64, st);
            (sys, msg, Body::Eop { x: words3(g, st), y: words3(g, st), t_tm, dut1: words3(g, st) })
        },
    };
    Frame { sys, prn: g.range(min_prn(sys), max_prn(sys)), msg, toc: toc(g, 4), body }
}

fn t3(v: &[Num]) -> (f64, f64, f64) {
    (v[0].val, v[1].val, v[2].val)
}
fn t4(v: &[Num]) -> (f64, f64, f64, f64) {
    (v[0].val, v[1].val, v[2].val, v[3].val)
}

fn check(f: &Frame, fr: &NavFrame) -> Res {
    match (&f.body, fr) {
        (Body::Eph { .. }, NavFrame::EPH(e)) => check_eph(f, 4, e),
        (Body::Kb { alpha, beta, region }, NavFrame::ION(IonosphereModel::Klobuchar(m))) => {
            ensure!(m.alpha == t4(alpha), "klobuchar", "alpha {:?} instead of {:?}", m.alpha, t4(alpha));
            ensure!(m.beta == t4(beta), "klobuchar", "beta {:?} instead of {:?}", m.beta, t4(beta));
            let want = match region {
                Some(r) if r.val == 1.0 => KbRegionCode::Japan,
                _ => KbRegionCode::Worldwide,
            };
            ensure!(m.region == want, "region", "{:?} instead of {:?}", m.region, want);
            Ok(())
        },
        (Body::Ng { a, flags }, NavFrame::ION(IonosphereModel::NequickG(m))) => {
            ensure!(m.a == t3(a), "nequick", "{:?} instead of {:?}", m.a, t3(a));
            ensure!(m.region.bits() as f64 == flags.val, "region", "{:?} instead of {}", m.region, flags.val);
            Ok(())
        },
        (Body::Bdgim { alpha }, NavFrame::ION(IonosphereModel::Bdgim(m))) => {
            let a = m.alpha;
            let got = [a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8];
            let want: Vec<f64> = alpha.iter().map(|n| n.val).collect();
            ensure!(got[..] == want[..], "bdgim", "{:?} instead of {:?}", got, want);
            Ok(())
        },
        (Body::Sto { system, utc, a, t_tm }, NavFrame::STO(m)) => {
            ensure!(m.system == *system && m.utc == *utc, "sto-system", "{:?} {:?} instead of {:?} {:?}", m.system, m.utc, system, utc);
            if m.a == t3(a) && m.t_tm as f64 == t_tm.val {
                return Ok(());
            }
            // transmission time is read as if it came last
            ensure!(
                m.a == (t_tm.val, a[0].val, a[1].val) && m.t_tm == a[2].val as u32,
                "sto-values",
                "{:?} {} instead of {:?} {}",
                m.a,
                m.t_tm,
                t3(a),
                t_tm.val
            );
            fail("sto-order", format!("{:?} {} instead of {:?} {}", m.a, m.t_tm, t3(a), t_tm.val))
        },
        (Body::Eop { x, y, t_tm, dut1 }, NavFrame::EOP(m)) => {
            ensure!(m.x == t3(x), "eop", "x {:?} instead of {:?}", m.x, t3(x));
            ensure!(m.y == t3(y), "eop", "y {:?} instead of {:?}", m.y, t3(y));
            ensure!(m.delta_ut1 == t3(dut1), "eop", "dUT1 {:?} instead of {:?}", m.delta_ut1, t3(dut1));
            ensure!(m.t_tm as f64 == t_tm.val, "eop", "t_tm {} instead of {}", m.t_tm, t_tm.val);
            Ok(())
        },
        _ => fail("kind", format!("{:?} decoded as {:?}", f, fr)),
    }
}

fn frames(g: &mut Gen) -> Res {
    let st = NumStyle::gen(g, 4);
    let max = if g.below(200) == 199 { 120 } else { 8 };
    let n = g.usize(1, max);
    let mut frames: Vec<Frame> = vec![];
    for _ in 0..n {
        let mut f = if g.chance(1, 4) {
            let sys = g.pickc(SYSTEMS);
            eph_frame(g, 4, sys, st)
        } else {
            sys_frame(g, st)
        };
        if !frames.is_empty() && g.chance(1, 3) {
            // same satellite and date: only the class differs
            let p = g.pick(&frames).clone();
            f.toc = p.toc;
            if p.sys == f.sys {
                f.prn = p.prn;
            }
        }
        frames.push(f);
    }
    dedup(&mut frames);
    let file = NavFile { major: 4, minor: 0, system: 'M', frames, extra: vec![] };
    g.text = file.text(g);
    g.nontrivial = file.frames.len() > 1;
    for f in &file.frames {
        g.label(match f.body {
            Body::Eph { .. } => "ephemeris",
            Body::Kb { .. } => "Klobuchar",
            Body::Ng { .. } => "NeQuick-G",
            Body::Bdgim { .. } => "BDGIM",
            Body::Sto { .. } => "time offset",
            Body::Eop { .. } => "Earth orientation",
        });
    }
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let rec = match rnx.record.as_nav() {
        Some(r) => r,
        None => return fail("record-type", "not a navigation record"),
    };
    let mut known = Ok(());
    for f in &file.frames {
        let k = key(f);
        match rec.get(&k) {
            Some(fr) => match check(f, fr) {
                Err(e) if e.sig == "sto-order" => known = Err(e),
                r => r?,
            },
            None => return fail("missing", format!("frame {:?} not decoded; {:?} in the record", k, rec.keys().collect::<Vec<_>>())),
        }
    }
    ensure!(rec.len() == file.frames.len(), "extra", "{} frames instead of {}", rec.len(), file.frames.len());
    for k in rec.keys() {
        ensure!(file.frames.iter().any(|f| same_epoch(f.epoch(), k.epoch)), "timescale", "{:?} is not a date of the file", k);
    }
    known
}

fn header(g: &mut Gen) -> Res {
    let major = g.pickc(&[2u8, 3]);
    let st = NumStyle::gen(g, major);
    let n12 = |g: &mut Gen| num12(any_f64(g), st);
    let mut lines: Vec<String> = vec![];
    let mut want: Vec<(Constellation, IonosphereModel)> = vec![];
    let zero = (0.0, 0.0, 0.0, 0.0);
    let trim = g.bool();
    let quad = |g: &mut Gen| [n12(g), n12(g), n12(g), n12(g)];
    let join = |v: &[Num]| v.iter().map(|n| n.text.clone()).collect::<String>();
    if major == 2 {
        let (a, b) = (g.chance(5, 6), g.chance(5, 6));
        let mut m = KbModel { alpha: zero, beta: zero, region: KbRegionCode::Worldwide };
        if a {
            let q = quad(g);
            m.alpha = t4(&q);
            lines.push(hline(&format!("  {}", join(&q)), "ION ALPHA"));
        }
        if b {
            let q = quad(g);
            m.beta = t4(&q);
            lines.push(hline(&format!("  {}", join(&q)), "ION BETA"));
        }
        if a || b {
            // the model applies to every system
            for c in [Constellation::GPS, Constellation::Glonass, Constellation::BeiDou, Constellation::Galileo, Constellation::QZSS] {
                want.push((c, IonosphereModel::Klobuchar(m)));
            }
        }
    } else {
        let systems = g.subset(&["GPS", "GAL", "BDS", "QZS", "IRN"], 5, false);
        for s in systems.iter() {
            let c = match *s {
                "GPS" => Constellation::GPS,
                "GAL" => Constellation::Galileo,
                "BDS" => Constellation::BeiDou,
                "QZS" => Constellation::QZSS,
                _ => Constellation::IRNSS,
            };
            if *s == "GAL" {
                let v = [n12(g), n12(g), n12(g)];
                let fourth = if g.bool() { num12(0.0, st).text } else { String::new() };
                lines.push(hline(&format!("GAL  {}{}", join(&v), fourth), "IONOSPHERIC CORR"));
                want.push((c, IonosphereModel::NequickG(rinex::navigation::NgModel { a: t3(&v), region: Default::default() })));
            } else {
                let (a, b) = (g.chance(5, 6), g.chance(5, 6));
                if !a && !b {
                    continue;
                }
                let mut m = KbModel { alpha: zero, beta: zero, region: if *s == "QZS" { KbRegionCode::Japan } else { KbRegionCode::Worldwide } };
                if a {
                    let q = quad(g);
                    m.alpha = t4(&q);
                    lines.push(hline(&format!("{}A {}", s, join(&q)), "IONOSPHERIC CORR"));
                }
                if b {
                    let q = quad(g);
                    m.beta = t4(&q);
                    lines.push(hline(&format!("{}B {}", s, join(&q)), "IONOSPHERIC CORR"));
                }
                want.push((c, IonosphereModel::Klobuchar(m)));
            }
        }
    }
    g.shuffle(&mut lines);
    g.label(if major == 2 { "ION ALPHA/BETA" } else { "IONOSPHERIC CORR" });
    g.nontrivial = lines.len() > 1;
    let extra = lines.into_iter().map(|l| if trim { l.trim_end().to_string() } else { l }).collect();
    let frames = if g.bool() { vec![eph_frame(g, major, 'G', st)] } else { vec![] };
    let file = NavFile { major, minor: if major == 2 { 11 } else { 4 }, system: if major == 2 { 'G' } else { 'M' }, frames, extra };
    g.text = file.text(g);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    for (c, m) in &want {
        let got = rnx.header.ionod_corrections.get(c);
        ensure!(got == Some(m), "header-model", "{:?}: {:?} instead of {:?}", c, got, m);
    }
    if major == 3 || want.is_empty() {
        ensure!(rnx.header.ionod_corrections.len() == want.len(), "header-extra", "{:?}", rnx.header.ionod_corrections);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P05",
        parts: vec![
            Part { name: "frames", run: frames, quick: 150_000, thorough: 5_000_000 },
            Part { name: "header", run: header, quick: 60_000, thorough: 1_500_000 },
        ],
        rule: "frames: RINEX 4 files of an independent writer mixing Klobuchar, NeQuick-G, BDGIM, time offset and Earth orientation frames with ephemerides, same satellite and date included, every coefficient compared; header: ION ALPHA/BETA and IONOSPHERIC CORR lines in any order, one half missing, trimmed. Non-trivial with more than one frame or line.",
        assumptions: &["time offset frames carry no SBAS identification", "IRNSS frames are not generated: the library knows no timescale for them"],
    }
}
