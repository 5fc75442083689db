//! P11: header round trip and decode.
use crate::ensure;
use crate::gen::Gen;
use crate::hdr::*;
use crate::obs::constellation;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::io::{BufReader, BufWriter};
use std::str::FromStr;

pub fn write(h: &Header) -> Result<String, String> {
    let mut w = BufWriter::new(Vec::<u8>::new());
    h.format(&mut w).map_err(|e| format!("{:?}", e))?;
    String::from_utf8(w.into_inner().map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}

fn read(s: &str) -> Result<Header, String> {
    Header::parse(&mut BufReader::new(s.as_bytes())).map_err(|e| format!("{:?}", e))
}

macro_rules! same {
    ($a:expr, $b:expr, $what:expr) => {
        ensure!($a == $b, $what, "{}: {:?} instead of {:?}", $what, $a, $b)
    };
}

pub fn compare(got: &Header, f: &Hdr) -> Res {
    let want = f.to_header();
    same!(got.version, want.version, "version");
    same!(got.rinex_type, want.rinex_type, "type");
    same!(got.constellation, want.constellation, "constellation");
    same!(got.program, want.program, "program");
    same!(got.run_by, want.run_by, "operator");
    same!(got.date, want.date, "date");
    same!(got.observer, want.observer, "observer");
    same!(got.agency, want.agency, "agency");
    same!(got.geodetic_marker, want.geodetic_marker, "marker");
    same!(got.rcvr, want.rcvr, "receiver");
    match (&got.rcvr_antenna, &want.rcvr_antenna) {
        (Some(a), Some(b)) => {
            same!(a.model, b.model, "antenna");
            same!(a.sn, b.sn, "antenna");
            same!(a.coords, b.coords, "antenna");
            // a null eccentricity is written when unknown
            same!(a.height.unwrap_or(0.0), b.height.unwrap_or(0.0), "antenna");
            same!(a.eastern.unwrap_or(0.0), b.eastern.unwrap_or(0.0), "antenna");
            same!(a.northern.unwrap_or(0.0), b.northern.unwrap_or(0.0), "antenna");
        },
        (a, b) => ensure!(a.is_none() && b.is_none(), "antenna", "antenna: {:?} instead of {:?}", a, b),
    }
    same!(got.rx_position, want.rx_position, "position");
    same!(got.leap, want.leap, "leap");
    same!(got.sampling_interval, want.sampling_interval, "interval");
    same!(got.glo_channels, want.glo_channels, "glonass-channels");
    match (&got.obs, &want.obs) {
        (Some(a), Some(b)) => {
            for (c, l) in &b.codes {
                ensure!(a.codes.get(c) == Some(l), "observables", "{}: observables {:?} instead of {:?}", c, a.codes.get(c), l);
            }
            if !(f.major == 2 && f.system == 'M') {
                same!(a.codes.len(), b.codes.len(), "observables");
            }
            for (x, y, w) in [(a.timeof_first_obs, b.timeof_first_obs, "first-epoch"), (a.timeof_last_obs, b.timeof_last_obs, "last-epoch")] {
                match (x, y) {
                    (Some(x), Some(y)) => ensure!(same_epoch(x, y), w, "{}: {:?} {:?} instead of {:?} {:?}", w, x, x.time_scale, y, y.time_scale),
                    (x, y) => ensure!(x.is_none() && y.is_none(), w, "{}: {:?} instead of {:?}", w, x, y),
                }
            }
            same!(a.crinex, b.crinex, "crinex");
            same!(a.clock_offset_applied, b.clock_offset_applied, "clock-applied");
            same!(a.scaling, b.scaling, "scaling");
        },
        (a, b) => ensure!(a.is_none() && b.is_none(), "obs-fields", "{:?} instead of {:?}", a, b),
    }
    match (&got.meteo, &want.meteo) {
        (Some(a), Some(b)) => {
            same!(a.codes, b.codes, "observables");
            same!(a.sensors, b.sensors, "sensors");
        },
        (a, b) => ensure!(a.is_none() && b.is_none(), "meteo-fields", "{:?} instead of {:?}", a, b),
    }
    Ok(())
}

fn comments(got: &Header, f: &Hdr) -> Res {
    let want: Vec<String> = f.comments.iter().map(|c| c.trim().to_string()).collect();
    same!(got.comments, want, "comments");
    Ok(())
}

fn roundtrip(g: &mut Gen) -> Res {
    let f = header(g, &['O', 'O', 'M', 'N'], 60);
    f.classify(g);
    let h = f.to_header();
    g.text = match write(&h) {
        Ok(t) => t,
        Err(e) => return fail("format-error", e),
    };
    let got = match read(&g.text) {
        Ok(h) => h,
        Err(e) => return fail("rejected", format!("written header rejected: {}", e)),
    };
    compare(&got, &f)?;
    comments(&got, &f)?;
    let again = write(&got).unwrap_or_default();
    // comments are trimmed once; observables are listed per system in an unspecified order
    if f.comments.iter().all(|c| c.trim() == c) && f.codes.len() <= 1 && !(f.system == 'M' && f.major == 2) {
        ensure!(again == g.text, "unstable", "{:?}", again.lines().zip(g.text.lines()).find(|(a, b)| a != b));
    }
    Ok(())
}

fn decode(g: &mut Gen) -> Res {
    let f = header(g, &['O', 'O', 'M', 'N'], 60);
    f.classify(g);
    g.text = f.text(g);
    let got = match read(&g.text) {
        Ok(h) => h,
        Err(e) => return fail("rejected", format!("well-formed header rejected: {}", e)),
    };
    compare(&got, &f)?;
    // lines that are only read
    let text = |s: &String| if s.is_empty() { None } else { Some(s.clone()) };
    same!(got.doi, text(&f.doi), "doi");
    same!(got.license, text(&f.license), "license");
    same!(got.station_url, text(&f.station), "station-information");
    let name = |s: &String| if s.is_empty() { "Unknown".to_string() } else { s.clone() };
    let got_dcb: Vec<_> = got.dcb_compensations.iter().map(|x| (x.constellation, x.program.clone(), x.url.clone())).collect();
    let want: Vec<_> = f.dcb.iter().map(|(c, a, b)| (constellation(*c), name(a), name(b))).collect();
    same!(got_dcb, want, "dcb");
    let got_pcv: Vec<_> = got.pcv_compensations.iter().map(|x| (x.constellation, x.program.clone(), x.url.clone())).collect();
    let want: Vec<_> = f.pcv.iter().map(|(c, a, b)| (constellation(*c), name(a), name(b))).collect();
    same!(got_pcv, want, "pcv");
    comments(&got, &f)?;
    let rnx = Rinex::basic_obs().with_header(got);
    for s in ['G', 'R', 'E', 'C', 'J', 'S', 'I'] {
        let c = constellation(s);
        same!(rnx.dcb_compensation(c), f.dcb.iter().any(|x| x.0 == s), "dcb");
        same!(rnx.pcv_compensation(c), f.pcv.iter().any(|x| x.0 == s), "pcv");
    }
    Ok(())
}

/// the two lines of the compression, alone and in a header
fn crinex(g: &mut Gen) -> Res {
    let t = Civil::gen(g, (2000, 2099), false);
    let date = Epoch::maybe_from_gregorian_utc(t.y, t.mo, t.d, t.h, t.mi, 0, 0).unwrap();
    let prog = g.string(b"ABCDEFGHJKLMNPQRSTUVWXYZ abcdefghijk0123456789-_./:#", 0, 20).trim().to_string();
    let major = g.pickc(&[1u8, 3]);
    let c = CRINEX::default().with_version(Version::new(major, 0)).with_prog(&prog).with_date(date);
    g.nontrivial = true;
    let mut w = BufWriter::new(Vec::new());
    c.format(&mut w).unwrap();
    let text = String::from_utf8(w.into_inner().unwrap()).unwrap();
    g.text = text.clone();
    let month = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][t.mo as usize - 1];
    let want = format!(
        "{:<20}{:<20}{:<20}CRINEX VERS   / TYPE\n{:<20}{:<20}{:<20}CRINEX PROG / DATE\n",
        format!("{}.0", major),
        "COMPACT RINEX FORMAT",
        "",
        prog,
        "",
        format!("{:02}-{}-{:02} {:02}:{:02}", t.d, month, t.y % 100, t.h, t.mi)
    );
    ensure!(text == want, "crinex-format", "{:?} instead of {:?}", text, want);
    // written by others: any case of the revision, blanks, program on any width
    let lines: Vec<&str> = text.lines().collect();
    let mut out = format!("{}\n{}", lines[0], if g.bool() { lines[1].trim_end() } else { lines[1] });
    if g.bool() {
        out.push('\n');
    }
    match CRINEX::from_str(&out) {
        Ok(d) => ensure!(d == c, "crinex-parse", "{:?} instead of {:?}", d, c),
        Err(e) => return fail("crinex-parse", format!("{:?} rejected: {:?}", out, e)),
    }
    let cut = g.usize(1, 59);
    let bad = format!("{}\n{}", lines[0], &lines[1][..cut]);
    ensure!(CRINEX::from_str(&bad).is_err(), "crinex-short", "{:?} accepted", bad);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P11",
        parts: vec![
            Part { name: "roundtrip", run: roundtrip, quick: 200_000, thorough: 5_000_000 },
            Part { name: "decode", run: decode, quick: 200_000, thorough: 5_000_000 },
            Part { name: "crinex", run: crinex, quick: 100_000, thorough: 1_000_000 },
        ],
        rule: "roundtrip: observation, meteo and navigation headers with any subset of the fields, formatted and parsed back; decode: the same headers written by an independent writer with optional lines in random order; crinex: the two lines of the compression, compared with the format to the column and read back. Non-trivial when it has comments or observables.",
        assumptions: &[
            "text fields have no leading or trailing blanks; coordinates are below 1e7 m",
            "unknown antenna eccentricities are written as zeros",
            "the formatter writes no license, DOI, station information and compensation lines: these are only decoded",
            "scale factors are decoded as declared: the library leaves them to the user, the values of the record are those of the file",
        ],
    }
}
