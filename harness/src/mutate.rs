//! Faults injected in a well-formed text.
use crate::gen::*;

pub const LABELS: &[&str] = &[
    "RINEX VERSION / TYPE", "PGM / RUN BY / DATE", "COMMENT", "MARKER NAME", "MARKER NUMBER", "MARKER TYPE", "OBSERVER / AGENCY",
    "REC # / TYPE / VERS", "ANT # / TYPE", "APPROX POSITION XYZ", "ANTENNA: DELTA H/E/N", "ANTENNA: DELTA X/Y/Z", "SYS / # / OBS TYPES",
    "# / TYPES OF OBSERV", "SIGNAL STRENGTH UNIT", "INTERVAL", "TIME OF FIRST OBS", "TIME OF LAST OBS", "RCV CLOCK OFFS APPL",
    "SYS / DCBS APPLIED", "SYS / PCVS APPLIED", "SYS / SCALE FACTOR", "SYS / PHASE SHIFT", "GLONASS SLOT / FRQ #", "GLONASS COD/PHS/BIS",
    "LEAP SECONDS", "# OF SATELLITES", "PRN / # OF OBS", "END OF HEADER", "WAVELENGTH FACT L1/2", "CRINEX VERS   / TYPE", "CRINEX PROG / DATE",
    "ION ALPHA", "ION BETA", "IONOSPHERIC CORR", "TIME SYSTEM CORR", "DELTA-UTC: A0,A1,T,W", "SENSOR MOD/TYPE/ACC", "SENSOR POS XYZ/H",
    "# / TYPES OF DATA", "ANALYSIS CENTER", "TIME SYSTEM ID", "# OF SOLN STA / TRF", "SOLN STA NAME / NUM", "# OF SOLN SATS", "PRN LIST",
    "STATION NAME / NUM", "STATION CLK REF", "# OF CLK REF", "ANALYSIS CLK REF", "IONEX VERSION / TYPE", "EPOCH OF FIRST MAP", "EPOCH OF LAST MAP",
    "# OF MAPS IN FILE", "MAPPING FUNCTION", "ELEVATION CUTOFF", "OBSERVABLES USED", "# OF STATIONS", "BASE RADIUS", "MAP DIMENSION",
    "HGT1 / HGT2 / DHGT", "LAT1 / LAT2 / DLAT", "LON1 / LON2 / DLON", "EXPONENT", "START OF AUX DATA", "END OF AUX DATA", "PRN / BIAS / RMS",
    "STATION / BIAS / RMS", "START OF TEC MAP", "END OF TEC MAP", "START OF RMS MAP", "END OF RMS MAP", "START OF HEIGHT MAP", "END OF HEIGHT MAP",
    "EPOCH OF CURRENT MAP", "LAT/LON1/LON2/DLON/H", "END OF FILE", "ANTEX VERSION / SYST", "PCV TYPE / REFANT", "START OF ANTENNA",
    "TYPE / SERIAL NO", "METH / BY / # / DATE", "DAZI", "ZEN1 / ZEN2 / DZEN", "# OF FREQUENCIES", "VALID FROM", "VALID UNTIL", "SINEX CODE",
    "START OF FREQUENCY", "NORTH / EAST / UP", "END OF FREQUENCY", "START OF FREQ RMS", "END OF FREQ RMS", "END OF ANTENNA", "SATELLITE NAME",
    "COSPAR NUMBER", "L2 / L1 DATE OFFSET", "STATION REFERENCE", "# TIME REF STATIONS", "TIME REF STATION", "TIME REF STAT DATE", "LICENSE OF USE",
    "DOI", "STATION INFORMATION", "MERGED FILE",
];

const NUMBERS: &[&str] = &[
    "0", "-1", "1", "99", "255", "256", "65536", "999999999999999999999999", "-9223372036854775808", "9223372036854775807", "1E308", "-1E309", "1D400", "NaN",
    "inf", "-", "+", ".", "", "e", "0.0000001", "1e-400", "00", "12.34.56", "4294967296", "-0", "3.05", "4.00", "1.9", "2-1",
];

const CHARS: &[&str] = &["é", "\u{3b1}", "𝛑", "\u{0}", "\t", "\r", "\u{7f}", "&", ">", "!", " ", "G", "R", "S", "M", "*", "-", ".", "9", "0", "D", "E", "\u{feff}", "\u{a0}"];

fn column(g: &mut Gen, len: usize) -> usize {
    if g.bool() {
        g.pickc(&[0usize, 1, 2, 3, 4, 5, 6, 8, 9, 10, 16, 19, 20, 21, 23, 26, 29, 32, 35, 40, 41, 42, 56, 59, 60, 61, 65, 68, 70, 79, 80]).min(len)
    } else {
        g.usize(0, len)
    }
}

/// one fault; `other` gives foreign lines
pub fn fault(g: &mut Gen, lines: &mut Vec<Vec<u8>>, other: &[Vec<u8>]) {
    if lines.is_empty() {
        lines.push(vec![]);
    }
    let n = lines.len();
    // lines of the header as often as those of the body
    let i = if g.chance(1, 3) { g.usize(0, n.min(30) - 1) } else { g.usize(0, n - 1) };
    match g.below(16) {
        0 => {
            lines.remove(i);
        },
        1 => {
            let l = lines[i].clone();
            lines.insert(i, l);
        },
        2 => {
            let j = g.usize(0, n - 1);
            lines.swap(i, j);
        },
        3 => {
            // foreign line
            if !other.is_empty() {
                let l = g.pick(other).clone();
                if g.bool() {
                    lines[i] = l;
                } else {
                    lines.insert(i, l);
                }
            }
        },
        4 => {
            // end of file
            let c = column(g, lines[i].len());
            lines[i].truncate(c);
            lines.truncate(i + 1);
        },
        5 | 6 => {
            let c = column(g, lines[i].len());
            lines[i].truncate(c);
        },
        7 => {
            // columns removed
            let (a, k) = (column(g, lines[i].len()), g.usize(1, 20));
            let b = (a + k).min(lines[i].len());
            lines[i].drain(a..b);
        },
        8 => {
            // columns added
            let c = column(g, lines[i].len());
            let s = if g.bool() { g.pickc(CHARS).to_string() } else { g.string(b" 0123456789.-ABCDEGLRSXZ&", 1, 30) };
            for (k, b) in s.bytes().enumerate() {
                lines[i].insert(c + k, b);
            }
        },
        9 | 10 => {
            // other character in the same column
            if !lines[i].is_empty() {
                let k = lines[i].len() - 1;
                let c = column(g, k);
                if g.chance(1, 8) {
                    lines[i][c] = g.range(128, 255) as u8;
                } else {
                    let s = g.pickc(CHARS).as_bytes();
                    let e = (c + s.len()).min(lines[i].len());
                    lines[i].splice(c..e, s.iter().cloned());
                }
            }
        },
        11 | 12 => {
            // other word
            let l = &lines[i];
            let mut words = vec![];
            let mut a = None;
            for k in 0..=l.len() {
                match (a, k < l.len() && l[k] != b' ') {
                    (None, true) => a = Some(k),
                    (Some(s), false) => {
                        words.push((s, k));
                        a = None;
                    },
                    _ => (),
                }
            }
            if !words.is_empty() {
                let (a, b) = *g.pick(&words);
                let w = if g.chance(3, 4) { g.pickc(NUMBERS).to_string() } else { g.string(b"0123456789.-+DEAGRLCS", 1, 19) };
                // within the columns, or pushing what follows
                let w = if g.bool() { format!("{:>1$}", w, b - a) } else { w };
                let keep = g.bool() && w.len() > b - a;
                let a = if keep { a.saturating_sub(w.len() - (b - a)) } else { a };
                lines[i].splice(a..b, w.bytes());
            }
        },
        13 => {
            // other label
            let l = g.pickc(LABELS);
            lines[i].resize(60, b' ');
            lines[i].extend_from_slice(l.as_bytes());
        },
        14 => {
            let k = g.usize(1, 12);
            let m = (i + k).min(n);
            lines.drain(i..m);
        },
        _ => {
            let k = g.usize(0, 120);
            let b = (0..k).map(|_| if g.chance(1, 6) { g.below(256) as u8 } else { g.range(32, 126) as u8 }).collect();
            lines[i] = b;
        },
    }
}

pub fn split(t: &str) -> Vec<Vec<u8>> {
    t.lines().map(|l| l.as_bytes().to_vec()).collect()
}

pub fn join(g: &mut Gen, lines: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    let eol: &[u8] = if g.chance(1, 12) { b"\r\n" } else { b"\n" };
    for (i, l) in lines.iter().enumerate() {
        o.extend_from_slice(l);
        if i + 1 < lines.len() || g.chance(3, 4) {
            o.extend_from_slice(eol);
        }
    }
    o
}
