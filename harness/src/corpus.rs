//! A well-formed file of any type: the common input of the properties that hold for every format.
use crate::crx::{encode, evolve, CrxStyle};
use crate::gen::*;
use crate::nav::*;
use crate::obs::{obs_file, Style, DEFAULT_CFG};
use crate::props::p04::dedup;
use crate::props::p05::sys_frame;

pub const KINDS: [char; 8] = ['O', 'X', 'M', 'N', 'C', 'I', 'A', 'D'];

pub struct Doc {
    pub kind: char,
    pub text: String,
}

pub fn nav_file(g: &mut Gen, max: usize) -> NavFile {
    let major = g.pickc(&[2u8, 3, 3, 4, 4]);
    let minor = match major {
        2 => g.pickc(&[0u8, 10, 11]),
        3 => g.pickc(&[0u8, 2, 4]),
        _ => 0,
    };
    let st = NumStyle::gen(g, major);
    let system = if major == 2 { g.pickc(&['G', 'R']) } else { g.pickc(&['M', 'M', 'G', 'R', 'E', 'C']) };
    let mut frames = vec![];
    for _ in 0..g.usize(1, max) {
        let sys = if system == 'M' { g.pickc(SYSTEMS) } else { system };
        frames.push(if major == 4 && g.chance(1, 3) { sys_frame(g, st) } else { eph_frame(g, major, sys, st) });
    }
    dedup(&mut frames);
    NavFile { major, minor, system, frames, extra: vec![] }
}

pub fn doc(g: &mut Gen, kinds: &[char], size: usize) -> Doc {
    doc_cfg(g, kinds, size, true)
}

pub fn doc_cfg(g: &mut Gen, kinds: &[char], size: usize, events: bool) -> Doc {
    let kind = g.pickc(kinds);
    let text = match kind {
        'O' => {
            let mut cfg = DEFAULT_CFG;
            cfg.max_epochs = size.max(1);
            cfg.events &= events;
            let f = obs_file(g, &cfg);
            f.text(&Style::gen(g))
        },
        'X' => {
            let mut cfg = crate::props::p08::CFG;
            cfg.max_epochs = size.max(1);
            cfg.events &= events;
            let mut f = obs_file(g, &cfg);
            evolve(g, &mut f);
            let st = CrxStyle::gen(g);
            encode(g, &f, &st)
        },
        'M' => {
            let f = crate::met::met_file(g, size);
            f.text(g.below(3), g.chance(1, 4), !g.chance(1, 4))
        },
        'N' => nav_file(g, size).text(g),
        'C' => crate::clk::clk_file(g, size * 2).text(g),
        'I' => crate::inx::inx_file(g, (size / 2).max(1)).text(g),
        'A' => crate::props::p15::atx_text(g),
        _ => {
            let f = crate::props::p16::dor_file(g);
            let trim = g.bool();
            f.text(trim, g.below(3) as u8)
        },
    };
    g.label(match kind {
        'O' => "observation",
        'X' => "CRINEX",
        'M' => "meteo",
        'N' => "navigation",
        'C' => "clock",
        'I' => "IONEX",
        'A' => "ANTEX",
        _ => "DORIS",
    });
    Doc { kind, text }
}
