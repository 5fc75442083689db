//! P10: Hatanaka numerical and text differencing.
use crate::ensure;
use crate::gen::Gen;
use crate::runner::{Part, Prop, Res};
use rinex::hatanaka::{NumDiff, TextDiff};

/// Published algorithm, computed from the whole history since the last initialisation:
/// the k-th sample after it is transmitted as its finite difference of order min(k, level).
fn reference(history: &[i64], level: usize) -> i64 {
    let k = history.len() - 1;
    let order = k.min(level);
    let mut d: Vec<i64> = history[k - order..].to_vec();
    while d.len() > 1 {
        d = d.windows(2).map(|w| w[1] - w[0]).collect();
    }
    d[0]
}

enum Nd {
    M3(NumDiff<3>),
    M4(NumDiff<4>),
    M5(NumDiff<5>),
    M6(NumDiff<6>),
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Nd::M3($x) => $e,
            Nd::M4($x) => $e,
            Nd::M5($x) => $e,
            Nd::M6($x) => $e,
        }
    };
}
impl Nd {
    fn new(m: usize, v: i64, l: usize) -> Self {
        match m {
            3 => Nd::M3(NumDiff::new(v, l)),
            4 => Nd::M4(NumDiff::new(v, l)),
            5 => Nd::M5(NumDiff::new(v, l)),
            _ => Nd::M6(NumDiff::new(v, l)),
        }
    }
    fn init(&mut self, v: i64, l: usize) {
        each!(self, x => x.force_init(v, l))
    }
    fn comp(&mut self, v: i64) -> i64 {
        each!(self, x => x.compress(v))
    }
    fn deco(&mut self, v: i64) -> i64 {
        each!(self, x => x.decompress(v))
    }
}

fn num(g: &mut Gen) -> Res {
    let m = g.usize(3, 6);
    let n = g.usize(1, 40);
    let mut level = g.usize(1, m);
    let smooth = g.bool();
    let mut v = g.int_digits(14, true);
    let mut speed = g.int_digits(8, true);
    let mut comp = Nd::new(m, v, level);
    let mut deco = Nd::new(m, v, level);
    let mut hist = vec![v];
    g.text = format!("NumDiff<{}> init({}, {})", m, v, level);
    let mut reinits = 0;
    let mut longest = 0;
    for i in 0..n {
        if smooth {
            speed += g.int_digits(4, true);
            v = (v + speed).clamp(-99_999_999_999_999, 99_999_999_999_999);
        } else {
            v = g.int_digits(14, true);
        }
        if g.chance(1, 12) {
            level = g.usize(1, m);
            comp.init(v, level);
            deco.init(v, level);
            hist = vec![v];
            reinits += 1;
            g.text += &format!("; init({}, {})", v, level);
            continue;
        }
        hist.push(v);
        longest = longest.max(hist.len());
        g.text += &format!("; {}", v);
        let c = comp.comp(v);
        let want = reference(&hist, level);
        ensure!(c == want, "num-compress", "sample {}: {} compressed (order {}) to {} instead of {}", i, v, level, c, want);
        let d = deco.deco(c);
        ensure!(d == v, "num-decompress", "sample {}: {} decompressed to {} instead of {} (order {})", i, c, d, v, level);
    }
    g.label_if(reinits > 0, "reinit");
    g.label_if(level == m, "order=M");
    g.nontrivial = longest > level + 1;
    Ok(())
}

fn text(g: &mut Gen) -> Res {
    let n = g.usize(1, 14);
    let alpha: &[u8] = if g.bool() { b" 0123456789GRE" } else { b"  1" };
    let grow = g.below(3);
    let start = g.string(alpha, 0, 24);
    let mut comp = TextDiff::new(&start);
    let mut deco = TextDiff::new(&start);
    let mut prev = start.clone();
    g.text = format!("TextDiff init({:?})", start);
    let (mut blanked, mut shrunk, mut grown) = (false, false, false);
    for _ in 0..n {
        let mut t: Vec<u8> = prev.clone().into_bytes();
        if g.chance(1, 5) {
            t = g.string(alpha, 0, 24).into_bytes();
        } else {
            if grow > 0 && g.chance(1, 3) {
                let more = g.string(alpha, 1, 8);
                t.extend(more.bytes());
            }
            if grow > 1 && g.chance(1, 3) && !t.is_empty() {
                let l = g.usize(0, t.len() - 1);
                t.truncate(l);
            }
            for _ in 0..g.usize(0, 4) {
                if !t.is_empty() {
                    let i = g.usize(0, t.len() - 1);
                    t[i] = g.pickc(alpha);
                }
            }
        }
        let t = String::from_utf8(t).unwrap();
        if g.chance(1, 12) {
            comp.force_init(&t);
            deco.force_init(&t);
            g.text += &format!("; init({:?})", t);
            prev = t;
            continue;
        }
        g.text += &format!("; {:?}", t);
        grown |= t.len() > prev.len();
        shrunk |= t.len() < prev.len();
        let c = comp.compress(&t).to_string();
        // a character identical to the previous text's is blank, a blanked one is an ampersand
        let (p, w, cb) = (prev.as_bytes(), t.as_bytes(), c.as_bytes());
        for i in 0..w.len().min(cb.len()) {
            let was = p.get(i).copied();
            let want = if was == Some(w[i]) { b' ' } else if w[i] == b' ' { b'&' } else { w[i] };
            ensure!(cb[i] == want, "text-compress", "{:?} -> {:?} compressed to {:?} (column {})", prev, t, c, i);
            blanked |= want == b'&';
        }
        let d = deco.decompress(&c).to_string();
        // the line based format cannot carry trailing blanks
        ensure!(
            d.trim_end() == t.trim_end(),
            "text-decompress",
            "{:?} -> {:?} compressed to {:?} recovered as {:?}",
            prev,
            t,
            c,
            d
        );
        ensure!(d.len() >= t.len(), "text-decompress-len", "{:?} recovered as {:?}", t, d);
        prev = t;
    }
    g.label_if(blanked, "blanked");
    g.label_if(shrunk, "shrunk");
    g.label_if(grown, "grown");
    g.nontrivial = blanked || shrunk || grown;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P10",
        parts: vec![
            Part { name: "numeric", run: num, quick: 300_000, thorough: 10_000_000 },
            Part { name: "text", run: text, quick: 300_000, thorough: 10_000_000 },
        ],
        rule: "numeric: random histories of 14-digit integers (independent or smooth) with re-initialisations at random points, M in 3..6 and order in 1..M, compared sample by sample to finite differences computed from the whole history; non-trivial when a run exceeds order+1 samples. text: random edit/grow/shrink sequences; non-trivial when a character is blanked or the length changes.",
        assumptions: &["values have at most 14 digits (the F14.3 field of the format)", "texts are ASCII without '&' and equality is up to trailing blanks, which the line format cannot carry"],
    }
}
