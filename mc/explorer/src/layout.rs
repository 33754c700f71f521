//! The layout alphabet: strides (in elements) for an r x c matrix.
pub const WILD: isize = (1 << 40) + 7;

pub const ROW: u8 = 0;
pub const COL: u8 = 1;
pub const ROWPAD: u8 = 2;
pub const COLPAD: u8 = 3;
pub const GENC: u8 = 4;
pub const GENR: u8 = 5;
pub const NEGR: u8 = 6;
pub const NEGC: u8 = 7;
pub const NEGB: u8 = 8;
pub const COLNEGC: u8 = 9;
pub const COLNEGR: u8 = 10;
pub const COLNEGB: u8 = 11;
pub const COPRIME: u8 = 12;
pub const UNITWILD: u8 = 13;
pub const UNITZERO: u8 = 14;
pub const ZEROR: u8 = 15;
pub const ZEROC: u8 = 16;
pub const ZEROB: u8 = 17;
pub const HANKEL: u8 = 18;
pub const ANTIHANKEL: u8 = 19;
pub const OVERLAP: u8 = 20;
pub const ZERONEG: u8 = 21;
pub const ROW32: u8 = 22;
pub const COL32: u8 = 23;
pub const ROW1K: u8 = 24;
pub const COL1K: u8 = 25;
pub const GEN64: u8 = 26;
pub const ROWPAD1: u8 = 27;
pub const COLPAD1: u8 = 28;
pub const ROWDBL: u8 = 29;
pub const COLDBL: u8 = 30;
pub const TRIPLE: u8 = 31;
/// extreme strides along axes of extent one
pub const UNITMAX: u8 = 52;
pub const UNITMIN: u8 = 53;
/// first of the layouts with distances beyond 32 bits: for each of HUGE_S, five shapes
pub const HUGE0: u8 = 32;
const HUGE_S: [isize; 4] = [(1 << 29) + 1, (1 << 30) + 1, (1 << 31) + 5, (1 << 32) + 3];
pub fn huge() -> Vec<u8> { (HUGE0..HUGE0 + 20).collect() }
pub const NAMES: [&str; 54] = ["row", "col", "rowpad", "colpad", "genc", "genr", "negr", "negc", "negb", "colnegc", "colnegr",
    "colnegb", "coprime", "unitwild", "unitzero", "zeror", "zeroc", "zerob", "hankel", "antihankel", "overlap", "zeroneg",
    "row32", "col32", "row1k", "col1k", "gen64", "rowpad1", "colpad1", "rowdbl", "coldbl", "triple",
    "h29row", "h29col", "h29nrow", "h29ncol", "h29gen", "h30row", "h30col", "h30nrow", "h30ncol", "h30gen",
    "h31row", "h31col", "h31nrow", "h31ncol", "h31gen", "h32row", "h32col", "h32nrow", "h32ncol", "h32gen", "unitmax", "unitmin"];

pub fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }

/// Row and column stride; None when the layout makes no sense for these extents.
pub fn strides(l: u8, r: usize, c: usize) -> Option<(isize, isize)> {
    let (ri, ci) = (r.max(1) as isize, c.max(1) as isize);
    Some(match l {
        ROW => (ci, 1),
        COL => (1, ri),
        ROWPAD => (ci + 3, 1),
        COLPAD => (1, ri + 3),
        GENC => (2, 2 * ri + 1),
        GENR => (2 * ci + 3, 2),
        NEGR => (-ci, 1),
        NEGC => (ci, -1),
        NEGB => (-(ci + 1), -1),
        COLNEGC => (1, -ri),
        COLNEGR => (-1, ri),
        COLNEGB => (-1, -(ri + 2)),
        COPRIME => {
            // index i*cc + j*rr with cc, rr coprime, cc >= c, rr >= r: injective but not nested
            if r < 2 || c < 2 { return None; }
            let mut cc = c;
            while gcd(cc, r) != 1 { cc += 1; }
            (cc as isize, r as isize)
        }
        UNITWILD => {
            // an axis of extent one may have any stride
            if r == 1 && c == 1 { (WILD, -WILD) } else if r == 1 { (-WILD, 1) } else if c == 1 { (1, WILD) } else { return None }
        }
        UNITZERO => {
            if r == 1 && c == 1 { (0, 0) } else if r == 1 { (0, 2) } else if c == 1 { (2, 0) } else { return None }
        }
        UNITMAX => {
            let x = isize::MAX;
            if r == 1 && c == 1 { (x, x) } else if r == 1 { (x, 1) } else if c == 1 { (1, x) } else { return None }
        }
        UNITMIN => {
            let x = isize::MIN;
            if r == 1 && c == 1 { (x, 1 << 62) } else if r == 1 { (x, -1) } else if c == 1 { (-1, x) } else { return None }
        }
        ZEROR => (0, 1),
        ZEROC => (1, 0),
        ZEROB => (0, 0),
        HANKEL => (1, 1),
        ANTIHANKEL => (1, -1),
        OVERLAP => (2, 1),
        ZERONEG => (0, -2),
        ROW32 => ((ci + 31) / 32 * 32 + 32, 1),
        COL32 => (1, (ri + 31) / 32 * 32 + 32),
        ROW1K => ((ci + 1023) / 1024 * 1024, 1),
        COL1K => (1, (ri + 1023) / 1024 * 1024),
        GEN64 => (64 * ci, 64),
        ROWPAD1 => (ci + 1, 1),
        COLPAD1 => (1, ri + 1),
        ROWDBL => (2 * ci, 1),
        COLDBL => (1, 2 * ri),
        TRIPLE => (3, 3 * ri + 3),
        h if (HUGE0..HUGE0 + 20).contains(&h) => {
            let s = HUGE_S[(h - HUGE0) as usize / 5];
            match (h - HUGE0) % 5 { 0 => (s, 1), 1 => (1, s), 2 => (-s, 1), 3 => (1, -s), _ => (s, 16 * s + 3) }
        }
        _ => return None,
    })
}
pub const ALL_AB: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, UNITMAX, UNITMIN];
pub const ALL_C: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, UNITMAX, UNITMIN];
/// the layouts without the ones that differ from others only in the amount of padding
pub const BASIC_AB: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21];
pub const BASIC_C: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

/// lowest and highest element offset touched by an r x c matrix
pub fn span(r: usize, c: usize, rs: isize, cs: isize) -> Option<(i64, i64)> {
    if r == 0 || c == 0 { return None; }
    let x = (r as i64 - 1) * rs as i64;
    let y = (c as i64 - 1) * cs as i64;
    Some((x.min(0) + y.min(0), x.max(0) + y.max(0)))
}
