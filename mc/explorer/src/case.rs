//! One point of the explored space.
use crate::layout;
use crate::variants::Variant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Case {
    pub var: u8, pub ty: u8,
    pub m: u32, pub k: u32, pub n: u32,
    pub la: u8, pub lb: u8, pub lc: u8,
    pub al: u8, pub be: u8,
    /// base misalignment in elements of A, B, C
    pub off: [u8; 3],
    /// operand placement: 0 = flush against the upper guard page, 1 = lower guard page
    pub place: u8,
    /// old contents of C: 0 = integers, 1 = NaN, 2 = infinity, 3 = all bits set
    pub cinit: u8,
    /// evaluator specific
    pub data: u8,
    pub x: [u16; 4],
    /// A and B are the same memory
    pub alias: u8,
    /// thread limit of the process
    pub nt: u8,
}
impl Default for Case {
    fn default() -> Case {
        Case { var: 0, ty: 0, m: 1, k: 1, n: 1, la: 0, lb: 0, lc: 0, al: 0, be: 0, off: [0; 3], place: 0, cinit: 0, data: 0, x: [0; 4], alias: 0, nt: 1 }
    }
}
pub const TYS: [char; 4] = ['s', 'd', 'c', 'z'];
impl Case {
    /// k, where the largest value of the field stands for a number beyond 32 bits.
    pub fn depth(&self) -> usize { if self.k == u32::MAX { (1 << 32) + 5 } else { self.k as usize } }
    pub fn text(&self, vs: &[Variant]) -> String {
        format!("var={} ty={} m={} k={} n={} la={} lb={} lc={} al={} be={} off={},{},{} place={} cinit={} data={} x={},{},{},{} alias={} nt={}",
            vs[self.var as usize].name, TYS[self.ty as usize], self.m, self.k, self.n,
            layout::NAMES[self.la as usize], layout::NAMES[self.lb as usize], layout::NAMES[self.lc as usize],
            self.al, self.be, self.off[0], self.off[1], self.off[2], self.place, self.cinit, self.data,
            self.x[0], self.x[1], self.x[2], self.x[3], self.alias, self.nt)
    }
    pub fn parse(s: &str, vs: &[Variant]) -> Result<Case, String> {
        let mut c = Case::default();
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=').ok_or_else(|| format!("bad field {kv}"))?;
            let num = || v.parse::<u64>().map_err(|e| format!("{kv}: {e}"));
            let lay = || layout::NAMES.iter().position(|x| *x == v).map(|x| x as u8).ok_or_else(|| format!("layout {v}"));
            match k {
                "var" => c.var = vs.iter().position(|x| x.name == v).ok_or_else(|| format!("variant {v}"))? as u8,
                "ty" => c.ty = TYS.iter().position(|x| v == x.to_string()).ok_or("type")? as u8,
                "m" => c.m = num()? as u32, "k" => c.k = num()? as u32, "n" => c.n = num()? as u32,
                "la" => c.la = lay()?, "lb" => c.lb = lay()?, "lc" => c.lc = lay()?,
                "al" => c.al = num()? as u8, "be" => c.be = num()? as u8,
                "off" => for (i, x) in v.split(',').enumerate() { c.off[i] = x.parse().map_err(|_| "off")?; },
                "x" => for (i, x) in v.split(',').enumerate() { c.x[i] = x.parse().map_err(|_| "x")?; },
                "place" => c.place = num()? as u8, "cinit" => c.cinit = num()? as u8, "data" => c.data = num()? as u8,
                "alias" => c.alias = num()? as u8, "nt" => c.nt = num()? as u8,
                _ => return Err(format!("field {k}")),
            }
        }
        Ok(c)
    }
    /// Is there an earlier case in the layout alphabet with the very same strides (then this one is skipped)?
    pub fn redundant(&self, las: &[u8], lbs: &[u8], lcs: &[u8]) -> bool {
        let dup = |l: u8, set: &[u8], r: u32, c: u32| -> bool {
            match layout::strides(l, r as usize, c as usize) {
                None => true,
                Some(s) => set.iter().take_while(|&&x| x != l).any(|&x| layout::strides(x, r as usize, c as usize) == Some(s)),
            }
        };
        dup(self.la, las, self.m, self.k) || dup(self.lb, lbs, self.k, self.n) || dup(self.lc, lcs, self.m, self.n)
    }
    pub fn hash(&self) -> u64 {
        use crate::elem::mix;
        let (m, k, n) = (self.m as usize, self.k as usize, self.n as usize);
        let sa = layout::strides(self.la, m, k).unwrap_or((0, 0));
        let sb = layout::strides(self.lb, k, n).unwrap_or((0, 0));
        let sc = layout::strides(self.lc, m, n).unwrap_or((0, 0));
        let mut h = 0x1234u64;
        for v in [self.var as u64, self.ty as u64, self.m as u64, self.k as u64, self.n as u64,
                  sa.0 as u64, sa.1 as u64, sb.0 as u64, sb.1 as u64, sc.0 as u64, sc.1 as u64,
                  self.al as u64, self.be as u64, self.off[0] as u64, self.off[1] as u64, self.off[2] as u64,
                  self.place as u64, self.cinit as u64, self.data as u64, self.alias as u64, self.nt as u64,
                  self.x[0] as u64, self.x[1] as u64, self.x[2] as u64, self.x[3] as u64] {
            h = mix(h.wrapping_mul(31).wrapping_add(v).wrapping_add(0x9e37));
        }
        if h == 0 { 1 } else { h }
    }
}
