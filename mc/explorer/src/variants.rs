//! The builds of the repository's crate that the explorer drives. All of them are compiled from
//! /repo's working tree; they differ in crate features, compile-time environment and profile.
use crate::elem::GemmFn;

#[derive(Clone, Copy)]
pub struct Variant {
    pub name: &'static str,
    pub s: GemmFn<f32>,
    pub d: GemmFn<f64>,
    pub c: GemmFn<[f32; 2]>,
    pub z: GemmFn<[f64; 2]>,
    /// (MC, KC, NC) the build was configured with, per type; None = the crate's defaults
    pub blocks: Option<[(usize, usize, usize); 4]>,
    pub threading: bool,
    pub debug: bool,
}

macro_rules! variant {
    ($name:expr, $krate:ident, $blocks:expr, $thr:expr, $dbg:expr) => {{
        unsafe fn c(m: usize, k: usize, n: usize, al: [f32; 2], a: *const [f32; 2], rsa: isize, csa: isize,
                    b: *const [f32; 2], rsb: isize, csb: isize, be: [f32; 2], c: *mut [f32; 2], rsc: isize, csc: isize) {
            $krate::cgemm($krate::CGemmOption::Standard, $krate::CGemmOption::Standard,
                          m, k, n, al, a, rsa, csa, b, rsb, csb, be, c, rsc, csc)
        }
        unsafe fn z(m: usize, k: usize, n: usize, al: [f64; 2], a: *const [f64; 2], rsa: isize, csa: isize,
                    b: *const [f64; 2], rsb: isize, csb: isize, be: [f64; 2], c: *mut [f64; 2], rsc: isize, csc: isize) {
            $krate::zgemm($krate::CGemmOption::Standard, $krate::CGemmOption::Standard,
                          m, k, n, al, a, rsa, csa, b, rsb, csb, be, c, rsc, csc)
        }
        Variant { name: $name, s: $krate::sgemm, d: $krate::dgemm, c, z, blocks: $blocks, threading: $thr, debug: $dbg }
    }};
}

/// a build without the complex functions
macro_rules! variant_real {
    ($name:expr, $krate:ident, $blocks:expr, $thr:expr, $dbg:expr) => {{
        unsafe fn c(_: usize, _: usize, _: usize, _: [f32; 2], _: *const [f32; 2], _: isize, _: isize, _: *const [f32; 2], _: isize, _: isize, _: [f32; 2], _: *mut [f32; 2], _: isize, _: isize) {
            eprintln!("engine error: complex call of a build without the complex functions"); std::process::exit(4)
        }
        unsafe fn z(_: usize, _: usize, _: usize, _: [f64; 2], _: *const [f64; 2], _: isize, _: isize, _: *const [f64; 2], _: isize, _: isize, _: [f64; 2], _: *mut [f64; 2], _: isize, _: isize) {
            eprintln!("engine error: complex call of a build without the complex functions"); std::process::exit(4)
        }
        Variant { name: $name, s: $krate::sgemm, d: $krate::dgemm, c, z, blocks: $blocks, threading: $thr, debug: $dbg }
    }};
}

pub const TINY: [(usize, usize, usize); 4] = [(8, 8, 8), (8, 8, 8), (4, 4, 4), (4, 4, 4)];
pub const ODD: [(usize, usize, usize); 4] = [(9, 11, 13), (10, 13, 17), (5, 7, 9), (6, 9, 11)];
pub const MID: [(usize, usize, usize); 4] = [(16, 24, 40), (24, 32, 48), (12, 20, 28), (8, 16, 36)];

pub const THR: [(usize, usize, usize); 4] = [(8, 512, 512), (8, 512, 512), (4, 512, 512), (4, 512, 512)];

pub const MAX: [(usize, usize, usize); 4] = [(65536, 65536, 65536); 4];
pub const DEEP: [(usize, usize, usize); 4] = [(8, 65536, 65536), (8, 65536, 65536), (4, 65536, 65536), (4, 65536, 65536)];

pub const DEF: u8 = 0;
pub const FMA: u8 = 1;
pub const AVX: u8 = 2;
pub const SSE2: u8 = 3;
pub const NONE: u8 = 4;
pub const NOSTD: u8 = 5;
pub const DBG: u8 = 6;
pub const DBGAVX: u8 = 7;
pub const DBGNONE: u8 = 8;
pub const DBGTINY: u8 = 9;
pub const VTINY: u8 = 10;
pub const VODD: u8 = 11;
pub const VMID: u8 = 12;
pub const TINYNONE: u8 = 13;
pub const ODDAVX: u8 = 14;
pub const ODDNONE: u8 = 15;
pub const VTHR: u8 = 16;
pub const THRNONE: u8 = 17;
pub const DBGTHR: u8 = 18;
/// without the complex functions: default features, threading, no features at all
pub const REAL: u8 = 19;
pub const REALTHR: u8 = 20;
pub const REALNOSTD: u8 = 21;
/// block sizes as large as the library admits
pub const VMAX: u8 = 22;
pub const MAXNONE: u8 = 23;
pub const DEEPAVX: u8 = 24;

pub fn variants() -> Vec<Variant> {
    vec![
        variant!("def", matrixmultiply, None, true, false),
        variant!("fma", mm_fma, None, false, false),
        variant!("avx", mm_avx, None, false, false),
        variant!("sse2", mm_sse2, None, false, false),
        variant!("none", mm_none, None, false, false),
        variant!("nostd", mm_nostd, None, false, false),
        variant!("dbg", mm_dbg, None, true, true),
        variant!("dbgavx", mm_dbgavx, None, false, true),
        variant!("dbgnone", mm_dbgnone, None, false, true),
        variant!("dbgtiny", mm_dbgtiny, Some(TINY), true, true),
        variant!("tiny", mm_tiny, Some(TINY), true, false),
        variant!("odd", mm_odd, Some(ODD), true, false),
        variant!("mid", mm_mid, Some(MID), true, false),
        variant!("tinynone", mm_tinynone, Some(TINY), true, false),
        variant!("oddavx", mm_oddavx, Some(ODD), true, false),
        variant!("oddnone", mm_oddnone, Some(ODD), false, false),
        variant!("thr", mm_thr, Some(THR), true, false),
        variant!("thrnone", mm_thrnone, Some(THR), true, false),
        variant!("dbgthr", mm_dbgthr, Some(THR), true, true),
        variant_real!("real", mm_real, None, false, false),
        variant_real!("realthr", mm_realthr, Some(THR), true, false),
        variant_real!("realnostd", mm_realnostd, None, false, false),
        variant!("max", mm_max, Some(MAX), true, false),
        variant!("maxnone", mm_maxnone, Some(MAX), true, false),
        variant!("deepavx", mm_deepavx, Some(DEEP), true, false),
    ]
}
