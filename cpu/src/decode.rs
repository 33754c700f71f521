//! Which instruction-set extension an x86-64 instruction belongs to (as far as needed to tell them apart).
pub const SSE3: u32 = 1; pub const SSSE3: u32 = 2; pub const SSE41: u32 = 4; pub const SSE42: u32 = 8; pub const POPCNT: u32 = 16; pub const LZCNT: u32 = 32;
pub const MOVBE: u32 = 64; pub const CRYPTO: u32 = 128; pub const BMI: u32 = 256; pub const AVX: u32 = 512; pub const FMA: u32 = 1024; pub const AVX2: u32 = 2048;
pub const AVX512: u32 = 4096; pub const F16C: u32 = 8192; pub const OTHER: u32 = 16384;
/// Not extensions, only noted: 32-byte operands; a packed SSE arithmetic instruction.
pub const W256: u32 = 1 << 20; pub const PACKED: u32 = 1 << 21;
pub const NAMES: [(u32, &str); 15] = [(SSE3, "SSE3"), (SSSE3, "SSSE3"), (SSE41, "SSE4.1"), (SSE42, "SSE4.2"), (POPCNT, "POPCNT"), (LZCNT, "LZCNT"), (MOVBE, "MOVBE"), (CRYPTO, "AES/CLMUL/SHA"),
    (BMI, "BMI"), (AVX, "AVX"), (FMA, "FMA"), (AVX2, "AVX2"), (AVX512, "AVX-512"), (F16C, "F16C"), (OTHER, "other")];
pub fn names(m: u32) -> String { let v: Vec<&str> = NAMES.iter().filter(|n| m & n.0 != 0).map(|n| n.1).collect(); if v.is_empty() { "none".into() } else { v.join("+") } }

#[derive(PartialEq, Clone, Copy, Debug)] pub enum Special { No, Cpuid, Xgetbv, Popf }
pub fn classify(p: &[u8]) -> (u32, Special) {
    let (mut i, mut p66, mut rep) = (0, false, 0u8);
    loop {
        match p[i] { 0x66 => p66 = true, 0xf2 => rep = 0xf2, 0xf3 => rep = 0xf3, 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}, _ => break }
        i += 1;
    }
    match p[i] {
        0xc5 => return (vex(1, p[i + 1] & 3, p[i + 1] >> 2 & 1, &p[i + 2..]), Special::No),
        0xc4 => return (vex(p[i + 1] & 31, p[i + 2] & 3, p[i + 2] >> 2 & 1, &p[i + 3..]), Special::No),
        0x62 => return (AVX512, Special::No),
        0x40..=0x4f => i += 1,
        0xd5 => return (OTHER, Special::No),
        _ => {}
    }
    if p[i] == 0x9d { return (0, Special::Popf) }
    if p[i] == 0x8f && p[i + 1] & 31 >= 8 { return (OTHER, Special::No) } // XOP
    if p[i] != 0x0f { return (0, Special::No) }
    let op = p[i + 1];
    let c = match op {
        0x38 => match p[i + 2] {
            0x00..=0x0b | 0x1c..=0x1e => SSSE3,
            0x10..=0x41 => SSE41,
            0xf0 | 0xf1 => if rep == 0xf2 { SSE42 } else { MOVBE },
            0xdb..=0xdf | 0xc8..=0xcd => CRYPTO,
            _ => OTHER,
        },
        0x3a => match p[i + 2] { 0x0f => SSSE3, 0x08..=0x0e | 0x14..=0x22 | 0x40..=0x42 => SSE41, 0x60..=0x63 => SSE42, 0x44 | 0xdf | 0xcc => CRYPTO, _ => OTHER },
        0x12 | 0x16 if rep != 0 => SSE3,
        0x7c | 0x7d | 0xd0 if rep == 0xf2 || p66 => SSE3,
        0xf0 if rep == 0xf2 => SSE3,
        0xb8 if rep == 0xf3 => POPCNT,
        0xbd if rep == 0xf3 => LZCNT,
        0xa2 => return (0, Special::Cpuid),
        0x01 if p[i + 2] == 0xd0 => return (0, Special::Xgetbv),
        0x58 | 0x59 | 0x5c if rep == 0 => PACKED,
        _ => 0,
    };
    (c, Special::No)
}
fn vex(map: u8, pp: u8, l: u8, p: &[u8]) -> u32 {
    let (op, modrm) = (p[0], p[1]);
    let w = if l == 1 { W256 } else { 0 };
    let int = |l2: u32| if l == 1 { l2 } else { AVX };
    w | match map {
        1 => match op {
            0x41..=0x4b | 0x90..=0x93 | 0x98 | 0x99 => AVX512,
            0x60..=0x6d | 0x71..=0x76 if pp == 1 => int(AVX2),
            0x70 => int(AVX2),
            0xd0 | 0xd6 | 0xe6 | 0xe7 | 0xf0 => AVX,
            0xd1..=0xfe if pp == 1 => int(AVX2),
            _ => AVX,
        },
        2 => match op {
            0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7 => BMI,
            0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf => FMA,
            0x13 => F16C,
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => AVX2,
            0x18 | 0x19 if modrm >> 6 == 3 => AVX2,
            0x0c..=0x0f | 0x17..=0x1a | 0x2c..=0x2f => AVX,
            0xdb..=0xdf => AVX | CRYPTO,
            0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x37..=0x41 => int(AVX2),
            _ => OTHER,
        },
        3 => match op {
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => AVX2,
            0xf0 => BMI,
            0x1d => F16C,
            0x0e | 0x0f | 0x42 | 0x4c => int(AVX2),
            0x44 | 0xdf => AVX | CRYPTO,
            0x04..=0x06 | 0x08..=0x0d | 0x14..=0x19 | 0x20..=0x22 | 0x40 | 0x41 | 0x4a | 0x4b | 0x60..=0x63 | 0x21 => AVX,
            _ => OTHER,
        },
        _ => OTHER,
    }
}
