// Custom field types used by the catalogue. `mk`/`obs` go around from_bits/into_bits
// so that the oracle does not depend on them.
#[allow(unused_imports)]
use bitfields::{bitfield, bitflag};

pub trait Cust {
    fn mk(v: u128) -> Self;
    fn obs(self) -> u128;
}

macro_rules! newtype {
    ($n:ident, $t:ty, $f:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct $n(pub $t);
        impl $n {
            pub const fn from_bits(b: $t) -> Self {
                $n(b)
            }
            pub const fn into_bits(self) -> $t {
                self.0
            }
        }
        impl Cust for $n {
            fn mk(v: u128) -> Self {
                $n(v as $t)
            }
            fn obs(self) -> u128 {
                self.0 as u128
            }
        }
        pub const fn $f(v: $t) -> $n {
            $n(v)
        }
    };
}
newtype!(N8, u8, n8);
newtype!(N16, u16, n16);
newtype!(N32, u32, n32);
newtype!(N64, u64, n64);
newtype!(N128, u128, n128);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Gen<const N: u32>(pub u16);
impl<const N: u32> Gen<N> {
    pub const fn from_bits(b: u16) -> Self {
        Gen(b)
    }
    pub const fn into_bits(self) -> u16 {
        self.0
    }
}
impl<const N: u32> Cust for Gen<N> {
    fn mk(v: u128) -> Self {
        Gen(v as u16)
    }
    fn obs(self) -> u128 {
        self.0 as u128
    }
}
pub const fn same<T: Copy>(v: T) -> T {
    v
}
pub const fn mkgen<const N: u32>(v: u16) -> Gen<N> {
    Gen(v)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E2 {
    A = 0,
    B = 1,
    C = 2,
    D = 3,
}
impl E2 {
    pub const fn from_bits(b: u8) -> Self {
        match b {
            0 => E2::A,
            1 => E2::B,
            2 => E2::C,
            _ => E2::D,
        }
    }
    pub const fn into_bits(self) -> u8 {
        self as u8
    }
}
impl Cust for E2 {
    fn mk(v: u128) -> Self {
        match v {
            0 => E2::A,
            1 => E2::B,
            2 => E2::C,
            _ => E2::D,
        }
    }
    fn obs(self) -> u128 {
        self as u128
    }
}
pub const fn e2(v: u8) -> E2 {
    E2::from_bits(v)
}
pub fn canon_e2(v: u128) -> u128 {
    if v > 3 { 3 } else { v }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E3 {
    A = 0,
    B = 1,
    C = 2,
    D = 3,
    E = 6,
}
impl E3 {
    pub const fn from_bits(b: u8) -> Self {
        match b {
            1 => E3::B,
            2 => E3::C,
            3 => E3::D,
            6 => E3::E,
            _ => E3::A,
        }
    }
    pub const fn into_bits(self) -> u8 {
        self as u8
    }
}
impl Cust for E3 {
    fn mk(v: u128) -> Self {
        match v {
            1 => E3::B,
            2 => E3::C,
            3 => E3::D,
            6 => E3::E,
            _ => E3::A,
        }
    }
    fn obs(self) -> u128 {
        self as u128
    }
}
pub const fn e3(v: u8) -> E3 {
    E3::from_bits(v)
}
pub fn canon_e3(v: u128) -> u128 {
    if matches!(v, 1 | 2 | 3 | 6) { v } else { 0 }
}

#[bitflag(u8)]
#[derive(PartialEq, Eq, Debug)]
pub enum FL3 {
    #[base]
    Z = 0,
    A = 1,
    B = 2,
    C = 4,
    D = 7,
}
impl Cust for FL3 {
    fn mk(v: u128) -> Self {
        match v {
            1 => FL3::A,
            2 => FL3::B,
            4 => FL3::C,
            7 => FL3::D,
            _ => FL3::Z,
        }
    }
    fn obs(self) -> u128 {
        self as u128
    }
}
pub const fn fl3(v: u8) -> FL3 {
    match v {
        1 => FL3::A,
        2 => FL3::B,
        4 => FL3::C,
        7 => FL3::D,
        _ => FL3::Z,
    }
}
pub fn canon_fl3(v: u128) -> u128 {
    if matches!(v, 1 | 2 | 4 | 7) { v } else { 0 }
}

#[bitfield(u8)]
pub struct NB8 {
    #[bits(3, default = 5)]
    pub a: u8,
    #[bits(5, access = ro)]
    pub b: u8,
}
impl Cust for NB8 {
    fn mk(v: u128) -> Self {
        NB8(v as u8)
    }
    fn obs(self) -> u128 {
        self.0 as u128
    }
}
pub const fn nb8(v: u8) -> NB8 {
    NB8(v)
}
#[bitfield(u16, order = msb)]
pub struct NB16 {
    #[bits(5)]
    pub a: u8,
    #[bits(11)]
    _r: u16,
}
impl Cust for NB16 {
    fn mk(v: u128) -> Self {
        NB16(v as u16)
    }
    fn obs(self) -> u128 {
        self.0 as u128
    }
}
pub const fn nb16(v: u16) -> NB16 {
    NB16(v)
}
#[bitfield(u128)]
pub struct NB128 {
    pub a: u64,
    pub b: i64,
}
impl Cust for NB128 {
    fn mk(v: u128) -> Self {
        NB128(v)
    }
    fn obs(self) -> u128 {
        self.0
    }
}
pub const fn nb128(v: u128) -> NB128 {
    NB128(v)
}

// ignored-field type with a default that is not all zero
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ign(pub u8);
impl Default for Ign {
    fn default() -> Self {
        Ign(0x3D)
    }
}

// constants for default expressions
pub const C8: u8 = 0x9C;
pub const _300: u8 = 0x2B;
pub const TRUE: u8 = 0x54;
pub const False: i8 = -9;
pub const _1: i8 = -44;
pub const _2: bool = true;
pub const fn cf8() -> u8 {
    0x3E
}
pub const CI8: i8 = -77;
pub const fn cfi8() -> i8 {
    -3
}
pub const CB: bool = true;
pub const fn cfb() -> bool {
    true
}
pub const CI64: i64 = -(1 << 40);
pub mod cm {
    pub const C8: u8 = 0x77;
    pub const fn cf8() -> u8 {
        0x41
    }
}
