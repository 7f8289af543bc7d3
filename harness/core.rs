//! mccore: reference model and exhaustive explorer for bitfields declarations.
//!
//! The reference model is deliberately boring: a bitfield is a vector of bits
//! plus a table of fields, and each operation is described bit by bit from the
//! documentation. The explorer drives the real macro-generated type and the
//! model through the same transition from every state in the state set and
//! compares the returned observation and the whole successor state.
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// capacity of a bit vector in bytes; chunks with very long arrays use a build with a larger one
pub const MAXB: usize = match option_env!("MCMAXB") {
    Some(s) => {
        let (b, mut i, mut n) = (s.as_bytes(), 0, 0usize);
        while i < b.len() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        n
    }
    None => 128,
};

// ------------------------------------------------------------------ allocation counter
pub struct Counting;
thread_local! {
    static ALLOCS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PAUSED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = PAUSED.try_with(|p| {
            if !p.get() {
                let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
            }
        });
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// allocations seen so far on this thread
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}
/// run harness code whose own allocations do not count
pub fn unmetered<R>(f: impl FnOnce() -> R) -> R {
    PAUSED.with(|p| p.set(true));
    let r = f();
    PAUSED.with(|p| p.set(false));
    r
}
/// number of allocations made by the last generated operation
pub fn last_allocs() -> u64 {
    LAST.with(|a| a.get())
}
pub fn set_last_allocs(n: u64) {
    LAST.with(|a| a.set(n));
}
/// fixed text buffer, so that formatting itself needs no allocation
pub struct Text {
    pub b: [u8; 16384],
    pub n: usize,
}
impl Text {
    pub fn new() -> Text {
        Text { b: [0; 16384], n: 0 }
    }
    pub fn str(&self) -> &str {
        std::str::from_utf8(&self.b[..self.n]).unwrap_or("?")
    }
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let e = self.n + s.len();
        if e > self.b.len() {
            return Err(std::fmt::Error);
        }
        self.b[self.n..e].copy_from_slice(s.as_bytes());
        self.n = e;
        Ok(())
    }
}

// ------------------------------------------------------------------ bit vectors
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct BV {
    pub n: u32,
    pub b: [u8; MAXB],
}

impl std::fmt::Debug for BV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let nb = ((self.n + 7) / 8) as usize;
        write!(f, "0x")?;
        for i in (0..nb).rev() {
            write!(f, "{:02x}", self.b[i])?;
        }
        write!(f, "/{}", self.n)
    }
}

impl BV {
    pub const fn zero(n: u32) -> BV {
        BV { n, b: [0; MAXB] }
    }
    pub fn ones(n: u32) -> BV {
        let mut r = BV::zero(n);
        for i in 0..n {
            r.set(i, true);
        }
        r
    }
    #[inline]
    pub fn bit(&self, i: u32) -> bool {
        (self.b[(i >> 3) as usize] >> (i & 7)) & 1 == 1
    }
    #[inline]
    pub fn set(&mut self, i: u32, v: bool) {
        let m = 1u8 << (i & 7);
        if v {
            self.b[(i >> 3) as usize] |= m;
        } else {
            self.b[(i >> 3) as usize] &= !m;
        }
    }
    pub fn from_u128(v: u128, n: u32) -> BV {
        let mut r = BV::zero(n);
        let bytes = v.to_le_bytes();
        let mut i = 0;
        while i < 16 {
            r.b[i] = bytes[i];
            i += 1;
        }
        r.trim();
        r
    }
    fn trim(&mut self) {
        let full = (self.n / 8) as usize;
        let rem = self.n % 8;
        let mut i = full;
        if rem != 0 {
            self.b[full] &= (1u8 << rem) - 1;
            i += 1;
        }
        while i < MAXB {
            self.b[i] = 0;
            i += 1;
        }
    }
    pub fn u128(&self) -> u128 {
        let mut a = [0u8; 16];
        a.copy_from_slice(&self.b[..16]);
        u128::from_le_bytes(a)
    }
    pub fn from_bytes(s: &[u8]) -> BV {
        let mut r = BV::zero(s.len() as u32 * 8);
        r.b[..s.len()].copy_from_slice(s);
        r
    }
    pub fn arr<const N: usize>(&self) -> [u8; N] {
        let mut a = [0u8; N];
        a.copy_from_slice(&self.b[..N]);
        a
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..((self.n + 7) / 8) as usize]
    }
    /// low `n` bits, as an n-bit vector (zero extended when growing)
    pub fn resize(&self, n: u32) -> BV {
        let mut r = *self;
        r.n = n;
        r.trim();
        r
    }
    /// grow to `n` bits repeating the top bit
    pub fn sext(&self, n: u32) -> BV {
        let mut r = self.resize(n);
        if self.n > 0 && self.n < n && self.bit(self.n - 1) {
            for i in self.n..n {
                r.set(i, true);
            }
        }
        r
    }
    pub fn ext(&self, off: u32, n: u32) -> BV {
        let mut r = BV::zero(n);
        for i in 0..n {
            r.set(i, self.bit(off + i));
        }
        r
    }
    /// replace bits off..off+v.n
    pub fn put(&mut self, off: u32, v: &BV) {
        for i in 0..v.n {
            self.set(off + i, v.bit(i));
        }
    }
    pub fn not(&self) -> BV {
        let mut r = *self;
        for i in 0..MAXB {
            r.b[i] = !r.b[i];
        }
        r.trim();
        r
    }
    pub fn rev_bytes(&self) -> BV {
        let nb = (self.n / 8) as usize;
        let mut r = BV::zero(self.n);
        for i in 0..nb {
            r.b[i] = self.b[nb - 1 - i];
        }
        r
    }
}

// ------------------------------------------------------------------ layouts
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    U,
    S,
    B,
    A,
    /// custom type; `C` is lossless, `L` maps some bit patterns onto others
    C,
    L,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    RW,
    RO,
    WO,
    NA,
}

pub struct Field {
    pub name: &'static str,
    pub off: u32,
    pub bits: u32,
    pub ty_bits: u32,
    pub kind: Kind,
    pub acc: Acc,
    pub reserved: bool,
    /// reserved field written without any #[bits] attribute
    pub bare: bool,
    /// default value (bit pattern of the field type, little endian hex digits)
    pub default: Option<&'static [u8]>,
    pub canon: fn(u128) -> u128,
    pub consts: bool,
}

pub fn ident(x: u128) -> u128 {
    x
}

impl Field {
    pub fn writable(&self) -> bool {
        !self.reserved && matches!(self.acc, Acc::RW | Acc::WO)
    }
    pub fn has_getter(&self) -> bool {
        !self.reserved && matches!(self.acc, Acc::RW | Acc::RO)
    }
    /// readable through the bit-level helpers
    pub fn readable(&self) -> bool {
        if self.reserved {
            !self.bare
        } else {
            matches!(self.acc, Acc::RW | Acc::RO)
        }
    }
    pub fn builder(&self) -> bool {
        !self.reserved && self.acc != Acc::NA
    }
    pub fn def(&self) -> Option<BV> {
        self.default.map(|d| BV::from_bytes(d).resize(self.ty_bits))
    }
}

pub struct Layout {
    pub name: &'static str,
    pub decl: &'static str,
    pub bits: u32,
    pub array: bool,
    pub msb: bool,
    pub from_le: bool,
    pub into_le: bool,
    pub write_le: bool,
    pub fields: &'static [Field],
    pub has_x: bool,
    /// value of the ignored fields after default construction
    pub x_default: u64,
    /// a value of the ignored fields that no constructor produces
    pub x_load: u64,
    /// operations switched off by the declaration's flags
    pub off: &'static [K],
    pub tags: &'static str,
    pub heap: bool,
    /// Clone is available
    pub clone: bool,
    pub tname: &'static str,
}

impl Layout {
    pub fn field_at(&self, i: u32) -> Option<&Field> {
        self.fields.iter().find(|f| i >= f.off && i < f.off + f.bits)
    }
}

// ------------------------------------------------------------------ operations
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Get, Set, CSet, Inverted, InvF, ClrF, ClrFD, CBits, COff, BSeq, BSeqND,
    GBit, CGBit, SBit, CSBit, GR, CGR, SR, CSR,
    New, NewND, Def, BDef,
    From, FromLe, FromBe, FromD, FromLeD, FromBeD, FromT,
    Into_, IntoLe, IntoBe, IntoT,
    FS, FSLe, FSBe, FSD, FSLeD, FSBeD, CFS, CFSLe, CFSBe, CFSD, CFSLeD, CFSBeD,
    IS, ISLe, ISBe, CIS, CISLe, CISBe,
    W, WLe, WBe, WD, WLeD, WBeD, WDef,
    Clr, ClrD, Inv, Dbg, CloneEq,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Op {
    pub k: K,
    pub f: u16,
    pub v: BV,
    pub i: u32,
    pub j: u32,
    pub b: bool,
    pub seq: Vec<(u16, BV, bool)>,
}

impl Op {
    pub fn k(k: K) -> Op {
        Op { k, f: 0, v: BV::zero(0), i: 0, j: 0, b: false, seq: Vec::new() }
    }
    pub fn f(k: K, f: usize) -> Op {
        Op { f: f as u16, ..Op::k(k) }
    }
    pub fn fv(k: K, f: usize, v: BV) -> Op {
        Op { f: f as u16, v, ..Op::k(k) }
    }
    pub fn v(k: K, v: BV) -> Op {
        Op { v, ..Op::k(k) }
    }
    pub fn show(&self, l: &Layout) -> String {
        let fname = l.fields.get(self.f as usize).map(|f| f.name).unwrap_or("-");
        let mut s = format!("{:?}", self.k);
        use K::*;
        match self.k {
            Get | Set | CSet | Inverted | InvF | ClrF | ClrFD | CBits | COff => {
                write!(s, " field={fname}").unwrap();
                if matches!(self.k, Set | CSet) {
                    write!(s, " value={:?}", self.v).unwrap();
                }
            }
            BSeq | BSeqND => {
                for (f, v, c) in &self.seq {
                    write!(s, " {}with_{}({:?})", if *c { "checked_" } else { "" }, l.fields[*f as usize].name, v).unwrap();
                }
            }
            GBit | CGBit => write!(s, " offset={}", self.i).unwrap(),
            SBit | CSBit => write!(s, " offset={} bit={}", self.i, self.b).unwrap(),
            Dbg if self.b => s.push_str(" pretty"),
            GR | CGR => write!(s, " offset={} length={}", self.i, self.j).unwrap(),
            SR | CSR => write!(s, " offset={} length={} value={:?}", self.i, self.j, self.v).unwrap(),
            IS | ISLe | ISBe | CIS | CISLe | CISBe => write!(s, " slice_len={}", self.j).unwrap(),
            _ => {
                if self.v.n > 0 {
                    write!(s, " value={:?}", self.v).unwrap();
                }
            }
        }
        s
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ret {
    Unit,
    V(BV),
    Ok(Option<BV>),
    Err,
    S(String),
    /// model only: any of the listed outcomes is within the documentation
    Any(Vec<(St, Ret)>),
    Panic(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct St {
    pub b: BV,
    pub x: u64,
}

pub fn bb(v: bool) -> Ret {
    Ret::V(BV::from_u128(v as u128, 1))
}
pub fn rok<E>(r: Result<(), E>) -> Ret {
    match r {
        Ok(()) => Ret::Ok(None),
        Err(_) => Ret::Err,
    }
}
pub fn rokv<E>(r: Result<BV, E>) -> Ret {
    match r {
        Ok(v) => Ret::Ok(Some(v)),
        Err(_) => Ret::Err,
    }
}
pub fn bool_bv(v: bool) -> BV {
    BV::from_u128(v as u128, 1)
}

pub trait Dut {
    fn layout(&self) -> &'static Layout;
    /// Load `st` into a fresh real value, run `op` on it, return what it returned and the state after.
    fn run(&self, st: &St, op: &Op) -> (St, Ret);
    /// states are loaded through the public conversions, which keep only canonical user-type patterns
    fn via_api(&self) -> bool {
        false
    }
    /// size and alignment of the type and of its storage
    fn sizes(&self) -> Option<[usize; 4]> {
        None
    }
    /// Load `st`, clone it, run `op` on the clone (`on_clone`) or on the original;
    /// returns what it returned and both states after.
    fn twin(&self, _st: &St, _op: &Op, _on_clone: bool) -> Option<(St, St, Ret)> {
        None
    }
}

// ------------------------------------------------------------------ reference model
fn field_value(f: &Field, raw: &BV) -> BV {
    // what a read of the field yields, as a bit pattern of the field type
    match f.kind {
        Kind::S => raw.sext(f.ty_bits),
        Kind::C | Kind::L => BV::from_u128((f.canon)(raw.u128()), f.ty_bits),
        _ => raw.resize(f.ty_bits),
    }
}

/// documented set: the value is truncated to the field width, nothing else moves
fn put_field(st: &mut BV, f: &Field, v: &BV) {
    let t = v.resize(f.bits);
    st.put(f.off, &t);
}

fn fits(f: &Field, v: &BV) -> bool {
    let t = v.resize(f.bits);
    match f.kind {
        Kind::S => t.sext(f.ty_bits) == *v,
        Kind::B => true,
        _ => t.resize(f.ty_bits) == *v,
    }
}

fn apply_defaults(l: &Layout, st: &mut BV, only_reserved: bool) {
    for f in l.fields {
        if only_reserved && !f.reserved {
            continue;
        }
        if let Some(d) = f.def() {
            put_field(st, f, &d);
        }
    }
}

fn value_to_storage(l: &Layout, v: &BV, le: bool) -> BV {
    // "big" is the natural reading of the integer / of the byte string
    if l.array {
        if le { *v } else { v.rev_bytes() }
    } else if le {
        v.rev_bytes()
    } else {
        *v
    }
}

pub fn model(l: &Layout, st: &St, op: &Op) -> (St, Ret) {
    use K::*;
    let mut s = *st;
    let n = l.bits;
    let zero = BV::zero(n);
    let fresh = |b: BV| St { b, x: l.x_default };
    let r = match op.k {
        Get => {
            let f = &l.fields[op.f as usize];
            Ret::V(field_value(f, &s.b.ext(f.off, f.bits)))
        }
        Set => {
            put_field(&mut s.b, &l.fields[op.f as usize], &op.v);
            Ret::Unit
        }
        CSet => {
            let f = &l.fields[op.f as usize];
            if fits(f, &op.v) {
                put_field(&mut s.b, f, &op.v);
                Ret::Ok(None)
            } else {
                Ret::Err
            }
        }
        Inverted => {
            let f = &l.fields[op.f as usize];
            Ret::V(field_value(f, &s.b.ext(f.off, f.bits).not()))
        }
        InvF => {
            let f = &l.fields[op.f as usize];
            let v = s.b.ext(f.off, f.bits).not();
            s.b.put(f.off, &v);
            Ret::Unit
        }
        ClrF => {
            let f = &l.fields[op.f as usize];
            let z = BV::from_u128((f.canon)(0), f.bits);
            s.b.put(f.off, &z);
            Ret::Unit
        }
        ClrFD => {
            let f = &l.fields[op.f as usize];
            put_field(&mut s.b, f, &f.def().unwrap());
            Ret::Unit
        }
        CBits => Ret::V(BV::from_u128(l.fields[op.f as usize].bits as u128, 32)),
        COff => Ret::V(BV::from_u128(l.fields[op.f as usize].off as u128, 32)),
        New | Def | BDef | NewND => {
            s = fresh(zero);
            apply_defaults(l, &mut s.b, op.k == NewND);
            Ret::Unit
        }
        BSeq | BSeqND => {
            s = fresh(zero);
            apply_defaults(l, &mut s.b, op.k == BSeqND);
            let mut res = Ret::Ok(None);
            for (f, v, c) in &op.seq {
                let f = &l.fields[*f as usize];
                if *c && !fits(f, v) {
                    res = Ret::Err;
                    s = *st;
                    break;
                }
                put_field(&mut s.b, f, v);
            }
            res
        }
        GBit | CGBit => {
            let ok = op.i < n && l.field_at(op.i).map_or(false, |f| f.readable());
            let v = ok && s.b.bit(op.i.min(n - 1));
            if op.k == GBit {
                bb(v)
            } else if ok {
                Ret::Ok(Some(bool_bv(v)))
            } else {
                Ret::Err
            }
        }
        SBit | CSBit => {
            let ok = op.i < n && l.field_at(op.i).map_or(false, |f| f.writable());
            if ok {
                s.b.set(op.i, op.b);
            }
            if op.k == SBit {
                Ret::Unit
            } else if ok {
                Ret::Ok(None)
            } else {
                Ret::Err
            }
        }
        GR | CGR => {
            let oob = op.i as u64 >= n as u64 || op.i as u64 + op.j as u64 > n as u64;
            let mut v = zero;
            let mut all = true;
            if !oob {
                for q in 0..op.j {
                    let p = op.i + q;
                    if l.field_at(p).unwrap().readable() {
                        v.set(q, s.b.bit(p));
                    } else {
                        all = false;
                    }
                }
            }
            if op.k == GR {
                Ret::V(v)
            } else if oob || !all {
                Ret::Err
            } else {
                Ret::Ok(Some(v))
            }
        }
        SR | CSR => {
            let oob = op.i as u64 >= n as u64 || op.i as u64 + op.j as u64 > n as u64;
            let mut all = true;
            let mut nb = s.b;
            let mut toobig = false;
            if !oob {
                for q in 0..op.j {
                    let p = op.i + q;
                    if l.field_at(p).unwrap().writable() {
                        nb.set(p, op.v.bit(q));
                    } else {
                        all = false;
                    }
                }
                for q in op.j..n {
                    if op.v.bit(q) {
                        toobig = true;
                    }
                }
            }
            if op.k == SR {
                if !oob {
                    s.b = nb;
                }
                Ret::Unit
            } else if oob || !all || toobig {
                Ret::Err
            } else {
                s.b = nb;
                Ret::Ok(None)
            }
        }
        From | FromLe | FromBe | FromD | FromLeD | FromBeD | FromT => {
            let le = match op.k {
                FromLe | FromLeD => true,
                FromBe | FromBeD => false,
                _ => l.from_le,
            };
            s = fresh(value_to_storage(l, &op.v, le));
            if matches!(op.k, FromD | FromLeD | FromBeD) {
                apply_defaults(l, &mut s.b, false);
            }
            Ret::Unit
        }
        Into_ | IntoLe | IntoBe | IntoT => {
            let le = match op.k {
                IntoLe => true,
                IntoBe => false,
                _ => l.into_le,
            };
            Ret::V(value_to_storage(l, &s.b, le))
        }
        FS | FSLe | FSBe | FSD | FSLeD | FSBeD | CFS | CFSLe | CFSBe | CFSD | CFSLeD | CFSBeD => {
            let le = match op.k {
                FSLe | FSLeD | CFSLe | CFSLeD => true,
                FSBe | FSBeD | CFSBe | CFSBeD => false,
                _ => l.from_le,
            };
            let checked = matches!(op.k, CFS | CFSLe | CFSBe | CFSD | CFSLeD | CFSBeD);
            let d = matches!(op.k, FSD | FSLeD | FSBeD | CFSD | CFSLeD | CFSBeD);
            // op.v.n / 8 is the slice length; a short slice is padded with zero bytes at its end
            if checked && op.v.n < n {
                Ret::Err
            } else {
                s = fresh(value_to_storage(l, &op.v.resize(n), le));
                if d {
                    apply_defaults(l, &mut s.b, false);
                }
                if checked { Ret::Ok(None) } else { Ret::Unit }
            }
        }
        IS | ISLe | ISBe | CIS | CISLe | CISBe => {
            let le = match op.k {
                ISLe | CISLe => true,
                ISBe | CISBe => false,
                _ => l.into_le,
            };
            let checked = matches!(op.k, CIS | CISLe | CISBe);
            let src = value_to_storage(l, &s.b, le);
            // op.v holds the buffer contents before the call
            let mut buf = op.v;
            let len = op.v.n / 8;
            if checked && len < n / 8 {
                // Err, buffer untouched: observed as Ok(None)/Err plus buffer
                return (s, Ret::Any(vec![(s, Ret::S(show_slice(false, &buf)))]));
            }
            for q in 0..len.min(n / 8) as usize {
                buf.b[q] = src.b[q];
            }
            Ret::S(show_slice(true, &buf))
        }
        W | WLe | WBe | WD | WLeD | WBeD => {
            let le = match op.k {
                WLe | WLeD => true,
                WBe | WBeD => false,
                _ => l.write_le,
            };
            // For byte arrays the write helpers document (and the suite pins) the
            // opposite byte order from the from_* helpers: le reverses.
            let src = if le { op.v.rev_bytes() } else { op.v };
            for f in l.fields {
                if f.writable() {
                    let v = src.ext(f.off, f.bits);
                    s.b.put(f.off, &v);
                }
            }
            if matches!(op.k, WD | WLeD | WBeD) {
                apply_defaults(l, &mut s.b, false);
            }
            Ret::Unit
        }
        WDef => {
            apply_defaults(l, &mut s.b, false);
            Ret::Unit
        }
        Clr => {
            s.b = zero;
            apply_defaults(l, &mut s.b, true);
            Ret::Unit
        }
        ClrD => {
            s.b = zero;
            apply_defaults(l, &mut s.b, false);
            Ret::Unit
        }
        Inv => {
            for f in l.fields {
                if f.writable() {
                    let v = s.b.ext(f.off, f.bits).not();
                    s.b.put(f.off, &v);
                }
            }
            Ret::Unit
        }
        Dbg => Ret::S(model_debug(l, &s, op.b)),
        CloneEq => Ret::Unit,
    };
    (s, r)
}

pub fn show_slice(ok: bool, b: &BV) -> String {
    let mut s = String::from(if ok { "ok:" } else { "err:" });
    for x in b.bytes() {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

fn model_debug(l: &Layout, s: &St, pretty: bool) -> String {
    // name { field: value, ... } in declaration order
    let mut o = String::new();
    o.push_str(l.tname);
    o.push_str(" {");
    for (i, f) in l.fields.iter().enumerate() {
        o.push_str(if pretty {
            "\n    "
        } else if i == 0 {
            " "
        } else {
            ", "
        });
        o.push_str(f.name);
        o.push_str(": ");
        let raw = s.b.ext(f.off, f.bits);
        match f.kind {
            Kind::S => {
                let v = raw.sext(128).u128() as i128;
                let _ = write!(o, "{v}");
            }
            Kind::A if l.array => {
                let bytes = raw.resize(f.ty_bits);
                if pretty {
                    o.push('[');
                    for x in bytes.bytes() {
                        let _ = write!(o, "\n        {x},");
                    }
                    o.push_str("\n    ]");
                } else {
                    let _ = write!(o, "{:?}", bytes.bytes());
                }
            }
            _ => {
                let _ = write!(o, "{}", raw.u128());
            }
        }
        if pretty {
            o.push(',');
        }
    }
    o.push_str(if pretty { "\n}" } else { " }" });
    o
}

/// Lossy custom types: two raw patterns that the type itself cannot tell apart
/// are the same observable state.
pub fn canon(l: &Layout, s: &St) -> St {
    let mut r = *s;
    for f in l.fields {
        if f.kind == Kind::L {
            let raw = r.b.ext(f.off, f.bits).u128();
            let c = BV::from_u128((f.canon)(raw), f.bits);
            r.b.put(f.off, &c);
        }
    }
    r
}

// ------------------------------------------------------------------ domains
fn push(v: &mut Vec<BV>, seen: &mut HashSet<BV>, x: BV) {
    if seen.insert(x) {
        v.push(x);
    }
}

fn interesting_bits(l: &Layout) -> Vec<u32> {
    let n = l.bits;
    if n <= 64 {
        return (0..n).collect();
    }
    let mut s: HashSet<u32> = HashSet::new();
    let mut add = |x: i64| {
        if x >= 0 && x < n as i64 {
            s.insert(x as u32);
        }
    };
    for f in l.fields {
        for d in -1..=1 {
            add(f.off as i64 + d);
            add((f.off + f.bits - 1) as i64 + d);
        }
        add((f.off + f.bits / 2) as i64);
    }
    let mut q = 0i64;
    while q <= n as i64 {
        add(q - 1);
        add(q);
        q += if n > FAR_BITS { n as i64 / 16 } else if n > 256 { 32 } else { 8 };
    }
    for q in [63i64, 64, 65, 127, 128, 129] {
        add(q);
    }
    let mut v: Vec<u32> = s.into_iter().collect();
    v.sort();
    v
}

/// Beyond this many bits the alphabets keep to the ends of the fields.
const FAR_BITS: u32 = 8192;

fn field_ends(l: &Layout) -> Vec<u32> {
    let mut v: Vec<u32> = l.fields.iter().flat_map(|f| [f.off, f.off + f.bits - 1]).collect();
    v.sort();
    v.dedup();
    v
}

/// The boundary alphabet for an n-bit whole value.
pub fn boundary_states(l: &Layout) -> Vec<BV> {
    let n = l.bits;
    let mut v = Vec::new();
    let mut seen = HashSet::new();
    push(&mut v, &mut seen, BV::zero(n));
    push(&mut v, &mut seen, BV::ones(n));
    for pat in [0x55u8, 0xAA, 0x0F, 0xF0] {
        let mut x = BV::zero(n);
        for i in 0..n {
            x.set(i, (pat >> (i % 8)) & 1 == 1);
        }
        push(&mut v, &mut seen, x);
    }
    let mut x = BV::zero(n);
    for i in 0..(n / 8) as usize {
        x.b[i] = (i as u8).wrapping_mul(0x1D).wrapping_add(0x83);
    }
    push(&mut v, &mut seen, x);
    let far = n > FAR_BITS;
    for i in if far { field_ends(l) } else { interesting_bits(l) } {
        let mut x = BV::zero(n);
        x.set(i, true);
        push(&mut v, &mut seen, x);
        if !far {
            push(&mut v, &mut seen, x.not());
        }
    }
    for f in l.fields {
        let mut x = BV::zero(n);
        x.put(f.off, &BV::ones(f.bits));
        push(&mut v, &mut seen, x);
        push(&mut v, &mut seen, x.not());
    }
    v
}

pub fn small_states(l: &Layout) -> Vec<BV> {
    let n = l.bits;
    let mut v = Vec::new();
    let mut seen = HashSet::new();
    push(&mut v, &mut seen, BV::zero(n));
    push(&mut v, &mut seen, BV::ones(n));
    for pat in [0x55u8, 0xAA] {
        let mut x = BV::zero(n);
        for i in 0..n {
            x.set(i, (pat >> (i % 8)) & 1 == 1);
        }
        push(&mut v, &mut seen, x);
    }
    let mut x = BV::zero(n);
    for i in 0..(n / 8) as usize {
        x.b[i] = (i as u8).wrapping_mul(0x1D).wrapping_add(0x83);
    }
    push(&mut v, &mut seen, x);
    v
}

/// every state when n <= lim, else the boundary alphabet
pub fn states(l: &Layout, lim: u32) -> Vec<BV> {
    if l.bits <= lim {
        (0..(1u128 << l.bits)).map(|x| BV::from_u128(x, l.bits)).collect()
    } else {
        boundary_states(l)
    }
}

/// Values of the field type: every one when the type has <= lim bits, else boundaries.
pub fn values(f: &Field, lim: u32) -> Vec<BV> {
    let t = f.ty_bits;
    let mut v = Vec::new();
    let mut seen = HashSet::new();
    if f.kind == Kind::L {
        // only values the type can actually hold
        for x in 0..256u128 {
            if (f.canon)(x) == x {
                push(&mut v, &mut seen, BV::from_u128(x, t));
            }
        }
        return v;
    }
    if t <= lim {
        return (0..(1u128 << t)).map(|x| BV::from_u128(x, t)).collect();
    }
    push(&mut v, &mut seen, BV::zero(t));
    push(&mut v, &mut seen, BV::ones(t));
    push(&mut v, &mut seen, BV::from_u128(1, t));
    let b = f.bits;
    // field max / max+1 / min / min-1 neighbourhoods, signed and unsigned
    let m = BV::ones(b.min(t)).resize(t);
    push(&mut v, &mut seen, m);
    if b < t {
        let mut x = BV::zero(t);
        x.set(b, true);
        push(&mut v, &mut seen, x); // 2^b
        let mut y = x;
        y.set(0, true);
        push(&mut v, &mut seen, y);
    }
    if b > 0 {
        let smax = BV::ones(b - 1).resize(t);
        push(&mut v, &mut seen, smax);
        push(&mut v, &mut seen, smax.not()); // -(2^(b-1))
        let mut h = BV::zero(t);
        h.set(b.min(t) - 1, true);
        push(&mut v, &mut seen, h); // 2^(b-1)
        push(&mut v, &mut seen, h.not()); // -(2^(b-1))-1
    }
    for pat in [0x55u8, 0xAA, 0x1B] {
        let mut x = BV::zero(t);
        for i in 0..t {
            x.set(i, (pat >> (i % 8)) & 1 == 1);
        }
        push(&mut v, &mut seen, x);
        push(&mut v, &mut seen, x.resize(b.min(t)).resize(t));
    }
    let step = if t > 4096 { 1021 } else if t > 256 { 7 } else { 1 };
    let mut i = 0;
    while i < t {
        let mut x = BV::zero(t);
        x.set(i, true);
        push(&mut v, &mut seen, x);
        push(&mut v, &mut seen, x.not());
        i += step;
    }
    v
}

fn short_values(f: &Field) -> Vec<BV> {
    let t = f.ty_bits;
    let mut v = Vec::new();
    let mut seen = HashSet::new();
    if f.kind == Kind::L {
        return values(f, 8).into_iter().take(4).collect();
    }
    push(&mut v, &mut seen, BV::zero(t));
    push(&mut v, &mut seen, BV::ones(t));
    let b = f.bits.min(t);
    push(&mut v, &mut seen, BV::ones(b).resize(t));
    if b < t {
        let mut x = BV::zero(t);
        x.set(b, true);
        x.set(0, true);
        push(&mut v, &mut seen, x);
    }
    let mut x = BV::zero(t);
    for i in 0..t {
        x.set(i, i % 3 == 0);
    }
    push(&mut v, &mut seen, x);
    v
}

/// every length 0..=N+2 and some much longer ones (as far as a bit vector holds them)
fn slice_lens(nb: u32) -> Vec<u32> {
    let mut lens: Vec<u32> = if nb <= 20 { (0..=nb + 2).collect() } else { vec![0, 1, nb / 2, nb - 1, nb, nb + 1] };
    lens.extend([2 * nb, 2 * nb + 1, nb + 8, nb + 16, nb + 64, 127, 128, 255, 256, 256 + nb - 1, 256 + nb, 257 + nb, 512 + nb, 519].into_iter().filter(|x| *x > nb && *x <= MAXB as u32));
    lens.sort();
    lens.dedup();
    lens
}

fn slice_args(l: &Layout, all: &[BV]) -> Vec<BV> {
    // slices of every length 0..=N+2, contents from the state alphabet
    let nb = l.bits / 8;
    let mut v = Vec::new();
    let mut seen = HashSet::new();
    for len in slice_lens(nb) {
        // all contents at the exact length and just above, a spread of them elsewhere
        let step = if len >= nb && len <= nb + 2 { 1 } else { (all.len() / 40).max(1) };
        for p in all.iter().step_by(step) {
            let mut x = p.resize((len * 8).min(l.bits)).resize(len * 8);
            for q in nb..len {
                x.b[q as usize] = 0xEE;
            }
            push(&mut v, &mut seen, x);
        }
    }
    v
}

// ------------------------------------------------------------------ exploration
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    pub max_viol: usize,
    pub traces: u64,
}

fn outcome_hash(l: &Layout, op: &Op, r: &Ret) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    l.name.hash(&mut h);
    op.k.hash(&mut h);
    op.f.hash(&mut h);
    let tag = match r {
        Ret::Unit => 0u8,
        Ret::V(_) => 1,
        Ret::Ok(_) => 2,
        Ret::Err => 3,
        Ret::S(_) => 4,
        Ret::Any(_) => 5,
        Ret::Panic(_) => 6,
    };
    tag.hash(&mut h);
    h.finish()
}

/// the state as it can be loaded
pub fn prep(d: &dyn Dut, st: &St) -> St {
    if d.via_api() { canon(d.layout(), st) } else { *st }
}

pub fn run_real(d: &dyn Dut, st: &St, op: &Op) -> (St, Ret) {
    match catch_unwind(AssertUnwindSafe(|| d.run(st, op))) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".to_string()
            };
            (*st, Ret::Panic(m))
        }
    }
}

impl Stats {
    pub fn new() -> Stats {
        Stats {
            states: 0,
            transitions: 0,
            outcomes: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            max_viol: 3,
            traces: 0,
        }
    }

    /// One transition: real step versus model step.
    pub fn step(&mut self, d: &dyn Dut, st: &St, op: &Op) -> Option<St> {
        let l = d.layout();
        let st = &prep(d, st);
        let (rs, rr) = run_real(d, st, op);
        let (ms, mr) = model(l, st, op);
        self.transitions += 1;
        let lossy = l.fields.iter().any(|f| f.kind == Kind::L);
        let eqs = |a: &St, b: &St| if lossy { canon(l, a) == canon(l, b) } else { a == b };
        let ok = match &mr {
            Ret::Any(alts) => alts.iter().any(|(s, r)| eqs(s, &rs) && *r == rr),
            Ret::S(m) if op.k == K::Dbg => eqs(&ms, &rs) && matches!(&rr, Ret::S(x) if norm_dbg(x) == norm_dbg(m)),
            Ret::V(v) if lossy && op.k == K::Into_ || lossy && matches!(op.k, K::IntoLe | K::IntoBe | K::IntoT) => {
                // raw patterns are reported as they are
                rr == Ret::V(*v) && eqs(&ms, &rs)
            }
            _ => eqs(&ms, &rs) && mr == rr,
        };
        if self.transitions % 101 == 1 {
            self.outcomes.insert(outcome_hash(l, op, &rr));
        }
        if self.samples.len() < 4 && self.transitions % 7919 == 1 {
            self.samples.push(format!("{} state={:?} {} -> {:?} state'={:?}", l.name, st.b, op.show(l), rr, rs.b));
        }
        if !ok {
            if self.violations.len() < self.max_viol {
                self.violations.push(format!(
                    "layout {}\n--- declaration\n{}\n--- transition\nstate    : {:?} ignored={}\noperation: {}\nexpected : {:?} state'={:?} ignored'={}\nobserved : {:?} state'={:?} ignored'={}\n",
                    l.name, l.decl, st.b, st.x, op.show(l), mr, ms.b, ms.x, rr, rs.b, rs.x
                ));
            }
            return None;
        }
        Some(rs)
    }

    pub fn fail(&mut self, l: &Layout, what: String) {
        if self.violations.len() < self.max_viol {
            self.violations.push(format!("layout {}\n--- declaration\n{}\n--- finding\n{}\n", l.name, l.decl, what));
        }
    }
}

/// bool fields may be shown as 0/1 or false/true
fn norm_dbg(s: &str) -> String {
    s.replace(": true", ": 1").replace(": false", ": 0")
}

pub fn pick_ops(l: &Layout, kinds: &[K], tier: u32, states_: &[BV]) -> Vec<Op> {
    use K::*;
    let mut ops = Vec::new();
    let vlim = if l.bits > FAR_BITS { 4 } else { 8 };
    let n = l.bits;
    for &k in kinds {
        if l.off.contains(&k) {
            continue;
        }
        match k {
            Get | Inverted => {
                for (i, f) in l.fields.iter().enumerate() {
                    if f.has_getter() {
                        ops.push(Op::f(k, i));
                    }
                }
            }
            Set | CSet => {
                for (i, f) in l.fields.iter().enumerate() {
                    if f.writable() {
                        for v in values(f, vlim) {
                            ops.push(Op::fv(k, i, v));
                        }
                    }
                }
            }
            InvF | ClrF => {
                for (i, f) in l.fields.iter().enumerate() {
                    if f.writable() {
                        ops.push(Op::f(k, i));
                    }
                }
            }
            ClrFD => {
                for (i, f) in l.fields.iter().enumerate() {
                    if f.writable() && f.default.is_some() {
                        ops.push(Op::f(k, i));
                    }
                }
            }
            CBits | COff => {
                for (i, f) in l.fields.iter().enumerate() {
                    if f.consts {
                        ops.push(Op::f(k, i));
                    }
                }
            }
            GBit | CGBit | SBit | CSBit => {
                let mut offs: Vec<u32> = if n <= 128 { (0..n + 3).collect() } else { let mut o = interesting_bits(l); o.extend([n, n + 1, n + 7]); o };
                offs.extend([n * 2, n + 8, n + 64, n + 128, 255, 256, 256 + n - 1, 1 << 15, 1 << 16, (1 << 16) + 1, (1 << 16) + n - 1, (1 << 24) + 2, u32::MAX - 1, u32::MAX, 1 << 31, (1 << 31) + 1]);
                offs.sort();
                offs.dedup();
                for i in offs {
                    if matches!(k, GBit | CGBit) {
                        ops.push(Op { i, ..Op::k(k) });
                    } else {
                        for b in [false, true] {
                            ops.push(Op { i, b, ..Op::k(k) });
                        }
                    }
                }
            }
            GR | CGR | SR | CSR => {
                let base: Vec<u32> = if n <= 32 { (0..n + 2).collect() } else if n > FAR_BITS {
                    let mut o: Vec<u32> = l.fields.iter().map(|f| f.off).collect();
                    o.extend([8, n - 1, n, n + 1, (1 << 16) - 1, (1 << 16) + 1]);
                    o
                } else {
                    let mut o: Vec<u32> = Vec::new();
                    for f in l.fields { o.extend([f.off, f.off + f.bits, f.off + f.bits / 2]); if f.off > 0 { o.push(f.off - 1) } o.push(f.off + f.bits - 1); o.push(f.off + 1); }
                    o.extend([0, 1, 7, 8, 9, n - 1, n, n + 1, n / 2, 63, 64, 65]);
                    o
                };
                let mut offs = base.clone();
                offs.extend([u32::MAX, u32::MAX - n + 1, 1 << 31, 256, 1 << 16]);
                offs.sort();
                offs.dedup();
                for &i in &offs {
                    let mut lens: Vec<u32> = if n <= 32 { base.clone() } else {
                        let mut o = if n > FAR_BITS { vec![0, 1, 9, 64, n] } else { vec![0, 1, 2, 7, 8, 9, 63, 64, 65, n] };
                        for &e in &base { if e >= i { o.push(e - i) } }
                        if i < n { o.extend([n - i, n - i + 1]) }
                        o
                    };
                    lens.extend([u32::MAX, u32::MAX - i, (u32::MAX - i).wrapping_add(1), (u32::MAX - i).wrapping_add(2), 1 << 31]);
                    lens.sort();
                    lens.dedup();
                    for j in lens {
                        if matches!(k, GR | CGR) {
                            ops.push(Op { i, j, ..Op::k(k) });
                        } else {
                            let mut vs = vec![BV::zero(n), BV::ones(n)];
                            for pat in [0x55u8, 0xA6] {
                                let mut x = BV::zero(n);
                                for q in 0..n { x.set(q, (pat >> (q % 8)) & 1 == 1) }
                                vs.push(x);
                            }
                            let full: Vec<BV> = vs.clone();
                            for v in full {
                                vs.push(v.resize(j.min(n)).resize(n));
                            }
                            vs.sort_by(|a, b| a.b.cmp(&b.b));
                            vs.dedup();
                            // values one bit too large for the range, at every distance worth telling apart
                            let dist: &[u32] = if n > FAR_BITS { &[0, 64] } else { &[0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128] };
                            for &q in dist {
                                for p in [j.saturating_add(q), n.saturating_sub(1 + q)] {
                                    if p < n && p >= j {
                                        for low in [false, true] {
                                            let mut x = BV::zero(n);
                                            x.set(p, true);
                                            if low { x.set(0, true) }
                                            vs.push(x);
                                        }
                                    }
                                }
                            }
                            vs.sort_by(|a, b| a.b.cmp(&b.b));
                            vs.dedup();
                            for v in vs {
                                ops.push(Op { i, j, v, ..Op::k(k) });
                            }
                        }
                    }
                }
            }
            From | FromLe | FromBe | FromD | FromLeD | FromBeD | FromT | W | WLe | WBe | WD | WLeD | WBeD => {
                for v in states_ {
                    ops.push(Op::v(k, *v));
                }
            }
            FS | FSLe | FSBe | FSD | FSLeD | FSBeD | CFS | CFSLe | CFSBe | CFSD | CFSLeD | CFSBeD => {
                for v in slice_args(l, states_) {
                    ops.push(Op::v(k, v));
                }
            }
            IS | ISLe | ISBe | CIS | CISLe | CISBe => {
                let nb = l.bits / 8;
                for len in slice_lens(nb) {
                    let mut v = BV::zero(len * 8);
                    for q in 0..len as usize { v.b[q] = 0xC1u8.wrapping_add(q as u8) }
                    ops.push(Op { v, j: len, ..Op::k(k) });
                }
            }
            BSeq | BSeqND => {
                // single calls with the whole value domain
                ops.push(Op::k(k));
                let bf: Vec<usize> = (0..l.fields.len()).filter(|&i| l.fields[i].builder()).collect();
                for &i in &bf {
                    for v in values(&l.fields[i], 8) {
                        for c in [false, true] {
                            ops.push(Op { seq: vec![(i as u16, v, c)], ..Op::k(k) });
                        }
                    }
                }
                // every ordered pair of calls over the short value alphabet (two values if there are many fields)
                let vals: Vec<Vec<BV>> = bf.iter().map(|&i| short_values(&l.fields[i]).into_iter().take(if bf.len() > 24 { 2 } else { 99 }).collect()).collect();
                for (&i, vi) in bf.iter().zip(&vals) {
                    for &v in vi {
                        for (&j, vj) in bf.iter().zip(&vals) {
                            for &w in vj {
                                for c in 0..4 {
                                    ops.push(Op { seq: vec![(i as u16, v, c & 1 == 1), (j as u16, w, c & 2 == 2)], ..Op::k(k) });
                                }
                            }
                        }
                    }
                }
                // all fields, every combination of two values each, forwards and backwards
                if bf.len() <= 8 {
                    for m in 0..(1u32 << bf.len()) {
                        let mut seq: Vec<(u16, BV, bool)> = Vec::new();
                        for (q, &i) in bf.iter().enumerate() {
                            let sv = short_values(&l.fields[i]);
                            seq.push((i as u16, sv[if (m >> q) & 1 == 1 { sv.len() - 1 } else { 0 }], false));
                        }
                        ops.push(Op { seq: seq.clone(), ..Op::k(k) });
                        seq.reverse();
                        ops.push(Op { seq, ..Op::k(k) });
                    }
                }
            }
            New | NewND | Def | BDef | Into_ | IntoLe | IntoBe | IntoT | WDef | Clr | ClrD | Inv | Dbg | CloneEq => {
                ops.push(Op::k(k));
                if k == Dbg {
                    ops.push(Op { b: true, ..Op::k(k) });
                }
            }
        }
    }
    ops
}

pub struct Cfg {
    pub tier: u32,
    pub only: Option<String>,
}

fn load_states(l: &Layout, bvs: &[BV]) -> Vec<St> {
    bvs.iter()
        .map(|b| St { b: *b, x: l.x_load })
        .collect()
}

/// state-independent operations only need a couple of source states
fn state_free(k: K) -> bool {
    use K::*;
    matches!(
        k,
        New | NewND | Def | BDef | BSeq | BSeqND | From | FromLe | FromBe | FromD | FromLeD | FromBeD | FromT | FS | FSLe | FSBe | FSD | FSLeD | FSBeD
            | CFS | CFSLe | CFSBe | CFSD | CFSLeD | CFSBeD | CBits | COff
    )
}

/// The standard exploration: every state of the state set x every operation of the alphabet.
pub fn explore(d: &dyn Dut, kinds: &[K], tier: u32, st: &mut Stats) {
    let l = d.layout();
    let lim = if l.bits <= 8 { 8 } else if tier > 0 { 16 } else { 8 };
    let all = states(l, lim);
    let small = small_states(l);
    let args = states(l, if l.bits <= 16 && MAXB <= 128 { 16 } else { 8 });
    let args_small = boundary_states(l);
    for &k in kinds {
        use K::*;
        let big_args = matches!(k, W | WLe | WBe | WD | WLeD | WBeD);
        if state_free(k) {
            let ops = pick_ops(l, &[k], tier, &args);
            let src = load_states(l, &small[..1.min(small.len())]);
            st.traces += ops.len() as u64;
            for s in &src {
                for op in &ops {
                    st.step(d, s, op);
                }
            }
            continue;
        }
        if big_args {
            // all states x boundary arguments, and boundary states x all arguments
            let s_all = load_states(l, &all);
            st.traces += args.len() as u64;
            for op in pick_ops(l, &[k], tier, &if l.bits <= 8 { all.clone() } else { small.clone() }) {
                for s in &s_all {
                    st.step(d, s, &op);
                }
            }
            let s_small = load_states(l, &small);
            for op in pick_ops(l, &[k], tier, if l.bits <= 16 { &args } else { &args_small }) {
                for s in &s_small {
                    st.step(d, s, &op);
                }
            }
            continue;
        }
        let ops = pick_ops(l, &[k], tier, &small);
        st.traces += ops.len() as u64;
        let heavy = ops.len() > 3000 && l.bits > 8;
        let s_all = load_states(l, if heavy && tier == 0 { &small } else if heavy { &args_small } else { &all });
        for s in &s_all {
            for op in &ops {
                st.step(d, s, op);
            }
        }
    }
    st.states += all.len() as u64;
}

/// Breadth-first search over the real implementation: start from every constructor,
/// apply every operation of the (small) alphabet, deduplicate states, run to fixpoint
/// or to `cap` states. Every transition is compared with the model as well.
pub fn bfs(d: &dyn Dut, ctors: &[Op], ops: &[Op], cap: usize, st: &mut Stats) -> (usize, usize, bool) {
    let l = d.layout();
    let mut seen: HashMap<St, usize> = HashMap::new();
    let mut frontier: Vec<St> = Vec::new();
    let s0 = St { b: BV::zero(l.bits), x: 0 };
    for c in ctors {
        if let Some(s) = st.step(d, &s0, c) {
            if !seen.contains_key(&s) {
                seen.insert(s, 0);
                frontier.push(s);
            }
        }
    }
    let mut depth = 0;
    let mut complete = true;
    while !frontier.is_empty() {
        if seen.len() >= cap {
            complete = false;
            break;
        }
        depth += 1;
        let mut next = Vec::new();
        for s in &frontier {
            for op in ops {
                if let Some(t) = st.step(d, s, op) {
                    if !seen.contains_key(&t) {
                        seen.insert(t, depth);
                        next.push(t);
                    }
                }
            }
        }
        frontier = next;
    }
    st.states += seen.len() as u64;
    st.traces += seen.len() as u64;
    (seen.len(), depth, complete)
}

// ------------------------------------------------------------------ per-property plans
pub fn kinds_for(prop: &str) -> Vec<K> {
    use K::*;
    match prop {
        "C01" => vec![CBits, COff, Get, Set],
        "C02" => vec![Get, Set],
        "C03" => vec![Get, Set, CSet, Inverted, New, NewND, Def, BDef, BSeq, From, FromD, Dbg, W, ClrFD],
        "C04" => vec![CSet, BSeq],
        "C05" => vec![New, NewND, Def, BDef, BSeq, BSeqND],
        "C06" => vec![BSeq, BSeqND, BDef],
        "C07" => vec![From, FromLe, FromBe, FromD, FromLeD, FromBeD, FromT, Into_, IntoLe, IntoBe, IntoT],
        "C08" => vec![
            From, FromLe, FromBe, FromD, FromLeD, FromBeD, FromT, Into_, IntoLe, IntoBe, IntoT, FS, FSLe, FSBe, FSD, FSLeD, FSBeD, CFS, CFSLe, CFSBe, CFSD,
            CFSLeD, CFSBeD, IS, ISLe, ISBe, CIS, CISLe, CISBe,
        ],
        "C09" => vec![W, WLe, WBe, WD, WLeD, WBeD, WDef],
        "C10" => vec![GBit, CGBit, SBit, CSBit],
        "C11" => vec![GR, CGR, SR, CSR],
        "C12" => vec![Clr, ClrD, ClrF, ClrFD],
        "C13" => vec![Inv, InvF, Inverted],
        _ => vec![],
    }
}

fn sub_alphabet(l: &Layout, kinds: &[K]) -> Vec<Op> {
    // alphabet for history exploration: short argument domains
    use K::*;
    let mut ops = Vec::new();
    for &k in kinds {
        if l.off.contains(&k) {
            continue;
        }
        match k {
            Set | CSet => {
                for (i, f) in l.fields.iter().enumerate() {
                    if f.writable() {
                        for v in short_values(f) {
                            ops.push(Op::fv(k, i, v));
                        }
                    }
                }
            }
            SR | CSR | GR | CGR => {
                let n = l.bits;
                let mut offs = vec![0, 1, n / 2, n - 1];
                for f in l.fields { offs.push(f.off) }
                offs.sort();
                offs.dedup();
                for &i in &offs {
                    let mut lens = vec![1, n - i, (n - i) / 2 + 1, n];
                    for f in l.fields { if f.off >= i { lens.push(f.off + f.bits - i) } }
                    lens.sort();
                    lens.dedup();
                    for j in lens {
                        for v in [BV::zero(n), BV::ones(n.min(j)).resize(n)] {
                            ops.push(Op { i, j, v, ..Op::k(k) });
                        }
                    }
                }
            }
            SBit | CSBit | GBit | CGBit => {
                let offs: Vec<u32> = if l.bits <= 32 { (0..=l.bits).collect() } else { interesting_bits(l) };
                for i in offs {
                    for b in [false, true] {
                        ops.push(Op { i, b, ..Op::k(k) });
                    }
                }
            }
            W | WLe | WBe | WD | WLeD | WBeD | From | FromLe | FromBe | FromD => {
                for v in small_states(l) {
                    ops.push(Op::v(k, v));
                }
            }
            _ => ops.extend(pick_ops(l, &[k], 0, &[])),
        }
    }
    ops
}

/// C14: protection over histories.
pub fn protection(d: &dyn Dut, tier: u32, st: &mut Stats) {
    use K::*;
    let l = d.layout();
    let mutators = [Set, CSet, InvF, ClrF, ClrFD, SBit, CSBit, SR, CSR, W, WLe, WBe, Inv];
    let ops = sub_alphabet(l, &mutators);
    let n = l.bits;
    let mut protected = BV::zero(n);
    let mut unreadable = BV::zero(n);
    for f in l.fields {
        for i in f.off..f.off + f.bits {
            protected.set(i, !f.writable());
            unreadable.set(i, !f.readable());
        }
    }
    let all = if l.bits <= 8 { states(l, 8) } else { let mut v = boundary_states(l); if tier == 0 { v.truncate(60) } v };
    st.traces += ops.len() as u64;
    // (a) inductive step: from every state no mutator of any kind moves a protected bit
    for b in &all {
        let s = prep(d, &St { b: *b, x: l.x_load });
        st.states += 1;
        for op in &ops {
            let (t, r) = run_real(d, &s, op);
            st.transitions += 1;
            if let Ret::Panic(m) = &r {
                st.fail(l, format!("state={:?} {} panicked: {m}", s.b, op.show(l)));
                continue;
            }
            for i in 0..n {
                if protected.bit(i) && t.b.bit(i) != s.b.bit(i) {
                    st.fail(l, format!("state={:?} {} changed protected bit {i}: state'={:?}", s.b, op.show(l), t.b));
                    break;
                }
            }
        }
    }
    // (b) non-interference: readers must not depend on unreadable bits
    let mut readers = sub_alphabet(l, &[GBit, CGBit, GR, CGR]);
    readers.extend(pick_ops(l, &[Get, Inverted], 0, &[]));
    st.traces += readers.len() as u64;
    for b in &all {
        let mut lo = *b;
        let mut hi = *b;
        for i in 0..n {
            if unreadable.bit(i) {
                lo.set(i, false);
                hi.set(i, true);
            }
        }
        let x = l.x_load;
        let (slo, shi) = (St { b: lo, x }, St { b: hi, x });
        for op in &readers {
            let a = run_real(d, &slo, op).1;
            let c = run_real(d, &shi, op).1;
            st.transitions += 2;
            if a != c {
                st.fail(l, format!("{} reveals write-only/no-access bits: state={:?} -> {:?}, state={:?} -> {:?}", op.show(l), lo, a, hi, c));
            }
        }
    }
    // (c) histories from the constructors, explored breadth first
    if l.bits <= 16 {
        let ctors: Vec<Op> = [New, NewND].into_iter().filter(|k| !l.off.contains(k)).map(Op::k).collect();
        let cap = if tier == 0 { 400 } else { 70_000 };
        let hist = sub_alphabet(l, &[Set, CSet, SBit, InvF, Inv, ClrF, W, SR]);
        let (ns, dep, complete) = bfs(d, &ctors, &hist, cap, st);
        if st.samples.len() < 6 {
            st.samples.push(format!("{} history search: {ns} reachable states, depth {dep}, fixpoint={complete}", l.name));
        }
    }
}

fn conv(k: K) -> bool {
    use K::*;
    matches!(k, From | FromLe | FromBe | FromD | FromLeD | FromBeD | FromT)
}

/// C15: two declarations of the same fields over different storage behave alike.
pub fn differential(a: &dyn Dut, b: &dyn Dut, tier: u32, st: &mut Stats) {
    use K::*;
    let l = a.layout();
    let mut kinds = vec![
        Get, Set, CSet, Inverted, InvF, ClrF, ClrFD, GBit, CGBit, SBit, CSBit, GR, CGR, SR, CSR, New, NewND, Def, BDef, Inv, Clr, ClrD, WDef, CBits, COff, BSeq, BSeqND, Dbg,
        From, FromLe, FromBe, FromD, FromLeD, FromBeD, FromT, Into_, IntoLe, IntoBe, IntoT,
    ];
    if a.layout().array && b.layout().array {
        kinds.extend([
            W, WLe, WBe, WD, WLeD, WBeD, FS, FSLe, FSBe, FSD, FSLeD, FSBeD, CFS, CFSLe, CFSBe, CFSD, CFSLeD, CFSBeD, IS, ISLe, ISBe, CIS, CISLe, CISBe,
        ]);
    }
    // Debug shows a byte-array field of integer storage as its packed integer
    if l.array != b.layout().array && l.fields.iter().any(|f| f.kind == Kind::A) {
        kinds.retain(|k| *k != Dbg);
    }
    let small = small_states(l);
    let all = if l.bits <= 8 { states(l, 8) } else { boundary_states(l) };
    let both_array = l.array == b.layout().array;
    for k in kinds {
        let ops = if matches!(k, Set | CSet) { pick_ops(l, &[k], tier, &all) } else if conv(k) { pick_ops(l, &[k], tier, &all) } else if matches!(k, W | WLe | WBe | WD | WLeD | WBeD) { pick_ops(l, &[k], tier, &small) } else if l.array && matches!(k, FS | FSLe | FSBe | FSD | FSLeD | FSBeD | CFS | CFSLe | CFSBe | CFSD | CFSLeD | CFSBeD | IS | ISLe | ISBe | CIS | CISLe | CISBe) { pick_ops(l, &[k], tier, &small[..small.len().min(4)]) } else { sub_alphabet(l, &[k]) };
        st.traces += ops.len() as u64;
        let src: Vec<BV> = if state_free(k) || ops.len() > 2000 || matches!(k, Dbg | IS | ISLe | ISBe | CIS | CISLe | CISBe) { small_states(l) } else { all.clone() };
        for s in &src {
            let s = St { b: *s, x: l.x_load };
            for op in &ops {
                let ra = run_real(a, &s, op);
                // an array's byte string is the integer's bytes most significant first
                let opb = if !both_array && conv(k) { Op { v: op.v.rev_bytes(), ..op.clone() } } else { op.clone() };
                let mut rb = run_real(b, &s, &opb);
                if !both_array && matches!(k, Into_ | IntoLe | IntoBe | IntoT) {
                    if let Ret::V(v) = &rb.1 {
                        rb.1 = Ret::V(v.rev_bytes());
                    }
                }
                st.transitions += 2;
                if st.transitions % 202 == 2 {
                    st.outcomes.insert(outcome_hash(l, op, &ra.1));
                }
                if st.samples.len() < 4 && st.transitions % 15838 == 2 {
                    st.samples.push(format!("{} / {} state={:?} {} -> {:?} state'={:?}", l.name, b.layout().name, s.b, op.show(l), ra.1, ra.0.b));
                }
                if ra != rb || matches!(ra.1, Ret::Panic(_)) {
                    st.fail(l, format!("storage variants disagree: state={:?} {}\n {} -> {:?} state'={:?}\n {} -> {:?} state'={:?}\n--- other declaration\n{}", s.b, op.show(l), a.layout().name, ra.1, ra.0.b, b.layout().name, rb.1, rb.0.b, b.layout().decl));
                }
            }
        }
    }
    st.states += all.len() as u64;
}

/// C26: a bitfield is a plain value of its storage's size; clones are independent; no hidden allocation.
/// operations on an existing value (heap storage is only allocated by constructors and clones)
fn in_place(k: K) -> bool {
    use K::*;
    !matches!(
        k,
        New | NewND | Def | BDef | BSeq | BSeqND | From | FromLe | FromBe | FromD | FromLeD | FromBeD | FromT | FS | FSLe | FSBe | FSD | FSLeD | FSBeD | CFS | CFSLe | CFSBe | CFSD
            | CFSLeD | CFSBeD
    )
}

pub fn plain_value(d: &dyn Dut, tier: u32, st: &mut Stats) {
    use K::*;
    let l = d.layout();
    if let Some([s, a, s0, a0]) = d.sizes() {
        if !l.has_x && (s, a) != (s0, a0) {
            st.fail(l, format!("size {s} align {a}, but the storage has size {s0} align {a0}"));
        }
        if l.has_x && s < s0 {
            st.fail(l, format!("size {s} is smaller than the storage's {s0}"));
        }
    }
    let small = small_states(l);
    let mut ops = Vec::new();
    for k in [
        Get, Set, CSet, Inverted, InvF, ClrF, ClrFD, CBits, COff, BSeq, BSeqND, GBit, CGBit, SBit, CSBit, GR, CGR, SR, CSR, New, NewND, Def, BDef, From, FromLe, FromBe,
        FromD, FromLeD, FromBeD, FromT, Into_, IntoLe, IntoBe, IntoT, W, WLe, WBe, WD, WLeD, WBeD, WDef, Clr, ClrD, Inv, Dbg,
    ] {
        match k {
            Set | CSet | SR | CSR | GR | CGR | SBit | CSBit | GBit | CGBit => {
                let mut o = sub_alphabet(l, &[k]);
                if tier == 0 && o.len() > 120 {
                    let step = o.len() / 120 + 1;
                    o = o.into_iter().step_by(step).collect();
                }
                ops.extend(o)
            }
            BSeq | BSeqND => ops.extend(pick_ops(l, &[k], 0, &small).into_iter().step_by(if tier == 0 { 17 } else { 3 })),
            _ => ops.extend(pick_ops(l, &[k], 0, &small)),
        }
    }
    if l.array {
        for k in [FS, FSLe, FSBe, FSD, FSLeD, FSBeD, CFS, CFSLe, CFSBe, CFSD, CFSLeD, CFSBeD, IS, ISLe, ISBe, CIS, CISLe, CISBe] {
            ops.extend(pick_ops(l, &[k], 0, &small[1..3]));
        }
    }
    st.traces += ops.len() as u64;
    let src = if l.bits <= 8 && tier > 0 { states(l, 8) } else if tier > 0 { boundary_states(l) } else { small.clone() };
    let lossy = l.fields.iter().any(|f| f.kind == Kind::L);
    let eqs = |a: &St, b: &St| if lossy { canon(l, a) == canon(l, b) } else { a == b };
    for b in &src {
        let s = prep(d, &St { b: *b, x: l.x_load });
        st.states += 1;
        for op in &ops {
            set_last_allocs(0);
            let next = st.step(d, &s, op);
            if (!l.heap || in_place(op.k)) && last_allocs() != 0 {
                st.fail(l, format!("state={:?} {} allocated {} time(s)", s.b, op.show(l), last_allocs()));
            }
            let Some(next) = next else { continue };
            if !l.clone {
                continue;
            }
            for on_clone in [true, false] {
                let r = catch_unwind(AssertUnwindSafe(|| d.twin(&s, op, on_clone)));
                st.transitions += 1;
                match r {
                    Ok(None) => {}
                    Ok(Some((orig, cl, _))) => {
                        let (used, other) = if on_clone { (cl, orig) } else { (orig, cl) };
                        if other != s || !eqs(&used, &next) {
                            st.fail(
                                l,
                                format!(
                                    "state={:?}: {} on the {} left original={:?}/{} clone={:?}/{}",
                                    s.b, op.show(l), if on_clone { "clone" } else { "original" }, orig.b, orig.x, cl.b, cl.x
                                ),
                            );
                        }
                    }
                    Err(_) => st.fail(l, format!("state={:?}: {} after clone panicked", s.b, op.show(l))),
                }
            }
        }
    }
}

pub fn selftest() {
    // the bit-by-bit model agrees with plain integer arithmetic on a full 8-bit domain
    for x in 0..256u128 {
        let b = BV::from_u128(x, 8);
        assert_eq!(b.u128(), x);
        assert_eq!(b.not().u128(), (!x) & 0xFF);
        for off in 0..8u32 {
            for w in 1..=(8 - off) {
                assert_eq!(b.ext(off, w).u128(), (x >> off) & ((1 << w) - 1));
                assert_eq!(b.ext(off, w).sext(8).u128() as u8 as i8, ((((x >> off) as u8) << (8 - w)) as i8) >> (8 - w));
            }
        }
    }
    assert_eq!(BV::from_u128(0x1234, 16).rev_bytes().u128(), 0x3412);
}

/// Entry point of every generated explorer binary.
/// args: <property> <tier 0|1> <result file> [layout]
pub fn main_run(duts: &[(&'static str, Box<dyn Dut>)], pairs: &[(usize, usize)]) {
    std::panic::set_hook(Box::new(|_| {}));
    selftest();
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let tier: u32 = a[2].parse().unwrap();
    let only = a.get(4).cloned();
    let mut st = Stats::new();
    let mut n_layouts = 0u64;
    let mut all_v = Vec::new();
    let t0 = std::time::Instant::now();
    let run = |st: &mut Stats, d: &dyn Dut| match prop.as_str() {
        "C14" => protection(d, tier, st),
        "C26" | "C28" | "C29" => plain_value(d, tier, st),
        "C16" | "C17" | "C24" => {
            let l = d.layout();
            use K::*;
            let mut kinds = vec![
                Get, Set, CSet, Inverted, InvF, ClrF, ClrFD, New, NewND, Def, BDef, BSeq, Inv, Clr, ClrD, W, WLe, WBe, WD, WDef, From, FromLe, FromBe, FromD, FromT, Into_,
                IntoLe, IntoBe, IntoT, CBits, COff,
            ];
            if prop == "C24" {
                kinds.extend([SBit, CSBit, SR, CSR, GBit, GR]);
            }
            if l.array {
                kinds.extend([FS, FSD, CFS, IS, CIS]);
            }
            explore(d, &kinds, tier, st)
        }
        "C23" => {
            let l = d.layout();
            explore(d, &[K::Dbg], 1.min(if l.bits <= 16 { 1 } else { 0 }), st)
        }
        p => explore(d, &kinds_for(p), tier, st),
    };
    for (name, d) in duts {
        if let Some(o) = &only {
            if o != name {
                continue;
            }
        }
        if prop == "C15" {
            break;
        }
        n_layouts += 1;
        st.violations.clear();
        run(&mut st, d.as_ref());
        all_v.extend(st.violations.iter().take(2).cloned());
    }
    if prop == "C15" {
        for &(i, j) in pairs {
            n_layouts += 1;
            st.violations.clear();
            differential(duts[i].1.as_ref(), duts[j].1.as_ref(), tier, &mut st);
            all_v.extend(st.violations.iter().take(2).cloned());
        }
    }
    let mut o = String::new();
    writeln!(o, "layouts {n_layouts}").unwrap();
    writeln!(o, "states {}", st.states).unwrap();
    writeln!(o, "transitions {}", st.transitions).unwrap();
    writeln!(o, "outcomes {}", st.outcomes.len()).unwrap();
    writeln!(o, "traces {}", st.traces).unwrap();
    writeln!(o, "ms {}", t0.elapsed().as_millis()).unwrap();
    for s in &st.samples {
        writeln!(o, "sample {}", s.replace('\n', " ")).unwrap();
    }
    for v in &all_v {
        writeln!(o, "violation {}", v.replace('\n', "\u{1}")).unwrap();
    }
    std::fs::write(&a[3], o).unwrap();
}
