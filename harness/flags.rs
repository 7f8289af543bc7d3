// Exhaustive exploration of generated bitflag enums against the decoding model.
pub struct Flag {
    pub name: &'static str,
    pub decl: &'static str,
    pub bits: u32,
    pub values: &'static [u128],
    /// index of the variant every other input decodes to
    pub fallback: usize,
    pub from_le: bool,
    pub into_le: bool,
    pub from: fn(u128) -> usize,
    pub into: fn(usize) -> u128,
    /// (input, decoded-and-encoded again), evaluated at compile time
    pub consts: &'static [(u128, u128)],
}

fn swap(x: u128, bits: u32) -> u128 {
    x.swap_bytes() >> (128 - bits)
}
fn conv(x: u128, bits: u32, le: bool) -> u128 {
    if le { swap(x, bits) } else { x }
}
fn model_from(f: &Flag, x: u128) -> usize {
    let y = conv(x, f.bits, f.from_le);
    f.values.iter().position(|v| *v == y).unwrap_or(f.fallback)
}
fn model_into(f: &Flag, i: usize) -> u128 {
    conv(f.values[i], f.bits, f.into_le)
}

fn inputs(f: &Flag, lim: u32) -> Vec<u128> {
    let mask = if f.bits == 128 { u128::MAX } else { (1 << f.bits) - 1 };
    if f.bits <= lim {
        return (0..=mask).collect();
    }
    let mut s = std::collections::BTreeSet::new();
    let mut near = |c: u128| {
        for d in [0u128, 1, 2, 3, 255, 256] {
            s.insert(c.wrapping_add(d) & mask);
            s.insert(c.wrapping_sub(d) & mask);
        }
        for k in 0..f.bits {
            s.insert((c ^ (1 << k)) & mask);
        }
    };
    for v in f.values {
        near(*v);
        near(swap(*v, f.bits));
        near(!*v);
        // truncations and sign/zero extensions of the value
        for k in [8u32, 16, 32, 64] {
            if k < f.bits {
                near(*v & ((1 << k) - 1));
                near(*v | (mask << k));
                near((*v << k) & mask);
            }
        }
    }
    near(0);
    near(mask);
    for x in 0..=65535u128 {
        s.insert(x & mask);
        s.insert(swap(x & mask, f.bits));
    }
    s.into_iter().collect()
}

pub fn main_run(flags: &[&Flag]) {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::env::args().nth(1).unwrap();
    let mut o = String::new();
    let (mut states, mut trans, mut traces) = (0u64, 0u64, 0u64);
    let mut samples = 0;
    for f in flags {
        let mut nv = 0;
        let mut bad = |o: &mut String, what: String| {
            nv += 1;
            if nv <= 2 {
                o.push_str(&format!("violation {}\u{1}{}\u{1}{}\n", f.name, f.decl.replace('\n', "\u{1}"), what));
            }
        };
        let ins = inputs(f, 16);
        states += ins.len() as u64;
        traces += 1 + f.values.len() as u64;
        for x in ins {
            trans += 1;
            let e = model_from(f, x);
            match std::panic::catch_unwind(|| (f.from)(x)) {
                Ok(g) if g == e => {}
                g => bad(&mut o, format!("from_bits({x:#x}): expected variant #{e}, got {:?}", g.ok())),
            }
        }
        for i in 0..f.values.len() {
            trans += 2;
            let e = model_into(f, i);
            match std::panic::catch_unwind(|| (f.into)(i)) {
                Ok(g) if g == e => {
                    if f.from_le == f.into_le {
                        let back = (f.from)(g);
                        if back != i {
                            bad(&mut o, format!("from_bits(into_bits(variant #{i})) is variant #{back}"));
                        }
                    }
                }
                g => bad(&mut o, format!("into_bits(variant #{i}): expected {e:#x}, got {:x?}", g.ok())),
            }
        }
        for (x, y) in f.consts {
            trans += 1;
            let e = model_into(f, model_from(f, *x));
            if e != *y {
                bad(&mut o, format!("const evaluation: from_bits({x:#x}).into_bits() expected {e:#x}, got {y:#x}"));
            }
        }
        if samples < 4 && traces % 5 == 0 {
            samples += 1;
            o.push_str(&format!("sample {} fallback=#{} values={:x?} from_le={} into_le={}: from_bits({:#x}) = #{}\n", f.name, f.fallback, f.values, f.from_le, f.into_le, f.values[0], (f.from)(f.values[0])));
        }
    }
    o.push_str(&format!("layouts {}\nstates {states}\ntransitions {trans}\ntraces {traces}\n", flags.len()));
    std::fs::write(out, o).unwrap();
}
