//! C36: DOS executable headers.

use crate::model::util::same_bytes;
use crate::rt;
use tmp::msdosmz::{self, Header, HeaderExt, Relocation};

fn le16(b: &[u8], at: usize) -> u16 {
    b[at] as u16 | (b[at + 1] as u16) << 8
}

fn le32(b: &[u8], at: usize) -> u32 {
    le16(b, at) as u32 | (le16(b, at + 2) as u32) << 16
}

/// Import any image, read every field, and export it again; then change one
/// field and see that only its bytes change.
pub fn c36_fields() {
    macro_rules! image {
        ($ty:ty, $size:expr, [$($at:expr => $field:ident),*], [$($bat:expr, $blen:expr => $bytes:ident),*], [$($lat:expr => $long:ident),*]) => {{
            let b = rt::bytes::<$size>();
            let mut h = <$ty>::from_bytes(&b);
            rt::check(core::mem::size_of::<$ty>() == $size, 1);
            rt::check(same_bytes(h.as_bytes(), &b), 2);
            $(rt::check(h.$field.to_native() == le16(&b, $at), 3);)*
            $(rt::check(same_bytes(&h.$bytes, &b[$bat..$bat + $blen]), 4);)*
            $(rt::check(h.$long.to_native() == le32(&b, $lat), 5);)*
            // every field, written on its own
            let mut want = b;
            let v = rt::u32();
            let which = rt::pick(0, $size - 1);
            $(
                if which == $at {
                    h.$field = osi::ffi::Integer::from_native(v as u16);
                    want[$at] = v as u8;
                    want[$at + 1] = (v >> 8) as u8;
                    rt::cover(2);
                }
            )*
            $(
                if which == $lat {
                    h.$long = osi::ffi::Integer::from_native(v);
                    for i in 0..4 {
                        want[$lat + i] = (v >> (8 * i)) as u8;
                    }
                    rt::cover(3);
                }
            )*
            rt::check(same_bytes(h.as_bytes(), &want), 6);
            rt::cover(1);
        }};
    }
    match rt::param(0) {
        0 => image!(Header, 28, [
            2 => cblp, 4 => cp, 6 => crlc, 8 => cparhdr, 10 => minalloc, 12 => maxalloc,
            14 => ss, 16 => sp, 18 => csum, 20 => ip, 22 => cs, 24 => lfarlc, 26 => ovno
        ], [0, 2 => magic], []),
        1 => image!(HeaderExt, 36, [8 => oemid, 10 => oeminfo],
            [0, 8 => res, 12, 20 => res2], [32 => lfanew]),
        _ => image!(Relocation, 4, [0 => offset, 2 => segment], [], []),
    }
}

fn sum(b: &[u8]) -> u16 {
    let mut s = 0u16;
    for i in 0..b.len() {
        s = s.wrapping_add((b[i] as u16) << (8 * (i % 2)));
    }
    s
}

/// The word sum of any byte string.
pub fn c36_sum() {
    let b = rt::bytes::<48>();
    let n = rt::concrete(rt::range(0, rt::param(0)));
    let got = msdosmz::sum16(&b[..n]);
    rt::check(got == sum(&b[..n]), 1);
    if n % 2 == 1 {
        rt::cover(1);
    } else if n != 0 {
        rt::cover(2);
    }
}

/// Any file with its checksum set as specified sums to all ones.
pub fn c36_checksum() {
    // only some of the words are arbitrary, to keep the sums small
    let mut b = [0x5a; 48];
    let n = 28 + rt::concrete(rt::range(0, rt::param(0)));
    let free = rt::bytes::<6>();
    let at = rt::pick(0, n - 6);
    b[at..at + 6].copy_from_slice(&free);
    b[18] = 0;
    b[19] = 0;
    let c = !msdosmz::sum16(&b[..n]);
    let mut head = [0; 28];
    head.copy_from_slice(&b[..28]);
    let mut h = Header::from_bytes(&head);
    h.csum = osi::ffi::Integer::from_native(c);
    b[..28].copy_from_slice(h.as_bytes());
    rt::check(msdosmz::sum16(&b[..n]) == 0xffff, 1);
    rt::cover(1);
}

/// The stub program is a valid image of its own.
pub fn c36_stub() {
    let s = &msdosmz::STUB_X86;
    let n = s.len();
    rt::check(n == 128, 1);
    rt::check(msdosmz::sum16(s) == 0xffff, 2);
    let h = Header::from_bytes(s[..28].try_into().unwrap());
    let e = HeaderExt::from_bytes(s[28..64].try_into().unwrap());
    rt::check(h.magic == *b"MZ" && msdosmz::MAGIC == *b"MZ", 3);
    let pages = h.cp.to_native() as usize;
    rt::check((pages - 1) * msdosmz::PAGE_SIZE + h.cblp.to_native() as usize == n, 4);
    rt::check(h.cparhdr.to_native() as usize * msdosmz::PARAGRAPH_SIZE == 64, 5);
    rt::check(h.lfarlc.to_native() as usize >= 64, 6);
    rt::check(e.lfanew.to_native() as usize == n, 7);
    rt::check(msdosmz::PAGE_SIZE == 512 && msdosmz::PARAGRAPH_SIZE == 16 && msdosmz::WORD_SIZE == 2, 8);
    // whatever follows the stub is found at the offset the stub names
    let v = rt::u8();
    let mut f = [0; 129];
    f[..128].copy_from_slice(s);
    f[128] = v;
    rt::check(f[le32(&f, 0x3c) as usize] == v, 9);
    rt::cover(1);
}

/// The word sum of large files.
pub fn c36_large() {
    let n = rt::param(0) + rt::pick(0, 1);
    let mut b: alloc::vec::Vec<u8> = (0..n).map(|i| (i * 7) as u8 | 0x80).collect();
    for i in [0, 1, n / 2, n - 2, n - 1] {
        b[i] = rt::u8();
    }
    rt::check(msdosmz::sum16(&b) == sum(&b), 1);
    rt::cover(1);
}

crate::rt::harness!(c36_large, c36_fields, c36_sum, c36_checksum, c36_stub);
