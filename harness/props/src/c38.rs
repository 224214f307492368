//! C38: ELF structures.

use crate::model::util::same_bytes;
use crate::rt;
use sys::ffi::elf;

#[repr(C, align(16))]
struct Room<const N: usize>([u8; N]);

/// The value of `n` bytes at `at`, in the byte order of the machine.
fn ne(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0;
    for i in 0..n {
        let shift = if cfg!(target_endian = "little") { i } else { n - 1 - i };
        v |= (b[at + i] as u64) << (8 * shift);
    }
    v
}

macro_rules! overlay {
    ($ty:ty, $size:expr, [$($at:expr, $n:expr => $($field:ident).+),* $(,)?]) => {{
        rt::check(core::mem::size_of::<$ty>() == $size, 1);
        let mut room = Room(rt::bytes::<$size>());
        let before = room.0;
        let h = unsafe { &mut *(room.0.as_mut_ptr() as *mut $ty) };
        let mask = |n: usize| if n == 8 { !0 } else { (1u64 << (8 * n)) - 1 };
        $(rt::check(h.$($field).+ as u64 & mask($n) == ne(&before, $at, $n), 2);)*
        // one field written on its own
        let v = rt::u64();
        let which = rt::pick(0, $size - 1);
        let mut want = before;
        $(
            if which == $at {
                h.$($field).+ = v as _;
                for i in 0..$n {
                    let shift = if cfg!(target_endian = "little") { i } else { $n - 1 - i };
                    want[$at + i] = (v >> (8 * shift)) as u8;
                }
                rt::cover(2);
            }
        )*
        rt::check(same_bytes(&room.0, &want), 3);
        rt::cover(1);
    }};
}

/// Every field of an overlaid image, 64-bit class.
pub fn c38_fields64() {
    use elf::elf64 as e;
    match rt::param(0) {
        0 => overlay!(e::Ehdr, 64, [
            4, 1 => e_ident.i_class, 5, 1 => e_ident.i_data, 6, 1 => e_ident.i_version,
            7, 1 => e_ident.i_osabi, 8, 1 => e_ident.i_abiversion,
            16, 2 => e_type, 18, 2 => e_machine, 20, 4 => e_version, 24, 8 => e_entry,
            32, 8 => e_phoff, 40, 8 => e_shoff, 48, 4 => e_flags, 52, 2 => e_ehsize,
            54, 2 => e_phentsize, 56, 2 => e_phnum, 58, 2 => e_shentsize, 60, 2 => e_shnum,
            62, 2 => e_shstrndx,
        ]),
        1 => overlay!(e::Shdr, 64, [
            0, 4 => sh_name, 4, 4 => sh_type, 8, 8 => sh_flags, 16, 8 => sh_addr, 24, 8 => sh_offset,
            32, 8 => sh_size, 40, 4 => sh_link, 44, 4 => sh_info, 48, 8 => sh_addralign, 56, 8 => sh_entsize,
        ]),
        2 => overlay!(e::Phdr, 56, [
            0, 4 => p_type, 4, 4 => p_flags, 8, 8 => p_offset, 16, 8 => p_vaddr, 24, 8 => p_paddr,
            32, 8 => p_filesz, 40, 8 => p_memsz, 48, 8 => p_align,
        ]),
        3 => overlay!(e::Sym, 24, [
            0, 4 => st_name, 4, 1 => st_info, 5, 1 => st_other, 6, 2 => st_shndx, 8, 8 => st_value,
            16, 8 => st_size,
        ]),
        4 => overlay!(e::Dyn, 16, [0, 8 => d_tag, 8, 8 => d_val]),
        5 => overlay!(e::Rel, 16, [0, 8 => r_offset, 8, 8 => r_info]),
        _ => overlay!(e::Rela, 24, [0, 8 => r_offset, 8, 8 => r_info, 16, 8 => r_addend]),
    }
}

/// Every field of an overlaid image, 32-bit class.
pub fn c38_fields32() {
    use elf::elf32 as e;
    match rt::param(0) {
        0 => overlay!(e::Ehdr, 52, [
            4, 1 => e_ident.i_class, 5, 1 => e_ident.i_data, 6, 1 => e_ident.i_version,
            7, 1 => e_ident.i_osabi, 8, 1 => e_ident.i_abiversion,
            16, 2 => e_type, 18, 2 => e_machine, 20, 4 => e_version, 24, 4 => e_entry,
            28, 4 => e_phoff, 32, 4 => e_shoff, 36, 4 => e_flags, 40, 2 => e_ehsize,
            42, 2 => e_phentsize, 44, 2 => e_phnum, 46, 2 => e_shentsize, 48, 2 => e_shnum,
            50, 2 => e_shstrndx,
        ]),
        1 => overlay!(e::Shdr, 40, [
            0, 4 => sh_name, 4, 4 => sh_type, 8, 4 => sh_flags, 12, 4 => sh_addr, 16, 4 => sh_offset,
            20, 4 => sh_size, 24, 4 => sh_link, 28, 4 => sh_info, 32, 4 => sh_addralign, 36, 4 => sh_entsize,
        ]),
        2 => overlay!(e::Phdr, 32, [
            0, 4 => p_type, 4, 4 => p_offset, 8, 4 => p_vaddr, 12, 4 => p_paddr, 16, 4 => p_filesz,
            20, 4 => p_memsz, 24, 4 => p_flags, 28, 4 => p_align,
        ]),
        3 => overlay!(e::Sym, 16, [
            0, 4 => st_name, 4, 4 => st_value, 8, 4 => st_size, 12, 1 => st_info, 13, 1 => st_other,
            14, 2 => st_shndx,
        ]),
        4 => overlay!(e::Dyn, 8, [0, 4 => d_tag, 4, 4 => d_val]),
        5 => overlay!(e::Rel, 8, [0, 4 => r_offset, 4, 4 => r_info]),
        _ => overlay!(e::Rela, 12, [0, 4 => r_offset, 4, 4 => r_info, 8, 4 => r_addend]),
    }
}

/// The identification bytes, and the structures named for the machine.
pub fn c38_ident() {
    let room = Room(rt::bytes::<16>());
    let h = unsafe { &*(room.0.as_ptr() as *const elf::elf64::Ident) };
    rt::check(core::mem::size_of::<elf::elf32::Ident>() == 16, 1);
    rt::check(same_bytes(&h.i_magic, &room.0[..4]), 2);
    rt::check(same_bytes(&h.i_pad, &room.0[9..]), 3);
    let is_elf = room.0[0] == 0x7f && room.0[1] == b'E' && room.0[2] == b'L' && room.0[3] == b'F';
    rt::check((h.i_magic == elf::elf64::ELFMAG) == is_elf, 4);
    if is_elf {
        rt::cover(1);
    } else {
        rt::cover(2);
    }
    rt::check(core::mem::size_of::<elf::elfn::Ehdr>() == if cfg!(target_pointer_width = "64") { 64 } else { 52 }, 5);
}

/// Relocation addends are signed.
pub fn c38_addend() {
    let room = Room(rt::bytes::<24>());
    let r = unsafe { &*(room.0.as_ptr() as *const elf::elf64::Rela) };
    let s = unsafe { &*(room.0.as_ptr() as *const elf::elf32::Rela) };
    let top = if cfg!(target_endian = "little") { [23, 11] } else { [16, 8] };
    rt::check((r.r_addend < 0) == (room.0[top[0]] >= 0x80), 1);
    rt::check((s.r_addend < 0) == (room.0[top[1]] >= 0x80), 2);
    rt::cover(1);
}

macro_rules! elf_same {
    ($v:expr, $id:expr, $($name:ident = $n:expr,)*) => {
        $(rt::check(($v == elf::elfn::$name as u32) == ($v == $n), $id);)*
    };
}

/// Any number found in a file is named as the specification names it.
pub fn c38_numbers() {
    let v = rt::u32();
    crate::elf_numbers!(elf_same, v, 1);
    rt::cover(1);
}

crate::rt::harness!(c38_fields64, c38_fields32, c38_ident, c38_addend, c38_numbers);
