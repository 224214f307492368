//! C37: PE/COFF structures.

use crate::model::util::same_bytes;
use crate::rt;
use tmp::pecoff as pe;

#[repr(C, align(16))]
struct Room<const N: usize>([u8; N]);

fn le(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0;
    for i in 0..n {
        v |= (b[at + i] as u64) << (8 * i);
    }
    v
}

macro_rules! overlay {
    ($ty:ty, $size:expr, [$($at:expr, $n:expr => $field:ident),* $(,)?]) => {{
        rt::check(core::mem::size_of::<$ty>() == $size, 1);
        let mut room = Room(rt::bytes::<$size>());
        let before = room.0;
        let h = unsafe { &mut *(room.0.as_mut_ptr() as *mut $ty) };
        $(rt::check(h.$field.to_native() as u64 == le(&before, $at, $n), 2);)*
        // one field written on its own
        let v = rt::u64();
        let which = rt::pick(0, $size - 1);
        let mut want = before;
        $(
            if which == $at {
                h.$field = osi::ffi::Integer::from_native(v as _);
                for i in 0..$n {
                    want[$at + i] = (v >> (8 * i)) as u8;
                }
                rt::cover(2);
            }
        )*
        rt::check(same_bytes(&room.0, &want), 3);
        rt::cover(1);
    }};
}

/// Every field of an overlaid image.
pub fn c37_fields() {
    match rt::param(0) {
        0 => overlay!(pe::Header, 20, [
            0, 2 => machine,
            2, 2 => number_of_sections,
            4, 4 => time_date_stamp,
            8, 4 => pointer_to_symbol_table,
            12, 4 => number_of_symbols,
            16, 2 => size_of_optional_header,
            18, 2 => characteristics,
        ]),
        1 => overlay!(pe::OptionalHeader, 28, [
            0, 2 => magic,
            2, 1 => major_linker_version,
            3, 1 => minor_linker_version,
            4, 4 => size_of_code,
            8, 4 => size_of_initialized_data,
            12, 4 => size_of_uninitialized_data,
            16, 4 => address_of_entry_point,
            20, 4 => base_of_code,
            24, 4 => base_of_data,
        ]),
        2 => overlay!(pe::OptionalHeader32P, 24, [
            0, 2 => magic,
            2, 1 => major_linker_version,
            3, 1 => minor_linker_version,
            4, 4 => size_of_code,
            8, 4 => size_of_initialized_data,
            12, 4 => size_of_uninitialized_data,
            16, 4 => address_of_entry_point,
            20, 4 => base_of_code,
        ]),
        3 => overlay!(pe::OptionalHeaderExt, 68, [
            0, 4 => image_base,
            4, 4 => section_alignment,
            8, 4 => file_alignment,
            12, 2 => major_operating_system_version,
            14, 2 => minor_operating_system_version,
            16, 2 => major_image_version,
            18, 2 => minor_image_version,
            20, 2 => major_subsystem_version,
            22, 2 => minor_subsystem_version,
            24, 4 => win32_version_value,
            28, 4 => size_of_image,
            32, 4 => size_of_headers,
            36, 4 => check_sum,
            40, 2 => subsystem,
            42, 2 => dll_characteristics,
            44, 4 => size_of_stack_reserve,
            48, 4 => size_of_stack_commit,
            52, 4 => size_of_heap_reserve,
            56, 4 => size_of_heap_commit,
            60, 4 => loader_flags,
            64, 4 => number_of_rva_and_sizes,
        ]),
        4 => overlay!(pe::OptionalHeaderExt32P, 88, [
            0, 8 => image_base,
            8, 4 => section_alignment,
            12, 4 => file_alignment,
            16, 2 => major_operating_system_version,
            18, 2 => minor_operating_system_version,
            20, 2 => major_image_version,
            22, 2 => minor_image_version,
            24, 2 => major_subsystem_version,
            26, 2 => minor_subsystem_version,
            28, 4 => win32_version_value,
            32, 4 => size_of_image,
            36, 4 => size_of_headers,
            40, 4 => check_sum,
            44, 2 => subsystem,
            46, 2 => dll_characteristics,
            48, 8 => size_of_stack_reserve,
            56, 8 => size_of_stack_commit,
            64, 8 => size_of_heap_reserve,
            72, 8 => size_of_heap_commit,
            80, 4 => loader_flags,
            84, 4 => number_of_rva_and_sizes,
        ]),
        5 => overlay!(pe::DataDirectory, 8, [
            0, 4 => virtual_address,
            4, 4 => size,
        ]),
        _ => {
            let room = Room(rt::bytes::<40>());
            let h = unsafe { &*(room.0.as_ptr() as *const pe::SectionHeader) };
            rt::check(same_bytes(&h.name, &room.0[..8]), 4);
            overlay!(pe::SectionHeader, 40, [
                8, 4 => virtual_size,
                12, 4 => virtual_address,
                16, 4 => size_of_raw_data,
                20, 4 => pointer_to_raw_data,
                24, 4 => pointer_to_relocations,
                28, 4 => pointer_to_linenumbers,
                32, 2 => number_of_relocations,
                34, 2 => number_of_linenumbers,
                36, 4 => characteristics,
            ])
        }
    }
}

/// The two magic values as read from an image tell the variants apart.
pub fn c37_magic() {
    let room = Room(rt::bytes::<28>());
    let a = unsafe { &*(room.0.as_ptr() as *const pe::OptionalHeader) }.magic.to_native();
    let b = unsafe { &*(room.0.as_ptr() as *const pe::OptionalHeader32P) }.magic.to_native();
    let is32 = room.0[0] == 0x0b && room.0[1] == 1;
    let is64 = room.0[0] == 0x0b && room.0[1] == 2;
    rt::check((a == pe::PE_MAGIC_OH32) == is32, 1);
    rt::check((b == pe::PE_MAGIC_OH32P) == is64, 2);
    rt::check(same_bytes(&pe::PE_MAGIC, b"PE\0\0"), 3);
    rt::check(pe::PE_OFFSET == 0x3c, 4);
    if is32 {
        rt::cover(1);
    } else if is64 {
        rt::cover(2);
    } else {
        rt::cover(3);
    }
}

macro_rules! numbers {
    ($v:expr, $id:expr, $($name:ident = $n:expr),* $(,)?) => {
        $(rt::check(($v as u32 == pe::$name as u32) == ($v as u32 == $n), $id);)*
    };
}

macro_rules! flags {
    ($v:expr, $id:expr, $($name:ident = $n:expr),* $(,)?) => {
        $(rt::check(($v as u32 & pe::$name as u32 != 0) == ($v as u32 >> $n & 1 == 1), $id);)*
    };
}

/// Any value of a field means what the specification says it does.
pub fn c37_numbers() {
    let room = Room(rt::bytes::<128>());
    let h = unsafe { &*(room.0.as_ptr() as *const pe::Header) };
    let e = unsafe { &*(room.0.as_ptr().add(32) as *const pe::OptionalHeaderExt32P) };
    let s = unsafe { &*(room.0.as_ptr().add(64) as *const pe::SectionHeader) };
    let v = h.machine.to_native();
    numbers!(v, 1,
        MACHINE_UNKNOWN = 0, MACHINE_AM33 = 0x1d3, MACHINE_AMD64 = 0x8664, MACHINE_ARM = 0x1c0,
        MACHINE_ARM64 = 0xaa64, MACHINE_ARMNT = 0x1c4, MACHINE_EBC = 0xebc, MACHINE_I386 = 0x14c,
        MACHINE_IA64 = 0x200, MACHINE_LOONGARCH32 = 0x6232, MACHINE_LOONGARCH64 = 0x6264,
        MACHINE_M32R = 0x9041, MACHINE_MIPS16 = 0x266, MACHINE_MIPSFPU = 0x366,
        MACHINE_MIPSFPU16 = 0x466, MACHINE_POWERPC = 0x1f0, MACHINE_POWERPCFP = 0x1f1,
        MACHINE_R4000 = 0x166, MACHINE_RISCV32 = 0x5032, MACHINE_RISCV64 = 0x5064,
        MACHINE_RISCV128 = 0x5128, MACHINE_SH3 = 0x1a2, MACHINE_SH3DSP = 0x1a3, MACHINE_SH4 = 0x1a6,
        MACHINE_SH5 = 0x1a8, MACHINE_THUMB = 0x1c2, MACHINE_WCEMIPSV2 = 0x169,
    );
    let v = h.characteristics.to_native();
    flags!(v, 2,
        CHARACTERISTIC_RELOCS_STRIPPED = 0, CHARACTERISTIC_EXECUTABLE_IMAGE = 1,
        CHARACTERISTIC_LINE_NUMS_STRIPPED = 2, CHARACTERISTIC_LOCAL_SYMS_STRIPPED = 3,
        CHARACTERISTIC_AGGRESSIVE_WS_TRIM = 4, CHARACTERISTIC_LARGE_ADDRESS_AWARE = 5,
        CHARACTERISTIC_BYTES_REVERSED_LO = 7, CHARACTERISTIC_32BIT_MACHINE = 8,
        CHARACTERISTIC_DEBUG_STRIPPED = 9, CHARACTERISTIC_REMOVABLE_RUN_FROM_SWAP = 10,
        CHARACTERISTIC_NET_RUN_FROM_SWAP = 11, CHARACTERISTIC_SYSTEM = 12, CHARACTERISTIC_DLL = 13,
        CHARACTERISTIC_UP_SYSTEM_ONLY = 14, CHARACTERISTIC_BYTES_REVERSED_HI = 15,
    );
    let v = e.dll_characteristics.to_native();
    flags!(v, 3,
        DLL_CHARACTERISTIC_HIGH_ENTROPY_VA = 5, DLL_CHARACTERISTIC_DYNAMIC_BASE = 6,
        DLL_CHARACTERISTIC_FORCE_INTEGRITY = 7, DLL_CHARACTERISTIC_NX_COMPAT = 8,
        DLL_CHARACTERISTIC_NO_ISOLATION = 9, DLL_CHARACTERISTIC_NO_SEH = 10,
        DLL_CHARACTERISTIC_NO_BIND = 11, DLL_CHARACTERISTIC_APPCONTAINER = 12,
        DLL_CHARACTERISTIC_WDM_DRIVER = 13, DLL_CHARACTERISTIC_GUARD_CF = 14,
        DLL_CHARACTERISTIC_TERMINAL_SERVER_AWARE = 15,
    );
    let v = e.subsystem.to_native();
    numbers!(v, 4,
        SUBSYSTEM_UNKNOWN = 0, SUBSYSTEM_NATIVE = 1, SUBSYSTEM_WINDOWS_GUI = 2, SUBSYSTEM_WINDOWS_CUI = 3,
        SUBSYSTEM_OS2_CUI = 5, SUBSYSTEM_POSIX_CUI = 7, SUBSYSTEM_NATIVE_WINDOWS = 8,
        SUBSYSTEM_WINDOWS_CE_GUI = 9, SUBSYSTEM_EFI_APPLICATION = 10,
        SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER = 11, SUBSYSTEM_EFI_RUNTIME_DRIVER = 12, SUBSYSTEM_EFI_ROM = 13,
        SUBSYSTEM_XBOX = 14, SUBSYSTEM_WINDOWS_BOOT_APPLICATION = 16,
    );
    let v = s.characteristics.to_native();
    flags!(v, 5,
        SECTION_CHARACTERISTIC_TYPE_NO_PAD = 3, SECTION_CHARACTERISTIC_CNT_CODE = 5,
        SECTION_CHARACTERISTIC_CNT_INITIALIZED_DATA = 6, SECTION_CHARACTERISTIC_CNT_UNINITIALIZED_DATA = 7,
        SECTION_CHARACTERISTIC_LNK_OTHER = 8, SECTION_CHARACTERISTIC_LNK_INFO = 9,
        SECTION_CHARACTERISTIC_LNK_REMOVE = 11, SECTION_CHARACTERISTIC_LNK_COMDAT = 12,
        SECTION_CHARACTERISTIC_GPREL = 15, SECTION_CHARACTERISTIC_MEM_PURGEABLE = 17,
        SECTION_CHARACTERISTIC_MEM_16BIT = 17, SECTION_CHARACTERISTIC_MEM_LOCKED = 18,
        SECTION_CHARACTERISTIC_MEM_PRELOAD = 19, SECTION_CHARACTERISTIC_LNK_NRELOC_OVFL = 24,
        SECTION_CHARACTERISTIC_MEM_DISCARDABLE = 25, SECTION_CHARACTERISTIC_MEM_NOT_CACHED = 26,
        SECTION_CHARACTERISTIC_MEM_NOT_PAGED = 27, SECTION_CHARACTERISTIC_MEM_SHARED = 28,
        SECTION_CHARACTERISTIC_MEM_EXECUTE = 29, SECTION_CHARACTERISTIC_MEM_READ = 30,
        SECTION_CHARACTERISTIC_MEM_WRITE = 31,
    );
    let v = s.characteristics.to_native() & 0x00f0_0000;
    numbers!(v, 6,
        SECTION_CHARACTERISTIC_ALIGN_1BYTES = 1 << 20, SECTION_CHARACTERISTIC_ALIGN_2BYTES = 2 << 20,
        SECTION_CHARACTERISTIC_ALIGN_4BYTES = 3 << 20, SECTION_CHARACTERISTIC_ALIGN_8BYTES = 4 << 20,
        SECTION_CHARACTERISTIC_ALIGN_16BYTES = 5 << 20, SECTION_CHARACTERISTIC_ALIGN_32BYTES = 6 << 20,
        SECTION_CHARACTERISTIC_ALIGN_64BYTES = 7 << 20, SECTION_CHARACTERISTIC_ALIGN_128BYTES = 8 << 20,
        SECTION_CHARACTERISTIC_ALIGN_256BYTES = 9 << 20, SECTION_CHARACTERISTIC_ALIGN_512BYTES = 10 << 20,
        SECTION_CHARACTERISTIC_ALIGN_1024BYTES = 11 << 20, SECTION_CHARACTERISTIC_ALIGN_2048BYTES = 12 << 20,
        SECTION_CHARACTERISTIC_ALIGN_4096BYTES = 13 << 20, SECTION_CHARACTERISTIC_ALIGN_8192BYTES = 14 << 20,
    );
    let v = rt::u16();
    numbers!(v, 7,
        DATA_DIRECTORY_EXPORT_TABLE = 0, DATA_DIRECTORY_IMPORT_TABLE = 1, DATA_DIRECTORY_RESOURCE_TABLE = 2,
        DATA_DIRECTORY_EXCEPTION_TABLE = 3, DATA_DIRECTORY_CERTIFICATE_TABLE = 4,
        DATA_DIRECTORY_BASE_RELOCATION_TABLE = 5, DATA_DIRECTORY_DEBUG = 6, DATA_DIRECTORY_ARCHITECTURE = 7,
        DATA_DIRECTORY_GLOBAL_PTR = 8, DATA_DIRECTORY_TLS_TABLE = 9, DATA_DIRECTORY_LOAD_CONFIG_TABLE = 10,
        DATA_DIRECTORY_BOUND_IMPORT = 11, DATA_DIRECTORY_IAT = 12,
        DATA_DIRECTORY_DELAY_IMPORT_DESCRIPTOR = 13, DATA_DIRECTORY_CLR_RUNTIME_HEADER = 14,
    );
    rt::cover(1);
}

crate::rt::harness!(c37_fields, c37_magic, c37_numbers);
