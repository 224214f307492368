use crate::model::util::{raw, same_bytes};
use crate::rt;
use osi::ffi::abi;

macro_rules! integers {
    ($m:ident: $($a:ident $t:ty, $src:ident, $n:literal, $align:literal;)*) => {{
        let which = rt::pick(0, [$(stringify!($a)),*].len() - 1);
        let mut i = 0;
        $(
            if i == which {
                rt::check(core::mem::size_of::<abi::$m::$a>() == $n, 1);
                rt::check(core::mem::align_of::<abi::$m::$a>() == $align, 2);
                let v = rt::$src() as $t;
                let x: abi::$m::$a = abi::$m::num(v);
                rt::check(same_bytes(&raw::<_, $n>(&x), &v.to_le_bytes()), 3);
                let back: $t = osi::ffi::to_native(x);
                rt::check(back == v, 4);
                let y: abi::$m::$a = osi::ffi::from_native(v);
                rt::check(x == y, 5);
                rt::cover(1);
            }
            i += 1;
        )*
        let _ = i;
    }};
}

macro_rules! others {
    ($m:ident, $z:ty, $n:literal, $src:ident, $f64:literal) => {{
        rt::check(core::mem::size_of::<abi::$m::F32>() == 4 && core::mem::align_of::<abi::$m::F32>() == 4, 6);
        rt::check(core::mem::size_of::<abi::$m::F64>() == 8 && core::mem::align_of::<abi::$m::F64>() == $f64, 7);
        rt::check(core::mem::size_of::<abi::$m::Addr>() == $n && core::mem::align_of::<abi::$m::Addr>() == $n, 8);
        rt::check(core::mem::size_of::<abi::$m::Ptr<u8>>() == $n && core::mem::align_of::<abi::$m::Ptr<u8>>() == $n, 9);
        let v = rt::$src();
        rt::assume(v != 0);
        let a: abi::$m::Addr = abi::$m::num(<$z>::new(v).unwrap());
        rt::check(same_bytes(&raw::<_, $n>(&a), &v.to_le_bytes()), 10);
        let back: $z = osi::ffi::to_native(a);
        rt::check(back.get() == v, 11);
        rt::cover(2);
    }};
}

macro_rules! lp64 {
    ($m:ident) => {{
        integers!($m:
            I8 i8, u8, 1, 1; I16 i16, u16, 2, 2; I32 i32, u32, 4, 4; I64 i64, u64, 8, 8; I128 i128, u128, 16, 16;
            Isize i64, u64, 8, 8;
            U8 u8, u8, 1, 1; U16 u16, u16, 2, 2; U32 u32, u32, 4, 4; U64 u64, u64, 8, 8; U128 u128, u128, 16, 16;
            Usize u64, u64, 8, 8;
        );
        others!($m, core::num::NonZeroU64, 8, u64, 8);
        let p: abi::$m::Ptr<u8> = osi::ffi::from_native(core::num::NonZeroU64::new(rt::u64() | 1).unwrap());
        rt::check(p == abi::$m::Ptr::<u8>::new(p.get()), 12);
    }};
}

fn c16_aarch64() {
    lp64!(aarch64_sysv);
}

fn c16_x86_64() {
    lp64!(x86_64_sysv);
    // the target platform of this build is this very platform
    let v = rt::u32();
    let x: abi::target::U32 = abi::x86_64_sysv::num(v);
    let y: u32 = osi::ffi::to_native(x);
    rt::check(y == v, 13);
}

fn c16_x86() {
    integers!(x86_sysv:
        I8 i8, u8, 1, 1; I16 i16, u16, 2, 2; I32 i32, u32, 4, 4; I64 i64, u64, 8, 4; I128 i128, u128, 16, 16;
        Isize i32, u32, 4, 4;
        U8 u8, u8, 1, 1; U16 u16, u16, 2, 2; U32 u32, u32, 4, 4; U64 u64, u64, 8, 4; U128 u128, u128, 16, 16;
        Usize u32, u32, 4, 4;
    );
    others!(x86_sysv, core::num::NonZeroU32, 4, u32, 4);
}

fn c16_native() {
    integers!(native:
        I8 i8, u8, 1, 1; I16 i16, u16, 2, 2; I32 i32, u32, 4, 4; I64 i64, u64, 8, 8; I128 i128, u128, 16, 16;
        Isize isize, u64, 8, 8;
        U8 u8, u8, 1, 1; U16 u16, u16, 2, 2; U32 u32, u32, 4, 4; U64 u64, u64, 8, 8; U128 u128, u128, 16, 16;
        Usize usize, u64, 8, 8;
    );
    others!(native, core::num::NonZeroUsize, 8, usize, 8);
}

/// The types named after those of the C library.
fn c16_libc() {
    use sys::ffi::linux::libc::abi as c;
    let (a, b, d, e) = (rt::u64(), rt::u128(), rt::u32(), rt::u16());
    let (i64_, u64_, isize_, usize_): (c::I64, c::U64, c::Isize, c::Usize) = (a as _, a, a as _, a as _);
    rt::check(i64_ == a as i64 && u64_ == a && isize_ == a as isize && usize_ == a as usize, 1);
    let (i128_, u128_): (c::I128, c::U128) = (b as _, b);
    rt::check(i128_ == b as i128 && u128_ == b, 2);
    let (i32_, u32_): (c::I32, c::U32) = (d as _, d);
    rt::check(i32_ == d as i32 && u32_ == d, 3);
    let (i16_, u16_): (c::I16, c::U16) = (e as _, e);
    rt::check(i16_ == e as i16 && u16_ == e, 4);
    let (i8_, u8_): (c::I8, c::U8) = (e as _, e as _);
    rt::check(i8_ == e as i8 && u8_ == e as u8, 5);
    rt::check(size_of::<c::F32>() == 4 && size_of::<c::F64>() == 8, 6);
    rt::assume(a != 0);
    let x: c::Addr = osi::ffi::from_native(core::num::NonZeroUsize::new(a as usize).unwrap());
    rt::check(raw::<_, 8>(&x) == a.to_le_bytes() && size_of::<c::Ptr<u16>>() == 8, 7);
    rt::cover(1);
    rt::cover(2);
}

macro_rules! errno {
    ($($n:ident = $v:literal),* $(,)?) => {
        const NUMBERS: &[u16] = &[$($v),*];
        fn aarch64() -> [[u8; 2]; NUMBERS.len()] {
            use sys::ffi::linux::aarch64::errno::*;
            [$(raw(&$n)),*]
        }
        fn x86() -> [[u8; 2]; NUMBERS.len()] {
            use sys::ffi::linux::x86::errno::*;
            [$(raw(&$n)),*]
        }
        fn x86_64() -> [[u8; 2]; NUMBERS.len()] {
            use sys::ffi::linux::x86_64::errno::*;
            [$(raw(&$n)),*]
        }
        fn native() -> [u16; NUMBERS.len()] {
            use sys::ffi::linux::native::errno::*;
            [$($n),*]
        }
        fn libc() -> [u16; NUMBERS.len()] {
            use sys::ffi::linux::libc::errno::*;
            [$($n as u16),*]
        }
    };
}

// numbers of the kernel interface headers (asm-generic/errno*.h)
errno!(
    EPERM = 1, ENOENT = 2, ESRCH = 3, EINTR = 4, EIO = 5, ENXIO = 6, E2BIG = 7, ENOEXEC = 8,
    EBADF = 9, ECHILD = 10, EAGAIN = 11, ENOMEM = 12, EACCES = 13, EFAULT = 14, ENOTBLK = 15,
    EBUSY = 16, EEXIST = 17, EXDEV = 18, ENODEV = 19, ENOTDIR = 20, EISDIR = 21, EINVAL = 22,
    ENFILE = 23, EMFILE = 24, ENOTTY = 25, ETXTBSY = 26, EFBIG = 27, ENOSPC = 28, ESPIPE = 29,
    EROFS = 30, EMLINK = 31, EPIPE = 32, EDOM = 33, ERANGE = 34, EDEADLK = 35, ENAMETOOLONG = 36,
    ENOLCK = 37, ENOSYS = 38, ENOTEMPTY = 39, ELOOP = 40, ENOMSG = 42, EIDRM = 43, ECHRNG = 44,
    EL2NSYNC = 45, EL3HLT = 46, EL3RST = 47, ELNRNG = 48, EUNATCH = 49, ENOCSI = 50, EL2HLT = 51,
    EBADE = 52, EBADR = 53, EXFULL = 54, ENOANO = 55, EBADRQC = 56, EBADSLT = 57, EBFONT = 59,
    ENOSTR = 60, ENODATA = 61, ETIME = 62, ENOSR = 63, ENONET = 64, ENOPKG = 65, EREMOTE = 66,
    ENOLINK = 67, EADV = 68, ESRMNT = 69, ECOMM = 70, EPROTO = 71, EMULTIHOP = 72, EDOTDOT = 73,
    EBADMSG = 74, EOVERFLOW = 75, ENOTUNIQ = 76, EBADFD = 77, EREMCHG = 78, ELIBACC = 79,
    ELIBBAD = 80, ELIBSCN = 81, ELIBMAX = 82, ELIBEXEC = 83, EILSEQ = 84, ERESTART = 85,
    ESTRPIPE = 86, EUSERS = 87, ENOTSOCK = 88, EDESTADDRREQ = 89, EMSGSIZE = 90, EPROTOTYPE = 91,
    ENOPROTOOPT = 92, EPROTONOSUPPORT = 93, ESOCKTNOSUPPORT = 94, EOPNOTSUPP = 95,
    EPFNOSUPPORT = 96, EAFNOSUPPORT = 97, EADDRINUSE = 98, EADDRNOTAVAIL = 99, ENETDOWN = 100,
    ENETUNREACH = 101, ENETRESET = 102, ECONNABORTED = 103, ECONNRESET = 104, ENOBUFS = 105,
    EISCONN = 106, ENOTCONN = 107, ESHUTDOWN = 108, ETOOMANYREFS = 109, ETIMEDOUT = 110,
    ECONNREFUSED = 111, EHOSTDOWN = 112, EHOSTUNREACH = 113, EALREADY = 114, EINPROGRESS = 115,
    ESTALE = 116, EUCLEAN = 117, ENOTNAM = 118, ENAVAIL = 119, EISNAM = 120, EREMOTEIO = 121,
    EDQUOT = 122, ENOMEDIUM = 123, EMEDIUMTYPE = 124, ECANCELED = 125, ENOKEY = 126,
    EKEYEXPIRED = 127, EKEYREVOKED = 128, EKEYREJECTED = 129, EOWNERDEAD = 130,
    ENOTRECOVERABLE = 131, ERFKILL = 132, EHWPOISON = 133,
);

/// Any error code on any platform.
fn c16_errno() {
    let i = rt::range(0, NUMBERS.len() - 1);
    let v = NUMBERS[i];
    rt::check(native()[i] == v, 1);
    rt::check(aarch64()[i] == v.to_le_bytes(), 2);
    rt::check(x86()[i] == v.to_le_bytes(), 3);
    rt::check(x86_64()[i] == v.to_le_bytes(), 4);
    rt::check(libc()[i] == v, 5);
    rt::cover(1);
}

crate::rt::harness!(c16_aarch64, c16_x86_64, c16_x86, c16_native, c16_libc, c16_errno);
