use crate::rt;
use alloc::string::String;
use core::cmp::Ordering;
use osi::str::cmp_natural;

/// An ASCII string of exactly `n` arbitrary characters.
fn ascii(n: usize) -> String {
    let mut s = String::with_capacity(n);
    for _ in 0..n {
        let c = rt::u8();
        rt::assume(c < 0x80);
        unsafe { s.as_mut_vec().push(c) };
    }
    s
}

const ALPHABET: [char; 8] = ['0', '1', '2', '9', 'a', '-', '\u{b2}', '\u{663}'];

/// A string of at most `n` characters of a small alphabet.
fn mixed(n: usize) -> String {
    let mut s = String::with_capacity(4 * n);
    for _ in 0..rt::pick(0, n) {
        s.push(ALPHABET[rt::pick(0, ALPHABET.len() - 1)]);
    }
    s
}

/// The specification: split into text and digit runs, compare text as text,
/// and numbers by value.
fn reference(a: &[u8], b: &[u8]) -> Option<Ordering> {
    // position of the first difference
    let mut i = 0;
    while i < a.len() && i < b.len() && a[i] == b[i] {
        i += 1;
    }
    if i == a.len() && i == b.len() {
        return Some(Ordering::Equal);
    }
    // the digit runs around it, if any
    let mut s = i;
    while s > 0 && a[s - 1].is_ascii_digit() {
        s -= 1;
    }
    let run = |v: &[u8]| {
        let mut e = s;
        while e < v.len() && v[e].is_ascii_digit() {
            e += 1;
        }
        e
    };
    let (x, y) = (run(a), run(b));
    if x == s || y == s || (i >= x && i >= y) {
        // the difference is not inside two runs of digits
        return None;
    }
    let (mut x, mut y) = (&a[s..x], &b[s..y]);
    while x.first() == Some(&b'0') {
        x = &x[1..];
    }
    while y.first() == Some(&b'0') {
        y = &y[1..];
    }
    let o = x.len().cmp(&y.len());
    let o = if o == Ordering::Equal { x.cmp(y) } else { o };
    if o == Ordering::Equal { None } else { Some(o) }
}

fn pair(a: &str, b: &str) {
    let o = cmp_natural(a, b);
    rt::check(cmp_natural(b, a) == o.reverse(), 1);
    rt::check((o == Ordering::Equal) == (a == b), 2);
    if let Some(e) = reference(a.as_bytes(), b.as_bytes()) {
        rt::check(o == e, 3);
        rt::cover(1);
    }
    rt::cover(2);
}

/// All pairs of ASCII strings of up to `param(0)` and `param(1)` characters.
fn c22_pairs() {
    let a = ascii(rt::pick(0, rt::param(0)));
    let b = ascii(rt::pick(0, rt::param(1)));
    pair(&a, &b);
}

/// Pairs with characters outside of ASCII.
fn c22_mixed() {
    pair(&mixed(rt::param(0)), &mixed(rt::param(1)));
}

fn triple(a: &str, b: &str, c: &str) {
    if cmp_natural(a, b) != Ordering::Greater && cmp_natural(b, c) != Ordering::Greater {
        rt::check(cmp_natural(a, c) != Ordering::Greater, 4);
        rt::cover(1);
    }
}

/// Transitivity over ASCII strings.
fn c22_triples() {
    let n = rt::param(0);
    let (a, b, c) = (ascii(rt::pick(0, n)), ascii(rt::pick(0, n)), ascii(rt::pick(0, n)));
    triple(&a, &b, &c);
}

/// A string of at most `n` characters, ASCII or one of a few others.
fn blend(n: usize) -> String {
    let mut s = String::with_capacity(4 * n);
    for _ in 0..rt::pick(0, n) {
        match rt::pick(0, 2) {
            0 => s.push_str(&ascii(1)),
            1 => s.push('\u{b2}'),
            _ => s.push('\u{663}'),
        }
    }
    s
}

/// Transitivity over strings with numerals outside of ASCII.
fn c22_triples_mixed() {
    let n = rt::param(0);
    triple(&blend(n), &blend(n), &blend(n));
}

fn digits(n: usize) -> String {
    let mut s = String::with_capacity(n + 2);
    for _ in 0..n {
        let c = rt::u8();
        rt::assume(c.is_ascii_digit());
        unsafe { s.as_mut_vec().push(c) };
    }
    s
}

/// Runs of digits longer than any machine integer, ranked by value; leading
/// zeros and what follows the run do not matter for unequal values.
fn c22_numbers() {
    numbers(digits(rt::param(0)), digits(rt::param(1)));
}

/// A number of `n` digits, of which up to `w` in a row are arbitrary and the
/// others those of a number at the limit of an integer type or a power of ten.
fn window(n: usize, w: usize) -> String {
    let base = match rt::pick(0, 3) {
        0 => "18446744073709551615",
        1 => "340282366920938463463374607431768211455",
        2 => "1",
        _ => "",
    };
    let fill = if base.len() == 0 { '9' } else { '0' };
    let at = [0, n / 2, n - w.min(n)][rt::pick(0, 2)];
    let free = digits(w.min(n));
    let mut s = String::with_capacity(n + 2);
    for i in 0..n {
        s.push(if i >= at && i < at + w {
            free.as_bytes()[i - at] as char
        } else {
            base.as_bytes().get(i).map(|v| *v as char).unwrap_or(fill)
        });
    }
    s
}

/// The same for numbers around the limits of integer types.
fn c22_limits() {
    let w = rt::param(2);
    numbers(window(rt::param(0), w), window(rt::param(1), w));
}

fn numbers(x: String, y: String) {
    let (n, m) = (x.len(), y.len());
    let (mut a, mut b) = (String::from("x"), String::from("x"));
    a.push_str(&x);
    b.push_str(&y);
    match rt::pick(0, 2) {
        0 => {}
        1 => a.push('z'),
        _ => b.push_str("z9"),
    }
    let o = cmp_natural(&a, &b);
    // most significant difference after padding to equal length
    let k = n.max(m);
    let digit = |v: &String, i: usize| if i < k - v.len() { b'0' } else { v.as_bytes()[i - (k - v.len())] };
    let (mut less, mut more) = (false, false);
    for i in (0..k).rev() {
        let (p, q) = (digit(&x, i), digit(&y, i));
        less = p < q || (p == q && less);
        more = p > q || (p == q && more);
    }
    rt::check(!less || o == Ordering::Less, 5);
    rt::check(!more || o == Ordering::Greater, 6);
    rt::check(cmp_natural(&b, &a) == o.reverse(), 7);
    rt::cover(1);
}

/// Runs of digits of any length around powers of two: an arbitrary digit, then
/// as many equal digits as it takes, then another arbitrary one.
fn c22_long() {
    let n = rt::param(0);
    let run = |n: usize| {
        let mut s = String::from("x");
        s.push_str(&digits(1));
        let c = ['0', '5'][rt::pick(0, 1)];
        for _ in 2..n {
            s.push(c);
        }
        if n > 1 {
            s.push_str(&digits(1));
        }
        s
    };
    let (mut a, mut b) = (run(n), run([1, 2, n - 1, n, n + 1, 2 * n][rt::pick(0, 5)]));
    match rt::pick(0, 2) {
        0 => {}
        1 => a.push('z'),
        _ => b.push('z'),
    }
    pair(&a, &b);
}

/// Long text in front of a number.
fn c22_far() {
    let mut a = String::new();
    for i in 0..rt::param(0) {
        a.push(if i % 3 == 0 { '7' } else { 'q' });
    }
    let mut b = a.clone();
    a.push_str(&ascii(2));
    b.push_str(&ascii(rt::pick(0, 2)));
    pair(&a, &b);
}

crate::rt::harness!(c22_long, c22_far, c22_pairs, c22_mixed, c22_triples, c22_triples_mixed, c22_numbers, c22_limits);
