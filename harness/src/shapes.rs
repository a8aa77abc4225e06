//! Expressions over three matrices, with the library's real nested types.
use crate::scal::Sc;

pub const SHAPES: u8 = 14;

pub fn run<R>(f: impl FnOnce() -> R) -> R {
    f()
}

/// `$w(|| expression)` is bound to `$x` and `$e` is evaluated, for expression number `$n` over `$a`, `$b`, `$c`
/// (matrices of equal dimension and index order) and the scalars `$s`, `$t`.
#[macro_export]
macro_rules! with_shape {
    ($n:expr, $T:ident, $a:ident, $b:ident, $c:ident, $s:ident, $t:ident, $w:path, $x:ident => $e:expr) => {
        match $n {
            0 => { let $x = $w(|| Matrix::from_ref(&$a)); $e }
            1 => { let $x = $w(|| $T::s_rm($s, &$a)); $e }
            2 => { let $x = $w(|| &$a + &$b); $e }
            3 => { let $x = $w(|| $T::s_m($s, &$a + &$b)); $e }
            4 => { let $x = $w(|| $T::s_rm($s, &$a) + $T::rm_s(&$b, $t) + &$c); $e }
            5 => { let $x = $w(|| &$a + $T::m_s(&$b + $T::s_rm($s, &$c), $t)); $e }
            6 => { let y = $T::s_rm($s, &$a) + &$b; let $x = $w(|| &y + &$c); $e }
            7 => { let y = &$b + &$c; let $x = $w(|| $T::s_rm($t, &$a) + $T::s_rm($s, &y)); $e }
            8 => { let $x = $w(|| &$a + &$a + &$a); $e }
            9 => { let $x = $w(|| $T::s_m($s, $T::s_m($t, &$a + (&$b + &$a)))); $e }
            10 => { let y = Matrix::from_ref(&$a); let $x = $w(|| Matrix::from_ref(&y) + Matrix::from_ref(&$b)); $e }
            11 => { let y = $T::s_rm($s, &$b); let z = &y + &$a; let $x = $w(|| &z + &y); $e }
            12 => { let $x = $w(|| (&$a + &$b) + (&$c + $T::s_rm($s, &$a))); $e }
            _ => { let y = $T::m_s(&$a + &$b, $s); let z = $T::rm_s(&y, $t); let $x = $w(|| Matrix::from_ref(&z) + &y); $e }
        }
    };
}

/// The value of expression `n` at one element.
pub fn want<T: Sc>(n: u8, a: T, b: T, c: T, s: T, t: T) -> T {
    match n {
        0 => a,
        1 => s.rmul(a),
        2 => a.radd(b),
        3 => s.rmul(a.radd(b)),
        4 => s.rmul(a).radd(t.rmul(b)).radd(c),
        5 => a.radd(t.rmul(b.radd(s.rmul(c)))),
        6 => s.rmul(a).radd(b).radd(c),
        7 => t.rmul(a).radd(s.rmul(b.radd(c))),
        8 => a.radd(a).radd(a),
        9 => s.rmul(t.rmul(a.radd(b.radd(a)))),
        10 => a.radd(b),
        11 => s.rmul(b).radd(a).radd(s.rmul(b)),
        12 => a.radd(b).radd(c.radd(s.rmul(a))),
        _ => {
            let y = s.rmul(a.radd(b));
            t.rmul(y).radd(y)
        }
    }
}

/// How often `a`, `b` and `c` occur in expression `n`.
pub fn occurrences(n: u8) -> [u32; 3] {
    match n {
        0 | 1 => [1, 0, 0],
        2 | 3 | 10 => [1, 1, 0],
        4 | 5 | 6 | 7 => [1, 1, 1],
        8 => [3, 0, 0],
        9 => [2, 1, 0],
        11 => [1, 2, 0],
        12 => [2, 1, 1],
        _ => [2, 2, 0],
    }
}
