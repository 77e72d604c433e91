//! Just enough exact arithmetic to tell whether a double is the one nearest to a decimal
//! literal.

use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Big(Vec<u32>);

impl Big {
    pub fn from(x: u64) -> Big {
        Big(vec![x as u32, (x >> 32) as u32]).trim()
    }
    fn trim(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for d in &mut self.0 {
            let x = *d as u64 * m as u64 + c;
            *d = x as u32;
            c = x >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn pow10(&mut self, n: u32) {
        for _ in 0..n {
            self.mul_add(10, 0);
        }
    }
    pub fn shl(&mut self, n: u32) {
        let w = (n / 32) as usize;
        for _ in 0..n % 32 {
            self.mul_add(2, 0);
        }
        if !self.0.is_empty() {
            let mut v = vec![0; w];
            v.append(&mut self.0);
            self.0 = v;
        }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// Digits and power of ten of a literal, sign aside: 12.5e3 is (125, 2).
fn decimal(lit: &str) -> (Big, i32) {
    let lit = lit.trim_start_matches('-');
    let (m, e) = match lit.find(['e', 'E']) {
        Some(i) => (&lit[..i], lit[i + 1..].parse::<i32>().unwrap_or(if lit[i + 1..].starts_with('-') { -100_000 } else { 100_000 })),
        None => (lit, 0),
    };
    let mut b = Big::from(0);
    let mut e = e;
    let mut frac = false;
    for c in m.chars() {
        if c == '.' {
            frac = true;
        } else {
            b.mul_add(10, c.to_digit(10).unwrap());
            if frac {
                e -= 1;
            }
        }
    }
    (b.trim(), e)
}

/// d * 10^e against m * 2^k
fn cmp_dec_bin(d: &Big, e: i32, m: u64, k: i32) -> Ordering {
    let (mut a, mut b) = (d.clone(), Big::from(m));
    if a.0.is_empty() || b.0.is_empty() {
        return a.cmp(&b);
    }
    if e >= 0 {
        a.pow10(e as u32);
    } else {
        b.pow10(-e as u32);
    }
    if k >= 0 {
        b.shl(k as u32);
    } else {
        a.shl(-k as u32);
    }
    a.cmp(&b)
}

/// Whether `x`, finite, is the double nearest to the literal (ties to even); `None` when
/// the literal is too long to settle this way.
pub fn is_nearest(lit: &str, x: f64) -> Option<bool> {
    let (d, e) = decimal(lit);
    if e.abs() > 1500 || d.0.len() > 200 {
        return None;
    }
    if lit.starts_with('-') != x.is_sign_negative() {
        return Some(false);
    }
    let bits = x.abs().to_bits();
    let (exp, frac) = ((bits >> 52) as i32, bits & ((1 << 52) - 1));
    let (m, k) = if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp - 1075) };
    // halfway up: (2m+1) * 2^(k-1); halfway down: (2m-1) * 2^(k-1), or half that step
    // below a power of two
    let up = cmp_dec_bin(&d, e, 2 * m + 1, k - 1);
    let even = m % 2 == 0;
    let ok_up = up == Ordering::Less || (up == Ordering::Equal && even);
    let ok_down = if m == 0 {
        true
    } else {
        let down = if frac == 0 && exp > 1 { cmp_dec_bin(&d, e, 4 * m - 1, k - 2) } else { cmp_dec_bin(&d, e, 2 * m - 1, k - 1) };
        down == Ordering::Greater || (down == Ordering::Equal && even)
    };
    Some(ok_up && ok_down)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn nearest() {
        for s in ["0.1", "1e22", "9007199254740993.0", "9007199254740993.00001", "5e-324", "1.7976931348623157e308", "2.2250738585072011e-308", "0.0", "1e-400", "123456.789"] {
            let x: f64 = s.parse().unwrap();
            assert_eq!(is_nearest(s, x), Some(true), "{}", s);
            let y = f64::from_bits(x.to_bits() + 1);
            if y.is_finite() {
                assert_eq!(is_nearest(s, y), Some(false), "{}", s);
            }
            if x > 0.0 {
                assert_eq!(is_nearest(s, f64::from_bits(x.to_bits() - 1)), Some(false), "{}", s);
            }
        }
        assert_eq!(is_nearest("-1.5", -1.5), Some(true));
        assert_eq!(is_nearest("-1.5", 1.5), Some(false));
    }
}
