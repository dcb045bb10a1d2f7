// Kani unit: taking a float apart, and the buckets of scales <= 0, for every finite f64
// (opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs).
#![allow(unused)]
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs fn frexp
//@endfn
struct P { scale: i8 }
impl P {
//@fn opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs impl ExpoHistogramDataPoint<T> :: fn get_bin
//@subst (exp << self.scale) + (frac.ln() * scale_factors()[self.scale as usize]) as i32 - 1 ~> unreachable!()
//@endfn
}

#[cfg(kani)]
mod proofs {
    use super::*;
    /// (m, e): x == m * 2^(e - 53) with 2^52 <= m < 2^53, for a finite x > 0, from its bits alone
    fn parts(x: f64) -> (u64, i32) {
        let b = x.to_bits();
        let ee = ((b >> 52) & 0x7ff) as i32;
        let frac = b & ((1u64 << 52) - 1);
        if ee == 0 {
            let z = frac.leading_zeros() as i32 - 11;
            (frac << z, -1021 - z)
        } else {
            (frac | (1u64 << 52), ee - 1022)
        }
    }
    #[kani::proof]
    #[kani::unwind(3)]
    fn frexp_is_exact() {
        let x: f64 = kani::any();
        kani::assume(x.is_finite() && x > 0.0);
        kani::cover!(x < f64::MIN_POSITIVE);
        kani::cover!(x == f64::MAX);
        let (f, e) = frexp(x);
        let (m, k) = parts(x);
        assert!(f >= 0.5 && f < 1.0, "the fraction lies in [0.5, 1)");
        let b = f.to_bits();
        assert!((b & ((1u64 << 52) - 1)) | (1u64 << 52) == m && b >> 52 == 0x3fe, "the fraction has exactly the bits of the value");
        assert!(e == k && e >= -1073 && e <= 1024, "the exponent is exact");
    }
    #[kani::proof]
    #[kani::unwind(3)]
    fn buckets_of_scales_up_to_zero_are_exact() {
        let x: f64 = kani::any();
        let scale: i8 = kani::any();
        kani::assume(x.is_finite() && x > 0.0);
        kani::assume(scale <= 0 && scale >= -10);
        kani::cover!(scale == -10 && x == 1.0);
        kani::cover!(scale == 0 && x > 2.0);
        let got = P { scale }.get_bin(x);
        let (m, k) = parts(x);
        // 2^i < x <= 2^(i+1)
        let i = if m == 1u64 << 52 { k - 2 } else { k - 1 };
        assert!(got == i.div_euclid(1 << -scale), "the bucket (base^n, base^(n+1)] that contains the value");
    }
}
