//! Trial division, which is all the precision a handful of small numbers needs.
pub fn is_prime(n: u64) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
