//! Every value of every width of the bounded offsets.
use lc3_ensemble::ast::Offset;
use mon::*;

macro_rules! width {
    ($l:expr, $v:expr, $($n:literal),*) => {$({
        const N: u32 = $n;
        let l: &mut Local = $l;
        let v: u16 = $v;
        let mask: u32 = ((1u32 << N) - 1) as u32;
        // unsigned
        let fits = (v as u32) <= mask;
        l.eval();
        match guard(|| Offset::<u16, N>::new(v).map(|o| o.get())) {
            Err(e) => l.violation(format!("Offset<u16,{N}>::new panicked at {}", e.loc), format!("value {v}")),
            Ok(Ok(g)) => {
                if !fits { l.violation(format!("Offset<u16,{N}>::new accepts a value that does not fit"), format!("value {v}")) }
                else if g != v { l.violation(format!("Offset<u16,{N}>::new holds another value"), format!("value {v}, holds {g}")) }
                l.count("accepted", 1);
            }
            Ok(Err(_)) => { if fits { l.violation(format!("Offset<u16,{N}>::new rejects a value that fits"), format!("value {v}")) } l.count("rejected", 1); }
        }
        let want = (v as u32 & mask) as u16;
        match guard(|| Offset::<u16, N>::new_trunc(v).get()) {
            Err(e) => l.violation(format!("Offset<u16,{N}>::new_trunc panicked at {}", e.loc), format!("value {v}")),
            Ok(g) => if g != want { l.violation(format!("Offset<u16,{N}>::new_trunc is not the zero extension of the low bits"), format!("value {v}: got {g}, expected {want}")) }
        }
        // signed
        let s = v as i16;
        let half = 1i32 << (N - 1);
        let fits = (s as i32) >= -half && (s as i32) < half;
        match guard(|| Offset::<i16, N>::new(s).map(|o| o.get())) {
            Err(e) => l.violation(format!("Offset<i16,{N}>::new panicked at {}", e.loc), format!("value {s}")),
            Ok(Ok(g)) => {
                if !fits { l.violation(format!("Offset<i16,{N}>::new accepts a value that does not fit"), format!("value {s}")) }
                else if g != s { l.violation(format!("Offset<i16,{N}>::new holds another value"), format!("value {s}, holds {g}")) }
                l.count("accepted", 1);
            }
            Ok(Err(_)) => { if fits { l.violation(format!("Offset<i16,{N}>::new rejects a value that fits"), format!("value {s}")) } l.count("rejected", 1); }
        }
        let low = (v as u32 & mask) as i32;
        let want = (if low >= half { low - (1i32 << N) } else { low }) as i16;
        match guard(|| Offset::<i16, N>::new_trunc(s).get()) {
            Err(e) => l.violation(format!("Offset<i16,{N}>::new_trunc panicked at {}", e.loc), format!("value {s}")),
            Ok(g) => if g != want { l.violation(format!("Offset<i16,{N}>::new_trunc is not the sign extension of the low bits"), format!("value {s}: got {g}, expected {want}")) }
        }
        l.distinct(((N as u64) << 16) | v as u64);
    })*};
}
fn main() {
    let mut c = Check::new("C35");
    c.exhaustive("all values of all widths", 65536, |i, _, l| {
        width!(l, i as u16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
        if i < 2 {
            l.sample(|| format!("value {i}: all 16 widths, signed and unsigned, new and new_trunc"));
        }
    });
    c.finish(
        "all 65536 values x widths 1..=16 x {signed, unsigned} x {new, new_trunc}, observed results compared with integer arithmetic; distinct = (width, value)",
        &[],
        &[("accepted", 100_000), ("rejected", 100_000)],
    )
}
