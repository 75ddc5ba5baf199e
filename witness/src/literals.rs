//! The limbs of integer literals, compared by the compiler.
use ragu_arithmetic::repr256;

const fn eq(a: [u64; 4], b: [u64; 4]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
}

const M: u64 = u64::MAX;
const _: () = assert!(eq(repr256!(0), [0, 0, 0, 0]));
const _: () = assert!(eq(repr256!(0x0), [0, 0, 0, 0]));
const _: () = assert!(eq(repr256!(1), [1, 0, 0, 0]));
const _: () = assert!(eq(repr256!(18446744073709551615), [M, 0, 0, 0]));
const _: () = assert!(eq(repr256!(18446744073709551616), [0, 1, 0, 0]));
const _: () = assert!(eq(repr256!(0x1_0000_0000_0000_0000), [0, 1, 0, 0]));
const _: () = assert!(eq(repr256!(0xffffffffffffffffffffffffffffffff), [M, M, 0, 0]));
const _: () = assert!(eq(repr256!(0x100000000000000000000000000000000), [0, 0, 1, 0]));
const _: () = assert!(eq(repr256!(0x1000000000000000000000000000000000000000000000000), [0, 0, 0, 1]));
const _: () = assert!(eq(repr256!(0xffffffffffffffff0000000000000000), [0, M, 0, 0]));
const _: () = assert!(eq(repr256!(0xffffffffffffffff00000000000000000000000000000000), [0, 0, M, 0]));
const _: () = assert!(eq(repr256!(0xffffffffffffffff000000000000000000000000000000000000000000000000), [0, 0, 0, M]));
const _: () = assert!(eq(repr256!(0x0123456789abcdef00000000000000000000000000000000fedcba9876543210), [0xfedcba9876543210, 0, 0, 0x0123456789abcdef]));
const _: () = assert!(eq(repr256!(0x0123456789abcdef123456789abcdef0fedcba98765432100fedcba987654321), [0x0fedcba987654321, 0xfedcba9876543210, 0x123456789abcdef0, 0x0123456789abcdef]));
const _: () = assert!(eq(repr256!(0x8000000000000000800000000000000080000000000000008000000000000000), [1 << 63, 1 << 63, 1 << 63, 1 << 63]));
const _: () = assert!(eq(repr256!(0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), [M, M, M, M]));
const _: () = assert!(eq(repr256!(0b1_00000000_00000000_00000000_00000000_00000000_00000000_00000000_00000001), [1, 1, 0, 0]));
const _: () = assert!(eq(repr256!(0o777), [511, 0, 0, 0]));
const _: () = assert!(eq(repr256!(115792089237316195423570985008687907853269984665640564039457584007913129639935), [M, M, M, M]));
const _: () = assert!(eq(repr256!(340282366920938463463374607431768211457), [1, 0, 1, 0]));
const _: () = assert!(eq(repr256!(6277101735386680763835789423207666416102355444464034512897), [1, 0, 0, 1]));

// field elements: the canonical limbs handed to the field's own constructor
pub const FP: ragu_pasta::Fp = ragu_pasta::fp!(0x0123456789abcdef123456789abcdef0fedcba98765432100fedcba987654321);
pub const FQ: ragu_pasta::Fq = ragu_pasta::fq!(0x0123456789abcdef123456789abcdef0fedcba98765432100fedcba987654321);
