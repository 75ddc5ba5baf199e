//! Uses the macros have to reject: the compiler reports an error for each line of the array and
//! each structure, or the macro accepts what it cannot express.
use ragu_arithmetic::repr256;

const TOO_LARGE: [u64; 4] = repr256!(0x10000000000000000000000000000000000000000000000000000000000000000); //~ a literal above 256 bits
const TOO_LARGE_DECIMAL: [u64; 4] = repr256!(115792089237316195423570985008687907853269984665640564039457584007913129639936); //~ a literal above 256 bits
const MUCH_TOO_LARGE: [u64; 4] = repr256!(0x100000000000000000000000000000000000000000000000000000000000000000000000000000000); //~ a literal above 256 bits
const NOT_A_NUMBER: [u64; 4] = repr256!("1"); //~ a string in place of an integer
