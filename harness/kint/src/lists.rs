/// moduli of the remainder-recombination instances: (prime, exponent)
pub const CRT_SMALL: [&[(u32, u32)]; 8] = [&[(2, 1)], &[(3, 2)], &[(2, 2), (3, 1)], &[(3, 2), (5, 1)], &[(5, 1), (3, 2)], &[(2, 1), (3, 1), (5, 1)], &[(7, 1), (2, 3), (3, 2)], &[(3, 1), (2, 2), (5, 1), (7, 1)]];
pub const CRT_MEDIUM: [&[(u32, u32)]; 5] = [&[(3, 2), (5, 1), (7, 3)], &[(2, 6), (3, 4)], &[(59, 1), (11, 2)], &[(71, 1), (13, 1), (2, 1)], &[(11, 2), (2, 3), (13, 1)]];
/// centres of the windows of the integer square root: squares of these
pub const ROOTS: [u32; 10] = [256, 257, 1000, 1023, 1024, 4095, 4096, 30000, 46341, 65000];
