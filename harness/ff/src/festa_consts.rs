// parameter constants are only needed to compile festa.rs: the serialisation code does not use them (they are the subject of C19)
pub const D1: [u32; 1] = [3];
pub const D1_FACTORED: [(u32, u32); 1] = [(3, 1)];
pub const D2: [u32; 1] = [5];
pub const D2_FACTORED: [(u32, u32); 1] = [(5, 1)];
pub const DA: [u32; 1] = [77];
pub const DA_FACTORED: [(u32, u32); 2] = [(7, 1), (11, 1)];
pub const DA1: [u32; 1] = [7];
pub const DA1_FACTORED: [(u32, u32); 1] = [(7, 1)];
pub const DA2: [u32; 1] = [11];
pub const DA2_FACTORED: [(u32, u32); 1] = [(11, 1)];
pub const M1: [u32; 1] = [1];
pub const M2: [u32; 1] = [1];
pub const THETA_ISOGENY_LENGTH: u32 = 2;
pub const THETA_STRATEGY: [usize; 1] = [1];
