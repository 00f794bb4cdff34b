//! Small prime fields (exhaustively checkable) next to the six shipped ones.
#![allow(non_local_definitions)]
use ark_ff::fields::{Fp, Fp64, MontBackend, MontConfig};

macro_rules! small {
    ($cfg:ident, $ty:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $ty = Fp64<MontBackend<$cfg, 1>>;
    };
}
macro_rules! sized {
    ($cfg:ident, $ty:ident, $m:literal, $g:literal, $n:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $ty = Fp<MontBackend<$cfg, $n>, $n>;
    };
}
small!(C3, F3, "3", "2");
small!(C5, F5, "5", "2");
small!(C7, F7, "7", "3");
small!(C11, F11, "11", "2");
small!(C13, F13, "13", "2");
small!(C17, F17, "17", "3");
small!(C23, F23, "23", "5");
small!(C257, F257, "257", "3");
small!(C32749, F32749, "32749", "2");

// Fields of every size between: whatever a value-dependent shortcut calls small (a byte, a word, two
// words) is an ordinary value in one of these. Some moduli are far from a power of two.
sized!(C17B, M17, "65537", "3", 1);
sized!(C20B, M20, "1048573", "2", 1);
sized!(C24B, M24, "16777213", "5", 1);
sized!(C28B, M28, "187904809", "19", 1);
sized!(C31B, M31, "2147483647", "7", 1);
sized!(C32B, M32, "4294967291", "2", 1);
sized!(C40B, M40, "659706976657", "5", 1);
sized!(C48B, M48, "281474976710597", "2", 1);
sized!(C56B, M56, "39631676720860363", "26", 1);
sized!(C61B, M61, "2305843009213693951", "37", 1);
sized!(C64B, M64, "12543785970122495971", "2", 1);
sized!(C96B, M96, "59421121885698253195157962751", "11", 2);
sized!(C127B, M127, "170141183460469231731687303715884105727", "43", 2);
sized!(C160B, M160, "913438523331814323877303020447676887284957839351", "3", 3);
sized!(C384B, M384, "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", "2", 6);

/// Call a generic function for each of them.
#[macro_export]
macro_rules! middle {
    ($f:ident, $($a:expr),*) => {
        $f::<M17>($($a),*);
        $f::<M20>($($a),*);
        $f::<M24>($($a),*);
        $f::<M28>($($a),*);
        $f::<M31>($($a),*);
        $f::<M32>($($a),*);
        $f::<M40>($($a),*);
        $f::<M48>($($a),*);
        $f::<M56>($($a),*);
        $f::<M61>($($a),*);
        $f::<M64>($($a),*);
        $f::<M96>($($a),*);
        $f::<M127>($($a),*);
        $f::<M160>($($a),*);
        $f::<M384>($($a),*);
    };
}

pub use zkhash::fields::{
    babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks,
    pallas::FpPallas, vesta::FpVesta,
};
