//! Every parameter set the crate publishes, by name.
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

pub trait Visit {
    fn p2<F: PrimeField>(&mut self, _name: &str, _get: fn() -> &'static Arc<Poseidon2Params<F>>) {}
    fn po<F: PrimeField>(&mut self, _name: &str, _get: fn() -> &'static Arc<PoseidonParams<F>>) {}
    fn gm<F: PrimeField>(&mut self, _name: &str, _get: fn() -> &'static Arc<GmimcParams<F>>) {}
    fn ne<F: PrimeField>(&mut self, _name: &str, _get: fn() -> &'static Arc<NeptuneParams<F>>) {}
}

macro_rules! inst {
    ($v:ident, $m:ident, $a:ident :: $b:ident, $($s:ident => $n:literal),+ $(,)?) => {
        $( $v.$m($n, || &zkhash::$a::$b::$s); )+
    };
}

pub fn visit(v: &mut impl Visit) {
    visit_p2(v);
    visit_po(v);
    visit_gm(v);
    visit_ne(v);
}
pub fn visit_p2(v: &mut impl Visit) {
    inst!(v, p2, poseidon2::poseidon2_instance_bls12,
        POSEIDON2_BLS_2_PARAMS => "POSEIDON2_BLS_2", POSEIDON2_BLS_3_PARAMS => "POSEIDON2_BLS_3",
        POSEIDON2_BLS_4_PARAMS => "POSEIDON2_BLS_4", POSEIDON2_BLS_8_PARAMS => "POSEIDON2_BLS_8");
    inst!(v, p2, poseidon2::poseidon2_instance_bn256, POSEIDON2_BN256_PARAMS => "POSEIDON2_BN_3");
    inst!(v, p2, poseidon2::poseidon2_instance_pallas,
        POSEIDON2_PALLAS_3_PARAMS => "POSEIDON2_PALLAS_3", POSEIDON2_PALLAS_4_PARAMS => "POSEIDON2_PALLAS_4",
        POSEIDON2_PALLAS_8_PARAMS => "POSEIDON2_PALLAS_8");
    inst!(v, p2, poseidon2::poseidon2_instance_vesta, POSEIDON2_VESTA_PARAMS => "POSEIDON2_VESTA_3");
    inst!(v, p2, poseidon2::poseidon2_instance_goldilocks,
        POSEIDON2_GOLDILOCKS_8_PARAMS => "POSEIDON2_GOLDILOCKS_8", POSEIDON2_GOLDILOCKS_12_PARAMS => "POSEIDON2_GOLDILOCKS_12",
        POSEIDON2_GOLDILOCKS_16_PARAMS => "POSEIDON2_GOLDILOCKS_16", POSEIDON2_GOLDILOCKS_20_PARAMS => "POSEIDON2_GOLDILOCKS_20");
    inst!(v, p2, poseidon2::poseidon2_instance_babybear,
        POSEIDON2_BABYBEAR_16_PARAMS => "POSEIDON2_BABYBEAR_16", POSEIDON2_BABYBEAR_24_PARAMS => "POSEIDON2_BABYBEAR_24");
}
pub fn visit_po(v: &mut impl Visit) {
    inst!(v, po, poseidon::poseidon_instance_bls12,
        POSEIDON_BLS_2_PARAMS => "POSEIDON_BLS_2", POSEIDON_BLS_3_PARAMS => "POSEIDON_BLS_3",
        POSEIDON_BLS_4_PARAMS => "POSEIDON_BLS_4", POSEIDON_BLS_8_PARAMS => "POSEIDON_BLS_8");
    inst!(v, po, poseidon::poseidon_instance_bn256, POSEIDON_BN_PARAMS => "POSEIDON_BN_3");
    inst!(v, po, poseidon::poseidon_instance_pallas,
        POSEIDON_PALLAS_3_PARAMS => "POSEIDON_PALLAS_3", POSEIDON_PALLAS_4_PARAMS => "POSEIDON_PALLAS_4",
        POSEIDON_PALLAS_8_PARAMS => "POSEIDON_PALLAS_8");
    inst!(v, po, poseidon::poseidon_instance_vesta, POSEIDON_VESTA_PARAMS => "POSEIDON_VESTA_3");
    inst!(v, po, poseidon::poseidon_instance_goldilocks,
        POSEIDON_GOLDILOCKS_8_PARAMS => "POSEIDON_GOLDILOCKS_8", POSEIDON_GOLDILOCKS_12_PARAMS => "POSEIDON_GOLDILOCKS_12",
        POSEIDON_GOLDILOCKS_16_PARAMS => "POSEIDON_GOLDILOCKS_16", POSEIDON_GOLDILOCKS_20_PARAMS => "POSEIDON_GOLDILOCKS_20");
    inst!(v, po, poseidon::poseidon_instance_babybear,
        POSEIDON_BABYBEAR_16_PARAMS => "POSEIDON_BABYBEAR_16", POSEIDON_BABYBEAR_24_PARAMS => "POSEIDON_BABYBEAR_24");
}
pub fn visit_gm(v: &mut impl Visit) {
    inst!(v, gm, gmimc::gmimc_instance_bls12,
        GMIMC_BLS_2_PARAMS => "GMIMC_BLS_2", GMIMC_BLS_3_PARAMS => "GMIMC_BLS_3", GMIMC_BLS_4_PARAMS => "GMIMC_BLS_4",
        GMIMC_BLS_5_PARAMS => "GMIMC_BLS_5", GMIMC_BLS_8_PARAMS => "GMIMC_BLS_8", GMIMC_BLS_9_PARAMS => "GMIMC_BLS_9",
        GMIMC_BLS_12_PARAMS => "GMIMC_BLS_12", GMIMC_BLS_16_PARAMS => "GMIMC_BLS_16",
        GMIMC_BLS_20_PARAMS => "GMIMC_BLS_20", GMIMC_BLS_24_PARAMS => "GMIMC_BLS_24");
    inst!(v, gm, gmimc::gmimc_instance_bn256,
        GMIMC_BN_3_PARAMS => "GMIMC_BN_3", GMIMC_BN_4_PARAMS => "GMIMC_BN_4",
        GMIMC_BN_5_PARAMS => "GMIMC_BN_5", GMIMC_BN_8_PARAMS => "GMIMC_BN_8", GMIMC_BN_9_PARAMS => "GMIMC_BN_9",
        GMIMC_BN_12_PARAMS => "GMIMC_BN_12", GMIMC_BN_16_PARAMS => "GMIMC_BN_16",
        GMIMC_BN_20_PARAMS => "GMIMC_BN_20", GMIMC_BN_24_PARAMS => "GMIMC_BN_24");
    inst!(v, gm, gmimc::gmimc_instance_pallas,
        GMIMC_PALLAS_3_PARAMS => "GMIMC_PALLAS_3", GMIMC_PALLAS_4_PARAMS => "GMIMC_PALLAS_4",
        GMIMC_PALLAS_5_PARAMS => "GMIMC_PALLAS_5", GMIMC_PALLAS_8_PARAMS => "GMIMC_PALLAS_8", GMIMC_PALLAS_9_PARAMS => "GMIMC_PALLAS_9",
        GMIMC_PALLAS_12_PARAMS => "GMIMC_PALLAS_12", GMIMC_PALLAS_16_PARAMS => "GMIMC_PALLAS_16",
        GMIMC_PALLAS_20_PARAMS => "GMIMC_PALLAS_20", GMIMC_PALLAS_24_PARAMS => "GMIMC_PALLAS_24");
    inst!(v, gm, gmimc::gmimc_instance_vesta,
        GMIMC_VESTA_3_PARAMS => "GMIMC_VESTA_3", GMIMC_VESTA_4_PARAMS => "GMIMC_VESTA_4",
        GMIMC_VESTA_5_PARAMS => "GMIMC_VESTA_5", GMIMC_VESTA_8_PARAMS => "GMIMC_VESTA_8", GMIMC_VESTA_9_PARAMS => "GMIMC_VESTA_9",
        GMIMC_VESTA_12_PARAMS => "GMIMC_VESTA_12", GMIMC_VESTA_16_PARAMS => "GMIMC_VESTA_16",
        GMIMC_VESTA_20_PARAMS => "GMIMC_VESTA_20", GMIMC_VESTA_24_PARAMS => "GMIMC_VESTA_24");
    inst!(v, gm, gmimc::gmimc_instance_goldilocks,
        GMIMC_GOLDILOCKS_8_PARAMS => "GMIMC_GOLDILOCKS_8", GMIMC_GOLDILOCKS_12_PARAMS => "GMIMC_GOLDILOCKS_12",
        GMIMC_GOLDILOCKS_16_PARAMS => "GMIMC_GOLDILOCKS_16", GMIMC_GOLDILOCKS_20_PARAMS => "GMIMC_GOLDILOCKS_20");
    inst!(v, gm, gmimc::gmimc_instance_babybear,
        GMIMC_BABYBEAR_16_PARAMS => "GMIMC_BABYBEAR_16", GMIMC_BABYBEAR_24_PARAMS => "GMIMC_BABYBEAR_24");
}
pub fn visit_ne(v: &mut impl Visit) {
    inst!(v, ne, neptune::neptune_instances,
        NEPTUNE_BN_PARAMS => "NEPTUNE_BN_4", NEPTUNE_BLS_4_PARAMS => "NEPTUNE_BLS_4", NEPTUNE_BLS_8_PARAMS => "NEPTUNE_BLS_8",
        NEPTUNE_GOLDILOCKS_8_PARAMS => "NEPTUNE_GOLDILOCKS_8", NEPTUNE_GOLDILOCKS_12_PARAMS => "NEPTUNE_GOLDILOCKS_12",
        NEPTUNE_GOLDILOCKS_16_PARAMS => "NEPTUNE_GOLDILOCKS_16", NEPTUNE_GOLDILOCKS_20_PARAMS => "NEPTUNE_GOLDILOCKS_20",
        NEPTUNE_BABYBEAR_16_PARAMS => "NEPTUNE_BABYBEAR_16", NEPTUNE_BABYBEAR_24_PARAMS => "NEPTUNE_BABYBEAR_24",
        NEPTUNE_PALLAS_4_PARAMS => "NEPTUNE_PALLAS_4", NEPTUNE_PALLAS_8_PARAMS => "NEPTUNE_PALLAS_8",
        NEPTUNE_VESTA_PARAMS => "NEPTUNE_VESTA_4");
}
