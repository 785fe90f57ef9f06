include!(concat!(env!("OUT_DIR"), "/mini_libra_zk_linear_gkr_verifier.rs"));
