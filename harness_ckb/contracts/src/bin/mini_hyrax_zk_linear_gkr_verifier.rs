include!(concat!(env!("OUT_DIR"), "/mini_hyrax_zk_linear_gkr_verifier.rs"));
