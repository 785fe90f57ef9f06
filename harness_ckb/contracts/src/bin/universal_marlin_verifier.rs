include!(concat!(env!("OUT_DIR"), "/universal_marlin_verifier.rs"));
