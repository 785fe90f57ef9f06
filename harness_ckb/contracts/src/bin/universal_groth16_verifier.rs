include!(concat!(env!("OUT_DIR"), "/universal_groth16_verifier.rs"));
