include!(concat!(env!("OUT_DIR"), "/universal_spartan_nizk_verifier.rs"));
