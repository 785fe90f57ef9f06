include!(concat!(env!("OUT_DIR"), "/universal_spartan_snark_verifier.rs"));
