include!(concat!(env!("OUT_DIR"), "/mini_bulletproofs_verifier.rs"));
