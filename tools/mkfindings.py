"""Writes known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
("V04","2ac7aaf","verification accepted a zero or positive discriminant (division by zero and proofs over a trivial group)"),
("V03","898dba1","Python verify bindings read 100 bytes of x_s whatever its length"),
("P04","141bef6","ProveOneWesolowski waited without end when no iterations were requested or shutdown was asked for"),
("P05","902161e","a proof could be assembled from an unfinished segment"),
("P05","e5743ab","Prove returned a proof after it was stopped while waiting"),
("P03","2fe9dc4","lost wake-up in ProverManager::stop"),
("P02","9168197","FastStorage's stop and progress flags were plain variables shared between threads"),
("P06","fecad8c","checkpoint arrays written beyond kMaxCheckpoints"),
("S03","b0055ec","two-Wesolowski session compared requests with the wrong iteration limit"),
("P06","483c292","stop_vector grew (and moved) while threads held references to its elements"),
("S03","b76e1db","prover-type read error ignored; indeterminate byte used"),
("S03","244a8f7","sessions accepted a zero, positive or oversized discriminant"),
("S04","eab0f87","worker threads outlived the session objects they use when the peer disconnected"),
("S03","a74db4c","hw_vdf_client used the discriminant length sent by the peer without a bound"),
("A04","58d6801","SerializeForm ignored the encoder's result and sent an uninitialised buffer"),
("A04","ad7864a","hw_proof ignored results of form decoding and encoding"),
("V06","51ad429","bqfc_serialize overran its buffer for a form with a too large common factor"),
("C04","4f3a2d0","Rust verify_n_wesolowski handed a slice shorter than the 100 bytes the C function reads"),
("P02","ef99226","hw_proof's `stopping` flag was a plain variable shared between threads"),
("C05","0069297","HashPrime narrowed the seed length to int: a seed of more than INT_MAX bytes incremented the wrong nonce byte or none, and the prime search repeated forever"),
("P08","ea35a10","square_state_type::assign accepted a form with a=0 in release builds (the division by zero is skipped, stale remainder and c were tested)"),
("P01","8d44572","hw_proof grew the proofs table while proof threads used its elements"),
("P01","7991cb8","hw_proof valid_values bitmap changed from several threads without a lock"),
("P01","ac12b37","hw_proof read the values table from proof threads while the device thread grew it"),
("S04","e67963f","hardware proof threads used the VDF state after they reported being finished"),
("S03","8b54c27","hw_vdf_client iteration request overflowed iters_buf"),
("S01","2075fee","hw_vdf_client write_data lost the rest of a partially written message"),
("S03","78aabbf","hw_vdf_client accepted a zero, positive or oversized discriminant"),
("M01","6e9c3be","vdf_original::multiply used members (h, t, l, j) its constructor never initialised"),
("M01","321411f","vdf_original::generator_for_discriminant returned numbers it had released"),
]
json.dump({"findings":[dict(property=p,status="fixed",commit=c,text="fixed: property=%s %s %s"%(p,c,t)) for p,c,t in F]},open(V+"/known_findings.json","w"),indent=1)
