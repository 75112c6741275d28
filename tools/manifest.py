import json
ids=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
 'A':"Seeded search over sessions, schedules, alterations and storage faults against reference models; sampled, not exhaustive. Third-party crates missing offline (k256, p256, bcs, rangeset, rs_merkle, blake3, tiny-keccak) are re-implemented stand-ins.",
 'R':"Seeded search over schedules, deliveries and faults against an independent reference model; sampled, not exhaustive. Trusts ring, rustls-webpki, sct, rustls and the reference models in records/src.",
}
NOTE['S']="Seeded search over conversations, schedules, faults and forged messages with the real prover and verifier in one simulated process; sampled, not exhaustive. The two-party protocols of mpz (absent offline) are replaced by ideal functionalities, so attacks inside them are out of scope."
CR={'S':'session','R':'records','A':'notary'}
NA={}
checks=[]
for d in ids:
    i=d['id']
    if i in NA: continue
    c=CR[i[0]]
    checks.append(dict(property=i,quick_cmd=f"bin/check {c} {i} quick",thorough_cmd=f"bin/check {c} {i} thorough",technique="deterministic simulation with fault injection (seeded search, reference-model oracle)",level="exploration",level_note=NOTE[i[0]]))
m=dict(version=1,setup_cmd="bin/setup",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],notes="Replay a violation with: bin/replay <crate> <replay file> [--trace]. Harness crates build from /repo's working tree.",hooks=dict(guard='cargo feature `sim` of tlsn-sdk-core (off by default)',enable='session/Cargo.toml depends on tlsn-sdk-core with features = ["sim"]',source_commits=['2a54d8c']))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
