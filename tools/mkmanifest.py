#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property of properties.jsonl that has a check (CHECKS) is claimed, the rest go to not_applicable."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="property-based testing: seeded random structured generation against "
# id -> (variants, oracle text, level, level note)
CHECKS={
 "C01":("hashed raw","no crash and bounded work, one response at most, the other sessions and the genuine requester served afterwards","exploration","requests of every kind built, bent and reframed, in every state, arbitrary frames and records, altered genuine runs"),
 "C02":("hashed raw","no crash, bounded messages for every operation, and a genuine run that works afterwards","exploration","altered genuine answers, scripted answers of every kind, responders that never come to an end"),
 "C03":("hashed","a byte-exact reference layout model (wire.rs); arbitrary and mutated bytes into every decoder, every output size for every encoder","exploration","random and structure-aware inputs, not exhaustive"),
 "C04":("hashed","an independent wire-format model and a round trip (bytes -> value -> bytes)","exploration","random message values of every kind under random negotiated parameters"),
 "C05":("hashed","an independent model of what two configurations negotiate, compared with both sides' state, the messages and the outcome","exploration","random pairs of configurations, capability flags valid and arbitrary"),
 "C06":("hashed","a priority and subset model over arbitrary offers at the responder and arbitrary answers and version lists at the requester","exploration","random masks including unknown bits"),
 "C07":("hashed raw","an independent model of stored certificate chains: every window served, every fetched chain compared, dishonest servers with altered chains","exploration","random chains, offsets and lengths, in the clear and inside sessions"),
 "C08":("hashed","an independent digest per stored slot, over random slot subsets and dishonest digest answers","exploration","random slot masks and chains"),
 "C09":("hashed raw","a passive observer that recomputes what the challenge signature must cover, over honest, altered, forged and replayed challenges","exploration","both transcript builds; toy cryptography makes every forgery decidable"),
 "C10":("hashed raw","a model of the device's measurements and an observer that recomputes the measurement transcript, over honest, altered, forged and replayed answers","exploration","both transcript builds, in the clear and inside sessions"),
 "C11":("hashed raw","a passive observer with an independent implementation of transcripts, key schedule, HMACs and signatures, over honest, tampered, forged and replayed handshakes","exploration","both transcript builds; toy cryptography makes every forgery decidable"),
 "C12":("hashed raw","an independent key schedule recomputed from the wire and the DHE or PSK secret, compared with every secret both parties derive","exploration","random histories of sessions of both kinds and key updates"),
 "C13":("hashed raw","an independent PSK schedule over honest, tampered, mismatched and forged PSK exchanges","exploration","both transcript builds"),
 "C14":("hashed raw","an independent model of mutual authentication over honest handshakes, forged signatures, foreign and altered chains, known slots","exploration","both transcript builds"),
 "C15":("hashed","an independent record layer (layout, sequence numbers, keys, session ids) over honest records, and altered, replayed, reordered, foreign and forged ones in both directions","exploration","random histories over one to three sessions"),
 "C16":("hashed","the log of every (key, nonce) pair sealed by either party over histories with faults, losses, updates and re-connections, plus the sequence number limit","exploration","sealed records of random histories"),
 "C17":("hashed","an independent key-update schedule over honest, tampered, lost, refused and forged updates","exploration","random update histories"),
 "C18":("hashed raw","a model of both session tables over histories of openings, failures, losses, internal faults and ends, and a differential run of two sessions together and apart","exploration","up to five sessions, interleaved handshakes, injected faults"),
 "C19":("hashed raw","a model of the session table and a tracking allocator: after the end no operation, record or replay works, the entry equals a new one, and every block that held a secret was erased before release","exploration","END_SESSION, re-connection, given-up connections, decrypt errors, altered and lost messages around the end"),
 "C20":("hashed raw","a model of the request order rules (connection stage, sessions, capabilities) that says for every request whether it is to be served, which errors are due, and what may change","exploration","random request histories in the clear and in several sessions, random capability subsets, well-formed requests of all kinds in every state"),
 "C21":("hashed","the same model extended by an independent parser of every request and response: one answer, its code, version, layout and echoed fields","exploration","well-formed, bent and truncated requests in every state, and backend failures during requests"),
 "C22":("hashed raw","the result of the operation is failure, results and requester state are as before it, and what follows still works","exploration","errors of every code, other kinds, versions, channels, short answers and contradicted (and re-signed) echoes in place of any answer of any operation"),
 "C23":("hashed","a model of what vendor-defined requests and responses carry, compared with what the handlers and callers get","exploration","random standards, vendor ids and payloads up to and over the limits, malformed lengths, failing handlers"),
 "C24":("hashed","a model of which application messages reach the handler and which answers go back, by session state, size and handler outcome","exploration","random messages, states, sizes and failures"),
 "C25":("hashed raw","an independent model of both transport bindings, and a differential run of one connection over both","exploration","random messages and sizes, foreign and malformed headers, secured and clear, transport against transport"),
 "C26":("hashed raw","no crash, the failing operation reports failure (or the peer's failure answer), sessions and later connections are as they were","fault_enumeration","for each operation every single fault of every backend call on both sides is enumerated in random configurations (sweep); random mixes of several faults besides"),
 "C27":("hashed","an independent DER reader and certificate rule model","exploration","valid certificates of random shape, single-field corruptions, cuts and raw byte edits"),
 "C28":("hashed","a Vec<u8> reference model of readers, writers, buffers and secret containers over random operation sequences; freed blocks of secrets are inspected","exploration","random operation sequences, plus all small widths"),
 "C31":("hashed raw","a differential run: the re-initialised connection against the same steps on new contexts, byte for byte","exploration","random pasts (sessions, faults, refused and hostile messages, negotiation given up halfway), same and other configurations afterwards"),
 "C32":("hashed raw","a log of what the random source and key generator gave out, against every random field on the wire","exploration","random histories, requests fed again, a random source that comes up short"),
 "C29":("hashed raw","an independent strict reader of opaque data: offer, choice, and the session state of both sides; altered opaque data with fitting signatures and HMACs in both directions; list round trips","exploration","random configurations and opaque data from a grammar with mutations"),
 "C33":("hashed","differential: traces (frames, results, keys, sessions, state, backend calls) of the hashed and raw builds over the same choices","exploration","random histories, faults, hostile messages and negotiations, run in both builds"),
 "C30":("hashed","a differential run of the same messages under a large and a small announced size, and a bound on every message length on the wire","exploration","sizes from the minimum to the largest message, both directions, in and out of sessions"),
}
exec(open(os.path.join(root,"tools","checks_extra.py")).read()) if os.path.exists(os.path.join(root,"tools","checks_extra.py")) else None
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CHECKS:
        v,o,l,n=CHECKS[i]
        v="" if v=="hashed" else " "+v
        checks.append({"property":i,"quick_cmd":f"bash harness/check.sh {i} quick{v}","thorough_cmd":f"bash harness/check.sh {i} thorough{v}","technique":T+o,"level":l,"level_note":n})
    else: na.append({"property":i,"reason":"check not written yet"})
json.dump({"version":1,"setup_cmd":"bash harness/setup.sh","hooks":{"guard":"none","enable":"no hooks are used: the harness drives public interfaces only","source_commits":[]},"checks":checks,"not_applicable":na},open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
