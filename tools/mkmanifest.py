#!/usr/bin/env python3
# Generates /verif/MANIFEST.json: claimed checks and not-applicable properties.
import json
CLAIMED={
"P01":("abstract interpretation of every request handler (SSA, global value numbering): provenance of every storage argument and reply field","every path of every registered handler; trusts that storage and network calls behave as their interfaces say and that generated decoders fill fields from the payload (P27)"),
"P02":("typestate analysis of replies over every path of every request handler","every path of every registered handler, with every write succeeding or failing"),
"P03":("typestate over every path, with panics: each transaction, iterator and batch opened is finished on every exit","every exported operation and its helpers; caller functions and storage calls may succeed, fail or panic"),
"P04":("typestate of every transaction helper: function outcome, commit and reported result","every path of every helper that opens a transaction for a function it is given"),
"P08":("typestate of the server's start and stop operations","every path of every operation of the server object that opens, closes, serves or shuts down"),
"P09":("error-flow analysis: no path on which a fallible step failed returns success","every exported operation and every function it calls; each fallible step may fail independently"),
"P05":("abstract interpretation of request handlers and client calls: error provenance and code mapping","every path; network, storage and encoding steps are free to succeed or fail"),
"P06":("abstract interpretation with linear arithmetic over scan handlers and client scans","every path, loops by joined invariants; the store is free to offer any number of entries"),
"P07":("abstract interpretation with nilness, interval and linear facts: absence of nil dereference, out-of-range index or slice, explicit panic","every path of handlers, client calls, decoders (the generated protobuf decoders with integer overflow and recursion included) and store readers; encoding/json, reflect-based protobuf entry points and the storage engines are trusted"),
"P16":("inductive invariant of every sequence object by abstract interpretation with linear arithmetic, plus lock-set analysis of its fields","every method of every object built by a sequence constructor, from an arbitrary range; storage calls succeed or fail independently; a transaction that commits is serializable (P30) and counters stay far below the integer limits"),
"P21":("type-based lint of the stored formats plus abstract interpretation of Encode/Decode/DecodeArg and of every catalog operation: what is written under a key is matched with what its readers decode","every type given to a stored format, every path of every catalog operation and of the codecs of records with parts left out; the JSON and BSON libraries keep what they are given, and a value of a type of another module is that module's"),
"P17":("provenance and typestate analysis: reserved numbers are tracked from the counter's increment to the objects they are given to, with linear arithmetic over ranges","every transaction of the DDL API and worker, the id counter's operations down to the stored number, and every name the document database numbers; the catalog operations run in serializable transactions (P30) and counters stay far below the integer limits; ids of one range given out in a later loop than the reservation's are reported"),
"P19":("lock-set and lock-order analysis over every path, with panics","every operation that touches a lock or a guarded field; which lock guards a field is inferred from the accesses that hold one"),
"P18":("effect and typestate analysis of every data operation and of the transaction's commit, with linear arithmetic over the schema changes looked at","every path of every operation given a recording transaction, of Commit with the check inlined, and of every function that creates a transaction or changes its recorded set"),
"P22":("typestate analysis by abstract interpretation of every schema-changing worker, one transaction at a time, of every reload and of the applying and building of snapshots; record map of the catalog operations","every path of every worker, reload, apply and build; catalog operations are atomic steps that succeed or fail, what is known of stored records is dropped between transactions; the index reorganisation step is unfinished in the code and changes nothing"),
"P23":("typestate analysis by abstract interpretation of every request and worker of the schema job queue, one transaction at a time","every path of every operation and worker that reaches the catalog's writing operations; catalog operations are atomic steps that succeed or fail; what is known of stored jobs is dropped between transactions"),
"P24":("effect and typestate analysis of every data operation: which transaction each storage step goes to, and how it ends","every path of every exported operation of the types that take a document transaction; each storage step succeeds or fails independently"),
"P29":("abstract interpretation with symbolic terms: contract of each document operation over the keys and values it touches","every path of every document operation; collection-wide removal that first collects keys and deletes later is decided for the keys, not for completeness"),
"P25":("typestate analysis of every operation against the counter of operations in progress, and abstract execution of every operation from every state Close leaves","every path of Close, of a second Close and of every operation of the database and its collections; the counter library is trusted to count"),
"P11":("escape and alias analysis of every scan callback by abstract interpretation: what outlives the callback may not share memory with the bytes it was lent","every path of every callback given to a scan; decoding libraries are trusted to copy what they decode (encoding/json and bson do)"),
"P20":("ownership analysis by abstract interpretation: depth and completeness of every copying method, provenance of everything changed, published or handed out","every path of every copying method and of every operation that reaches the published value; callers outside the module are trusted not to change what only the schema package hands out"),
"P26":("effect and typestate analysis of index creation, removal, loading and listing over symbolic keys","every path; a transaction that commits is serializable (P30); what earlier versions stored is taken as consistent"),
"P12":("abstract interpretation of every hash operation with linear arithmetic: a ghost counter of fields added and removed against the count stored","every path of every hash operation over arbitrary fields and values; fields are written only through these operations; counts do not wrap"),
"P13":("abstract interpretation of every list operation with linear arithmetic: ghost bounds against the bounds stored","every path of every list operation over arbitrary values and indexes; elements are written only through these operations; bounds do not wrap"),
"P10":("typestate analysis by abstract interpretation of every operation of both storage engines against the libraries they wrap","every path; each library step succeeds or fails independently; what the libraries do is modelled from their documentation, and the byte loop computing the key behind a prefix is trusted"),
"P15":("abstract interpretation in a bit-provenance domain (each bit is 0, 1, a bit of the value, its complement or unknown) of every encoder and decoder pair","all 64-bit and 8-bit integers and all floating point values but NaN; variable-length encodings are outside the statement"),
"P14":("abstract interpretation of every storage access to key shapes (symbolic terms), then automata over bytes: pairwise disjointness, unambiguous parts, scan ranges inside one shape","every storage access of every exported operation of the structures, the documents and the catalog; all names, ids and values; the group encoding itself is taken as injective and self-delimiting (P31)"),
"P27":("abstract interpretation in a bit-provenance domain with sums of lengths: every message's Size, Marshal and Unmarshal against the message definition","every field of every message, alone and in combination, all values and all lengths below 2^33; repeated fields with up to two elements, nested messages by induction; the layout read from pb/mondis.proto is the oracle"),
"P28":("abstract interpretation and typestate of every client call and every history of calls on a client transaction","every path; replies carry arbitrary commands, ids and contents"),
}
NA={
"P30":"serializability and durability come from the third-party storage engine's runtime concurrency control and disk format; no property of this repository's source decides them",
"P31":"order preservation of the group encoding quantifies over byte loops of unbounded length with data-dependent carries; no sound static rule in reach decides it (its crash-freedom is part of P07)",
"P32":"liveness across crashes and restarts quantifies over unbounded schedules and fault sequences; the safety side of the same protocol is P23",
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for p in props:
    if p not in CLAIMED and p not in NA: NA[p]="check not built yet"
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    if p in CLAIMED:
        t,n=CLAIMED[p]
        m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":t,"level":"other","level_note":n})
    else: m["not_applicable"].append({"property":p,"reason":NA[p]})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
