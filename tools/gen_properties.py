#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

LC="signer/local_cosigner.go"; SS="signer/sign_state.go"; TV="signer/threshold_validator.go"
RS="signer/raft_store.go"; RE="signer/raft_events.go"; GS="signer/grpc_server.go"; RC="signer/remote_cosigner.go"
RM="signer/remote_signer.go"; PG="signer/PvGuard.go"; SE="signer/Serialization.go"; CK="signer/cosigner_key.go"
KS="signer/cosigner_key_shares.go"; CC="cmd/horcrux/cmd/config.go"; CS="cmd/horcrux/cmd/cosigner.go"
SG="cmd/horcrux/cmd/signer.go"; ST="cmd/horcrux/cmd/state.go"; K2="cmd/horcrux/cmd/key2shares.go"; RT="cmd/horcrux/cmd/root.go"

p("C01","A cosigner never releases conflicting or regressing signature shares",
  "For one key share, a cosigner never releases signature shares for two payloads of the same height, round and step that differ in anything other than the timestamp, and never releases a share for a height, round and step below one it has already signed or been told the cluster has signed. This holds for every order of nonce exchange, signing, cluster notifications and clean restarts, including requests handled concurrently. A refused request changes nothing: afterwards every request is answered as if the refused one had not been made.",
  ["histories","schedules","inputs"],
  "All sequences (bounded depth) of nonce exchange / sign / last-signed notification / restart over payloads that vary every field, and all interleavings (bounded preemptions) of concurrent requests.",
  "The unit tests sign one or two payloads in one order on one goroutine; the guarantee quantifies over all request histories and interleavings.",
  [LC,SS,SE],[("watermark check before signing","LocalCosigner.sign / SignState.CheckHRS"),("watermark save","SignState.Save"),("one mutex around check, sign, save","lastSignStateMutex")],
  ["responses of SetEphemeralSecretPartsAndSign"],[("lastSignState","highest height/round/step signed and its bytes",SS)])

p("C02","A released share signature is durable: no crash can make a cosigner forget",
  "When a cosigner's answer carrying a signature share leaves it, the height, round, step and payload that share covers are already on stable storage, so that after a crash at any instant and a restart it refuses conflicting or lower requests exactly as before. At every instant a crash leaves a state file that still loads and is not older than the last released share. If the state cannot be stored, no share is released.",
  ["crash_points","schedules","fault_sequences"],
  "Every prefix of the write/sync/rename log of a signing history, every way of losing unsynced writes, and every interleaving of the saving goroutines; injected write errors.",
  "No test crashes the process or inspects the disk between the write calls; persistence happens off the request path and a test sees only one schedule.",
  [SS,LC],[("atomic replace of the state file","SignState.save / tempfile.WriteFileAtomic"),("save before response","SignState.Save")],
  ["state file contents","responses of SetEphemeralSecretPartsAndSign"])

p("C03","Signing watermarks never move backwards, in memory or on disk",
  "Recording a signed (height, round, step) succeeds exactly when it is strictly greater, in lexicographic order, than the recorded one, and a refused record changes nothing. Neither the state in memory nor the state file is ever replaced by a lower one, whatever saves run concurrently, and what is reloaded equals what was saved, field for field. Entries of the three heights below the current one stay available for lookup, and older ones are dropped.",
  ["schedules","histories","inputs"],
  "All save/lookup/reload sequences up to a depth over heights (including above 2^32 and the cache-window edges), rounds and steps; all interleavings of concurrent saves with a bounded number of preemptions.",
  "Unit tests never save concurrently, so ordering of file writes and lost updates are invisible; they touch only a few adjacent heights.",
  [SS],[("monotone check","SignState.GetErrorIfLessOrEqual"),("check and mutate under one lock","SignState.Save"),("cache pruning","SignState.Save")],
  ["SignState.Save result","state file contents","GetFromCache"])

p("C04","The cluster never produces conflicting signatures for one height/round/step",
  "No execution of the cluster (leader changes, two nodes that both believe they lead, lost or delayed messages, crashed and restarted cosigners, requests arriving at several nodes at once) yields two valid signatures of the validator key over votes or proposals of the same chain, height, round and step that differ in more than the timestamp. It also yields none for a position below one for which the same threshold of cosigners already signed.",
  ["schedules","fault_sequences","crash_points","histories"],
  "2-of-3 and 3-of-4 clusters of the real components; every placement of a bounded number of faults (drop request, drop response, delay, crash/restart, leadership move) and preemptions over conflicting requests.",
  "Integration tests need Docker and run the happy path; no test explores partitions, dual leadership or crash timing.",
  [TV,LC,RS,RE,GS,SS],[("per-cosigner watermark intersecting in any two thresholds","LocalCosigner.sign"),("one attempt per block","SaveLastSignedStateInitiated"),("last-signed replication","handleLSSEvent")],
  ["signatures returned by SignVote/SignProposal on any node"])

p("C05","Success means a valid signature for exactly the returned payload",
  "Whenever signing a vote or proposal succeeds, the signature returned verifies under the validator public key over the canonical bytes of the vote or proposal that is returned, with the chain's id and with every field except the signature and the timestamp as requested. The one exception is a proposal for an already signed position, which gets back exactly the signature released before. A failed request never carries a signature.",
  ["inputs","histories","fault_sequences"],
  "All request histories up to a depth over payloads varying every field, on leader and follower, with faulty/corrupting peers.",
  "Tests check one signature per scenario from honest peers; wrong or missing signatures returned with success need a particular history or a misbehaving peer.",
  [TV,LC,RM,GS],[("verification of the combined signature before release","ThresholdValidator.SignBlock"),("existing signature lookup","getExistingBlockSignature")],
  ["SignVote/SignProposal results","sentry responses"])

p("C06","Repeated requests get the recorded answer; conflicting ones are refused",
  "Asking again to sign a position the cluster has already signed (from any sentry, on the same or a different leader, including after a change to a leader that the record has reached) returns the recorded signature when the payload is identical to the recorded one, and for votes never a signature when the payload differs in more than the timestamp. The recorded signatures of the current and the previous three heights remain retrievable this way on every running node that saw them signed. A request below the last signed position that has no recorded signature is refused.",
  ["histories","schedules","inputs"],
  "All sequences of requests over positions spanning the retention window, both alternating payloads, timestamps and leader changes; concurrent duplicate requests under all bounded interleavings.",
  "Tests repeat a request on the same leader sequentially; concurrent duplicates from several sentries and repeats after failover are not covered.",
  [TV,SS,RE],[("cache of recent signatures","SignState.cache / getExistingBlockSignature"),("wait for in-progress block","SignBlock SameHRS loop"),("replication of the last signature","handleLSSEvent")],
  ["SignVote/SignProposal results"])

p("C07","Signing nonces are never reused and never lack the cosigner's own part",
  "A cosigner never releases shares for two different payloads that were produced with the same nonce share, and never one whose nonce lacks its own secret contribution, whatever the order, repetition or omission of nonce-exchange and signing messages, also across restarts. Hence no set of answers obtained from a cosigner reveals its key share.",
  ["histories","inputs","schedules"],
  "All message sequences up to a depth over positions, timestamps, payloads, senders, omitted or repeated parts and restarts; nonces are recovered algebraically from every released share.",
  "The existing tests sign each position once with the full set of parts; reuse only shows after particular message orders and is invisible without recovering the nonce.",
  [LC],[("nonce secrets kept per height/round/step/timestamp","hrsMeta / dealShares"),("nonce assembly","LocalCosigner.sign")],
  ["SetEphemeralSecretPartsAndSign responses"])

p("C08","Nonce parts are authenticated, confidential and dealt once",
  "A cosigner uses a nonce part only if it was signed by the cluster member it claims to come from and was encrypted to this cosigner; an altered source, public value, ciphertext or signature, a foreign key or an unknown sender is rejected and leaves earlier accepted parts unchanged. Parts handed out reveal a secret only to the addressed member, and however often they are requested for the same position and timestamp they are parts of one and the same secret, with a public value that matches it. The share a request is answered with is made of the own part and exactly the parts of that request, unless it repeats the recorded share; nothing kept from refused requests or learned from the cluster takes its place.",
  ["inputs","histories"],
  "Every single-field alteration of a part, every source/destination pairing, and all orders of repeated dealing and receiving in 2-of-3 and 3-of-5 configurations.",
  "Tests only pass genuine parts to their addressees once.",
  [LC],[("RSA-PSS source signature","setEphemeralSecretPart"),("RSA-OAEP encryption to the peer","getEphemeralSecretPart"),("memoised dealing","dealShares")],
  ["GetEphemeralSecretParts responses","SetEphemeralSecretPartsAndSign results"])

p("C09","Key splitting: any t of n shares sign for the key, fewer never do",
  "For every accepted threshold t and share count n, the share files written are numbered 1..n, carry the original public key and matching transport keys (RSA of at least 2048 bits), survive being written and read back unchanged, and any t of them together produce signatures valid under the original key while no t-1 of them do. Parameters for which this cannot hold (t below 2, t above n, t not more than n/2, n above 255, non-numbers) are refused with an error and no share file is written. Key files in the older public-key encoding still load as the same key.",
  ["inputs","configurations"],
  "All (t, n) pairs up to a bound, all subsets of size t and t-1, and boundary/invalid parameter combinations.",
  "Tests split once, 2 of 3, and combine one subset.",
  [KS,CK,K2],[("Shamir dealing","CreateCosignerShares"),("argument validation","validateCreateCosignerShares"),("key file codec","CosignerKey.MarshalJSON/UnmarshalJSON")],
  ["share files","create-shares exit status"])

p("C10","Any threshold of responsive cosigners suffices, and every request ends",
  "When the leader and at least threshold-1 other cosigners are up and answer, a first request to sign the next position succeeds, even if every other cosigner is down, never answers, or answers the nonce exchange with errors, and however late they answer. Every signing request on any node returns within a bounded time whatever peers or the network do. No schedule deadlocks or crashes a node.",
  ["schedules","fault_sequences","configurations"],
  "2-of-3, 3-of-4, 3-of-5 and 2-of-2 clusters; every assignment of up to n-t faulty peers over a menu of faults (down, error, slow, never answering, late) and all interleavings up to a deviation bound, in virtual time.",
  "Tests use responsive peers and wall-clock time; hang and double-release bugs appear only with specific slow/late answers.",
  [TV,RC,RE],[("bounded waits","waitUntilCompleteOrTimeout"),("threshold accounting","waitForPeerEphemeralShares"),("RPC deadline","getContext")],
  ["SignVote/SignProposal results and (virtual) duration"])

p("C11","The replicated log drives every node to the same state, safely replayable",
  "Applying the same committed log gives every node the same key-value contents, whether entries are applied one by one, after installing a snapshot, or again from the start, and a snapshot taken at one point is unaffected by later entries. Each committed last-signed entry raises both of the node's watermarks and makes the signature available there, and never lowers a watermark when it is old, duplicated or reordered. Malformed entries are ignored without crashing, and a node that is not the leader refuses writes.",
  ["histories","inputs","crash_points"],
  "All sequences of set/delete/last-signed/malformed entries up to a depth with snapshot, restore and replay inserted at every position.",
  "The one store test sets and deletes a key on a single node; replay, snapshots and stale entries are never exercised.",
  [RS,RE],[("log application","fsm.Apply"),("snapshot/restore","fsm.Snapshot, fsm.Restore, fsmSnapshot.Persist"),("last-signed events","handleLSSEvent")],
  ["RaftStore.Get","watermark files","sign results after apply"])

p("C12","Each sentry request gets exactly one matching reply; bad input never kills",
  "On every sentry connection each request is answered by exactly one reply of the matching kind, in order and for that request (errors are reported inside the reply), however the bytes are fragmented and however many sentries are connected. Malformed, oversized or nonsensical messages, lost connections, failing dials and requests of peers while it starts never crash or wedge the signer: it reconnects and serves again, and requests from different sentries never overlap inside the signing backend.",
  ["inputs","schedules","fault_sequences"],
  "All request sequences up to a depth from a menu of valid and hostile messages, all fragmentation points of a message, disconnects at every step, one to three concurrent sentries under bounded interleavings.",
  "No existing test drives the sentry connection at all.",
  [RM,PG,SE],[("request loop","ReconnRemoteSigner.loop/handleRequest"),("framing","ReadMsg/WriteMsg"),("serialisation of backend calls","PvGuard")],
  ["bytes on the sentry connection"])

p("C13","A restarted single signer never double signs",
  "In single-signer mode, whatever sequence of requests, kills, power failures, disk errors and restarts occurs, the signer never releases two signatures for the same height, round and step whose payloads differ in more than the timestamp, nor one for a position below an earlier one. On restart it resumes from the position it last recorded, and refuses to start when an existing state cannot be read.",
  ["histories","crash_points"],
  "All sequences up to a depth of vote/proposal requests (conflicting, lower, higher) and kill/restart on the real binary with its home directory; power failures and errors at every operation of the disk, then a restart on everything the disk may hold.",
  "Single-signer mode has no tests; the defect class needs a restart between two requests.",
  [SG,RM],[("state file of the file-backed key","StartSignerCmd")],
  ["signatures on the sentry connection across restarts"])

p("C14","Configuration commands are exact set edits; failures change nothing",
  "A successful add, remove, share-count, chain-id or init command changes only the named part of the configuration, to exactly the union, difference or value asked for, keeps everything else, and leaves a configuration that loads back identically and has no duplicate or out-of-range member. A command that reports failure leaves configuration and state files exactly as they were; if the machine stops during a command, each file is the old or the new one, and once a command has reported success the new one stays. Invalid values (malformed addresses, duplicate or out-of-range members, removing the last one, more members than shares, unreachable thresholds, overwriting without being asked) are refused.",
  ["histories","inputs","configurations"],
  "All command sequences up to a depth over a small universe of nodes, peers, share counts and chain ids, starting from several initial homes, against a set-based reference; an error or a power failure at every operation of the disk.",
  "The table tests run each command once from one starting configuration and look at a single field.",
  [CC,RT],[("diff/validate/write","addNodesCmd, removePeersCmd, setSharesCmd, setChainIDCmd, initCmd")],
  ["home directory contents before and after each command"])

p("C15","State maintenance never lowers or loses a recorded watermark",
  "Setting the sign state succeeds only when the requested height is above both recorded positions, and then both files durably hold that height (round and step zero, no signature) when the command exits; otherwise, or while a signer runs, the command fails and both files are unchanged. If the disk fails or the machine stops meanwhile, each file holds its old or its new position, under the old or the new name. Showing the state changes nothing and reports what is stored. Renaming the chain moves both watermarks unchanged under the new name and never overwrites a watermark already stored under that name.",
  ["histories","inputs","crash_points"],
  "All sequences of show / set / chain rename / init up to a depth over heights around the recorded ones, on the real command.",
  "Tests set one higher height once and wait for the background write.",
  [ST,CC,SS],[("monotone save","SignState.Save"),("rename of state files","setChainIDCmd")],
  ["state files after command exit","exit status"])

p("C16","Start-up fails closed: no share, state or valid configuration, no signing",
  "A node starts serving only if its key loads, its double-sign protection state loads, and its configuration is consistent (chain id, nodes, peers within the shares and without duplicates, threshold reachable and a majority, valid addresses and durations); otherwise it exits with an error without creating, replacing or truncating any key or state file. When it does start it uses the state recorded for the configured chain.",
  ["configurations","inputs","fault_sequences"],
  "Every single corruption (missing, empty, truncated, wrong type, wrong value) of each input file and configuration field, and pairs of them.",
  "No test starts the cosigner or the single signer from damaged files.",
  [CS,SG,CC,SS,CK],[("loading without creating","LoadSignState"),("config validation","validateCosignerConfig/validateSingleSignerConfig")],
  ["exit status, files in the home directory, listening port"])

p("C17","The position guarded is the position in the payload, to the bit",
  "The height, round, step and timestamp used to guard a signature are exactly those encoded in the bytes being signed, for proposals, prevotes and precommits with every field at its extremes (timestamps representable in nanoseconds), and bytes that are neither are refused without crashing. Two payloads are treated as the same except for time exactly when they are of the same kind and every field other than the timestamp (chain id, height, round, type, block hash, part set, proof-of-lock round) is equal.",
  ["inputs"],
  "The full product of small boundary domains for every field of votes and proposals (and all pairs), plus every truncation and single-byte alteration of sample payloads.",
  "Tests compare two hand-picked payloads; the equivalence must hold for all pairs of payloads.",
  [SE,SS,TV],[("payload decoding","UnpackHRST"),("timestamp-only comparison","onlyDifferByTimestamp")],
  ["UnpackHRST, OnlyDifferByTimestamp results"])

p("C18","Malformed peer traffic is refused and never crashes or corrupts a node",
  "Any request a peer can send to a cosigner, even while it starts, and any response a peer can return to the leader (missing parts, wrong sizes, out-of-range ids, undecodable payloads, altered bytes), ends in an error or a valid result, never in a crash, a wedged node, an invalid signature or a changed watermark. Afterwards correct requests still succeed.",
  ["inputs","fault_sequences"],
  "Every single-field mutation from a boundary menu of each of the requests and responses, in every position of a signing round, followed by a correct round.",
  "Tests have only honest peers using the Go API directly.",
  [GS,LC,TV,SE],[("input checks","setEphemeralSecretPart, sign, UnpackHRST"),("response handling","waitForPeerSetEphemeralSharesAndSign")],
  ["RPC results, process liveness"])

p("C19","A request sent to a follower is answered exactly as the leader answers it",
  "Signing through a node that is not the leader gives the same signature, timestamp, refusal and effect as asking the leader directly: every field of the request reaches the leader unchanged and only the leader drives the cosigners. With no leader, or an unreachable one, the request fails within a bounded time and without side effects, and succeeds again once a leader is known.",
  ["inputs","fault_sequences","schedules"],
  "All payload kinds and boundary field values through each follower, with leader absence, leader change and RPC faults at each step, differentially against the leader.",
  "Follower proxying is not covered by any runnable test.",
  [TV,RE,GS,RS],[("proxy to the leader","ThresholdValidator.SignBlock / LeaderSignBlock"),("wait for a leader","getLeaderGRPCClient")],
  ["SignVote/SignProposal results on followers"])

p("C20","Leadership commands reach exactly the intended member",
  "A request to move leadership to a named member asks the consensus layer for exactly that member and its configured address, and reports them; an unnamed or unknown target asks for a transfer to any member, and a node that is not the leader refuses to write. Moving leadership back and forth between signing requests never loses, repeats or changes a signature.",
  ["histories","configurations"],
  "Every target id (valid, unknown, empty, own) on every cluster size 2..5 and all sequences of transfers and signing requests up to a depth.",
  "Leadership transfer has no runnable tests.",
  [GS,RS,"cmd/horcrux/cmd/leader_election.go"],[("target lookup","GRPCServer.TransferLeadership"),("membership at bootstrap","RaftStore.Open")],
  ["calls into the consensus layer, RPC responses"])

p("C21","The reported identity is exactly the validator's",
  "The identity a cosigner reports (hex address, public key, bech32 consensus address and bech32 public key for a chain's prefix) is exactly that of the validator public key in its configured key file, for every key and prefix, on every member of the cluster alike. Without a readable configuration and key nothing is reported and the command fails. Reporting changes no file.",
  ["inputs","configurations"],
  "All combinations of a key menu (both encodings), prefixes, homes and key locations, and every single damage of the key file of a menu.",
  "No test runs the command; an operator registers whatever it prints, for any key and chain.",
  [CS,CK],[("address derivation","AddressCmd"),("loading of the key","LoadCosignerKey")],
  ["output and exit status of horcrux cosigner address"])

p("C22","A stop request ends a node cleanly and loses nothing",
  "A node asked to stop (terminate or interrupt signal, repeated or not) in any situation (waiting for its sentries or peers, serving, leading, following, partway through a message) ends by itself within a bounded time and reports success. Every file is then as the last finished request left it, a restart resumes from it (same answers to repeats, lower or conflicting positions refused), and a cluster that keeps a threshold of running members goes on signing.",
  ["histories","schedules","configurations"],
  "Every situation of a menu times signal, repetition and number of sentries for the single signer; every history of stops, restarts and requests of a menu, for every target, on real clusters.",
  "No test stops a running node; the order of stopping services, and what is still in flight, differs by situation.",
  ["signer/services.go",RM,CS,SG],[("signal trap stopping all services","WaitAndTerminate"),("sentry connection loop","ReconnRemoteSigner"),("state written before the answer","SignState.Save, PvGuard")],
  ["exit status, state files, answers after restart"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
