#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PSD = "internal/party/ProactivizeAndShareDist.go"
prop("C01", "Handoff preserves the secret; honest shares agree on one polynomial",
 "Whatever up to F faulty members per committee do and however messages are delayed or interleaved, the honest members of the new committee that complete a handoff hold shares of the secret the honest dealer shared: the full and reduced shares of all of them agree with one bivariate polynomial of degree F by 2F. Any F+1 of their full shares, and any 2F+1 of their reduced shares, reconstruct exactly that secret.",
 ["schedules", "fault_sequences", "crash_points", "inputs"],
 "all interleavings of the members' tasks and message deliveries, all <=F crash/Byzantine behaviours per committee, all secrets and committee sizes N=3F+1",
 "TestCompleteProcess runs one fault-free localhost execution whose interleaving is whatever the Go scheduler did; it never delays, crashes or corrupts a member, and wrong shares only appear under particular orders of commit, recover, agreement output and refresh.",
 ["internal/party/client.go", "internal/party/VSS.go", "internal/party/ShareReduce.go", PSD, "internal/polyring/interpolation.go"],
 [("dealer shares B(x,y), B(0,0)=s", "internal/party/client.go Share"), ("share reduction by verified interpolation", "internal/party/ShareReduce.go ShareReduceReceive"), ("refresh with the agreed zero-sharings", PSD + " Refresh"), ("share distribution and interpolation of 2F+1 verified points", PSD + " ShareDist")],
 [("fullShare", "B(i,y)", "internal/party/party.go"), ("reducedShare", "B(x,i)", "internal/party/party.go")],
 ["end of ProactivizeAndShareDist"])
prop("C02", "Handoff completes with up to F faulty members per committee",
 "If at most F members of each committee are faulty (crashed at any point, silent, slow, or sending arbitrary messages) and messages between honest members are eventually delivered, every honest member of the new committee eventually completes the handoff it takes part in. No delivery order, duplicate or extra message from faulty members can leave an honest member waiting forever.",
 ["schedules", "fault_sequences", "crash_points"],
 "all fair schedules and all <=F fault behaviours per committee; decided as progress to completion once the simulator has delivered everything deliverable",
 "The tests run all N members fault-free and pass or time out on one schedule; a lost wake-up, a quorum counted wrongly or a handler that stops listening only hangs when the right F members are silent at the right moment.",
 ["internal/party/ShareReduce.go", PSD, "internal/party/main_process.go", "internal/party/message_handler.go", "internal/party/RBC.go", "pkg/core/receive.go", "pkg/core/send.go"],
 [("F+1 / 2F+1 quorums", PSD), ("reliable broadcast totality", "internal/party/RBC.go"), ("agreement termination", "internal/party/main_process.go")],
 None, ["return of ProactivizeAndShareDist"])
prop("C03", "Every handoff re-randomises shares with an agreed set of F+1 contributions",
 "The sharing held by the new committee differs from the old one by exactly the sum of the zero-sharings contributed by one set of members that all honest members agree on, which has at least F+1 distinct members. In particular the shares really change, each counted contribution is used exactly once, and none from outside the agreed set is added.",
 ["schedules", "fault_sequences", "inputs"],
 "all schedules of commit/reshare/recover/agreement, all <=F faulty contributors",
 "The complete-process test checks that the secret is preserved, which also holds if nothing is refreshed or if members refresh with differently sized sets of zero-sharings that happen to match in that run.",
 [PSD, "internal/party/main_process.go"],
 [("Q_i with Q_i(0,0)=0", PSD + " Commit/Reshare"), ("agreement input needs F+1 certified contributors", PSD + " Recover"), ("sum over the agreed set", PSD + " Refresh")],
 [("Qsum", "sum of the agreed Q_j(x,i)", PSD), ("MVBARes.J", "agreed contributor set", PSD)])
prop("C04", "Dealt shares are verified: honest dealer accepted, bad dealing not adopted",
 "A member that receives an honest dealer's sharing adopts shares that agree with every other honest member's and reconstruct the dealer's secret. A member whose dealing is inconsistent with its own commitments, or whose commitments are inconsistent with each other or with the published g^s, adopts nothing from it, whatever fields the dealer corrupted.",
 ["inputs", "schedules", "fault_sequences"],
 "all secrets, all corruptions of any field of any subset of the dealer's messages, all delivery orders",
 "TestVSS and TestDealer run one honest dealer; no test feeds a dealing with a wrong value, witness, commitment or g^s to a member.",
 ["internal/party/client.go", "internal/party/VSS.go", "internal/party/party_utils.go"],
 [("KZG and consistency checks of a dealing", "internal/party/VSS.go VerifyVSSSendReceived"), ("dealing construction", "internal/party/client.go Share")],
 [("fullShare", "adopted share", "internal/party/party.go"), ("Proof", "adopted commitments", "internal/party/party.go")])
prop("C05", "Commitment transfer and share reduction survive F bad old members",
 "Although up to F members of the old committee send wrong, malformed, repeated or no commitment and share-reduction messages, every honest new member ends the transfer with exactly the commitments the honest old members hold and with its own correct reduced share B(x,i), and it does end it. No order or repetition of the faulty members' messages makes it adopt anything else.",
 ["inputs", "schedules", "fault_sequences"],
 "all arrival orders and all messages of <=F faulty old members, per new member",
 "TestShareReduce and TestCompleteProcess only have honest old members, so the F+1 matching rule and the verification of each point are never exercised.",
 ["internal/party/ShareReduce.go"],
 [("F+1 identical commitment vectors", "internal/party/ShareReduce.go PrepareReceive"), ("F+1 verified points with the same commitment", "internal/party/ShareReduce.go ShareReduceReceive")],
 [("reducedShare", "B(x,i)", "internal/party/party.go")])
prop("C06", "Reliable broadcast: honest members deliver the same message, all or none",
 "No two honest members deliver different messages for the same broadcast instance, even when the broadcaster equivocates and up to F members send arbitrary echo and ready messages. If one honest member delivers, every honest member eventually delivers, whatever order messages arrive in.",
 ["schedules", "fault_sequences", "inputs"],
 "all delivery orders, equivocating/partial broadcasters, <=F members sending wrong, repeated or conflicting echoes and readies",
 "TestRBC, TestRBCExlude and TestMultiRBC use honest members and at most an excluded receiver; they never see an equivocating sender, a corrupt shard or a conflicting ready.",
 ["internal/party/RBC.go"],
 [("2F+1 echo / F+1 ready amplification / 2F+1 ready delivery", "internal/party/RBC.go RBCReceive"), ("online error correction with hash check", "internal/party/RBC.go RBCReceive")],
 None, ["return of RBCReceive"])
prop("C07", "Reliable broadcast: an honest broadcaster's message is delivered unchanged",
 "When the broadcaster is honest, every honest member eventually delivers exactly the message it broadcast, of whatever length, despite up to F members that crash, stay silent, or send wrong, duplicated or malformed echoes, readies and shards. Concurrent instances never mix: a member never delivers for one instance a message broadcast in another or one its broadcaster never sent.",
 ["schedules", "fault_sequences", "inputs"],
 "all message lengths, all delivery orders and <=F faulty members, several instances in flight",
 "The tests broadcast one short message among honest members; erasure decoding with missing or wrong shards is never exercised because all N readies are correct.",
 ["internal/party/RBC.go", "pkg/utils/utils.go"],
 [("Reed-Solomon shards plus hash and length", "internal/party/RBC.go"), ("instance ids in message routing", "internal/party/party_utils.go GetMessage")],
 None, ["return of RBCReceive"])
prop("C08", "Byzantine agreement: all honest members output the same value",
 "No two honest members output different values from the same agreement instance, under any message schedule and any behaviour of up to F faulty members. This includes runs in which some members decide a round earlier than others or learn the decision only from a halt message.",
 ["schedules", "fault_sequences", "inputs"],
 "all schedules and <=F faulty members' messages; any number of rounds",
 "The only test that runs agreement uses ten honest members and checks nothing about its output; disagreement needs members to reach the coin, the shortcut and the votes in different orders.",
 ["internal/party/main_process.go", "internal/party/message_handler.go", "internal/party/spb.go", "internal/party/pb.go"],
 [("finish/halt certificates bound to the round leader", "internal/party/message_handler.go"), ("lock and (pre)vote rules", "internal/party/main_process.go")],
 None, ["return of MainProcess"])
prop("C09", "Byzantine agreement terminates with up to F faulty members",
 "If all honest members start an agreement instance and at most F members are faulty, every honest member eventually outputs a value, in every message schedule. In particular it survives members that stop in the middle of a broadcast, votes that split, and members that decide and leave while others are still voting.",
 ["schedules", "fault_sequences", "crash_points"],
 "all fair schedules, all crash points and message mutations of <=F members, several rounds",
 "The complete-process test runs fault-free, where the first round's shortcut almost always succeeds, so the pre-vote, vote and next-round code is hardly ever run.",
 ["internal/party/main_process.go", "internal/party/message_handler.go", "internal/party/pb.go"],
 [("done/coin thresholds", "internal/party/message_handler.go"), ("pre-vote/vote/next round", "internal/party/main_process.go")],
 None, ["return of MainProcess"])
prop("C10", "Agreement output was proposed by a member and is valid for refresh",
 "The value honest members output from agreement is one that some member proposed in that instance, unmodified; with honest proposers only, it is an honest member's proposal. During a handoff the contributor set that comes out contains at least F+1 distinct, existing members, each backed by 2F+1 members' signatures, even if faulty members propose invalid sets.",
 ["schedules", "fault_sequences", "inputs"],
 "all schedules and all proposals of <=F faulty members (empty, duplicated, out-of-range or unsigned sets)",
 "No test inspects the agreement output or proposes an invalid set.",
 ["internal/party/main_process.go", "internal/party/pb.go", "internal/party/spb.go", PSD],
 [("proposal carried through provable broadcast", "internal/party/pb.go"), ("F+1 certified contributors before proposing", PSD)],
 None, ["return of MainProcess", "value applied in Refresh"])
prop("C11", "A quorum certificate exists for at most one value per broadcast instance",
 "In agreement, no two certificates for different values can be formed for the same provable-broadcast instance and phase, and every certificate that honest members send or accept is backed by shares of at least 2F+1 distinct members. An honest member therefore signs at most one value per instance and phase, signs the second phase only for a value with a valid first-phase certificate, and counts each member once.",
 ["schedules", "fault_sequences", "inputs"],
 "all schedules; equivocating proposers; members that resend, replay or alter shares",
 "Tests never look at signatures on the wire and never run an equivocating proposer.",
 ["internal/party/pb.go", "internal/party/spb.go", "internal/party/message_handler.go"],
 [("one echo per instance", "internal/party/pb.go Receiver"), ("2F+1 verified shares", "internal/party/pb.go Sender"), ("first-phase certificate validated", "internal/party/spb.go validator")],
 None, ["Echo, Value, Finish, Halt, PreVote, Vote messages"])
prop("C12", "Honest members elect the same round leader, only after 2F+1 finish",
 "All honest members that learn the leader of an agreement round learn the same one, it is an existing member, and it cannot become known before at least F+1 honest-or-faulty members released their coin share. An honest member releases its coin share only after it has seen 2F+1 finished broadcasts of distinct members or F+1 released coin shares of distinct members.",
 ["schedules", "fault_sequences"],
 "all orders of finish and coin messages, duplicated/invalid coin shares from <=F members",
 "Tests never observe the leader or the order of coin messages.",
 ["internal/party/main_process.go", "internal/party/message_handler.go"],
 [("2F+1 finish or F+1 done before the coin share", "internal/party/message_handler.go"), ("threshold coin", "internal/party/message_handler.go")],
 None, ["Done, PreVote, Vote and Halt messages"])
prop("C13", "Links deliver every message once, intact and in order",
 "Messages queued from one member to another arrive at the receiving member exactly once, byte for byte equal to what was sent and in the order they were queued, however the byte stream is segmented, coalesced or delayed by the network. This holds for messages of every size, including empty ones, and for any number of simultaneous senders.",
 ["inputs", "schedules", "fault_sequences"],
 "all segmentations and delays of the streams, all message sizes and contents, many concurrent senders",
 "On loopback each write usually arrives whole, so the tests do not exercise partial reads, several frames per read, or interleaved connections.",
 ["pkg/core/send.go", "pkg/core/receive.go", "pkg/utils/utils.go"],
 [("4-byte length framing with full reads", "pkg/core/receive.go MakeReceiveChannel"), ("single writer per connection", "pkg/core/send.go MakeSendChannel")],
 None, ["channel returned by MakeReceiveChannel"])
prop("C14", "Each message reaches the waiting protocol instance, early or late",
 "Every message received is handed to whoever asks for exactly its type and instance id, and to nobody else, once, in arrival order per sender, no matter whether it arrives before or after that part of the protocol starts waiting. Traffic held for parts that have not started yet does not stop delivery to the others.",
 ["schedules", "inputs", "histories"],
 "all orders of arrival and of asking, all interleavings of concurrent first use of an instance, many types and ids",
 "The dispatcher test is commented out; in the other tests consumers normally wait before the message arrives.",
 ["pkg/core/dispatche.go", "internal/party/party_utils.go"],
 [("type -> id -> queue map created on first use by either side", "pkg/core/dispatche.go MakeDispatcheChannels, internal/party/party_utils.go GetMessage")],
 None, ["GetMessage"])
prop("C15", "The failure of one member or link does not take down others",
 "When a member crashes, disconnects, resets its connections, stops in the middle of a message, or opens more connections than another member has file descriptors for, at any moment, no other member's process ends because of it, and the others keep exchanging messages among themselves. Messages already fully received from the failed member stay usable.",
 ["crash_points", "schedules", "fault_sequences"],
 "all crash instants, including in mid-frame and mid-broadcast, of <=F members",
 "No test closes a connection or stops a member before the end.",
 ["pkg/core/receive.go", "pkg/core/send.go"],
 [("per-connection receive and send tasks", "pkg/core/receive.go, pkg/core/send.go")],
 None, ["process exit of honest members"])
prop("C16", "No message from a faulty member makes an honest member's process end",
 "Whatever bytes up to F faulty members send on their connections - undecodable frames, missing or extra list entries, invalid curve points, out-of-range indices, duplicates, unknown types - no honest member panics, exits or aborts because of them.",
 ["inputs", "fault_sequences", "schedules"],
 "all contents of all message types and fields at every protocol stage",
 "Tests only send messages produced by honest code.",
 ["pkg/core/receive.go", "internal/party/VSS.go", "internal/party/ShareReduce.go", "internal/party/RBC.go", PSD, "internal/party/message_handler.go", "internal/party/pb.go"],
 [("decoding and validation of every received field", "internal/party")],
 None, ["process exit of honest members"])
prop("C17", "The new committee can hand off again: commitments and witnesses stay in step",
 "After a handoff every honest new member holds commitments to exactly the refreshed sharing, and 2F+1 witnesses that verify its new full share against them. Consecutive handoffs therefore keep working: after any number of them the current committee still reconstructs the original secret.",
 ["histories", "schedules", "fault_sequences"],
 "all numbers of consecutive handoffs, schedules and <=F faults per committee",
 "The tests perform a single handoff and never inspect what a second one would start from.",
 [PSD, "internal/party/ShareReduce.go", "internal/party/party.go"],
 [("state carried into the next epoch", PSD + " ShareDist"), ("reading of that state", "internal/party/ShareReduce.go ShareReduceSend/PrepareSend")],
 [("Proof", "commitments to B(x,j)", "internal/party/party.go"), ("witness, witnessIndexes", "witnesses of the full share", "internal/party/party.go")])
prop("C18", "F members per committee never receive enough to determine the secret",
 "The share data that up to F members of the old and up to F members of the new committee receive over the network during sharing and handoff, all together, never determines the secret, and never determines another honest member's refreshed share. Secret share values are sent only to the member they are meant for. The polynomials with which honest dealers and contributors hide share values are random in every coefficient.",
 ["schedules", "fault_sequences", "histories"],
 "all coalitions of F old and F new members, all schedules and crash/silence faults, consecutive handoffs",
 "Tests check that shares are correct, not who received them; a value sent to one member too many leaves every test passing.",
 ["internal/party/client.go", "internal/party/ShareReduce.go", PSD],
 [("addressing of share values", "internal/party/client.go Share, internal/party/ShareReduce.go ShareReduceSend, " + PSD + " Reshare/Recover/ShareDist")],
 None, ["payloads of VSSSend, ShareReduce, Reshare, Recover, ShareDist per destination"])
prop("C19", "The deployed node programs complete a whole epoch despite start-up skew",
 "When the node programs of both committees and the client are started from one setup with start times within the configured waiting intervals, every old member finishes sharing and share reduction, every new member finishes the handoff, and all record their completion, for every committee size and every machine speed and message delay within those intervals. This also holds for the other programs when up to F members of each committee crash, never start, or crash and are started again. The secret reconstructed from the new members is the client's.",
 ["schedules", "configurations", "fault_sequences"],
 "all start orders and skews within the intervals, clock skew, scheduling and delays, both deployment modes",
 "The program entry point has no test at all; the shell scripts are run by hand.",
 ["cmd/DyCAPs/main.go", "internal/party/keygen.go", "internal/party/party_utils.go"],
 [("role sequences and start intervals", "cmd/DyCAPs/main.go main"), ("key material files", "internal/party/keygen.go")],
 None, ["log files and shares of each node program"])
prop("C20", "Setup key files: all members load one key, or refuse to start",
 "All members started from one setup derive the same threshold public key and distinct matching secret shares: any 2F+1 of them produce a signature that verifies under it, and the old and the new committee have different keys. If writing or copying a setup file was interrupted, lost, torn or failed, a member started from it stops with an error instead of running with different key material, and setup reports the failure.",
 ["crash_points", "fault_sequences", "inputs"],
 "all crash points and disk errors while the two files are written, all truncations, all N and F",
 "Tests use keys made in memory; the files are never written, read, torn or truncated by a test.",
 ["internal/party/keygen.go", "cmd/DyCAPs/main.go"],
 [("gob files of polynomial coefficients", "internal/party/keygen.go GenCoefficientsFile/ReadFromFile/WriteToFile")],
 None, ["coefficients, coefficients_new"])
# pure functions: listed, not claimed
prop("C21", "KZG commitments, openings and checks are mutually consistent",
 "For every polynomial within the setup's degree and every point, the opening proof computed for the true value passes the check against the commitment, and no other value passes with that proof.",
 ["inputs"], "all polynomials, points, values", "Unit tests sample a few fixed polynomials.",
 ["internal/polycommit/kzg.go", "internal/polycommit/kzg_single_proofs.go", "internal/polycommit/kzg_multi_proofs.go"], [("pairing check", "internal/polycommit/kzg_single_proofs.go")])
prop("C22", "FFT, zero-polynomial and sample recovery agree with polynomial arithmetic",
 "FFT and inverse FFT are inverse to each other for field and group elements, and recovery from at least half of the samples returns the original data.",
 ["inputs"], "all inputs and all missing-sample sets", "Unit tests sample a few sizes.",
 ["internal/polycommit/fft_fr.go", "internal/polycommit/fft_g1.go", "internal/polycommit/zero_poly.go", "internal/polycommit/recover_from_samples.go"], [("FFT", "internal/polycommit/fft_fr.go")])
prop("C23", "Interpolation returns the unique polynomial through the given points",
 "For distinct abscissae, interpolation returns the unique polynomial of the requested degree, and Lagrange coefficients reproduce its value at any target.",
 ["inputs"], "all point sets", "Unit tests sample random polynomials.",
 ["internal/polyring/interpolation.go", "internal/party/party_utils.go"], [("Lagrange basis", "internal/polyring/interpolation.go")])
prop("C24", "All curve and field back ends compute the same results",
 "The selectable big-number and BLS back ends agree with each other on every operation and encoding.",
 ["inputs", "configurations"], "all operands, all build tags", "Tests run per back end against fixed vectors.",
 ["internal/bls"], [("build-tag selected back ends", "internal/bls")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
